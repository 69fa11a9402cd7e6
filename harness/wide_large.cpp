#include "wide.h"
void wide::large(int k, int kind, bool dirty) { members_of<WIDE_LARGE>(k, kind, dirty); }
