#include "wide.h"
void wide::middle(int k, int kind, bool dirty) { members_of<WIDE_MIDDLE>(k, kind, dirty); }
