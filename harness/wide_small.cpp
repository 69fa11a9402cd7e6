#include "wide.h"
void wide::small(int k, int kind, bool dirty) { members_of<WIDE_SMALL>(k, kind, dirty); }
void wide_members() { wide::all_members(); }
