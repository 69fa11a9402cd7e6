#include "mc.h"
int main(int argc, char** argv) { return mc::explorer_main(argc, argv); }
