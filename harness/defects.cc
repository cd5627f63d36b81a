#include "props_defects.h"

int main(int argc, char** argv) { return harness_main(argc, argv, {{"C11", defects::case_defects}}); }
