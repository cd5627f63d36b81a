#include "props_faults.h"

int main(int argc, char** argv) { return harness_main(argc, argv, {{"C24", faults::case_faults}}); }
