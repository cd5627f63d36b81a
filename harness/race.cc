#include "props_race.h"

int main(int argc, char** argv) { return harness_main(argc, argv, race_props()); }
