#include "memwatch.h"

#include "props_io.h"
#include "props_hostile.h"

int main(int argc, char** argv) {
  if (argc > 1 && std::string{argv[1]} == "exchange") return exchange_main(argc, argv);
  if (argc > 2 && std::string{argv[1]} == "make_golden") return make_golden(argv[2]);
  return harness_main(argc, argv, {{"C07", case_kigumi}, {"C08", case_hostile}, {"C09", case_text}, {"C10", case_faults}});
}
