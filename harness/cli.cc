#include "memwatch.h"

#include "props_cli.h"

int main(int argc, char** argv) {
  return harness_main(argc, argv, {{"C10", cli::failing_files}, {"C19", cli::case_cli}});
}
