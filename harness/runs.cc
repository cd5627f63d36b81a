#include "props_threads.h"

int main(int argc, char** argv) {
  auto props = run_props();
  props["C20"] = case_threads;
  return harness_main(argc, argv, props);
}
