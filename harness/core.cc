#include "props_bool.h"
#include "props_sets.h"

int main(int argc, char** argv) {
  auto props = bool_props();
  props.merge(set_props());
  return harness_main(argc, argv, props);
}
