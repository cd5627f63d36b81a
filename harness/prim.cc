// C15, C16, C17, C23: one program for each, so that one that cannot be built leaves the others alone.
#if PRIM == 15
#include "props_loops.h"
const std::map<std::string, Case_fn> props{{"C15", case_loops}};
#elif PRIM == 16
#include "props_search.h"
const std::map<std::string, Case_fn> props{{"C16", case_search}};
#elif PRIM == 17
#include "props_triangles.h"
const std::map<std::string, Case_fn> props{{"C17", case_triangles}};
#elif PRIM == 23
#include "props_adjacency.h"
const std::map<std::string, Case_fn> props{{"C23", case_adjacency}};
#endif

int main(int argc, char** argv) { return harness_main(argc, argv, props); }
