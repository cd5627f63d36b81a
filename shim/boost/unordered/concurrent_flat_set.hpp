// Boost 1.84's header, absent from apt's Boost 1.83. kigumi includes it but uses only flat_map/flat_set.
#pragma once
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/unordered/unordered_flat_set.hpp>
