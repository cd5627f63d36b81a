// Force-included (-include) before every translation unit.
//
// kigumi is written for CGAL 6, whose CGAL::intersection() returns
// std::optional<std::variant<...>>; apt has CGAL 5.6, where it returns
// boost::optional<boost::variant<...>>. These non-template overloads for the Epeck kernel objects
// win over CGAL 5.6's function templates and convert the result, so that /repo's headers compile
// unmodified. They only translate the container, never the geometry.
#pragma once

#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include <CGAL/intersections.h>

#include <boost/variant.hpp>
#include <optional>
#include <variant>
#include <vector>

namespace kigumi_verif_compat {

using EK = CGAL::Exact_predicates_exact_constructions_kernel;

template <class V>
struct To_std;

template <class... Ts>
struct To_std<boost::variant<Ts...>> {
  using type = std::variant<Ts...>;
};

template <class A, class B>
auto intersect(const A& a, const B& b) {
  auto r = EK{}.intersect_3_object()(a, b);
  using Bv = std::decay_t<decltype(*r)>;
  using Sv = typename To_std<Bv>::type;
  std::optional<Sv> out;
  if (r) {
    boost::apply_visitor([&](const auto& x) { out.emplace(x); }, *r);
  }
  return out;
}

}  // namespace kigumi_verif_compat

namespace CGAL {

#define KIGUMI_VERIF_INTERSECT(A, B)                                                     \
  inline auto intersection(const kigumi_verif_compat::EK::A& a,                          \
                           const kigumi_verif_compat::EK::B& b) {                        \
    return kigumi_verif_compat::intersect(a, b);                                         \
  }

KIGUMI_VERIF_INTERSECT(Triangle_3, Ray_3)
KIGUMI_VERIF_INTERSECT(Ray_3, Triangle_3)
KIGUMI_VERIF_INTERSECT(Triangle_3, Segment_3)
KIGUMI_VERIF_INTERSECT(Segment_3, Triangle_3)
KIGUMI_VERIF_INTERSECT(Triangle_3, Line_3)
KIGUMI_VERIF_INTERSECT(Line_3, Triangle_3)
KIGUMI_VERIF_INTERSECT(Triangle_3, Triangle_3)
KIGUMI_VERIF_INTERSECT(Plane_3, Ray_3)
KIGUMI_VERIF_INTERSECT(Ray_3, Plane_3)
KIGUMI_VERIF_INTERSECT(Plane_3, Segment_3)
KIGUMI_VERIF_INTERSECT(Segment_3, Plane_3)
KIGUMI_VERIF_INTERSECT(Plane_3, Line_3)
KIGUMI_VERIF_INTERSECT(Line_3, Plane_3)
KIGUMI_VERIF_INTERSECT(Segment_3, Segment_3)
KIGUMI_VERIF_INTERSECT(Line_3, Line_3)

#undef KIGUMI_VERIF_INTERSECT

}  // namespace CGAL
