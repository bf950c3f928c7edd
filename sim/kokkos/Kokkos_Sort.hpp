#pragma once
#include "Kokkos_Core.hpp"

namespace Kokkos
{
template<class A, class... PA>
void sort(const View<A, PA...>& v)
{
    if (v.size() == 0) return;
    sim::checkRange(v.data(), v.size() * sizeof(*v.data()), true, View<A, PA...>::simSpace, "sort");
    sim::Quiet q;
    std::sort(v.data(), v.data() + v.size());
}
template<class E, class A, class... PA>
    requires(is_execution_space<E>::value)
void sort(const E&, const View<A, PA...>& v)
{
    sort(v);
}
} // namespace Kokkos
