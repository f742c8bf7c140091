// A serial stand-in for the parts of ArborX that /repo/src uses: overlap queries of points and spheres against points and
// boxes.  As with the real tree, nothing may rely on the order of the hits of a query: they come in a different order every time.
#pragma once
#include <Kokkos_Core.hpp>
#include <algorithm>
#include <cstdint>
#include <vector>
namespace ArborX
{
struct Point { double x[3]; Point() : x{0, 0, 0} {} Point(double a, double b, double c) : x{a, b, c} {} Point(double const (&v)[3]) : x{v[0], v[1], v[2]} {} };
struct Box { Point lo, hi; Box() {} Box(Point a, Point b) : lo(a), hi(b) {} };
struct Sphere { Point c; double r = 0; Sphere() {} Sphere(Point p, double q) : c(p), r(q) {} };
template <typename G> struct Intersects { G g; };
template <typename G> inline Intersects<G> intersects(G g) { return {g}; }
inline Box box_of(Point p) { return {p, p}; }
inline Box box_of(Box b) { return b; }
inline bool overlap(Point const& p, Box const& b) { for (int i = 0; i < 3; ++i) if (p.x[i] < b.lo.x[i] || p.x[i] > b.hi.x[i]) return false; return true; }
inline bool overlap(Sphere const& s, Box const& b) { double d2 = 0; for (int i = 0; i < 3; ++i) { double d = std::max(0.0, std::max(b.lo.x[i] - s.c.x[i], s.c.x[i] - b.hi.x[i])); d2 += d * d; } return d2 <= s.r * s.r; }
struct PrimitivesTag {}; struct PredicatesTag {};
namespace Traits { template <typename T, typename Tag> struct Access; }
inline std::uint64_t& order_state() { static std::uint64_t s = 88172645463325252ull; return s; }
inline std::uint64_t order_next() { auto& s = order_state(); s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
template <typename DeviceType> class BVH
{
    std::vector<Box> b_;
public:
    template <typename P> explicit BVH(P const& p) { using A = Traits::Access<P, PrimitivesTag>; for (std::size_t i = 0; i < A::size(p); ++i) b_.push_back(box_of(A::get(p, i))); }
    template <typename Q, typename I, typename O> void query(Q const& q, I& indices, O& offset) const
    {
        using A = Traits::Access<Q, PredicatesTag>; std::size_t n = A::size(q); std::vector<int> all, off(1, 0);
        for (std::size_t i = 0; i < n; ++i) { auto g = A::get(q, i).g; std::size_t from = all.size(); for (std::size_t k = 0; k < b_.size(); ++k) if (overlap(g, b_[k])) all.push_back(k);
            for (std::size_t k = all.size(); k > from + 1; --k) std::swap(all[k - 1], all[from + order_next() % (k - from)]); off.push_back(all.size()); }
        indices = I("indices", all.size()); offset = O("offset", n + 1); for (std::size_t k = 0; k < all.size(); ++k) indices(k) = all[k]; for (std::size_t k = 0; k <= n; ++k) offset(k) = off[k];
    }
};
}
