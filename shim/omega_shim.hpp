// A small serial stand-in for the parts of Omega_h that /repo/src uses: flat arrays, small vectors and
// matrices, a simplex mesh with its adjacencies and tags, mesh sets, and an expression reader.
// Every array access is bounds-checked: an out-of-range index from /repo's code ends the run with a report.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <iomanip>
#include <fstream>
#include <Kokkos_Core.hpp>
#include <Teuchos_MathExpr.hpp>
#include <Teuchos_Reader.hpp>
#include <Teuchos_any.hpp>
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_DefaultComm.hpp>
#include <Teuchos_XMLParameterListHelpers.hpp>

#define OMEGA_H_INLINE KOKKOS_INLINE_FUNCTION
#define OMEGA_H_DEVICE KOKKOS_INLINE_FUNCTION
#define OMEGA_H_USE_KOKKOS 1
#define OMEGA_H_CHECK(x) do { if (!(x)) { std::fprintf(stderr, "OMEGA_H_CHECK failed: %s\n", #x); std::abort(); } } while (0)
#define OMEGA_H_USE_KOKKOSCORE 1

enum Omega_h_Family { OMEGA_H_SIMPLEX, OMEGA_H_HYPERCUBE };
enum Omega_h_Parting { OMEGA_H_ELEM_BASED, OMEGA_H_GHOSTED, OMEGA_H_VERT_BASED };

namespace Omega_h
{
typedef std::int8_t I8; typedef std::int32_t I32; typedef std::int64_t I64;
typedef double Real; typedef int Int; typedef std::int32_t LO; typedef std::int64_t GO; typedef std::int32_t ClassId; typedef I8 Byte;
enum { VERT = 0, EDGE = 1, FACE = 2, REGION = 3 };
constexpr Real PI = 3.14159265358979323846;

[[noreturn]] inline void shim_fail(const char* what, long i, long n)
{
    std::fprintf(stderr, "SHIM-BOUNDS: %s index %ld outside 0..%ld\n", what, i, n - 1);
    std::fflush(stderr);
    std::abort();
}

template <typename T> OMEGA_H_INLINE T max2(T a, T b) { return (a < b) ? b : a; }
template <typename T> OMEGA_H_INLINE T min2(T a, T b) { return (b < a) ? b : a; }
template <typename T> OMEGA_H_INLINE T square(T a) { return a * a; }
template <typename T> OMEGA_H_INLINE T cube(T a) { return a * a * a; }

template <typename T, Int n> class Few
{
    T a_[n];
public:
    enum { size = n };
    Few() = default;
    Few(std::initializer_list<T> l) { Int i = 0; for (auto& x : l) { if (i >= n) shim_fail("Few", i, n); a_[i++] = x; } }
    OMEGA_H_INLINE T& operator[](Int i) { if (i < 0 || i >= n) shim_fail("Few", i, n); return a_[i]; }
    OMEGA_H_INLINE T const& operator[](Int i) const { if (i < 0 || i >= n) shim_fail("Few", i, n); return a_[i]; }
    T* data() { return a_; }
    T const* data() const { return a_; }
};
template <Int n> class Vector : public Few<Real, n>
{
public:
    Vector() = default;
    Vector(std::initializer_list<Real> l) : Few<Real, n>(l) {}
    OMEGA_H_INLINE Real& operator()(Int i) { return (*this)[i]; }
    OMEGA_H_INLINE Real const& operator()(Int i) const { return (*this)[i]; }
};
template <Int n> OMEGA_H_INLINE Vector<n> operator+(Vector<n> a, Vector<n> b) { for (Int i = 0; i < n; ++i) a[i] += b[i]; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator-(Vector<n> a, Vector<n> b) { for (Int i = 0; i < n; ++i) a[i] -= b[i]; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator-(Vector<n> a) { for (Int i = 0; i < n; ++i) a[i] = -a[i]; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator*(Vector<n> a, Real s) { for (Int i = 0; i < n; ++i) a[i] *= s; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator*(Real s, Vector<n> a) { return a * s; }
template <Int n> OMEGA_H_INLINE Vector<n> operator/(Vector<n> a, Real s) { for (Int i = 0; i < n; ++i) a[i] /= s; return a; }
template <Int n> OMEGA_H_INLINE Real operator*(Vector<n> a, Vector<n> b) { Real c = 0; for (Int i = 0; i < n; ++i) c += a[i] * b[i]; return c; }
template <Int n> OMEGA_H_INLINE Real inner_product(Vector<n> a, Vector<n> b) { return a * b; }
template <Int n> OMEGA_H_INLINE Real norm_squared(Vector<n> a) { return a * a; }
template <Int n> OMEGA_H_INLINE Real norm(Vector<n> a) { return std::sqrt(a * a); }
template <Int n> OMEGA_H_INLINE Vector<n> normalize(Vector<n> a) { return a / norm(a); }
template <Int n> OMEGA_H_INLINE Vector<n> zero_vector() { Vector<n> v; for (Int i = 0; i < n; ++i) v[i] = 0; return v; }
OMEGA_H_INLINE Vector<1> vector_1(Real x) { Vector<1> v; v[0] = x; return v; }
OMEGA_H_INLINE Vector<2> vector_2(Real x, Real y) { Vector<2> v; v[0] = x; v[1] = y; return v; }
OMEGA_H_INLINE Vector<3> vector_3(Real x, Real y, Real z) { Vector<3> v; v[0] = x; v[1] = y; v[2] = z; return v; }
OMEGA_H_INLINE Vector<3> cross(Vector<3> a, Vector<3> b) { return vector_3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
OMEGA_H_INLINE Real cross(Vector<2> a, Vector<2> b) { return a[0] * b[1] - a[1] * b[0]; }
OMEGA_H_INLINE Vector<2> perp(Vector<2> v) { return vector_2(-v[1], v[0]); }

// as in Omega_h: a Matrix is an array of columns, m[j] is column j, m(i,j) is row i of column j
template <Int m, Int n> class Matrix : public Few<Vector<m>, n>
{
public:
    Matrix() = default;
    Matrix(std::initializer_list<Vector<m>> l) : Few<Vector<m>, n>(l) {}
    Matrix(std::initializer_list<Real> l) { Int k = 0; for (auto& x : l) { (*this)[k % n][k / n] = x; ++k; } }
    OMEGA_H_INLINE Real& operator()(Int i, Int j) { return (*this)[j][i]; }
    OMEGA_H_INLINE Real const& operator()(Int i, Int j) const { return (*this)[j][i]; }
};
template <Int d> using Tensor = Matrix<d, d>;
template <Int m, Int n> OMEGA_H_INLINE Vector<m> operator*(Matrix<m, n> a, Vector<n> b) { Vector<m> c = zero_vector<m>(); for (Int j = 0; j < n; ++j) for (Int i = 0; i < m; ++i) c[i] += a[j][i] * b[j]; return c; }
template <Int m, Int n, Int p> OMEGA_H_INLINE Matrix<m, n> operator*(Matrix<m, p> a, Matrix<p, n> b) { Matrix<m, n> c; for (Int j = 0; j < n; ++j) c[j] = a * b[j]; return c; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator*(Matrix<m, n> a, Real s) { for (Int j = 0; j < n; ++j) a[j] = a[j] * s; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator*(Real s, Matrix<m, n> a) { return a * s; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator/(Matrix<m, n> a, Real s) { for (Int j = 0; j < n; ++j) a[j] = a[j] / s; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator+(Matrix<m, n> a, Matrix<m, n> b) { for (Int j = 0; j < n; ++j) a[j] = a[j] + b[j]; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator-(Matrix<m, n> a, Matrix<m, n> b) { for (Int j = 0; j < n; ++j) a[j] = a[j] - b[j]; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<n, m> transpose(Matrix<m, n> a) { Matrix<n, m> b; for (Int i = 0; i < m; ++i) for (Int j = 0; j < n; ++j) b[i][j] = a[j][i]; return b; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> outer_product(Vector<m> a, Vector<n> b) { Matrix<m, n> c; for (Int j = 0; j < n; ++j) for (Int i = 0; i < m; ++i) c[j][i] = a[i] * b[j]; return c; }
template <Int m> OMEGA_H_INLINE Matrix<m, m> identity_tensor() { Matrix<m, m> c; for (Int j = 0; j < m; ++j) for (Int i = 0; i < m; ++i) c[j][i] = (i == j); return c; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> identity_matrix() { Matrix<m, n> c; for (Int j = 0; j < n; ++j) for (Int i = 0; i < m; ++i) c[j][i] = (i == j); return c; }
template <Int m> OMEGA_H_INLINE Real trace(Matrix<m, m> a) { Real t = 0; for (Int i = 0; i < m; ++i) t += a[i][i]; return t; }
OMEGA_H_INLINE Matrix<3, 3> matrix_3x3(Real a, Real b, Real c, Real d, Real e, Real f, Real g, Real h, Real i)
{
    Matrix<3, 3> m;
    m[0] = vector_3(a, d, g); m[1] = vector_3(b, e, h); m[2] = vector_3(c, f, i); // arguments by rows
    return m;
}
OMEGA_H_INLINE Matrix<3, 3> tensor_3(Real a, Real b, Real c, Real d, Real e, Real f, Real g, Real h, Real i) { return matrix_3x3(a, b, c, d, e, f, g, h, i); }
OMEGA_H_INLINE Real determinant(Matrix<1, 1> m) { return m[0][0]; }
OMEGA_H_INLINE Real determinant(Matrix<2, 2> m) { return m(0, 0) * m(1, 1) - m(1, 0) * m(0, 1); }
OMEGA_H_INLINE Real determinant(Matrix<3, 3> m)
{
    return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
}
template <Int n> OMEGA_H_INLINE Matrix<n, n> invert(Matrix<n, n> a)
{
    Matrix<n, n> b = identity_matrix<n, n>();
    for (Int c = 0; c < n; ++c)
    {
        Int p = c;
        for (Int r = c + 1; r < n; ++r) if (std::fabs(a(r, c)) > std::fabs(a(p, c))) p = r;
        for (Int j = 0; j < n; ++j) { Real t = a(c, j); a(c, j) = a(p, j); a(p, j) = t; t = b(c, j); b(c, j) = b(p, j); b(p, j) = t; }
        const Real piv = a(c, c);
        for (Int j = 0; j < n; ++j) { a(c, j) /= piv; b(c, j) /= piv; }
        for (Int r = 0; r < n; ++r)
        {
            if (r == c) continue;
            const Real f = a(r, c);
            for (Int j = 0; j < n; ++j) { a(r, j) -= f * a(c, j); b(r, j) -= f * b(c, j); }
        }
    }
    return b;
}
template <Int d> struct DiagDecomp { Tensor<d> q; Vector<d> l; };
template <Int d> DiagDecomp<d> decompose_eigen_jacobi(Matrix<d, d> m)
{
    Matrix<d, d> v = identity_matrix<d, d>();
    for (int sweep = 0; sweep < 100; ++sweep)
    {
        Real off = 0, tot = 0;
        for (Int i = 0; i < d; ++i) for (Int j = 0; j < d; ++j) { tot += m(i, j) * m(i, j); if (i != j) off += m(i, j) * m(i, j); }
        if (off <= 1e-32 * tot) break;
        for (Int p = 0; p < d; ++p) for (Int q = p + 1; q < d; ++q)
        {
            if (m(p, q) == 0) continue;
            const Real th = (m(q, q) - m(p, p)) / (2 * m(p, q));
            const Real t = (th >= 0 ? 1.0 : -1.0) / (std::fabs(th) + std::sqrt(th * th + 1));
            const Real c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (Int k = 0; k < d; ++k) { const Real a = m(k, p), b = m(k, q); m(k, p) = c * a - s * b; m(k, q) = s * a + c * b; }
            for (Int k = 0; k < d; ++k) { const Real a = m(p, k), b = m(q, k); m(p, k) = c * a - s * b; m(q, k) = s * a + c * b; }
            for (Int k = 0; k < d; ++k) { const Real a = v(k, p), b = v(k, q); v(k, p) = c * a - s * b; v(k, q) = s * a + c * b; }
        }
    }
    DiagDecomp<d> r;
    Int o[d];
    for (Int i = 0; i < d; ++i) o[i] = i;
    std::sort(o, o + d, [&](Int a, Int b) { return m(a, a) > m(b, b); });
    for (Int j = 0; j < d; ++j) { r.l[j] = m(o[j], o[j]); for (Int i = 0; i < d; ++i) r.q(i, j) = v(i, o[j]); }
    return r;
}

// ---- arrays
template <typename T> class HostWrite;
template <typename T> class Write
{
public:
    typedef Kokkos::View<T*, Kokkos::LayoutRight, Kokkos::DefaultExecutionSpace::memory_space> view_t;
    view_t v_;
    Write() = default;
    Write(LO n, std::string const& name = "") : v_(name, n) {}
    Write(LO n, T val, std::string const& name = "") : v_(name, n) { Kokkos::deep_copy(v_, val); }
    Write(std::initializer_list<T> l, std::string const& name = "") : v_(name, l.size()) { LO i = 0; for (auto& x : l) v_(i++) = x; }
    template <class... P> Write(Kokkos::View<P...> v) : v_(v) {}
    Write(HostWrite<T> h);
    LO size() const { return LO(v_.extent(0)); }
    bool exists() const { return v_.data() != nullptr; }
    T* data() const { return v_.data(); }
    view_t const& view() const { return v_; }
    OMEGA_H_INLINE T& operator[](LO i) const { if (i < 0 || size_t(i) >= v_.extent(0)) shim_fail("Omega_h array", i, long(v_.extent(0))); return v_.data()[i]; }
    T get(LO i) const { return (*this)[i]; }
    void set(LO i, T x) const { (*this)[i] = x; }
};
template <typename T> class Read
{
public:
    Write<T> w_;
    Read() = default;
    Read(Write<T> w) : w_(w) {}
    Read(LO n, T val, std::string const& name = "") : w_(n, val, name) {}
    Read(std::initializer_list<T> l, std::string const& name = "") : w_(l, name) {}
    LO size() const { return w_.size(); }
    bool exists() const { return w_.exists(); }
    T const* data() const { return w_.data(); }
    Kokkos::View<const T*, Kokkos::LayoutRight, Kokkos::DefaultExecutionSpace::memory_space> view() const { return w_.v_; }
    OMEGA_H_INLINE T const& operator[](LO i) const { return w_[i]; }
    T get(LO i) const { return w_[i]; }
    T first() const { return w_[0]; }
    T last() const { return w_[size() - 1]; }
};
typedef Read<Real> Reals;
typedef Read<I8> Bytes;
typedef Read<I8> Read_I8;
class LOs : public Read<LO>
{
public:
    LOs() = default;
    LOs(Read<LO> r) : Read<LO>(r) {}
    LOs(Write<LO> w) : Read<LO>(w) {}
    LOs(LO n, LO val, std::string const& name = "") : Read<LO>(n, val, name) {}
    LOs(std::initializer_list<LO> l, std::string const& name = "") : Read<LO>(l, name) {}
};
typedef Read<GO> GOs;
template <typename T> class HostWrite
{
public:
    Write<T> w_;
    HostWrite() = default;
    HostWrite(LO n, std::string const& name = "") : w_(n, name) {}
    HostWrite(Write<T> w) : w_(w) {}
    HostWrite(std::initializer_list<T> l, std::string const& name = "") : w_(l, name) {}
    LO size() const { return w_.size(); }
    T& operator[](LO i) const { return w_[i]; }
    T* data() const { return w_.data(); }
    Write<T> write() const { return w_; }
    T get(LO i) const { return w_[i]; }
    void set(LO i, T x) const { w_[i] = x; }
};
template <typename T> Write<T>::Write(HostWrite<T> h) : v_(h.w_.v_) {}
template <typename T> class HostRead
{
public:
    Read<T> r_;
    HostRead() = default;
    HostRead(Read<T> r) : r_(r) {}
    LO size() const { return r_.size(); }
    T const& operator[](LO i) const { return r_[i]; }
    T const* data() const { return r_.data(); }
    T get(LO i) const { return r_[i]; }
};

// ---- connectivity
struct Graph { LOs a2ab, ab2b; bool exists() const { return a2ab.exists(); } };
struct Adj : public Graph { Bytes codes; };

// vertices of side b of an element (Omega_h's simplex_down_template)
OMEGA_H_INLINE Int simplex_down_template(Int elem_dim, Int bdry_dim, Int which, Int vert)
{
    if (elem_dim == 1) return which;
    if (elem_dim == 2)
    {
        const Int t[3][2] = {{0, 1}, {1, 2}, {2, 0}};
        return bdry_dim == 1 ? t[which][vert] : which;
    }
    const Int e[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
    const Int f[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
    if (bdry_dim == 2) return f[which][vert];
    if (bdry_dim == 1) return e[which][vert];
    return which;
}
OMEGA_H_INLINE Int simplex_degree(Int from, Int to)
{
    const Int t[4][4] = {{1, 0, 0, 0}, {2, 1, 0, 0}, {3, 3, 1, 0}, {4, 6, 4, 1}};
    return t[from][to];
}
// the outward normal of a side, with the side's measure as its length
OMEGA_H_INLINE Vector<1> get_side_vector(Few<Vector<1>, 2>, Int s) { return vector_1(s == 1 ? 1.0 : -1.0); }
OMEGA_H_INLINE Vector<2> get_side_vector(Few<Vector<2>, 3> p, Int s)
{
    Vector<2> a = p[simplex_down_template(2, 1, s, 0)], b = p[simplex_down_template(2, 1, s, 1)];
    return -perp(b - a);
}
OMEGA_H_INLINE Vector<3> get_side_vector(Few<Vector<3>, 4> p, Int s)
{
    Vector<3> a = p[simplex_down_template(3, 2, s, 0)], b = p[simplex_down_template(3, 2, s, 1)], c = p[simplex_down_template(3, 2, s, 2)];
    return cross(b - a, c - a) / 2.0;
}

class Comm { public: I32 rank() const { return 0; } I32 size() const { return 1; } void barrier() const {} };
typedef std::shared_ptr<Comm> CommPtr;
class Library
{
    CommPtr c_ = std::make_shared<Comm>();
public:
    Library() = default;
    Library(int*, char***) {}
    Library(int*, char***, MPI_Comm) {}
    CommPtr world() { return c_; }
    CommPtr self() { return c_; }
};

struct TagRec { Int ncomps = 1; Reals vals; };
class Mesh
{
public:
    Int dim_ = 0;
    LO nv_ = 0, ne_ = 0;
    Reals coords_;
    LOs ev_;
    std::vector<LOs> verts_of_; // verts_of_[d]: vertices of the entities of dimension d
    std::map<std::pair<Int, Int>, Adj> up_, down_;
    Graph star_;
    std::map<std::pair<Int, std::string>, TagRec> tags_;
    std::vector<std::vector<int>> class_dim_, class_id_;
    std::map<std::string, std::vector<std::pair<int, int>>> class_sets; // only the names matter here
    Mesh() = default;
    Mesh(Library*) {}
    Int dim() const { return dim_; }
    LO nverts() const { return nv_; }
    LO nelems() const { return ne_; }
    LO nedges() const { return nents(1); }
    LO nfaces() const { return nents(2); }
    LO nents(Int d) const { return d == 0 ? nv_ : d == dim_ ? ne_ : LO(verts_of_.at(size_t(d)).size() / (d + 1)); }
    Reals coords() const { return coords_; }
    void set_coords(Reals c) { coords_ = c; }
    LOs ask_elem_verts() const { return ev_; }
    LOs ask_verts_of(Int d) const { return verts_of_.at(size_t(d)); }
    Adj ask_up(Int f, Int t) { return up_.at({f, t}); }
    Adj ask_down(Int f, Int t) { return down_.at({f, t}); }
    Graph ask_star(Int) { return star_; }
    void set_parting(Omega_h_Parting) {}
    template <typename T> void add_tag(Int d, std::string const& n, Int nc) { tags_[{d, n}] = TagRec{nc, Reals()}; }
    template <typename T> void add_tag(Int d, std::string const& n, Int nc, Read<T> a) { add_tag(d, n, nc, a); }
    void add_tag(Int d, std::string const& n, Int nc, Reals a)
    {
        if (long(a.size()) != long(nents(d)) * nc) { std::fprintf(stderr, "SHIM-TAG: tag %s has %d values for %d entities x %d\n", n.c_str(), a.size(), nents(d), nc); std::abort(); }
        // like Omega_h, a tag keeps the array it was given; a copy is taken so that later writes are not seen
        Write<Real> c(a.size());
        for (LO i = 0; i < a.size(); ++i) c[i] = a[i];
        tags_[{d, n}] = TagRec{nc, Reals(c)};
    }
    template <typename T> void set_tag(Int d, std::string const& n, Read<T> a) { auto& t = tags_.at({d, n}); t.vals = a; }
    bool has_tag(Int d, std::string const& n) const { return tags_.count({d, n}) != 0; }
    void remove_tag(Int d, std::string const& n) { tags_.erase({d, n}); }
    template <typename T> Read<T> get_array(Int d, std::string const& n) const { return tags_.at({d, n}).vals; }
    CommPtr comm() const { return std::make_shared<Comm>(); }

    // build from coordinates (interleaved) and element vertices
    static Mesh make(Int dim, std::vector<double> const& xyz, std::vector<LO> const& ev)
    {
        Mesh m;
        m.dim_ = dim;
        const Int npe = dim + 1;
        m.nv_ = LO(xyz.size() / dim);
        m.ne_ = LO(ev.size() / npe);
        Write<Real> c(LO(xyz.size()), "coordinates");
        for (size_t i = 0; i < xyz.size(); ++i) c[LO(i)] = xyz[i];
        m.coords_ = Reals(c);
        Write<LO> w(LO(ev.size()), "elem verts");
        for (size_t i = 0; i < ev.size(); ++i) w[LO(i)] = ev[i];
        m.ev_ = LOs(w);
        m.verts_of_.resize(size_t(dim) + 1);
        {
            Write<LO> id(m.nv_);
            for (LO i = 0; i < m.nv_; ++i) id[i] = i;
            m.verts_of_[0] = LOs(id);
        }
        m.verts_of_[size_t(dim)] = m.ev_;
        // entities of the dimensions in between, found by their sorted vertices
        for (Int d = 1; d < dim; ++d)
        {
            std::map<std::vector<LO>, LO> ids;
            std::vector<LO> verts;
            std::vector<LO> down;
            const Int ns = simplex_degree(dim, d);
            for (LO e = 0; e < m.ne_; ++e) for (Int s = 0; s < ns; ++s)
            {
                std::vector<LO> k;
                for (Int v = 0; v <= d; ++v) k.push_back(ev[size_t(e * npe + simplex_down_template(dim, d, s, v))]);
                auto o = k;
                std::sort(k.begin(), k.end());
                auto it = ids.find(k);
                if (it == ids.end()) { it = ids.insert({k, LO(ids.size())}).first; verts.insert(verts.end(), o.begin(), o.end()); }
                down.push_back(it->second);
            }
            m.verts_of_[size_t(d)] = to_los(verts);
            Adj a;
            a.ab2b = to_los(down);
            m.down_[{dim, d}] = a;
            m.up_[{d, dim}] = invert_down(down, ns, LO(ids.size()));
        }
        {
            Adj a;
            a.ab2b = m.ev_;
            m.down_[{dim, 0}] = a;
            m.up_[{0, dim}] = invert_down(ev, npe, m.nv_);
        }
        // vertex star: the other vertices that share an edge (an element), sorted
        std::vector<std::set<LO>> st(size_t(m.nv_));
        for (LO e = 0; e < m.ne_; ++e) for (Int a = 0; a < npe; ++a) for (Int b = 0; b < npe; ++b)
            if (a != b) st[size_t(ev[size_t(e * npe + a)])].insert(ev[size_t(e * npe + b)]);
        std::vector<LO> off(1, 0), adj;
        for (auto& s : st) { adj.insert(adj.end(), s.begin(), s.end()); off.push_back(LO(adj.size())); }
        m.star_.a2ab = to_los(off);
        m.star_.ab2b = to_los(adj);
        return m;
    }
    static LOs to_los(std::vector<LO> const& v)
    {
        Write<LO> w(LO(v.size()), "LOs");
        for (size_t i = 0; i < v.size(); ++i) w[LO(i)] = v[i];
        return LOs(w);
    }
    static Adj invert_down(std::vector<LO> const& down, Int deg, LO n)
    {
        std::vector<std::vector<std::pair<LO, Int>>> u((size_t(n)));
        for (size_t i = 0; i < down.size(); ++i) u[size_t(down[i])].push_back({LO(i / size_t(deg)), Int(i % size_t(deg))});
        std::vector<LO> off(1, 0), adj;
        std::vector<int> codes;
        for (auto& l : u) { for (auto& p : l) { adj.push_back(p.first); codes.push_back(p.second); } off.push_back(LO(adj.size())); }
        Adj a;
        a.a2ab = to_los(off);
        a.ab2b = to_los(adj);
        Write<I8> c(LO(codes.size()));
        for (size_t i = 0; i < codes.size(); ++i) c[LO(i)] = I8(codes[i] << 3); // code_which_down is the high bits
        a.codes = Bytes(c);
        return a;
    }
};
OMEGA_H_INLINE Int code_which_down(I8 code) { return code >> 3; }

// a box of simplices, as Omega_h::build_box: each cell is cut along its main diagonal; a cap keeps hard-coded resolutions small
inline LO& box_cap() { static LO c = 0; return c; }
inline Mesh build_box(CommPtr, Omega_h_Family, Real x, Real y, Real z, LO nx, LO ny, LO nz, bool = false)
{
    for (LO* n : {&nx, &ny, &nz}) if (box_cap() > 0 && *n > box_cap()) *n = box_cap();
    const Int dim = nz > 0 ? 3 : ny > 0 ? 2 : 1;
    const LO N[3] = {nx, dim > 1 ? ny : 0, dim > 2 ? nz : 0};
    const Real L[3] = {x, y, z};
    auto id = [&](LO i, LO j, LO k) { return i + (N[0] + 1) * (j + (N[1] + 1) * k); };
    std::vector<double> c;
    for (LO k = 0; k <= N[2]; ++k) for (LO j = 0; j <= N[1]; ++j) for (LO i = 0; i <= N[0]; ++i)
    {
        const LO ix[3] = {i, j, k};
        for (Int d = 0; d < dim; ++d) c.push_back(L[d] * ix[d] / N[d]);
    }
    std::vector<LO> ev;
    if (dim == 1) for (LO i = 0; i < nx; ++i) { ev.push_back(id(i, 0, 0)); ev.push_back(id(i + 1, 0, 0)); }
    if (dim == 2) for (LO j = 0; j < ny; ++j) for (LO i = 0; i < nx; ++i)
    {
        const LO t[6] = {id(i, j, 0), id(i + 1, j, 0), id(i + 1, j + 1, 0), id(i + 1, j + 1, 0), id(i, j + 1, 0), id(i, j, 0)};
        ev.insert(ev.end(), t, t + 6);
    }
    if (dim == 3) for (LO k = 0; k < nz; ++k) for (LO j = 0; j < ny; ++j) for (LO i = 0; i < nx; ++i)
    {
        const Int perms[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}};
        for (Int p = 0; p < 6; ++p)
        {
            LO at[3] = {i, j, k};
            LO t[4];
            t[0] = id(at[0], at[1], at[2]);
            for (Int s = 0; s < 3; ++s) { at[perms[p][s]] += 1; t[s + 1] = id(at[0], at[1], at[2]); }
            if (p >= 3) std::swap(t[2], t[3]); // odd permutations: keep a positive volume
            ev.insert(ev.end(), t, t + 4);
        }
    }
    return Mesh::make(dim, c, ev);
}
inline Mesh build_from_elems_and_coords_impl(Int dim, LOs ev, Reals c)
{
    std::vector<double> x(size_t(c.size()));
    for (LO i = 0; i < c.size(); ++i) x[size_t(i)] = c[i];
    std::vector<LO> e(size_t(ev.size()));
    for (LO i = 0; i < ev.size(); ++i) e[size_t(i)] = ev[i];
    return Mesh::make(dim, x, e);
}
inline void build_from_elems_and_coords(Mesh* m, Omega_h_Family, Int dim, LOs ev, Reals c) { *m = build_from_elems_and_coords_impl(dim, ev, c); }
inline void classify_by_angles(Mesh*, Real) {}

// ---- mesh sets
enum SetType { ELEM_SET, SIDE_SET, NODE_SET, NSET_TYPES };
typedef std::map<std::string, LOs> MeshDimSets;
typedef std::array<MeshDimSets, NSET_TYPES> MeshSets;
typedef std::array<std::map<std::string, std::vector<std::pair<int, int>>>, NSET_TYPES> Assoc;
inline void update_assoc(Assoc*, Teuchos::ParameterList const&) {}
// "mesh files": a mesh and its sets by path; the sets of the file read last, as far as an association names them
struct MeshFile { Mesh mesh; MeshSets sets; };
inline std::map<std::string, MeshFile>& mesh_files() { static std::map<std::string, MeshFile> f; return f; }
inline MeshSets& read_sets() { static MeshSets s; return s; }
inline MeshSets invert(Mesh*, Assoc const& a)
{
    MeshSets r;
    for (size_t t = 0; t < a.size(); ++t) for (auto& q : a[t]) { auto it = read_sets()[t].find(q.first); if (it != read_sets()[t].end()) r[t][q.first] = it->second; }
    return r;
}
inline Assoc get_box_assoc(Int) { return Assoc(); }

// ---- output: what a run writes is recorded here instead of in files
typedef std::array<std::set<std::string>, 4> TagSet;
struct WriteRec { std::string path; Real time; std::map<std::pair<Int, std::string>, std::vector<double>> fields; std::map<std::pair<Int, std::string>, Int> ncomps; };
inline std::vector<WriteRec>& written() { static std::vector<WriteRec> w; return w; }
namespace vtk
{
inline TagSet get_all_vtk_tags(Mesh* m, Int)
{
    TagSet t;
    for (auto& k : m->tags_) t[size_t(k.first.first)].insert(k.first.second);
    return t;
}
class Writer
{
    Mesh* m_ = nullptr;
    std::string p_;
public:
    Writer() = default;
    Writer(std::string const& p, Mesh* m, Int = -1, Real = 0) : m_(m), p_(p) {}
    void write(Int, Real t, TagSet const& s) { write(t, s); }
    void write(Real t, TagSet const& s)
    {
        WriteRec r;
        r.path = p_;
        r.time = t;
        for (size_t d = 0; d < 4; ++d) for (auto& n : s[d])
        {
            auto& tag = m_->tags_.at({Int(d), n});
            std::vector<double> v;
            for (LO i = 0; i < tag.vals.size(); ++i) v.push_back(tag.vals[i]);
            r.fields[{Int(d), n}] = v;
            r.ncomps[{Int(d), n}] = tag.ncomps;
        }
        written().push_back(r);
    }
    void write(Real t) { write(t, get_all_vtk_tags(m_, 0)); }
    void write() { write(0.0); }
};
inline void write_parallel(std::string const&, Mesh*, Int = 0) {}
}
namespace exodus { inline void write(std::string const&, Mesh*, bool = false, int = 0) {} }
inline Mesh read_mesh_file(std::string const& p, CommPtr)
{
    auto it = mesh_files().find(p);
    if (it == mesh_files().end()) throw std::runtime_error("no mesh file " + p);
    Mesh m = it->second.mesh;
    read_sets() = it->second.sets;
    for (auto& t : read_sets()) for (auto& q : t) m.class_sets[q.first];
    return m;
}
namespace binary { inline Mesh read(std::string const&, CommPtr) { throw std::runtime_error("no mesh files here"); } }

// ---- expressions of the coordinates, evaluated point by point with Teuchos' calculator
class any
{
public:
    Reals r;
    any() = default;
    any(Reals a) : r(a) {}
};
template <typename T> T any_cast(any const& a) { return a.r; }
class ExprReader
{
    LO n_;
    std::map<std::string, Reals> vars_;
public:
    ExprReader(LO n, Int) : n_(n) {}
    void register_variable(std::string const& n, any const& a) { vars_[n] = a.r; }
    any read_string(std::string const& s, std::string const&)
    {
        Teuchos::RCP<Teuchos::Reader> rd = Teuchos::rcp(Teuchos::MathExpr::new_calc_reader());
        Write<Real> o(n_, "expr");
        for (LO i = 0; i < n_; ++i)
        {
            std::ostringstream e;
            e << std::fixed << std::setprecision(18);
            for (auto& v : vars_) e << v.first << "=" << v.second[i] << "; ";
            Teuchos::any res;
            rd->read_string(res, e.str() + s, "expression");
            o[i] = Teuchos::any_cast<double>(res);
        }
        return any(Reals(o));
    }
    void repeat(any&) {}
};
inline void update_parameters_from_file(std::string const& f, Teuchos::ParameterList* p, Teuchos::Comm<int> const&) { Teuchos::updateParametersFromXmlFile(f, Teuchos::ptr(p)); }
inline void write_parameters(std::string const&, Teuchos::ParameterList const&) {}
}
