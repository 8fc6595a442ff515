// Fixtures shared by the scenarios: lattices with hand written symmetry generators, an independent metric, linear
// fields, and points of the irreducible zone chosen to include its corners, edges and faces.
#pragma once
#include "simrt.hpp"
#include "bz.hpp"
#include <algorithm>
#include <array>
#include <complex>
#include <iomanip>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace fx {
using brille::ind_t;
using M3 = std::array<int, 9>;
using D3 = std::array<double, 3>;
using D9 = std::array<double, 9>;
using cplx = std::complex<double>;
using sim::Rng;

// ------------------------------------------------------------------ small linear algebra (the harness' own)
template<class A, class B> inline auto mul3(const std::array<A, 9>& a, const std::array<B, 9>& b) { std::array<decltype(A() * B()), 9> c{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) c[static_cast<size_t>(3 * i + j)] += a[static_cast<size_t>(3 * i + k)] * b[static_cast<size_t>(3 * k + j)]; return c; }
template<class A, class B> inline auto mulv(const std::array<A, 9>& a, const std::array<B, 3>& v) { std::array<decltype(A() * B()), 3> c{}; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) c[static_cast<size_t>(i)] += a[static_cast<size_t>(3 * i + k)] * v[static_cast<size_t>(k)]; return c; }
template<class A> inline std::array<A, 9> tr3(const std::array<A, 9>& a) { return {a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8]}; }
template<class A> inline A det3(const std::array<A, 9>& a) { return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]); }
inline D9 inv3(const D9& a) { double d = det3(a); return {(a[4] * a[8] - a[5] * a[7]) / d, (a[2] * a[7] - a[1] * a[8]) / d, (a[1] * a[5] - a[2] * a[4]) / d, (a[5] * a[6] - a[3] * a[8]) / d, (a[0] * a[8] - a[2] * a[6]) / d, (a[2] * a[3] - a[0] * a[5]) / d, (a[3] * a[7] - a[4] * a[6]) / d, (a[1] * a[6] - a[0] * a[7]) / d, (a[0] * a[4] - a[1] * a[3]) / d}; }
inline M3 inv3i(const M3& a) { D9 d; for (size_t i = 0; i < 9; ++i) d[i] = a[i]; d = inv3(d); M3 o; for (size_t i = 0; i < 9; ++i) o[i] = static_cast<int>(std::lround(d[i])); return o; }
inline D3 operator-(const D3& a, const D3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline D3 operator+(const D3& a, const D3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline D3 operator*(double s, const D3& a) { return {s * a[0], s * a[1], s * a[2]}; }
inline double dot3(const D3& a, const D3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline D3 cross3(const D3& a, const D3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
template<class V> inline std::string str3(const V& a) { std::ostringstream o; o << std::setprecision(17) << "(" << a[0] << ", " << a[1] << ", " << a[2] << ")"; return o.str(); }

// ------------------------------------------------------------------ lattices
struct Lat { const char* tag; D3 len, ang; const char* sg; char cen; std::vector<M3> gens; bool tr; };
namespace g {
const M3 i{-1, 0, 0, 0, -1, 0, 0, 0, -1}, z4{0, -1, 0, 1, 0, 0, 0, 0, 1}, d3{0, 0, 1, 1, 0, 0, 0, 1, 0}, z2{-1, 0, 0, 0, -1, 0, 0, 0, 1}, x2{1, 0, 0, 0, -1, 0, 0, 0, -1}, y2{-1, 0, 0, 0, 1, 0, 0, 0, -1};
const M3 z6{1, -1, 0, 1, 0, 0, 0, 0, 1}, z3{0, -1, 0, 1, -1, 0, 0, 0, 1}, d2{0, 1, 0, 1, 0, 0, 0, 0, -1};
}
inline const std::vector<Lat>& lats() {
  using namespace g;
  static const std::vector<Lat> L{
    /* 0*/ {"Im-3m", {2.87, 2.87, 2.87}, {90, 90, 90}, "Im-3m", 'I', {z4, d3, i}, false},
    /* 1*/ {"Fm-3m", {3.6, 3.6, 3.6}, {90, 90, 90}, "Fm-3m", 'F', {z4, d3, i}, false},
    /* 2*/ {"Pm-3m", {3, 3, 3}, {90, 90, 90}, "Pm-3m", 'P', {z4, d3, i}, false},
    /* 3*/ {"P23", {4, 4, 4}, {90, 90, 90}, "P 2 3", 'P', {z2, x2, d3}, false},
    /* 4*/ {"P23tr", {4, 4, 4}, {90, 90, 90}, "P 2 3", 'P', {z2, x2, d3}, true},
    /* 5*/ {"P432", {4, 4, 4}, {90, 90, 90}, "P 4 2 3", 'P', {z4, d3}, false},
    /* 6*/ {"P4", {3, 3, 5}, {90, 90, 90}, "P 4", 'P', {z4}, false},
    /* 7*/ {"P4tr", {3, 3, 5}, {90, 90, 90}, "P 4", 'P', {z4}, true},
    /* 8*/ {"P4/mmm", {3, 3, 5}, {90, 90, 90}, "P4/mmm", 'P', {z4, x2, i}, false},
    /* 9*/ {"I4/mmm", {3, 3, 7}, {90, 90, 90}, "I4/mmm", 'I', {z4, x2, i}, false},
    /*10*/ {"I4_1/a", {5.6, 5.6, 12}, {90, 90, 90}, "I4_1/a", 'I', {z4, i}, false},
    /*11*/ {"P6/mmm", {3, 3, 5}, {90, 90, 120}, "P6/mmm", 'P', {z6, d2, i}, false},
    /*12*/ {"P6", {3, 3, 5}, {90, 90, 120}, "P 6", 'P', {z6}, false},
    /*13*/ {"P6tr", {3, 3, 5}, {90, 90, 120}, "P 6", 'P', {z6}, true},
    /*14*/ {"P3", {3, 3, 5}, {90, 90, 120}, "P 3", 'P', {z3}, false},
    /*15*/ {"P-3m1", {3, 3, 5}, {90, 90, 120}, "P-3m1", 'P', {z3, d2, i}, false},
    /*16*/ {"R-3m", {3, 3, 8}, {90, 90, 120}, "R-3m", 'R', {z3, d2, i}, false},
    /*17*/ {"R-3", {3, 3, 8}, {90, 90, 120}, "R -3", 'R', {z3, i}, false},
    /*18*/ {"Pmmm", {3, 4, 5}, {90, 90, 90}, "Pmmm", 'P', {z2, x2, i}, false},
    /*19*/ {"Cmmm", {3, 4, 5}, {90, 90, 90}, "Cmmm", 'C', {z2, x2, i}, false},
    /*20*/ {"Fmmm", {3, 4, 5}, {90, 90, 90}, "Fmmm", 'F', {z2, x2, i}, false},
    /*21*/ {"Immm", {3, 4, 5}, {90, 90, 90}, "Immm", 'I', {z2, x2, i}, false},
    /*22*/ {"P222", {3, 4, 5}, {90, 90, 90}, "P 2 2", 'P', {z2, x2}, false},
    /*23*/ {"C2/m", {6, 4, 5}, {90, 100, 90}, "C2/m", 'C', {y2, i}, false},
    /*24*/ {"P-1", {3, 4, 5}, {80, 95, 105}, "P-1", 'P', {i}, false},
    /*25*/ {"P1", {3, 4, 5}, {80, 95, 105}, "P1", 'P', {}, false},
    /*26*/ {"P1tr", {3, 4, 5}, {80, 95, 105}, "P1", 'P', {}, true},
  };
  return L;
}
inline std::vector<M3> closure(std::vector<M3> gens, bool tr) {
  if (tr) gens.push_back(g::i);
  std::vector<M3> all{{1, 0, 0, 0, 1, 0, 0, 0, 1}};
  for (size_t k = 0; k < all.size(); ++k) for (auto& q : gens) { auto p = mul3(all[k], q); if (std::find(all.begin(), all.end(), p) == all.end()) all.push_back(p); }
  return all;
}

struct Zone {
  const Lat* def{nullptr};
  std::unique_ptr<brille::BrillouinZone> bz;
  std::vector<M3> group;       // real space operations, closed, with the inversion when time reversal was asked for
  D9 A, B, Gs;                 // rows a,b,c; rows a*,b*,c* (with 2 pi); reciprocal metric
  std::vector<D3> irv;         // corners of the irreducible zone, hkl
  D3 centre{};
  std::vector<D3> gvec;        // allowed reciprocal lattice vectors near the origin
  Lat own; std::string name; std::vector<std::array<int, 3>> centring;   // of a random crystal (in twelfths)
  double norm2(const D3& h) const { return dot3(h, mulv(Gs, h)); }
  bool allowed(long h, long k, long l) const {
    for (auto& c : centring) if ((((h * c[0] + k * c[1] + l * c[2]) % 12) + 12) % 12) return false;
    auto even = [](long x) { return ((x % 2) + 2) % 2 == 0; };
    switch (def->cen) { case 'I': return even(h + k + l); case 'F': return even(h + k) && even(k + l); case 'C': return even(h + k); case 'R': return (((-h + k + l) % 3) + 3) % 3 == 0; default: return true; }
  }
  // q belongs to the closed first Brillouin zone, by definition
  double bz_excess(const D3& q) const { double worst = -1; for (auto& G : gvec) { double n = norm2(G); double over = (2 * dot3(q, mulv(Gs, G)) - n) / n; worst = std::max(worst, over); } return worst; }
};
inline void finish_zone(Zone& z) {
  auto v = z.bz->get_ir_vertices().hkl(); z.irv.clear(); z.centre = D3{};
  for (ind_t i = 0; i < v.size(0); ++i) z.irv.push_back({v.val(i, 0), v.val(i, 1), v.val(i, 2)});
  for (auto& p : z.irv) z.centre = z.centre + p;
  z.centre = (1.0 / static_cast<double>(z.irv.size())) * z.centre;
  for (long h = -4; h <= 4; ++h) for (long k = -4; k <= 4; ++k) for (long l = -4; l <= 4; ++l) if ((h || k || l) && z.allowed(h, k, l)) z.gvec.push_back({double(h), double(k), double(l)});
}
inline Zone make_zone(const Lat& L) {
  Zone z; z.def = &L;
  brille::BrillouinZoneConfig cfg; cfg.time_reversal(L.tr);
  auto lat = brille::lattice::Direct<double>(L.len, L.ang, L.sg);
  z.bz = std::make_unique<brille::BrillouinZone>(lat, cfg);
  z.group = closure(L.gens, L.tr);
  double ca = std::cos(L.ang[0] * M_PI / 180), cb = std::cos(L.ang[1] * M_PI / 180), cg = std::cos(L.ang[2] * M_PI / 180), sg = std::sin(L.ang[2] * M_PI / 180);
  double cx = cb, cy = (ca - cb * cg) / sg, cz = std::sqrt(1 - cx * cx - cy * cy);
  z.A = {L.len[0], 0, 0, L.len[1] * cg, L.len[1] * sg, 0, L.len[2] * cx, L.len[2] * cy, L.len[2] * cz};
  z.B = tr3(inv3(z.A)); for (auto& x : z.B) x *= 2 * M_PI;
  z.Gs = mul3(z.B, tr3(z.B));
  finish_zone(z);
  return z;
}
inline std::unique_ptr<Zone>& zone_slot(size_t i) { static std::unique_ptr<Zone> z[64]; return z[i]; }
inline Zone& zone(size_t i) { auto& z = zone_slot(i); if (!z) z = std::make_unique<Zone>(make_zone(lats()[i])); return *z; }

inline brille::lattice::LVec<double> lvec(const Zone& z, const std::vector<D3>& p) {
  brille::lattice::LVec<double> q(brille::LengthUnit::inverse_angstrom, z.bz->get_lattice(), static_cast<ind_t>(p.size()));
  for (ind_t i = 0; i < p.size(); ++i) for (ind_t j = 0; j < 3; ++j) q.val(i, j) = p[i][j];
  return q;
}
// the same points, held in memory as a caller may hold them: rows first, columns first, or among other values
template<class T = double> inline brille::lattice::LVec<T> laid(const Zone& z, const std::vector<D3>& p, brille::LengthUnit lu = brille::LengthUnit::inverse_angstrom) {
  using brille::ind_t; using A = brille::Array2<T>; using S = typename A::shape_t; ind_t n = static_cast<ind_t>(p.size()), N = n ? n : 1; S sh{{n, 3}}, st{{3, 1}};
  ind_t first = 0, total = 3 * N;
  switch (sim::draw("memory_order", 8)) {
    case 5: st = {{1, N}}; break;
    case 6: st = {{7, 2}}; total = 7 * N; break;
    case 7: first = 2; total = 3 * (N + 3); break;
  }
  T* mem = new T[total](); for (ind_t k = 0; k < total; ++k) mem[k] = static_cast<T>(1000 + k);
  A all(mem, total, true, first ? S{{n + 3, 3}} : sh, st); A a = first ? A(all.view(first, n + first)) : all;
  for (ind_t i = 0; i < n; ++i) for (ind_t j = 0; j < 3; ++j) a.val(i, j) = static_cast<T>(p[i][j]);
  return brille::lattice::LVec<T>(lu, z.bz->get_lattice(), a);
}
inline brille::lattice::LVec<int> ivec(const Zone& z, size_t n) { return brille::lattice::LVec<int>(brille::LengthUnit::inverse_angstrom, z.bz->get_lattice(), static_cast<ind_t>(n)); }
template<class A> inline D3 row3(const A& a, ind_t i) { return {double(a.val(i, 0)), double(a.val(i, 1)), double(a.val(i, 2))}; }
inline std::vector<D3> rows(const brille::Array2<double>& a) { std::vector<D3> o; for (ind_t i = 0; i < a.size(0); ++i) o.push_back(row3(a, i)); return o; }

// a point of the closed convex hull of v: kind 0 interior, 1 corner, 2 on an edge or chord, 3 few-corner combination
inline D3 hull_point(const std::vector<D3>& v, Rng& r, int kind) {
  size_t n = v.size();
  auto pick = [&] { return v[r.below(n)]; };
  if (kind == 1) return pick();
  if (kind == 2) { double t = r.below(3) ? r.uni() : 0.5; return (1 - t) * pick() + t * pick(); }
  if (kind == 3) { double a = r.uni(), b = r.uni(); if (a + b > 1) { a = 1 - a; b = 1 - b; } return a * pick() + b * pick() + (1 - a - b) * pick(); }
  std::vector<double> w(n); double s = 0; for (auto& x : w) { x = -std::log(1e-3 + 0.998 * r.uni()); s += x; }
  D3 p{0, 0, 0}; for (size_t i = 0; i < n; ++i) p = p + (w[i] / s) * v[i];
  return p;
}

// ------------------------------------------------------------------ linear fields on a grid
inline double real_of(double x) { return x; }
inline double real_of(const cplx& x) { return x.real(); }
template<class T> struct is_cplx { static constexpr bool v = false; };
template<class T> struct is_cplx<std::complex<T>> { static constexpr bool v = true; };
template<class T> inline T mk(double re, double im) { if constexpr (is_cplx<T>::v) return T(re, im); else { (void)im; return re; } }

struct Shape { std::vector<ind_t> tail; std::array<ind_t, 3> el; ind_t branches, span; };   // shape is (P, tail...)
inline Shape shape_of(int kind, ind_t B, ind_t k) {
  switch (kind) {
    case 0: return {{}, {1, 0, 0}, 1, 1};
    case 1: return {{B}, {1, 0, 0}, B, 1};
    case 2: return {{B, k}, {k, 0, 0}, B, k};
    case 3: return {{B, k, 3}, {0, 3 * k, 0}, B, 3 * k};
    case 4: return {{B, k, 3, 3}, {0, 0, 9 * k}, B, 9 * k};
    default: return {{B, 1 + 3 * k + 9}, {1, 3 * k, 9}, B, 1 + 3 * k + 9};
  }
}
template<class T> struct Field {
  Shape sh; bool phases{false}; std::vector<T> a; std::vector<std::array<T, 3>> b;
  ind_t channels() const { return sh.branches * sh.span; }
  Field() = default;
  Field(const Shape& s, Rng& r, bool offset, double scale) : sh(s) {
    for (ind_t c = 0; c < channels(); ++c) {
      a.push_back(mk<T>((offset ? 3.0 + r.uni() : 2 * r.uni() - 1), offset ? 0.0 : 2 * r.uni() - 1));
      std::array<T, 3> g; for (auto& x : g) x = mk<T>(scale * (2 * r.uni() - 1), offset ? 0.0 : scale * (2 * r.uni() - 1));
      b.push_back(g);
    }
  }
  T at(ind_t c, const D3& x) const { return a[c] + b[c][0] * x[0] + b[c][1] * x[1] + b[c][2] * x[2]; }
  brille::Array<T> fill(const std::vector<D3>& verts, Rng& r) const {
    std::vector<ind_t> s{static_cast<ind_t>(verts.size())}; s.insert(s.end(), sh.tail.begin(), sh.tail.end());
    brille::Array<T> out(s); brille::Array2<T> o2(out);
    for (ind_t i = 0; i < verts.size(); ++i) for (ind_t br = 0; br < sh.branches; ++br) {
      T ph = mk<T>(1, 0); if (phases) { double t = 2 * M_PI * r.uni(); if constexpr (is_cplx<T>::v) ph = T(std::cos(t), std::sin(t)); else ph = t > M_PI ? -1 : 1; }
      for (ind_t s2 = 0; s2 < sh.span; ++s2) { ind_t c = br * sh.span + s2; o2.ptr(i)[c] = ph * at(c, verts[i]); }
    }
    return out;
  }
  // compares row i of the (flattened) result with the field at x; with phases up to one common factor per branch
  std::string compare(const brille::Array2<T>& out, ind_t i, const D3& x, double tol) const {
    if (out.size(1) != channels()) return "a result row has " + std::to_string(out.size(1)) + " elements instead of " + std::to_string(channels());
    for (ind_t br = 0; br < sh.branches; ++br) {
      T ph = mk<T>(1, 0);
      if (phases) { T ov = mk<T>(0, 0); for (ind_t s = 0; s < sh.span; ++s) { T e = at(br * sh.span + s, x), v = out.val(i, br * sh.span + s); if constexpr (is_cplx<T>::v) ov += v * std::conj(e); else ov += v * e; } double m = std::abs(ov); if (m > 0) ph = ov / m; }
      for (ind_t s = 0; s < sh.span; ++s) {
        ind_t c = br * sh.span + s; T e = ph * at(c, x), v = out.val(i, c);
        double d = std::abs(v - e); double m = std::max(1.0, std::abs(e));
        if (!(d <= tol * m)) { std::ostringstream o; o << std::setprecision(12) << "point " << i << " at hkl " << str3(x) << " branch " << br << " element " << s << ": interpolated " << v << " expected " << e; return o.str(); }
      }
    }
    return "";
  }
};

template<class Grid> struct GridVerts;   // specialised next to the grid types: hkl of the indexed vertices
} // namespace fx
