// Points anywhere in reciprocal space and an independent description of the zone's boundary planes.
#pragma once
#include "fix.hpp"
namespace fx {
struct Hull { std::vector<D3> n; std::vector<double> d; std::vector<D3> wedge; std::vector<D3> bzv; };
// planes n.x <= d (hkl components, |n| = 1) of the convex hull of the irreducible zone's corners; wedge: those through the origin
inline Hull make_hull(const Zone& z) {
  Hull h;
  auto& v = z.irv; size_t m = v.size();
  for (size_t i = 0; i < m; ++i) for (size_t j = i + 1; j < m; ++j) for (size_t k = j + 1; k < m; ++k) {
    D3 n = cross3(v[j] - v[i], v[k] - v[i]); double l = std::sqrt(dot3(n, n)); if (l < 1e-9) continue; n = (1 / l) * n; double d = dot3(n, v[i]);
    int pos = 0, neg = 0; for (auto& p : v) { double s = dot3(n, p) - d; if (s > 1e-7) ++pos; if (s < -1e-7) ++neg; }
    if (pos && neg) continue;
    if (pos) { n = -1.0 * n; d = -d; }
    bool dup = false; for (size_t q = 0; q < h.n.size(); ++q) { D3 e = h.n[q] - n; if (dot3(e, e) < 1e-10 && std::abs(h.d[q] - d) < 1e-6) dup = true; }
    if (dup) continue;
    h.n.push_back(n); h.d.push_back(d); if (std::abs(d) < 1e-8) h.wedge.push_back(n);
  }
  auto bv = z.bz->get_vertices().hkl(); h.bzv = rows(bv);
  return h;
}
inline std::unique_ptr<Hull>& hull_slot(size_t zi) { static std::unique_ptr<Hull> c[64]; return c[zi]; }
inline const Hull& hull(size_t zi) { auto& c = hull_slot(zi); if (!c) c = std::make_unique<Hull>(make_hull(zone(zi))); return *c; }
inline double hull_excess(const Hull& h, const D3& p) { double w = -1; for (size_t i = 0; i < h.n.size(); ++i) w = std::max(w, dot3(h.n[i], p) - h.d[i]); return w; }
inline double wedge_excess(const Hull& h, const D3& p) { double w = -1; for (auto& n : h.wedge) w = std::max(w, dot3(n, p)); return w; }

inline D3 any_lattice(const Zone& z, Rng& r, int span) { for (;;) { long a[3]; for (auto& x : a) x = static_cast<long>(r.below(static_cast<uint64_t>(2 * span + 1))) - span; if (z.allowed(a[0], a[1], a[2])) return {double(a[0]), double(a[1]), double(a[2])}; } }
inline D3 any_q(const Zone& z, const Hull& h, Rng& r, uint64_t kind) {
  switch (kind) {
    case 0: return {3 * r.uni() - 1.5, 3 * r.uni() - 1.5, 3 * r.uni() - 1.5};
    case 1: return {40 * r.uni() - 20, 40 * r.uni() - 20, 40 * r.uni() - 20};
    case 2: return 0.5 * any_lattice(z, r, 3) + any_lattice(z, r, 3);
    case 3: return h.bzv[r.below(h.bzv.size())] + any_lattice(z, r, 4);
    case 4: return any_lattice(z, r, 5);
    case 5: { static const double den[] = {2, 3, 4, 6, 8, 12}; double d = den[r.below(6)]; auto f = [&] { return (static_cast<double>(r.below(73)) - 36) / d; }; return {f(), f(), f()}; }
    case 6: { D3 p = hull_point(h.bzv, r, static_cast<int>(r.below(4))); return p; }
    default: { D3 p = hull_point(z.irv, r, static_cast<int>(r.below(4))); auto R = tr3(z.group[r.below(z.group.size())]); return mulv(R, p) + any_lattice(z, r, 3); }
  }
}
inline std::vector<D3> draw_qs(const Zone& z, const Hull& h, Rng& r, size_t maxn) {
  size_t n = static_cast<size_t>(sim::draw("npoints", maxn + 1)); uint64_t mix = sim::draw("point_mix", 9);
  std::vector<D3> q; for (size_t i = 0; i < n; ++i) q.push_back(any_q(z, h, r, mix < 8 ? mix : r.below(8)));
  return q;
}
inline int draw_threads() { static const int t[] = {1, 2, 3, 4, 0, 5, 7, 8, 12, 16, -1}; return t[sim::draw("threads", 11)]; }
// Q = Rt q + tau, q in the first zone, tau a lattice vector of the crystal
inline void check_decomposition(const Zone& z, const std::vector<D3>& Q, const brille::lattice::LVec<double>& q, const brille::lattice::LVec<int>& tau, const std::vector<M3>& R, const char* kind) {
  SIM_CHECK(q.size(0) == Q.size() && tau.size(0) == Q.size(), kind, "the result has " + std::to_string(q.size(0)) + " points for " + std::to_string(Q.size()));
  for (ind_t i = 0; i < Q.size(); ++i) {
    D3 p = row3(q, i), t = row3(tau, i), rp = R.empty() ? p : mulv(tr3(R[i]), p), d = Q[i] - (rp + t);
    double tol = 1e-9 * (1 + std::sqrt(dot3(Q[i], Q[i])));
    SIM_CHECK(std::abs(d[0]) < tol && std::abs(d[1]) < tol && std::abs(d[2]) < tol, kind, "Q " + str3(Q[i]) + " is not the rotated q " + str3(p) + " plus " + str3(t));
    SIM_CHECK(z.allowed(std::lround(t[0]), std::lround(t[1]), std::lround(t[2])), kind, "tau " + str3(t) + " is not a reciprocal lattice vector of " + std::string(z.def->tag));
    double ex = z.bz_excess(p);
    SIM_CHECK(ex < 1e-8, kind, "q " + str3(p) + " of Q " + str3(Q[i]) + " is outside the first Brillouin zone of " + std::string(z.def->tag) + " by " + std::to_string(ex));
  }
}
inline D3 cart(const Zone& z, const D3& h) { return {h[0] * z.B[0] + h[1] * z.B[3] + h[2] * z.B[6], h[0] * z.B[1] + h[1] * z.B[4] + h[2] * z.B[7], h[0] * z.B[2] + h[1] * z.B[5] + h[2] * z.B[8]}; }
inline double tet_volume(const D3& a, const D3& b, const D3& c, const D3& d) { return std::abs(dot3(b - a, cross3(c - a, d - a))) / 6; }
inline double hull_volume(const Zone& z, const Hull& h) {   // from the corners: fan of every boundary plane seen from the centre
  double V = 0;
  for (size_t f = 0; f < h.n.size(); ++f) {
    std::vector<D3> on; for (auto& p : z.irv) if (std::abs(dot3(h.n[f], p) - h.d[f]) < 1e-7) on.push_back(p);
    D3 c{0, 0, 0}; for (auto& p : on) c = c + (1.0 / double(on.size())) * p;
    D3 u = on[0] - c, w = cross3(h.n[f], u);
    std::sort(on.begin(), on.end(), [&](const D3& a, const D3& b) { return std::atan2(dot3(a - c, w), dot3(a - c, u)) < std::atan2(dot3(b - c, w), dot3(b - c, u)); });
    for (size_t i = 0; i < on.size(); ++i) V += tet_volume(cart(z, z.centre), cart(z, c), cart(z, on[i]), cart(z, on[(i + 1) % on.size()]));
  }
  return V;
}
// "" if both lists hold the same points, each once, in any order
inline std::string same_points(const std::vector<D3>& a, const std::vector<D3>& b) {
  if (a.size() != b.size()) return std::to_string(a.size()) + " instead of " + std::to_string(b.size());
  for (auto& p : b) { bool f = false; for (auto& q : a) { D3 d = p - q; if (dot3(d, d) < 1e-16) { f = true; break; } } if (!f) return str3(p) + " is missing"; }
  return "";
}
} // namespace fx
