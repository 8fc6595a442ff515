// Independent rules for what an irreducible point's data become at Q = transpose(R) q + tau.
#pragma once
#include "grid.hpp"
namespace fx {
struct Rep { D3 q; M3 R; };
// every (q, R, tau) with Q = Rt q + tau and q in the closed irreducible zone
inline std::vector<Rep> representatives(const Zone& z, const Hull& h, const D3& Q, double tol = 1e-7) {
  double rmax = 0; for (auto& v : z.irv) rmax = std::max(rmax, z.norm2(v));
  std::vector<Rep> out; long c[3]; for (size_t i = 0; i < 3; ++i) c[i] = std::lround(Q[i]);
  for (long a = -3; a <= 3; ++a) for (long b = -3; b <= 3; ++b) for (long d = -3; d <= 3; ++d) {
    long t[3] = {c[0] + a, c[1] + b, c[2] + d}; if (!z.allowed(t[0], t[1], t[2])) continue;
    D3 p = Q - D3{double(t[0]), double(t[1]), double(t[2])};
    if (z.norm2(p) > rmax * (1 + 1e-6)) continue;
    for (auto& R : z.group) { D3 q = mulv(tr3(inv3i(R)), p); if (hull_excess(h, q) < tol) out.push_back({q, R}); }
  }
  return out;
}
enum class Rule { real_vector, real_axial, recip_vector };
template<class T> inline std::array<T, 9> mm(const M3& a, const std::array<T, 9>& b) { std::array<T, 9> c{}; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) for (size_t k = 0; k < 3; ++k) c[3 * i + j] += double(a[3 * i + k]) * b[3 * k + j]; return c; }
template<class T> inline std::array<T, 9> mm(const std::array<T, 9>& a, const M3& b) { std::array<T, 9> c{}; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) for (size_t k = 0; k < 3; ++k) c[3 * i + j] += a[3 * i + k] * double(b[3 * k + j]); return c; }
// one branch: scalars, then vectors, then matrices.  The operation which takes q to Q moves real space points by the inverse of R.
template<class T> inline void transform(Rule rule, const M3& R, const Shape& sh, T* x) {
  M3 iR = inv3i(R); M3 W = rule == Rule::recip_vector ? tr3(R) : iR, iW = rule == Rule::recip_vector ? tr3(iR) : R;
  double s = rule == Rule::real_axial ? det3(R) : 1;
  ind_t o = sh.el[0];
  for (ind_t v = 0; v < sh.el[1] / 3; ++v, o += 3) { std::array<T, 3> in{x[o], x[o + 1], x[o + 2]}; for (size_t i = 0; i < 3; ++i) { T y{}; for (size_t k = 0; k < 3; ++k) y += double(W[3 * i + k]) * in[k]; x[o + i] = s * y; } }
  for (ind_t m = 0; m < sh.el[2] / 9; ++m, o += 9) { std::array<T, 9> M; for (size_t k = 0; k < 9; ++k) M[k] = x[o + k]; M = mm(mm(W, M), iW); for (size_t k = 0; k < 9; ++k) x[o + k] = M[k]; }
}
// distance of one result row from the transformed field, each branch up to a phase when phases were scrambled
template<class T> inline double row_distance(const Field<T>& f, Rule rule, const Rep& rep, const T* got) {
  double worst = 0; std::vector<T> e(f.sh.span);
  for (ind_t br = 0; br < f.sh.branches; ++br) {
    for (ind_t s = 0; s < f.sh.span; ++s) e[s] = f.at(br * f.sh.span + s, rep.q);
    transform(rule, rep.R, f.sh, e.data());
    const T* v = got + br * f.sh.span; T ph = mk<T>(1, 0);
    if (f.phases) { T ov = mk<T>(0, 0); for (ind_t s = 0; s < f.sh.span; ++s) { if constexpr (is_cplx<T>::v) ov += v[s] * std::conj(e[s]); else ov += v[s] * e[s]; } double m = std::abs(ov); if (m > 0) ph = ov / m; }
    for (ind_t s = 0; s < f.sh.span; ++s) { double d = std::abs(v[s] - ph * e[s]) / std::max(1.0, std::abs(e[s])); if (!(d <= 1e300)) d = 1e300; worst = std::max(worst, d); }
  }
  return worst;
}
} // namespace fx
