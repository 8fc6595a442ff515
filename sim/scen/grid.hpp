// Scenario pieces common to the three interpolation grids.
#pragma once
#include "move.hpp"
namespace fx {
// one grid fixture: built before the fork, mutated only inside a run
template<class G> struct GridFix { size_t zi; std::unique_ptr<G> grid; std::vector<D3> verts; };

struct Query { std::vector<D3> pts; };
inline Query draw_points(const Zone& z, const std::vector<D3>& verts, Rng& r, size_t maxn) {
  Query q; size_t n = static_cast<size_t>(sim::draw("npoints", maxn + 1));
  uint64_t mix = sim::draw("point_mix", 6);
  for (size_t i = 0; i < n; ++i) {
    uint64_t k = mix < 5 ? mix : r.below(5);
    if (k == 4 && !verts.empty()) q.pts.push_back(verts[r.below(verts.size())]);
    else if (!q.pts.empty() && r.below(10) == 0) q.pts.push_back(q.pts[r.below(q.pts.size())]);
    else q.pts.push_back(hull_point(z.irv, r, static_cast<int>(k)));
  }
  return q;
}

// the same data, held in memory as a caller may hold them: the last index fastest, the first one, or among other values
template<class T> inline brille::Array<T> data_laid(const brille::Array<T>& a) {
  uint64_t how = sim::draw("data_order", 6); if (how < 4) return a;
  auto sh = a.shape(); size_t nd = sh.size(); std::vector<ind_t> st(nd, 1); ind_t n = how == 4 ? 1 : 2, total = n;
  if (how == 4) for (size_t k = 0; k < nd; ++k) { st[k] = n; n *= sh[k]; total = n; }
  else for (size_t k = nd; k--;) { st[k] = n; n *= sh[k] + (k ? 1 : 0); total = n; }
  T* mem = new T[total](); for (ind_t k = 0; k < total; ++k) mem[k] = mk<T>(1000.0 + k, -1000.0);
  brille::Array2<T> flat(a); ind_t all = 1; for (auto x : sh) all *= x;
  for (ind_t l = 0; l < all; ++l) { ind_t rest = l, at = 0; for (size_t k = nd; k--;) { at += (rest % sh[k]) * st[k]; rest /= sh[k]; } mem[at] = flat.val(l / flat.size(1), l % flat.size(1)); }
  return brille::Array<T>(mem, total, true, sh, st);
}
template<class T, class R> struct LinearData {
  Field<T> val; Field<R> vec;
  template<class G> void install(G& g, const std::vector<D3>& verts, Rng& r) {
    uint64_t kv = sim::draw("value_kind", 6), kw = sim::draw("vector_kind", 6);
    ind_t B = static_cast<ind_t>(1 + sim::draw("branches", 4)), k = static_cast<ind_t>(1 + sim::draw("elements", 2));
    if (kv == 0 || kw == 0) B = 1;
    val = Field<T>(shape_of(static_cast<int>(kv), B, k), r, false, 1.0);
    vec = Field<R>(shape_of(static_cast<int>(kw), B, k), r, true, 0.2);
    vec.phases = sim::coin("phases", 0.6) && is_cplx<R>::v;
    bool order = sim::coin("vectors_first", 0.3);
    auto av = data_laid(val.fill(verts, r)); auto aw = data_laid(vec.fill(verts, r));
    auto L = brille::LengthUnit::real_lattice; auto V = brille::RotatesLike::vector;
    if (order) { g.replace_vector_data(aw, vec.sh.el, V, L); g.replace_value_data(av, val.sh.el, V, L); }
    else { g.replace_value_data(av, val.sh.el, V, L); g.replace_vector_data(aw, vec.sh.el, V, L); }
  }
  void check(const std::tuple<brille::Array<T>, brille::Array<R>>& res, const std::vector<D3>& x, const char* kind, double tol = 1e-7) const {
    auto vals = std::get<0>(res); auto vecs = std::get<1>(res);
    auto shp = [&](const std::vector<ind_t>& got, const std::vector<ind_t>& tail, const char* what) {
      std::vector<ind_t> want{static_cast<ind_t>(x.size())}; want.insert(want.end(), tail.begin(), tail.end());
      std::ostringstream o; o << what << " have shape ("; for (auto s : got) o << s << ","; o << ") instead of ("; for (auto s : want) o << s << ","; o << ")";
      SIM_CHECK(std::vector<ind_t>(got.begin(), got.end()) == want, kind, o.str());
    };
    shp(vals.shape(), val.sh.tail, "interpolated values"); shp(vecs.shape(), vec.sh.tail, "interpolated vectors");
    if (x.empty()) return;
    brille::Array2<T> v2(vals); brille::Array2<R> w2(vecs);
    for (ind_t i = 0; i < x.size(); ++i) {
      auto e = val.compare(v2, i, x[i], tol); SIM_CHECK(e.empty(), kind, "values: " + e);
      e = vec.compare(w2, i, x[i], tol); SIM_CHECK(e.empty(), kind, "vectors: " + e);
    }
  }
};
} // namespace fx
