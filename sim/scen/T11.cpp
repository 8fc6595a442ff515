// parts: 3
// Sorting the modes of a grid in parallel, then interpolating the sorted data.
#include "grid.hpp"
#if PART == 0
#include "bz_trellis.hpp"
#define NAME "trellis"
template<class T, class R> using G = brille::BrillouinZoneTrellis3<T, R, double>;
#elif PART == 1
#include "bz_mesh.hpp"
#define NAME "mesh"
template<class T, class R> using G = brille::BrillouinZoneMesh3<T, R, double>;
#else
#include "bz_nest.hpp"
#define NAME "nest"
template<class T, class R> using G = brille::BrillouinZoneNest3<T, R, double>;
#endif
using namespace fx;
namespace {
struct Spec { size_t zone; double vol; int levels; };
const Spec specs[] = {{0, 0.15, 1}, {24, 0.2, 2}, {12, 0.2, 1}, {5, 0.2, 2}, {25, 0.7, 1}, {16, 0.3, 1}};
constexpr size_t NS = sizeof specs / sizeof *specs;
template<class T, class R> std::unique_ptr<G<T, R>> build(const Spec& s) {
  auto& z = zone(s.zone); double v = s.vol * z.bz->get_ir_polyhedron().volume();
#if PART == 0
  return std::make_unique<G<T, R>>(*z.bz, v, s.levels == 2);
#elif PART == 1
  return std::make_unique<G<T, R>>(*z.bz, v, s.levels, 100);
#else
  return std::make_unique<G<T, R>>(*z.bz, v, ind_t(3));
#endif
}
template<class T, class R> std::vector<D3> vertices(const G<T, R>& g) {
#if PART == 0
  return rows(g.get_hkl());
#elif PART == 1
  return rows(g.get_mesh_hkl());
#else
  return rows(g.get_all_hkl());
#endif
}
template<class T, class R> GridFix<G<T, R>>* fixes() { static GridFix<G<T, R>> f[NS]; return f; }
template<class T, class R> void warm() { for (size_t i = 0; i < NS; ++i) { auto& f = fixes<T, R>()[i]; f.zi = specs[i].zone; f.grid = build<T, R>(specs[i]); f.verts = vertices<T, R>(*f.grid); } }

// B modes whose values and vectors are linear, told apart by values, by nearly orthonormal vectors, or by both
template<class T, class R> struct Modes {
  ind_t B{1}, k{1}, s{1}; bool by_value{true}, by_vector{true};
  std::vector<std::vector<std::array<double, 4>>> val, vec;     // [mode][element]{offset, gradient}
  std::vector<R> unit;                                          // one phase per element, common to every mode
  static double lin(const std::array<double, 4>& c, const D3& x) { return c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[2]; }
  void make(Rng& r) {
    B = static_cast<ind_t>(1 + sim::draw("modes", 5)); k = static_cast<ind_t>(1 + sim::draw("atoms", 3)); s = static_cast<ind_t>(1 + sim::draw("values_per_mode", 2));
    while (3 * k < B) ++k;
    uint64_t m = sim::draw("told_apart_by", 3); by_value = m != 1; by_vector = m != 2;
    auto g = [&](double a) { return a * (2 * r.uni() - 1); };
    for (ind_t i = 0; i < B; ++i) {
      std::vector<std::array<double, 4>> v; for (ind_t e = 0; e < s; ++e) v.push_back(by_value ? std::array<double, 4>{4.0 * i + 0.5 * e, g(0.3), g(0.3), g(0.3)} : std::array<double, 4>{1 + g(0.3), g(1), g(1), g(1)});
      val.push_back(v);
    }
    std::vector<std::vector<double>> basis;
    for (ind_t i = 0; i < B; ++i) {
      std::vector<double> e(3 * k);
      for (;;) { for (auto& x : e) x = g(1); for (auto& p : basis) { double d = 0; for (size_t j = 0; j < e.size(); ++j) d += e[j] * p[j]; for (size_t j = 0; j < e.size(); ++j) e[j] -= d * p[j]; } double n = 0; for (auto x : e) n += x * x; if (n < 1e-2) continue; n = std::sqrt(n); for (auto& x : e) x /= n; break; }
      basis.push_back(e);
    }
    if (!by_vector) for (ind_t i = 1; i < B; ++i) basis[i] = basis[0];
    double sc = 0.06 / std::sqrt(3.0 * k);
    for (ind_t i = 0; i < B; ++i) { std::vector<std::array<double, 4>> v; for (ind_t e = 0; e < 3 * k; ++e) v.push_back({basis[i][e], g(sc), g(sc), g(sc)}); vec.push_back(v); }
    uint64_t twins = sim::draw("equal_modes", 4);                 // modes which cannot be told apart and need not be
    if (twins == 1 && B > 1) { size_t a = r.below(B), b = r.below(B); val[b] = val[a]; vec[b] = vec[a]; }
    else if (twins == 2 && B > 1) for (size_t i = 0; i < B; ++i) { size_t a = r.below(i + 1); val[i] = val[a]; vec[i] = vec[a]; }
    for (ind_t e = 0; e < 3 * k; ++e) { double t = 2 * M_PI * r.uni(); if constexpr (is_cplx<R>::v) unit.push_back(R(std::cos(t), std::sin(t))); else unit.push_back(R(t > M_PI ? -1 : 1)); }
  }
  template<class Gr> void costs(Gr& g, bool first) const {
    static const double w[] = {1, 0.3, 2}; double a = w[sim::draw("value_weight", 3)], b = w[sim::draw("vector_weight", 3)]; int f = static_cast<int>(sim::draw("vector_cost_function", 5));
    uint64_t d = sim::draw("cost_setting", 3);
    if (first && by_value && by_vector && d == 0) return;                 // the default costs
    g.set_value_cost_info(0, 0, std::array<double, 3>{by_value ? a : 0.0, 1, 1});
    g.set_vector_cost_info(0, f, std::array<double, 3>{1, by_vector ? b : 0.0, 1});
  }
  // shuffled: the order of the modes is another one at every vertex
  template<class Gr> void install(Gr& g, const std::vector<D3>& verts, Rng& r, bool shuffled) const {
    auto n = static_cast<ind_t>(verts.size());
    std::vector<ind_t> sv{n, B}; if (s > 1) sv.push_back(s);
    brille::Array<T> av(sv); brille::Array<R> aw(std::vector<ind_t>{n, B, k, 3}); brille::Array2<T> v2(av); brille::Array2<R> w2(aw);
    std::vector<ind_t> p(B); for (ind_t i = 0; i < B; ++i) p[i] = i;
    for (ind_t i = 0; i < n; ++i) {
      if (shuffled) for (ind_t j = B; j > 1; --j) std::swap(p[j - 1], p[r.below(j)]);
      for (ind_t b = 0; b < B; ++b) {
        R ph = R(1); if constexpr (is_cplx<R>::v) { double t = 2 * M_PI * r.uni(); ph = R(std::cos(t), std::sin(t)); }
        for (ind_t e = 0; e < s; ++e) v2.ptr(i)[b * s + e] = T(lin(val[p[b]][e], verts[i]));
        for (ind_t e = 0; e < 3 * k; ++e) w2.ptr(i)[b * 3 * k + e] = ph * unit[e] * lin(vec[p[b]][e], verts[i]);
      }
    }
    g.replace_value_data(av, std::array<ind_t, 3>{s, 0, 0}, brille::RotatesLike::vector, brille::LengthUnit::real_lattice);
    g.replace_vector_data(aw, std::array<ind_t, 3>{0, 3 * k, 0}, brille::RotatesLike::vector, brille::LengthUnit::real_lattice);
  }
  bool match(const brille::Array2<T>& v2, const brille::Array2<R>& w2, ind_t i, ind_t b, ind_t m, const D3& x) const {
    for (ind_t e = 0; e < s; ++e) if (!(std::abs(v2.val(i, b * s + e) - T(lin(val[m][e], x))) < 1e-7)) return false;
    R ov{0}; std::vector<R> want; for (ind_t e = 0; e < 3 * k; ++e) { want.push_back(unit[e] * lin(vec[m][e], x)); R v = w2.val(i, b * 3 * k + e); if constexpr (is_cplx<R>::v) ov += v * std::conj(want[e]); else ov += v * want[e]; }
    R ph = R(1); if constexpr (is_cplx<R>::v) { if (std::abs(ov) > 0) ph = ov / std::abs(ov); }
    for (ind_t e = 0; e < 3 * k; ++e) if (!(std::abs(w2.val(i, b * 3 * k + e) - ph * want[e]) < 1e-7)) return false;
    return true;
  }
  void check(const std::tuple<brille::Array<T>, brille::Array<R>>& res, const std::vector<D3>& x, bool identity, const char* kind) const {
    brille::Array2<T> v2(std::get<0>(res)); brille::Array2<R> w2(std::get<1>(res));
    SIM_CHECK(x.empty() || (v2.size(0) == x.size() && v2.size(1) == B * s && w2.size(0) == x.size() && w2.size(1) == B * 3 * k), "wrong-shape", "result has another shape");
    for (ind_t i = 0; i < x.size(); ++i) {
      std::vector<char> used(B, 0);
      for (ind_t b = 0; b < B; ++b) {
        bool ok = false; for (ind_t m = 0; m < B && !ok; ++m) if (!used[m] && (!identity || m == b) && match(v2, w2, i, b, m, x[i])) { ok = true; used[m] = 1; }
        if (!ok) { std::ostringstream o; o << "at hkl " << str3(x[i]) << " the interpolated mode " << b << " of " << B << " is " << (identity ? "not the mode stored there" : "a mixture of modes or a mode given twice"); sim::violation(kind, o.str()); }
      }
    }
  }
};

template<class T, class R> void interpolate_check(G<T, R>& g, const Modes<T, R>& m, const Zone& z, const std::vector<D3>& pts, bool identity, const char* kind) {
  int nth = 1; { sim::Quiet quiet; nth = draw_threads(); }
  auto x = [&] { sim::Quiet quiet; return lvec(z, pts); }();
  auto res = [&] { sim::Phase ph("interpolate"); return g.template ir_interpolate_at<true>(x, nth); }();
  sim::Quiet quiet; m.check(res, pts, identity, kind);
}
template<class T, class R> void body() {
  Modes<T, R> m; G<T, R>* g; Zone* z; std::vector<D3> pts; const std::vector<D3>* verts; uint64_t rounds; Rng r;
  {
    sim::Quiet quiet; auto& f = fixes<T, R>()[sim::draw("grid", NS)]; z = &zone(f.zi); g = f.grid.get(); verts = &f.verts; r.reseed(sim::draw_seed("data"));
    m.make(r); m.costs(*g, true); m.install(*g, *verts, r, true); pts = draw_points(*z, f.verts, r, 12).pts; rounds = 1 + sim::draw("rounds", 3);
  }
  for (uint64_t i = 0; i < rounds; ++i) {
    { sim::Phase ph("sort"); g->sort(); }
    if (sim::max_team_seen() > 1 && m.B > 1) sim::nontrivial();
    interpolate_check(*g, m, *z, pts, false, "modes-mixed");
    sim::Quiet quiet;
    switch (sim::draw("then", 4)) {
      case 0: break;                                              // sort the same data again
      case 1: { auto old = m.B; m = Modes<T, R>(); m.make(r); m.install(*g, *verts, r, true); m.costs(*g, false); if (m.B == old) sim::probe("same_number_of_modes"); break; }
      case 2: m.install(*g, *verts, r, true); break;              // the same modes in other orders
      default: {                                                  // ordered data need no sorting
        m.install(*g, *verts, r, false); sim::probe("replaced_after_sort");
        auto x = lvec(*z, pts); m.check(g->template ir_interpolate_at<true>(x), pts, true, "stale-order");
      }
    }
  }
}
// grids of different callers sorted at the same time
template<class T, class R> void apart() {
  struct C { std::unique_ptr<G<T, R>> g; Modes<T, R> m; Zone* z; std::vector<D3> pts; }; std::vector<C> cs; std::vector<std::function<void()>> bodies;
  {
    sim::Quiet quiet; size_t n = static_cast<size_t>(2 + sim::draw("callers", 2)); Rng r(sim::draw_seed("data"));
    for (size_t i = 0; i < n; ++i) { auto& f = fixes<T, R>()[sim::draw("grid", NS)]; C c; c.z = &zone(f.zi); c.g = std::make_unique<G<T, R>>(*f.grid); c.m.make(r); c.m.costs(*c.g, true); c.m.install(*c.g, f.verts, r, true); for (int k = 0; k < 6; ++k) c.pts.push_back(hull_point(c.z->irv, r, k % 4)); cs.push_back(std::move(c)); }
    for (auto& c : cs) bodies.push_back([&c] { c.g->sort(); });
  }
  { sim::Phase ph("sort"); sim::run_threads(bodies); }
  sim::Quiet quiet; sim::nontrivial();
  for (auto& c : cs) { auto x = lvec(*c.z, c.pts); c.m.check(c.g->template ir_interpolate_at<true>(x), c.pts, false, "modes-mixed"); }
}
sim::Reg a("T11", NAME "_real_complex", body<double, cplx>, 2, warm<double, cplx>);
sim::Reg b("T11", NAME "_real_real", body<double, double>, 1.5, warm<double, double>);
sim::Reg c("T11", NAME "_apart", apart<double, cplx>, 0.7, warm<double, cplx>);
}
