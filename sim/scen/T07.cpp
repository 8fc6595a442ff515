// parts: 2
// Building the tetrahedral mesh (part 0) and the nested tetrahedra (part 1): complete cover, no overlap, usable.
#include "grid.hpp"
#include <omp.h>
#if PART == 0
#include "bz_mesh.hpp"
#define NAME "mesh"
#else
#include "bz_nest.hpp"
#define NAME "nest"
#endif
using namespace fx;
namespace {
double irvol[64];
struct Spec { size_t zone; double vol; int levels; };
#if PART == 0
using G = brille::BrillouinZoneMesh3<double, cplx, double>;
std::unique_ptr<G> build(const Spec& s, double v) { return std::make_unique<G>(*zone(s.zone).bz, v, s.levels, 400); }
std::vector<D3> vertices(const G& g) { return rows(g.get_mesh_hkl()); }
std::vector<std::array<ind_t, 4>> cells(const G& g) { std::vector<std::array<ind_t, 4>> o; auto& t = g.get_mesh_tetrehedra(); for (ind_t i = 0; i < t.size(0); ++i) o.push_back({t.val(i, 0), t.val(i, 1), t.val(i, 2), t.val(i, 3)}); return o; }
const std::vector<Spec> small{{25, 0.6, 2}, {0, 0.6, 3}, {3, 0.6, 2}, {8, 0.9, 2}, {18, 0.9, 2}, {1, 0.6, 2}};
#else
using G = brille::BrillouinZoneNest3<double, cplx, double>;
std::unique_ptr<G> build(const Spec& s, double v) { return std::make_unique<G>(*zone(s.zone).bz, v, static_cast<ind_t>(s.levels)); }
std::vector<D3> vertices(const G& g) { return rows(g.get_all_hkl()); }
std::vector<std::array<ind_t, 4>> cells(const G& g) { std::vector<std::array<ind_t, 4>> o; for (auto& t : g.tetrahedra()) o.push_back({static_cast<ind_t>(t[0]), static_cast<ind_t>(t[1]), static_cast<ind_t>(t[2]), static_cast<ind_t>(t[3])}); return o; }
const std::vector<Spec> small{{25, 0.3, 2}, {24, 0.3, 3}, {0, 0.6, 3}, {3, 0.4, 4}, {6, 0.3, 3}, {8, 0.5, 2}, {18, 0.5, 3}, {23, 0.5, 5}};
#endif
void inspect(const Zone& z, const Hull& h, double vol, int levels, double total, G& g) {
  auto v = vertices(g); auto c = cells(g); std::string tag = z.def->tag;
  for (size_t i = 0; i < v.size(); ++i) {
    SIM_CHECK(hull_excess(h, v[i]) < 1e-7, "bad-grid", "vertex " + str3(v[i]) + " lies outside the irreducible zone of " + tag);
    for (size_t j = 0; j < i; ++j) { D3 d = v[i] - v[j]; SIM_CHECK(dot3(d, d) > 1e-16, "bad-grid", "vertices " + std::to_string(j) + " and " + std::to_string(i) + " of " + tag + " are the same point " + str3(v[i])); }
  }
  for (auto& p : z.irv) { bool found = false; for (auto& q : v) { D3 d = p - q; if (dot3(d, d) < 1e-14) found = true; } SIM_CHECK(found, "bad-grid", "the corner " + str3(p) + " of the irreducible zone of " + tag + " is not a vertex"); }
  double V = 0, big = 0; std::map<std::array<ind_t, 3>, int> faces; std::vector<char> used(v.size(), 0);
  for (auto& t : c) {
    for (auto x : t) { SIM_CHECK(x < v.size(), "bad-grid", "a cell uses vertex " + std::to_string(x) + " of " + std::to_string(v.size())); used[x] = 1; }
    double q = tet_volume(cart(z, v[t[0]]), cart(z, v[t[1]]), cart(z, v[t[2]]), cart(z, v[t[3]])); V += q; big = std::max(big, q);
    SIM_CHECK(q > 1e-12 * total, "bad-grid", "a cell of " + tag + " is flat");
    auto s = t; std::sort(s.begin(), s.end()); for (size_t k = 0; k < 4; ++k) { std::array<ind_t, 3> f; size_t n = 0; for (size_t i = 0; i < 4; ++i) if (i != k) f[n++] = s[i]; ++faces[f]; }
  }
  for (size_t i = 0; i < used.size(); ++i) SIM_CHECK(used[i], "bad-grid", "vertex " + std::to_string(i) + " of " + tag + " belongs to no cell");
  SIM_CHECK(std::abs(V - total) < 1e-6 * total, "bad-grid", "the cells of " + tag + " fill " + std::to_string(V) + " of " + std::to_string(total));
#if PART == 0
  SIM_CHECK(big <= 4 * vol || v.size() >= 390, "bad-grid", "a cell of " + tag + " is larger (" + std::to_string(big) + ") than asked for (" + std::to_string(vol) + ")");
  for (auto& f : faces) {
    SIM_CHECK(f.second <= 2, "bad-grid", "one face belongs to three cells of " + tag);
    if (f.second == 1) { bool on = false; for (size_t k = 0; k < h.n.size(); ++k) { bool all = true; for (auto x : f.first) if (std::abs(dot3(h.n[k], v[x]) - h.d[k]) > 1e-7) all = false; if (all) on = true; } SIM_CHECK(on, "bad-grid", "an inner face of " + tag + " belongs to one cell only"); }
  }
#else
  SIM_CHECK(big <= 4 * vol || levels < 2, "bad-grid", "a cell of " + tag + " is larger (" + std::to_string(big) + ") than asked for (" + std::to_string(vol) + ")");
#endif
}
void use(Zone& z, G& g) {
  Rng r(sim::draw_seed("data")); auto v = vertices(g); LinearData<double, cplx> d; d.install(g, v, r);
  auto q = draw_points(z, v, r, 40); auto x = lvec(z, q.pts); int nth = draw_threads();
  auto res = g.ir_interpolate_at<true>(x, nth);
  d.check(res, q.pts, "wrong-interpolation");
}
bool awkward(const std::string& what) { return what.find("intersection point") != std::string::npos; }
void watched() {
  auto& s = small[sim::draw("grid", small.size())]; Zone& z = zone(s.zone); double vol = s.vol * irvol[s.zone]; std::unique_ptr<G> g;
  { sim::Phase ph("construct"); g = build(s, vol); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1) sim::nontrivial();
  inspect(z, hull(s.zone), vol, s.levels, irvol[s.zone], *g);
  use(z, *g);
}
void wide() {
  int levels = static_cast<int>(1 + sim::draw("levels", PART == 0 ? 4 : 6));
  Spec s{sim::draw("zone", lats().size()), std::exp(std::log(PART == 1 ? 0.01 : levels == 1 ? 0.02 : 0.15) * sim::Rng(sim::draw_seed("volume")).uni()), levels};
  sim::Quiet quiet; Zone& z = zone(s.zone); double vol = s.vol * irvol[s.zone]; std::unique_ptr<G> g; std::string what;
  { sim::Phase ph("construct"); try { g = build(s, vol); } catch (const std::exception& e) { what = e.what(); } }
  if (!g) { SIM_CHECK(PART == 0 && s.levels > 1, "refused", std::string("the grid of ") + z.def->tag + " can not be built: " + what); sim::probe("refused"); return; }
  inspect(z, hull(s.zone), vol, s.levels, irvol[s.zone], *g);
  auto v = vertices(*g); auto c = cells(*g);
  use(z, *g);
  if (sim::max_team_seen() > 1) sim::nontrivial();
  if (sim::max_team_seen() > 1 && sim::coin("compare", 0.4)) { // with the same grid built by one thread
    omp_set_num_threads(1); auto a = build(s, vol); sim::probe("compared"); auto w = vertices(*a); std::string tag = z.def->tag;
    auto missing = same_points(v, w); SIM_CHECK(missing.empty(), "depends-on-team", "the grid of " + tag + " has other vertices than the one built by a single thread: " + missing);
    SIM_CHECK(c.size() == cells(*a).size(), "depends-on-team", "the number of tetrahedra of " + tag + " differs from the grid built by a single thread");
  }
}
void warm() { for (size_t i = 0; i < lats().size(); ++i) irvol[i] = hull_volume(zone(i), hull(i)); }
sim::Reg a("T07", NAME "_watched", watched, PART == 0 ? 0.15 : 0.3, warm);
sim::Reg b("T07", NAME "_wide", wide, 1, warm);
}
