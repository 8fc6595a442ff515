// parts: 3
// Errors met inside parallel regions reach the caller, and the grid still works.
#include "grid.hpp"
#if PART == 0
#include "bz_trellis.hpp"
#define NAME "trellis"
#elif PART == 1
#include "bz_mesh.hpp"
#define NAME "mesh"
#else
#include "bz_nest.hpp"
#define NAME "nest"
#endif
using namespace fx;
namespace {
using T = double; using R = cplx;
struct Spec { size_t zone; double vol; int levels; };
#if PART == 0
using G = brille::BrillouinZoneTrellis3<T, R, double>;
const Spec specs[] = {{0, 0.3, 0}, {24, 0.2, 0}, {11, 0.3, 0}, {6, 0.2, 0}, {16, 0.3, 0}, {22, 0.2, 0}, {18, 0.2, 1}};
std::unique_ptr<G> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<G>(*z.bz, s.vol * z.bz->get_ir_polyhedron().volume(), s.levels == 1); }
std::vector<D3> vertices(const G& g) { return rows(g.get_hkl()); }
#elif PART == 1
using G = brille::BrillouinZoneMesh3<T, R, double>;
const Spec specs[] = {{0, 0.3, 1}, {24, 0.2, 2}, {11, 0.3, 1}, {6, 0.2, 3}, {16, 0.3, 1}, {22, 0.2, 1}};
std::unique_ptr<G> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<G>(*z.bz, s.vol * z.bz->get_ir_polyhedron().volume(), s.levels, 100); }
std::vector<D3> vertices(const G& g) { return rows(g.get_mesh_hkl()); }
#else
using G = brille::BrillouinZoneNest3<T, R, double>;
const Spec specs[] = {{0, 0.3, 3}, {24, 0.2, 3}, {11, 0.3, 4}, {6, 0.2, 3}, {16, 0.3, 3}, {22, 0.2, 2}};
std::unique_ptr<G> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<G>(*z.bz, s.vol * z.bz->get_ir_polyhedron().volume(), static_cast<ind_t>(s.levels)); }
std::vector<D3> vertices(const G& g) { return rows(g.get_all_hkl()); }
#endif
constexpr size_t NS = sizeof specs / sizeof *specs;
GridFix<G> fixes[NS];
void warm() { for (size_t i = 0; i < NS; ++i) { auto& f = fixes[i]; f.zi = specs[i].zone; f.grid = build(specs[i]); f.verts = vertices(*f.grid); hull(f.zi); } }
struct Call { int how, nth; };
Call draw_call() { Call c; c.nth = draw_threads(); c.how = static_cast<int>(sim::draw("call", 4)); return c; }
using Res = std::tuple<brille::Array<T>, brille::Array<R>>;
Res interpolate(G& g, const brille::lattice::LVec<double>& x, const Call& c) {
  switch (c.how) {
#if PART == 0
    case 0: case 1: return g.interpolate_at<true>(x, c.nth);
    case 2: return g.interpolate_at<true>(x);
#else
    case 0: return g.interpolate_at(x.xyz(), c.nth);
    case 1: return g.ir_interpolate_at<true>(x, c.nth);
    case 2: return g.interpolate_at(x.xyz());
#endif
    default: return g.ir_interpolate_at<true>(x, c.nth);
  }
}
template<class F> bool throws(F f, std::string& what) {
  try { f(); } catch (const std::exception& e) { what = e.what(); return true; }   // anything else ends the run as a violation
  return false;
}
D3 outside(const Zone& z, const Hull& h, Rng& r) {
  static const double scale[] = {1.05, 1.3, 2, 5, 50};
  for (;;) {
    D3 p = hull_point(z.irv, r, static_cast<int>(1 + r.below(3))), d = p - z.centre; double t = scale[r.below(5)];
    D3 o = z.centre + t * d; double s = 0; for (auto& v : z.irv) s = std::max(s, std::sqrt(dot3(v, v)));
#if PART == 0
    // the hybrid grid only promises to notice points beyond its last bin along a Cartesian axis
    brille::Array2<double> c = lvec(z, {o}).xyz(), v = lvec(z, z.irv).xyz(); bool beyond = false;
    for (ind_t k = 0; k < 3; ++k) { double m = v.val(0, k); for (ind_t i = 0; i < v.size(0); ++i) m = std::max(m, v.val(i, k)); if (c.val(0, k) > m + 0.01) beyond = true; }
    if (!beyond) continue;
#endif
    if (hull_excess(h, o) > 0.01 * s) return o;
  }
}
// the grid still gives right answers
void usable(G& g, Zone& z, const LinearData<T, R>& d, Rng& r, const char* after) {
  sim::Phase ph(after);
  std::vector<D3> p; for (int i = 0; i < 6; ++i) p.push_back(hull_point(z.irv, r, i % 4));
  sim::Quiet quiet;
  auto x = lvec(z, p);
  auto res = interpolate(g, x, Call{static_cast<int>(r.below(4)), static_cast<int>(1 + r.below(4))});
  d.check(res, p, "damaged-grid");
}
void missing() {
  LinearData<T, R> d; std::vector<D3> p; std::unique_ptr<brille::lattice::LVec<double>> x; Call c; G* g; Zone* z; size_t bad = 0; Rng r(0);
  {
    sim::Quiet quiet;
    auto& f = fixes[sim::draw("grid", NS)]; z = &zone(f.zi); auto& h = hull(f.zi); g = f.grid.get(); r.reseed(sim::draw_seed("data"));
    d.install(*g, f.verts, r);
    size_t n = static_cast<size_t>(1 + sim::draw("npoints", 16)); uint64_t mix = sim::draw("which", 6); size_t one = r.below(n);
    for (size_t i = 0; i < n; ++i) {
      bool b = mix == 0 ? i == one : mix == 1 ? i == 0 : mix == 2 ? i + 1 == n : mix == 3 ? true : mix == 4 ? r.below(2) == 0 : false;
      if (b) ++bad;
      p.push_back(b ? outside(*z, h, r) : hull_point(z->irv, r, static_cast<int>(r.below(4))));
    }
    x = std::make_unique<brille::lattice::LVec<double>>(laid(*z, p)); c = draw_call();
  }
  std::string what; Res res; bool threw;
  { sim::Phase ph("interpolate"); threw = throws([&] { res = interpolate(*g, *x, c); }, what); }
  sim::Quiet quiet;
  if (bad) { sim::fault_fired("point_outside", bad); if (sim::max_team_seen() > 1) sim::nontrivial(); }
  SIM_CHECK(threw == (bad > 0), bad ? "lost-error" : "false-error", bad ? std::to_string(bad) + " of " + std::to_string(p.size()) + " points are outside the irreducible zone of " + z->def->tag + " but the call returned normally" : "every point is inside the irreducible zone of " + std::string(z->def->tag) + " but the call threw: " + what);
  if (!threw) d.check(res, p, "wrong-interpolation");
  usable(*g, *z, d, r, "interpolate after the error");
}
// a failing allocation anywhere in the call
void starved() {
  LinearData<T, R> d; std::vector<D3> p; std::unique_ptr<brille::lattice::LVec<double>> x; Call c; G* g; Zone* z; Rng r(0); bool move; uint64_t nth, rep;
  {
    sim::Quiet quiet;
    auto& f = fixes[sim::draw("grid", NS)]; z = &zone(f.zi); g = f.grid.get(); r.reseed(sim::draw_seed("data"));
    d.install(*g, f.verts, r);
    size_t n = static_cast<size_t>(1 + sim::draw("npoints", 8)); for (size_t i = 0; i < n; ++i) p.push_back(hull_point(z->irv, r, static_cast<int>(r.below(4))));
    x = std::make_unique<brille::lattice::LVec<double>>(laid(*z, p)); c = draw_call(); move = sim::coin("move", 0.4);
    static const uint64_t span[] = {20, 100, 400, 1500}; nth = 1 + sim::draw("failing_allocation", span[sim::draw("span", 4)]); rep = 1 + sim::draw("failures", 3);
  }
  Res res; bool threw = false, fired; std::string what;
  { sim::Phase ph("interpolate"); sim::arm_alloc_fault(nth, rep); threw = throws([&] { res = move ? g->ir_interpolate_at<false>(*x, c.nth) : interpolate(*g, *x, c); }, what); fired = sim::disarm_alloc_fault(); }
  sim::Quiet quiet;
  if (fired && sim::max_team_seen() > 1) sim::nontrivial();
  SIM_CHECK(fired || !threw, "false-error", "no allocation failed but the call threw: " + what);
  if (!threw) { if (fired) sim::probe("absorbed"); if (!move) d.check(res, p, "wrong-interpolation"); }
  usable(*g, *z, d, r, "interpolate after the error");
}
// requests which cannot be met: rotating eigenvectors of a crystal without atoms, no data yet, another crystal's points
void refused() {
  LinearData<T, R> d; std::vector<D3> p; std::unique_ptr<brille::lattice::LVec<double>> x; Call c; G* g; Zone* z; Rng r(0); uint64_t why; std::unique_ptr<G> own;
  {
    sim::Quiet quiet;
    size_t k = sim::draw("grid", NS); auto& f = fixes[k]; z = &zone(f.zi); auto& h = hull(f.zi); g = f.grid.get(); r.reseed(sim::draw_seed("data"));
    why = sim::draw("why", 3); c = draw_call();
    size_t n = static_cast<size_t>(1 + sim::draw("npoints", 10)); for (size_t i = 0; i < n; ++i) p.push_back(why == 0 ? any_q(*z, h, r, r.below(8)) : hull_point(z->irv, r, static_cast<int>(r.below(4))));
    if (why == 0) {
      d.install(*g, f.verts, r);
      auto nv = static_cast<ind_t>(f.verts.size()); brille::Array<R> vec(std::vector<ind_t>{nv, 2, 3}, R(1, 0)); brille::Array<T> val(std::vector<ind_t>{nv, 2, 1}, 1.0); std::array<ind_t, 3> ev{1, 0, 0}, ew{0, 3, 0};
      g->replace_value_data(val, ev, brille::RotatesLike::vector, brille::LengthUnit::real_lattice);
      g->replace_vector_data(vec, ew, brille::RotatesLike::Gamma, sim::coin("angstrom", 0.5) ? brille::LengthUnit::angstrom : brille::LengthUnit::real_lattice);
    } else if (why == 1) { own = build(specs[k]); g = own.get(); }
    x = std::make_unique<brille::lattice::LVec<double>>(laid(why == 2 ? zone(specs[k ? 0 : 1].zone) : *z, p));
    if (why == 2) d.install(*g, f.verts, r);
  }
  std::string what; bool threw;
  { sim::Phase ph("interpolate"); threw = throws([&] { why == 1 ? interpolate(*g, *x, c) : c.how == 2 ? g->ir_interpolate_at<false>(*x) : g->ir_interpolate_at<false>(*x, c.nth); }, what); }
  sim::Quiet quiet;
  sim::fault_fired(why == 0 ? "no_atoms" : why == 1 ? "no_data" : "other_crystal"); if (sim::max_team_seen() > 1 && why == 0) sim::nontrivial();
  static const char* w[] = {"eigenvectors of a crystal without atoms were rotated", "a grid without data was interpolated", "points of another crystal were interpolated"};
  SIM_CHECK(threw, "lost-error", std::string(w[why]) + " without an error");
  auto& f = *std::find_if(fixes, fixes + NS, [&](auto& q) { return q.zi == static_cast<size_t>(&*z->def - lats().data()); });
  d.install(*g, f.verts, r);
  usable(*g, *z, d, r, "interpolate after the error");
}
sim::Reg a("T09", NAME "_missing", missing, 2, warm);
sim::Reg b("T09", NAME "_starved", starved, 2);
sim::Reg e("T09", NAME "_refused", refused, 1);
// a failing allocation or an impossible mesh while a grid is built
struct Build { size_t zone; double vol; int levels; };
void construction() {
  static const Build bs[] = {{0, 0.6, 1}, {24, 0.3, 2}, {3, 0.4, 2}, {11, 0.5, 1}, {16, 0.5, 4}, {16, 0.5, 2}};
  auto& s = bs[sim::draw("build", 6)]; static const uint64_t span[] = {100, 1000, 10000, 60000};
  uint64_t nth = sim::coin("no_fault", 0.1) ? 0 : 1 + sim::draw("failing_allocation", span[sim::draw("span", 4)]), rep = 1 + sim::draw("failures", 2);
  Rng r(sim::draw_seed("data")); Zone& z = zone(s.zone);
  std::unique_ptr<G> g; std::string what; bool threw, fired;
  auto on = [&] { return build(Spec{s.zone, s.vol, PART == 0 ? s.levels % 2 : PART == 1 ? s.levels : 1 + s.levels}); };
  { sim::Phase ph("construct"); sim::arm_alloc_fault(nth, rep); threw = throws([&] { g = on(); }, what); fired = sim::disarm_alloc_fault(); }
  sim::Quiet quiet;
  if (fired && sim::max_team_seen() > 1) sim::nontrivial();
  bool impossible = PART == 1 && s.zone == 16;   // flat layers of this zone may not connect: a reported error is right
  SIM_CHECK(fired || !threw || impossible, "false-error", "nothing failed but the construction threw: " + what);
  if (threw) { sim::probe("construction_threw"); if (impossible) return; sim::Phase ph("construct again"); g = on(); }
  LinearData<T, R> d; auto v = vertices(*g); d.install(*g, v, r);
  usable(*g, z, d, r, "interpolate on the grid");
}
sim::Reg k("T09", NAME "_construction", construction, 1);
}
