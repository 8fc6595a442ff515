// parts: 2
// The clock: random points, stopwatches and time-stamped constructions while the wall clock jumps.
#include "grid.hpp"
#include "debug.hpp"
#if PART == 1
#include "bz_mesh.hpp"
#include "bz_nest.hpp"
#include "bz_trellis.hpp"
#endif
#include <set>
using namespace fx;
namespace {
// the wall clock of this run: any time since 1970, ticking slowly or not at all and jumping back and forth
void draw_clock() {
  auto& e = sim::env();
  e.now_ns = static_cast<int64_t>(sim::draw("days", 60000)) * 86400000000000ll + static_cast<int64_t>(sim::draw("ms_of_day", 86400000)) * 1000000ll;
  e.tick_ns = static_cast<int64_t>(std::array<int64_t, 4>{1000, 0, 7000000, 900000000}[sim::draw("tick", 4)]);
  if (sim::coin("jumps", 0.8)) { e.jump_every = static_cast<int>(1 + sim::draw("jump_every", 4)); e.jump_ns = (sim::coin("forward", 0.3) ? 1 : -1) * static_cast<int64_t>(1 + sim::draw("jump_ms", 3000000)) * 1000000ll; if (e.jump_ns < 0 && e.now_ns < 400 * 86400000000000ll) e.now_ns += 400 * 86400000000000ll; }
}
#if PART == 0
const size_t Z[] = {0, 24, 1, 4, 5, 8, 11, 12, 16, 19, 22, 23, 25};
constexpr size_t NZ = sizeof Z / sizeof *Z;
struct Case { std::unique_ptr<brille::polyhedron::Poly<double, brille::lattice::LVec>> p; std::unique_ptr<brille::polyhedron::Poly<double, brille::bArray>> c; };
Case cases[NZ][2];
void warm() {
  for (size_t i = 0; i < NZ; ++i) for (int k = 0; k < 2; ++k) {
    auto& z = zone(Z[i]); auto p = k ? z.bz->get_ir_polyhedron() : z.bz->get_polyhedron();
    cases[i][k].p = std::make_unique<brille::polyhedron::Poly<double, brille::lattice::LVec>>(p.vertices(), p.faces());
    cases[i][k].c = std::make_unique<brille::polyhedron::Poly<double, brille::bArray>>(p.vertices().xyz(), p.faces());
  }
}
// outward planes of the polyhedron, found from its corners alone
struct Planes { std::vector<D3> n; std::vector<double> d; D3 centre{}; double size{0}; };
Planes planes(const std::vector<D3>& v) {
  Planes o; for (auto& p : v) o.centre = o.centre + (1.0 / static_cast<double>(v.size())) * p;
  for (auto& p : v) o.size = std::max(o.size, std::sqrt(dot3(p - o.centre, p - o.centre)));
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) for (size_t k = j + 1; k < v.size(); ++k) {
    D3 n = cross3(v[j] - v[i], v[k] - v[i]); double l = std::sqrt(dot3(n, n)); if (l < 1e-6 * o.size * o.size) continue; n = (1 / l) * n;
    double lo = 0, hi = 0; for (auto& p : v) { double s = dot3(n, p - v[i]); lo = std::min(lo, s); hi = std::max(hi, s); }
    if (hi < 1e-7 * o.size) { o.n.push_back(n); o.d.push_back(dot3(n, v[i])); } else if (lo > -1e-7 * o.size) { o.n.push_back(-1.0 * n); o.d.push_back(-dot3(n, v[i])); }
  }
  return o;
}
void points() {
  sim::Quiet quiet; draw_clock();
  size_t zi = sim::draw("zone", NZ), which = sim::draw("polyhedron", 2); bool cart = sim::coin("cartesian", 0.4); auto& c = cases[zi][which]; auto& z = zone(Z[zi]);
  auto corners = [&](const auto& verts) { return rows(verts); };
  Planes pl = planes(cart ? corners(c.c->vertices()) : corners(c.p->vertices().hkl()));
  size_t callers = 1 + sim::draw("callers", 3); std::vector<unsigned> seed(callers); std::vector<ind_t> n(callers);
  for (size_t i = 0; i < callers; ++i) { seed[i] = static_cast<unsigned>(sim::draw("seed", 3) ? 1 + sim::draw("seed_value", 1000000) : 0); n[i] = static_cast<ind_t>(1 + sim::draw("points", sim::draw("many", 8) == 7 ? 120 : 6)); }
  if (callers > 1 && sim::coin("same_seed", 0.3)) { seed[1] = seed[0]; n[1] = n[0]; }
  auto get = [&](size_t i, ind_t count) { return cart ? rows(c.c->rand_rejection(count, seed[i])) : rows(c.p->rand_rejection(count, seed[i]).hkl()); };
  std::vector<std::vector<D3>> out(callers); std::vector<std::function<void()>> bodies; for (size_t i = 0; i < callers; ++i) bodies.push_back([&, i] { out[i] = get(i, n[i]); });
  { sim::Loud loud; sim::Phase ph("random points"); if (callers > 1) sim::run_threads(bodies); else bodies[0](); }
  if (callers > 1) sim::nontrivial();
  for (size_t i = 0; i < callers; ++i) {
    SIM_CHECK(out[i].size() == n[i], "wrong-answer", std::to_string(out[i].size()) + " random points instead of " + std::to_string(n[i]));
    for (size_t j = 0; j < n[i]; ++j) { sim::mix_hash(out[i][j].data(), sizeof(D3)); for (size_t k = 0; k < pl.n.size(); ++k) SIM_CHECK(dot3(pl.n[k], out[i][j]) - pl.d[k] < 1e-6 * pl.size, "outside", "random point " + str3(out[i][j]) + " of seed " + std::to_string(seed[i]) + " is outside of the " + (which ? "irreducible" : "first") + " zone of " + z.def->tag); }
    if (n[i] >= 100) for (size_t a = 0; a < 3; ++a) { bool lo = false, hi = false; for (auto& p : out[i]) (p[a] < pl.centre[a] ? lo : hi) = true; SIM_CHECK(lo && hi, "not-random", "none of " + std::to_string(n[i]) + " random points lies on one side of the centre of the zone of " + z.def->tag); sim::probe("spread"); }
    if (seed[i]) { // at another time, alone, for fewer or more points
      draw_clock(); ind_t m = static_cast<ind_t>(1 + sim::draw("again", 2 * n[i])); auto again = get(i, m); sim::probe("repeated");
      for (size_t j = 0; j < std::min<size_t>(m, n[i]); ++j) SIM_CHECK(again[j] == out[i][j], "depends-on-clock", "point " + std::to_string(j) + " of seed " + std::to_string(seed[i]) + " is " + str3(out[i][j]) + " once and " + str3(again[j]) + " at another time");
    } else if (n[i] > 3) { bool differ = false; for (size_t j = 1; j < n[i]; ++j) if (out[i][j] != out[i][0]) differ = true; SIM_CHECK(differ, "not-random", "all random points are the same"); }
  }
  if (callers > 1 && seed[0] && seed[0] == seed[1] && n[0] == n[1]) SIM_CHECK(out[0] == out[1], "depends-on-schedule", "two callers with the same seed got different points");
}
template<class U> void stopwatch() {
  auto& e = sim::env(); const int64_t unit = std::chrono::duration_cast<std::chrono::nanoseconds>(U(1)).count();
  auto wait = [&] { int64_t d = static_cast<int64_t>(sim::draw("wait", 5000000)) * unit / 1000; e.mono_ns += d; e.now_ns += d; return d; };
  brille::Stopwatch<U> w; int64_t start = e.mono_ns, split = start, end = start; size_t presses = 0;
  // a time between two readings is known up to the ticks of the clock while it is read and the unit
  auto near = [&](double got, int64_t ns, const char* what) { double t = static_cast<double>(ns) / static_cast<double>(unit), slack = 1 + 4.0 * static_cast<double>(e.tick_ns) / static_cast<double>(unit); SIM_CHECK(got >= 0 && std::abs(got - t) <= slack, "wrong-time", std::string(what) + " is " + std::to_string(got) + " but " + std::to_string(t) + " passed"); };
  for (uint64_t k = 0, n = 1 + sim::draw("presses", 8); k < n; ++k) {
    wait();
    switch (sim::draw("press", 5)) {
      case 0: w.tic(); start = split = end = e.mono_ns; presses = 0; near(w.elapsed(), 0, "elapsed after tic"); break;
      case 1: { double s = w.split(); near(s, e.mono_ns - split, "split"); split = e.mono_ns; ++presses; near(w.elapsed(), end - start, "elapsed after a split"); break; }
      default: { double t = w.toc(); end = e.mono_ns; ++presses; near(t, end - start, "toc"); SIM_CHECK(w.elapsed() == t, "wrong-time", "elapsed differs from toc"); }
    }
    if (presses) { double p = static_cast<double>(presses), el = w.elapsed(); SIM_CHECK(std::abs(w.average() - el / p) <= 1e-12 * (1 + el), "wrong-time", "average " + std::to_string(w.average()) + " of " + std::to_string(el) + " in " + std::to_string(presses)); SIM_CHECK(std::abs(w.jitter() - std::sqrt(el) / p) <= 1e-12 * (1 + el), "wrong-time", "jitter " + std::to_string(w.jitter()) + " of " + std::to_string(el) + " in " + std::to_string(presses)); }
  }
  sim::probe("stopwatch"); sim::nontrivial();
}
void watch() {
  sim::Quiet quiet; draw_clock();
  switch (sim::draw("unit", 3)) { case 1: stopwatch<std::chrono::microseconds>(); break; case 2: stopwatch<std::chrono::seconds>(); break; default: stopwatch<std::chrono::milliseconds>(); }
}
sim::Reg a("C01", "points", points, 3, warm);
sim::Reg b("C01", "stopwatch", watch, 1);
#else
struct Out { std::vector<D3> verts; std::vector<double> values; };
// the vertices may be numbered in another order by another team, hence sums are rounded differently
std::string difference(const Out& a, const Out& b) {
  if (a.verts.size() != b.verts.size()) return std::to_string(a.verts.size()) + " vertices instead of " + std::to_string(b.verts.size());
  for (auto& v : a.verts) { double best = 1; for (auto& w : b.verts) best = std::min(best, std::max({std::abs(v[0] - w[0]), std::abs(v[1] - w[1]), std::abs(v[2] - w[2])})); if (best > 1e-10) return "vertex " + str3(v); }
  for (size_t i = 0; i < b.values.size(); ++i) if (!(std::abs(a.values[i] - b.values[i]) < 1e-9)) return "value " + std::to_string(i) + " is " + std::to_string(a.values[i]) + " instead of " + std::to_string(b.values[i]);
  return "";
}
template<bool mesh, class G> void ask(G& g, Out& o, const std::vector<D3>& q, const Zone& z) {
  if constexpr (mesh) o.verts = rows(g.get_mesh_hkl()); else o.verts = rows(g.get_hkl());
  brille::Array<double> d(std::vector<ind_t>{static_cast<ind_t>(o.verts.size()), 1u, 1u}); brille::Array2<double> d2(d); for (ind_t i = 0; i < o.verts.size(); ++i) d2.ptr(i)[0] = 1 + o.verts[i][0] - 2 * o.verts[i][1] + 3 * o.verts[i][2];
  g.replace_value_data(d, std::array<ind_t, 3>{{1, 0, 0}}, brille::RotatesLike::vector, brille::LengthUnit::real_lattice);
  g.replace_vector_data(d, std::array<ind_t, 3>{{1, 0, 0}}, brille::RotatesLike::vector, brille::LengthUnit::real_lattice);
  auto [val, vec] = g.ir_interpolate_at(lvec(z, q), 2); brille::Array2<double> v(val); for (ind_t i = 0; i < q.size(); ++i) o.values.push_back(v.val(i, 0)); (void)vec;
}
Out make(int kind, size_t zi, int size, const std::vector<D3>& q) {
  auto& z = zone(zi); double v = z.bz->get_ir_polyhedron().volume(); Out o;
  if (kind == 0) { brille::BrillouinZoneMesh3<double, double, double> g(*z.bz, 0.9 * v / size, size, 30); ask<true>(g, o, q, z); }
  else if (kind == 1) { brille::BrillouinZoneNest3<double, double, double> g(*z.bz, v / (size * 2), 2); ask<false>(g, o, q, z); }
  else { brille::BrillouinZoneTrellis3<double, double, double> g(*z.bz, v / (2 * size)); ask<false>(g, o, q, z); }
  return o;
}
const size_t Z[] = {0, 24, 12, 22};
constexpr int NZ = 4, NS = 2;
Out known[3][NZ][NS]; std::vector<D3> qs[NZ];
void warm() { for (int i = 0; i < NZ; ++i) { Rng r(77); for (int k = 0; k < 6; ++k) qs[i].push_back({2 * r.uni() - 1, 2 * r.uni() - 1, 2 * r.uni() - 1}); for (int k = 0; k < 3; ++k) for (int s = 0; s < NS; ++s) known[k][i][s] = make(k, Z[i], 1 + s, qs[i]); } }
void body() {
  sim::Quiet quiet; draw_clock(); sim::draw_omp_env(4); sim::set_races(false);
  auto& e = sim::env(); e.cols = static_cast<int>(sim::draw("columns", 200)); e.rows = static_cast<int>(sim::draw("rows", 60)); e.ioctl_fails = sim::coin("no_terminal", 0.3); e.pid = static_cast<int>(1 + sim::draw("pid", 30000));
  std::ostringstream said; auto* old = std::cout.rdbuf(said.rdbuf()); struct Back { std::streambuf* o; ~Back() { std::cout.rdbuf(o); brille::printer.datetime(false); } } back{old};
  brille::printer.datetime(sim::coin("time_stamps", 0.8));
  size_t n = 1 + sim::draw("callers", 2); std::vector<std::array<int, 3>> what(n); std::vector<Out> got(n); std::vector<std::function<void()>> bodies;
  for (auto& w : what) w = {static_cast<int>(sim::draw("kind", 3)), static_cast<int>(sim::draw("zone", NZ)), static_cast<int>(sim::draw("size", NS))};
  for (size_t i = 0; i < n; ++i) bodies.push_back([&, i] { got[i] = make(what[i][0], Z[what[i][1]], 1 + what[i][2], qs[what[i][1]]); });
  { sim::Loud loud; sim::Phase ph("construct"); if (n > 1) sim::run_threads(bodies); else bodies[0](); }
  if (sim::max_team_seen() > 1 || n > 1) sim::nontrivial();
  for (size_t i = 0; i < n; ++i) { auto& k = known[what[i][0]][what[i][1]][what[i][2]]; sim::mix_hash(got[i].values.data(), got[i].values.size() * sizeof(double)); auto d = difference(got[i], k); SIM_CHECK(d.empty(), "depends-on-clock", d + ": grid kind " + std::to_string(what[i][0]) + " of " + zone(Z[what[i][1]]).def->tag + " differs from the one made at another time"); }
  // durations in messages are never negative
  std::string s = said.str(); size_t at = 0; while ((at = s.find("completed in ", at)) != std::string::npos) { at += 13; sim::probe("timed_message"); double ms = std::strtod(s.c_str() + at, nullptr); SIM_CHECK(ms >= 0, "wrong-time", "a message reports a duration of " + s.substr(at, 24)); }
}
sim::Reg a("C01", "construct", body, 1, warm);
#endif
}
