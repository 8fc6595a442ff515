// Parallel construction of the trellis: complete cover of the irreducible zone, every vertex once, whatever the team.
#include "anyzone.hpp"
#include "bz_trellis.hpp"
#include <omp.h>
using namespace fx;
namespace {
using Tr = brille::BrillouinZoneTrellis3<double, double, double>;
struct Spec { size_t zone; double vol; bool tet; };
// vol: fraction of the irreducible zone's volume
const Spec specs[] = {{25, 0.5, false}, {24, 0.3, false}, {0, 0.6, false}, {1, 0.5, true}, {3, 0.3, false}, {6, 0.3, false}, {8, 0.5, true}, {11, 0.5, false}, {12, 0.2, false}, {16, 0.5, false}, {17, 0.3, false}, {18, 0.1, true}, {18, 0.05, false}, {20, 0.5, false}, {23, 0.3, false}, {9, 0.5, false}};
constexpr size_t NS = sizeof specs / sizeof *specs;
struct Ref { std::vector<D3> verts; size_t tets, cubes, polys; };
Ref ref[NS];
Tr make(const Spec& s) { auto& z = zone(s.zone); return Tr(*z.bz, s.vol * z.bz->get_ir_polyhedron().volume(), s.tet); }
double irvol[64];
struct Seen { std::vector<D3> verts; size_t tets, cubes, polys; };
Seen inspect(const Spec& s, Tr& t) {
  Zone& z = zone(s.zone); const Hull& h = hull(s.zone); Seen o{rows(t.get_hkl()), 0, 0, 0};
  std::string tag = z.def->tag;
  for (size_t i = 0; i < o.verts.size(); ++i) {
    auto& p = o.verts[i];
    SIM_CHECK(hull_excess(h, p) < 1e-7, "bad-grid", "vertex " + str3(p) + " lies outside the irreducible zone of " + tag);
    for (size_t j = 0; j < i; ++j) { D3 d = p - o.verts[j]; SIM_CHECK(dot3(d, d) > 1e-16, "bad-grid", "vertices " + std::to_string(j) + " and " + std::to_string(i) + " of " + tag + " are the same point " + str3(p)); }
  }
  for (auto& p : z.irv) { bool found = false; for (auto& v : o.verts) { D3 d = p - v; if (dot3(d, d) < 1e-14) found = true; } SIM_CHECK(found, "bad-grid", "the corner " + str3(p) + " of the irreducible zone is not a vertex"); }
  auto cell = [&](const std::vector<ind_t>& v, size_t n) { std::set<ind_t> u(v.begin(), v.end()); SIM_CHECK(u.size() == n, "bad-grid", "a cell uses one vertex twice"); for (auto x : v) SIM_CHECK(x < o.verts.size(), "bad-grid", "a cell uses vertex " + std::to_string(x) + " of " + std::to_string(o.verts.size())); };
  double V = 0; std::vector<char> used(o.verts.size(), 0);
  for (auto& q : t.vertices_per_tetrahedron()) { ++o.tets; cell({q.begin(), q.end()}, 4); for (auto x : q) used[x] = 1; double v = tet_volume(cart(z, o.verts[q[0]]), cart(z, o.verts[q[1]]), cart(z, o.verts[q[2]]), cart(z, o.verts[q[3]])); V += v; }
  auto types = t.all_node_types();
  SIM_CHECK(types.size() == t.node_count(), "bad-grid", std::to_string(types.size()) + " cells instead of " + std::to_string(t.node_count()));
  for (ind_t i = 0; i < types.size(); ++i) {
    if (types[i] == brille::NodeType::cube) {
      ++o.cubes; auto v = t.cube_node(i).vertices(); cell(v, 8); for (auto x : v) used[x] = 1;
      // (000) (100) (110) (010) (101) (001) (011) (111)
      D3 a = cart(z, o.verts[v[0]]), x = cart(z, o.verts[v[1]]) - a, y = cart(z, o.verts[v[3]]) - a, w = cart(z, o.verts[v[5]]) - a, e = cart(z, o.verts[v[7]]) - a - (x + (y + w));
      SIM_CHECK(dot3(e, e) < 1e-14, "bad-grid", "the vertices of a cubic cell of " + tag + " do not form a box");
      V += std::abs(dot3(x, cross3(y, w)));
    } else if (types[i] == brille::NodeType::poly) ++o.polys;
  }
  SIM_CHECK(std::abs(V - irvol[s.zone]) < 1e-6 * irvol[s.zone], "bad-grid", "the cells of " + tag + " fill " + std::to_string(V) + " of " + std::to_string(irvol[s.zone]));
  double tv = t.total_node_volume();
  SIM_CHECK(std::abs(tv - irvol[s.zone]) < 1e-6 * irvol[s.zone], "bad-grid", "the reported total volume of " + tag + " is " + std::to_string(tv) + " instead of " + std::to_string(irvol[s.zone]));
  return o;
}
void warm() {
  for (size_t i = 0; i < NS; ++i) { auto& s = specs[i]; irvol[s.zone] = hull_volume(zone(s.zone), hull(s.zone)); auto t = make(s); ref[i].verts = rows(t.get_hkl()); ref[i].tets = t.vertices_per_tetrahedron().size(); ref[i].cubes = ref[i].polys = 0; for (auto x : t.all_node_types()) { ref[i].cubes += x == brille::NodeType::cube; ref[i].polys += x == brille::NodeType::poly; } }
}
void body() {
  size_t k = sim::draw("grid", NS); auto& s = specs[k];
  std::unique_ptr<Tr> t;
  { sim::Phase ph("construct"); t = std::make_unique<Tr>(make(s)); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1) sim::nontrivial();
  auto o = inspect(s, *t);
  // the same grid as the one built by a single thread
  SIM_CHECK(o.verts.size() == ref[k].verts.size(), "depends-on-team", std::to_string(o.verts.size()) + " vertices, a single thread makes " + std::to_string(ref[k].verts.size()));
  for (auto& p : ref[k].verts) { bool f = false; for (auto& v : o.verts) { D3 d = p - v; if (dot3(d, d) < 1e-16) f = true; } SIM_CHECK(f, "depends-on-team", "vertex " + str3(p) + " of the grid built by a single thread is missing"); }
  SIM_CHECK(o.cubes == ref[k].cubes && o.polys == ref[k].polys, "depends-on-team", "the kinds of cells differ from the grid built by a single thread");
  sim::mix_hash(o.verts.size());
  // and it interpolates
  Rng r(sim::draw_seed("data")); Zone& z = zone(s.zone);
  Field<double> val(shape_of(2, 2, 2), r, false, 1.0), vec(shape_of(2, 2, 2), r, true, 0.2);
  auto av = val.fill(o.verts, r), aw = vec.fill(o.verts, r);
  t->replace_value_data(av, val.sh.el, brille::RotatesLike::vector, brille::LengthUnit::real_lattice); t->replace_vector_data(aw, vec.sh.el, brille::RotatesLike::vector, brille::LengthUnit::real_lattice);
  std::vector<D3> pts; for (int i = 0; i < 12; ++i) pts.push_back(hull_point(z.irv, r, static_cast<int>(r.below(4))));
  auto res = t->interpolate_at<true>(lvec(z, pts));
  brille::Array2<double> v2(std::get<0>(res)), w2(std::get<1>(res));
  for (ind_t i = 0; i < pts.size(); ++i) { auto e = val.compare(v2, i, pts[i], 1e-7); if (e.empty()) e = vec.compare(w2, i, pts[i], 1e-7); SIM_CHECK(e.empty(), "bad-grid", e); }
}
// many more grids (kinds, sizes), built by teams which only switch at barriers and locks, so without the cost of watching every access
std::string z_tag(const Spec& s) { return zone(s.zone).def->tag; }
void wide_on(bool any) {
  Spec s{any ? ANY : sim::draw("zone", lats().size()), std::exp(std::log(any ? 0.05 : 0.006) * sim::Rng(sim::draw_seed("volume")).uni()), sim::coin("triangulate", 0.25)};
  sim::Quiet quiet; if (any) { Rng r(sim::draw_seed("crystal")); any_zone(r); irvol[ANY] = 0; }
  if (irvol[s.zone] == 0) irvol[s.zone] = hull_volume(zone(s.zone), hull(s.zone));
  std::unique_ptr<Tr> t;
  { sim::Phase ph("construct"); t = std::make_unique<Tr>(make(s)); }
  if (sim::max_team_seen() > 1) sim::nontrivial();
  auto o = inspect(s, *t);
  sim::mix_hash(o.verts.size()); sim::mix_hash(o.tets);
  if (sim::max_team_seen() > 1 && sim::coin("compare", 0.4)) { // with the same grid built by one thread
    omp_set_num_threads(1); auto a = make(s); sim::probe("compared"); auto v = rows(a.get_hkl()); std::string tag = z_tag(s);
    auto missing = same_points(o.verts, v); SIM_CHECK(missing.empty(), "depends-on-team", "the grid of " + tag + " has other vertices than the one built by a single thread: " + missing);
    size_t cubes = 0, polys = 0; for (auto x : a.all_node_types()) { cubes += x == brille::NodeType::cube; polys += x == brille::NodeType::poly; }
    SIM_CHECK(o.cubes == cubes && o.polys == polys, "depends-on-team", "the kinds of cells of " + tag + " differ from the grid built by a single thread");
    SIM_CHECK(o.tets == a.vertices_per_tetrahedron().size(), "depends-on-team", "the number of tetrahedra of " + tag + " differs from the grid built by a single thread");
  }
}
void wide() { wide_on(false); }
void any_crystal() { wide_on(true); }
void warm2() { for (size_t i = 0; i < lats().size(); ++i) irvol[i] = hull_volume(zone(i), hull(i)); }
sim::Reg a("T06", "trellis_construction", body, 1, warm);
sim::Reg b("T06", "trellis_wide", wide, 1, warm2);
sim::Reg c("T06", "trellis_any_crystal", any_crystal, 1);
}
