// parts: 3
// Several callers use one grid for reading at the same time, each with teams of its own.
#include "rot.hpp"
#if PART == 0
#include "bz_trellis.hpp"
#define NAME "trellis"
#elif PART == 1
#include "bz_mesh.hpp"
#define NAME "mesh"
#else
#include "bz_nest.hpp"
#define NAME "nest"
#endif
using namespace fx;
namespace {
using T = double; using R = cplx; using brille::LengthUnit; using brille::RotatesLike;
struct Spec { size_t zone; double vol; int levels; };
// a zone which nobody asked anything yet
std::unique_ptr<brille::BrillouinZone> unused(size_t i) { auto& L = lats()[i]; brille::BrillouinZoneConfig cfg; cfg.time_reversal(L.tr); return std::make_unique<brille::BrillouinZone>(brille::lattice::Direct<double>(L.len, L.ang, L.sg), cfg); }
std::unique_ptr<brille::BrillouinZone> made_of; bool fresh{false};
const brille::BrillouinZone& zone_for(size_t i) { if (!fresh) return *zone(i).bz; made_of = unused(i); return *made_of; }
#if PART == 0
using G = brille::BrillouinZoneTrellis3<T, R, double>;
const Spec specs[] = {{0, 0.3, 0}, {24, 0.2, 0}, {12, 0.3, 0}, {5, 0.3, 0}, {16, 0.3, 0}, {7, 0.4, 0}};
std::unique_ptr<G> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<G>(zone_for(s.zone), s.vol * z.bz->get_ir_polyhedron().volume(), s.levels == 1); }
std::vector<D3> vertices(const G& g) { return rows(g.get_hkl()); }
#elif PART == 1
using G = brille::BrillouinZoneMesh3<T, R, double>;
const Spec specs[] = {{0, 0.3, 1}, {24, 0.2, 2}, {12, 0.3, 1}, {5, 0.3, 2}, {16, 0.3, 1}, {7, 0.4, 1}};
std::unique_ptr<G> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<G>(zone_for(s.zone), s.vol * z.bz->get_ir_polyhedron().volume(), s.levels, 100); }
std::vector<D3> vertices(const G& g) { return rows(g.get_mesh_hkl()); }
#else
using G = brille::BrillouinZoneNest3<T, R, double>;
const Spec specs[] = {{0, 0.3, 3}, {24, 0.2, 3}, {12, 0.3, 4}, {5, 0.3, 3}, {16, 0.3, 3}, {7, 0.4, 3}};
std::unique_ptr<G> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<G>(zone_for(s.zone), s.vol * z.bz->get_ir_polyhedron().volume(), static_cast<ind_t>(s.levels)); }
std::vector<D3> vertices(const G& g) { return rows(g.get_all_hkl()); }
#endif
constexpr size_t NS = sizeof specs / sizeof *specs;
GridFix<G> fixes[NS]; std::unique_ptr<G> untouched[NS]; std::unique_ptr<brille::BrillouinZone> unasked[NS];
// everything else which can be asked about a grid and a zone
struct Told { std::vector<double> x; template<class A> void arr(const A& a) { x.push_back(a.size(0)); for (ind_t i = 0; i < a.size(0); ++i) for (ind_t k = 0; k < a.size(1); ++k) x.push_back(static_cast<double>(a.val(i, k))); } template<class L> void lists(const L& l) { for (auto& a : l) for (auto k : a) x.push_back(static_cast<double>(k)); } void poly(const brille::BrillouinZone::poly_t& p) { arr(p.vertices().hkl()); lists(p.faces().faces()); x.push_back(p.volume()); arr(p.centroid().xyz()); } };
std::string first_difference(const std::vector<double>& a, const std::vector<double>& b) { for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) if (a[i] != b[i]) { std::ostringstream o; o << std::setprecision(17) << "item " << i << " of " << a.size() << " is " << a[i] << " instead of " << b[i]; return o.str(); } return std::to_string(a.size()) + " items instead of " + std::to_string(b.size()); }
std::vector<double> tell(const G& g, const brille::BrillouinZone& b) {
  Told t; t.poly(b.get_polyhedron()); t.poly(b.get_ir_polyhedron()); t.poly(b.get_ir_polyhedron(false)); t.arr(b.get_ir_wedge_normals().hkl()); t.arr(b.get_primitive_ir_wedge_normals().hkl()); t.arr(b.get_vertices().xyz()); t.arr(b.get_points().hkl()); t.arr(b.get_normals().hkl()); t.arr(b.get_half_edges().hkl());
  t.arr(b.get_ir_vertices().xyz()); t.arr(b.get_ir_points().hkl()); t.arr(b.get_ir_normals().hkl()); t.lists(b.get_faces_per_vertex()); t.lists(b.get_ir_vertices_per_face()); t.arr(b.get_primitive_vertices().hkl()); t.arr(b.get_ir_primitive_normals().hkl());
  auto ps = b.get_pointgroup_symmetry(); for (size_t i = 0; i < ps.size(); ++i) { t.lists(std::vector<std::array<int, 9>>{ps.get(i)}); t.x.push_back(static_cast<double>(ps.order(i))); t.x.push_back(static_cast<double>(ps.get_inverse_index(i))); }
  auto l = b.get_lattice(); t.lists(std::vector<std::array<double, 9>>{l.vectors(LengthUnit::angstrom), l.vectors(LengthUnit::inverse_angstrom), l.metric(LengthUnit::angstrom), l.to_xyz(LengthUnit::inverse_angstrom)}); t.x.push_back(static_cast<double>(l.spacegroup_symmetry().size())); t.x.push_back(static_cast<double>(l.pointgroup_symmetry().size()));
  for (char c : b.to_string()) t.x.push_back(c);
  for (auto& v : vertices(g)) for (double c : v) t.x.push_back(c);
#if PART == 0
  t.x.push_back(g.total_node_volume()); t.lists(g.vertices_per_tetrahedron()); for (auto k : g.all_node_types()) t.x.push_back(static_cast<double>(k));
#elif PART == 1
  t.arr(g.get_mesh_tetrehedra()); t.x.push_back(static_cast<double>(g.size()));
#else
  t.lists(g.tetrahedra()); t.arr(g.vertices());
#endif
  return t.x;
}
void warm() { for (size_t i = 0; i < NS; ++i) { auto& f = fixes[i]; f.zi = specs[i].zone; f.grid = build(specs[i]); f.verts = vertices(*f.grid); hull(f.zi); fresh = true; untouched[i] = build(specs[i]); fresh = false; unasked[i] = unused(f.zi); } for (size_t b : {25, 0, 24, 6}) { zone(b); hull(b); } }
using Res = std::tuple<brille::Array<T>, brille::Array<R>>;
struct Job {
  uint64_t op; int nth; std::vector<D3> p; std::unique_ptr<brille::lattice::LVec<double>> x, q; std::unique_ptr<brille::lattice::LVec<int>> tau; std::vector<size_t> Rx, iR; std::vector<bool> in; std::vector<double> told; Res res; std::unique_ptr<G> copy; bool ok{true};
};
void run(const G& g, const brille::BrillouinZone& b, Job& j) {
  switch (j.op) {
    case 0: j.res = g.template ir_interpolate_at<true>(*j.x, j.nth); break;
    case 1: j.res = g.template ir_interpolate_at<true>(*j.x); break;
    case 2: j.res = g.template ir_interpolate_at<false>(*j.x, j.nth); break;
    case 3: j.ok = b.moveinto(*j.x, *j.q, *j.tau, j.nth); break;
    case 4: j.ok = b.ir_moveinto(*j.x, *j.q, *j.tau, j.Rx, j.iR, j.nth); break;
    case 5: j.in = b.isinside(*j.x); break;
    case 7: j.told = tell(g, b); break;
    case 8: j.in = b.isinside_wedge(*j.x, j.nth > 2); break;
    default: j.copy = std::make_unique<G>(g); j.res = j.copy->template ir_interpolate_at<true>(*j.x, j.nth);
  }
}
void shared() {
  LinearData<T, R> d; Rule rv{Rule::real_vector}; G* g; Zone* z; const Hull* h; const brille::BrillouinZone* b; std::vector<std::vector<Job>> jobs;
  {
    sim::Quiet quiet;
    auto& f = fixes[sim::draw("grid", NS)]; z = &zone(f.zi); h = &hull(f.zi); g = f.grid.get(); b = z->bz.get(); if (sim::coin("unused_before", 0.6)) { size_t i = static_cast<size_t>(&f - fixes); g = untouched[i].get(); b = unasked[i].get(); } Rng r(sim::draw_seed("data"));
    d.install(*g, f.verts, r);
    size_t nc = static_cast<size_t>(2 + sim::draw("callers", 3));
    for (size_t c = 0; c < nc; ++c) {
      jobs.emplace_back(); size_t nj = static_cast<size_t>(1 + sim::draw("calls", 2));
      for (size_t k = 0; k < nj; ++k) {
        Job j; j.op = sim::draw("operation", 9); static const int t[] = {1, 2, 3, 4}; j.nth = t[sim::draw("threads", 4)];
        size_t n = static_cast<size_t>(sim::draw("npoints", 7)); bool anywhere = (j.op >= 2 && j.op <= 5) || j.op == 8;
        for (size_t i = 0; i < n; ++i) j.p.push_back(anywhere ? any_q(*z, *h, r, r.below(8)) : hull_point(z->irv, r, static_cast<int>(r.below(4))));
        j.x = std::make_unique<brille::lattice::LVec<double>>(laid(*z, j.p)); j.q = std::make_unique<brille::lattice::LVec<double>>(lvec(*z, std::vector<D3>(n, D3{9, 9, 9}))); j.tau = std::make_unique<brille::lattice::LVec<int>>(ivec(*z, n));
        jobs.back().push_back(std::move(j));
      }
    }
  }
  std::vector<std::function<void()>> bodies;
  for (auto& c : jobs) bodies.push_back([&c, g, b] { for (auto& j : c) run(*g, *b, j); });
  { sim::Phase ph("callers"); sim::run_threads(bodies); }
  sim::Quiet quiet; sim::nontrivial();
  for (auto& c : jobs) for (auto& j : c) {
    SIM_CHECK(j.ok, "refused", "a move failed");
    if (j.op == 7) { auto& f = fixes[std::find_if(fixes, fixes + NS, [&](auto& k) { return &zone(k.zi) == z; }) - fixes]; auto want = tell(*f.grid, *z->bz); SIM_CHECK(j.told == want, "wrong-description", "what a grid of " + std::string(z->def->tag) + " tells about itself differs: " + first_difference(j.told, want)); }
    else if (j.op == 8) { auto want = z->bz->isinside_wedge(*j.x, j.nth > 2); SIM_CHECK(j.in == want, "wrong-answer", "containment in the wedge"); }
    else if (j.op <= 1 || j.op > 5) d.check(j.res, j.p, "wrong-interpolation");
    else if (j.op == 2) {
      if (j.p.empty()) continue;
      brille::Array2<T> v2(std::get<0>(j.res)); brille::Array2<R> w2(std::get<1>(j.res));
      for (ind_t i = 0; i < j.p.size(); ++i) { double best = 1e300; for (auto& rp : representatives(*z, *h, j.p[i])) best = std::min(best, std::max(row_distance(d.val, rv, rp, v2.ptr(i)), row_distance(d.vec, rv, rp, w2.ptr(i)))); SIM_CHECK(best < 1e-6, "wrong-rotation", "Q " + str3(j.p[i]) + " differs by " + std::to_string(best)); }
    } else if (j.op == 3) check_decomposition(*z, j.p, *j.q, *j.tau, {}, "wrong-move");
    else if (j.op == 4) { std::vector<M3> m; auto ps = z->bz->get_pointgroup_symmetry(); for (auto i : j.Rx) { M3 o; auto a = ps.get(i); for (size_t k = 0; k < 9; ++k) o[k] = a[k]; m.push_back(o); } check_decomposition(*z, j.p, *j.q, *j.tau, m, "wrong-move"); }
    else { SIM_CHECK(j.in.size() == j.p.size(), "wrong-answer", "wrong number of answers"); for (size_t i = 0; i < j.p.size(); ++i) { double e = z->bz_excess(j.p[i]); if (std::abs(e) > 1e-7) SIM_CHECK(j.in[i] == (e < 0), "wrong-answer", "containment of " + str3(j.p[i])); } }
  }
}
// separate objects built at the same time
const Spec bs[] = {{25, 0.7, 1}, {0, 0.7, 1}, {24, 0.7, 1}, {6, 0.7, 1}};
std::vector<D3> built_alone[4];
void warm2() { for (size_t i = 0; i < 4; ++i) built_alone[i] = vertices(*build(bs[i])); }
void separate() {
  size_t nc = static_cast<size_t>(2 + sim::draw("callers", 2)); std::vector<size_t> which; std::vector<std::unique_ptr<G>> made(nc); std::vector<std::function<void()>> bodies; uint64_t seed = sim::draw_seed("data");
  for (size_t c = 0; c < nc; ++c) which.push_back(sim::draw("build", 4));
  for (size_t c = 0; c < nc; ++c) bodies.push_back([&, c] { made[c] = build(bs[which[c]]); });
  { sim::Phase ph("construct"); sim::run_threads(bodies); }
  sim::Quiet quiet; sim::nontrivial();
  for (size_t c = 0; c < nc; ++c) {
    Zone& z = zone(bs[which[c]].zone); Rng r(seed); LinearData<T, R> d; auto v = vertices(*made[c]); auto diff = same_points(v, built_alone[which[c]]); SIM_CHECK(diff.empty(), "wrong-grid", std::string("the vertices of a grid of ") + z.def->tag + " built while others are built differ from one built alone: " + diff); d.install(*made[c], v, r);
    std::vector<D3> p; for (int i = 0; i < 12; ++i) p.push_back(hull_point(z.irv, r, i % 4));
    auto x = lvec(z, p); d.check(made[c]->template ir_interpolate_at<true>(x), p, "wrong-interpolation");
  }
}
sim::Reg a("T10", NAME "_shared", shared, 3, warm);
sim::Reg b("T10", NAME "_separate", separate, 0.4, warm2);
}
