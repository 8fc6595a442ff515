// parts: 2
// Parallel interpolation on the tetrahedral mesh (part 0) and on the nested tetrahedra (part 1).
#include "grid.hpp"
#include "bz_mesh.hpp"
#include "bz_nest.hpp"
using namespace fx;
namespace {
struct Spec { size_t zone; double vol; int levels; };
const Spec specs[] = {{0, 0.05, 1}, {24, 0.2, 2}, {11, 0.02, 2}, {25, 0.3, 1}, {16, 0.05, 1}, {3, 0.05, 2}, {23, 0.2, 3}, {18, 0.08, 5}};
constexpr size_t NS = sizeof specs / sizeof *specs;
#if PART == 0
template<class T, class R> using Gr = brille::BrillouinZoneMesh3<T, R, double>;
template<class T, class R> std::unique_ptr<Gr<T, R>> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<Gr<T, R>>(*z.bz, s.vol * z.bz->get_ir_polyhedron().volume(), s.levels, 200); }
template<class G> std::vector<D3> vertices(const G& g) { return rows(g.get_mesh_hkl()); }
#define NAME "mesh"
#else
template<class T, class R> using Gr = brille::BrillouinZoneNest3<T, R, double>;
template<class T, class R> std::unique_ptr<Gr<T, R>> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<Gr<T, R>>(*z.bz, s.vol * z.bz->get_ir_polyhedron().volume(), static_cast<ind_t>(2 + s.levels)); }
template<class G> std::vector<D3> vertices(const G& g) { return rows(g.get_all_hkl()); }
#define NAME "nest"
#endif
template<class T, class R> GridFix<Gr<T, R>>* fixes() { static GridFix<Gr<T, R>> f[NS]; return f; }
template<class T, class R> void warm() {
  for (size_t i = 0; i < NS; ++i) { auto& f = fixes<T, R>()[i]; f.zi = specs[i].zone; f.grid = build<T, R>(specs[i]); f.verts = vertices(*f.grid); }
}
template<class T, class R> void body() {
  LinearData<T, R> d; Query q; std::unique_ptr<brille::lattice::LVec<double>> x; Gr<T, R>* g; int nth; uint64_t how; brille::Array2<double> xyz;
  {
    sim::Quiet quiet;
    auto& f = fixes<T, R>()[sim::draw("grid", NS)]; Zone& z = zone(f.zi); g = f.grid.get();
    Rng r(sim::draw_seed("data"));
    d.install(*g, f.verts, r);
    q = draw_points(z, f.verts, r, 30);
    x = std::make_unique<brille::lattice::LVec<double>>(laid(z, q.pts));
    xyz = x->xyz();
    nth = draw_threads(); how = sim::draw("call", 6);
  }
  sim::Phase ph("interpolate");
  std::tuple<brille::Array<T>, brille::Array<R>> res;
  if (how <= 2) res = g->template ir_interpolate_at<true>(*x, nth);
  else if (how <= 3) res = g->interpolate_at(xyz, nth);
  else if (how == 4) res = g->interpolate_at(xyz);
  else res = g->template ir_interpolate_at<true>(*x);
  sim::Quiet quiet;
  if (sim::regions() && sim::max_team_seen() > 1 && q.pts.size() > 1) sim::nontrivial();
  d.check(res, q.pts, "wrong-interpolation");
}
sim::Reg a("T02", NAME "_real_complex", body<double, cplx>, 2, warm<double, cplx>);
sim::Reg b("T02", NAME "_real_real", body<double, double>, 1, warm<double, double>);
sim::Reg c("T02", NAME "_complex_complex", body<cplx, cplx>, 1, warm<cplx, cplx>);
}
