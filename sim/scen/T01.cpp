// Parallel interpolation on the hybrid trellis.
#include "grid.hpp"
#include "bz_trellis.hpp"
using namespace fx;
namespace {
template<class T, class R> using Tr = brille::BrillouinZoneTrellis3<T, R, double>;
struct Spec { size_t zone; double vol; bool tet; };
const Spec specs[] = {{0, 0.02, false}, {24, 0.05, false}, {11, 0.004, false}, {25, 0.1, false}, {16, 0.01, true}, {3, 0.02, false}, {23, 0.03, false}, {18, 0.02, true}};
constexpr size_t NS = sizeof specs / sizeof *specs;
template<class T, class R> GridFix<Tr<T, R>>* fixes() { static GridFix<Tr<T, R>> f[NS]; return f; }
template<class T, class R> void warm() {
  for (size_t i = 0; i < NS; ++i) { auto& f = fixes<T, R>()[i]; f.zi = specs[i].zone; f.grid = std::make_unique<Tr<T, R>>(*zone(f.zi).bz, specs[i].vol * zone(f.zi).bz->get_polyhedron().volume(), specs[i].tet); f.verts = rows(f.grid->get_hkl()); }
}
template<class T, class R> void body() {
  LinearData<T, R> d; Query q; std::unique_ptr<brille::lattice::LVec<double>> x; Tr<T, R>* g; int nth; uint64_t how;
  {
    sim::Quiet quiet;
    auto& f = fixes<T, R>()[sim::draw("grid", NS)]; Zone& z = zone(f.zi); g = f.grid.get();
    Rng r(sim::draw_seed("data"));
    d.install(*g, f.verts, r);
    q = draw_points(z, f.verts, r, 40);
    x = std::make_unique<brille::lattice::LVec<double>>(laid(z, q.pts));
    nth = draw_threads(); how = sim::draw("call", 5);
  }
  sim::Phase ph("interpolate");
  std::tuple<brille::Array<T>, brille::Array<R>> res;
  if (how <= 2) res = g->template interpolate_at<true>(*x, nth);
  else if (how == 3) res = g->template ir_interpolate_at<true>(*x, nth);
  else res = g->template interpolate_at<true>(*x);
  sim::Quiet quiet;
  if (sim::regions() && sim::max_team_seen() > 1 && q.pts.size() > 1) sim::nontrivial();
  d.check(res, q.pts, "wrong-interpolation");
}
sim::Reg a("T01", "trellis_real_complex", body<double, cplx>, 2, warm<double, cplx>);
sim::Reg b("T01", "trellis_real_real", body<double, double>, 1, warm<double, double>);
sim::Reg c("T01", "trellis_complex_complex", body<cplx, cplx>, 1, warm<cplx, cplx>);
}
