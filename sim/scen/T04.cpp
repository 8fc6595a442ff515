// Moving points into the first Brillouin zone.
#include "move.hpp"
using namespace fx;
namespace {
const size_t Z[] = {25, 24, 0, 1, 9, 16, 17, 19, 20, 21, 23, 11, 13, 2, 6, 18};
constexpr size_t NZ = sizeof Z / sizeof *Z;
void warm() { for (auto i : Z) { zone(i); hull(i); } }
void body() {
  Zone* z; std::vector<D3> Q; std::unique_ptr<brille::lattice::LVec<double>> x, q; std::unique_ptr<brille::lattice::LVec<int>> tau; int nth; 
  {
    sim::Quiet quiet;
    size_t zi = Z[sim::draw("zone", NZ)]; z = &zone(zi); Rng r(sim::draw_seed("data"));
    Q = draw_qs(*z, hull(zi), r, 40); nth = draw_threads();
    x = std::make_unique<brille::lattice::LVec<double>>(laid(*z, Q)); size_t n0 = sim::coin("presized", 0.5) ? Q.size() : sim::draw("other_size", 5);
    q = std::make_unique<brille::lattice::LVec<double>>(lvec(*z, std::vector<D3>(n0, D3{9, 9, 9}))); tau = std::make_unique<brille::lattice::LVec<int>>(ivec(*z, n0));
  }
  bool ok;
  { sim::Phase ph("moveinto"); ok = z->bz->moveinto(*x, *q, *tau, nth); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1 && Q.size() > 1) sim::nontrivial();
  SIM_CHECK(ok, "refused", "moveinto returned false");
  check_decomposition(*z, Q, *q, *tau, {}, "wrong-reduction");
  for (ind_t i = 0; i < Q.size(); ++i) SIM_CHECK(row3(*x, i) == Q[i], "input-changed", "the input point " + str3(Q[i]) + " was changed");
}
// the parallel (and the serial) change between a centred lattice and its primitive one keeps every vector where it is
template<class T> void change() {
  namespace bl = brille::lattice; using brille::LengthUnit;
  Zone* z; std::vector<D3> X; bool real, par; int nth; std::unique_ptr<bl::LVec<T>> x;
  constexpr bool whole = std::is_integral_v<T>;
  {
    sim::Quiet quiet;
    z = &zone(Z[sim::draw("zone", NZ)]); Rng r(sim::draw_seed("data")); real = !whole && sim::coin("real", 0.5); par = sim::coin("parallel", 0.75); nth = draw_threads();
    size_t n = static_cast<size_t>(sim::draw("npoints", 40)) + 1; for (size_t i = 0; i < n; ++i) X.push_back(whole ? any_lattice(*z, r, 6) : D3{20 * r.uni() - 10, 20 * r.uni() - 10, 20 * r.uni() - 10});
    x = std::make_unique<bl::LVec<T>>(laid<T>(*z, X, real ? LengthUnit::angstrom : LengthUnit::inverse_angstrom));
  }
  auto lat = z->bz->get_lattice();
  using P = decltype(bl::transform_to_primitive(lat, *x)); using F = decltype(bl::transform_from_primitive(lat, std::declval<P>())); std::unique_ptr<P> p; std::unique_ptr<F> f;
  { sim::Phase ph("to primitive"); p = std::make_unique<P>(par ? bl::parallel_transform_to_primitive(lat, *x, nth) : bl::transform_to_primitive(lat, *x)); }
  { sim::Phase ph("from primitive"); f = std::make_unique<F>(par ? bl::parallel_transform_from_primitive(lat, *p, nth) : bl::transform_from_primitive(lat, *p)); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1 && X.size() > 1) sim::nontrivial();
  auto lu = real ? LengthUnit::angstrom : LengthUnit::inverse_angstrom; auto prim = lat.primitive();
  SIM_CHECK(p->size(0) == X.size() && f->size(0) == X.size() && p->type() == lu && f->type() == lu && prim.is_same(p->lattice()) && lat.is_same(f->lattice()), "wrong-lattice", "the changed vectors are in another lattice or of another number");
  auto ms = lat.to_xyz(lu), mp = prim.to_xyz(lu);
  for (ind_t i = 0; i < X.size(); ++i) {
    D3 a{}, b{}, pi = row3(*p, i), fi = row3(*f, i); for (size_t j = 0; j < 3; ++j) for (size_t k = 0; k < 3; ++k) { a[j] += ms[3 * j + k] * X[i][k]; b[j] += mp[3 * j + k] * pi[k]; }
    D3 d = a - b, e = fi - X[i]; double tol = 1e-9 * (1 + std::sqrt(dot3(a, a)));
    SIM_CHECK(std::sqrt(dot3(d, d)) < tol, "wrong-change", std::string(real ? "real" : "reciprocal") + " vector " + str3(X[i]) + " became " + str3(pi) + " of the primitive lattice, which is elsewhere");
    SIM_CHECK(std::sqrt(dot3(e, e)) < 1e-9, "wrong-change", std::string(real ? "real" : "reciprocal") + " vector " + str3(X[i]) + " came back from the primitive lattice as " + str3(fi));
    if (whole) for (size_t j = 0; j < 3; ++j) SIM_CHECK(std::abs(pi[j] - std::round(pi[j])) < 1e-9, "wrong-change", "a lattice vector is no lattice vector of the primitive lattice");
  }
}
sim::Reg a("T04", "moveinto", body, 3, warm);
sim::Reg b("T04", "change_lattice", change<double>, 1);
sim::Reg c("T04", "change_lattice_int", change<int>, 0.5);
}
