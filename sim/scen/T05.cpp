// Moving points into the irreducible zone and into the irreducible wedge.
#include "move.hpp"
using namespace fx;
namespace {
const size_t Z[] = {25, 24, 0, 1, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 23, 26};
constexpr size_t NZ = sizeof Z / sizeof *Z;
void warm() { for (auto i : Z) { zone(i); hull(i); } }
std::string m3(const M3& m) { std::ostringstream o; for (auto x : m) o << x << ' '; return o.str(); }
void operations(const Zone& z, const std::vector<size_t>& idx, std::vector<M3>& out, size_t n, const char* kind) {
  auto ps = z.bz->get_pointgroup_symmetry();
  SIM_CHECK(idx.size() == n, kind, std::to_string(idx.size()) + " operation indexes for " + std::to_string(n) + " points");
  for (auto i : idx) {
    SIM_CHECK(i < ps.size(), kind, "operation index " + std::to_string(i) + " is out of range");
    M3 m; auto r = ps.get(i); for (size_t k = 0; k < 9; ++k) m[k] = r[k];
    SIM_CHECK(std::find(z.group.begin(), z.group.end(), m) != z.group.end(), kind, "operation " + m3(m) + "is not in the point group of " + std::string(z.def->tag));
    out.push_back(m);
  }
}
void ir() {
  Zone* z; const Hull* h; std::vector<D3> Q; std::unique_ptr<brille::lattice::LVec<double>> x, q; std::unique_ptr<brille::lattice::LVec<int>> tau; int nth; std::vector<size_t> R, iR;
  {
    sim::Quiet quiet;
    size_t zi = Z[sim::draw("zone", NZ)]; z = &zone(zi); h = &hull(zi); Rng r(sim::draw_seed("data"));
    Q = draw_qs(*z, *h, r, 24); nth = draw_threads();
    x = std::make_unique<brille::lattice::LVec<double>>(laid(*z, Q));
    q = std::make_unique<brille::lattice::LVec<double>>(lvec(*z, std::vector<D3>(Q.size(), D3{9, 9, 9}))); tau = std::make_unique<brille::lattice::LVec<int>>(ivec(*z, Q.size()));
  }
  bool ok;
  { sim::Phase ph("ir_moveinto"); ok = z->bz->ir_moveinto(*x, *q, *tau, R, iR, nth); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1 && Q.size() > 1) sim::nontrivial();
  SIM_CHECK(ok, "refused", "ir_moveinto returned false");
  std::vector<M3> m, im; operations(*z, R, m, Q.size(), "wrong-operation"); operations(*z, iR, im, Q.size(), "wrong-operation");
  for (size_t i = 0; i < Q.size(); ++i) SIM_CHECK(mul3(m[i], im[i]) == (M3{1, 0, 0, 0, 1, 0, 0, 0, 1}), "wrong-operation", "operation " + m3(m[i]) + "and its reported inverse " + m3(im[i]) + "do not cancel");
  check_decomposition(*z, Q, *q, *tau, m, "wrong-reduction");
  for (ind_t i = 0; i < Q.size(); ++i) { D3 p = row3(*q, i); SIM_CHECK(hull_excess(*h, p) < 1e-8, "not-irreducible", "q " + str3(p) + " of Q " + str3(Q[i]) + " is outside the irreducible zone of " + std::string(z->def->tag)); }
}
void wedge() {
  Zone* z; const Hull* h; std::vector<D3> Q; std::unique_ptr<brille::lattice::LVec<double>> x, q; int nth; std::vector<size_t> R;
  {
    sim::Quiet quiet;
    size_t zi = Z[sim::draw("zone", NZ)]; z = &zone(zi); h = &hull(zi); Rng r(sim::draw_seed("data"));
    Q = draw_qs(*z, *h, r, 40); nth = draw_threads();
    x = std::make_unique<brille::lattice::LVec<double>>(laid(*z, Q));
    q = std::make_unique<brille::lattice::LVec<double>>(lvec(*z, std::vector<D3>(Q.size(), D3{9, 9, 9})));
  }
  bool ok;
  { sim::Phase ph("ir_moveinto_wedge"); ok = z->bz->ir_moveinto_wedge(*x, *q, R, nth); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1 && Q.size() > 1) sim::nontrivial();
  SIM_CHECK(ok, "refused", "ir_moveinto_wedge returned false");
  std::vector<M3> m; operations(*z, R, m, Q.size(), "wrong-operation");
  for (ind_t i = 0; i < Q.size(); ++i) {
    D3 p = row3(*q, i), d = Q[i] - mulv(tr3(m[i]), p); double s = 1 + std::sqrt(dot3(Q[i], Q[i]));
    SIM_CHECK(std::abs(d[0]) + std::abs(d[1]) + std::abs(d[2]) < 1e-9 * s, "wrong-reduction", "Q " + str3(Q[i]) + " is not the operation applied to " + str3(p));
    SIM_CHECK(wedge_excess(*h, p) < 1e-8 * s, "not-irreducible", "q " + str3(p) + " of Q " + str3(Q[i]) + " is outside the irreducible wedge of " + std::string(z->def->tag));
  }
}
sim::Reg a("T05", "ir_moveinto", ir, 1, warm);
sim::Reg b("T05", "ir_moveinto_wedge", wedge, 2);
}
