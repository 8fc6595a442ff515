// Asking which of many points are inside the first zone and the irreducible wedge.
#include "move.hpp"
#include "transform.hpp"
using namespace fx;
namespace {
const size_t Z[] = {25, 24, 0, 1, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 16, 17, 18, 19, 22, 23};
constexpr size_t NZ = sizeof Z / sizeof *Z;
struct W { std::vector<D3> n; };
W wn[64];
void warm() { for (auto i : Z) { auto& z = zone(i); hull(i); wn[i].n = rows(z.bz->get_ir_wedge_normals().hkl()); } }
void body() {
  Zone* z; const Hull* h; std::vector<D3> Q; std::unique_ptr<brille::lattice::LVec<double>> x; bool pos, prim; size_t zi; uint64_t what;
  {
    sim::Quiet quiet;
    zi = Z[sim::draw("zone", NZ)]; z = &zone(zi); h = &hull(zi); Rng r(sim::draw_seed("data"));
    Q = draw_qs(*z, *h, r, 150); pos = sim::coin("positive_only", 0.4); prim = sim::coin("primitive", 0.3); what = sim::draw("what", 4);
    x = std::make_unique<brille::lattice::LVec<double>>(laid(*z, Q));
    if (prim) *x = brille::lattice::transform_to_primitive(z->bz->get_lattice(), *x);
  }
  std::vector<bool> in, first;
  if (what != 1) { sim::Phase ph("isinside_wedge"); in = z->bz->isinside_wedge(*x, pos); }
  if (what <= 1) { sim::Phase ph("isinside"); first = z->bz->isinside(*x); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1 && Q.size() > 1 && !wn[zi].n.empty()) sim::nontrivial();
  if (what != 1) {
    SIM_CHECK(in.size() == Q.size(), "wrong-answer", std::to_string(in.size()) + " wedge answers for " + std::to_string(Q.size()) + " points");
    std::vector<double> dots;
    for (size_t i = 0; i < Q.size(); ++i) {
      bool ge = true, le = true, close = false; D3 g = mulv(z->Gs, Q[i]);
      for (auto& n : wn[zi].n) { double d = dot3(n, g); if (std::abs(d) < 1e-7 * (1 + std::sqrt(dot3(g, g)))) close = true; if (d < 0) ge = false; if (d > 0) le = false; }
      if (close) continue;
      sim::probe(ge ? "inside_positive" : le ? "inside_negative" : "outside");
      // both halves count unless only the positive one was asked for or the crystal's irreducible zone is not mirrored
      if (ge) SIM_CHECK(in[i], "wrong-answer", str3(Q[i]) + " is inside the wedge of " + z->def->tag + " but reported outside");
      else if (!le || pos) SIM_CHECK(!in[i], "wrong-answer", str3(Q[i]) + " is outside the wedge of " + z->def->tag + " but reported inside");
      else if (hull_excess(*h, {1e-3 * Q[i][0], 1e-3 * Q[i][1], 1e-3 * Q[i][2]}) > 1e-9) SIM_CHECK(!in[i], "wrong-answer", str3(Q[i]) + " is not in the irreducible wedge of " + z->def->tag + " but reported inside");
    }
  }
  if (what <= 1) {
    SIM_CHECK(first.size() == Q.size(), "wrong-answer", std::to_string(first.size()) + " answers for " + std::to_string(Q.size()) + " points");
    for (size_t i = 0; i < Q.size(); ++i) { double e = z->bz_excess(Q[i]); if (std::abs(e) < 1e-7) continue; SIM_CHECK(first[i] == (e < 0), "wrong-answer", str3(Q[i]) + " is " + (e < 0 ? "inside" : "outside") + " the first zone of " + z->def->tag + " but the answer says otherwise"); }
  }
}
sim::Reg a("T08", "inside", body, 1, warm);
}
