// parts: 2
// Combining the vertices which the threads of a team found for their shares of the nodes.
#include "grid.hpp"
#include "vertex_map_knit.h"
using namespace fx;
namespace {
#if PART == 0
#define NAME "arrays"
using V = brille::bArray<double>;
using Set = brille::VertexMapSet<double, brille::bArray>;
V make(const std::vector<D3>& p) { V a(static_cast<ind_t>(p.size()), 3u); for (ind_t i = 0; i < p.size(); ++i) for (ind_t j = 0; j < 3; ++j) a.val(i, j) = p[i][j]; return a; }
std::vector<D3> where(const V& v) { std::vector<D3> o; for (ind_t i = 0; i < v.size(0); ++i) o.push_back({v.val(i, 0), v.val(i, 1), v.val(i, 2)}); return o; }
#else
#define NAME "vectors"
using V = brille::lattice::LVec<double>;
using Set = brille::VertexMapSet<double, brille::lattice::LVec>;
V make(const std::vector<D3>& p) { return lvec(zone(24), p); }
std::vector<D3> where(const V& v) { return rows(v.hkl()); }
#endif
using Index = brille::VertexIndexMap; using Pair = std::pair<Set, Index>; using At = std::pair<brille::MapVertexType, ind_t>;
enum How : uint8_t { preserved, found, crafted, origin };
struct Use { How how; D3 p; ind_t knot; };
using Nodes = std::vector<std::vector<Use>>;
void warm() { zone(24); }
void body() {
  sim::Quiet quiet; sim::draw_omp_env();
  Rng r(sim::draw_seed("data")); auto& cfg = brille::approx_float::config; double tol = cfg.reciprocal<double>(); int dig = cfg.digit();
  // knots and other points, all well apart: places of a lattice finer than any tolerance
  uint64_t nk = 8 + sim::draw("knots", 40), nx = sim::draw("extra", 25), nn = 1 + sim::draw("nodes", 30), np = 1 + sim::draw("shares", 9); bool gamma = sim::coin("origin_is_a_knot", 0.5);
  std::vector<D3> knots, extra; std::set<std::array<int, 3>> used; used.insert({0, 0, 0});
  auto place = [&] { std::array<int, 3> c; do { for (auto& x : c) x = static_cast<int>(r.below(15)) - 7; } while (!used.insert(c).second); return D3{c[0] / 15.0, c[1] / 15.0, c[2] / 15.0}; };
  for (uint64_t i = 0; i < nk; ++i) knots.push_back(gamma && i == nk / 2 ? D3{0, 0, 0} : place());
  for (uint64_t i = 0; i < nx; ++i) extra.push_back(place());
  double noise = sim::coin("rounding", 0.5) ? 3e-16 : 0;
  Nodes nodes(nn); std::vector<size_t> owner(nn);
  for (size_t n = 0; n < nn; ++n) {
    owner[n] = r.below(np); size_t k = r.below(13); std::vector<ind_t> kn; std::vector<size_t> ex;
    for (size_t i = 0; i < k; ++i) {
      if (!extra.empty() && r.below(2)) { size_t e = r.below(extra.size()); if (std::find(ex.begin(), ex.end(), e) != ex.end()) continue; ex.push_back(e); D3 p = extra[e]; for (auto& x : p) x += noise * (2 * r.uni() - 1); nodes[n].push_back({r.below(4) ? crafted : found, p, 0}); }
      else { ind_t q = static_cast<ind_t>(r.below(nk)); if (std::find(kn.begin(), kn.end(), q) != kn.end()) continue; kn.push_back(q); nodes[n].push_back({r.below(4) ? preserved : found, knots[q], q}); }
    }
    if (r.below(8) == 0) nodes[n].push_back({origin, {0, 0, 0}, 0});
  }
  size_t any = 0; for (auto& n : nodes) for (auto& u : n) if (u.how == preserved) ++any;
  if (!any) nodes[0].push_back({preserved, knots[0], 0});
  auto shared = make(knots);
  std::vector<Pair> shares; for (size_t p = 0; p < np; ++p) shares.emplace_back(Set(shared, tol, dig), Index());
  auto fill = [&](size_t p) {
    for (size_t n = 0; n < nn; ++n) if (owner[n] == p) {
      auto& set = shares[p].first; auto& map = shares[p].second; map.get(static_cast<ind_t>(n)).clear();
      for (auto& u : nodes[n]) { At a; switch (u.how) { case preserved: a = set.preserve(u.knot); break; case found: a = set.add(make({u.p})); break; case crafted: a = set.add(make({u.p}), brille::AddVertexType::Crafted); break; default: a = set.origin_index(); } map.append(static_cast<ind_t>(n), a); }
    }
  };
  std::vector<std::function<void()>> bodies; bool apart = sim::coin("by_threads", 0.5);
  { sim::Loud loud; sim::Phase ph("collect"); if (apart) { for (size_t p = 0; p < np && p < 6; ++p) bodies.push_back([&, p] { for (size_t q = p; q < np; q += 6) fill(q); }); sim::run_threads(bodies); } else for (size_t p = 0; p < np; ++p) fill(p); }
  bool parallel = sim::draw("serially", 4) != 3; std::string what = std::to_string(np) + (parallel ? " shares combined in parallel" : " shares combined serially");
  Pair whole; { sim::Loud loud; sim::Phase ph("combine"); whole = parallel ? brille::vertex_maps::parallel_reduce(shares) : brille::vertex_maps::reduce(shares); }
  if (np > 3 && sim::max_team_seen() > 1) sim::nontrivial();
  // the boundary's corners are added at the end
  std::vector<std::pair<D3, At>> corners; for (uint64_t i = 0, n = sim::draw("corners", 8); i < n; ++i) { D3 p = r.below(3) == 0 ? place() : r.below(2) || extra.empty() ? knots[r.below(nk)] : extra[r.below(extra.size())]; At a; { sim::Loud loud; a = whole.first.add(make({p})); } corners.emplace_back(p, a); }
  auto kept = whole.first.preserved_count(); std::vector<D3> pts; { sim::Loud loud; sim::Phase ph("consolidate"); pts = where(whole.first.consolidate().pristine()); }
  auto near = [](const D3& a, const D3& b) { D3 d = a - b; return dot3(d, d) < 1e-20; };
  for (size_t i = 0; i < pts.size(); ++i) for (size_t j = 0; j < i; ++j) SIM_CHECK(!near(pts[i], pts[j]), "repeated-vertex", what + " have two vertices at " + str3(pts[i]));
  std::vector<char> seen(pts.size(), 0);
  SIM_CHECK(whole.second.size() <= nn, "wrong-node", what + " know more nodes than there were");
  for (size_t n = 0; n < nn; ++n) {
    if (nodes[n].empty() && !whole.second.has(static_cast<ind_t>(n))) continue;
    SIM_CHECK(whole.second.has(static_cast<ind_t>(n)), "lost-node", what + " lost node " + std::to_string(n)); std::vector<ind_t> at; { sim::Loud loud; at = whole.second.decode(kept, static_cast<ind_t>(n)); }
    SIM_CHECK(at.size() == nodes[n].size(), "wrong-node", what + ": node " + std::to_string(n) + " has " + std::to_string(at.size()) + " vertices of " + std::to_string(nodes[n].size()));
    for (size_t i = 0; i < at.size(); ++i) { SIM_CHECK(at[i] < pts.size(), "wrong-vertex", what + ": index beyond the vertices"); seen[at[i]] = 1; SIM_CHECK(near(pts[at[i]], nodes[n][i].p), "wrong-vertex", what + ": vertex " + std::to_string(i) + " of node " + std::to_string(n) + " is " + str3(pts[at[i]]) + " instead of " + str3(nodes[n][i].p)); }
  }
  for (auto& c : corners) { auto i = c.second.first == brille::MapVertexType::Pristine ? c.second.second : kept + c.second.second; SIM_CHECK(i < pts.size() && near(pts[i], c.first), "wrong-vertex", what + ": a corner added afterwards is not at " + str3(c.first)); seen[i] = 1; }
  for (size_t i = 0; i < pts.size(); ++i) SIM_CHECK(seen[i], "unused-vertex", what + " keep " + str3(pts[i]) + " which nobody uses");
  if (!extra.empty()) sim::probe("with_extra_vertices"); if (np > 1 && parallel) sim::probe("parallel_reductions");
}
sim::Reg a("T12", NAME, body, 1, warm);
}
