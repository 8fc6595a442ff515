// The zones of random crystals: the first zone is the Wigner-Seitz cell and the images of the irreducible zone tile it.
#include <cassert>
#include "cryst.hpp"
using namespace fx;
namespace {
using brille::LengthUnit;
struct Conf { bool tr, prim, wedge, divide; int extent; };
struct Job { Cryst c; Route w; std::string text; Conf f; std::unique_ptr<brille::BrillouinZone> z; std::string error; std::vector<M3> group; std::vector<D3> Q; int nth; uint64_t seed; };
Conf draw_conf() { Conf f; f.tr = sim::coin("time_reversal", 0.3); f.prim = !sim::coin("conventional", 0.2); f.wedge = !sim::coin("no_wedge", 0.08); f.divide = !sim::coin("divide_conventional", 0.2); f.extent = 1 + static_cast<int>(sim::draw("extent", 6) == 5); return f; }
std::string where(const Job& j) { return j.c.tag() + (j.f.tr ? " with time reversal" : "") + (j.f.prim ? "" : " conventional") + (j.f.wedge ? "" : " no wedge") + (j.f.divide ? "" : " divided conventional") + (j.f.extent > 1 ? " extent 2" : "") + " as " + sym_routes[j.w.sym]; }
Job draw_job(Rng& r, size_t most_points) {
  Job j; bool plain = sim::coin("round_numbers", 0.5); j.c = make_crystal(draw_setting(), r, plain); j.w = draw_route(r); if (sim::coin("unlisted", 0.15)) { unlisted(j.c, r, plain); j.w.sym %= 2; sim::probe("unlisted_setting"); } if ((j.w.sym == 3 || j.w.sym == 5) && j.c.ops.size() > 24) j.w.sym = 0; j.text = sym_text(j.c, j.w.sym, r); j.f = draw_conf();
  j.group = j.c.point; if (j.f.tr && !j.c.inversion) for (auto& m : j.c.point) { M3 n = m; for (auto& x : n) x = -x; j.group.push_back(n); } std::sort(j.group.begin(), j.group.end());
  size_t n = static_cast<size_t>(sim::draw("points", most_points + 1)); for (size_t i = 0; i < n; ++i) { D3 q; double s = r.below(4) ? 1.5 : 12; for (auto& x : q) x = r.below(4) ? s * (2 * r.uni() - 1) : (static_cast<double>(r.below(25)) - 12) / 4; j.Q.push_back(q); }
  static const int t[] = {1, 2, 3, 4, 7}; j.nth = t[sim::draw("threads", 5)]; j.seed = r.next(); return j;
}
void build(Job& j) {
  brille::BrillouinZoneConfig f; f.time_reversal(j.f.tr); f.primitive(j.f.prim); f.wedge_search(j.f.wedge); f.divide_primitive(j.f.divide); f.divide_extent(j.f.extent);
  j.z.reset(); j.z = std::make_unique<brille::BrillouinZone>(build_lattice(j.c, j.w, j.text), f);
}
// no (irreducible) zone is found for a few crystals, which is reported; the same space group with another lattice has to work
bool honest(const std::string& e) { return e.find("Failed to find an irreducible Brillouin zone") != std::string::npos || e.find("failed to produce a non-null first Brillouin zone") != std::string::npos || e.find("Duplicate intersection point") != std::string::npos; }
void attempt(Job& j) {
  Rng r(j.seed);
  for (int k = 0; k < 5; ++k) {
    try { build(j); j.error.clear(); return; } catch (std::exception& x) { j.error = x.what(); if (!honest(j.error)) return; }
    crystal_metric(j.c, symmetric_metric(j.c.point, r));
  }
}
struct Planes { std::vector<D3> n; std::vector<double> d; std::vector<D3> v; };   // cartesian, unit outward normals
double excess(const Planes& p, const D3& x) { double w = -1e300; for (size_t i = 0; i < p.n.size(); ++i) w = std::max(w, dot3(p.n[i], x) - p.d[i]); return w; }
// the planes of a polyhedron from its corners and faces; every corner behind every face, every face an outward polygon, the fan volume right
Planes planes_of(const Job& j, const std::vector<D3>& hkl, const std::vector<std::vector<ind_t>>& faces, double& V, const char* what) {
  Planes o; for (auto& p : hkl) o.v.push_back(j.c.xyz(p)); std::string at = where(j) + ": the " + what + " zone"; double size = 0; for (auto& p : o.v) size = std::max(size, std::sqrt(dot3(p, p)));
  SIM_CHECK(o.v.size() >= 4 && faces.size() >= 4, "bad-zone", at + " has " + std::to_string(o.v.size()) + " corners and " + std::to_string(faces.size()) + " faces");
  V = 0; std::vector<int> used(o.v.size(), 0); size_t edges = 0;
  for (auto& f : faces) {
    SIM_CHECK(f.size() >= 3, "bad-zone", at + " has a face of " + std::to_string(f.size()) + " corners"); for (auto i : f) { SIM_CHECK(i < o.v.size(), "bad-zone", at + " has a face with corner " + std::to_string(i)); ++used[i]; } edges += f.size();
    D3 n{0, 0, 0}, c{0, 0, 0}; for (size_t k = 0; k < f.size(); ++k) { n = n + cross3(o.v[f[k]] - o.v[f[0]], o.v[f[(k + 1) % f.size()]] - o.v[f[0]]); c = c + (1.0 / double(f.size())) * o.v[f[k]]; }
    double l = std::sqrt(dot3(n, n)); SIM_CHECK(l > 1e-12 * size * size, "bad-zone", at + " has a face without area"); n = (1 / l) * n; double d = dot3(n, c);
    for (auto i : f) SIM_CHECK(std::abs(dot3(n, o.v[i]) - d) < 1e-7 * size, "bad-zone", at + " has a face which is not plane");
    for (auto& p : o.v) SIM_CHECK(dot3(n, p) - d < 1e-7 * size, "bad-zone", at + " is not convex or has a face turned inwards");
    for (size_t k = 1; k + 1 < f.size(); ++k) V += dot3(o.v[f[0]], cross3(o.v[f[k]], o.v[f[k + 1]])) / 6;
    o.n.push_back(n); o.d.push_back(d);
  }
  // hulls and cuts may leave a corner within an edge of the irreducible zone, in one or both of the faces beside it: it is no corner
  size_t corners = 0; for (size_t i = 0; i < used.size(); ++i) if (used[i] >= 3) ++corners; else {
    SIM_CHECK(used[i] > 0 && what[0] != 'f', "bad-zone", at + " has a corner of " + std::to_string(used[i]) + " faces");
    for (auto& f : faces) for (size_t k = 0; k < f.size(); ++k) if (f[k] == i) { auto a = o.v[i] - o.v[f[(k + f.size() - 1) % f.size()]], b = o.v[f[(k + 1) % f.size()]] - o.v[i]; auto x = cross3(a, b); SIM_CHECK(std::sqrt(dot3(x, x)) < 1e-7 * size * size && dot3(a, b) > 0, "bad-zone", at + " has a corner of " + std::to_string(used[i]) + " faces which is not within an edge"); --edges; }
  }
  SIM_CHECK(corners + faces.size() == edges / 2 + 2 && edges % 2 == 0, "bad-zone", at + " has " + std::to_string(corners) + " corners, " + std::to_string(faces.size()) + " faces and " + std::to_string(edges) + " half edges");
  return o;
}
void check(Job& j) {
  auto& b = *j.z; std::string at = where(j); auto& c = j.c;
  SIM_CHECK(mats_of(b.get_pointgroup_symmetry()) == j.group, "wrong-group", at + ": the zone uses " + std::to_string(b.get_pointgroup_symmetry().size()) + " operations instead of " + std::to_string(j.group.size()));
  double cell = std::pow(2 * M_PI, 3) / c.V * (j.f.prim ? static_cast<double>(c.h.centring.size()) : 1), order = static_cast<double>(j.group.size());
  auto lat = [&](const D3& g) { for (double x : g) if (std::abs(x - std::round(x)) > 1e-6) return false; return !j.f.prim || c.allowed(std::lround(g[0]), std::lround(g[1]), std::lround(g[2])); };
  // the first zone
  double V; auto first = planes_of(j, rows(b.get_vertices().hkl()), b.get_vertices_per_face(), V, "first");
  SIM_CHECK(std::abs(V / cell - 1) < 1e-6 && std::abs(b.get_polyhedron().volume() / cell - 1) < 1e-6, "wrong-volume", at + ": the first zone has volume " + std::to_string(V) + ", reported " + std::to_string(b.get_polyhedron().volume()) + ", instead of " + std::to_string(cell));
  auto corners = rows(b.get_vertices().hkl()); double scale = std::cbrt(cell);
  for (long h = -3; h <= 3; ++h) for (long k = -3; k <= 3; ++k) for (long l = -3; l <= 3; ++l) { D3 g{double(h), double(k), double(l)}; if (!(h || k || l) || !lat(g)) continue; D3 G = c.xyz(g); for (size_t i = 0; i < first.v.size(); ++i) SIM_CHECK(dot3(G, first.v[i]) - dot3(G, G) / 2 < 1e-7 * dot3(G, G), "not-nearest", at + ": the corner " + str3(corners[i]) + " of the first zone is closer to " + str3(g) + " than to the origin"); }
  auto pts = rows(b.get_points().hkl()), nrm = rows(b.get_normals().hkl());
  SIM_CHECK(pts.size() == first.n.size() && nrm.size() == first.n.size(), "bad-zone", at + ": numbers of points and normals of faces");
  for (size_t f = 0; f < pts.size(); ++f) { D3 p = c.xyz(pts[f]), n = c.xyz(nrm[f]); double l = std::sqrt(dot3(n, n)); SIM_CHECK(std::abs(dot3(first.n[f], p) - first.d[f]) < 1e-6 * scale, "bad-zone", at + ": the point of face " + std::to_string(f) + " is not on it"); SIM_CHECK(std::abs(dot3(n, first.n[f]) / l - 1) < 1e-6, "bad-zone", at + ": the normal of face " + std::to_string(f) + " is wrong"); }
  for (size_t f = 0; f < first.n.size(); ++f) { double d = 2 * first.d[f]; D3 G = d * first.n[f]; D3 g = mulv(inv3(tr3(c.B)), G); SIM_CHECK(lat(g), "not-nearest", at + ": face " + std::to_string(f) + " of the first zone does not bisect a reciprocal lattice vector but " + str3(g)); }
  // the irreducible zone
  double U; auto ip = b.get_ir_polyhedron(false); auto ir = planes_of(j, rows(ip.vertices().hkl()), ip.faces().faces(), U, "irreducible");
  double images = j.f.wedge ? order : 1; double R = b.get_ir_polyhedron().volume(); bool mirrored = std::abs(2 * U * images / cell - 1) < 1e-6 && images > 1;
  SIM_CHECK(mirrored || std::abs(U * images / cell - 1) < 1e-6, "wrong-volume", at + ": the irreducible zone has volume " + std::to_string(U) + " of " + std::to_string(cell) + " for " + std::to_string(j.group.size()) + " operations");
  SIM_CHECK(std::abs(R * images / cell - 1) < 1e-6, "wrong-volume", at + ": the irreducible zone reports a volume of " + std::to_string(R) + " of " + std::to_string(cell) + " for " + std::to_string(j.group.size()) + " operations");
  if (mirrored) sim::probe("mirrored");
  for (auto& p : ir.v) SIM_CHECK(excess(first, p) < 1e-7 * scale, "bad-zone", at + ": a corner of the irreducible zone is outside of the first zone");
  auto inside = [&](const D3& x) { double e = excess(ir, x); if (mirrored) e = std::min(e, excess(ir, -1.0 * x)); return e; };
  // every point of the first zone has one image in the irreducible one
  Rng r(j.seed); auto Binv = inv3(tr3(c.B)); std::vector<D3> some;
  for (int i = 0; i < 40; ++i) {
    D3 q = mulv(Binv, hull_point(first.v, r, i % 4 == 1 ? 0 : i % 4)); D3 x = c.xyz(q); double e = excess(first, x); if (i % 4 == 3 && e > 0) continue; some.push_back(q);
    if (!j.f.wedge) continue;
    size_t in = 0, on = 0; for (auto& m : j.group) { double k = inside(c.xyz(mulv(tr3(m), q))); if (k < -1e-7 * scale) ++in; else if (k < 1e-7 * scale) ++on; }
    SIM_CHECK(in <= 1 && in + on >= 1, "not-tiling", at + ": " + std::to_string(in) + " images of " + str3(q) + " are inside of the irreducible zone" + (on ? " and others on its boundary" : ""));
  }
  // asked about points
  auto vec = [&](const std::vector<D3>& p) { brille::lattice::LVec<double> q(LengthUnit::inverse_angstrom, b.get_lattice(), static_cast<ind_t>(p.size())); for (ind_t i = 0; i < p.size(); ++i) for (ind_t k = 0; k < 3; ++k) q.val(i, k) = p[i][k]; return q; };
  for (auto& q : j.Q) some.push_back(q);
  { auto in = b.isinside(vec(some)); SIM_CHECK(in.size() == some.size(), "wrong-answer", at + ": number of answers"); for (size_t i = 0; i < some.size(); ++i) { double e = excess(first, c.xyz(some[i])); if (std::abs(e) > 1e-6 * scale) SIM_CHECK(in[i] == (e < 0), "wrong-answer", at + ": isinside says " + std::to_string(in[i]) + " for " + str3(some[i])); } }
  if (j.f.wedge) { auto in = b.isinside_wedge(vec(some)); SIM_CHECK(in.size() == some.size(), "wrong-answer", at + ": number of answers"); for (size_t i = 0; i < some.size(); ++i) { D3 x = c.xyz(some[i]); if (excess(first, x) > 0) continue; double e = inside(x); if (std::abs(e) > 1e-6 * scale) SIM_CHECK(in[i] == (e < 0), "wrong-answer", at + ": isinside_wedge says " + std::to_string(in[i]) + " for " + str3(some[i])); } }
  if (j.Q.empty()) return;
  auto X = vec(j.Q), q = vec(j.Q); brille::lattice::LVec<int> tau(LengthUnit::inverse_angstrom, b.get_lattice(), static_cast<ind_t>(j.Q.size())); std::vector<size_t> Ri, iR; auto ps = b.get_pointgroup_symmetry();
  for (int which = 0; which < (j.f.wedge ? 2 : 1); ++which) {
    bool ok; { sim::Phase ph("move"); ok = which ? b.ir_moveinto(X, q, tau, Ri, iR, j.nth) : b.moveinto(X, q, tau, j.nth); }
    SIM_CHECK(ok, "refused", at + ": a move failed");
    for (ind_t i = 0; i < j.Q.size(); ++i) {
      M3 m{1, 0, 0, 0, 1, 0, 0, 0, 1}; if (which) { auto a = ps.get(Ri[i]); for (size_t k = 0; k < 9; ++k) m[k] = a[k]; }
      D3 p = row3(q, i), t = row3(tau, i), d = j.Q[i] - (mulv(tr3(m), p) + t); double tol = 1e-9 * (1 + std::sqrt(dot3(j.Q[i], j.Q[i])));
      SIM_CHECK(std::abs(d[0]) < tol && std::abs(d[1]) < tol && std::abs(d[2]) < tol, "wrong-move", at + ": Q " + str3(j.Q[i]) + " is not the rotated q " + str3(p) + " plus " + str3(t));
      SIM_CHECK(lat(t), "wrong-move", at + ": tau " + str3(t) + " is not a reciprocal lattice vector");
      SIM_CHECK(excess(first, c.xyz(p)) < 1e-7 * scale, "wrong-move", at + ": q " + str3(p) + " of Q " + str3(j.Q[i]) + " is outside of the first zone");
      if (which) SIM_CHECK(inside(c.xyz(p)) < 1e-7 * scale, "wrong-move", at + ": q " + str3(p) + " of Q " + str3(j.Q[i]) + " is outside of the irreducible zone");
    }
    sim::probe(which ? "ir_moves" : "moves");
  }
  if (!j.f.wedge) return;
  { // the wedge: the planes of the irreducible zone through the origin
    Planes w; for (size_t f = 0; f < ir.n.size(); ++f) if (std::abs(ir.d[f]) < 1e-7 * scale) { w.n.push_back(ir.n[f]); w.d.push_back(0); }
    bool ok; { sim::Phase ph("move into the wedge"); ok = b.ir_moveinto_wedge(X, q, Ri, j.nth); } SIM_CHECK(ok && Ri.size() == j.Q.size() && q.size(0) == j.Q.size(), "refused", at + ": moving into the wedge failed");
    for (ind_t i = 0; i < j.Q.size(); ++i) {
      SIM_CHECK(Ri[i] < ps.size(), "wrong-move", at + ": operation " + std::to_string(Ri[i]) + " of " + std::to_string(ps.size())); M3 m; auto a = ps.get(Ri[i]); for (size_t k = 0; k < 9; ++k) m[k] = a[k];
      D3 p = row3(q, i), d = j.Q[i] - mulv(tr3(m), p); double s = 1 + std::sqrt(dot3(j.Q[i], j.Q[i])); SIM_CHECK(std::sqrt(dot3(d, d)) < 1e-9 * s, "wrong-move", at + ": Q " + str3(j.Q[i]) + " is not the rotated q " + str3(p) + " of the wedge");
      D3 x = c.xyz(p); double e = w.n.empty() ? 0 : excess(w, x); if (mirrored) e = std::min(e, excess(w, -1.0 * x)); SIM_CHECK(e < 1e-7 * scale * s, "wrong-move", at + ": q " + str3(p) + " of Q " + str3(j.Q[i]) + " is outside of the irreducible wedge");
    }
    sim::probe("wedge_moves");
  }
}
void settle(Job& j) { SIM_CHECK(j.error.empty(), "refused", where(j) + ": " + j.error); check(j); sim::mix_hash(j.z->vertices_count()); }
void zones(bool watched) {
  std::vector<Job> jobs; { sim::Quiet quiet; Rng r(sim::draw_seed("data")); size_t n = 1 + sim::draw("callers", 3); for (size_t i = 0; i < n; ++i) jobs.push_back(draw_job(r, 8)); if (n > 1 && sim::coin("same", 0.3)) { auto& a = jobs[1]; auto& b = jobs[0]; a.c = b.c; a.w = b.w; a.text = b.text; a.f = b.f; a.group = b.group; } }
  auto work = [&] { std::vector<std::function<void()>> bodies; for (auto& j : jobs) bodies.push_back([&j] { attempt(j); }); sim::Phase ph("zones"); sim::run_threads(bodies); };
  if (watched) work(); else { sim::Quiet quiet; work(); }
  sim::Quiet quiet; if (jobs.size() > 1 || sim::max_team_seen() > 1) sim::nontrivial();
  for (auto& j : jobs) settle(j);
}
void watched() { zones(true); }
void many() { zones(false); }
void faulty() {
  sim::Quiet quiet; Rng r(sim::draw_seed("data")); Job j = draw_job(r, 3); attempt(j); settle(j); uint64_t total;
  { sim::arm_alloc_fault(~0ull >> 1); build(j); total = sim::allocs_since_arm(); sim::disarm_alloc_fault(); }
  for (uint64_t k = 0, n = 1 + sim::draw("faults", 4); k < n; ++k) {
    bool fired, threw = false; { sim::Phase ph("construct without memory"); sim::arm_alloc_fault(1 + sim::draw("which", total), 1 + sim::draw("how_many", 2)); try { build(j); } catch (std::exception&) { threw = true; } fired = sim::disarm_alloc_fault(); }
    if (fired) { sim::fault_fired("allocation"); sim::nontrivial(); }
    if (threw) SIM_CHECK(fired, "refused", where(j) + ": refused without a fault"); else check(j);
  }
  build(j); settle(j);
}
void warm() { for (size_t i = 0; i < 530; ++i) setting(i); zone(0); zone(24); }
sim::Reg a("Z02", "watched", watched, 0.5, warm);
sim::Reg b("Z02", "many", many, 5, warm);
sim::Reg c("Z02", "faulty", faulty, 1, warm);
}
