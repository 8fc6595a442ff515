// Lattices of every space group, described in every way, made by several callers at once or short of memory.
#include <cassert>
#include "cryst.hpp"
using namespace fx;
namespace {
using brille::LengthUnit; using brille::AngleUnit;
// atoms on orbits of the space group; some of them on special positions which were rounded
struct Atoms { std::vector<D3> x, given; std::vector<ind_t> type; double moved{0}; bool exact{true}; };
D3 to_cell(D3 p) { for (auto& v : p) v -= std::floor(v); return p; }
bool same_atom(const D3& a, const D3& b, double tol) { for (size_t i = 0; i < 3; ++i) { double d = a[i] - b[i]; d -= std::round(d); if (std::abs(d) > tol) return false; } return true; }
D3 act(const Op& o, const D3& p) { D3 q = mulv(o.r, p); for (size_t i = 0; i < 3; ++i) q[i] += o.t[i] / 12.0; return q; }
Atoms draw_atoms(const Cryst& c, Rng& r) {
  Atoms a; ind_t types = static_cast<ind_t>(r.below(3));
  for (ind_t t = 0; t < types; ++t) {
    D3 p{r.uni(), r.uni(), r.uni()}; static const double special[] = {0, 0.25, 0.5, 0.75, 1.0 / 3, 2.0 / 3, 0.125}; bool all = true; for (auto& v : p) if (r.below(3)) v = special[r.below(7)]; else all = false;
    if (c.ops.size() > 24 && !all) continue;
    std::vector<D3> orbit; for (auto& o : c.ops) { D3 q = to_cell(act(o, p)); bool dup = false; for (auto& x : orbit) if (same_atom(x, q, 1e-9)) dup = true; if (!dup) orbit.push_back(q); }
    if (orbit.size() > 48) continue; bool clash = false; for (size_t i = 0; i < orbit.size(); ++i) for (size_t k = 0; k < i; ++k) if (same_atom(orbit[i], orbit[k], 1e-3)) clash = true;   // almost a special position
    for (auto& q : orbit) for (auto& x : a.x) if (same_atom(x, q, 1e-3)) clash = true; if (clash) continue;
    for (auto& q : orbit) { a.x.push_back(q); a.type.push_back(t); }
  }
  a.given = a.x; if (r.below(3) == 0) { a.exact = false; for (auto& p : a.given) for (auto& v : p) v = std::round(v * 1e6) / 1e6; }
  return a;
}
struct Job { Cryst c; Route w; std::string text; Atoms at; std::unique_ptr<L> made; std::string error; };
brille::Basis basis_of(const Job& j) { return j.at.given.empty() ? brille::Basis() : brille::Basis(j.at.given, j.at.type); }
std::string where(const Job& j) { return std::string(sym_routes[j.w.sym]) + " '" + j.text.substr(0, 60) + "' choice '" + j.c.e->choice + "' of " + j.c.tag() + (j.w.reciprocal ? " given as reciprocal" : " given as real") + (j.w.shape == 0 ? " lengths and angles" : j.w.shape == 1 ? " row vectors" : " column vectors") + (j.w.shape ? "" : " unit " + std::to_string(j.w.unit)); }
D9 transposed_columns(const D9& m) { return tr3(m); }   // stored as columns
void check(const Job& j) {
  auto& c = j.c; auto& l = *j.made; std::string at = where(j); const char* K = "wrong-lattice";
  SIM_CHECK(ops_of(l.spacegroup_symmetry()) == c.ops, "wrong-group", at + ": the space group has " + std::to_string(l.spacegroup_symmetry().size()) + " operations and is not the " + std::to_string(c.ops.size()) + " expected");
  auto P = c.point; std::sort(P.begin(), P.end()); SIM_CHECK(mats_of(l.pointgroup_symmetry()) == P, "wrong-group", at + ": wrong point group");
  SIM_CHECK(l.has_space_inversion() == c.inversion, "wrong-group", at + ": has_space_inversion is wrong");
  double tol = std::max(1e-9, 100 * j.w.step), s = c.len[0] * c.len[0] + c.len[1] * c.len[1] + c.len[2] * c.len[2];
  SIM_CHECK(near9(l.metric(LengthUnit::angstrom), c.metric, s, tol), K, at + ": the real metric differs from the given one");
  SIM_CHECK(near9(l.metric(LengthUnit::inverse_angstrom), c.Gs, c.Gs[0] + c.Gs[4] + c.Gs[8], tol), K, at + ": the reciprocal metric differs from the given one");
  double v = l.volume(LengthUnit::angstrom), vr = l.volume(LengthUnit::inverse_angstrom); SIM_CHECK(std::abs(v / c.V - 1) < 10 * tol && std::abs(vr * c.V / std::pow(2 * M_PI, 3) - 1) < 10 * tol, K, at + ": volumes " + std::to_string(v) + " and " + std::to_string(vr));
  for (int i = 0; i < 3; ++i) {
    size_t k = static_cast<size_t>(i); SIM_CHECK(std::abs(l.length(LengthUnit::angstrom, i) - c.len[k]) < tol * c.len[k], K, at + ": length " + std::to_string(i));
    for (auto [au, f] : {std::make_pair(AngleUnit::degree, 1.0), std::make_pair(AngleUnit::radian, M_PI / 180), std::make_pair(AngleUnit::pi, 1.0 / 180)}) SIM_CHECK(std::abs(l.angle(LengthUnit::angstrom, i, au) - c.ang[k] * f) < 100 * tol * f, K, at + ": angle " + std::to_string(i) + " is " + std::to_string(l.angle(LengthUnit::angstrom, i, au)));
  }
  for (auto lu : {LengthUnit::angstrom, LengthUnit::inverse_angstrom}) {
    auto one = mul3(l.to_xyz(lu), l.from_xyz(lu)); SIM_CHECK(near9(one, D9{1, 0, 0, 0, 1, 0, 0, 0, 1}, 1), K, at + ": to_xyz and from_xyz are not inverse");
    auto g2 = mul3(tr3(l.to_xyz(lu)), l.to_xyz(lu)); SIM_CHECK(near9(g2, l.metric(lu), lu == LengthUnit::angstrom ? s : c.Gs[0] + c.Gs[4] + c.Gs[8]), K, at + ": the metric is not that of the basis vectors");
  }
  auto dual = mul3(tr3(l.vectors(LengthUnit::angstrom)), l.vectors(LengthUnit::inverse_angstrom)); SIM_CHECK(near9(dual, D9{2 * M_PI, 0, 0, 0, 2 * M_PI, 0, 0, 0, 2 * M_PI}, 10), K, at + ": the real and reciprocal vectors are not dual");
  if (j.w.shape) { auto got = tr3(l.vectors(j.w.reciprocal ? LengthUnit::inverse_angstrom : LengthUnit::angstrom)); SIM_CHECK(near9(got, given_vectors(c, j.w), 10, tol), K, at + ": the vectors differ from the given ones"); }
  if (j.w.step > 0) {
    // where the operations take one given axis to another the rounded cell was repaired: they keep its metric
    bool by_real = j.w.shape && !j.w.reciprocal, linked = false; auto unit = [](int x, int y, int z) { return std::abs(x) + std::abs(y) + std::abs(z) == 1 && x + y + z == 1; };
    for (auto& R : c.point) for (size_t k = 0; k < 3; ++k) if (by_real ? unit(R[k], R[3 + k], R[6 + k]) && !R[4 * k] : unit(R[3 * k], R[3 * k + 1], R[3 * k + 2]) && !R[4 * k]) linked = true;
    if (linked) { auto g = l.metric(LengthUnit::angstrom); for (auto& R : c.point) { D9 m; for (size_t k = 0; k < 9; ++k) m[k] = R[k]; SIM_CHECK(near9(mul3(tr3(m), mul3(g, m)), g, s), K, at + ": the rounded cell was not made to obey the operations"); } sim::probe("repaired_cell"); }
    sim::probe("rounded_cell");
  }
  // the primitive lattice: one point per cell, and all of its vectors lattice translations
  auto p = l.primitive(); double np = static_cast<double>(c.h.centring.size()); SIM_CHECK(std::abs(p.volume(LengthUnit::angstrom) * np / c.V - 1) < 10 * tol && std::abs(p.volume(LengthUnit::inverse_angstrom) * c.V / np / std::pow(2 * M_PI, 3) - 1) < 10 * tol, "wrong-primitive", at + ": the primitive cell has volume " + std::to_string(p.volume(LengthUnit::angstrom)));
  auto T = mul3(l.from_xyz(LengthUnit::angstrom), p.vectors(LengthUnit::angstrom)), H = mul3(l.from_xyz(LengthUnit::inverse_angstrom), p.vectors(LengthUnit::inverse_angstrom));
  for (size_t k = 0; k < 3; ++k) {
    bool in = false; for (auto& t : c.h.centring) { bool ok = true; for (size_t i = 0; i < 3; ++i) { double d = T[3 * i + k] - t[i] / 12.0; if (std::abs(d - std::round(d)) > 1e-7) ok = false; } in = in || ok; }
    SIM_CHECK(in, "wrong-primitive", at + ": primitive vector " + str3(D3{T[k], T[3 + k], T[6 + k]}) + " is not a lattice translation");
    D3 g{H[k], H[3 + k], H[6 + k]}; bool integral = true; for (double x : g) if (std::abs(x - std::round(x)) > 1e-7) integral = false; SIM_CHECK(integral && c.allowed(std::lround(g[0]), std::lround(g[1]), std::lround(g[2])), "wrong-primitive", at + ": primitive reciprocal vector " + str3(g) + " is not a reciprocal lattice vector");
  }
  // the atoms: each carried onto another of its type by every operation
  auto b = l.basis(); SIM_CHECK(b.size() == j.at.x.size() && b.types() == j.at.type, "wrong-atoms", at + ": " + std::to_string(b.size()) + " atoms");
  auto pos = b.positions(); for (size_t k = 0; k < pos.size(); ++k) {
    SIM_CHECK(same_atom(pos[k], j.at.x[k], j.at.exact ? 1e-9 : 1e-5), "wrong-atoms", at + ": atom " + str3(j.at.x[k]) + " moved to " + str3(pos[k]));
    for (auto& o : c.ops) { D3 q = act(o, pos[k]); size_t n = 0, is = 0; for (size_t i = 0; i < pos.size(); ++i) if (j.at.type[i] == j.at.type[k] && same_atom(pos[i], q, 1e-8)) { ++n; is = i; } SIM_CHECK(n == 1, "wrong-atoms", at + ": the operation " + op_xyz(o) + " takes atom " + str3(pos[k]) + " to no atom"); auto e = b.equivalent_to(j.at.type[k], q); SIM_CHECK(std::get<0>(e) && std::get<1>(e) == is, "wrong-atoms", at + ": equivalent_to does not find the atom at " + str3(q)); }
  }
  if (pos.size()) sim::probe(j.at.exact ? "with_atoms" : "with_rounded_atoms");
  sim::probe(sym_routes[j.w.sym]);
}
void make(Job& j) { j.made = std::make_unique<L>(build_lattice(j.c, j.w, j.text, basis_of(j))); }
Job draw_job(Rng& r) { Job j; bool plain = sim::coin("round_numbers", 0.4); j.c = make_crystal(draw_setting(), r, plain); j.w = draw_route(r); if (sim::coin("rounded_cell", 0.2)) j.w.step = r.below(2) ? 1e-5 : 1e-7; if (sim::coin("unlisted", 0.3)) { unlisted(j.c, r, plain); static const int to[] = {0, 1, 0, 3, 0, 3}; j.w.sym = to[j.w.sym]; sim::probe("unlisted_setting"); }
  if (sim::coin("primitive_cell", 0.2) && primitive_cell(j.c, r, plain)) { j.w.sym = j.w.sym % 2 ? 1 : 3; sim::probe("primitive_cell"); } if ((j.w.sym == 3 || j.w.sym == 5) && j.c.ops.size() > 48) j.w.sym = 1; j.text = sym_text(j.c, j.w.sym, r); j.at = draw_atoms(j.c, r); return j; }
// rounded positions of an orbit with free coordinates can not be repaired atom by atom, and brille says so
bool may_refuse(const Job& j, const std::string& what) { return !j.at.exact && what.find("snap_to_symmetry failed") != std::string::npos; }
void attempt(Job& j) { try { make(j); } catch (std::exception& x) { j.error = x.what(); if (j.error.empty()) j.error = "?"; } }
void settle(Job& j) { if (j.made) { check(j); return; } if (may_refuse(j, j.error)) { sim::probe("refused_rounded_atoms"); return; } SIM_CHECK(false, "refused", where(j) + ": " + j.error); }
void callers(bool watched) {
  std::vector<std::vector<Job>> jobs;
  { sim::Quiet quiet; Rng r(sim::draw_seed("data")); size_t n = 1 + sim::draw("callers", watched ? 3 : 4); for (size_t i = 0; i < n; ++i) { jobs.emplace_back(); for (size_t k = 0, m = 1 + sim::draw("lattices", watched ? 2 : 4); k < m; ++k) jobs.back().push_back(draw_job(r)); } if (n > 1 && sim::coin("same", 0.3)) { auto& a = jobs[1][0]; auto& b = jobs[0][0]; a.c = b.c; a.w = b.w; a.text = b.text; a.at = b.at; } }
  auto work = [&] { std::vector<std::function<void()>> bodies; for (auto& c : jobs) bodies.push_back([&c] { for (auto& j : c) attempt(j); }); sim::Phase ph("lattices"); sim::run_threads(bodies); };
  if (watched) work(); else { sim::Quiet quiet; work(); }
  sim::Quiet quiet; if (jobs.size() > 1) sim::nontrivial();
  for (auto& c : jobs) for (auto& j : c) { settle(j); sim::mix_hash(j.c.ops.size()); }
}
void watched() { callers(true); }
void many() { callers(false); }
void faulty() {
  sim::Quiet quiet; Rng r(sim::draw_seed("data")); Job j = draw_job(r); uint64_t total;
  { sim::Loud loud; sim::arm_alloc_fault(~0ull >> 1); attempt(j); total = sim::allocs_since_arm(); sim::disarm_alloc_fault(); }
  settle(j); bool fine = j.made != nullptr;
  for (uint64_t k = 0, n = 1 + sim::draw("faults", 4); k < n; ++k) {
    Job f; f.c = j.c; f.w = j.w; f.text = j.text; f.at = j.at; bool fired, threw = false;
    { sim::Loud loud; sim::Phase ph("construct without memory"); sim::arm_alloc_fault(1 + sim::draw("which", total), 1 + sim::draw("how_many", 2)); try { make(f); } catch (std::exception&) { threw = true; } fired = sim::disarm_alloc_fault(); }
    if (fired) { sim::fault_fired("allocation"); sim::nontrivial(); }
    if (!threw && f.made) { if (fine) check(f); } else SIM_CHECK(fired || !fine, "refused", where(f) + ": refused without a fault");
  }
  Job again; again.c = j.c; again.w = j.w; again.text = j.text; again.at = j.at; attempt(again); settle(again); SIM_CHECK((again.made != nullptr) == fine, "refused", where(j) + ": refused after faults");
}
void warm() { for (size_t i = 0; i < 530; ++i) setting(i); Rng r(1); for (int k = 0; k < 6; ++k) { Cryst c = make_crystal(10, r, false); Route w; w.sym = k; w.shape = k % 3; w.unit = 1; w.reciprocal = false; w.turn = rotation(r); auto l = build_lattice(c, w, sym_text(c, k, r)); } }
sim::Reg a("Z01", "watched", watched, 1, warm);
sim::Reg b("Z01", "many", many, 4, warm);
sim::Reg c("Z01", "faulty", faulty, 1, warm);
}
