// What brille tells about groups: their class, orders, axes, generators, inverses and names, asked for by several callers at once or short of memory.
#include <cassert>
#include "cryst.hpp"
#include "spg_database.hpp"
#include "pointgroup.hpp"
using namespace fx;
namespace {
using brille::PointSymmetry; using brille::Symmetry; using Mo = brille::Motion<int, double>;
const char* class_names[] = {"1", "-1", "2", "m", "2/m", "222", "mm2", "mmm", "4", "-4", "4/m", "422", "4mm", "-42m", "4/mmm", "3", "-3", "32", "3m", "-3m", "6", "-6", "6/m", "622", "6mm", "-6m2", "6/mmm", "23", "m-3", "432", "-43m", "m-3m"};
const char* class_schoenflies[] = {"C1", "Ci", "C2", "Cs", "C2h", "D2", "C2v", "D2h", "C4", "S4", "C4h", "D4", "C4v", "D2d", "D4h", "C3", "C3i", "D3", "C3v", "D3d", "C6", "C3h", "C6h", "D6", "C6v", "D3h", "D6h", "T", "Th", "O", "Td", "Oh"};
const int class_first[] = {1, 2, 3, 6, 10, 16, 25, 47, 75, 81, 83, 89, 99, 111, 123, 143, 147, 149, 156, 162, 168, 174, 175, 177, 183, 187, 191, 195, 200, 207, 215, 221, 231};
int class_of(int number) { int k = 0; while (class_first[k + 1] <= number) ++k; return k; }
const M3 one{1, 0, 0, 0, 1, 0, 0, 0, 1};
int det(const M3& m) { return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); }
M3 neg(M3 m) { for (auto& x : m) x = -x; return m; }
int proper_order(M3 m) { if (det(m) < 0) m = neg(m); M3 p = m; int n = 1; while (p != one && n < 9) { p = mul3(p, m); ++n; } return n; }
int motion_order(const Op& o) { Op p = o; int n = 1; const Op e{one, {0, 0, 0}}; while (!(p == e) && n < 99) { p = op_mul(p, o); ++n; } return n; }
std::vector<M3> points_closed(const std::vector<M3>& gens) { std::vector<M3> all{one}; for (size_t k = 0; k < all.size() && all.size() < 97; ++k) for (auto& g : gens) { auto p = mul3(all[k], g); if (std::find(all.begin(), all.end(), p) == all.end()) all.push_back(p); } std::sort(all.begin(), all.end()); return all; }
std::vector<Op> ops_closed(const std::vector<Op>& gens, size_t most) { std::vector<Op> all{{one, {0, 0, 0}}}; for (size_t k = 0; k < all.size() && all.size() <= most; ++k) for (auto& g : gens) { auto p = op_mul(all[k], g); if (std::find(all.begin(), all.end(), p) == all.end()) all.push_back(p); } std::sort(all.begin(), all.end()); return all; }
template<class G> void shuffle(std::vector<G>& v, Rng& r) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); }
std::array<int, 3> on(const M3& m, const std::array<int, 3>& v) { return mulv(m, v); }
M3 m3(const brille::Matrix<int>& a) { M3 m; for (size_t k = 0; k < 9; ++k) m[k] = a[k]; return m; }
brille::Matrix<int> bm(const M3& a) { brille::Matrix<int> m; for (size_t k = 0; k < 9; ++k) m[k] = a[k]; return m; }
Mo motion(const Op& o) { brille::Vector<double> w; for (size_t i = 0; i < 3; ++i) w[i] = o.t[i] / 12.0; return Mo(bm(o.r), w); }
std::vector<M3> in_order(const PointSymmetry& P) { std::vector<M3> o; for (auto& x : P.getall()) o.push_back(m3(x)); return o; }
std::vector<M3> sorted(std::vector<M3> v) { std::sort(v.begin(), v.end()); return v; }
struct Job {
  Cryst c; bool heavy; std::vector<M3> P; std::vector<Op> S; size_t pick, pick2; int min_order; std::vector<size_t> perm; std::vector<int> from, to; Op stranger;
  std::unique_ptr<PointSymmetry> ps; std::unique_ptr<Symmetry> sp;   // shared by callers
};
// what was answered
struct Answers {
  std::vector<int> orders, isos; std::vector<std::array<int, 3>> axes, perp; std::vector<M3> gens, generated, inverted, nfolds, higher, permuted, links_mv, links_vm, by_tr; M3 inv, proper; size_t inv_index, identity, found, missing; bool has, has_not, inversion, mv, vm;
  int cls; std::string symbol, schoenflies;
  std::vector<int> s_orders; std::vector<Op> s_gens, s_generated, s_inverted; bool s_inversion, s_equal, s_differs, s_has, s_has_not; size_t s_found; brille::Bravais centring; Op s_inverse; std::vector<std::string> ascii; std::vector<Op> reread;
  int number, table_class, by_symbol, by_full, by_number; std::vector<Op> table_ops; std::string table_symbol, choice; brille::Bravais table_centring;
};
Op op_of(const Mo& m) { Op o; auto W = m.getr(); auto w = m.gett(); for (size_t k = 0; k < 9; ++k) o.r[k] = W[k]; for (size_t k = 0; k < 3; ++k) { double x = w[k] * 12, y = std::round(x); o.t[k] = std::abs(x - y) < 1e-6 ? mod12(static_cast<int>(y)) : -99; } return o; }
Answers ask(const Job& j) {
  Answers a; const PointSymmetry& p = *j.ps; const Symmetry& s = *j.sp;
  a.orders = p.orders(); a.isos = p.isometries(); for (auto& x : p.axes()) a.axes.push_back({x[0], x[1], x[2]}); for (auto& x : p.perpendicular_axes()) a.perp.push_back({x[0], x[1], x[2]});
  a.gens = in_order(p.generators()); a.generated = mats_of(PointSymmetry(p.generators()).generate()); a.inverted = mats_of(p.add_space_inversion()); a.nfolds = in_order(p.nfolds(j.min_order)); a.higher = mats_of(p.higher(j.min_order));
  { PointSymmetry q(p); q.permute(j.perm); a.permuted = in_order(q); }
  std::array<int, 3> f{j.from[0], j.from[1], j.from[2]}, t{j.to[0], j.to[1], j.to[2]}; for (auto& x : p.mat_vec_linking_operations(f, t)) a.links_mv.push_back(m3(x)); for (auto& x : p.vec_mat_linking_operations(f, t)) a.links_vm.push_back(m3(x)); a.mv = p.mat_vec_links(f, t); a.vm = p.vec_mat_links(f, t);
  a.inv = m3(p.get_inverse(j.pick)); a.inv_index = p.get_inverse_index(j.pick); a.proper = m3(p.get_proper(j.pick)); a.identity = p.find_identity_index(); a.found = p.find_index(p.get(j.pick)); a.missing = p.find_index(bm(j.stranger.r)); a.has = p.has(p.get(j.pick)); a.has_not = p.has(bm(j.stranger.r)); a.inversion = p.has_space_inversion();
  auto pg = brille::get_pointgroup(p); a.cls = pg.get_number(); a.symbol = pg.get_symbol(); a.schoenflies = pg.get_schoenflies();
  std::vector<std::array<int, 9>> raw; for (auto& o : j.S) { std::array<int, 9> x; for (size_t k = 0; k < 9; ++k) x[k] = o.r[k]; raw.push_back(x); } for (auto& x : brille::get_unique_rotations(raw, 1)) a.by_tr.push_back(m3(x));
  a.s_orders = s.orders(); a.s_inversion = s.has_space_inversion(); { Symmetry q; for (size_t k = s.size(); k-- > 0;) q.add(s.getm(k)); a.s_equal = s == q; q.pop(j.pick2); q.add(motion(j.stranger)); a.s_differs = s != q; } a.s_has = s.has(s.getm(j.pick2)); a.s_has_not = s.has(motion(j.stranger)); a.s_found = s.find_matrix_index(bm(j.S[j.pick2].r)); a.centring = s.getcentring(); a.s_inverse = op_of(s.getm(j.pick2).inverse());
  if (j.heavy) { auto g = s.generators(); for (auto& m : g.getallm()) a.s_gens.push_back(op_of(m)); a.s_generated = ops_of(g.generate()); a.s_inverted = ops_of(s.add_space_inversion()); }
  for (size_t k = 0; k < 4 && k < j.S.size(); ++k) { auto m = s.getm((j.pick2 + k) % j.S.size()); a.ascii.push_back(m.to_ascii()); Mo q; q.from_ascii(a.ascii.back()); a.reread.push_back(op_of(q)); }
  brille::Spacegroup sg(j.c.e->hall); a.number = sg.get_international_table_number(); a.table_class = sg.get_pointgroup_number(); a.table_symbol = sg.get_hall_symbol(); a.choice = sg.get_choice(); a.table_centring = sg.get_bravais_type(); if (j.heavy) a.table_ops = ops_of(sg.get_spacegroup_symmetry());
  a.by_symbol = brille::hall_symbol_to_hall_number(j.c.e->symbol); a.by_full = brille::international_string_to_hall_number(j.c.e->full, j.c.e->choice); a.by_number = brille::international_number_to_hall_number(j.c.e->number, j.c.e->choice);
  return a;
}
std::string name_of(const M3& m) { std::string s; for (int x : m) s += " " + std::to_string(x); return s; }
void check(const Job& j, const Answers& a) {
  std::string at = j.c.tag(); const char* K = "wrong-group-fact"; auto P = in_order(*j.ps); size_t n = P.size(); SIM_CHECK(sorted(P) == sorted(j.P), K, at + ": the point group changed when it was made");
  SIM_CHECK(a.orders.size() == n && a.isos.size() == n && a.axes.size() == n && a.perp.size() == n, K, at + ": an answer for each operation");
  int last = 0; bool common = j.c.h.cen != 'p';
  for (size_t i = 0; i < n; ++i) {
    int o = proper_order(P[i]), d = det(P[i]); SIM_CHECK(a.orders[i] == o, K, at + ": order of" + name_of(P[i]) + " is " + std::to_string(a.orders[i])); SIM_CHECK(a.isos[i] == d * o, K, at + ": isometry of" + name_of(P[i]) + " is " + std::to_string(a.isos[i])); SIM_CHECK(o >= last, K, at + ": operations are not sorted by their order"); last = o;
    auto& x = a.axes[i]; bool none = x == std::array<int, 3>{0, 0, 0}; if (o == 1) SIM_CHECK(none, K, at + ": an axis of the identity or the inversion");
    if (o > 1) { auto y = on(P[i], x); for (auto& v : y) v *= d; SIM_CHECK(y == x, K, at + ": the axis of" + name_of(P[i]) + " moves"); SIM_CHECK(!none || !common, K, at + ": no axis of" + name_of(P[i])); }
    if (!none) for (auto& y : a.axes) if (y[0] * x[1] == y[1] * x[0] && y[1] * x[2] == y[2] * x[1] && y[0] * x[2] == y[2] * x[0] && y != std::array<int, 3>{0, 0, 0}) SIM_CHECK(y == x, K, at + ": one axis given in two ways");
  }
  auto closed = points_closed(a.gens); SIM_CHECK(closed == sorted(P), K, at + ": the " + std::to_string(a.gens.size()) + " generators make " + std::to_string(closed.size()) + " operations"); SIM_CHECK(a.generated == sorted(P), K, at + ": generate made " + std::to_string(a.generated.size()) + " operations of the generators");
  for (size_t i = 0; i < a.gens.size(); ++i) { auto w = a.gens; w.erase(w.begin() + static_cast<long>(i)); SIM_CHECK(points_closed(w).size() < n || n == 1, K, at + ": a generator which is not needed"); }
  auto both = P; for (auto& m : P) if (std::find(both.begin(), both.end(), neg(m)) == both.end()) both.push_back(neg(m)); SIM_CHECK(a.inverted == sorted(both), K, at + ": adding the inversion gives " + std::to_string(a.inverted.size()) + " operations"); SIM_CHECK(sorted(a.by_tr) == sorted(both), K, at + ": time reversal gives " + std::to_string(a.by_tr.size()) + " rotations");
  SIM_CHECK(a.inversion == (both.size() == n), K, at + ": has_space_inversion of the point group");
  // the turns of highest order about each axis
  if (common) {
    std::vector<std::array<int, 3>> axes; for (auto& x : a.axes) if (std::find(axes.begin(), axes.end(), x) == axes.end()) axes.push_back(x); size_t expected = 0; for (auto& x : axes) { int o = 0; for (size_t i = 0; i < n; ++i) if (a.axes[i] == x) o = std::max(o, a.orders[i]); expected += o > j.min_order; }
    SIM_CHECK(a.nfolds.size() == expected, K, at + ": nfolds gives " + std::to_string(a.nfolds.size()) + " of " + std::to_string(expected)); int before = 0;
    for (auto& m : a.nfolds) { SIM_CHECK(det(m) == 1 && std::find(both.begin(), both.end(), m) != both.end(), K, at + ": nfolds gives no proper operation"); int o = proper_order(m); SIM_CHECK(o > j.min_order && o >= before, K, at + ": nfolds gives orders which are too small or not sorted"); before = o; if (o > 1) for (auto& q : P) { M3 t = det(q) < 0 ? neg(q) : q; if (proper_order(t) > o && mul3(t, m) == mul3(m, t)) { M3 w = t; bool power = false; for (int k = 0; k < 6; ++k) { if (w == m) power = true; w = mul3(w, t); } SIM_CHECK(!power, K, at + ": nfolds gives a power of an operation"); } } }
  }
  std::vector<M3> high; for (auto& m : P) if (proper_order(m) > j.min_order) high.push_back(m); SIM_CHECK(a.higher == sorted(high), K, at + ": higher");
  SIM_CHECK(a.permuted.size() == n, K, at + ": permute"); for (size_t i = 0; i < n; ++i) SIM_CHECK(a.permuted[i] == P[j.perm[i]], K, at + ": permute");
  std::array<int, 3> f{j.from[0], j.from[1], j.from[2]}, t{j.to[0], j.to[1], j.to[2]}; std::vector<M3> mv, vm; for (auto& m : P) { if (on(m, f) == t) mv.push_back(m); if (on(tr3(m), f) == t) vm.push_back(m); }
  SIM_CHECK(a.links_mv == mv && a.links_vm == vm && a.mv == !mv.empty() && a.vm == !vm.empty(), K, at + ": operations which take one vector to another");
  SIM_CHECK(mul3(a.inv, P[j.pick]) == one && a.inv_index < n && P[a.inv_index] == a.inv, K, at + ": inverse of" + name_of(P[j.pick])); SIM_CHECK(a.proper == (det(P[j.pick]) < 0 ? neg(P[j.pick]) : P[j.pick]), K, at + ": proper part of" + name_of(P[j.pick]));
  SIM_CHECK(a.identity < n && P[a.identity] == one && a.found == j.pick && a.has && a.missing == n && !a.has_not, K, at + ": looking for operations");
  int cls = class_of(j.c.e->number); std::string sch = a.schoenflies; while (!sch.empty() && sch.back() == ' ') sch.pop_back();
  SIM_CHECK(a.cls == cls + 1 && a.symbol == class_names[cls] && sch == class_schoenflies[cls], K, at + ": the point group is called " + a.symbol + " " + a.schoenflies + " for " + class_names[cls]);
  // the space group
  auto& S = j.S; SIM_CHECK(a.s_orders.size() == S.size(), K, at + ": orders"); for (size_t i = 0; i < S.size(); ++i) SIM_CHECK(a.s_orders[i] == motion_order(S[i]), K, at + ": the order of " + op_xyz(S[i]) + " is " + std::to_string(a.s_orders[i]));
  bool si = std::find(S.begin(), S.end(), Op{neg(one), {0, 0, 0}}) != S.end(); SIM_CHECK(a.s_inversion == si, K, at + ": has_space_inversion of the space group"); SIM_CHECK(a.s_equal && a.s_differs && a.s_has && !a.s_has_not, K, at + ": comparing space groups");
  SIM_CHECK(a.s_found < S.size() && S[a.s_found].r == S[j.pick2].r, K, at + ": find_matrix_index"); static const char* letters = "_PABCIFR"; SIM_CHECK(letters[static_cast<int>(a.centring)] == j.c.h.cen || !common, K, at + ": centring"); SIM_CHECK(op_mul(a.s_inverse, S[j.pick2]) == (Op{one, {0, 0, 0}}), K, at + ": inverse of " + op_xyz(S[j.pick2]));
  for (size_t k = 0; k < a.ascii.size(); ++k) SIM_CHECK(a.reread[k] == S[(j.pick2 + k) % S.size()], K, at + ": " + op_xyz(S[(j.pick2 + k) % S.size()]) + " was written as " + a.ascii[k]);
  if (j.heavy) {
    auto ref = S; std::sort(ref.begin(), ref.end()); SIM_CHECK(ops_closed(a.s_gens, 200) == ref && a.s_generated == ref, K, at + ": the generators of the space group make " + std::to_string(a.s_generated.size()) + " operations");
    for (size_t i = 0; i < a.s_gens.size(); ++i) { auto w = a.s_gens; w.erase(w.begin() + static_cast<long>(i)); SIM_CHECK(S.size() == 1 || ops_closed(w, 200).size() < S.size(), K, at + ": a generator of the space group which is not needed"); }
    auto more = ref; if (!si) { auto gens = S; gens.push_back({neg(one), {0, 0, 0}}); more = ops_closed(gens, 3000); } SIM_CHECK(a.s_inverted == more, K, at + ": adding the inversion to the space group gives " + std::to_string(a.s_inverted.size()) + " operations of " + std::to_string(more.size()));
    auto table = setting(static_cast<size_t>(j.c.e - hall_table)).ops; SIM_CHECK(a.table_ops == table, K, at + ": operations of the table"); sim::probe("space_group_generators");
  }
  auto& e = *j.c.e; SIM_CHECK(a.number == e.number && a.table_class == cls + 1 && a.table_symbol == e.symbol && a.choice == e.choice && letters[static_cast<int>(a.table_centring)] == hall_parse(e.symbol).cen, K, at + ": the table says " + std::to_string(a.number) + " class " + std::to_string(a.table_class) + " " + a.table_symbol);
  auto same = [&](int h, auto&& get) { return h > 0 && h <= 530 && get(hall_table[h - 1]) == get(e); };
  SIM_CHECK(same(a.by_symbol, [](const HallEntry& x) { return std::string(x.symbol); }), K, at + ": the symbol was found as " + std::to_string(a.by_symbol)); SIM_CHECK(same(a.by_full, [](const HallEntry& x) { return std::string(x.full) + "|" + x.choice; }), K, at + ": the full name was found as " + std::to_string(a.by_full)); SIM_CHECK(same(a.by_number, [](const HallEntry& x) { return std::to_string(x.number) + "|" + x.choice; }), K, at + ": number " + std::to_string(e.number) + " was found as " + std::to_string(a.by_number));
  sim::probe(class_names[cls]);
}
Job draw_job(Rng& r, size_t most) {
  Job j; do j.c = make_crystal(draw_setting(), r, true); while (j.c.ops.size() > most); if (sim::coin("unlisted", 0.25)) unlisted(j.c, r, true); if (sim::coin("primitive_cell", 0.25) && primitive_cell(j.c, r, true)) { j.c.h.cen = 'p'; sim::probe("primitive_cell"); }
  j.P = j.c.point; j.S = j.c.ops; shuffle(j.P, r); shuffle(j.S, r); j.heavy = j.S.size() <= 48; j.pick = r.below(j.P.size()); j.pick2 = r.below(j.S.size()); j.min_order = static_cast<int>(r.below(5));
  for (size_t i = 0; i < j.P.size(); ++i) j.perm.push_back(i); shuffle(j.perm, r); for (size_t i = 0; i < 3; ++i) j.from.push_back(static_cast<int>(r.below(5)) - 2); { auto y = on(j.P[j.pick], {j.from[0], j.from[1], j.from[2]}); for (int v : y) j.to.push_back(v); if (r.below(4) == 0) j.to[r.below(3)] += 1; }
  j.stranger = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {1, 5, 0}}; do { for (auto& x : j.stranger.r) x = static_cast<int>(r.below(3)) - 1; } while (std::find(j.P.begin(), j.P.end(), j.stranger.r) != j.P.end());
  return j;
}
void make(Job& j) { brille::Matrices<int> m; for (auto& x : j.P) m.push_back(bm(x)); j.ps = std::make_unique<PointSymmetry>(m); j.sp = std::make_unique<Symmetry>(); for (auto& o : j.S) j.sp->add(motion(o)); }
void callers(bool watched) {
  std::vector<Job> jobs; std::vector<std::vector<size_t>> who; std::vector<std::vector<Answers>> got;
  { sim::Quiet quiet; Rng r(sim::draw_seed("data")); size_t m = 1 + sim::draw("groups", watched ? 2 : 4), n = 1 + sim::draw("callers", watched ? 3 : 4); for (size_t k = 0; k < m; ++k) { jobs.push_back(draw_job(r, watched ? 24 : 192)); make(jobs.back()); } for (size_t i = 0; i < n; ++i) { who.emplace_back(); for (size_t k = 0, q = 1 + sim::draw("questions", watched ? 1 : 2); k < q; ++k) who.back().push_back(r.below(m)); } got.resize(n); }
  auto work = [&] { std::vector<std::function<void()>> bodies; for (size_t i = 0; i < who.size(); ++i) bodies.push_back([&, i] { for (size_t k : who[i]) got[i].push_back(ask(jobs[k])); }); sim::Phase ph("questions"); sim::run_threads(bodies); };
  if (watched) work(); else { sim::Quiet quiet; work(); }
  sim::Quiet quiet; if (who.size() > 1) sim::nontrivial();
  for (size_t i = 0; i < who.size(); ++i) for (size_t k = 0; k < who[i].size(); ++k) { check(jobs[who[i][k]], got[i][k]); sim::mix_hash(jobs[who[i][k]].S.size()); }
}
void watched() { callers(true); }
void many() { callers(false); }
void faulty() {
  sim::Quiet quiet; Rng r(sim::draw_seed("data")); Job j = draw_job(r, 96); make(j); uint64_t total;
  { sim::Loud loud; sim::arm_alloc_fault(~0ull >> 1); Answers a = ask(j); total = sim::allocs_since_arm(); sim::disarm_alloc_fault(); sim::Quiet q2; check(j, a); }
  for (uint64_t k = 0, n = 1 + sim::draw("faults", 4); k < n; ++k) {
    Answers a; bool fired, threw = false;
    { sim::Loud loud; sim::Phase ph("questions without memory"); sim::arm_alloc_fault(1 + sim::draw("which", total), 1 + sim::draw("how_many", 2)); try { a = ask(j); } catch (std::exception&) { threw = true; } fired = sim::disarm_alloc_fault(); }
    if (fired) { sim::fault_fired("allocation"); sim::nontrivial(); }
    if (!threw) check(j, a); else SIM_CHECK(fired, "refused", j.c.tag() + ": refused without a fault");
  }
  Answers a = ask(j); check(j, a);
}
void warm() { for (size_t i = 0; i < 530; ++i) setting(i); Rng r(1); for (size_t i : {0, 100, 525}) { Job j; j.c = make_crystal(i, r, true); j.P = j.c.point; j.S = j.c.ops; j.heavy = false; j.pick = j.pick2 = 0; j.min_order = 0; for (size_t k = 0; k < j.P.size(); ++k) j.perm.push_back(k); j.from = j.to = {1, 0, 0}; j.stranger = {{1, 1, 1, 1, 1, 1, 1, 1, 1}, {0, 0, 0}}; make(j); ask(j); } }
sim::Reg a("Z03", "watched", watched, 1, warm);
sim::Reg b("Z03", "many", many, 4, warm);
sim::Reg c("Z03", "faulty", faulty, 1, warm);
}
