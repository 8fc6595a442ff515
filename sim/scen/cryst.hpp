// Random crystals of any of the 530 settings: a lattice, its space group and its zones, described without brille's help.
#pragma once
#include "hall.hpp"
namespace fx {
struct Cryst {
  const HallEntry* e; HallParse h; std::vector<Op> ops; std::vector<M3> point; D9 metric, A, B, Gs; double V; D3 len, ang; bool inversion; std::string symbol;   // symbol: set if it is not in the table; A: rows a, b, c; B: rows a*, b*, c* with 2 pi; ang in degrees
  std::string tag() const { return (symbol.empty() ? std::string(e->symbol) : symbol) + " " + str3(len) + " " + str3(ang); }
  bool allowed(long x, long y, long z) const { for (auto& c : h.centring) if ((((x * c[0] + y * c[1] + z * c[2]) % 12) + 12) % 12) return false; return true; }
  double norm2(const D3& q) const { return dot3(q, mulv(Gs, q)); }
  D3 xyz(const D3& q) const { return mulv(tr3(B), q); }
};
inline void crystal_metric(Cryst& c, const D9& m) {
  c.metric = m; for (size_t i = 0; i < 3; ++i) c.len[i] = std::sqrt(m[4 * i]);
  for (size_t i = 0; i < 3; ++i) { size_t j = (i + 1) % 3, k = (i + 2) % 3; double x = m[3 * j + k] / c.len[j] / c.len[k]; c.ang[i] = std::acos(x) * 180 / M_PI; for (double r : {60., 90., 120.}) if (std::abs(c.ang[i] - r) < 1e-9) c.ang[i] = r; }
  double ca = m[5] / c.len[1] / c.len[2], cb = m[2] / c.len[0] / c.len[2], cg = m[1] / c.len[0] / c.len[1], sg = std::sqrt(1 - cg * cg), cx = cb, cy = (ca - cb * cg) / sg, cz = std::sqrt(1 - cx * cx - cy * cy);
  c.A = {c.len[0], 0, 0, c.len[1] * cg, c.len[1] * sg, 0, c.len[2] * cx, c.len[2] * cy, c.len[2] * cz};
  c.V = det3(c.A); c.B = tr3(inv3(c.A)); for (auto& x : c.B) x *= 2 * M_PI; c.Gs = mul3(c.B, tr3(c.B));
}
struct Setting { HallParse h; std::vector<Op> ops; std::vector<M3> point; };
inline const Setting& setting(size_t entry) { static std::unique_ptr<Setting> s[530]; auto& p = s[entry]; if (!p) { p = std::make_unique<Setting>(); p->h = hall_parse(hall_table[entry].symbol); p->ops = hall_group(p->h); p->point = point_part(p->ops); } return *p; }
inline Cryst make_crystal(size_t entry, Rng& r, bool plain) {
  auto& s = setting(entry); Cryst c; c.e = &hall_table[entry]; c.h = s.h; c.ops = s.ops; c.point = s.point;
  c.inversion = std::find(c.point.begin(), c.point.end(), g::i) != c.point.end(); crystal_metric(c, symmetric_metric(c.point, r, plain)); return c;
}
// the settings of small groups are many; half of the crystals come from a choice among the crystal classes
inline size_t draw_setting() {
  if (sim::coin("any_setting", 0.5)) return sim::draw("setting", 530);
  static const int first[] = {1, 2, 3, 6, 10, 16, 25, 47, 75, 81, 83, 89, 99, 111, 123, 143, 147, 149, 156, 162, 168, 174, 175, 177, 183, 187, 191, 195, 200, 207, 215, 221, 231};
  size_t k = sim::draw("class", 32); std::vector<size_t> of; for (size_t i = 0; i < 530; ++i) if (hall_table[i].number >= first[k] && hall_table[i].number < first[k + 1]) of.push_back(i);
  return of[sim::draw("setting_of_class", of.size())];
}
inline D9 rotation(Rng& r) { // a random proper rotation
  double q[4], n = 0; do { n = 0; for (auto& x : q) { x = 2 * r.uni() - 1; n += x * x; } } while (n > 1 || n < 0.01); for (auto& x : q) x /= std::sqrt(n); double w = q[0], x = q[1], y = q[2], z = q[3];
  return {1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)};
}
// the Hall symbol with its axes turned (z to x to y) and all of them explicit
inline std::string turned_symbol(const std::string& s, int turns) {
  auto cyc = [&](char c, const char* of) { const char* p = std::strchr(of, c); return p && c ? of[(p - of + turns) % 3] : c; };
  size_t p = s[0] == '-' ? 1 : 0, q = s.find('('); std::string o = s.substr(0, p) + cyc(s[p], "CAB"); std::istringstream in(s.substr(p + 1, q == std::string::npos ? q : q - p - 1)); std::string tok; int prev = 0; size_t pos = 0; bool star = false;   // after 3* the axis of 2 has no letter
  while (in >> tok) {
    size_t k = tok[0] == '-' ? 1 : 0; int n = tok[k++] - '0'; char axis = 0; if (k < tok.size() && std::strchr("xyz'\"*", tok[k])) axis = tok[k++];
    if (!axis && n != 1) axis = pos == 0 ? 'z' : n == 2 ? (prev == 2 || prev == 4 ? 'x' : star ? 0 : '\'') : n == 3 ? '*' : 'z';
    o += " "; if (tok[0] == '-') o += '-'; o += static_cast<char>('0' + n); if (axis) o += cyc(axis, "zxy"); for (; k < tok.size(); ++k) { char c = cyc(tok[k], "abc"); if (c == tok[k]) c = cyc(c, "uvw"); o += c; } prev = n; ++pos; star = axis == '*';
  }
  if (q != std::string::npos) { int h[3] = {0, 0, 0}; std::sscanf(s.c_str() + q, "(%d %d %d)", h, h + 1, h + 2); o += " ("; for (int i = 0; i < 3; ++i) o += (i ? " " : "") + std::to_string(h[(i - turns + 3) % 3]); o += ")"; }
  return o;
}
// other spellings of the same symbol: with superscripts and subscripts, primes in full
inline std::string spelled_symbol(const std::string& s, Rng& r) {
  bool scripts = r.below(2), primes = r.below(2); std::string o; size_t q = s.find('('); bool sub = false, on = false, letter = false; // on: within a Seitz symbol, after its order
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i]; if (i >= q) { o += c; continue; } if (c == ' ') { on = sub = false; o += c; continue; } if (!letter) { letter = c != '-'; o += c; continue; } if (!on) { on = c != '-'; o += c; continue; }
    std::string part; if (!sub && std::strchr("xyz'\"*", c)) { part = primes && c == '"' ? std::string(2, '\'') : primes && c == '*' ? std::string(3, '\'') : std::string(1, c); for (char x : part) { if (scripts) o += '^'; o += x; } } else { sub = true; if (scripts) o += '_'; o += c; }
  }
  return o;
}
// a setting which is not in the table; brille has to make it from its symbol or operations
inline void unlisted(Cryst& c, Rng& r, bool plain) {
  bool rhombohedral = c.h.cen == 'R'; c.symbol = turned_symbol(c.e->symbol, rhombohedral ? 0 : static_cast<int>(r.below(3)));
  c.h = hall_parse(c.symbol); c.ops = hall_group(c.h); c.point = point_part(c.ops); crystal_metric(c, symmetric_metric(c.point, r, plain));
}
// the same crystal in a random primitive cell; false if none was found whose operations have no coefficients beyond 1
inline bool primitive_cell(Cryst& c, Rng& r, bool plain) {
  std::vector<std::array<int, 3>> v; for (auto& t : c.h.centring) for (int x = -1; x < 2; ++x) for (int y = -1; y < 2; ++y) for (int z = -1; z < 2; ++z) { std::array<int, 3> w{t[0] + 12 * x, t[1] + 12 * y, t[2] + 12 * z}; bool ok = w != std::array<int, 3>{0, 0, 0}; for (int k : w) ok = ok && k <= 12 && k >= -12; if (ok) v.push_back(w); }
  for (int tries = 0; tries < 3000; ++tries) {
    M3 P; for (size_t k = 0; k < 3; ++k) { auto& w = v[r.below(v.size())]; for (size_t i = 0; i < 3; ++i) P[3 * i + k] = w[i]; }
    long d = 0; long A[9]; for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < 3; ++k) { size_t i1 = (i + 1) % 3, i2 = (i + 2) % 3, k1 = (k + 1) % 3, k2 = (k + 2) % 3; A[3 * k + i] = static_cast<long>(P[3 * i1 + k1]) * P[3 * i2 + k2] - static_cast<long>(P[3 * i1 + k2]) * P[3 * i2 + k1]; } for (size_t k = 0; k < 3; ++k) d += P[k] * A[3 * k];
    if (d * static_cast<long>(c.h.centring.size()) != 1728) continue; M3 I; for (size_t i = 0; i < 9; ++i) I[i] = static_cast<int>(A[i] * 12 / d);   // d divides 12 A
    auto change = [&](const Op& o) { Op n; auto m = mul3(I, mul3(o.r, P)); for (size_t i = 0; i < 9; ++i) n.r[i] = m[i] / 12; n.t = mulv(I, o.t); for (auto& x : n.t) x = mod12(x); return n; };
    std::vector<Op> ops; bool ok = true; for (auto& o : c.ops) { auto n = change(o); for (int x : n.r) ok = ok && x <= 1 && x >= -1; if (std::find(ops.begin(), ops.end(), n) == ops.end()) ops.push_back(n); } if (!ok) continue;
    for (auto& g : c.h.gens) g = change(g); std::sort(ops.begin(), ops.end()); c.ops = ops; c.point = point_part(ops); c.h.centring = {{0, 0, 0}}; c.h.cen = 'P'; c.symbol = "a primitive cell of " + (c.symbol.empty() ? std::string(c.e->symbol) : c.symbol); crystal_metric(c, symmetric_metric(c.point, r, plain)); return true;
  }
  return false;
}
// how the crystal is described to brille
struct Route { int sym, shape, unit; bool reciprocal; D9 turn; double step{0}; };   // step: to which the lengths, angles or components of the vectors were rounded
inline const char* sym_routes[] = {"Hall symbol", "generators", "name", "operations", "full name", "number"};
inline Route draw_route(Rng& r) { Route o; o.sym = static_cast<int>(sim::draw("symmetry_route", 6)); o.shape = static_cast<int>(sim::draw("shape", 3)); o.unit = static_cast<int>(sim::draw("angle_unit", 4)); o.reciprocal = sim::coin("reciprocal", 0.4); o.turn = rotation(r); return o; }
inline std::string sym_text(const Cryst& c, int route, Rng& r) {
  if (route == 0) return c.symbol.empty() ? std::string(c.e->symbol) : spelled_symbol(c.symbol, r); if (route == 2) return c.e->name; if (route == 4) return c.e->full;
  auto list = c.ops; if (route == 1) { list = c.h.gens; for (auto& x : c.h.centring) if (x[0] || x[1] || x[2]) list.push_back({{1, 0, 0, 0, 1, 0, 0, 0, 1}, x}); if (list.empty()) list = c.ops; }
  for (size_t i = list.size(); i > 1; --i) std::swap(list[i - 1], list[r.below(i)]);
  bool first = r.below(2), decimal = r.below(4) == 0; int spaces = static_cast<int>(r.below(3)); const char* sep = spaces && r.below(2) ? "; " : ";";
  std::string s; for (auto& o : list) s += (s.empty() ? "" : sep) + op_xyz(o, first, decimal, spaces); return s;
}
inline D9 given_vectors(const Cryst& c, const Route& w) { return mul3(w.reciprocal ? c.B : c.A, tr3(w.turn)); }   // rows
using L = brille::lattice::Lattice<double>;
inline L build_lattice(const Cryst& c, const Route& w, const std::string& text, const brille::Basis& basis = brille::Basis()) {
  using namespace brille; auto lu = w.reciprocal ? LengthUnit::inverse_angstrom : LengthUnit::angstrom;
  D9 vec = given_vectors(c, w); auto mv = w.shape == 1 ? MatrixVectors::row : MatrixVectors::column; if (w.shape == 2) vec = tr3(vec);
  D3 len = c.len, ang = c.ang; if (w.reciprocal) { auto G = c.Gs; for (size_t i = 0; i < 3; ++i) len[i] = std::sqrt(G[4 * i]); for (size_t i = 0; i < 3; ++i) { size_t j = (i + 1) % 3, k = (i + 2) % 3; ang[i] = std::acos(G[3 * j + k] / len[j] / len[k]) * 180 / M_PI; for (double x : {60., 90., 120.}) if (std::abs(ang[i] - x) < 1e-9) ang[i] = x; } }
  if (w.step > 0) { auto cut = [&](double& x) { x = std::round(x / w.step) * w.step; }; for (auto& x : len) cut(x); for (auto& x : ang) cut(x); for (auto& x : vec) cut(x); }
  static const AngleUnit aus[] = {AngleUnit::not_provided, AngleUnit::degree, AngleUnit::radian, AngleUnit::pi}; auto au = aus[w.unit]; if (w.unit == 2) for (auto& a : ang) a *= M_PI / 180; if (w.unit == 3) for (auto& a : ang) a /= 180;
  if (w.sym == 5) { auto s = Spacegroup(c.e->hall).get_spacegroup_symmetry(); return w.shape ? L(std::make_shared<lattice::Impl<double>>(lu, vec, mv, s, basis)) : L(std::make_shared<lattice::Impl<double>>(lu, len, ang, s, basis, true, au)); }
  if (w.sym == 2 || w.sym == 4) { std::string ch(c.e->choice); return w.shape ? L(std::make_shared<lattice::Impl<double>>(lu, vec, mv, text, ch, basis)) : L(std::make_shared<lattice::Impl<double>>(lu, len, ang, text, ch, basis, true, au)); }
  return w.shape ? L(std::make_shared<lattice::Impl<double>>(lu, vec, mv, text, basis)) : L(std::make_shared<lattice::Impl<double>>(lu, len, ang, text, basis, true, au));
}
inline std::vector<Op> ops_of(const brille::Symmetry& S) {
  std::vector<Op> o; for (size_t i = 0; i < S.size(); ++i) { Op p; auto R = S.getr(static_cast<ind_t>(i)); auto t = S.gett(static_cast<ind_t>(i)); for (size_t k = 0; k < 9; ++k) p.r[k] = R[k]; for (size_t k = 0; k < 3; ++k) { double x = t[k] * 12; p.t[k] = std::abs(x - std::round(x)) > 1e-6 ? 99 : mod12(static_cast<int>(std::lround(x))); } o.push_back(p); }
  std::sort(o.begin(), o.end()); return o;
}
inline std::vector<M3> mats_of(const brille::PointSymmetry& P) { std::vector<M3> o; for (size_t i = 0; i < P.size(); ++i) { M3 m; auto a = P.get(i); for (size_t k = 0; k < 9; ++k) m[k] = a[k]; o.push_back(m); } std::sort(o.begin(), o.end()); return o; }
inline bool near9(const D9& a, const D9& b, double scale, double tol = 1e-9) { for (size_t i = 0; i < 9; ++i) if (!(std::abs(a[i] - b[i]) < tol * scale)) return false; return true; }
} // namespace fx
