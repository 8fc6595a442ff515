// Space groups from their Hall symbols, by the rules of International Tables B 1.4, independently of brille.
#pragma once
#include "fix.hpp"
#include <cstring>
namespace fx {
struct HallEntry { int hall, number; const char* symbol; const char* name; const char* choice; const char* full; };
inline const HallEntry hall_table[] = {
#include "hall_table.inc"
};
struct Op { M3 r; std::array<int, 3> t; bool operator==(const Op& o) const { return r == o.r && t == o.t; } bool operator<(const Op& o) const { return std::tie(r, t) < std::tie(o.r, o.t); } };   // translation in twelfths
inline int mod12(int x) { return ((x % 12) + 12) % 12; }
inline Op op_mul(const Op& a, const Op& b) { Op o{mul3(a.r, b.r), mulv(a.r, b.t)}; for (size_t i = 0; i < 3; ++i) o.t[i] = mod12(o.t[i] + a.t[i]); return o; }
struct HallParse { char cen; std::vector<Op> gens; std::vector<std::array<int, 3>> centring; };
inline HallParse hall_parse(const std::string& s) {
  HallParse o; size_t p = 0; bool neg = false; if (s[p] == '-') { neg = true; ++p; } o.cen = s[p++];
  auto& c = o.centring; c.push_back({0, 0, 0});
  switch (o.cen) { case 'A': c.push_back({0, 6, 6}); break; case 'B': c.push_back({6, 0, 6}); break; case 'C': c.push_back({6, 6, 0}); break; case 'I': c.push_back({6, 6, 6}); break; case 'R': c.push_back({8, 4, 4}); c.push_back({4, 8, 8}); break; case 'F': c.push_back({0, 6, 6}); c.push_back({6, 0, 6}); c.push_back({6, 6, 0}); break; default: break; }
  std::array<int, 3> shift{0, 0, 0}; size_t q = s.find('('); std::string body = s.substr(p, q == std::string::npos ? q : q - p);
  if (q != std::string::npos) std::sscanf(s.c_str() + q, "(%d %d %d)", &shift[0], &shift[1], &shift[2]);
  std::istringstream in(body); std::string tok; int prev = 0; char paxis = 'z'; size_t pos = 0;
  while (in >> tok) {
    size_t k = 0; bool inv = false; if (tok[k] == '-') { inv = true; ++k; } int n = tok[k++] - '0'; char axis = 0;
    if (k < tok.size() && std::strchr("xyz'\"*", tok[k])) axis = tok[k++];
    if (!axis) axis = n == 1 ? 'z' : pos == 0 ? 'z' : pos == 1 ? (n == 2 ? (prev == 2 || prev == 4 ? 'x' : '\'') : n == 3 ? '*' : 'z') : n == 3 ? '*' : 'z';
    M3 z; switch (n) { case 1: z = {1, 0, 0, 0, 1, 0, 0, 0, 1}; break; case 2: z = {-1, 0, 0, 0, -1, 0, 0, 0, 1}; break; case 3: z = {0, -1, 0, 1, -1, 0, 0, 0, 1}; break; case 4: z = {0, -1, 0, 1, 0, 0, 0, 0, 1}; break; default: z = {1, -1, 0, 1, 0, 0, 0, 0, 1}; }
    const M3 cyc{0, 0, 1, 1, 0, 0, 0, 1, 0}; auto turn = [&](M3 m, int times) { for (int i = 0; i < times; ++i) m = mul3(mul3(cyc, m), inv3i(cyc)); return m; };   // z to x to y
    int about = paxis == 'x' ? 1 : paxis == 'y' ? 2 : 0; M3 r = z;
    if (axis == 'x') r = turn(z, 1); else if (axis == 'y') r = turn(z, 2); else if (axis == '*') r = cyc;
    else if (axis == '\'') r = turn({0, -1, 0, -1, 0, 0, 0, 0, -1}, about); else if (axis == '"') r = turn({0, 1, 0, 1, 0, 0, 0, 0, -1}, about);
    Op g; g.r = r; if (inv) for (auto& x : g.r) x = -x; g.t = {0, 0, 0};
    for (; k < tok.size(); ++k) {
      std::array<int, 3> t{0, 0, 0}; switch (tok[k]) { case 'a': t = {6, 0, 0}; break; case 'b': t = {0, 6, 0}; break; case 'c': t = {0, 0, 6}; break; case 'n': t = {6, 6, 6}; break; case 'u': t = {3, 0, 0}; break; case 'v': t = {0, 3, 0}; break; case 'w': t = {0, 0, 3}; break; case 'd': t = {3, 3, 3}; break;
        default: { int screw = (tok[k] - '0') * 12 / n; t[axis == 'x' ? 0 : axis == 'y' ? 1 : 2] = screw; } }
      for (size_t i = 0; i < 3; ++i) g.t[i] += t[i];
    }
    auto rs = mulv(g.r, shift); for (size_t i = 0; i < 3; ++i) g.t[i] = mod12(g.t[i] + shift[i] - rs[i]);
    o.gens.push_back(g); prev = n; if (axis == 'x' || axis == 'y' || axis == 'z') paxis = n == 1 ? paxis : axis; ++pos;
  }
  if (neg) { Op g{{-1, 0, 0, 0, -1, 0, 0, 0, -1}, {0, 0, 0}}; for (size_t i = 0; i < 3; ++i) g.t[i] = mod12(2 * shift[i]); o.gens.push_back(g); }
  return o;
}
inline std::vector<Op> hall_group(const HallParse& h) {
  std::vector<Op> gens = h.gens, all{{{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 0, 0}}}; for (auto& c : h.centring) if (c != std::array<int, 3>{0, 0, 0}) gens.push_back({{1, 0, 0, 0, 1, 0, 0, 0, 1}, c});
  for (size_t k = 0; k < all.size() && all.size() <= 192; ++k) for (auto& q : gens) { auto p = op_mul(all[k], q); if (std::find(all.begin(), all.end(), p) == all.end()) all.push_back(p); }
  std::sort(all.begin(), all.end()); return all;
}
inline std::vector<M3> point_part(const std::vector<Op>& g) { std::vector<M3> o; for (auto& x : g) if (std::find(o.begin(), o.end(), x.r) == o.end()) o.push_back(x.r); return o; }
// order of the crystal class of a space group of the International Tables
inline size_t class_order(int n) {
  static const int lim[] = {1, 2, 5, 9, 15, 24, 46, 74, 80, 82, 88, 98, 110, 122, 142, 146, 148, 155, 161, 167, 173, 174, 176, 182, 186, 190, 194, 199, 206, 214, 220, 230}, ord[] = {1, 2, 2, 2, 4, 4, 4, 8, 4, 4, 8, 8, 8, 8, 16, 3, 6, 6, 6, 12, 6, 6, 12, 12, 12, 12, 24, 12, 24, 24, 24, 48};
  size_t i = 0; while (lim[i] < n) ++i; return static_cast<size_t>(ord[i]);
}
// "x,y,z" notation; first: the translation comes first; decimal: it is a decimal fraction; spaces: 1 after commas, 2 around signs, too
inline std::string op_xyz(const Op& o, bool first = false, bool decimal = false, int spaces = 0) {
  std::string s; const char* n[] = {"x", "y", "z"}; std::string plus = spaces > 1 ? " + " : "+", minus = spaces > 1 ? " - " : "-";
  for (size_t i = 0; i < 3; ++i) {
    if (i) s += spaces ? ", " : ","; bool any = false; std::string t; if (o.t[i]) { int a = o.t[i], b = 12; for (int d : {2, 2, 3}) if (a % d == 0 && b % d == 0) { a /= d; b /= d; } if (decimal) { std::ostringstream q; q << std::setprecision(17) << o.t[i] / 12.0; t = q.str(); } else t = std::to_string(a) + "/" + std::to_string(b); }
    if (first && !t.empty()) { s += t; any = true; }
    for (size_t j = 0; j < 3; ++j) { int v = o.r[3 * i + j]; if (!v) continue; s += v < 0 ? (any ? minus : "-") : any ? plus : ""; any = true; s += n[j]; }
    if (!first && !t.empty()) s += plus + t;
  }
  return s;
}
// a metric which the point group leaves unchanged; plain: lengths and angles are round numbers, so that some coincide
inline D9 symmetric_metric(const std::vector<M3>& group, Rng& r, bool plain = false) {
  static const double cosines[] = {0, 0, 0.5, -0.5, 0.25, -0.25}; D9 b, m;
  do {
    double L[3], c[3]; for (auto& x : L) x = plain ? 3.0 + static_cast<double>(r.below(3)) : 2.5 + 4 * r.uni(); for (auto& x : c) x = plain ? cosines[r.below(6)] : std::cos((70 + 40 * r.uni()) * M_PI / 180);
    b = {L[0] * L[0], L[0] * L[1] * c[2], L[0] * L[2] * c[1], L[0] * L[1] * c[2], L[1] * L[1], L[1] * L[2] * c[0], L[0] * L[2] * c[1], L[1] * L[2] * c[0], L[2] * L[2]};
  } while (det3(b) < 0.05 * b[0] * b[4] * b[8]);
  m.fill(0);
  for (auto& g : group) { auto t = mul3(mul3(tr3(g), b), g); for (size_t i = 0; i < 9; ++i) m[i] += t[i] / static_cast<double>(group.size()); }
  return m;
}
} // namespace fx
