// parts: 4
// Interpolation anywhere in reciprocal space: move into the irreducible zone, interpolate, rotate back.
// part 0 trellis, 1 mesh, 2 nest: every kind of rotating data; part 3 phonon eigenvectors.
#include "rot.hpp"
#if PART == 0 || PART == 3
#include "bz_trellis.hpp"
#elif PART == 1
#include "bz_mesh.hpp"
#else
#include "bz_nest.hpp"
#endif
using namespace fx;
namespace {
using brille::LengthUnit; using brille::RotatesLike;
#if PART < 3
struct Spec { size_t zone; double vol; };
const Spec specs[] = {{6, 0.1}, {12, 0.1}, {13, 0.1}, {14, 0.1}, {15, 0.1}, {0, 0.3}, {3, 0.2}, {5, 0.2}, {16, 0.2}, {8, 0.3}, {22, 0.2}, {25, 0.3}, {4, 0.3}, {23, 0.3}};
constexpr size_t NS = sizeof specs / sizeof *specs;
#if PART == 0
#define NAME "trellis"
template<class T, class R> using Gr = brille::BrillouinZoneTrellis3<T, R, double>;
template<class T, class R> std::unique_ptr<Gr<T, R>> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<Gr<T, R>>(*z.bz, s.vol * z.bz->get_ir_polyhedron().volume(), false); }
template<class G> std::vector<D3> vertices(const G& g) { return rows(g.get_hkl()); }
#elif PART == 1
#define NAME "mesh"
template<class T, class R> using Gr = brille::BrillouinZoneMesh3<T, R, double>;
template<class T, class R> std::unique_ptr<Gr<T, R>> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<Gr<T, R>>(*z.bz, s.vol * z.bz->get_ir_polyhedron().volume(), 1, 100); }
template<class G> std::vector<D3> vertices(const G& g) { return rows(g.get_mesh_hkl()); }
#else
#define NAME "nest"
template<class T, class R> using Gr = brille::BrillouinZoneNest3<T, R, double>;
template<class T, class R> std::unique_ptr<Gr<T, R>> build(const Spec& s) { auto& z = zone(s.zone); return std::make_unique<Gr<T, R>>(*z.bz, s.vol * z.bz->get_ir_polyhedron().volume(), ind_t(3)); }
template<class G> std::vector<D3> vertices(const G& g) { return rows(g.get_all_hkl()); }
#endif
template<class T, class R> GridFix<Gr<T, R>>* fixes() { static GridFix<Gr<T, R>> f[NS]; return f; }
template<class T, class R> void warm() {
  for (size_t i = 0; i < NS; ++i) { auto& f = fixes<T, R>()[i]; f.zi = specs[i].zone; f.grid = build<T, R>(specs[i]); f.verts = vertices(*f.grid); hull(f.zi); }
}
Rule draw_rule(const char* tag) { static const Rule r[] = {Rule::real_vector, Rule::recip_vector, Rule::real_axial}; return r[sim::draw(tag, 3)]; }
template<class T, class R> void body() {
  Field<T> val; Field<R> vec; Rule rv, rw; Zone* z; const Hull* h; std::vector<D3> Q; std::unique_ptr<brille::lattice::LVec<double>> x; Gr<T, R>* g; int nth; uint64_t how;
  {
    sim::Quiet quiet;
    auto& f = fixes<T, R>()[sim::draw("grid", NS)]; z = &zone(f.zi); h = &hull(f.zi); g = f.grid.get();
    Rng r(sim::draw_seed("data"));
    uint64_t kv = sim::draw("value_kind", 6), kw = sim::draw("vector_kind", 6); ind_t B = static_cast<ind_t>(1 + sim::draw("branches", 3)), k = static_cast<ind_t>(1 + sim::draw("elements", 2));
    if (kv == 0 || kw == 0) B = 1;
    val = Field<T>(shape_of(static_cast<int>(kv), B, k), r, false, 1.0); vec = Field<R>(shape_of(static_cast<int>(kw), B, k), r, true, 0.2);
    vec.phases = sim::coin("phases", 0.5) && is_cplx<R>::v;
    rv = draw_rule("value_rule"); rw = draw_rule("vector_rule");
    auto av = val.fill(f.verts, r); auto aw = vec.fill(f.verts, r);
    auto unit = [](Rule q) { return q == Rule::recip_vector ? LengthUnit::reciprocal_lattice : LengthUnit::real_lattice; }; auto like = [](Rule q) { return q == Rule::real_axial ? RotatesLike::pseudovector : RotatesLike::vector; };
    g->replace_value_data(av, val.sh.el, like(rv), unit(rv)); g->replace_vector_data(aw, vec.sh.el, like(rw), unit(rw));
    Q = draw_qs(*z, *h, r, 20);
    x = std::make_unique<brille::lattice::LVec<double>>(laid(*z, Q)); nth = draw_threads(); how = sim::draw("call", 4);
  }
  std::tuple<brille::Array<T>, brille::Array<R>> res;
  { sim::Phase ph("interpolate"); res = how == 3 ? g->template ir_interpolate_at<false>(*x) : g->template ir_interpolate_at<false>(*x, nth); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1 && Q.size() > 1) sim::nontrivial();
  auto vs = std::get<0>(res).shape(), ws = std::get<1>(res).shape();
  auto want = [&](const std::vector<ind_t>& tail) { std::vector<ind_t> s{static_cast<ind_t>(Q.size())}; s.insert(s.end(), tail.begin(), tail.end()); return s; };
  SIM_CHECK(vs == want(val.sh.tail) && ws == want(vec.sh.tail), "wrong-shape", "the result has the wrong shape");
  if (Q.empty()) return;
  brille::Array2<T> v2(std::get<0>(res)); brille::Array2<R> w2(std::get<1>(res));
  for (ind_t i = 0; i < Q.size(); ++i) {
    auto reps = representatives(*z, *h, Q[i]); SIM_CHECK(!reps.empty(), "harness", "no representative of " + str3(Q[i]));
    double best = 1e300, bv = 0, bw = 0; Rep at{};
    for (auto& rp : reps) { double dv = row_distance(val, rv, rp, v2.ptr(i)), dw = row_distance(vec, rw, rp, w2.ptr(i)); if (std::max(dv, dw) < best) { best = std::max(dv, dw); bv = dv; bw = dw; at = rp; } }
    if (best > 1e-6) { std::ostringstream o; o << "zone " << z->def->tag << " Q " << str3(Q[i]) << ": " << reps.size() << " ways to reduce it, the closest (q " << str3(at.q) << ") differs by " << bv << " in the values (rule " << int(rv) << ") and " << bw << " in the vectors (rule " << int(rw) << ")"; sim::violation("wrong-rotation", o.str()); }
  }
}
sim::Reg a("T03", NAME "_real_complex", body<double, cplx>, 2, warm<double, cplx>);
#if PART == 0
sim::Reg b("T03", NAME "_real_real", body<double, double>, 1, warm<double, double>);
sim::Reg c("T03", NAME "_complex_complex", body<cplx, cplx>, 1, warm<cplx, cplx>);
#endif
#else
// ---------------------------------------------------------------- phonon eigenvectors
using Tr = brille::BrillouinZoneTrellis3<double, cplx, double>;
struct Crystal { const char* tag; D3 len, ang; const char* sg; std::vector<M3> gens; std::vector<D3> pos; std::vector<ind_t> typ; double vol; bool tr; };
const std::vector<Crystal>& crystals() {
  using namespace g;
  static const std::vector<Crystal> C{
    {"perovskite", {3.9, 3.9, 3.9}, {90, 90, 90}, "Pm-3m", {z4, d3, i}, {{0, 0, 0}, {.5, .5, .5}, {0, .5, .5}, {.5, 0, .5}, {.5, .5, 0}}, {0, 1, 2, 2, 2}, 0.02, false},
    {"hcp", {3, 3, 4.8}, {90, 90, 120}, "P6_3/mmc", {z6, d2, i}, {{1. / 3, 2. / 3, .25}, {2. / 3, 1. / 3, .75}}, {0, 0}, 0.03, false},
    {"P4_1", {4, 4, 6}, {90, 90, 90}, "P4_1", {z4}, {{.12, .27, .05}, {-.27, .12, .3}, {-.12, -.27, .55}, {.27, -.12, .8}}, {0, 0, 0, 0}, 0.03, false},
    {"P-1", {3, 4, 5}, {80, 95, 105}, "P-1", {i}, {{.13, .21, .37}, {-.13, -.21, -.37}, {0, 0, 0}}, {0, 0, 1}, 0.1, false},
    {"P4/mmm", {3, 3, 5}, {90, 90, 90}, "P4/mmm", {z4, x2, i}, {{0, 0, 0}, {.5, 0, .5}, {0, .5, .5}}, {0, 1, 1}, 0.03, false},
    {"P3", {4, 4, 5}, {90, 90, 120}, "P 3", {z3}, {{.11, .27, .05}, {-.27, -.16, .05}, {.16, -.11, .05}, {1. / 3, 2. / 3, .4}}, {0, 0, 0, 1}, 0.02, false},
    {"P23", {4, 4, 4}, {90, 90, 90}, "P 2 3", {z2, x2, d3}, {{.17, .17, .17}, {-.17, -.17, .17}, {.17, -.17, -.17}, {-.17, .17, -.17}}, {0, 0, 0, 0}, 0.03, false},
    // time reversal adds nothing to a crystal with a centre of inversion, wherever the centre is
    {"P n n n :1", {3, 4, 5}, {90, 90, 90}, "P 2 2 -1n", {z2, x2, i}, {{0, 0, 0}, {.5, .5, .5}, {.13, 0, 0}, {-.13, 0, 0}, {.37, .5, .5}, {.63, .5, .5}}, {0, 0, 1, 1, 1, 1}, 0.05, true},
    {"P n n n :1, no time reversal", {3, 4, 5}, {90, 90, 90}, "P 2 2 -1n", {z2, x2, i}, {{0, 0, 0}, {.5, .5, .5}, {.13, 0, 0}, {-.13, 0, 0}, {.37, .5, .5}, {.63, .5, .5}}, {0, 0, 1, 1, 1, 1}, 0.05, false},
    {"P4/mmm, time reversal", {3, 3, 5}, {90, 90, 90}, "P4/mmm", {z4, x2, i}, {{0, 0, 0}, {.5, 0, .5}, {0, .5, .5}}, {0, 1, 1}, 0.03, true},
  };
  return C;
}
struct Mode { std::vector<cplx> e; };
struct Fix { const Crystal* c; Lat lat; Zone z; Hull h; std::unique_ptr<Tr> grid; std::vector<D3> verts; std::vector<size_t> lone; D9 A; };
std::vector<std::unique_ptr<Fix>>& fixes() { static std::vector<std::unique_ptr<Fix>> f; return f; }
// pair forces which depend on the distance and the kinds of atom only; phases count lattice translations
std::vector<cplx> dynmat(const Fix& f, const D3& q) {
  size_t n = f.c->pos.size(); std::vector<cplx> D(9 * n * n, cplx(0, 0));
  for (size_t k = 0; k < n; ++k) for (size_t l = 0; l < n; ++l) for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) for (int c = -3; c <= 3; ++c) {
    D3 R{double(a), double(b), double(c)}, d = f.c->pos[l] + R - f.c->pos[k], x = mulv(tr3(f.A), d); double r2 = dot3(x, x);
    if (r2 > 49 || r2 < 1e-8) continue;
    double K = std::exp(-r2 / 9) * (1 + 0.3 * f.c->typ[k] + 0.3 * f.c->typ[l]) * (1 - r2 / 49) * (1 - r2 / 49); cplx ph = std::polar(1.0, 2 * M_PI * dot3(q, R));
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { double e = K * x[i] * x[j] / r2; D[(3 * k + i) * 3 * n + 3 * l + j] -= e * ph; D[(3 * k + i) * 3 * n + 3 * k + j] += e; }
  }
  return D;
}
void warm() {
  if (!fixes().empty()) return;
  for (auto& c : crystals()) {
    auto f = std::make_unique<Fix>(); f->c = &c; f->lat = Lat{c.tag, c.len, c.ang, c.sg, 'P', c.gens, c.tr};
    f->z = make_zone(f->lat);
    brille::BrillouinZoneConfig cfg; cfg.time_reversal(c.tr);
    auto lat = brille::lattice::Direct<double>(c.len, c.ang, c.sg, brille::Basis(c.pos, c.typ));
    f->z.bz = std::make_unique<brille::BrillouinZone>(lat, cfg); f->A = f->z.A;
    { auto m = lat.to_xyz(LengthUnit::angstrom); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) f->A[3 * j + i] = m[3 * i + j]; }
    f->h = make_hull(f->z);
    f->grid = std::make_unique<Tr>(*f->z.bz, c.vol * f->z.bz->get_polyhedron().volume(), false); f->verts = rows(f->grid->get_hkl());
    // only vertices which are interpolated from themselves alone (not hanging on a neighbour's face) and have one representative
    size_t P = f->verts.size(); Rng r(7); brille::Array<cplx> pv(std::vector<ind_t>{static_cast<ind_t>(P), 1, 3}); brille::Array2<cplx> p2(pv); for (ind_t i = 0; i < P; ++i) for (ind_t j = 0; j < 3; ++j) p2.val(i, j) = cplx(r.uni(), r.uni());
    brille::Array<double> qv(std::vector<ind_t>{static_cast<ind_t>(P), 1, 1}); brille::Array2<double> q2(qv); for (ind_t i = 0; i < P; ++i) q2.val(i, 0) = r.uni();
    std::array<ind_t, 3> ev{1, 0, 0}, ew{0, 3, 0}; f->grid->replace_value_data(qv, ev, RotatesLike::vector, LengthUnit::real_lattice); f->grid->replace_vector_data(pv, ew, RotatesLike::vector, LengthUnit::real_lattice);
    auto own = f->grid->interpolate_at<true>(lvec(f->z, f->verts)); brille::Array2<double> o2(std::get<0>(own));
    for (size_t i = 0; i < P; ++i) { if (std::abs(o2.val(static_cast<ind_t>(i), 0) - q2.val(static_cast<ind_t>(i), 0)) > 1e-9) continue; auto rp = representatives(f->z, f->h, f->verts[i]); bool one = true; for (auto& r : rp) { D3 d = r.q - f->verts[i]; if (dot3(d, d) > 1e-10) one = false; } if (one && !rp.empty()) f->lone.push_back(i); }
    fixes().push_back(std::move(f));
  }
}
void gamma() {
  Fix* f; int nth; bool cart; std::vector<D3> Q; std::vector<size_t> at; std::unique_ptr<brille::lattice::LVec<double>> x; std::vector<std::vector<cplx>> data; ind_t N, nb; bool phases; uint64_t how;
  {
    sim::Quiet quiet;
    f = fixes()[sim::draw("crystal", fixes().size())].get(); Rng r(sim::draw_seed("data")); size_t n = f->c->pos.size(); SIM_CHECK(!f->lone.empty(), "wrong-interpolation", std::string("no vertex of the grid of ") + f->c->tag + " returns its own data"); N = static_cast<ind_t>(3 * n);
    cart = sim::coin("angstrom", 0.5); ind_t half = static_cast<ind_t>(1 + sim::draw("modes", 3)); nb = 2 * half; phases = false;
    size_t P = f->verts.size(); std::vector<cplx> E(half * N); for (auto& e : E) e = cplx(2 * r.uni() - 1, 2 * r.uni() - 1);
    D9 toF = inv3(tr3(f->A));   // Cartesian column vector to lattice components
    data.resize(P);
    brille::Array<cplx> vec(std::vector<ind_t>{static_cast<ind_t>(P), nb, static_cast<ind_t>(n), 3}); brille::Array<double> val(std::vector<ind_t>{static_cast<ind_t>(P), nb, 1}); brille::Array2<cplx> v2(vec); brille::Array2<double> a2(val);
    for (ind_t p = 0; p < P; ++p) {
      auto D = dynmat(*f, f->verts[p]); data[p].resize(nb * N);
      for (ind_t m = 0; m < half; ++m) for (ind_t a = 0; a < N; ++a) { data[p][m * N + a] = E[m * N + a]; cplx s(0, 0); for (ind_t b = 0; b < N; ++b) s += D[a * N + b] * E[m * N + b]; data[p][(half + m) * N + a] = s; }
      for (ind_t b = 0; b < nb; ++b) { a2.val(p, b) = double(b) + 0.1; for (ind_t k = 0; k < n; ++k) for (ind_t i = 0; i < 3; ++i) { cplx y = data[p][b * N + 3 * k + i]; if (!cart) { y = cplx(0, 0); for (ind_t j = 0; j < 3; ++j) y += toF[3 * i + j] * data[p][b * N + 3 * k + j]; } v2.val(p, b * N + 3 * k + i) = y; } }
    }
    std::array<ind_t, 3> ev{1, 0, 0}, ew{0, N, 0};
    f->grid->replace_value_data(val, ev, RotatesLike::vector, LengthUnit::real_lattice); f->grid->replace_vector_data(vec, ew, RotatesLike::Gamma, cart ? LengthUnit::angstrom : LengthUnit::real_lattice);
    size_t m = static_cast<size_t>(1 + sim::draw("npoints", 16));
    for (size_t i = 0; i < m; ++i) { size_t p = f->lone[r.below(f->lone.size())]; at.push_back(p); Q.push_back(mulv(tr3(f->z.group[r.below(f->z.group.size())]), f->verts[p]) + any_lattice(f->z, r, 3)); }
    x = std::make_unique<brille::lattice::LVec<double>>(laid(f->z, Q)); nth = draw_threads(); how = sim::draw("call", 4);
  }
  std::tuple<brille::Array<double>, brille::Array<cplx>> res;
  { sim::Phase ph("interpolate"); res = how == 3 ? f->grid->template ir_interpolate_at<false>(*x) : f->grid->template ir_interpolate_at<false>(*x, nth); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1 && Q.size() > 1) sim::nontrivial();
  auto ws = std::get<1>(res).shape(); SIM_CHECK((ws == std::vector<ind_t>{static_cast<ind_t>(Q.size()), nb, N / 3, 3}), "wrong-shape", "the result has the wrong shape");
  brille::Array2<double> v2(std::get<0>(res)); brille::Array2<cplx> w2(std::get<1>(res)); ind_t half = nb / 2;
  for (ind_t i = 0; i < Q.size(); ++i) {
    auto D = dynmat(*f, Q[i]);
    for (ind_t b = 0; b < nb; ++b) SIM_CHECK(std::abs(v2.val(i, b) - (double(b) + 0.1)) < 1e-9, "wrong-value", "the value of a mode changed on the way to Q " + str3(Q[i]));
    std::vector<cplx> e(nb * N);
    for (ind_t b = 0; b < nb; ++b) for (ind_t k = 0; k < N / 3; ++k) for (ind_t j = 0; j < 3; ++j) { cplx y = w2.val(i, b * N + 3 * k + j); if (!cart) { y = cplx(0, 0); for (ind_t l = 0; l < 3; ++l) y += f->A[3 * l + j] * w2.val(i, b * N + 3 * k + l); } e[b * N + 3 * k + j] = y; }
    double worst = 0, norm = 0;
    for (ind_t m = 0; m < half; ++m) {
      double n0 = 0, n1 = 0; for (ind_t a = 0; a < N; ++a) { n0 += std::norm(data[at[i]][m * N + a]); n1 += std::norm(e[m * N + a]); }
      norm = std::max(norm, std::abs(std::sqrt(n1 / n0) - 1));
      cplx ov(0, 0); std::vector<cplx> De(N); for (ind_t a = 0; a < N; ++a) { for (ind_t b = 0; b < N; ++b) De[a] += D[a * N + b] * e[m * N + b]; ov += De[a] * std::conj(e[(half + m) * N + a]); }
      cplx ph = std::abs(ov) > 0 ? ov / std::abs(ov) : cplx(1, 0); double s = 0; for (auto& y : De) s = std::max(s, std::abs(y));
      for (ind_t a = 0; a < N; ++a) worst = std::max(worst, std::abs(De[a] - ph * e[(half + m) * N + a]) / (s > 0 ? s : 1));
    }
    if (!(worst < 1e-6 && norm < 1e-6)) { std::ostringstream o; o << f->c->tag << (cart ? " (angstrom)" : " (lattice units)") << " Q " << str3(Q[i]) << " from the vertex " << str3(f->verts[at[i]]) << ": the rotated eigenvectors do not belong to the dynamical matrix at Q (difference " << worst << ", change of length " << norm << ")"; sim::violation("wrong-rotation", o.str()); }
  }
}
// the matrices between pairs of atoms rotate together with the eigenvectors: the dynamical matrix itself must arrive at Q
void matrices() {
  Fix* f; int nth; bool cart, both; std::vector<D3> Q; std::vector<size_t> at; std::unique_ptr<brille::lattice::LVec<double>> x; ind_t n, N, B, span; uint64_t how; std::vector<double> scale;
  {
    sim::Quiet quiet;
    f = fixes()[sim::draw("crystal", fixes().size())].get(); Rng r(sim::draw_seed("data")); n = static_cast<ind_t>(f->c->pos.size()); N = 3 * n; SIM_CHECK(!f->lone.empty(), "wrong-interpolation", std::string("no vertex of the grid of ") + f->c->tag + " returns its own data");
    cart = sim::coin("angstrom", 0.5); both = sim::coin("with_vectors", 0.5); B = static_cast<ind_t>(1 + sim::draw("branches", 2)); for (ind_t b = 0; b < B; ++b) scale.push_back(0.5 + r.uni());
    size_t P = f->verts.size(); span = (both ? N : 0) + N * N; D9 F = cart ? D9{1, 0, 0, 0, 1, 0, 0, 0, 1} : inv3(tr3(f->A)), G = cart ? F : tr3(f->A);
    brille::Array<cplx> vec(std::vector<ind_t>{static_cast<ind_t>(P), B, span}); brille::Array<double> val(std::vector<ind_t>{static_cast<ind_t>(P), B, 1}); brille::Array2<cplx> v2(vec); brille::Array2<double> a2(val);
    for (ind_t p = 0; p < P; ++p) {
      auto D = dynmat(*f, f->verts[p]);
      for (ind_t b = 0; b < B; ++b) {
        a2.val(p, b) = double(b) + 0.1; ind_t o = b * span; if (both) { for (ind_t a = 0; a < N; ++a) v2.val(p, o + a) = cplx(r.uni(), r.uni()); o += N; }
        for (ind_t k = 0; k < n; ++k) for (ind_t l = 0; l < n; ++l) for (ind_t i = 0; i < 3; ++i) for (ind_t j = 0; j < 3; ++j) { cplx y(0, 0); for (ind_t s = 0; s < 3; ++s) for (ind_t t = 0; t < 3; ++t) y += F[3 * i + s] * D[(3 * k + s) * N + 3 * l + t] * G[3 * t + j]; v2.val(p, o + 9 * (k * n + l) + 3 * i + j) = scale[b] * y; }
      }
    }
    std::array<ind_t, 3> ev{1, 0, 0}, ew{0, both ? N : 0, N * N};
    f->grid->replace_value_data(val, ev, RotatesLike::vector, LengthUnit::real_lattice); f->grid->replace_vector_data(vec, ew, RotatesLike::Gamma, cart ? LengthUnit::angstrom : LengthUnit::real_lattice);
    size_t m = static_cast<size_t>(1 + sim::draw("npoints", 16));
    for (size_t i = 0; i < m; ++i) { size_t p = f->lone[r.below(f->lone.size())]; at.push_back(p); Q.push_back(mulv(tr3(f->z.group[r.below(f->z.group.size())]), f->verts[p]) + any_lattice(f->z, r, 3)); }
    x = std::make_unique<brille::lattice::LVec<double>>(laid(f->z, Q)); nth = draw_threads(); how = sim::draw("call", 4);
  }
  std::tuple<brille::Array<double>, brille::Array<cplx>> res;
  { sim::Phase ph("interpolate"); res = how == 3 ? f->grid->template ir_interpolate_at<false>(*x) : f->grid->template ir_interpolate_at<false>(*x, nth); }
  sim::Quiet quiet;
  if (sim::max_team_seen() > 1 && Q.size() > 1) sim::nontrivial();
  auto ws = std::get<1>(res).shape(); SIM_CHECK((ws == std::vector<ind_t>{static_cast<ind_t>(Q.size()), B, span}), "wrong-shape", "the result has the wrong shape");
  brille::Array2<cplx> w2(std::get<1>(res)); D9 F = cart ? D9{1, 0, 0, 0, 1, 0, 0, 0, 1} : inv3(tr3(f->A)), G = cart ? F : tr3(f->A);
  for (ind_t i = 0; i < Q.size(); ++i) {
    auto D = dynmat(*f, Q[i]); double worst = 0, big = 0; for (auto& y : D) big = std::max(big, std::abs(y));
    // the complex vectors of a branch are only defined up to one common phase, the matrices stored with them share it
    for (ind_t b = 0; b < B; ++b) {
      ind_t o = b * span + (both ? N : 0); std::vector<cplx> Y(N * N); cplx ov(0, 0);
      for (ind_t k = 0; k < n; ++k) for (ind_t l = 0; l < n; ++l) for (ind_t a = 0; a < 3; ++a) for (ind_t c = 0; c < 3; ++c) { cplx y(0, 0); for (ind_t s = 0; s < 3; ++s) for (ind_t t = 0; t < 3; ++t) y += G[3 * a + s] * w2.val(i, o + 9 * (k * n + l) + 3 * s + t) * F[3 * t + c]; Y[(3 * k + a) * N + 3 * l + c] = y; }
      for (ind_t a = 0; a < N * N; ++a) ov += Y[a] * std::conj(D[a]);
      cplx ph = std::abs(ov) > 0 ? ov / std::abs(ov) : cplx(1, 0); for (ind_t a = 0; a < N * N; ++a) worst = std::max(worst, std::abs(Y[a] - ph * scale[b] * D[a]) / big);
    }
    if (!(worst < 1e-6)) { std::ostringstream o; o << f->c->tag << (cart ? " (angstrom)" : " (lattice units)") << " Q " << str3(Q[i]) << " from the vertex " << str3(f->verts[at[i]]) << ": the rotated matrices are not the dynamical matrix at Q (difference " << worst << ")"; sim::violation("wrong-rotation", o.str()); }
  }
}
sim::Reg a("T03", "phonons", gamma, 2, warm);
sim::Reg b("T03", "phonon_matrices", matrices, 1, warm);
#endif
}
