// Objects which brille stores in HDF5 files, over the simulated disk: how to make, save, load and compare them.
// PART 0: zones, lattices and the small classes; 1: hybrid grids; 2: meshes.
#pragma once
#include "../simdisk.hpp"
#include "grid.hpp"
#include "permutation_table.hpp"
#include "interpolatordual.hpp"
#if PART == 1
#include "bz_trellis.hpp"
#define NAME "trellis"
#elif PART == 2
#include "bz_mesh.hpp"
#define NAME "mesh"
#else
#define NAME "zone"
#endif
namespace fx { namespace {  // each part is a translation unit with its own definitions
using simdisk::disk; using simdisk::Act; using simdisk::Op; using simdisk::OpInfo; using simdisk::NodeP;

template<class A> inline std::string differ_rows(const A& a, const A& b, const char* what, double tol) {
  if (a.shape() != b.shape()) return std::string(what) + " have another shape";
  for (ind_t i = 0; i < a.size(0); ++i) for (ind_t j = 0; j < a.size(1); ++j) { double d = std::abs(a.val(i, j) - b.val(i, j)); if (!(d <= tol * (1 + std::abs(a.val(i, j))))) { std::ostringstream o; o << std::setprecision(17) << what << " differ at (" << i << "," << j << "): " << a.val(i, j) << " and " << b.val(i, j); return o.str(); } }
  return "";
}
template<class V> inline std::string differ_stdvec(const V& a, const V& b, const char* what) { return a == b ? "" : std::string(what) + " differ"; }

// ---- what it means for two objects to be the same: the class's own comparison, then what a user can observe
inline std::string differs(const brille::Array2<double>& a, const brille::Array2<double>& b) { return differ_rows(a, b, "elements", 0); }
inline std::string differs(const brille::Array2<int>& a, const brille::Array2<int>& b) { return differ_rows(a, b, "elements", 0); }
inline std::string differs(const brille::Array2<cplx>& a, const brille::Array2<cplx>& b) { return differ_rows(a, b, "elements", 0); }
inline std::string differs(const brille::Motion<int, double>& a, const brille::Motion<int, double>& b) { if (a.getr() != b.getr()) return "matrix"; return a.gett() == b.gett() ? "" : "translation"; }
inline std::string differs(const brille::Symmetry& a, const brille::Symmetry& b) {
  if (a != b) return "spacegroup operations compare unequal";
  if (a.size() != b.size()) return "number of spacegroup operations";
  for (size_t i = 0; i < a.size(); ++i) { if (a.getr(i) != b.getr(i) || a.gett(i) != b.gett(i)) return "spacegroup operation " + std::to_string(i); }
  return "";
}
inline std::string differs(const brille::PointSymmetry& a, const brille::PointSymmetry& b) {
  if (a.size() != b.size()) return "number of pointgroup operations";
  std::multiset<std::array<int, 9>> x, y; for (size_t i = 0; i < a.size(); ++i) { x.insert(a.get(i)); y.insert(b.get(i)); }   // their order carries no meaning
  return x == y ? "" : "pointgroup operations";
}
inline std::string differs(const brille::Basis& a, const brille::Basis& b) { if (a.size() != b.size()) return "number of atoms"; if (a.positions() != b.positions()) return "atom positions"; return a.types() == b.types() ? "" : "atom types"; }
inline std::string differs(const brille::lattice::Lattice<double>& a, const brille::lattice::Lattice<double>& b) {
  if (a != b) return "lattices compare unequal";
  for (auto u : {brille::LengthUnit::angstrom, brille::LengthUnit::inverse_angstrom}) { if (a.vectors(u) != b.vectors(u)) return "lattice vectors"; if (a.metric(u) != b.metric(u)) return "metric"; }
  if (a.bravais() != b.bravais()) return "centring";
  auto e = differs(a.spacegroup_symmetry(), b.spacegroup_symmetry()); if (!e.empty()) return e;
  e = differs(a.pointgroup_symmetry(), b.pointgroup_symmetry()); if (!e.empty()) return e;
  return differs(a.basis(), b.basis());
}
template<class T> inline std::string differs(const brille::lattice::LVec<T>& a, const brille::lattice::LVec<T>& b) {
  if (a.type() != b.type()) return "length unit";
  auto e = differs(a.lattice(), b.lattice()); if (!e.empty()) return e;
  return differ_rows(static_cast<const brille::Array2<T>&>(a), static_cast<const brille::Array2<T>&>(b), "components", 0);
}
inline std::string differs(const brille::PermutationTable& a, const brille::PermutationTable& b) {
  if (a != b) return "permutation tables compare unequal";
  if (a.keys() != b.keys()) return "keys";
  for (size_t i = 0; i < 12; ++i) for (size_t j = 0; j < 12; ++j) { if (a.has(i, j) != b.has(i, j)) return "known pairs"; if (a.safe_get(i, j) != b.safe_get(i, j)) return "permutation"; }
  return "";
}
inline std::string differs(const brille::approx_float::Config& a, const brille::approx_float::Config& b) { return a.digit() == b.digit() && a.direct<double>() == b.direct<double>() && a.reciprocal<double>() == b.reciprocal<double>() ? "" : "tolerances"; }
template<class T> inline std::string differs(const brille::Interpolator<T>& a, const brille::Interpolator<T>& b) {
  if (a != b) return "interpolation data compare unequal";
  if (a.size() != b.size() || a.branches() != b.branches() || a.shape() != b.shape()) return "sizes of interpolation data";
  if (!a.size()) return "";
  ind_t B = a.branches(); std::vector<std::vector<ind_t>> perms; std::vector<std::pair<ind_t, double>> iw; std::vector<ind_t> id(B); for (ind_t i = 0; i < B; ++i) id[i] = i;
  for (ind_t i = 0; i < std::min<ind_t>(a.size(), 4); ++i) { iw.emplace_back(i, 0.1 + 0.2 * i); perms.push_back(id); }
  for (bool ph : {false, true}) { brille::Array2<T> x(1, B * a.branch_span(), T(0)), y(1, B * a.branch_span(), T(0)); a.interpolate_at(perms, iw, x, 0, ph); b.interpolate_at(perms, iw, y, 0, ph); auto e = differ_rows(x, y, "interpolated values", 0); if (!e.empty()) return e; }
  if (a.size() > 1) for (bool ph : {false, true}) { std::vector<double> x(B * B, 0), y(B * B, 0); a.add_cost(0, 1, x, ph); b.add_cost(0, 1, y, ph); for (size_t i = 0; i < x.size(); ++i) if (!(std::abs(x[i] - y[i]) <= 1e-12 * (1 + std::abs(x[i]))) && !(x[i] != x[i] && y[i] != y[i])) return "cost of pairing modes: " + std::to_string(x[i]) + " and " + std::to_string(y[i]); }
  return "";
}
template<class T, template<class> class A> inline std::string differs(const brille::polyhedron::Poly<T, A>& a, const brille::polyhedron::Poly<T, A>& b) {
  if (a != b) return "polyhedra compare unequal";
  auto e = differs(a.vertices(), b.vertices()); if (!e.empty()) return e;
  if (a.faces() != b.faces()) return "faces";
  return a.volume() == b.volume() ? "" : "volume";
}
inline std::vector<D3> generic_qs(Rng& r, size_t n) { std::vector<D3> q; for (size_t i = 0; i < n; ++i) q.push_back({3 * r.uni() - 1.5, 3 * r.uni() - 1.5, 3 * r.uni() - 1.5}); return q; }
inline brille::lattice::LVec<double> lvec_of(const brille::lattice::Lattice<double>& l, const std::vector<D3>& p) { brille::lattice::LVec<double> q(brille::LengthUnit::inverse_angstrom, l, static_cast<ind_t>(p.size())); for (ind_t i = 0; i < p.size(); ++i) for (ind_t j = 0; j < 3; ++j) q.val(i, j) = p[i][j]; return q; }
inline std::string differs(const brille::BrillouinZone& a, const brille::BrillouinZone& b) {
  if (a != b) return "zones compare unequal";
  auto e = differs(a.get_lattice(), b.get_lattice()); if (!e.empty()) return e;
  e = differs(a.get_polyhedron(), b.get_polyhedron()); if (!e.empty()) return "first zone: " + e;
  e = differs(a.get_ir_polyhedron(), b.get_ir_polyhedron()); if (!e.empty()) return "irreducible zone: " + e;
  e = differ_rows(a.get_ir_wedge_normals().hkl(), b.get_ir_wedge_normals().hkl(), "wedge normals", 0); if (!e.empty()) return e;
  e = differs(a.get_pointgroup_symmetry(), b.get_pointgroup_symmetry()); if (!e.empty()) return e;
  Rng r(7); auto p = generic_qs(r, 6); auto xa = lvec_of(a.get_lattice(), p), xb = lvec_of(b.get_lattice(), p);
  auto qa = xa, qb = xb; brille::lattice::LVec<int> ta(brille::LengthUnit::inverse_angstrom, a.get_lattice(), 6), tb(brille::LengthUnit::inverse_angstrom, b.get_lattice(), 6); std::vector<size_t> ra(6), rb(6), ia(6), ib(6);
  bool oa = a.ir_moveinto(xa, qa, ta, ra, ia, 1), ob = b.ir_moveinto(xb, qb, tb, rb, ib, 1);
  if (oa != ob) return "moving points succeeds for one only";
  e = differ_rows(qa.hkl(), qb.hkl(), "moved points", 1e-10); if (!e.empty()) return e;
  auto ga = a.get_pointgroup_symmetry(), gb = b.get_pointgroup_symmetry();
  for (int i = 0; i < 6; ++i) if (ga.get(ra[i]) != gb.get(rb[i]) || ga.get(ia[i]) != gb.get(ib[i])) return "operations of moved points";
  if (a.isinside(xa) != b.isinside(xb)) return "containment";
  if (a.isinside_wedge(xa) != b.isinside_wedge(xb)) return "containment in the wedge";
  return "";
}
#if PART > 0
template<class G> struct Elem;
#if PART == 1
template<class T, class R> using Gr = brille::BrillouinZoneTrellis3<T, R, double>;
template<class T, class R> inline std::vector<D3> grid_vertices(const Gr<T, R>& g) { return rows(g.get_hkl()); }
template<class T, class R> inline std::string differs_structure(const Gr<T, R>& a, const Gr<T, R>& b) {
  if (a != b) return "grids compare unequal";
  if (a.all_node_types() != b.all_node_types()) return "kinds of nodes";
  if (a.vertices_per_tetrahedron() != b.vertices_per_tetrahedron()) return "tetrahedra";
  if (a.total_node_volume() != b.total_node_volume()) return "node volume";
  return differs(a.approx_config(), b.approx_config());
}
#else
template<class T, class R> using Gr = brille::BrillouinZoneMesh3<T, R, double>;
template<class T, class R> inline std::vector<D3> grid_vertices(const Gr<T, R>& g) { return rows(g.get_mesh_hkl()); }
template<class T, class R> inline std::string differs_structure(const Gr<T, R>& a, const Gr<T, R>& b) {
  if (a.size() != b.size()) return "number of vertices";
  if (a.get_mesh_tetrehedra() != b.get_mesh_tetrehedra()) return "tetrahedra";
  return differs(a.approx_config(), b.approx_config());
}
#endif
template<class T, class R> inline std::string differs_results(const std::tuple<brille::Array<T>, brille::Array<R>>& a, const std::tuple<brille::Array<T>, brille::Array<R>>& b, const char* what) {
  auto sa = std::get<0>(a).shape(), sb = std::get<0>(b).shape(); if (sa != sb || std::get<1>(a).shape() != std::get<1>(b).shape()) return std::string("shape of ") + what;
  brille::Array2<T> va(std::get<0>(a)), vb(std::get<0>(b)); brille::Array2<R> wa(std::get<1>(a)), wb(std::get<1>(b));
  auto e = differ_rows(va, vb, "values", 1e-10); if (e.empty()) e = differ_rows(wa, wb, "vectors", 1e-10);
  return e.empty() ? "" : std::string(what) + ": " + e;
}
template<class T, class R> inline std::string differs(const Gr<T, R>& a, const Gr<T, R>& b) {
  auto e = differs_structure(a, b); if (!e.empty()) return e;
  auto va = grid_vertices(a), vb = grid_vertices(b); if (va != vb) return "grid vertices";
  if (a.data().values() != b.data().values()) return "stored values compare unequal"; if (a.data().vectors() != b.data().vectors()) return "stored vectors compare unequal";
  auto za = a.get_brillouinzone(), zb = b.get_brillouinzone(); e = differs(za, zb); if (!e.empty()) return e;
  if (!a.data().size() || !b.data().size()) return a.data().size() == b.data().size() ? "" : "one grid has no data";
  Rng r(11); auto iv = rows(za.get_ir_vertices().hkl()); std::vector<D3> p; for (int i = 0; i < 6; ++i) p.push_back(hull_point(iv, r, 0)); p.push_back(iv[0]);
  auto xa = lvec_of(za.get_lattice(), p), xb = lvec_of(zb.get_lattice(), p);
  e = differs_results(a.template ir_interpolate_at<true>(xa, 1), b.template ir_interpolate_at<true>(xb, 1), "interpolation"); if (!e.empty()) return e;
  auto q = generic_qs(r, 4); auto ya = lvec_of(za.get_lattice(), q), yb = lvec_of(zb.get_lattice(), q);
  std::string fa, fb; std::tuple<brille::Array<T>, brille::Array<R>> ra, rb;
  try { ra = a.template ir_interpolate_at<false>(ya, 1); } catch (std::exception& x) { fa = x.what(); }
  try { rb = b.template ir_interpolate_at<false>(yb, 1); } catch (std::exception& x) { fb = x.what(); }
  if (fa.empty() != fb.empty()) return "rotation is refused by one only: " + fa + fb;
  if (fa.empty()) { e = differs_results(ra, rb, "rotated interpolation"); if (!e.empty()) return e; }
  Gr<T, R> ca(a), cb(b); ca.sort(); cb.sort();
  return differs_results(ca.template ir_interpolate_at<true>(xa, 1), cb.template ir_interpolate_at<true>(xb, 1), "interpolation after sorting");
}
#endif

#if PART == 0
// functions which store lists and maps, behind the interface of a class
struct Lists { std::vector<std::vector<ind_t>> l;
  template<class H> std::enable_if_t<std::is_base_of_v<HighFive::Object, H>, bool> to_hdf(H& h, const std::string& e) const { return brille::lists_to_hdf(l, h, e); }
  bool to_hdf(const std::string& f, const std::string& e, unsigned perm) const { return brille::lists_to_hdf(l, f, e, perm); }
  template<class H> static std::enable_if_t<std::is_base_of_v<HighFive::Object, H>, Lists> from_hdf(H& h, const std::string& e) { return {brille::lists_from_hdf<ind_t>(h, e)}; }
  static Lists from_hdf(const std::string& f, const std::string& e) { return {brille::lists_from_hdf<ind_t>(f, e)}; } };
struct Map { std::map<size_t, double> m;
  template<class H> std::enable_if_t<std::is_base_of_v<HighFive::Object, H>, bool> to_hdf(H& h, const std::string& e) const { return brille::map_to_hdf(m, h, e); }
  template<class H> static std::enable_if_t<std::is_base_of_v<HighFive::Object, H>, Map> from_hdf(H& h, const std::string& e) { return {brille::map_from_hdf<size_t, double>(h, e)}; } };
inline std::string differs(const Lists& a, const Lists& b) { return a.l == b.l ? "" : "lists"; }
inline std::string differs(const Map& a, const Map& b) { return a.m == b.m ? "" : "map"; }
inline std::string differs(const brille::polyhedron::Faces& a, const brille::polyhedron::Faces& b) { return a.faces() != b.faces() ? "faces" : a != b ? "faces compare unequal" : ""; }
template<class T, class R> inline std::string differs(const brille::DualInterpolator<T, R>& a, const brille::DualInterpolator<T, R>& b) {
  if (a != b) return "data compare unequal";
  auto e = differs(a.values(), b.values()); if (e.empty()) e = differs(a.vectors(), b.vectors()); if (!e.empty() || !a.size()) return e;
  std::vector<std::pair<ind_t, double>> iw; double left = 1; for (ind_t i = 0; i < std::min<ind_t>(a.size(), 4); ++i) { iw.emplace_back(a.size() - 1 - i, left / 3); left -= left / 3; }
  ind_t B = a.branches(); brille::Array2<T> v(1, B * a.values().branch_span(), T(0)), w(v.shape(), T(0)); brille::Array2<R> x(1, B * a.vectors().branch_span(), R(0)), y(x.shape(), R(0));
  a.interpolate_at(iw, v, x, 0); b.interpolate_at(iw, w, y, 0); e = differ_rows(v, w, "interpolated values", 0); return e.empty() ? differ_rows(x, y, "interpolated vectors", 0) : e;
}
#endif

// ---- objects behind one interface
struct Obj {
  std::string kind; virtual ~Obj() = default;
  virtual bool save(const std::string& file, const std::string& entry, unsigned perm) const = 0;    // opens the file itself
  virtual bool save_at(HighFive::Group& g, const std::string& entry) const = 0;
  virtual std::unique_ptr<Obj> load(const std::string& file, const std::string& entry) const = 0;
  virtual std::unique_ptr<Obj> load_at(HighFive::Group& g, const std::string& entry) const = 0;
  virtual std::string differs_from(const Obj&) const = 0;
  virtual std::unique_ptr<Obj> copy() const = 0;
};
template<class T, class = void> struct file_api : std::false_type {};
template<class T> struct file_api<T, std::void_t<decltype(T::from_hdf(std::declval<const std::string&>(), std::declval<const std::string&>())), decltype(std::declval<const T&>().to_hdf(std::declval<const std::string&>(), std::declval<const std::string&>(), 0u))>> : std::true_type {};
template<> struct file_api<brille::lattice::Lattice<double>, void> : std::false_type {};
template<class T, class V = T> struct Box : Obj {    // V: T, or a reference to an object which may not be copied
  V v; Box(std::string k, V x) : v(std::forward<V>(x)) { kind = std::move(k); }
  bool save(const std::string& f, const std::string& e, unsigned perm) const override { if constexpr (file_api<T>::value) return v.to_hdf(f, e, perm); else { HighFive::File file(f, perm); return to(v, file, e); } }
  bool save_at(HighFive::Group& g, const std::string& e) const override { return to(v, g, e); }
  std::unique_ptr<Obj> load(const std::string& f, const std::string& e) const override { if constexpr (file_api<T>::value) return std::make_unique<Box<T>>(kind, T::from_hdf(f, e)); else { HighFive::File file(f, HighFive::File::ReadOnly); return std::make_unique<Box<T>>(kind, from(file, e)); } }
  std::unique_ptr<Obj> load_at(HighFive::Group& g, const std::string& e) const override { return std::make_unique<Box<T>>(kind, from(g, e)); }
  template<class H> static bool to(const T& v, H& h, const std::string& e) { if constexpr (std::is_same_v<T, brille::lattice::Lattice<double>>) { if constexpr (std::is_same_v<H, HighFive::File>) { return v.to_hdf(h.getGroup("/"), e); } else return v.to_hdf(h, e); } else return v.to_hdf(h, e); }
  template<class H> static T from(H& h, const std::string& e) { if constexpr (std::is_same_v<T, brille::lattice::Lattice<double>>) { if constexpr (std::is_same_v<H, HighFive::File>) return T::from_hdf(h.getGroup("/"), e); else return T::from_hdf(h, e); } else return T::from_hdf(h, e); }
  std::string differs_from(const Obj& o) const override { auto b = dynamic_cast<const Box<T>*>(&o); return b ? differs(v, b->v) : "another class"; }
  std::unique_ptr<Obj> copy() const override { return std::make_unique<Box<T>>(kind, v); }
};
template<class T> inline std::unique_ptr<Obj> box(std::string k, T x) { return std::make_unique<Box<T>>(std::move(k), std::move(x)); }

template<class T> inline brille::Array2<T> random_array(Rng& r, ind_t a, ind_t b) { brille::Array2<T> x(a, b); for (ind_t i = 0; i < a; ++i) for (ind_t j = 0; j < b; ++j) x.val(i, j) = mk<T>(r.below(20) ? std::floor(1000 * (r.uni() - 0.5)) / (r.below(3) ? 1 : 7.0) : 0.0, 3 * r.uni() - 1); return x; }
template<class T> inline brille::Array2<T> draw_array(Rng& r) {
  ind_t a = static_cast<ind_t>(sim::draw("rows", 7)), b = static_cast<ind_t>(sim::draw("columns", 5)); auto x = random_array<T>(r, a, b);
  switch (sim::draw("array_view", 6)) {             // views of shared memory are stored as what they show
    case 1: { brille::Array2<T> big = random_array<T>(r, a + 3, b); return big.view(1, a + 1); }
    case 2: { brille::Array2<T> t = random_array<T>(r, a + 2, b); return t.view(2, a + 2); }
    case 3: { brille::Array2<T> t(typename brille::Array2<T>::shape_t{{a, b}}, typename brille::Array2<T>::shape_t{{1, a}}); for (ind_t i = 0; i < a; ++i) for (ind_t j = 0; j < b; ++j) t.val(i, j) = x.val(i, j); return t; }   // columns first
    case 4: { ind_t n = (a + 1) * (3 * b + 1); brille::Array2<T> t(new T[n](), n, true, typename brille::Array2<T>::shape_t{{a, b}}, typename brille::Array2<T>::shape_t{{3 * b + 1, 2}}); for (ind_t i = 0; i < a; ++i) for (ind_t j = 0; j < b; ++j) t.val(i, j) = x.val(i, j); return t; }   // every second column
    default: return x;
  }
}
// PART 0's zones and PART 1, 2's grids
#if PART > 0
struct Spec { size_t zone; double vol; int levels; };
const Spec specs[] = {{25, 1.1, 1}, {0, 0.6, 1}, {24, 0.5, 2}, {6, 0.6, 1}};
constexpr size_t NS = sizeof specs / sizeof *specs;
template<class T, class R> inline std::unique_ptr<Gr<T, R>> build(const brille::BrillouinZone& bz, double vol, int levels) {
  double v = vol * bz.get_ir_polyhedron().volume();
#if PART == 1
  return std::make_unique<Gr<T, R>>(bz, v, levels == 2);
#else
  return std::make_unique<Gr<T, R>>(bz, v, levels, 100);
#endif
}
template<class T, class R> struct GF { std::unique_ptr<Gr<T, R>> grid; std::vector<D3> verts; ind_t atoms; };
template<class T, class R> inline GF<T, R>* grid_fixes() { static GF<T, R> f[NS + 1]; return f; }
template<class T, class R> inline void warm_grid() {
  for (size_t i = 0; i < NS; ++i) { auto& f = grid_fixes<T, R>()[i]; auto keep = brille::approx_float::config; if (i == 1) brille::approx_float::config = brille::approx_float::Config(2000, 2e-12, 3e-12); struct Back { decltype(keep)& k; ~Back() { brille::approx_float::config = k; } } put_back{keep}; f.grid = build<T, R>(*zone(specs[i].zone).bz, specs[i].vol, specs[i].levels); f.verts = grid_vertices<T, R>(*f.grid); f.atoms = 0; }
  auto& f = grid_fixes<T, R>()[NS]; std::vector<std::array<double, 3>> pos{{0.13, 0.21, 0.37}, {-0.13, -0.21, -0.37}, {0, 0, 0}}; std::vector<ind_t> typ{0, 0, 1};
  brille::BrillouinZoneConfig cfg; auto lat = brille::lattice::Direct<double>(D3{3, 4, 5}, D3{80, 95, 105}, "P-1", brille::Basis(pos, typ));
  brille::BrillouinZone bz(lat, cfg); f.grid = build<T, R>(bz, 0.8, 1); f.verts = grid_vertices<T, R>(*f.grid); f.atoms = 3;
}
template<class T> inline std::tuple<brille::Array<T>, std::array<ind_t, 3>> random_data(Rng& r, size_t n, int kind, ind_t B, ind_t k, bool offset) { std::vector<D3> pts; for (size_t i = 0; i < n; ++i) pts.push_back({r.uni(), r.uni(), r.uni()}); Field<T> f(shape_of(kind, B, k), r, offset, 1.0); return {f.fill(pts, r), f.sh.el}; }
template<class T, class R> inline std::unique_ptr<Obj> draw_grid(Rng& r, const char* name) {
  auto& f = grid_fixes<T, R>()[sim::draw("grid", NS + 1)]; if (sim::coin("as_built", 0.15)) return std::make_unique<Box<Gr<T, R>, const Gr<T, R>&>>(name, *f.grid);   // not a copy
  Gr<T, R> g(*f.grid); size_t n = f.verts.size();
  if (!sim::coin("no_data", 0.1)) {
    ind_t B = static_cast<ind_t>(1 + sim::draw("branches", 3)), k = static_cast<ind_t>(1 + sim::draw("elements", 2)); int kv = static_cast<int>(1 + sim::draw("value_kind", 5)), kw = static_cast<int>(1 + sim::draw("vector_kind", 5));
    auto like = [&](const char* t, brille::RotatesLike& rl, brille::LengthUnit& lu) { switch (sim::draw(t, 3)) { case 0: rl = brille::RotatesLike::vector; lu = brille::LengthUnit::real_lattice; break; case 1: rl = brille::RotatesLike::pseudovector; lu = brille::LengthUnit::real_lattice; break; default: rl = brille::RotatesLike::vector; lu = brille::LengthUnit::reciprocal_lattice; } };
    brille::RotatesLike rl; brille::LengthUnit lu;
    auto [av, ev] = random_data<T>(r, n, kv, B, k, false); like("value_rule", rl, lu); g.replace_value_data(av, ev, rl, lu);
    if (is_cplx<R>::v && f.atoms && sim::coin("eigenvectors", 0.6)) { auto [aw, ew] = random_data<R>(r, n, 3, B, f.atoms, false); g.replace_vector_data(aw, ew, brille::RotatesLike::Gamma, sim::coin("angstrom", 0.5) ? brille::LengthUnit::angstrom : brille::LengthUnit::real_lattice); sim::probe("eigenvectors_stored"); }
    else if (!sim::coin("values_only", 0.1)) { auto [aw, ew] = random_data<R>(r, n, kw, B, k, true); like("vector_rule", rl, lu); g.replace_vector_data(aw, ew, rl, lu); }
    if (sim::coin("costs", 0.5)) { g.set_value_cost_info(static_cast<int>(sim::draw("scalar_cost", 2)), static_cast<int>(sim::draw("vector_cost", 5)), std::array<double, 3>{0.5, 2, 1}); g.set_vector_cost_info(0, static_cast<int>(sim::draw("vector_cost", 5)), std::array<double, 3>{1, 0.25, 3}); }
    if (sim::coin("sorted", 0.5)) g.sort();
  }
  return box(name, std::move(g));
}
inline std::unique_ptr<Obj> draw_obj(Rng& r) {
  switch (sim::draw("object", 4)) {
    case 0: return draw_grid<double, cplx>(r, NAME "_real_complex");
    case 1: return draw_grid<double, double>(r, NAME "_real_real");
    case 2: return draw_grid<cplx, cplx>(r, NAME "_complex_complex");
    default: return box("array_double", draw_array<double>(r));
  }
}
inline void warm_store() { warm_grid<double, cplx>(); warm_grid<double, double>(); warm_grid<cplx, cplx>(); }
#else
inline const size_t* store_zones() { static const size_t z[] = {0, 3, 5, 6, 8, 12, 16, 18, 22, 23, 24, 25}; return z; }
inline void warm_store() { for (size_t i = 0; i < 12; ++i) zone(store_zones()[i]); }
inline brille::lattice::Lattice<double> draw_lattice(Rng& r) {
  auto& z = zone(store_zones()[sim::draw("zone", 12)]); auto l = z.bz->get_lattice();
  if (sim::coin("with_atoms", 0.5)) {               // whole orbits of one or two random sites
    auto ops = l.spacegroup_symmetry(); std::vector<std::array<double, 3>> pos; std::vector<ind_t> typ; size_t sites = 1 + r.below(2);
    for (size_t s = 0; s < sites; ++s) { D3 x{r.uni(), r.uni(), r.uni()}; if (r.below(4) == 0) x = {0, 0, 0}; std::vector<D3> orbit; for (size_t i = 0; i < ops.size(); ++i) { auto R = ops.getr(i); auto t = ops.gett(i); D3 y; for (int j = 0; j < 3; ++j) { y[j] = t[j]; for (int m = 0; m < 3; ++m) y[j] += R[3 * j + m] * x[m]; y[j] -= std::floor(y[j] + 1e-9); } bool is = false; for (auto& o : orbit) { double d = 0; for (int j = 0; j < 3; ++j) { double e = o[j] - y[j]; e -= std::round(e); d = std::max(d, std::abs(e)); } if (d < 1e-6) is = true; } if (!is) orbit.push_back(y); } for (auto& o : orbit) { pos.push_back(o); typ.push_back(static_cast<ind_t>(s)); } }
    return brille::lattice::Direct<double>(z.def->len, z.def->ang, z.def->sg, brille::Basis(pos, typ));
  }
  return sim::coin("primitive", 0.2) ? l.primitive() : l;
}
inline std::unique_ptr<Obj> draw_obj(Rng& r) {
  switch (sim::draw("object", 21)) {
    case 0: return box("array_double", draw_array<double>(r));
    case 1: return box("array_int", draw_array<int>(r));
    case 2: return box("array_complex", draw_array<cplx>(r));
    case 3: { auto l = draw_lattice(r); return box("vectors_double", brille::lattice::LVec<double>(sim::coin("direct", 0.5) ? brille::LengthUnit::angstrom : brille::LengthUnit::inverse_angstrom, l, random_array<double>(r, static_cast<ind_t>(sim::draw("rows", 5)), 3))); }
    case 4: { auto l = draw_lattice(r); return box("vectors_int", brille::lattice::LVec<int>(brille::LengthUnit::inverse_angstrom, l, random_array<int>(r, static_cast<ind_t>(sim::draw("rows", 5)), 3))); }
    case 5: return box("lattice", draw_lattice(r));
    case 6: { std::vector<std::array<double, 3>> pos; std::vector<ind_t> typ; size_t n = static_cast<size_t>(sim::draw("atoms", 6)); for (size_t i = 0; i < n; ++i) { pos.push_back({r.uni(), r.uni() - 0.5, r.uni()}); typ.push_back(static_cast<ind_t>(r.below(3))); } return box("basis", brille::Basis(pos, typ)); }
    case 7: return box("symmetry", draw_lattice(r).spacegroup_symmetry());
    case 8: return box("pointsymmetry", draw_lattice(r).pointgroup_symmetry());
    case 9: { auto s = draw_lattice(r).spacegroup_symmetry(); size_t i = r.below(s.size()); return box("motion", brille::Motion<int, double>(s.getr(i), std::array<double, 3>{r.uni(), 0.5, 1.0 / 3})); }
    case 10: {
      size_t n = static_cast<size_t>(2 + r.below(10)), b = static_cast<size_t>(1 + r.below(4)); std::set<size_t> k; for (int i = 0; i < 12; ++i) { size_t a = r.below(n), c = r.below(n); if (a != c) { k.insert(a * n + c); k.insert(c * n + a); } }
      brille::PermutationTable t(n, b, k); std::vector<ind_t> p(b); for (size_t i = 0; i < b; ++i) p[i] = static_cast<ind_t>(i);
      for (auto key : k) if (r.below(3)) { for (size_t j = b; j > 1; --j) std::swap(p[j - 1], p[r.below(j)]); t.overwrite(key / n, key % n, p); }
      return box("permutations", t);
    }
    case 11: case 12: {
      auto like = static_cast<brille::RotatesLike>(r.below(3)); auto unit = sim::coin("reciprocal", 0.5) ? brille::LengthUnit::reciprocal_lattice : brille::LengthUnit::real_lattice; ind_t n = static_cast<ind_t>(sim::draw("vertices", 5)); int kind = static_cast<int>(sim::draw("data_kind", 6)); ind_t B = static_cast<ind_t>(1 + r.below(3)), k = static_cast<ind_t>(1 + r.below(2));
      auto make = [&](auto zero) { using T = decltype(zero); std::vector<D3> pts; for (ind_t i = 0; i < n; ++i) pts.push_back({r.uni(), r.uni(), r.uni()}); Field<T> f(shape_of(kind, B, k), r, false, 1.0); brille::Interpolator<T> in; if (n) { auto a = f.fill(pts, r); in.replace_data(a, f.sh.el, like, unit); } if (sim::coin("costs", 0.6)) in.set_cost_info(static_cast<int>(sim::draw("scalar_cost", 2)), static_cast<int>(sim::draw("vector_cost", 5)), std::array<double, 3>{0.5, 3, 1}); return in; };
      if (sim::coin("complex", 0.5)) return box("data_complex", make(cplx())); return box("data_double", make(double()));
    }
    case 13: return box("tolerances", brille::approx_float::Config(static_cast<int>(r.below(2000)), r.uni(), 1e-9 * r.uni()));
    case 14: { auto& z = zone(store_zones()[sim::draw("zone", 12)]); return sim::coin("irreducible", 0.5) ? box("polyhedron", z.bz->get_ir_polyhedron()) : box("polyhedron", z.bz->get_polyhedron()); }
    case 15: { Lists l; l.l.resize(sim::draw("lists", 6)); for (auto& x : l.l) for (size_t i = 0, n = 1 + r.below(5); i < n; ++i) x.push_back(static_cast<ind_t>(r.below(100))); return box("lists", l); }
    case 16: { Map m; for (size_t i = 0, n = sim::draw("map_size", 8); i < n; ++i) m.m[r.below(50)] = r.uni(); return box("map", m); }
    case 17: { auto& z = zone(store_zones()[sim::draw("zone", 12)]); auto p = z.bz->get_ir_polyhedron(); if (sim::coin("faces", 0.5)) return box("faces", p.faces()); return box("cartesian_polyhedron", brille::polyhedron::Poly<double, brille::bArray>(p.vertices().xyz(), p.faces())); }
    case 18: {                                       // values, vectors and some known permutations of their modes
      using D = brille::DualInterpolator<double, cplx>; ind_t n = static_cast<ind_t>(1 + sim::draw("vertices", 6)), B = static_cast<ind_t>(1 + r.below(4)), k = static_cast<ind_t>(1 + r.below(2)); std::vector<D3> pts; for (ind_t i = 0; i < n; ++i) pts.push_back({r.uni(), r.uni(), r.uni()});
      Field<double> fv(shape_of(sim::coin("scalar_values", 0.7) ? 1 : 2, B, k), r, false, 1.0); Field<cplx> fw(shape_of(static_cast<int>(2 + sim::draw("data_kind", 3)), B, k), r, false, 1.0); auto av = fv.fill(pts, r); auto aw = fw.fill(pts, r);
      brille::Interpolator<double> v; brille::Interpolator<cplx> w; v.replace_data(av, fv.sh.el, brille::RotatesLike::vector, brille::LengthUnit::real_lattice); w.replace_data(aw, fw.sh.el, static_cast<brille::RotatesLike>(r.below(3)), brille::LengthUnit::real_lattice);
      if (sim::coin("costs", 0.6)) { v.set_cost_info(static_cast<int>(sim::draw("scalar_cost", 2)), 0, std::array<double, 3>{1, 2, 3}); w.set_cost_info(0, static_cast<int>(sim::draw("vector_cost", 5)), std::array<double, 3>{0.5, 3, 1}); }
      std::set<size_t> keys; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (r.below(3)) { keys.insert(i * n + j); keys.insert(j * n + i); }
      brille::PermutationTable t(n, B, keys); std::vector<ind_t> p(B); for (ind_t i = 0; i < B; ++i) p[i] = i; for (auto key : keys) if (r.below(2)) { for (size_t j = B; j > 1; --j) std::swap(p[j - 1], p[r.below(j)]); t.overwrite(key / n, key % n, p); }
      return box("paired_data", D(std::move(v), std::move(w), std::move(t)));
    }
    default: return box("zone", brille::BrillouinZone(*zone(store_zones()[sim::draw("zone", 12)]).bz));
  }
}
#endif

// ---- files, faults and outcomes
using F = HighFive::File;
inline NodeP tree(const std::string& file) { auto it = disk().files.find(file); return it == disk().files.end() ? NodeP() : it->second; }
inline NodeP node_at(NodeP n, const std::string& entry) { return n ? HighFive::detail::walk(n, entry) : n; }
inline bool stores(Op o) { return simdisk::is_write(o); }
inline bool reads(Op o) { return o == Op::OpenGroup || o == Op::OpenDataSet || o == Op::OpenAttr || o == Op::ReadData || o == Op::ReadAttr; }
// number of operations which `what` performs, on a copy of the disk
inline uint64_t count_ops(const std::function<void()>& what, const std::function<bool(Op)>& which) {
  auto& d = disk(); auto keep = d; d.files.clear(); for (auto& k : keep.files) d.files.emplace(k.first, simdisk::clone(k.second)); d.durable.clear(); for (auto& k : keep.durable) d.durable.emplace(k.first, simdisk::clone(k.second));
  uint64_t n = 0; d.hook = [&](const OpInfo& i) { if (which(i.op)) ++n; return Act::Ok; };
  what(); d = keep; return n;
}
struct Outcome { bool threw{false}, crashed{false}, ok{false}; char what[200]{}; };   // holds no heap memory
inline Outcome attempt(const std::function<bool()>& f) {
  Outcome o; try { sim::Loud loud; o.ok = f(); } catch (simdisk::SimCrash&) { o.crashed = true; } catch (std::exception& e) { o.threw = true; std::snprintf(o.what, sizeof o.what, "%s", e.what()); } catch (...) { sim::violation("foreign-exception", "something which is not a std::exception was thrown"); }
  return o;
}
inline std::string leak(uint64_t mark) { std::string where; auto n = sim::heap_live_since(mark, &where); return n ? std::to_string(n) + " blocks, " + where : ""; }
// small things which share files with what is being saved
inline std::unique_ptr<Obj> small_obj(Rng& r) {
  switch (r.below(3)) {
    case 0: return box("array_double", random_array<double>(r, 1 + static_cast<ind_t>(r.below(5)), 1 + static_cast<ind_t>(r.below(3))));
    case 1: return box("array_complex", random_array<cplx>(r, static_cast<ind_t>(r.below(4)), 2));
    default: { std::vector<std::array<double, 3>> pos{{r.uni(), r.uni(), 0.5}, {0, 0, 0}}; std::vector<ind_t> typ{0, 1}; return box("basis", brille::Basis(pos, typ)); }
  }
}
}} // namespace fx
