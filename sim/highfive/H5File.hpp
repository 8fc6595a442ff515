// Stand-in for the subset of HighFive which brille uses, over the simulated disk (simdisk.hpp).
#pragma once
#include "../simdisk.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <iostream>
#include <sstream>
#include <numeric>
#include <complex>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <initializer_list>

namespace HighFive {

class Exception : public std::exception {
  std::string msg_;
public:
  explicit Exception(std::string m) : msg_(std::move(m)) {}
  const char* what() const noexcept override { return msg_.c_str(); }
};
struct ObjectException : Exception { using Exception::Exception; };
struct DataTypeException : Exception { using Exception::Exception; };
struct FileException : Exception { using Exception::Exception; };
struct DataSpaceException : Exception { using Exception::Exception; };
struct AttributeException : Exception { using Exception::Exception; };
struct DataSetException : Exception { using Exception::Exception; };
struct GroupException : Exception { using Exception::Exception; };

enum class ObjectType { File, Group, UserDataType, DataSpace, Dataset, Attribute, Other };

class DataType {
public:
  simdisk::TypeDesc desc;
  DataType() = default;
  explicit DataType(simdisk::TypeDesc d) : desc(std::move(d)) {}
};

template<class T> DataType create_datatype();

template<class T> simdisk::TypeDesc atomic_desc() {
  using simdisk::TC;
  simdisk::TypeDesc d; d.size = sizeof(T);
  if constexpr (std::is_same_v<T,bool>) d.cls = TC::Bool;
  else if constexpr (std::is_floating_point_v<T>) d.cls = TC::Float;
  else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) d.cls = TC::Int;
  else if constexpr (std::is_integral_v<T>) d.cls = TC::UInt;
  else if constexpr (std::is_same_v<T,std::complex<float>> || std::is_same_v<T,std::complex<double>>) d.cls = TC::Complex;
  else return create_datatype<T>().desc;
  return d;
}
template<class T> class AtomicType : public DataType { public: AtomicType() : DataType(atomic_desc<T>()) {} };
template<class T> class EnumType : public DataType {
public:
  struct member_def { member_def(std::string n, T v) : name(std::move(n)), value(v) {} std::string name; T value; };
  EnumType(std::initializer_list<member_def> l) {
    desc.cls = simdisk::TC::Enum; desc.size = sizeof(T);
    for (auto& m: l) desc.members += m.name + "=" + std::to_string(static_cast<long long>(m.value)) + ";";
  }
};
class CompoundType : public DataType {
public:
  struct member_def { member_def(std::string n, DataType t) : name(std::move(n)), base(std::move(t)) {} std::string name; DataType base; };
  CompoundType(std::initializer_list<member_def> l) {
    desc.cls = simdisk::TC::Compound; uint32_t off=0, al=1;
    for (auto& m: l) {
      uint32_t s = m.base.desc.size; if (s>al) al=s;
      off = (off + s - 1)/s*s; desc.members += m.name + ":" + std::to_string(static_cast<int>(m.base.desc.cls)) + "/" + std::to_string(s) + ";"; off += s;
    }
    desc.size = (off + al - 1)/al*al;
  }
};

class DataSpace {
public:
  std::vector<size_t> dims;
  DataSpace() = default;
  explicit DataSpace(std::vector<size_t> d) : dims(std::move(d)) {}
};

namespace detail {
using simdisk::Blob;
template<class T> struct is_vec : std::false_type {};
template<class T, class A> struct is_vec<std::vector<T,A>> : std::true_type {};
template<class T> struct is_arr : std::false_type {};
template<class T, size_t N> struct is_arr<std::array<T,N>> : std::true_type {};
template<class T> struct base { using type = T; static constexpr size_t rank=0; };
template<class T, class A> struct base<std::vector<T,A>> { using type = typename base<T>::type; static constexpr size_t rank = 1+base<T>::rank; };
template<class T, size_t N> struct base<std::array<T,N>> { using type = typename base<T>::type; static constexpr size_t rank = 1+base<T>::rank; };

template<class T> void shape_of(const T& x, std::vector<size_t>& dims) {
  if constexpr (is_vec<T>::value || is_arr<T>::value) {
    dims.push_back(x.size());
    using E = typename T::value_type;
    if constexpr (is_vec<E>::value || is_arr<E>::value) {
      if (x.size()) shape_of(x[0], dims); else for (size_t i=0;i<base<E>::rank;++i) dims.push_back(0);
    }
  }
}
template<class T> void put(const T& x, const std::vector<size_t>& dims, size_t lvl, std::vector<uint8_t>& out) {
  if constexpr (is_vec<T>::value || is_arr<T>::value) {
    if (x.size() != dims[lvl]) throw DataSpaceException("ragged data can not be stored in one dataset");
    for (const auto& y: x) put(y, dims, lvl+1, out);
  } else {
    static_assert(std::is_trivially_copyable_v<T>);
    size_t o = out.size(); out.resize(o+sizeof(T)); std::memcpy(out.data()+o, &x, sizeof(T));
  }
}
template<class T> Blob encode(const T& x) {
  Blob b; b.type = atomic_desc<typename base<T>::type>(); shape_of(x, b.dims); put(x, b.dims, 0, b.bytes);
  if (b.type.cls == simdisk::TC::Compound && b.type.size) {   // bytes between the members are not content
    std::vector<bool> used(b.type.size, false); size_t off = 0;
    for (size_t i = 0; (i = b.type.members.find('/', i)) != std::string::npos; ++i) { size_t s = std::stoul(b.type.members.substr(i + 1)); off = (off + s - 1) / s * s; for (size_t j = 0; j < s; ++j) used.at(off + j) = true; off += s; }
    for (size_t i = 0; i < b.bytes.size(); ++i) if (!used[i % b.type.size]) b.bytes[i] = 0;
  }
  return b;
}
template<class B> void check_type(const simdisk::TypeDesc& have) {
  auto want = atomic_desc<B>();
  if (have == want) return;
  auto num = [](simdisk::TC c){return c==simdisk::TC::Int||c==simdisk::TC::UInt||c==simdisk::TC::Float||c==simdisk::TC::Bool;};
  if (num(have.cls) && num(want.cls) && std::is_arithmetic_v<B>) return;
  throw DataTypeException("can not convert between the stored and requested data types");
}
template<class B> B convert(const simdisk::TypeDesc& t, const uint8_t* p) {
  if constexpr (std::is_arithmetic_v<B>) {
    auto want = atomic_desc<B>();
    if (!(t == want)) {
      using simdisk::TC;
      auto ld=[&](auto z){ std::memcpy(&z,p,sizeof z); return static_cast<B>(z); };
      if (t.cls==TC::Float) return t.size==4 ? ld(float{}) : ld(double{});
      if (t.cls==TC::Int) switch(t.size){case 1: return ld(int8_t{}); case 2: return ld(int16_t{}); case 4: return ld(int32_t{}); default: return ld(int64_t{});}
      switch(t.size){case 1: return ld(uint8_t{}); case 2: return ld(uint16_t{}); case 4: return ld(uint32_t{}); default: return ld(uint64_t{});}
    }
  }
  B z; std::memcpy(&z, p, sizeof z); return z;
}
template<class T> void get(T& x, const Blob& b, size_t lvl, size_t& pos) {
  if constexpr (is_vec<T>::value || is_arr<T>::value) {
    if constexpr (is_vec<T>::value) x.resize(b.dims[lvl]);
    else if (x.size() != b.dims[lvl]) throw DataSpaceException("stored extent does not fit a fixed size array");
    for (size_t i=0;i<x.size();++i) get(x[i], b, lvl+1, pos);
  } else {
    x = convert<T>(b.type, b.bytes.data()+pos); pos += b.type.size;
  }
}
template<class T> void decode(const Blob& b, T& x) {
  check_type<typename base<T>::type>(b.type);
  size_t rank = base<T>::rank;
  if (b.dims.size() != rank) {
    // HighFive permits scalars <-> single element spaces
    if (!(rank == 0 && b.count() == 1)) throw DataSpaceException("can not read a dataset of different rank");
  }
  size_t pos=0; get(x, b, 0, pos);
}
} // namespace detail

class Object {
public:
  simdisk::NodeP node;
  std::string file, path;
  Object() = default;
  Object(simdisk::NodeP n, std::string f, std::string p) : node(std::move(n)), file(std::move(f)), path(std::move(p)) {}
};

class Attribute : public Object {
public:
  std::string name;
  Attribute(simdisk::NodeP n, std::string f, std::string p, std::string a) : Object(std::move(n),std::move(f),std::move(p)), name(std::move(a)) {}
  template<class T> void read(T& x) const;
  std::vector<size_t> getDimensions() const { return node->attrs.at(name).dims; }
};

template<class Derived> class Annotate {
  Derived& self() { return static_cast<Derived&>(*this); }
  const Derived& self() const { return static_cast<const Derived&>(*this); }
public:
  template<class T> Attribute createAttribute(const std::string& name, const T& value) {
    using namespace simdisk;
    Blob b = detail::encode(value);
    auto& s = self();
    Act a = disk().before(Op::CreateAttr, s.file, s.path+"@"+name, b.bytes.size());
    if (a == Act::Error) throw AttributeException("Unable to create the attribute \""+name+"\"");
    if (s.node->attrs.count(name)) throw AttributeException("attribute exists \""+name+"\"");
    if (a == Act::ErrorTorn) std::fill(b.bytes.begin(), b.bytes.end(), uint8_t(0));
    s.node->attrs.emplace(name, std::move(b));
    disk().persist(s.file);
    if (a != Act::Ok) throw AttributeException("Error during HDF5 Write of attribute \""+name+"\"");
    return Attribute(s.node, s.file, s.path, name);
  }
  Attribute getAttribute(const std::string& name) const {
    using namespace simdisk;
    auto& s = self();
    Act a = disk().before(Op::OpenAttr, s.file, s.path+"@"+name, 0);
    if (a != Act::Ok || !s.node->attrs.count(name)) throw AttributeException("Unable to open the attribute \""+name+"\"");
    return Attribute(s.node, s.file, s.path, name);
  }
  bool hasAttribute(const std::string& name) const { return self().node->attrs.count(name) > 0; }
  std::vector<std::string> listAttributeNames() const { std::vector<std::string> o; for (auto& k: self().node->attrs) o.push_back(k.first); return o; }
  size_t getNumberAttributes() const { return self().node->attrs.size(); }
  void deleteAttribute(const std::string& name) { if (!self().node->attrs.erase(name)) throw AttributeException("no attribute "+name); }
};

class DataSet : public Object, public Annotate<DataSet> {
public:
  using Object::Object;
  std::vector<size_t> getDimensions() const { return node->data.dims; }
  size_t getElementCount() const { return node->data.count(); }
  DataSpace getSpace() const { return DataSpace(node->data.dims); }
  DataType getDataType() const { return DataType(node->data.type); }
  template<class T> void read(T& x) const {
    using namespace simdisk;
    Act a = disk().before(Op::ReadData, file, path, node->data.bytes.size());
    if (a != Act::Ok) throw DataSetException("Error during HDF5 Read of \""+path+"\"");
    detail::decode(node->data, x);
  }
  template<class T> void read(T* p) const {
    using namespace simdisk;
    Act a = disk().before(Op::ReadData, file, path, node->data.bytes.size());
    if (a != Act::Ok) throw DataSetException("Error during HDF5 Read of \""+path+"\"");
    using B = T;
    detail::check_type<B>(node->data.type);
    size_t n = node->data.count();
    for (size_t i=0;i<n;++i) p[i] = detail::convert<B>(node->data.type, node->data.bytes.data()+i*node->data.type.size);
  }
};

template<class T> void Attribute::read(T& x) const {
  using namespace simdisk;
  Act a = disk().before(Op::ReadAttr, file, path+"@"+name, 0);
  if (a != Act::Ok) throw AttributeException("Error during HDF5 Read of attribute \""+name+"\"");
  detail::decode(node->attrs.at(name), x);
}

class Group;
namespace detail {
// walk `rel` from `n`; the node or null
inline simdisk::NodeP walk(simdisk::NodeP n, const std::string& rel) {
  size_t i=0;
  while (i < rel.size() && n) {
    while (i<rel.size() && rel[i]=='/') ++i;
    if (i>=rel.size()) break;
    size_t j = rel.find('/', i); if (j==std::string::npos) j=rel.size();
    if (!n->is_group) return nullptr;
    auto it = n->kids.find(rel.substr(i,j-i));
    if (it==n->kids.end()) return nullptr;
    n = it->second; i=j;
  }
  return n;
}
// the parent node of `rel`, creating intermediate groups as HighFive does by default
inline std::pair<simdisk::NodeP,std::string> parent(simdisk::NodeP n, const std::string& rel, bool make) {
  size_t i=0; std::string last;
  std::vector<std::string> parts;
  while (i<rel.size()) { while (i<rel.size()&&rel[i]=='/') ++i; if (i>=rel.size()) break; size_t j=rel.find('/',i); if (j==std::string::npos) j=rel.size(); parts.push_back(rel.substr(i,j-i)); i=j; }
  if (parts.empty()) return {nullptr,""};
  for (size_t k=0;k+1<parts.size();++k) {
    if (!n->is_group) return {nullptr,""};
    auto it=n->kids.find(parts[k]);
    if (it==n->kids.end()) { if (!make) return {nullptr,""}; auto g=std::make_shared<simdisk::Node>(); n->kids.emplace(parts[k], g); n=g; }
    else n=it->second;
  }
  if (!n->is_group) return {nullptr,""};
  return {n, parts.back()};
}
}

template<class Derived> class NodeTraits {
  Derived& self() { return static_cast<Derived&>(*this); }
  const Derived& self() const { return static_cast<const Derived&>(*this); }
  std::string full(const std::string& n) const { return (!n.empty() && n[0]=='/') ? n : self().path + "/" + n; }
  simdisk::NodeP root_for(const std::string&) const { return self().node; }
public:
  bool exist(const std::string& name, bool=false) const {
    using namespace simdisk;
    auto& s=self();
    Act a = disk().before(Op::Exist, s.file, full(name), 0);
    if (a != Act::Ok) throw GroupException("Invalid link for exist(\""+name+"\")");
    return static_cast<bool>(detail::walk(s.node, name));
  }
  void unlink(const std::string& name) const {
    using namespace simdisk;
    auto& s=self();
    Act a = disk().before(Op::Unlink, s.file, full(name), 0);
    if (a == Act::Error || a == Act::ErrorTorn) throw GroupException("Invalid name for unlink() \""+name+"\"");
    auto [p, last] = detail::parent(s.node, name, false);
    if (!p || !p->kids.count(last)) throw GroupException("Invalid name for unlink() \""+name+"\"");
    p->kids.erase(last);
    disk().persist(s.file);
    if (a != Act::Ok) throw GroupException("Error during unlink() of \""+name+"\"");
  }
  Group createGroup(const std::string& name, bool parents=true);
  Group getGroup(const std::string& name) const;
  template<class T> DataSet createDataSet(const std::string& name, const T& value) {
    using namespace simdisk;
    auto& s=self();
    Blob b = detail::encode(value);
    Act a = disk().before(Op::CreateDataSet, s.file, full(name), b.bytes.size());
    if (a == Act::Error) throw DataSetException("Unable to create the dataset \""+name+"\"");
    auto [p,last] = detail::parent(s.node, name, true);
    if (!p || p->kids.count(last)) throw DataSetException("Unable to create the dataset \""+name+"\": name already exists");
    if (a == Act::ErrorTorn) std::fill(b.bytes.begin(), b.bytes.end(), uint8_t(0));
    auto n = std::make_shared<Node>(); n->is_group=false; n->data=std::move(b);
    p->kids.emplace(last, n);
    disk().persist(s.file);
    if (a != Act::Ok) throw DataSetException("Error during HDF5 Write of \""+name+"\"");
    return DataSet(n, s.file, full(name));
  }
  DataSet getDataSet(const std::string& name) const {
    using namespace simdisk;
    auto& s=self();
    Act a = disk().before(Op::OpenDataSet, s.file, full(name), 0);
    auto n = detail::walk(s.node, name);
    if (a != Act::Ok || !n || n->is_group) throw DataSetException("Unable to open the dataset \""+name+"\"");
    return DataSet(n, s.file, full(name));
  }
  ObjectType getObjectType(const std::string& name) const {
    auto n = detail::walk(self().node, name);
    if (!n) throw GroupException("Unable to obtain info for link \""+name+"\"");
    return n->is_group ? ObjectType::Group : ObjectType::Dataset;
  }
  std::vector<std::string> listObjectNames() const { std::vector<std::string> o; for (auto& k: self().node->kids) o.push_back(k.first); return o; }
  size_t getNumberObjects() const { return self().node->kids.size(); }
};

class Group : public Object, public NodeTraits<Group>, public Annotate<Group> {
public:
  using Object::Object;
};
template<class D> Group NodeTraits<D>::createGroup(const std::string& name, bool) {
  using namespace simdisk;
  auto& s=self();
  Act a = disk().before(Op::CreateGroup, s.file, full(name), 0);
  if (a == Act::Error || a == Act::ErrorTorn) throw GroupException("Unable to create the group \""+name+"\"");
  auto [p,last] = detail::parent(s.node, name, true);
  if (!p || p->kids.count(last)) throw GroupException("Unable to create the group \""+name+"\": name already exists");
  auto n = std::make_shared<Node>();
  p->kids.emplace(last, n);
  disk().persist(s.file);
  if (a != Act::Ok) throw GroupException("Error during creation of the group \""+name+"\"");
  return Group(n, s.file, full(name));
}
template<class D> Group NodeTraits<D>::getGroup(const std::string& name) const {
  using namespace simdisk;
  auto& s=self();
  Act a = disk().before(Op::OpenGroup, s.file, full(name), 0);
  auto n = detail::walk(s.node, name);
  if (a != Act::Ok || !n || !n->is_group) throw GroupException("Unable to open the group \""+name+"\"");
  return Group(n, s.file, full(name));
}

class File : public Object, public NodeTraits<File>, public Annotate<File> {
public:
  enum : unsigned { ReadOnly=0x00u, ReadWrite=0x01u, Truncate=0x02u, Excl=0x04u, Debug=0x08u, Create=0x10u, Overwrite=Truncate, OpenOrCreate=ReadWrite|Create };
  explicit File(const std::string& filename, unsigned flags=ReadOnly);
  File(const File&) = delete;
  File(File&& o) noexcept : Object(o) { o.node.reset(); }
  ~File();
  void flush() {}
  const std::string& getName() const { return file; }
  std::string getPath() const { return "/"; }
};

} // namespace HighFive
