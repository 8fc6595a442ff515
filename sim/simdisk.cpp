#include "highfive/H5File.hpp"
#include <algorithm>
namespace simdisk {
Disk& disk(){ static Disk d; return d; }
const char* op_name(Op o){
  static const char* n[]={"open","close","create_group","create_dataset","create_attribute","unlink","exist","open_group","open_dataset","open_attribute","read_data","read_attribute"};
  return n[static_cast<size_t>(o)];
}
NodeP clone(const NodeP& n){
  if (!n) return n;
  auto o=std::make_shared<Node>(); o->is_group=n->is_group; o->attrs=n->attrs; o->data=n->data;
  for (auto& k: n->kids) o->kids.emplace(k.first, clone(k.second));
  return o;
}
bool same(const NodeP& a, const NodeP& b, std::string* where, const std::string& path){
  auto say=[&](const std::string& s){ if (where && where->empty()) *where = s; return false; };
  if (!a || !b) return (!a && !b) ? true : say(path+" missing");
  if (a->is_group != b->is_group) return say(path+" kind differs");
  if (!a->is_group && !(a->data==b->data)) return say(path+" content differs");
  for (auto& k: a->attrs) { auto it=b->attrs.find(k.first); if (it==b->attrs.end()) return say(path+"@"+k.first+" missing"); if (!(it->second==k.second)) return say(path+"@"+k.first+" differs"); }
  for (auto& k: b->attrs) if (!a->attrs.count(k.first)) return say(path+"@"+k.first+" extra");
  for (auto& k: b->kids) if (!a->kids.count(k.first)) return say(path+"/"+k.first+" extra");
  for (auto& k: a->kids) { auto it=b->kids.find(k.first); if (it==b->kids.end()) return say(path+"/"+k.first+" missing"); if (!same(k.second,it->second,where,path+"/"+k.first)) return false; }
  return true;
}
static void mix(uint64_t& h, const void* p, size_t n){ auto c=static_cast<const uint8_t*>(p); for(size_t i=0;i<n;++i){h^=c[i];h*=1099511628211ull;} }
static void hn(uint64_t& h, const NodeP& n){
  uint8_t g=n->is_group; mix(h,&g,1);
  auto blob=[&](const Blob& b){ mix(h,&b.type.cls,1); mix(h,b.dims.data(),b.dims.size()*sizeof(size_t)); mix(h,b.bytes.data(),b.bytes.size()); };
  if(!n->is_group) blob(n->data);
  for(auto&k:n->attrs){mix(h,k.first.data(),k.first.size());blob(k.second);}
  for(auto&k:n->kids){mix(h,k.first.data(),k.first.size());hn(h,k.second);}
}
uint64_t hash_node(const NodeP& n){ uint64_t h=1469598103934665603ull; if(n) hn(h,n); return h; }
size_t count_nodes(const NodeP& n){ if(!n) return 0; size_t c=1; for(auto&k:n->kids) c+=count_nodes(k.second); return c; }

Act Disk::before(Op op, const std::string& file, const std::string& path, size_t bytes){
  if (crashed) throw SimCrash{ops};
  ++ops; ++count[static_cast<size_t>(op)];
  if (!hook) return Act::Ok;
  Act a = hook(OpInfo{op,file,path,bytes,ops});
  if (a == Act::Crash) { crashed = true; throw SimCrash{ops}; }
  return a;
}
void Disk::reset(){ files.clear(); durable.clear(); open_count.clear(); unreadable.clear(); hook=nullptr; ops=0; for(auto&c:count)c=0; durable_per_op=true; crashed=false; }
void Disk::persist(const std::string& f){ if (durable_per_op) (void)f; }
void Disk::crash_restart(){
  if (!durable_per_op) { files.clear(); for (auto&k:durable) files.emplace(k.first, clone(k.second)); }
  open_count.clear(); hook=nullptr; crashed=false;
}
}
namespace HighFive {
File::File(const std::string& filename, unsigned flags){
  using namespace simdisk;
  auto& d=disk();
  file=filename; path="";
  Act a = d.before(Op::Open, filename, "", 0);
  if (a != Act::Ok) throw FileException("Unable to open file \""+filename+"\"");
  bool exists = d.files.count(filename)>0;
  if (std::find(d.unreadable.begin(), d.unreadable.end(), filename)!=d.unreadable.end() && !(flags & Truncate)) throw FileException("Unable to open file \""+filename+"\" (file signature not found)");
  if (flags & Truncate) { d.files[filename]=std::make_shared<Node>(); }
  else if ((flags & Excl)) { if (exists) throw FileException("Unable to create file \""+filename+"\""); d.files[filename]=std::make_shared<Node>(); }
  else if (!exists) { if (!(flags & Create)) throw FileException("Unable to open file \""+filename+"\""); d.files[filename]=std::make_shared<Node>(); }
  node=d.files[filename];
  ++d.open_count[filename];
}
File::~File(){
  if (!node) return;
  auto& d=simdisk::disk();
  auto it=d.open_count.find(file);
  if (it!=d.open_count.end() && it->second>0) --it->second;
  if (!d.durable_per_op && !d.crashed) d.durable[file]=simdisk::clone(node);
}
}
