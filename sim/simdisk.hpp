// The simulated disk behind the HighFive stand-in: an in-memory tree per file, a journal of write
// operations, and a hook called before every storage operation through which the simulator injects faults.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>

namespace simdisk {

enum class TC : uint8_t { Int, UInt, Float, Complex, Enum, Compound, String, Bool, Opaque };
struct TypeDesc {
  TC cls{TC::Opaque};
  uint32_t size{0};
  std::string members;            // canonical text for enum/compound
  bool operator==(const TypeDesc& o) const { return cls==o.cls && size==o.size && members==o.members; }
};
struct Blob {
  TypeDesc type;
  std::vector<size_t> dims;
  std::vector<uint8_t> bytes;
  size_t count() const { size_t n=1; for (auto d: dims) n*=d; return n; }
  bool operator==(const Blob& o) const { return type==o.type && dims==o.dims && bytes==o.bytes; }
};
struct Node {
  bool is_group{true};
  std::map<std::string, std::shared_ptr<Node>> kids;
  std::map<std::string, Blob> attrs;
  Blob data;
};
using NodeP = std::shared_ptr<Node>;
NodeP clone(const NodeP&);
bool same(const NodeP& a, const NodeP& b, std::string* where=nullptr, const std::string& path="");
uint64_t hash_node(const NodeP&);
size_t count_nodes(const NodeP&);

enum class Op : uint8_t { Open, Close, CreateGroup, CreateDataSet, CreateAttr, Unlink, Exist, OpenGroup, OpenDataSet, OpenAttr, ReadData, ReadAttr, N };
const char* op_name(Op);
inline bool is_write(Op o){ return o==Op::CreateGroup || o==Op::CreateDataSet || o==Op::CreateAttr || o==Op::Unlink; }

// What the simulator tells the disk to do with one operation
enum class Act : uint8_t {
  Ok,
  Error,        // the operation fails and has no effect                    (EIO, ENOSPC, H5 library error)
  ErrorApplied, // the operation takes effect but reports failure
  ErrorTorn,    // dataset/attribute: the entry exists but its content is zero; the call fails
  Crash         // the process dies here: SimCrash unwinds to the harness, only durable state survives
};
struct SimCrash { uint64_t at; };   // deliberately not a std::exception

struct OpInfo { Op op; std::string file; std::string path; size_t bytes; uint64_t index; };

struct Disk {
  std::map<std::string, NodeP> files;        // what an open handle sees
  std::map<std::string, NodeP> durable;      // what survives a crash
  std::map<std::string, int> open_count;
  std::vector<std::string> unreadable;       // files which fail to open
  std::function<Act(const OpInfo&)> hook;
  uint64_t ops{0};
  uint64_t count[static_cast<size_t>(Op::N)]{};
  bool durable_per_op{true};                 // every write op durable at once (else only on close)
  bool crashed{false};                       // the process died: nothing it does afterwards reaches the disk
  Act before(Op op, const std::string& file, const std::string& path, size_t bytes);
  void reset();
  void persist(const std::string& file);
  void crash_restart();                      // drop everything volatile
};
Disk& disk();

} // namespace simdisk
