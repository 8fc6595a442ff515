// parts: 3
// Loading with failing reads, failing allocations and incomplete entries.
#include "store.hpp"
using namespace fx;
namespace {
void collect(const NodeP& n, std::vector<std::pair<NodeP, std::string>>& out) { for (auto& k : n->kids) { out.emplace_back(n, k.first); collect(k.second, out); } for (auto& k : n->attrs) out.emplace_back(n, "@" + k.first); }
void load_faults() {
  sim::Quiet quiet; disk().reset(); sim::draw_omp_env();
  Rng r(sim::draw_seed("data")); auto o = draw_obj(r); std::string file = "one.h5", entry = "thing", where;
  SIM_CHECK(o->save(file, entry, F::OpenOrCreate), "save-failed", o->kind); auto base = simdisk::clone(tree(file));
  std::unique_ptr<Obj> back; auto load = [&] { back = o->load(file, entry); return true; };
  { auto l = attempt(load); SIM_CHECK(l.ok, "load-failed", l.what); back.reset(); }
  uint64_t kind = sim::draw("trouble", 4); Outcome out; std::string what = o->kind; sim::nontrivial();
  auto run = [&] { uint64_t mark = sim::heap_mark(); { sim::Phase ph("load with faults"); out = attempt(load); }
    if (!out.ok) { back.reset(); auto l = leak(mark); SIM_CHECK(l.empty(), "leak", "memory is lost when loading fails: " + l + ": " + what); } };
  if (kind == 0) {                                    // a read fails
    auto which = [](Op p) { return reads(p) || p == Op::Exist || p == Op::Open; };
    uint64_t n = count_ops([&] { load(); back.reset(); }, which), at = sim::draw("fault_at", n), seen = 0; bool fired = false; Op hit = Op::N;
    disk().hook = [&](const OpInfo& i) { if (!which(i.op) || seen++ != at) return Act::Ok; fired = true; hit = i.op; sim::fault_fired("read_error"); return Act::Error; };
    what += ", read error at operation " + std::to_string(at); run(); disk().hook = nullptr; what += std::string(" (") + simdisk::op_name(hit) + ")";
    if (fired && out.ok) { auto e = o->differs_from(*back); SIM_CHECK(e.empty(), "read-error-ignored", "a read error gives another object: " + e + ": " + what); sim::probe("read_error_tolerated"); }
    if (!fired) SIM_CHECK(out.ok, "load-failed", std::string(out.what) + ": " + what);
  } else if (kind == 1) {                             // an allocation fails
    uint64_t n; { sim::arm_alloc_fault(~0ull); { sim::Loud loud; load(); } n = sim::allocs_since_arm(); sim::disarm_alloc_fault(); back.reset(); }
    uint64_t at = 1 + sim::draw("fault_at", n ? n : 1), rep = sim::coin("lasting", 0.3) ? ~0ull : 1; what += ", allocation " + std::to_string(at) + " of " + std::to_string(n) + " fails";
    sim::arm_alloc_fault(at, rep); { sim::Phase ph("load with failing allocations"); out = attempt(load); } bool fired = sim::disarm_alloc_fault();
    if (!fired) { sim::probe("allocation_fault_not_reached"); return; } if (!out.ok) back.reset();
    if (out.ok) { auto e = o->differs_from(*back); SIM_CHECK(e.empty(), "allocation-failure-ignored", "a failing allocation gives another object: " + e + ": " + what); sim::probe("allocation_failure_tolerated"); }
  } else if (kind == 2) {                             // a part of the entry was never written
    std::vector<std::pair<NodeP, std::string>> parts; collect(node_at(tree(file), entry), parts);
    if (parts.empty()) return; auto& p = parts[sim::draw("lost", parts.size())]; if (p.second[0] == '@') p.first->attrs.erase(p.second.substr(1)); else p.first->kids.erase(p.second); sim::fault_fired("lost_write"); what += " without " + p.second; run();
    if (out.ok) { auto e = o->differs_from(*back); SIM_CHECK(e.empty(), "incomplete-entry-accepted", "an incomplete entry is loaded without complaint and differs: " + e + ": " + what); sim::probe("incomplete_entry_tolerated"); }
    disk().files[file] = simdisk::clone(base);
  } else {                                            // something else is stored there, or nothing
    auto other = draw_obj(r); std::string e2 = sim::coin("absent", 0.3) ? "absent" : "other"; if (e2 == "other") SIM_CHECK(other->save(file, e2, F::OpenOrCreate), "save-failed", other->kind); what += " from an entry holding " + (e2 == "absent" ? "nothing" : other->kind); auto b2 = simdisk::clone(tree(file));
    uint64_t mark = sim::heap_mark(); { sim::Phase ph("load something else"); out = attempt([&] { back = o->load(file, e2); return true; }); }
    if (!out.ok) { auto l = leak(mark); SIM_CHECK(l.empty(), "leak", "memory is lost when loading fails: " + l + ": " + what); sim::probe("other_class_refused"); }
    SIM_CHECK(!(out.ok && e2 == "absent"), "phantom-entry", what); SIM_CHECK(simdisk::same(b2, tree(file), &where), "load-writes", where + ": " + what); disk().files[file] = simdisk::clone(base);
  }
  SIM_CHECK(disk().open_count[file] == 0, "file-left-open", "the file is still open: " + what);
  SIM_CHECK(simdisk::same(base, tree(file), &where), "load-writes", "loading changed the file: " + where + ": " + what);
  back.reset(); { auto l = attempt(load); SIM_CHECK(l.ok, "later-load-failed", std::string(l.what) + ": " + what); } auto e = o->differs_from(*back); SIM_CHECK(e.empty(), "later-load-differs", e + ": " + what);
}
sim::Reg a("S05", NAME "_load_faults", load_faults, 1, warm_store);
}
