// parts: 3
// Saving while the storage refuses operations: the failure is reported, nothing else is touched, trying again succeeds.
#include "store.hpp"
using namespace fx;
namespace {
void write_faults() {
  sim::Quiet quiet; disk().reset(); sim::draw_omp_env();
  Rng r(sim::draw_seed("data")); auto o = draw_obj(r); std::string file = "one.h5", entry = "thing";
  std::map<std::string, std::unique_ptr<Obj>> others;
  uint64_t no = sim::draw("others", 3); for (uint64_t i = 0; i < no; ++i) { std::string n = i ? "group/other" : "other"; auto x = small_obj(r); if (!x->save(file, n, F::OpenOrCreate)) sim::violation("save-failed", "preparation"); others[n] = std::move(x); }
  std::unique_ptr<Obj> old; uint64_t before = sim::draw("previous", 3);
  if (before == 1) old = small_obj(r); else if (before == 2) old = draw_obj(r);
  if (old) SIM_CHECK(old->save(file, entry, F::OpenOrCreate), "save-failed", old->kind + " was not saved");
  if (!disk().files.count(file)) { F f(file, F::OpenOrCreate); }
  auto base = simdisk::clone(tree(file)); auto save = [&] { return o->save(file, entry, F::OpenOrCreate); };
  // what a healthy disk would hold
  SIM_CHECK(save(), "save-failed", o->kind + " was not saved"); auto clean = simdisk::clone(tree(file)); disk().files[file] = simdisk::clone(base);
  auto which = [](Op p) { return stores(p) || p == Op::Exist || p == Op::Open; };
  uint64_t n = count_ops([&] { save(); }, which);
  bool lasting = sim::coin("lasting", 0.4); uint64_t at = sim::draw("fault_at", n), left = lasting ? ~0ull : 1 + sim::draw("repeat", 2); auto act = lasting ? Act::Error : std::array<Act, 3>{Act::Error, Act::ErrorApplied, Act::ErrorTorn}[sim::draw("fault", 3)];
  uint64_t seen = 0, fired = 0; Op hit = Op::N; bool torn = false;
  std::function<Act(const OpInfo&)> hook = [&](const OpInfo& i) {
    if (!which(i.op)) return Act::Ok;
    if (seen++ < at || !left) return Act::Ok;
    if (lasting && (i.op == Op::Unlink || i.op == Op::Exist || i.op == Op::Open) && seen - 1 > at) return Act::Ok;   // a full disk can still be read and freed
    if (!fired) hit = i.op;
    --left; ++fired; sim::fault_fired(lasting ? "disk_full" : act == Act::Error ? "write_error" : act == Act::ErrorTorn ? "torn_write" : "write_error_after_effect");
    if (act == Act::ErrorTorn) torn = true; return act; };
  disk().hook = hook;
  Outcome out; { sim::Phase ph("save with faults"); out = attempt(save); }
  disk().hook = nullptr; sim::nontrivial(); sim::probe(("faulted_" + std::string(simdisk::op_name(hit))).c_str());
  std::string what = o->kind + ", fault at operation " + std::to_string(at) + " (" + simdisk::op_name(hit) + ")", where;
  SIM_CHECK(disk().open_count[file] == 0, "file-left-open", "the file is still open after a failed save: " + what);
  if (fired && !out.threw && out.ok) SIM_CHECK(simdisk::same(clean, tree(file), &where), "silent-failure", "saving reported success but the file is not complete: " + where + ": " + what);
  if (!fired) SIM_CHECK(out.ok, "save-failed", what);
  auto now = tree(file); for (auto& k : others) SIM_CHECK(simdisk::same(node_at(base, k.first), node_at(now, k.first), &where), "other-entry-changed", k.first + where + ": " + what);
  if (out.threw || !out.ok) { sim::probe("save_refused");
    auto part = node_at(now, entry); sim::state_seen(simdisk::hash_node(part));
    // what is left is refused or is what was, or was to be, stored; content which was lost on the way can not be told
    std::unique_ptr<Obj> back; auto l = attempt([&] { sim::Phase ph("load after a failed save"); back = o->load(file, entry); return true; });
    if (l.ok) { sim::probe("partial_load_accepted"); if (!torn) { auto e = o->differs_from(*back); if (!e.empty() && old) { auto e2 = old->differs_from(*back); if (e2.empty()) e.clear(); } SIM_CHECK(e.empty() || simdisk::same(node_at(base, entry), part), "partial-entry-accepted", "an entry which was stored in part is loaded without complaint and differs: " + e + ": " + what); } }
    else sim::probe("partial_load_refused");
    SIM_CHECK(disk().open_count[file] == 0, "file-left-open", "the file is still open after a failed load: " + what);
  }
  if (fired && sim::coin("look_for_leaks", 0.2)) {        // the same again, on a copy which is dropped afterwards
    disk().files["copy.h5"] = simdisk::clone(base); disk().open_count["copy.h5"] = 0; seen = 0; fired = 0; left = lasting ? ~0ull : left + 1; uint64_t mark = sim::heap_mark();
    disk().hook = hook; { auto o2 = attempt([&] { return o->save("copy.h5", entry, F::OpenOrCreate); }); } disk().hook = nullptr; disk().files.erase("copy.h5");
    auto l = leak(mark); SIM_CHECK(l.empty(), "leak", "memory is lost by a failed save: " + l + ": " + what); }
  { sim::Phase ph("retry"); auto again = attempt(save); SIM_CHECK(again.ok, "retry-failed", "saving again with healthy storage failed: " + std::string(again.what) + ": " + what); }
  SIM_CHECK(simdisk::same(clean, tree(file), &where), "retry-differs", "saving again does not give what an undisturbed save gives: " + where + ": " + what);
}
sim::Reg a("S02", NAME "_write_faults", write_faults, 1, warm_store);
}
