// parts: 3
// Histories of saving, overwriting and loading over several files, with failures and crashes, against a reference map.
#include "store.hpp"
using namespace fx;
namespace {
struct Known { NodeP node; const Obj* obj; };        // null node: left in an unknown state by a failed save
void histories() {
  sim::Quiet quiet; disk().reset(); sim::draw_omp_env();
  Rng r(sim::draw_seed("data")); std::vector<std::unique_ptr<Obj>> pool; uint64_t np = 2 + sim::draw("objects", 3); for (uint64_t i = 0; i < np; ++i) pool.push_back(i < 2 ? draw_obj(r) : small_obj(r));
  const std::string files[] = {"one.h5", "two.h5"}, entries[] = {"a", "b", "group/a", "group/b"};
  std::map<std::string, std::map<std::string, Known>> model; std::map<std::string, bool> exists; std::string troubled;
  auto drop = [&](const std::string& f, const std::string& e) { model[f].erase(e); };
  uint64_t steps = 3 + sim::draw("steps", 8); sim::nontrivial();
  for (uint64_t s = 0; s < steps; ++s) {
    const auto& f = files[sim::draw("file", 2)]; const auto& e = entries[sim::draw("entry", 4)]; const Obj& o = *pool[sim::draw("which", pool.size())]; uint64_t what = sim::draw("action", 10);
    std::string step = "step " + std::to_string(s) + " " + f + ":" + e + " ";
    if (what < 5) {                                   // save
      static const unsigned fl[] = {F::OpenOrCreate, F::OpenOrCreate, F::OpenOrCreate, F::ReadWrite, F::Truncate, F::Create | F::Excl, F::ReadWrite | F::Excl};
      unsigned flags = fl[sim::draw("flags", 7)]; uint64_t trouble = sim::draw("trouble", 4), seen = 0; Act act = Act::Ok; uint64_t at = 0; bool fired = false, opened = false;
      if (trouble == 2) { act = std::array<Act, 3>{Act::Error, Act::ErrorApplied, Act::ErrorTorn}[sim::draw("fault", 3)]; at = sim::draw("fault_at", 60); } else if (trouble == 3) { act = Act::Crash; at = sim::draw("fault_at", 120); }
      if (act != Act::Ok) disk().hook = [&](const OpInfo& i) { if (i.op == Op::Open && seen != at) opened = true; if (act != Act::Crash && !stores(i.op) && i.op != Op::Open) return Act::Ok; if (seen++ != at) return Act::Ok; fired = true; sim::fault_fired(act == Act::Crash ? "crash" : "write_error"); return act; };
      bool had = exists[f]; Outcome out; { sim::Phase ph("save"); out = attempt([&] { return o.save(f, e, flags); }); } bool crashed = disk().crashed; disk().hook = nullptr; if (crashed) disk().crash_restart();
      step += "save " + o.kind + " flags " + std::to_string(flags) + (fired ? " with a fault" : "");
      bool may = (flags & F::Truncate) || ((flags & F::Excl) ? !had : (flags & F::Create) ? true : had);
      if (fired) troubled = f;
      if (fired) SIM_CHECK(!out.ok || act == Act::ErrorApplied || act == Act::Error || act == Act::ErrorTorn, "continues-after-death", step);
      if (!fired) SIM_CHECK(out.ok == may, may ? "save-failed" : "flags-ignored", step + ": " + out.what);
      bool reached = fired ? (may && (opened || act == Act::Ok)) : may;
      if (act == Act::Ok) reached = may;
      if (reached) { exists[f] = true; if (flags & F::Truncate) model[f].clear();
        if (out.ok) model[f][e] = {simdisk::clone(node_at(tree(f), e)), &o}; else { auto n = node_at(tree(f), e); auto was = model[f].find(e); if (!(was != model[f].end() && was->second.node && n && simdisk::same(was->second.node, n))) { if (n) model[f][e] = {nullptr, nullptr}; else drop(f, e); } } }
      else SIM_CHECK(!out.ok, "flags-ignored", step);
      if (out.ok) { auto b = o.load(f, e); auto d = o.differs_from(*b); SIM_CHECK(d.empty(), "not-the-same", step + ": " + d); sim::probe("overwritten_or_saved"); }
    } else if (what < 8) {                            // load
      auto k = model[f].find(e); bool known = k != model[f].end(); const Obj& as = known && k->second.obj && sim::coin("right_class", 0.8) ? *k->second.obj : o;
      std::unique_ptr<Obj> b; auto out = attempt([&] { sim::Phase ph("load"); b = as.load(f, e); return true; }); step += "load as " + as.kind;
      if (!known) SIM_CHECK(!out.ok, "phantom-entry", step + " succeeds though nothing is stored there");
      else if (k->second.obj && k->second.obj->kind == as.kind) { SIM_CHECK(out.ok, "entry-lost", step + ": " + out.what); auto d = k->second.obj->differs_from(*b); SIM_CHECK(d.empty(), "stale-or-mixed-entry", step + ": " + d); sim::probe("loaded_in_history"); }
    } else if (what == 8) {                           // several in one open file
      if (!exists[f]) continue; auto out = attempt([&] { F file(f, F::ReadWrite); auto g = file.exist("many") ? file.getGroup("many") : file.createGroup("many"); bool ok = true; for (auto& p : pool) ok = p->save_at(g, p->kind) && ok; for (auto& p : pool) { auto b = p->load_at(g, p->kind); if (&p == &pool.back()) { auto d = p->differs_from(*b); SIM_CHECK(d.empty(), "not-the-same", step + d); } } return ok; });
      SIM_CHECK(out.ok, "save-failed", step + "several in one group: " + out.what);
      for (size_t i = 0; i < pool.size(); ++i) { bool later = false; for (size_t j = i + 1; j < pool.size(); ++j) later |= pool[j]->kind == pool[i]->kind; if (!later) model[f]["many/" + pool[i]->kind] = {simdisk::clone(node_at(tree(f), "many/" + pool[i]->kind)), pool[i].get()}; }
    } else {                                          // save what was loaded from one place at another
      auto k = model[f].find(e); if (k == model[f].end() || !k->second.obj) continue; const auto& f2 = files[sim::draw("to_file", 2)]; const auto& e2 = entries[sim::draw("to_entry", 4)];
      const Obj* src = k->second.obj; auto b = src->load(f, e); SIM_CHECK(b->save(f2, e2, F::OpenOrCreate), "save-failed", step + "copy to " + f2 + ":" + e2); exists[f2] = true; model[f2][e2] = {simdisk::clone(node_at(tree(f2), e2)), src};
    }
    for (auto& k : disk().open_count) SIM_CHECK(k.second == 0, "file-left-open", k.first + " is still open after " + step);
    for (auto& f2 : files) {
      std::string where; auto t = tree(f2);
      if (t && !exists[f2] && f2 == troubled) exists[f2] = true;   // a save which failed may have created the file already
      SIM_CHECK(!t || exists[f2], "phantom-file", f2 + " appeared with " + step); SIM_CHECK(t || !exists[f2], "file-lost", f2 + " after " + step);
      for (auto& k : model[f2]) if (k.second.node) SIM_CHECK(simdisk::same(k.second.node, node_at(t, k.first), &where), "entry-changed", f2 + ":" + k.first + where + " after " + step);
      if (t) { sim::state_seen(simdisk::hash_node(t)); for (auto& k : t->kids) { if (k.first != "group" && k.first != "many") SIM_CHECK(model[f2].count(k.first), "phantom-entry", f2 + ":" + k.first + " appeared with " + step); else for (auto& l : k.second->kids) SIM_CHECK(model[f2].count(k.first + "/" + l.first), "phantom-entry", f2 + ":" + k.first + "/" + l.first + " appeared with " + step); } }
    }
    troubled.clear();
  }
}
sim::Reg a("S04", NAME "_histories", histories, 1, warm_store);
}
