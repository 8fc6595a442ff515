// parts: 3
// The process dies at any storage operation of a save; afterwards only durable state is left.
#include "store.hpp"
using namespace fx;
namespace {
void crash_in_save() {
  sim::Quiet quiet; disk().reset(); sim::draw_omp_env();
  Rng r(sim::draw_seed("data")); auto o = draw_obj(r); std::string file = "one.h5", entry = sim::coin("nested", 0.3) ? "group/thing" : "thing", aside = "two.h5", beside = "group/other";
  uint64_t model = sim::draw("persistence", 3);     // 0 every operation, 1 at close, 2 a file open for writing is unreadable afterwards
  disk().durable_per_op = model != 1;
  auto x = small_obj(r), y = small_obj(r); std::unique_ptr<Obj> old; uint64_t before = sim::draw("previous", 3);
  bool has_beside = sim::coin("beside", 0.7); if (has_beside) SIM_CHECK(x->save(file, beside, F::OpenOrCreate), "save-failed", "preparation");
  SIM_CHECK(y->save(aside, "thing", F::OpenOrCreate), "save-failed", "preparation");
  if (before == 1) old = small_obj(r); else if (before == 2) old = draw_obj(r);
  if (old) SIM_CHECK(old->save(file, entry, F::OpenOrCreate), "save-failed", old->kind + " was not saved");
  auto base = tree(file) ? simdisk::clone(tree(file)) : std::make_shared<simdisk::Node>(), base2 = simdisk::clone(tree(aside));
  unsigned flags = sim::coin("truncate", 0.15) ? F::Truncate : F::OpenOrCreate; auto save = [&] { return o->save(file, entry, flags); };
  auto keep = disk(); keep.files.clear(); keep.durable.clear(); for (auto& k : disk().files) keep.files.emplace(k.first, simdisk::clone(k.second)); for (auto& k : disk().durable) keep.durable.emplace(k.first, simdisk::clone(k.second));
  SIM_CHECK(save(), "save-failed", o->kind + " was not saved"); auto clean = simdisk::clone(tree(file)); disk() = keep;
  uint64_t n = count_ops([&] { save(); }, [](Op) { return true; });
  uint64_t at = sim::draw("crash_at", n + 1), seen = 0; Op hit = Op::N; bool writing = false;
  disk().hook = [&](const OpInfo& i) { if (i.op == Op::Open) writing = seen < at; if (seen++ != at) return Act::Ok; hit = i.op; sim::fault_fired(model == 0 ? "crash" : model == 1 ? "crash_losing_unclosed_file" : "crash_leaving_unreadable_file"); return Act::Crash; };
  Outcome out; { sim::Phase ph("save with a crash"); out = attempt(save); }
  bool crashed = disk().crashed; disk().crash_restart(); sim::nontrivial();
  std::string what = o->kind + ", crash at operation " + std::to_string(at) + " (" + simdisk::op_name(hit == Op::N ? Op::Close : hit) + "), model " + std::to_string(model), where;
  if (crashed) { SIM_CHECK(!out.ok && !out.threw, "continues-after-death", "the exception of the simulated death was swallowed: " + what); } else SIM_CHECK(out.ok, "save-failed", std::string(out.what) + ": " + what);
  if (crashed && model == 2 && writing) disk().unreadable.push_back(file);
  SIM_CHECK(simdisk::same(base2, tree(aside), &where), "other-file-changed", where + ": " + what);
  auto now = tree(file);
  if (flags != F::Truncate && has_beside) SIM_CHECK(simdisk::same(node_at(base, beside), node_at(now, beside), &where), "other-entry-changed", where + ": " + what);
  if (model == 1 && crashed && now) SIM_CHECK(simdisk::same(base, now, &where), "simulator", "a lost write was kept: " + where);
  sim::state_seen(now ? simdisk::hash_node(now) : 0);
  std::unique_ptr<Obj> back; auto l = attempt([&] { sim::Phase ph("load after the crash"); back = o->load(file, entry); return true; });
  if (l.ok) { auto e = o->differs_from(*back); if (!e.empty() && old && old->kind == o->kind && simdisk::same(node_at(base, entry), node_at(now, entry))) e = old->differs_from(*back); bool unchanged = node_at(base, entry) && now && simdisk::same(node_at(base, entry), node_at(now, entry));
    SIM_CHECK(e.empty() || unchanged, "partial-entry-accepted", "after a crash an entry which was stored in part is loaded without complaint and differs: " + e + ": " + what); sim::probe(crashed ? "loaded_after_crash" : "loaded"); }
  else sim::probe("load_refused_after_crash");
  if (!crashed) SIM_CHECK(l.ok, "load-failed", std::string(l.what) + ": " + what);
  bool bad = !disk().unreadable.empty();
  { sim::Phase ph("recovery"); auto again = attempt([&] { return o->save(file, entry, flags); });
    if (bad && flags != F::Truncate) { SIM_CHECK(again.threw, "unreadable-file-used", "a file which can not be opened was reported as written: " + what); disk().unreadable.clear(); again = attempt([&] { return o->save(file, entry, F::Truncate); }); SIM_CHECK(again.ok, "recovery-failed", std::string(again.what) + ": " + what); sim::probe("recovered_by_truncation"); }
    else { disk().unreadable.clear(); SIM_CHECK(again.ok, "recovery-failed", std::string(again.what) + ": " + what); SIM_CHECK(simdisk::same(clean, tree(file), &where), "recovery-differs", "saving after the crash does not give what an undisturbed save gives: " + where + ": " + what); } }
  back = o->load(file, entry); auto e = o->differs_from(*back); SIM_CHECK(e.empty(), "recovery-differs", e + ": " + what);
}
sim::Reg a("S03", NAME "_crash", crash_in_save, 1, warm_store);
}
