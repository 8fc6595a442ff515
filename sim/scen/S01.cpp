// parts: 3
// Saving and loading objects with a healthy disk.
#include "store.hpp"
using namespace fx;
namespace {
using F = HighFive::File;
const char* entries[] = {"thing", "a/thing", "/deep/er/thing", "thing/inside"};
// save, load, compare; save the loaded object again and compare what was written
void round_trip() {
  sim::Quiet quiet; disk().reset(); sim::draw_omp_env();
  Rng r(sim::draw_seed("data")); auto o = draw_obj(r); std::string entry = entries[sim::draw("entry", 4)], file = "one.h5"; uint64_t how = sim::draw("how", 3);
  sim::nontrivial(); sim::probe(("saved_" + o->kind).c_str());
  std::unique_ptr<Obj> back;
  { sim::Phase ph("save and load"); sim::Loud loud;
    if (how == 2) { F f(file, F::OpenOrCreate); auto g = f.createGroup("group"); SIM_CHECK(o->save_at(g, entry), "save-failed", o->kind + " was not saved"); back = o->load_at(g, entry); }
    else { SIM_CHECK(o->save(file, entry, F::OpenOrCreate), "save-failed", o->kind + " was not saved"); back = o->load(file, entry); } }
  auto n1 = simdisk::clone(disk().files[file]);
  auto e = o->differs_from(*back); SIM_CHECK(e.empty(), "not-the-same", o->kind + " differs after loading: " + e);
  auto again = back->copy(); { auto e1 = back->differs_from(*again); SIM_CHECK(e1.empty(), "not-the-same", "a copy of the loaded " + o->kind + " differs: " + e1); } std::string other = "two.h5";
  if (how == 2) { F f(other, F::OpenOrCreate); auto g = f.createGroup("group"); SIM_CHECK(again->save_at(g, entry), "save-failed", o->kind + " was not saved again"); } else SIM_CHECK(again->save(other, entry, F::OpenOrCreate), "save-failed", o->kind + " was not saved again");
  { std::unique_ptr<Obj> b2; if (how == 2) { F f(other, F::ReadOnly); auto g = f.getGroup("group"); b2 = o->load_at(g, entry); } else b2 = o->load(other, entry);
    auto e2 = o->differs_from(*b2); SIM_CHECK(e2.empty(), "not-the-same", o->kind + " differs after saving what was loaded and loading again: " + e2); }
  SIM_CHECK(simdisk::same(n1, disk().files[file]), "load-writes", "loading or saving elsewhere changed the file of " + o->kind);
  SIM_CHECK(disk().open_count[file] == 0 && disk().open_count[other] == 0, "file-left-open", "a file is still open after saving and loading " + o->kind);
  sim::state_seen(simdisk::hash_node(n1));
}
sim::Reg a("S01", NAME "_round_trip", round_trip, 1, warm_store);
}
