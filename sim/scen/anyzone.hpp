// The zone of a random crystal, described as the zones of fix.hpp are.
#pragma once
#include "cryst.hpp"
#include "move.hpp"
namespace fx {
constexpr size_t ANY = 60;   // its place among the zones and hulls
// a cell a hair's breadth from one of higher symmetry has a zone with slivers for faces, which tetgen may refuse to triangulate
inline bool nearly_higher(const Cryst& c) {
  auto near = [](double x, double y, double w) { double d = std::abs(x - y); return d > 1e-9 && d < w; };
  for (int i = 0; i < 3; ++i) if (near(c.ang[i], 90, 0.5) || near(c.ang[i], 60, 0.5) || near(c.ang[i], 120, 0.5) || near(c.ang[i], 109.4712206, 0.5)) return true;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) if (near(c.len[i] / c.len[j], 1, 0.01)) return true;
  return false;
}
// no zone is found for a few crystals, which is reported (property Z02); another one is drawn then, as it is where the irreducible zone is not convex
inline Zone& any_zone(Rng& r) {
  for (;;) {
    bool plain = sim::coin("round_numbers", 0.5); Cryst c = make_crystal(draw_setting(), r, plain); Route w{0, 0, 1, false, {}}; bool tr = sim::coin("time_reversal", 0.3);
    if (nearly_higher(c)) { sim::probe("nearly_higher"); continue; }
    auto z = std::make_unique<Zone>(); z->own = Lat{"", c.len, c.ang, "", 'P', {}, tr}; z->name = c.tag() + (tr ? " with time reversal" : ""); z->own.tag = z->name.c_str(); z->def = &z->own; z->centring = c.h.centring;
    brille::BrillouinZoneConfig f; f.time_reversal(tr);
    try { z->bz = std::make_unique<brille::BrillouinZone>(build_lattice(c, w, c.e->symbol), f); } catch (std::exception&) { sim::probe("no_zone"); continue; }
    z->group = closure(c.point, tr); z->A = c.A; z->B = c.B; z->Gs = c.Gs; finish_zone(*z);
    double one = z->bz->get_ir_polyhedron(false).volume(), all = z->bz->get_ir_polyhedron(true).volume(); if (std::abs(all - one) > 1e-6 * all) { sim::probe("not_convex"); continue; }
    zone_slot(ANY) = std::move(z); hull_slot(ANY).reset(); return *zone_slot(ANY);
  }
}
} // namespace fx
