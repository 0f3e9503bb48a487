// P12: painting is a deterministic function of the calls made.
#include "lib.hpp"
#include "jsongen.hpp"
#include "heap.h"
#include <alloca.h>
using namespace vp;
struct In { In() { heap_on = 1; } ~In() { heap_on = 0; } };
__attribute__((noinline)) static void dirty_stack(int v) { volatile unsigned char *p = (volatile unsigned char *)alloca(48000); memset((void *)p, v < 256 ? v : 0x5b, 48000); asm volatile("" :: "r"(p) : "memory"); }

#include "script.hpp"
// what other instances do meanwhile
struct Noise {
  Rng r; std::unique_ptr<Brush> b; std::unique_ptr<Store> st; std::unique_ptr<Walk> w;
  explicit Noise(uint64_t seed) : r(seed) {}
  void act() {
    if (!b || r.chance(0.05)) { b.reset(new Brush(r.chance(0.5) ? 3 : 0)); BrushGen g; g.rad_hi = 2; g.density_hi = 3; gen_brush(r, *b, g); st.reset(new Store()); st->logging = false; w.reset(new Walk(r, 50)); if (r.chance(0.3)) b->set(S_(SMUDGE), 0.7f); b->set(S_(OFFSET_MULTIPLIER), 0); }
    mypaint_surface_begin_atomic(st->surf()); for (int i = r.irange(1, 3); i > 0; i--) stroke(b->b, st->surf(), w->next(r)); mypaint_surface_end_atomic(st->surf(), nullptr);
    if (r.chance(0.3)) srand((unsigned)r.u64()); else for (int i = r.irange(0, 3); i > 0; i--) (void)!rand();
    if (st->tiles.size() > 300) b.reset();
  }
};
static void run(const Script &s, int fill, Noise *noise, Log &log) {
  heap_fill = fill;
  run(s, [&]() { if (noise && noise->r.chance(0.4)) { int f = heap_fill; heap_fill = -1; noise->act(); heap_fill = f; } if (fill >= 0) dirty_stack(fill); }, log);
  heap_fill = -1;
}
static void scripts(Case &c) {
  Rng &r = c.rng; Script s = gen_script(r); Log l[4]; uint64_t ns = r.u64();
  c.desc("script of %zu ops, %d buckets, %s surface", s.ops.size(), s.buckets, s.fixed ? "fixed" : "unbounded");
  run(s, 0, nullptr, l[0]); run(s, 0xAA, nullptr, l[1]); run(s, 0xFF, nullptr, l[2]); { Noise n(ns); run(s, 256, &n, l[3]); }
  const char *nm[] = {"zeroed memory", "memory filled with 0xaa", "memory filled with 0xff", "scrambled memory and other brushes at work"};
  for (int k = 1; k < 4; k++) {
    if (l[k].v.size() != l[0].v.size()) { c.viol("log", "runs differ in length: %zu records with %s, %zu with %s", l[0].v.size(), nm[0], l[k].v.size(), nm[k]); return; }
    for (size_t i = 0; i < l[0].v.size(); i++) if (l[0].v[i] != l[k].v[i]) { c.viol("nondeterministic", "record %zu differs: '%s' with %s, '%s' with %s", i, l[0].what[i].c_str(), nm[0], l[k].what[i].c_str(), nm[k]); return; }
  }
  c.evals(4); c.count("scripts"); c.count("records_compared", 3 * l[0].v.size()); uint64_t h = 0; for (uint64_t x : l[0].v) h = mixh(h, x); c.sig(h);
  if (s.fixed) c.count("fixed_surfaces"); if (s.buckets) c.count("with_buckets");
  if (c.idx % 50 == 3) c.sample("%zu operations, %zu records identical in 4 runs; last: %s", s.ops.size(), l[0].v.size(), l[0].what.back().c_str());
}
// a brush given another's settings, states and buckets goes on as the other does
static void transfer(Case &c) {
  Rng &r = c.rng; int nb = r.chance(0.5) ? r.irange(1, 6) : 0; uint64_t seed = r.u64();
  Brush a(nb), b(nb); BrushGen g; g.noise = false; g.rad_hi = 2.5f; g.density_hi = 4;
  { Rng q(seed); gen_brush(q, a, g); } { Rng q(seed); gen_brush(q, b, g); }
  float sm = (float)r.uni(); bool smudge = r.chance(0.5); int bk = r.irange(0, 6);
  for (Brush *p : {&a, &b}) for (int i : {S_(GRIDMAP_SCALE), S_(GRIDMAP_SCALE_X), S_(GRIDMAP_SCALE_Y), S_(RADIUS_BY_RANDOM), S_(OFFSET_BY_RANDOM)}) p->nomap(i);
  if (smudge) for (Brush *p : {&a, &b}) { p->set(S_(SMUDGE), sm); p->set(S_(SMUDGE_BUCKET), (float)bk); p->set(S_(SMUDGE_LENGTH), 0.4f); }
  Mock ma, mb; uint64_t cs = r.u64();
  auto canvas = [=](float x, float y, float rad, float paint, float *o) { float f[4] = {x, y, rad, paint}; Rng q(mixh(cs, fnv(f, 16))); for (int i = 0; i < 4; i++) o[i] = (float)q.uni(); };
  ma.on_color = mb.on_color = canvas; ma.keep = false;
  Walk w(r, 120); bool lin = r.chance(0.2); int n1 = r.irange(1, 40), n2 = r.irange(1, 40), pre = r.irange(1, 5);
  for (int i = 0; i < n1; i++) { Event e = w.next(r, lin); c.desc("%s", evstr(e).c_str()); stroke(a.b, ma.surf(), e); if (i > 1 && r.chance(0.03)) a.setstate(ST_(CUSTOM_INPUT), (float)r.uni()); }
  for (int i = 0; i < pre; i++) stroke(b.b, mb.surf(), i ? w.next(r, lin) : ev(1, 2, 0, 0.01));      // the fresh brush has a past of its own
  c.desc("transfer after %d events", n1);
  for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) b.setstate(i, a.state(i));
  for (int i = 0; i < nb; i++) { float q[9]; if (!mypaint_brush_get_smudge_bucket_state(a.b, i, q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, q + 8) || !mypaint_brush_set_smudge_bucket_state(b.b, i, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8])) { c.viol("bucket", "bucket %d of %d is not accessible", i, nb); return; } }
  ma.keep = true; ma.dabs.clear(); mb.dabs.clear(); uint64_t h = 0, nd = 0;
  for (int i = 0; i < n2; i++) {
    Event e = w.next(r, lin); c.desc("%s", evstr(e).c_str());
    ma.dabs.clear(); mb.dabs.clear(); stroke(a.b, ma.surf(), e); stroke(b.b, mb.surf(), e);
    if (ma.dabs.size() != mb.dabs.size()) { c.viol("transfer", "event %d after the transfer: the original paints %zu dabs, the other %zu", i, ma.dabs.size(), mb.dabs.size()); return; }
    for (size_t k = 0; k < ma.dabs.size(); k++) if (memcmp(&ma.dabs[k], &mb.dabs[k], sizeof(Dab))) { c.viol("transfer", "event %d after the transfer, dab %zu: %s vs %s", i, k, ma.dabs[k].str().c_str(), mb.dabs[k].str().c_str()); return; }
    for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) { float x = a.state(k), y = b.state(k); if (k != ST_(RNG_SEED) && memcmp(&x, &y, 4) && !(std::isnan(x) && std::isnan(y))) { c.viol("transfer-state", "event %d after the transfer: state %d is %.9g, the other's %.9g", i, k, x, y); return; } }
    if (ma.dabs.size()) h = mixh(h, fnv(ma.dabs.data(), ma.dabs.size() * sizeof(Dab))); nd += ma.dabs.size();
    ma.samples.clear(); mb.samples.clear(); if (nd > 20000) break;
  }
  c.evals(); c.count("transfers"); c.count("dabs_after_transfer", nd); if (nb && smudge) c.count("transfers_with_buckets"); c.sig(h);
  if (c.idx % 50 == 1) c.sample("state transfer after %d events: %llu dabs identical afterwards", n1, (unsigned long long)nd);
}
static void one(Case &c) { if (c.idx % 2) transfer(c); else scripts(c); }
VP_MAIN("P12", one)
