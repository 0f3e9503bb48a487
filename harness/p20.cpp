// P20: object lifetimes and allocation failures, judged by an allocation ledger (and the sanitizers).
#include "lib.hpp"
#include "jsongen.hpp"
#include "heap.h"
#include <glib-object.h>
using namespace vp;
extern "C" { GType mypaint_brush_get_type(void), mypaint_surface_get_type(void), mypaint_fixed_tiled_surface_get_type(void), mypaint_rectangle_get_type(void); }
struct In { int o; In() : o(heap_on) { heap_on = 1; } ~In() { heap_on = o; } };
struct Out { int o; Out() : o(heap_on) { heap_on = 0; } ~Out() { heap_on = o; } };
// A surface whose own bookkeeping stays out of the ledger
struct TStore : Store {
  int destroyed_n = 0;
  static void t_start(MyPaintTiledSurface *t, MyPaintTileRequest *r) { Out o; Store::s_start(t, r); }
  static void t_end(MyPaintTiledSurface *t, MyPaintTileRequest *r) { Out o; Store::s_end(t, r); }
  static void t_destroy(MyPaintSurface *s) { TStore *t = (TStore *)s; t->destroyed_n++; mypaint_tiled_surface_destroy(&t->base); t->destroyed = true; }
  // only the library's own initialisation counts as an allocation of the surface
  TStore() { mypaint_tiled_surface_destroy(&base); { In in; mypaint_tiled_surface_init(&base, t_start, t_end); } base.tile_request_start = t_start; base.tile_request_end = t_end; base.parent.destroy = t_destroy; logging = false; }
};
struct TMock : Mock { int destroyed_n = 0; static void t_destroy(MyPaintSurface *s) { ((TMock *)s)->destroyed_n++; } TMock() { base.destroy = t_destroy; keep = false; } };

// References taken and dropped the way language bindings do it: by copying and freeing boxed values.
static bool box_copy(Case &c, GType t, void *o) { void *q; { In in; q = g_boxed_copy(t, o); } c.count("boxed_copies"); if (q != o) { c.viol("boxed-copy", "a boxed copy of the %s %p is %p", g_type_name(t), o, q); return false; } return true; }
static void box_free(Case &c, GType t, void *o) { c.count("boxed_frees"); In in; g_boxed_free(t, o); }
static void box_value(Case &c, GType t, void *o) {
  GValue v = G_VALUE_INIT, w = G_VALUE_INIT; { In in; g_value_init(&v, t); g_value_init(&w, t); g_value_set_boxed(&v, o); if (g_value_get_boxed(&v) == o) g_value_copy(&v, &w); }
  if (g_value_get_boxed(&v) != o || g_value_get_boxed(&w) != o) { c.viol("boxed-value", "a value holding the %s %p gives %p, its copy %p", g_type_name(t), o, g_value_get_boxed(&v), g_value_get_boxed(&w)); return; }
  In in; g_value_unset(&v); g_value_unset(&w);
}
static void box_rect(Case &c) {
  Rng &r = c.rng; MyPaintRectangle a = {r.irange(-99, 99), r.irange(-99, 99), r.irange(0, 99), r.irange(0, 99)}, b = a, *q; GType t = mypaint_rectangle_get_type(); long before = heap_live();
  { In in; q = (MyPaintRectangle *)g_boxed_copy(t, &a); } if (!q || q == &a || memcmp(q, &b, sizeof b)) { c.viol("boxed-copy", "a boxed copy of a rectangle differs from it"); return; }
  q->x++; q->width++; if (memcmp(&a, &b, sizeof b)) c.viol("boxed-copy", "changing a copy changed the rectangle"); box_free(c, t, q); if (heap_live() != before) c.viol("boxed-copy", "copying and freeing a rectangle leaves %ld blocks", heap_live() - before);
}
static void lifetimes(Case &c) {
  Rng &r = c.rng; GType tb = mypaint_brush_get_type(), tsf = mypaint_surface_get_type(), tfx = mypaint_fixed_tiled_surface_get_type();
  struct B { MyPaintBrush *b; int refs; }; struct S { int kind; MyPaintSurface *s; int refs; std::unique_ptr<TStore> t; std::unique_ptr<TMock> m; bool open = false; double ext; MyPaintTiledSurface *ts = nullptr; };
  std::vector<B> bs; std::vector<S> ss; uint64_t h = 0;
  long start = heap_live(); int n = r.irange(15, 90), queued = 0;
  auto newb = [&]() { int nb = r.chance(0.5) ? 0 : r.irange(1, 256); MyPaintBrush *b; { In in; b = nb ? mypaint_brush_new_with_buckets(nb) : mypaint_brush_new(); } if (!b) { c.viol("new", "no brush"); return; } { In in; if (r.chance(0.9)) mypaint_brush_from_defaults(b); } bs.push_back({b, 1}); c.desc("new brush (%d buckets)", nb); };
  auto news = [&]() {
    S s; s.kind = (int)r.below(3); s.refs = 1; s.ext = 150;
    if (s.kind == 0) { int w = r.irange(1, 300), hh = r.irange(1, 300); MyPaintFixedTiledSurface *f; { In in; f = mypaint_fixed_tiled_surface_new(w, hh); } if (!f) { c.viol("new", "no surface"); return; } s.s = (MyPaintSurface *)f; s.ts = (MyPaintTiledSurface *)f; }
    else if (s.kind == 1) { s.t.reset(new TStore); s.s = s.t->surf(); s.ts = &s.t->base; }
    else { s.m.reset(new TMock); s.s = s.m->surf(); }
    c.desc("new surface kind %d", s.kind); ss.push_back(std::move(s));
  };
  auto drop_b = [&](size_t i) {
    long before = heap_live(); if (r.chance(0.3)) box_free(c, tb, bs[i].b); else { In in; mypaint_brush_unref(bs[i].b); } bs[i].refs--; long after = heap_live();
    if (bs[i].refs == 0) { c.count("brushes_freed"); if (after >= before) c.viol("brush-kept", "releasing the last reference of a brush freed nothing (%ld blocks before, %ld after)", before, after); bs.erase(bs.begin() + (long)i); }
    else if (after != before) c.viol("brush-early", "releasing one of several references of a brush changed the heap from %ld to %ld blocks", before, after);
  };
  auto drop_s = [&](size_t i) {
    S &s = ss[i]; long before = heap_live(); if (r.chance(0.3)) box_free(c, s.kind == 0 && r.chance(0.7) ? tfx : tsf, s.s); else { In in; mypaint_surface_unref(s.s); } s.refs--; long after = heap_live(); int d = s.kind == 1 ? s.t->destroyed_n : s.kind == 2 ? s.m->destroyed_n : -1;
    if (d >= 0 && d != (s.refs == 0)) c.viol("destroy-calls", "destroy was called %d times with %d references left", d, s.refs);
    if (s.refs == 0) { c.count("surfaces_freed"); if (s.open) c.count("freed_with_queued_dabs"); if (s.kind < 2 && after >= before) c.viol("surface-kept", "releasing the last reference of a surface freed nothing (%ld blocks before, %ld after)", before, after);
      if (s.t) { s.t->destroyed = true; } ss.erase(ss.begin() + (long)i); }
    else if (after != before) c.viol("surface-early", "releasing one of several references of a surface changed the heap from %ld to %ld blocks", before, after);
  };
  newb(); news(); Walk w(r, 120);
  for (int k = 0; k < n && !c.bad(); k++) {
    int op = (int)r.below(17); size_t bi = bs.empty() ? 0 : r.below((uint32_t)bs.size()), si = ss.empty() ? 0 : r.below((uint32_t)ss.size());
    if (op == 0 && bs.size() < 5) newb();
    else if (op == 1 && ss.size() < 5) news();
    else if (op == 2 && bs.size()) { double u = r.uni(); long before = heap_live(); if (u < 0.2) { box_value(c, tb, bs[bi].b); if (!c.bad() && heap_live() != before) c.viol("boxed-value", "holding a brush in a value for a while changed the heap from %ld to %ld blocks", before, heap_live()); }
      else { if (u < 0.6) { if (!box_copy(c, tb, bs[bi].b)) break; } else { In in; mypaint_brush_ref(bs[bi].b); } bs[bi].refs++; } if (r.chance(0.3)) box_rect(c); }
    else if (op == 3 && ss.size()) { double u = r.uni(); GType t = ss[si].kind == 0 && r.chance(0.7) ? tfx : tsf; long before = heap_live(); if (u < 0.2) { box_value(c, t, ss[si].s); if (!c.bad() && heap_live() != before) c.viol("boxed-value", "holding a surface in a value for a while changed the heap from %ld to %ld blocks", before, heap_live()); }
      else { if (u < 0.6) { if (!box_copy(c, t, ss[si].s)) break; } else { In in; mypaint_surface_ref(ss[si].s); } ss[si].refs++; } }
    else if (op == 16 && (bs.size() || ss.size())) {     // very many references
      int m = r.chance(0.05) ? 70000 : r.irange(100, 1100); bool br = ss.empty() || (bs.size() && r.chance(0.5)); long before = heap_live();
      c.desc("%d more references to %s %zu, and released again", m, br ? "brush" : "surface", br ? bi : si);
      { In in; for (int q = 0; q < m; q++) { if (br) mypaint_brush_ref(bs[bi].b); else mypaint_surface_ref(ss[si].s); } }
      { In in; for (int q = 0; q < m; q++) { if (br) mypaint_brush_unref(bs[bi].b); else mypaint_surface_unref(ss[si].s); } }
      if (heap_live() != before) c.viol(br ? "brush-early" : "surface-early", "%d further references and releases changed the heap from %ld to %ld blocks", m, before, heap_live());
      c.count("reference_bursts");
    }
    else if (op == 4 && bs.size()) { c.desc("unref brush"); drop_b(bi); }
    else if (op == 5 && ss.size()) { c.desc("unref surface%s", ss[si].open ? " with dabs queued" : ""); drop_s(si); }
    else if (op == 6 && bs.size()) { std::string d = gen_doc(r, 0.1, true).text; int q = (int)r.below(4); if (q == 1) d = d.substr(0, r.below((uint32_t)d.size())); if (q == 2) d = "{\"version\":3,\"settings\":{\"opaque\":1}}"; if (q == 3 && r.chance(0.5)) d = ""; c.desc("load %zu bytes", d.size()); In in; mypaint_brush_from_string(bs[bi].b, d.c_str()); }
    else if (op == 7 && bs.size()) { In in; if (r.chance(0.5)) mypaint_brush_from_defaults(bs[bi].b); else mypaint_brush_reset(bs[bi].b); }
    else if (op == 8 && ss.size() && ss[si].ts) { c.desc("symmetry"); In in; int nl = r.chance(0.2) ? r.irange(2, 40) : r.irange(2, 6); mypaint_tiled_surface_set_symmetry_state(ss[si].ts, r.chance(0.8), 0, 0, 30, (MyPaintSymmetryType)r.below(5), nl); }
    else if (op < 13 && ss.size()) {   // paint directly
      S &s = ss[si]; { In in; if (!s.open) mypaint_surface_begin_atomic(s.s); } s.open = true; int m = r.irange(1, 6); for (int q = 0; q < m; q++) { Dab d = gen_dab(r, s.ext, 15); In in; draw(s.s, d); queued++; }
      if (r.chance(0.2)) { float a, b, cc, d; In in; mypaint_surface_get_color(s.s, (float)r.range(-100, 100), (float)r.range(-100, 100), 8, &a, &b, &cc, &d, r.chance(0.5) ? -1.f : 0.5f); }
    } else if (op == 13 && ss.size()) { S &s = ss[si]; MyPaintRectangle rc[4]; MyPaintRectangles roi = {4, rc}; In in; mypaint_surface_end_atomic(s.s, r.chance(0.5) ? &roi : nullptr); s.open = false; }
    else if (op >= 14 && ss.size() && bs.size()) { S &s = ss[si]; { In in; if (!s.open) mypaint_surface_begin_atomic(s.s); } s.open = true;
      // whatever was loaded, keep the number of tiles queued within reason
      for (int set : {S_(RADIUS_LOGARITHMIC), S_(RADIUS_BY_RANDOM), S_(DABS_PER_ACTUAL_RADIUS), S_(DABS_PER_BASIC_RADIUS), S_(DABS_PER_SECOND), S_(ELLIPTICAL_DAB_RATIO), S_(OFFSET_BY_RANDOM), S_(OFFSET_BY_SPEED), S_(TRACKING_NOISE), S_(OFFSET_MULTIPLIER), S_(SMUDGE_RADIUS_LOG), S_(SLOW_TRACKING_PER_DAB)})
        { for (int in = 0; in < MYPAINT_BRUSH_INPUTS_COUNT; in++) mypaint_brush_set_mapping_n(bs[bi].b, (MyPaintBrushSetting)set, (MyPaintBrushInput)in, 0); mypaint_brush_set_base_value(bs[bi].b, (MyPaintBrushSetting)set, set == S_(RADIUS_LOGARITHMIC) ? 1.5f : set == S_(DABS_PER_ACTUAL_RADIUS) ? 2.f : 0.f); }
      for (int q = 0; q < 3; q++) { Event e = w.next(r); In in; stroke(bs[bi].b, s.s, e); } }
    if (heap_overflow) harness_error("allocation ledger overflow");
    if (heap_live() > 15000) for (S &s : ss) if (s.open) { In in; mypaint_surface_end_atomic(s.s, nullptr); s.open = false; }
    c.evals();
    h = mixh(h, mixh((uint64_t)op, (uint64_t)(heap_live() - start))); c.sig(h);
  }
  while (!c.bad() && (bs.size() || ss.size())) { if (bs.size() && (ss.empty() || r.chance(0.5))) drop_b(r.below((uint32_t)bs.size())); else drop_s(r.below((uint32_t)ss.size())); }
  if (!c.bad() && heap_live() != start) c.viol("leak", "%ld blocks remain allocated after everything was released", heap_live() - start);
  if (c.bad()) heap_forget();
  c.count("lifetimes");
  if (c.idx % 60 == 0) c.sample("%d operations, %d direct dabs queued, all blocks returned", n, queued);
}
// every single allocation of a creation fails once
static void creation(Case &c) {
  Rng &r = c.rng; int kind = (int)r.below(5), nb = r.irange(1, 256), w = r.irange(1, 700), hh = r.irange(1, 700); static const char *names[] = {"brush", "brush with buckets", "fixed surface", "tiled surface", "mapping"};
  for (int k = 1; k < 2000; k++) for (int sign = 1; sign >= -1; sign -= 2) {
    long start = heap_live(); void *o = nullptr; heap_count = 0; heap_failed = 0; TStore *t = nullptr;
    c.d.clear(); c.desc("%s: allocation %d%s fails", names[kind], k, sign < 0 ? " and later ones" : "");
    if (kind == 3) { heap_fail_at = sign * k; t = new TStore; }
    else {
      heap_fail_at = sign * k; In in;
      if (kind == 0) o = mypaint_brush_new(); else if (kind == 1) o = mypaint_brush_new_with_buckets(nb); else if (kind == 2) o = mypaint_fixed_tiled_surface_new(w, hh); else o = mypaint_mapping_new(r.irange(1, 20));
    }
    heap_fail_at = 0; bool failed = heap_failed > 0; c.evals(); c.sig(mixh(mixh((uint64_t)kind, (uint64_t)k * 2 + (sign > 0)), (uint64_t)heap_count));
    if (kind == 3) {
      // nothing can report the failure: releasing the surface must be clean all the same, and so must painting where the queue exists
      if (t->base.operation_queue && r.chance(0.7)) { bool act = r.chance(0.7); { In in; mypaint_tiled_surface_set_symmetry_state(&t->base, act, 3, 4, 20, (MyPaintSymmetryType)r.below(5), r.irange(2, 9)); } for (int q = 0; q < 3; q++) { { In in; mypaint_surface_begin_atomic(t->surf()); draw(t->surf(), gen_dab(r, 100, 20)); mypaint_surface_end_atomic(t->surf(), nullptr); } } c.count("painted_after_failed_init"); }
      { In in; mypaint_surface_unref(t->surf()); } t->destroyed = true; delete t;
    } else {
      // a surface may come up without its symmetry matrices, but whatever is returned has to work
      if (failed && o) {
        if (kind == 2) {
          MyPaintFixedTiledSurface *f; { In in; f = mypaint_fixed_tiled_surface_new(w, hh); } if (!f) harness_error("no surface");
          uint64_t hs[2]; uint64_t seed = r.u64(); MyPaintSurface *two[2] = {(MyPaintSurface *)o, (MyPaintSurface *)f};
          for (int q = 0; q < 2; q++) { Rng z(seed); In in; mypaint_tiled_surface_set_symmetry_state((MyPaintTiledSurface *)two[q], z.chance(0.5), 20, 30, 40, (MyPaintSymmetryType)z.below(5), z.irange(2, 30));
            mypaint_surface_begin_atomic(two[q]); for (int i = 0; i < 3; i++) { Dab d = gen_dab(z, 100, 20); draw(two[q], d); } mypaint_surface_end_atomic(two[q], nullptr); hs[q] = 0;
            for (int ty = 0; ty * TS < hh; ty++) for (int tx = 0; tx * TS < w; tx++) { MyPaintTileRequest rq; mypaint_tile_request_init(&rq, 0, tx, ty, TRUE); mypaint_tiled_surface_tile_request_start((MyPaintTiledSurface *)two[q], &rq); hs[q] = mixh(hs[q], fnv(rq.buffer, TILE_U16 * 2)); mypaint_tiled_surface_tile_request_end((MyPaintTiledSurface *)two[q], &rq); } }
          if (hs[0] != hs[1]) c.viol("creation", "a fixed surface created although allocation %d failed paints differently", k);
          { In in; mypaint_surface_unref(two[1]); }
        } else if (kind < 2) {
          MyPaintBrush *g; { In in; g = mypaint_brush_new_with_buckets(kind == 1 ? nb : 0); } uint64_t hs[2]; uint64_t seed = r.u64(); MyPaintBrush *two[2] = {(MyPaintBrush *)o, g};
          for (int q = 0; q < 2; q++) { Rng z(seed); Walk w2(z, 100); Mock m; hs[q] = 0; { In in; mypaint_brush_from_defaults(two[q]); } for (int i = 0; i < 20; i++) { Event e = w2.next(z); stroke(two[q], m.surf(), e); } for (Dab &d : m.dabs) hs[q] = mixh(hs[q], fnv(&d, sizeof d)); }
          if (hs[0] != hs[1]) c.viol("creation", "a brush created although allocation %d failed paints differently", k); { In in; mypaint_brush_unref(g); }
        } else c.viol("creation", "creating a %s succeeded although allocation %d failed", names[kind], k);
      }
      if (!failed && !o) { c.viol("creation", "creating a %s failed without a failing allocation", names[kind]); return; }
      if (!o && heap_live() != start) { c.viol("creation-leak", "a failed creation of a %s leaves %ld blocks allocated", names[kind], heap_live() - start); heap_forget(); return; }
      if (o) { if (failed) c.count("survived"); In in; if (kind < 2) mypaint_brush_unref((MyPaintBrush *)o); else if (kind == 2) mypaint_surface_unref((MyPaintSurface *)o); else mypaint_mapping_free((MyPaintMapping *)o); }
    }
    if (heap_live() != start) { c.viol("leak", "%ld blocks remain after releasing a %s", heap_live() - start, names[kind]); heap_forget(); return; }
    if (failed) c.count("failures_injected");
    if (!failed && sign < 0) { c.count("creations"); if (r.chance(0.02)) c.sample("%s: every one of %d allocations failed in turn", names[kind], k - 1); return; }
  }
}
// growth of the symmetry matrices and bounding boxes fails
static void growth(Case &c) {
  Rng &r = c.rng; long start = heap_live();
  {
    std::unique_ptr<TStore> t(new TStore); Store ref; ref.logging = false; int n = r.irange(3, 14); bool diverged = false;
    for (int i = 0; i < n && !c.bad(); i++) {
      if (r.chance(0.7)) { bool act = r.chance(0.9); int type = (int)r.below(5), nl = r.chance(0.5) ? r.irange(2, 120) : r.irange(2, 8); float x = (float)r.range(-40, 40), y = (float)r.range(-40, 40), an = (float)r.range(-200, 200);
        c.desc("symmetry %d type %d lines %d", act, type, nl); heap_count = heap_failed = 0; heap_fail_at = r.chance(0.5) ? (r.chance(0.5) ? 1 : -1) : 0;
        { In in; mypaint_tiled_surface_set_symmetry_state(&t->base, act, x, y, an, (MyPaintSymmetryType)type, nl); } heap_fail_at = 0; mypaint_tiled_surface_set_symmetry_state(&ref.base, act, x, y, an, (MyPaintSymmetryType)type, nl); if (heap_failed) c.count("failures_injected"); }
      bool fail = r.chance(0.6); heap_count = heap_failed = 0; heap_fail_at = fail ? (int)r.pick({1, 2, -1, -2}) : 0;
      { In in; mypaint_surface_begin_atomic(t->surf()); } heap_fail_at = 0; mypaint_surface_begin_atomic(ref.surf());
      bool failed = heap_failed > 0; c.desc("begin%s", failed ? ", allocation failed" : ""); if (failed) { c.count("growth_failures"); c.count("failures_injected"); }
      int m = r.chance(0.25) ? 0 : r.irange(1, 4); diverged |= failed; Store::Snap before; if (m) before = t->snap(); else c.count("empty_transactions");
      for (int k = 0; k < m; k++) { Dab d = gen_dab(r, 60, 8); { In in; draw(t->surf(), d); } draw(ref.surf(), d); }
      if (r.chance(0.3)) { float a, b, cc, d; In in; mypaint_surface_get_color(t->surf(), 3, 4, 8, &a, &b, &cc, &d, -1); }
      MyPaintRectangle r1[300], r2[300]; MyPaintRectangles o1 = {r.irange(0, 300), r1}, o2 = o1; o2.rectangles = r2; int cap = o1.num_rectangles;
      { In in; mypaint_surface_end_atomic(t->surf(), &o1); } mypaint_surface_end_atomic(ref.surf(), &o2); c.evals();
      t->check_idle(c, "after a failed growth"); if (o1.num_rectangles > cap) c.viol("roi", "%d rectangles reported with room for %d", o1.num_rectangles, cap);
      // with or without enough boxes, what changed lies in what is reported
      if (m && cap > 0) {
        uint64_t changed = 0; for (auto &k : t->tiles) {
          auto it = before.find(k.first); static const uint16_t z[TILE_U16] = {}; const uint16_t *q = it != before.end() ? it->second.data() : z; if (!memcmp(q, k.second.px, TILE_U16 * 2)) continue;
          int tx = (int)(uint32_t)(k.first >> 32), ty = (int)(uint32_t)k.first;
          for (int i = 0; i < TS * TS && !c.bad(); i++) if (memcmp(q + 4 * i, k.second.px + 4 * i, 8)) {
            changed++; int x = tx * TS + i % TS, y = ty * TS + i / TS; bool in = false; for (int k2 = 0; k2 < o1.num_rectangles && !in; k2++) in = x >= r1[k2].x && x < r1[k2].x + r1[k2].width && y >= r1[k2].y && y < r1[k2].y + r1[k2].height;
            if (!in) c.viol("roi", "pixel (%d,%d) changed outside the %d reported rectangles%s", x, y, o1.num_rectangles, failed ? ", an allocation having failed" : ""); }
        }
        if (changed) c.count(failed ? "covered_after_failure" : "covered");
      }
      c.sig(mixh(t->hash(), (uint64_t)o1.num_rectangles));
      // once memory is available again everything is painted as configured
      if (!failed) {
        t->tiles.swap(t->tiles); std::string why;
        if (!diverged) { if (!same_pixels(*t, ref, &why)) { c.viol("recovery", "pixels differ from a surface that never lacked memory: %s", why.c_str()); } }
        else { // paint the same dab on both after clearing
          for (auto &k : t->tiles) memset(k.second.px, 0, TILE_U16 * 2); for (auto &k : ref.tiles) memset(k.second.px, 0, TILE_U16 * 2);
          diverged = false; Dab d = gen_dab(r, 60, 8); { In in; mypaint_surface_begin_atomic(t->surf()); draw(t->surf(), d); mypaint_surface_end_atomic(t->surf(), nullptr); } mypaint_surface_begin_atomic(ref.surf()); draw(ref.surf(), d); mypaint_surface_end_atomic(ref.surf(), nullptr);
          if (!same_pixels(*t, ref, &why)) c.viol("recovery", "after memory became available again pixels differ from a surface that never lacked it: %s", why.c_str());
          c.count("recoveries"); } }
    }
    { In in; mypaint_surface_unref(t->surf()); } t->destroyed = true; if (t->destroyed_n != 1) c.viol("destroy-calls", "destroy was called %d times", t->destroyed_n);
    t.reset();
  }
  if (!c.bad() && heap_live() != start) c.viol("leak", "%ld blocks remain allocated after the surface was released", heap_live() - start);
  if (c.bad()) heap_forget(); c.count("growths");
}
static void one(Case &c) {
  static bool warm = false; if (!warm) { warm = true; printf(" "); fprintf(stderr, " "); fflush(stdout); MyPaintBrush *b = mypaint_brush_new(); mypaint_brush_from_string(b, "{\"version\":3,\"settings\":{}}"); mypaint_brush_from_string(b, "{"); mypaint_brush_unref(b);
    b = mypaint_brush_new(); GValue v = G_VALUE_INIT; g_value_init(&v, mypaint_brush_get_type()); g_value_take_boxed(&v, b); g_value_unset(&v); mypaint_surface_get_type(); mypaint_fixed_tiled_surface_get_type(); mypaint_rectangle_get_type(); }
  double u = c.rng.uni(); if (u < 0.5) lifetimes(c); else if (u < 0.6) creation(c); else growth(c);
}
VP_MAIN("P20", one)
