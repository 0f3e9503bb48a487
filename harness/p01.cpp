// P01: no API history corrupts memory, executes undefined behaviour, reads uninitialised memory, leaks or aborts.
// The sanitizers and memcheck are the oracle; this drives histories over every public entry point.
#include "hostile.hpp"
#include "jsongen.hpp"
extern "C" {
#include "mypaint.h"
#include "mypaint-rectangle.h"
}
#include <valgrind/memcheck.h>
using namespace vp;
static uint64_t n_undefined; static std::string undefined_what;
// anything the library hands back must have been initialised (only memcheck can tell)
static void defined(const void *p, size_t n, const char *what) { if (RUNNING_ON_VALGRIND && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) { if (!n_undefined++) undefined_what = what; } }

typedef decltype(((MyPaintSurface *)0)->draw_dab) DrawFn;
static std::map<MyPaintSurface *, DrawFn> orig; static std::map<MyPaintSurface *, double> mult; static double work; static uint64_t dabs_seen; static double maxwork; static jmp_buf stop; static bool armed; static uint64_t ev_dabs;
static int spy(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float o, float h, float so, float a, float ra, float an, float l, float c, float p, float n, float pa) {
  float f[17] = {x, y, radius, r, g, b, o, h, so, a, ra, an, l, c, p, n, pa}; defined(f, sizeof f, "dab parameters"); dabs_seen++;
  if (++ev_dabs > 20000 && armed) longjmp(stop, 1);
  double m = mult.count(s) ? mult[s] : 1, cost = m * (std::isfinite(radius) ? std::min(4e6, 200. + 3. * radius * radius) : 200.);
  if (work > 0 && work + cost > maxwork) return 1; work += cost;
  // a dab there is queued in a table that grows with the square of the distance (gigabytes): not in reach of a test
  auto costly = [](float v) { return fabsf(v) > 5e4f && fabsf(v) < 1.4e6f; }; if (costly(x) || costly(y)) return 1;
  return orig[s](s, x, y, radius, r, g, b, o, h, so, a, ra, an, l, c, p, n, pa);
}
typedef decltype(((MyPaintSurface *)0)->get_color) ColFn; static std::map<MyPaintSurface *, ColFn> origc;
static void spyc(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *a, float paint) {
  float f[4] = {x, y, radius, paint}; defined(f, sizeof f, "sampling parameters"); if (++ev_dabs > 20000 && armed) longjmp(stop, 1);
  work += std::isfinite(radius) ? std::min(4e6, 200. + (double)radius * radius) : 200.;
  if (work > maxwork) { *r = *g = *b = *a = 0.5f; return; }
  origc[s](s, x, y, radius, r, g, b, a, paint);
}
// a tile store that may refuse tiles, and hands out one scratch tile once it holds many
struct Tiles {
  MyPaintTiledSurface base; std::unordered_map<uint64_t, uint16_t *> t; uint16_t *scratch = nullptr; double refuse = 0; uint64_t salt = 0, fillseed = 0, refused = 0; size_t cap = 500; int destroyed = 0;
  static void st(MyPaintTiledSurface *s, MyPaintTileRequest *q) {
    Tiles *T = (Tiles *)s; if (progress()) progress()->beats = progress()->beats + 1;
    if (T->refuse > 0 && Rng(mixh(T->salt, tkey(q->tx, q->ty))).uni() < T->refuse) { q->buffer = nullptr; T->refused++; return; }
    auto it = T->t.find(tkey(q->tx, q->ty));
    if (it == T->t.end()) {
      if (T->t.size() >= T->cap) { if (!T->scratch) T->scratch = (uint16_t *)calloc(1, TILE_U16 * 2); q->buffer = T->scratch; return; }
      uint16_t *p = (uint16_t *)calloc(1, TILE_U16 * 2); if (!p) harness_error("oom"); if (T->fillseed) fill_noise(T->fillseed)(p, q->tx, q->ty); it = T->t.emplace(tkey(q->tx, q->ty), p).first;
    }
    q->buffer = it->second;
  }
  static void en(MyPaintTiledSurface *, MyPaintTileRequest *) {}
  static void de(MyPaintSurface *s) { Tiles *T = (Tiles *)s; mypaint_tiled_surface_destroy(&T->base); T->destroyed++; }
  Tiles() { memset((void *)&base, 0xA5, sizeof base); if (RUNNING_ON_VALGRIND) VALGRIND_MAKE_MEM_UNDEFINED(&base, sizeof base); mypaint_tiled_surface_init(&base, st, en); base.parent.destroy = de; }
  ~Tiles() { for (auto &k : t) free(k.second); free(scratch); }
};
struct S { MyPaintSurface *s = nullptr; MyPaintTiledSurface *ts = nullptr; std::unique_ptr<Tiles> t; bool open = false; int w = 0, h = 0; };

static float wild(Rng &r) { return (float)r.pick({NAN, INFINITY, -INFINITY, 0, -0.0, 1, -1, 1e9, -1e9, 1e30, -1e30, 1e-30, 1e-42, 2147483648.0, -2147483904.0, 0.5, 32768, 65536, FLT_MAX, -FLT_MAX}); }
static void mapping_api(Case &c) {
  Rng &r = c.rng; int ni = r.irange(1, 20); MyPaintMapping *m = mypaint_mapping_new(ni); std::vector<int> n((size_t)ni, 0); std::vector<float> in((size_t)ni);
  for (int k = 0; k < 30; k++) {
    int i = (int)r.below((uint32_t)ni);
    switch (r.below(5)) {
      case 0: { int q = (int)r.pick({0, 2, 3, 64, 63}); mypaint_mapping_set_n(m, i, q); n[(size_t)i] = q; float x = -3; for (int j = 0; j < q; j++) { x += r.chance(0.1) ? 0.f : 1.f; mypaint_mapping_set_point(m, i, j, x, (float)r.range(-5, 5)); } break; }
      case 1: if (n[(size_t)i]) { int j = (int)r.below((uint32_t)n[(size_t)i]); float x = -1, y = -1; mypaint_mapping_get_point(m, i, j, &x, &y); defined(&x, 4, "curve point"); mypaint_mapping_set_point(m, i, j, x, (float)r.range(-3, 3)); } break;
      case 2: mypaint_mapping_set_base_value(m, r.chance(0.2) ? wild(r) : (float)r.range(-5, 5)); break;
      case 3: { for (auto &f : in) f = r.chance(0.1) ? wild(r) : (float)r.range(-10, 100); float v = mypaint_mapping_calculate(m, in.data()); defined(&v, 4, "mapping value"); break; }
      default: { int a = mypaint_mapping_is_constant(m), b = mypaint_mapping_get_inputs_used_n(m), d = mypaint_mapping_get_n(m, i); defined(&a, 4, "is_constant"); defined(&b, 4, "inputs used"); defined(&d, 4, "points"); if (ni == 1) { float v = mypaint_mapping_calculate_single_input(m, (float)r.range(-2, 2)); defined(&v, 4, "single input value"); } }
    }
  }
  mypaint_mapping_free(m); c.count("mapping_histories");
}
static void rectangle_api(Case &c) {
  Rng &r = c.rng; MyPaintRectangle q = {0, 0, 0, 0};
  for (int k = 0; k < 8; k++) { if (r.chance(0.6)) mypaint_rectangle_expand_to_include_point(&q, r.irange(-100000, 100000), r.irange(-100000, 100000)); else { MyPaintRectangle o = {r.irange(-1000, 1000), r.irange(-1000, 1000), r.irange(0, 500), r.irange(0, 500)}; mypaint_rectangle_expand_to_include_rect(&q, &o); } }
  MyPaintRectangle *p = (MyPaintRectangle *)mypaint_rectangle_copy(&q); defined(p, sizeof *p, "rectangle copy"); if (memcmp(p, &q, sizeof q)) c.viol("rectangle-copy", "copied rectangle differs"); free(p);
}
static void one(Case &c) {
  Rng &r = c.rng; const bool vg = RUNNING_ON_VALGRIND; unsigned verr = vg ? (unsigned)VALGRIND_COUNT_ERRORS : 0; n_undefined = 0; undefined_what.clear();
  static bool once = false; if (!once) { once = true; mypaint_init(); }
  if (r.chance(0.1)) mapping_api(c); if (r.chance(0.1)) rectangle_api(c);
  struct B { std::unique_ptr<Brush> b; int buckets; double cost; bool extra_ref = false; Bounds bd; }; std::vector<B> bs; std::vector<S> ss;
  work = 0; maxwork = vg ? 1e5 : 1e6; orig.clear(); uint64_t d0 = dabs_seen, hist = 0; uint64_t n_null = 0;
  auto newb = [&]() {
    B b; b.buckets = r.chance(0.5) ? 0 : (int)r.pick({1, 2, 8, 256}); b.b.reset(new Brush(b.buckets, false)); if (r.chance(0.9)) mypaint_brush_from_defaults(b.b->b);
    double rhi = r.range(-1, r.chance(0.1) ? 6 : 3); bool dense = r.chance(0.3);
    std::string d = gen_ranged(r, *b.b, b.bd, [&](int s, float &lo, float &hi) {
      if (s == S_(RADIUS_LOGARITHMIC)) hi = (float)rhi; if (s == S_(DABS_PER_ACTUAL_RADIUS) || s == S_(DABS_PER_BASIC_RADIUS)) hi = dense ? 8 : 0.5; if (s == S_(DABS_PER_SECOND)) hi = dense ? 100 : 10; }, r.range(0.05, 0.8), r.range(0, 0.4));
    if (b.bd.hi[S_(OPAQUE_MULTIPLY)] == 0) b.b->set(S_(OPAQUE_MULTIPLY), 1);
    c.desc("brush %zu (%d buckets): %s", bs.size(), b.buckets, d.c_str()); bs.push_back(std::move(b));
  };
  auto news = [&]() {
    S s;
    if (r.chance(0.5)) { s.w = (int)(r.chance(0.3) ? r.pick({1, 63, 64, 65, 128}) : r.irange(1, 400)); s.h = (int)(r.chance(0.3) ? r.pick({1, 63, 64, 65, 128}) : r.irange(1, 400)); MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(s.w, s.h); if (!f) harness_error("no surface");
      int w = mypaint_fixed_tiled_surface_get_width(f), h = mypaint_fixed_tiled_surface_get_height(f); defined(&w, 4, "width"); defined(&h, 4, "height"); s.s = mypaint_fixed_tiled_surface_interface(f); s.ts = (MyPaintTiledSurface *)f; c.desc("surface %zu: fixed %dx%d", ss.size(), s.w, s.h); }
    else { s.t.reset(new Tiles); s.s = &s.t->base.parent; s.ts = &s.t->base; if (r.chance(0.3)) { s.t->refuse = r.pick({0.05, 0.3, 1}); s.t->salt = r.u64(); } if (r.chance(0.5)) s.t->fillseed = r.u64(); if (r.chance(0.2)) s.ts->threadsafe_tile_requests = TRUE; if (vg) s.t->cap = 150; c.desc("surface %zu: tiles, %g refused", ss.size(), s.t->refuse); }
    orig[s.s] = s.s->draw_dab; s.s->draw_dab = spy; mult[s.s] = 1; origc[s.s] = s.s->get_color; s.s->get_color = spyc; ss.push_back(std::move(s));
  };
  auto begin = [&](S &s) { if (!s.open) { mypaint_surface_begin_atomic(s.s); s.open = true; } };
  auto end = [&](S &s) {
    int cap = (int)r.pick({0, 1, 2, 5, 20, 300}); std::vector<MyPaintRectangle> q((size_t)cap + 1); memset(q.data(), 0, q.size() * sizeof q[0]); MyPaintRectangles roi = {cap, q.data()}; q[(size_t)cap].x = 4711;
    if (r.chance(0.2)) mypaint_surface_end_atomic(s.s, nullptr);
    else { mypaint_surface_end_atomic(s.s, &roi); defined(&roi.num_rectangles, 4, "number of rectangles"); int n = std::min(cap, roi.num_rectangles); if (n > 0) defined(q.data(), sizeof q[0] * (size_t)n, "rectangles"); if (q[(size_t)cap].x != 4711) c.viol("rectangles", "more rectangles written than the array holds"); }
    s.open = false;
  };
  newb(); news(); if (r.chance(0.5)) newb(); if (r.chance(0.5)) news();
  Walk w(r, 150); int n = r.irange(10, vg ? 40 : 90); float vf;
  for (int k = 0; k < n && !c.bad(); k++) {
    int op = (int)r.below(100); size_t bi = bs.empty() ? 0 : r.below((uint32_t)bs.size()), si = ss.empty() ? 0 : r.below((uint32_t)ss.size()); hist = mixh(hist, (uint64_t)op);
    if (bs.empty()) newb(); if (ss.empty()) news(); bi = std::min(bi, bs.size() - 1); si = std::min(si, ss.size() - 1);
    B &b = bs[bi]; S &s = ss[si]; MyPaintBrush *mb = b.b->b;
    if (op < 34) {            // motion events
      begin(s); int m = r.irange(1, 6);
      for (int q = 0; q < m; q++) {
        Event e = w.next(r, r.chance(0.2)); if (r.chance(0.25)) { make_hostile(r, e); if (fabs(e.x) > 2e3 && fabs(e.x) <= 1e8) e.x = copysignf(2e3f, e.x); if (fabs(e.y) > 2e3 && fabs(e.y) <= 1e8) e.y = copysignf(2e3f, e.y);  /* (the length of motions is P15's subject) */ c.count("hostile_events"); }
        c.desc("brush %zu on surface %zu: %s", bi, si, evstr(e).c_str()); ev_dabs = 0; armed = true;
        if (setjmp(stop)) { armed = false; mypaint_brush_reset(mb); c.count("long_events_cut"); break; }
        int ret = stroke(mb, s.s, e); armed = false; defined(&ret, 4, "stroke_to result"); for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) { vf = mypaint_brush_get_state(mb, (MyPaintBrushState)i); defined(&vf, 4, "brush state"); }
      }
      c.count("events", (uint64_t)m);
    } else if (op < 50) {     // direct dabs
      begin(s); int m = r.irange(1, 5);
      for (int q = 0; q < m; q++) {
        Dab d = gen_dab(r, r.chance(0.1) ? 30000 : 150, r.chance(0.1) ? 300 : 30, r.chance(0.4)); if (r.chance(0.15)) { d.x = hostile_pos(r); } if (r.chance(0.15)) d.y = hostile_pos(r); if (r.chance(0.1)) d.radius = (float)r.pick({NAN, INFINITY, -INFINITY, -1, 0, 0.0999, 1e30, 1e9}); if (r.chance(0.1)) d.angle = wild(r); if (r.chance(0.1)) d.ratio = wild(r); if (r.chance(0.1)) d.hardness = wild(r); if (r.chance(0.05)) d.num = wild(r); if (r.chance(0.05)) d.paint = wild(r); if (r.chance(0.05)) d.softness = wild(r); if (r.chance(0.05)) d.alpha = wild(r); if (r.chance(0.05)) d.r = wild(r); if (r.chance(0.05)) d.opaque = wild(r);
        c.desc("surface %zu: %s", si, d.str().c_str()); int ret = draw(s.s, d); defined(&ret, 4, "draw_dab result"); if (!d.finite()) c.count("non_finite_dabs");
      }
      c.count("direct_dabs", (uint64_t)m);
    } else if (op < 58) {     // sampling
      if (r.chance(0.8)) begin(s); float o[4] = {0, 0, 0, 0}, x = r.chance(0.2) ? hostile_pos(r) : (float)r.range(-300, 300), y = r.chance(0.2) ? hostile_pos(r) : (float)r.range(-300, 300), rad = r.chance(0.1) ? (float)r.pick({NAN, -1, 0, 1e-3, INFINITY, 1e20}) : (float)r.logrange(0.1, r.chance(0.1) ? 200 : 30), pa = r.chance(0.5) ? -1.f : (float)r.pick({0, 1, 0.5, 2});
      if (VALGRIND_MAKE_MEM_UNDEFINED(o, sizeof o)) {}
      c.desc("surface %zu: sample %g,%g radius %g mode %g", si, x, y, rad, pa);
      if (r.chance(0.8)) { mypaint_surface_get_color(s.s, x, y, rad, o, o + 1, o + 2, o + 3, pa); defined(o, sizeof o, "sampled colour"); } else { o[3] = mypaint_surface_get_alpha(s.s, x, y, rad); defined(o + 3, 4, "sampled alpha"); }
      c.count("samples");
    } else if (op < 66) { if (s.open) end(s); else begin(s); }
    else if (op < 71) {       // symmetry
      int nl = r.chance(0.15) ? (int)r.pick({-5, 0, 1, 2, 40, 13}) : r.irange(2, 6);
      if (!vg && r.chance(0.2)) nl = (int)r.pick({268435456, 119304648, 2147483647, 1073741825, -2147483648.0, 134217728});  // (no such allocation succeeds under the sanitizer's limit)
      float cx = r.chance(0.08) ? wild(r) : (float)r.range(-100, 100), cy = r.chance(0.08) ? wild(r) : (float)r.range(-100, 100), an = r.chance(0.08) ? wild(r) : (float)r.range(-200, 200);
      int ty = (int)r.below(5); mult[s.s] = std::max(mult[s.s], nl > 1000 ? 2. : std::max(1, nl) * 2.); c.desc("surface %zu: symmetry type %d centre %g,%g angle %g lines %d", si, ty, cx, cy, an, nl); mypaint_tiled_surface_set_symmetry_state(s.ts, r.chance(0.8), cx, cy, an, (MyPaintSymmetryType)ty, nl); c.count("symmetry_changes");
    } else if (op < 74) {     // a client looking at tiles
      MyPaintTileRequest q; bool ro = r.chance(0.7); int tx = r.irange(-3, 6), ty = r.irange(-3, 6); if (r.chance(0.1)) { tx = (int)r.pick({-2147483648.0, 2147483647.0, 100000}); } mypaint_tile_request_init(&q, 0, tx, ty, ro); mypaint_tiled_surface_tile_request_start(s.ts, &q);
      if (q.buffer) { defined(q.buffer, TILE_U16 * 2, "tile pixels"); if (!ro) { px_random(r, q.buffer); } } mypaint_tiled_surface_tile_request_end(s.ts, &q); c.count("tile_requests");
    } else if (op < 78) {     // loading
      std::string d = gen_doc(r, 0.1, true).text; if (r.chance(0.5)) d = d.substr(0, r.below((uint32_t)d.size())); c.desc("brush %zu: load %zu bytes", bi, d.size()); int ok = mypaint_brush_from_string(mb, d.c_str()); defined(&ok, 4, "from_string result"); c.count("loads");
      for (int set : {S_(RADIUS_LOGARITHMIC), S_(DABS_PER_ACTUAL_RADIUS), S_(DABS_PER_BASIC_RADIUS), S_(DABS_PER_SECOND), S_(ELLIPTICAL_DAB_RATIO)}) { b.b->nomap(set); b.b->set(set, set == S_(RADIUS_LOGARITHMIC) ? 1.5f : set == S_(DABS_PER_ACTUAL_RADIUS) ? 2.f : 0.f); }
    } else if (op < 82) {     // edits of curves
      int set = (int)r.below(MYPAINT_BRUSH_SETTINGS_COUNT), in = (int)r.below(MYPAINT_BRUSH_INPUTS_COUNT); bool risky = set == S_(RADIUS_LOGARITHMIC) || (set >= S_(DABS_PER_BASIC_RADIUS) && set <= S_(DABS_PER_SECOND)) || set == S_(ELLIPTICAL_DAB_RATIO);
      int q = (int)r.pick({0, 2, 3, 64}); const MyPaintBrushSettingInfo *si2 = mypaint_brush_setting_info((MyPaintBrushSetting)set); c.desc("brush %zu: curve %s <- input %d, %d points", bi, si2->cname, in, q);
      mypaint_brush_set_mapping_n(mb, (MyPaintBrushSetting)set, (MyPaintBrushInput)in, q); for (int j = 0; j < q; j++) mypaint_brush_set_mapping_point(mb, (MyPaintBrushSetting)set, (MyPaintBrushInput)in, j, (float)j * 0.3f, risky ? 0.f : r.chance(0.1) ? wild(r) : (float)r.range(-1, 1));
      if (q) { float x, y; mypaint_brush_get_mapping_point(mb, (MyPaintBrushSetting)set, (MyPaintBrushInput)in, (int)r.below((uint32_t)q), &x, &y); defined(&x, 4, "curve point"); defined(&y, 4, "curve point"); }
      int a = mypaint_brush_is_constant(mb, (MyPaintBrushSetting)set), bb = mypaint_brush_get_inputs_used_n(mb, (MyPaintBrushSetting)set), cc = mypaint_brush_get_mapping_n(mb, (MyPaintBrushSetting)set, (MyPaintBrushInput)in); defined(&a, 4, "is_constant"); defined(&bb, 4, "inputs used"); defined(&cc, 4, "points");
    } else if (op < 86) {     // base values
      int set = (int)r.below(MYPAINT_BRUSH_SETTINGS_COUNT); bool risky = set == S_(RADIUS_LOGARITHMIC) || (set >= S_(DABS_PER_BASIC_RADIUS) && set <= S_(DABS_PER_SECOND)) || set == S_(ELLIPTICAL_DAB_RATIO);
      if (!risky) { const MyPaintBrushSettingInfo *q = mypaint_brush_setting_info((MyPaintBrushSetting)set); float v = r.chance(0.15) ? wild(r) : (float)r.range(q->min, q->max); c.desc("brush %zu: %s = %g", bi, q->cname, v); mypaint_brush_set_base_value(mb, (MyPaintBrushSetting)set, v); vf = mypaint_brush_get_base_value(mb, (MyPaintBrushSetting)set); defined(&vf, 4, "base value"); }
    } else if (op < 89) {     // states and buckets
      if (r.chance(0.4)) { int st = (int)r.below(MYPAINT_BRUSH_STATES_COUNT); if (st != ST_(ACTUAL_RADIUS) && st != ST_(PARTIAL_DABS) && !(st >= ST_(DABS_PER_BASIC_RADIUS) && st <= ST_(DABS_PER_SECOND)) && st != ST_(ACTUAL_ELLIPTICAL_DAB_RATIO)) { float v = (float)r.range(-2, 2); c.desc("brush %zu: state %d = %g", bi, st, v); mypaint_brush_set_state(mb, (MyPaintBrushState)st, v); } }
      else { int i = (int)r.pick({-1, 0, 1, 7, 255, 256, 1e9, -1e9}); float q[9]; for (float &f : q) f = (float)r.uni(); int ok = mypaint_brush_set_smudge_bucket_state(mb, i, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8]); defined(&ok, 4, "bucket result"); int lo = mypaint_brush_get_min_smudge_bucket_used(mb), hi = mypaint_brush_get_max_smudge_bucket_used(mb); defined(&lo, 4, "min bucket"); defined(&hi, 4, "max bucket");
        int j = r.irange(-2, 260); float z[9]; if (mypaint_brush_get_smudge_bucket_state(mb, j, z, z + 1, z + 2, z + 3, z + 4, z + 5, z + 6, z + 7, z + 8)) defined(z, sizeof z, "bucket state"); c.count("bucket_accesses"); }
    } else if (op < 91) { if (r.chance(0.5)) mypaint_brush_reset(mb); else mypaint_brush_new_stroke(mb); double t = mypaint_brush_get_total_stroke_painting_time(mb); defined(&t, sizeof t, "painting time"); }
    else if (op < 92) mypaint_brush_set_print_inputs(mb, r.chance(0.5) && !vg);
    else if (op < 94) { if (bs.size() > 1 && r.chance(0.5)) { c.desc("free brush %zu", bi); bs.erase(bs.begin() + (long)bi); } else if (bs.size() < 4) newb(); }
    else if (op < 96) { if (ss.size() > 1 && r.chance(0.5)) { c.desc("free surface %zu%s", si, s.open ? " with dabs queued" : ""); mypaint_surface_unref(s.s); orig.erase(s.s); if (s.t) n_null += s.t->refused; ss.erase(ss.begin() + (long)si); c.count("surfaces_freed"); } else if (ss.size() < 4) news(); }
    else if (op < 97) { mypaint_brush_ref(mb); mypaint_surface_ref(s.s); mypaint_surface_unref(s.s); mypaint_brush_unref(mb); }
    else if (op < 98) { for (int i = 0; i < 3; i++) { const char *nm[] = {"opaque", "no_such_thing", ""}; int v = mypaint_brush_setting_from_cname(nm[i]), u = mypaint_brush_input_from_cname(nm[i]); defined(&v, 4, "setting id"); defined(&u, 4, "input id"); } const MyPaintBrushSettingInfo *q = mypaint_brush_setting_info((MyPaintBrushSetting)r.below(MYPAINT_BRUSH_SETTINGS_COUNT)); const char *t = mypaint_brush_setting_info_get_name(q); defined(t, strlen(t) + 1, "setting name"); t = mypaint_brush_setting_info_get_tooltip(q); defined(t, strlen(t) + 1, "setting tooltip"); }
    else if (op < 99) { mypaint_surface_save_png(s.s, "/nonexistent/x.png", 0, 0, 10, 10); }
    else mypaint_brush_from_defaults(mb);
    c.beat();
  }
  c.desc("release everything"); bool first = r.chance(0.5); if (first) bs.clear();
  for (auto &s : ss) {
    if (s.open && r.chance(0.7)) end(s); if (s.t) { n_null += s.t->refused; for (auto &q : s.t->t) defined(q.second, TILE_U16 * 2, "painted pixels"); }
    else if (vg) for (int ty = 0; ty * TS < s.h; ty++) for (int tx = 0; tx * TS < s.w; tx++) { MyPaintTileRequest q; mypaint_tile_request_init(&q, 0, tx, ty, TRUE); mypaint_tiled_surface_tile_request_start(s.ts, &q); defined(q.buffer, TILE_U16 * 2, "painted pixels"); mypaint_tiled_surface_tile_request_end(s.ts, &q); }
    mypaint_surface_unref(s.s); c.count("surfaces_freed");
  }
  ss.clear(); bs.clear();
  if (n_undefined) c.viol("uninitialised", "%s not initialised (%llu times)", undefined_what.c_str(), (unsigned long long)n_undefined);
  if (vg && (unsigned)VALGRIND_COUNT_ERRORS != verr && !n_undefined) c.viol("memcheck", "valgrind reported %u errors; replay and see its log", (unsigned)VALGRIND_COUNT_ERRORS - verr);
  c.evals((uint64_t)n); c.count("dabs", dabs_seen - d0); if (n_null) c.count("histories_with_refused_tiles"); if (vg) c.count("memcheck_histories"); c.sig(hist);
  if (c.idx % 71 == 4) c.sample("%d calls, %llu dabs, %llu tiles refused%s", n, (unsigned long long)(dabs_seen - d0), (unsigned long long)n_null, vg ? ", under memcheck" : "");
}
VP_MAIN("P01", one)
