// Scripts of API calls, and a runner that logs everything a run shows to its caller.
// The includer defines "struct In" (scope guard held during every library call).
#pragma once
#include "lib.hpp"
#include "jsongen.hpp"
using namespace vp;
struct Op { int k; Event e; float f[10]; int i[4]; std::string s; Dab d; };
struct Script { uint64_t brush_seed; int buckets; std::vector<Op> ops; bool fixed; int w, h; uint64_t bg; double ext; };
// everything a run shows to its caller, in order
struct Log { std::vector<uint64_t> v; std::vector<std::string> what; void add(uint64_t h, const std::string &s) { v.push_back(h); what.push_back(s); } };

static thread_local int (*orig_draw)(MyPaintSurface *, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float);
static thread_local uint64_t dab_hash, dab_n, dab_total; static thread_local double area;
static thread_local void (*spy_hook)();
static int spy(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float o, float h, float so, float a, float ra, float an, float l, float c, float p, float n, float pa) {
  float f[17] = {x, y, radius, r, g, b, o, h, so, a, ra, an, l, c, p, n, pa}; dab_hash = mixh(dab_hash, fnv(f, sizeof f)); dab_n++; if (spy_hook) spy_hook(); if (radius > 0) area += std::min(1e6, 100. + radius * radius);
  return orig_draw(s, x, y, radius, r, g, b, o, h, so, a, ra, an, l, c, p, n, pa);
}
static Script gen_script(Rng &r) {
  Script s; s.brush_seed = r.u64(); s.buckets = r.chance(0.5) ? r.irange(1, 8) : 0; s.fixed = r.chance(0.3); s.w = r.irange(1, 300); s.h = r.irange(1, 300); s.bg = r.chance(0.5) ? r.u64() : 0;
  s.ext = 70; Walk w(r, s.ext); int n = r.irange(10, 60); bool lin = r.chance(0.2);
  for (int i = 0; i < n; i++) {
    Op o; memset((void *)&o.e, 0, sizeof o.e); memset(o.f, 0, sizeof o.f); memset(o.i, 0, sizeof o.i);
    double u = r.uni();
    if (u < 0.72) { o.k = 0; o.e = w.next(r, lin); }
    else if (u < 0.76) { o.k = 1; for (float &x : o.f) x = (float)r.range(-100, 100); o.f[2] = (float)r.logrange(1, 30); o.f[3] = (float)r.pick({-1, 0, 1, 0.5}); }
    else if (u < 0.80) { o.k = 2; o.i[0] = r.chance(0.7); o.i[1] = (int)r.below(5); o.i[2] = r.irange(2, 6); for (float &x : o.f) x = (float)r.range(-90, 90); }
    else if (u < 0.84) { o.k = 3; }                                        // new transaction
    else if (u < 0.87) { o.k = 4; o.i[0] = (int)r.below(2); }              // reset / new stroke
    else if (u < 0.90) { o.k = 5; o.s = gen_doc(r, 0.1, true).text; if (r.chance(0.3)) o.s = o.s.substr(0, r.below((uint32_t)o.s.size())); }
    else if (u < 0.93) { o.k = 6; o.i[0] = (int)r.below(MYPAINT_BRUSH_STATES_COUNT); if (o.i[0] == ST_(X) || o.i[0] == ST_(Y)) o.i[0] = ST_(CUSTOM_INPUT); o.f[0] = (float)r.range(0, 1); }
    else if (u < 0.96) { o.k = 7; o.i[0] = (int)r.below(9) - 1; for (float &x : o.f) x = (float)r.uni(); }
    else if (u < 0.98) { o.k = 9; o.d = gen_dab(r, s.ext, 25); o.d.ratio = std::min(o.d.ratio, 4.f); }
    else { o.k = 8; const int ok[] = {S_(COLOR_H), S_(COLOR_S), S_(COLOR_V), S_(HARDNESS), S_(OPAQUE), S_(SMUDGE), S_(SLOW_TRACKING), S_(SPEED1_GAMMA), S_(PAINT_MODE), S_(GRIDMAP_SCALE), S_(ELLIPTICAL_DAB_ANGLE)};
      o.i[0] = ok[r.below(11)]; const MyPaintBrushSettingInfo *si = mypaint_brush_setting_info((MyPaintBrushSetting)o.i[0]); o.f[0] = (float)r.range(si->min, si->max); }
    s.ops.push_back(o);
  }
  return s;
}
static void run(const Script &s, const std::function<void()> &pre, Log &log) {
  Rng br_rng(s.brush_seed);
  pre();
  MyPaintBrush *raw; { In in; raw = s.buckets ? mypaint_brush_new_with_buckets(s.buckets) : mypaint_brush_new(); }
  for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) { float f = mypaint_brush_get_state(raw, (MyPaintBrushState)i); log.add(fnv(&f, 4), fmt("initial state %d = %.9g", i, f)); }
  for (int i = 0; i < s.buckets; i++) { float q[9] = {0}; pre(); { In in; mypaint_brush_get_smudge_bucket_state(raw, i, q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, q + 8); } log.add(fnv(q, sizeof q), fmt("initial bucket %d: %g %g %g %g ...", i, q[0], q[1], q[2], q[3])); }
  { BrushDump d = dump(raw); for (auto &e : d.e) log.add(fnv(&e.base, 4), fmt("initial base value %.9g", e.base)); }
  mypaint_brush_from_defaults(raw);
  struct Holder { MyPaintBrush *b; ~Holder() { In in; mypaint_brush_unref(b); } } hold{raw};
  Brush br(0); std::swap(br.b, hold.b);      // generator works on a Brush
  BrushGen g; g.rad_lo = -0.5; g.rad_hi = 2.3f; g.density_hi = 3; { pre(); In in; gen_brush(br_rng, br, g); }
  br.set(S_(OFFSET_MULTIPLIER), 0); br.set(S_(SMUDGE_RADIUS_LOG), (float)br_rng.range(-1.6, 0.4)); br.nomap(S_(SMUDGE_RADIUS_LOG)); if (br_rng.chance(0.4)) { br.set(S_(SMUDGE), 0.8f); br.set(S_(SMUDGE_BUCKET), (float)br_rng.irange(0, 9)); }
  Store st; st.logging = false; if (s.bg) st.fill = fill_noise(s.bg);
  MyPaintFixedTiledSurface *fx = nullptr; if (s.fixed) { pre(); In in; fx = mypaint_fixed_tiled_surface_new(s.w, s.h); }
  MyPaintSurface *sf = fx ? mypaint_fixed_tiled_surface_interface(fx) : st.surf(); MyPaintTiledSurface *ts = fx ? (MyPaintTiledSurface *)fx : &st.base;
  orig_draw = sf->draw_dab; sf->draw_dab = spy;
  auto begin = [&]() { pre(); In in; mypaint_surface_begin_atomic(sf); };
  auto end = [&]() { MyPaintRectangle q[20]; memset(q, 0, sizeof q); MyPaintRectangles roi = {20, q}; pre(); { In in; mypaint_surface_end_atomic(sf, &roi); }
    log.add(mixh(roi.num_rectangles, fnv(q, sizeof q[0] * std::max(0, std::min(20, roi.num_rectangles)))), fmt("%d rectangles", roi.num_rectangles)); };
  begin(); dab_total = 0; area = 0;
  for (size_t k = 0; k < s.ops.size() && dab_total < 1200 && area < 4e5; k++) {
    const Op &o = s.ops[k]; pre(); std::string t;
    switch (o.k) {
      case 0: { dab_hash = dab_n = 0; int ret; { In in; ret = stroke(br.b, sf, o.e); } dab_total += dab_n; log.add(mixh(dab_hash, ret), fmt("op %zu event: %llu dabs, returned %d", k, (unsigned long long)dab_n, ret));
        double pt = mypaint_brush_get_total_stroke_painting_time(br.b); log.add(fnv(&pt, 8), fmt("op %zu painting time %.17g", k, pt)); break; }
      case 1: { float c[4]; { In in; mypaint_surface_get_color(sf, o.f[0], o.f[1], o.f[2], c, c + 1, c + 2, c + 3, o.f[3]); } log.add(fnv(c, 16), fmt("op %zu sample %g %g %g %g", k, c[0], c[1], c[2], c[3])); break; }
      case 2: { In in; mypaint_tiled_surface_set_symmetry_state(ts, o.i[0], o.f[0] / 10, o.f[1] / 10, o.f[2], (MyPaintSymmetryType)o.i[1], o.i[2]); break; }
      case 3: end(); begin(); break;
      case 4: { In in; if (o.i[0]) mypaint_brush_reset(br.b); else mypaint_brush_new_stroke(br.b); break; }
      case 5: { bool ok; { In in; ok = mypaint_brush_from_string(br.b, o.s.c_str()); } log.add(ok, fmt("op %zu load: %d", k, ok));
        In in; for (int i : {S_(RADIUS_LOGARITHMIC), S_(DABS_PER_ACTUAL_RADIUS), S_(DABS_PER_BASIC_RADIUS), S_(DABS_PER_SECOND), S_(OFFSET_MULTIPLIER), S_(RADIUS_BY_RANDOM), S_(OFFSET_BY_RANDOM), S_(OFFSET_X), S_(OFFSET_Y), S_(OFFSET_BY_SPEED), S_(TRACKING_NOISE), S_(SMUDGE_RADIUS_LOG), S_(ANTI_ALIASING)}) { br.nomap(i); br.set(i, i == S_(RADIUS_LOGARITHMIC) ? 1.5f : i == S_(DABS_PER_ACTUAL_RADIUS) ? 2.f : 0); } break; }
      case 6: { In in; br.setstate(o.i[0], o.f[0]); break; }
      case 7: { bool ok; { In in; ok = mypaint_brush_set_smudge_bucket_state(br.b, o.i[0], o.f[0], o.f[1], o.f[2], o.f[3], o.f[4], o.f[5], o.f[6], o.f[7], o.f[8]); } log.add(ok, fmt("op %zu bucket %d: %d", k, o.i[0], ok)); break; }
      case 9: { int ret; { In in; ret = draw(sf, o.d); } log.add(ret, fmt("op %zu dab: %d", k, ret)); break; }
      case 8: { In in; br.set(o.i[0], o.f[0]); break; }
    }
    uint64_t h = 0; for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) { float f = br.state(i); h = mixh(h, fnv(&f, 4)); }
    log.add(h, fmt("op %zu (kind %d) states", k, o.k));
    for (int i = 0; i < s.buckets; i++) { float q[9] = {0}; mypaint_brush_get_smudge_bucket_state(br.b, i, q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, q + 8); log.add(fnv(q, sizeof q), fmt("op %zu bucket %d state", k, i)); }
    if (progress()) progress()->beats = progress()->beats + 1;
  }
  end();
  if (fx) {
    for (int ty = 0; ty * TS < s.h; ty++) for (int tx = 0; tx * TS < s.w; tx++) { MyPaintTileRequest q; mypaint_tile_request_init(&q, 0, tx, ty, TRUE); mypaint_tiled_surface_tile_request_start(ts, &q); log.add(fnv(q.buffer, TILE_U16 * 2), fmt("tile %d,%d", tx, ty)); mypaint_tiled_surface_tile_request_end(ts, &q); }
    In in; mypaint_surface_unref(sf);
  } else log.add(st.hash(), "pixels");
  std::swap(br.b, hold.b);
}
