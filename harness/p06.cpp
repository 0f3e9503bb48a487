// P06: pixels stay valid under any dab; out-of-range arguments act clamped; new surfaces are valid.
#include "lib.hpp"
using namespace vp;

static bool check_tile(Case &c, const uint16_t *p, int tx, int ty, const char *what) {
  for (int i = 0; i < TS * TS; i++, p += 4) {
    if (p[3] > ONE15 || p[0] > p[3] || p[1] > p[3] || p[2] > p[3]) {
      c.viol(p[3] > ONE15 ? "alpha-range" : "colour-above-alpha", "%s: pixel (%d,%d) = %d %d %d alpha %d", what, tx * TS + i % TS, ty * TS + i / TS, p[0], p[1], p[2], p[3]);
      return false;
    }
  }
  return true;
}
static float cl(float v, float lo, float hi) { return v > hi ? hi : v < lo ? lo : v; }

static void fixed_case(Case &c) {
  Rng &r = c.rng;
  int w = r.irange(1, 300), h = r.irange(1, 300);
  c.desc("fixed surface %dx%d", w, h);
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h);
  if (!f) harness_error("no fixed surface");
  MyPaintTiledSurface *t = (MyPaintTiledSurface *)mypaint_fixed_tiled_surface_interface(f);
  auto scan = [&](const char *what) {
    for (int ty = 0; ty <= (h - 1) / TS; ty++)
      for (int tx = 0; tx <= (w - 1) / TS; tx++) {
        MyPaintTileRequest q; mypaint_tile_request_init(&q, 0, tx, ty, TRUE);
        mypaint_tiled_surface_tile_request_start(t, &q);
        bool ok = check_tile(c, q.buffer, tx, ty, what);
        mypaint_tiled_surface_tile_request_end(t, &q);
        c.evals(); if (!ok) return false;
      }
    return true;
  };
  if (scan("fresh fixed surface")) {
    for (int k = 0; k < 4; k++) {
      Dab d = gen_dab(r, 200, 60); c.desc("%s", d.str().c_str());
      mypaint_surface_begin_atomic((MyPaintSurface *)t); draw((MyPaintSurface *)t, d); mypaint_surface_end_atomic((MyPaintSurface *)t, nullptr);
    }
    scan("fixed surface after dabs");
    c.count("fixed_surfaces");
  }
  mypaint_surface_unref((MyPaintSurface *)t);
}

static void one(Case &c) {
  Rng &r = c.rng;
  if (c.idx % 12 == 0) { fixed_case(c); return; }
  Store st; st.logging = false; Store st2; st2.logging = false;
  uint64_t seed = r.u64();
  switch (r.below(3)) {
    case 0: st.fill = fill_noise(seed); break;
    case 1: { uint16_t p[4]; Rng q(seed); px_random(q, p); st.fill = fill_uniform(p[0], p[1], p[2], p[3]); break; }
    default: break;
  }
  st2.fill = st.fill;
  int n = r.irange(4, 14);
  // one family of modes gets hammered repeatedly so that rounding compounds
  int fam = (int)r.below(7); float rad = (float)r.logrange(1, 45);
  for (int k = 0; k < n; k++) {
    bool hostile = r.chance(0.3);
    Dab d = gen_dab(r, 30, rad + 3, hostile);
    if (!hostile) switch (fam) {
      case 0: d.lock = d.colorize = d.posterize = 0; d.paint = r.chance(0.5) ? 0 : 1; break;
      case 1: d.posterize = r.chance(0.5) ? 1 : (float)r.uni(); break;
      case 2: d.colorize = r.chance(0.5) ? 1 : (float)r.uni(); { if (r.chance(0.3)) d.r = d.g = d.b = r.chance(0.5) ? 0.f : 1.f; } break;
      case 3: d.lock = r.chance(0.5) ? 1 : (float)r.uni(); break;
      case 4: d.paint = r.chance(0.5) ? 1 : (float)r.uni(); break;
      case 5: d.lock = (float)r.uni(); d.colorize = (float)r.uni(); d.posterize = (float)r.uni(); d.paint = (float)r.uni(); break;
      default: break;
    }
    c.desc("%s", d.str().c_str());
    uint64_t h0 = r.chance(0.2) ? st.hash() : 0;
    mypaint_surface_begin_atomic(st.surf());
    int m1 = draw(st.surf(), d);
    mypaint_surface_end_atomic(st.surf(), nullptr);
    // same dab with arguments clamped by us
    Dab e = d;
    e.r = cl(e.r, 0, 1); e.g = cl(e.g, 0, 1); e.b = cl(e.b, 0, 1); e.alpha = cl(e.alpha, 0, 1); e.opaque = cl(e.opaque, 0, 1);
    e.hardness = cl(e.hardness, 0, 1); e.softness = cl(e.softness, 0, 1); e.lock = cl(e.lock, 0, 1); e.colorize = cl(e.colorize, 0, 1);
    e.posterize = cl(e.posterize, 0, 1); e.paint = cl(e.paint, 0, 1); e.num = cl(e.num, 0.01f, 1.28f); if (e.ratio < 1) e.ratio = 1;
    mypaint_surface_begin_atomic(st2.surf());
    int m2 = draw(st2.surf(), e);
    mypaint_surface_end_atomic(st2.surf(), nullptr);
    c.evals();
    for (auto &k2 : st.tiles) if (!check_tile(c, k2.second.px, (int)(uint32_t)(k2.first >> 32), (int)(uint32_t)k2.first, "after dab")) return;
    if (hostile && fabsf(d.angle) < 1e6) {
      std::string why;
      if (m1 != m2) { c.viol("clamp-return", "dab returned %d, clamped dab %d: %s", m1, m2, d.str().c_str()); return; }
      if (!same_pixels(st, st2, &why)) { c.viol("clamp", "out-of-range arguments differ from clamped ones: %s; %s", why.c_str(), d.str().c_str()); return; }
      c.count("clamp_comparisons");
    }
    if (m1) {
      c.count("dabs_modifying");
      c.sig(mixh(fam * 2 + hostile, fnv(&d, sizeof d)));
      if (d.posterize > 0) c.count("posterize"); if (d.colorize > 0) c.count("colorize"); if (d.lock > 0) c.count("lock_alpha"); if (d.paint > 0) c.count("paint");
      if (h0 && c.idx % 7 == 1) c.sample("%s on family %d -> all %zu tiles valid, hash %llx -> %llx", d.str().c_str(), fam, st.tiles.size(), (unsigned long long)h0, (unsigned long long)st.hash());
    }
  }
}
VP_MAIN("P06", one)
