// P16: colour sampling reports the canvas colour and leaves the canvas alone.
#include "lib.hpp"
#include "spectral.hpp"
using namespace vp;
typedef double D;
static void get(Store &s, float x, float y, float rad, float paint, float o[4]) { mypaint_surface_get_color(s.surf(), x, y, rad, o, o + 1, o + 2, o + 3, paint); }

// the average over the sampled disc, weighted with the opacity of a half-hard, half-soft dab
struct Avg { D a = 0, col[3] = {0, 0, 0}, spec[3] = {0, 0, 0}, W = 0, A = 0; int n = 0; bool dark = false; };
static Avg average(Store &s, float x, float y, float rad) {
  Store m; m.logging = false; Dab d; d.x = x; d.y = y; d.radius = std::max(1.f, rad); d.r = d.g = d.b = 1; d.opaque = 1; d.hardness = 0.5; d.softness = 0.5; d.alpha = 1; d.ratio = 1; d.angle = 0; d.lock = d.colorize = d.posterize = d.paint = 0;
  mypaint_surface_begin_atomic(m.surf()); draw(m.surf(), d); mypaint_surface_end_atomic(m.surf(), nullptr); Avg o; D R = d.radius + 2, ls[10] = {0};
  for (int Y = (int)floor(y - R); Y <= (int)ceil(y + R); Y++) for (int X = (int)floor(x - R); X <= (int)ceil(x + R); X++) {
    uint16_t w[4], q[4]; m.get(X, Y, w); if (!w[3]) continue; s.get(X, Y, q); o.n++; o.W += w[3]; D wa = w[3] * (q[3] / 32768.0); o.A += wa; if (!q[3]) continue;
    D u[3]; for (int k = 0; k < 3; k++) { u[k] = (D)q[k] / q[3]; o.col[k] += wa * u[k]; }
    if (rad <= 2) for (int i = 0; i < 10; i++) { D v = 0; const D *S[3] = {spec::SR, spec::SG, spec::SB}; for (int k = 0; k < 3; k++) v += S[k][i] * (u[k] * (1 - spec::EPS) + spec::EPS); ls[i] += wa * log(v); }
  }
  if (o.W > 0) o.a = o.A / o.W;
  if (o.A > 0) for (int k = 0; k < 3; k++) { o.col[k] /= o.A; D t = 0; for (int i = 0; i < 10; i++) t += spec::TM[k][i] * exp(ls[i] / o.A); t = (t - spec::EPS) / (1 - spec::EPS); o.spec[k] = t < 0 ? 0 : t > 1 ? 1 : t; }
  return o;
}

static void one(Case &c) {
  Rng &r = c.rng;
  bool big = c.idx % 40 == 7;
  for (int it = 0; it < (big ? 1 : 6); it++) {
    Store s; s.logging = false;
    int kind = big ? (int)r.pick({0, 1, 5, 5}) : (int)r.below(6);
    // 0 uniform opaque/translucent, 1 uniform transparent, 2 noise, 3 two-valued, 4 uniform with painting queued
    uint16_t p[4]; px_random(r, p); if (r.chance(0.3)) p[3] = ONE15;
    if (kind == 0 || kind == 4) { if (p[3] < 64) { p[3] = (uint16_t)(64 + r.below(32000)); for (int i = 0; i < 3; i++) p[i] = (uint16_t)r.below(p[3] + 1); } s.fill = fill_uniform(p[0], p[1], p[2], p[3]); }
    uint64_t seed = r.u64();
    int lo = (int)r.below(ONE15), hi = lo + (int)r.below(ONE15 + 1 - lo);
    if (kind == 2) s.fill = fill_noise(seed);
    if (kind == 3) s.fill = [=](uint16_t *t, int tx, int ty) { Rng q(mixh(seed, tkey(tx, ty))); for (int i = 0; i < TS * TS; i++, t += 4) { int a = q.chance(0.5) ? lo : hi; t[3] = (uint16_t)a; for (int k = 0; k < 3; k++) t[k] = (uint16_t)(a / (k + 1)); } };
    uint16_t pb[4]; px_random(r, pb); if (r.chance(0.5)) pb[0] = pb[1] = pb[2] = pb[3] = 0; int cut = 0; bool vert = r.chance(0.5);
    float x, y, rad; D ext = r.chance(0.1) ? 20000 : 300;
    x = (float)r.range(-ext, ext); y = (float)r.range(-ext, ext);
    if (r.chance(0.2)) x = (float)(TS * r.irange(-4, 4)); if (r.chance(0.2)) y = (float)(TS * r.irange(-4, 4));
    switch (r.below(5)) { case 0: rad = (float)r.range(-1, 1); break; case 1: rad = (float)r.range(1, 4); break; case 2: rad = (float)r.pick({2, 2.0001, 1.9999, 9362.28, 1, 3}); if (rad > 100) rad = 50; break; default: rad = (float)r.logrange(0.3, 90); }
    if (big) rad = (float)(r.chance(0.5) ? r.range(300, 1000) : r.range(90, 300));
    if (fabs(x) > 4000 && rad > 200) x = y = 0;
    if (kind == 5) {      // a border through the sampled area
      if (!big && r.chance(0.6)) rad = (float)r.range(0.5, 2); cut = (int)floor(vert ? y : x) + (big ? (int)r.range(-0.9 * rad, 0.9 * rad) : r.irange(-1, 2)); uint16_t A[4], B[4]; memcpy(A, p, 8); memcpy(B, pb, 8);
      s.fill = [=](uint16_t *t, int tx, int ty) { for (int i = 0; i < TS * TS; i++, t += 4) { int v = vert ? ty * TS + i / TS : tx * TS + i % TS; memcpy(t, v < cut ? A : B, 8); } };
    }
    float paint = (float)r.pick({-1, -1, -0.001, 0, 0, 1, 1, 0.5}); if (r.chance(0.15)) paint = (float)r.uni();
    c.desc("kind %d pixel %d %d %d %d sample x=%.9g y=%.9g r=%.9g paint=%.9g", kind, p[0], p[1], p[2], p[3], x, y, rad, paint);
    float o[4];
    Store::Snap before;
    if (kind == 4) {     // queued dabs are applied, nothing else
      Store ref; ref.logging = false; ref.fill = s.fill;
      mypaint_surface_begin_atomic(s.surf()); mypaint_surface_begin_atomic(ref.surf());
      int n = r.irange(1, 5);
      for (int i = 0; i < n; i++) { Dab d = gen_dab(r, 30, 20); d.x += x; d.y += y; draw(s.surf(), d); draw(ref.surf(), d); }
      mypaint_surface_end_atomic(ref.surf(), nullptr);
      get(s, x, y, rad, paint, o);
      float o2[4]; get(ref, x, y, rad, paint, o2);
      for (int i = 0; i < 4; i++) if (o[i] != o2[i]) { c.viol("queued", "component %d sampled with dabs queued is %.9g, %.9g after rendering them", i, o[i], o2[i]); return; }
      mypaint_surface_end_atomic(s.surf(), nullptr);
      std::string why; if (!same_pixels(s, ref, &why)) { c.viol("queued-pixels", "sampling changed what queued dabs paint: %s", why.c_str()); return; }
      c.count("queued");
    } else {
      before = s.snap();
      get(s, x, y, rad, paint, o);
      uint64_t ch = changed_since(s, before);
      if (ch) { c.viol("writes", "sampling changed %llu pixels", (unsigned long long)ch); return; }
      if (s.n_wr) { c.viol("write-request", "sampling with nothing queued requested a tile for writing"); return; }
    }
    s.check_idle(c, "after sampling"); if (c.bad()) return;
    c.evals();
    for (int i = 0; i < 4; i++) if (!(o[i] >= 0 && o[i] <= 1)) { c.viol("range", "component %d is %.9g", i, o[i]); return; }
    // extremes over the pixels that can be sampled
    D R = std::max(rad, 1.f) + 1; int amin = 40000, amax = -1; D cmin[3] = {9, 9, 9}, cmax[3] = {-9, -9, -9};
    if (kind != 0 && kind != 1) {
      for (int Y = (int)floor(y - R - 1); Y <= (int)ceil(y + R + 1); Y++) for (int X = (int)floor(x - R - 1); X <= (int)ceil(x + R + 1); X++) {
        if (hypot(X + 0.5 - x, Y + 0.5 - y) > R) continue;
        uint16_t q[4]; s.get(X, Y, q); amin = std::min(amin, (int)q[3]); amax = std::max(amax, (int)q[3]);
        if (q[3]) for (int i = 0; i < 3; i++) { D v = (D)q[i] / q[3]; cmin[i] = std::min(cmin[i], v); cmax[i] = std::max(cmax[i], v); }
      }
    } else { amin = amax = kind == 1 ? 0 : p[3]; for (int i = 0; i < 3; i++) cmin[i] = cmax[i] = p[3] ? (D)p[i] / p[3] : 0; }
    D lo_a = amin / 32768.0, hi_a = amax / 32768.0;
    // legacy sampling truncates each weighted pixel to 1/32768 (weights are small); other modes sum floats
    D ta = paint < 0 ? 6e-4 : 3e-4;
    if (o[3] < lo_a - ta || o[3] > hi_a + ta) { c.viol("alpha", "sampled alpha %.7f outside the sampled pixels' [%.7f, %.7f]", o[3], lo_a, hi_a); return; }
    if (kind == 1 && o[3] != 0) { c.viol("alpha", "transparent area gives alpha %.9g", o[3]); return; }
    if (amax > 0 && o[3] > 0 && (paint < 0 || kind == 0)) {
      D tc = paint < 0 ? 1.5e-3 / std::max((D)o[3], 1e-4) + 1e-5 : paint > 0 ? 0.02 + 8e-5 * (R + pow(2 * R / TS + 1, 2)) : 2e-4;   // fastpow bias per sample, spectral round trip per tile
      for (int i = 0; i < 3; i++) {
        D e = std::max(cmin[i] - o[i], o[i] - cmax[i]);
        if (opt().verbose && e > 0) fprintf(stderr, "worst %.4f paint %g e=%.6f rad=%g a=%g\n", e / tc, paint, e, rad, o[3]);
        if (e > tc) { c.viol(kind == 0 ? "uniform-colour" : "colour-range", "component %d is %.7f, sampled pixels have [%.7f, %.7f] (radius %g, mode %g, alpha %.6f)", i, o[i], cmin[i], cmax[i], rad, paint, o[3]); return; }
      }
    }
    if (kind >= 2 && (paint < 0 || rad <= 2)) {       // every pixel counts
      Avg v = average(s, x, y, rad); D trunc = paint < 0 ? v.n / v.W : 0, te = trunc + 3e-5;
      if (v.W > 0) {
        if (!(fabs(o[3] - v.a) <= te)) { c.viol("average-alpha", "sampled alpha %.7f, the area's weighted average is %.7f (radius %g, mode %g)", o[3], v.a, rad, paint); return; }
        if (v.a > 1e-3) {
          D tc = 2 * trunc / v.a + 1e-4 + (paint > 0 ? 0.12 : 0); c.count(paint < 0 ? "legacy_averages" : "small_averages");
          bool one_tile = floor((x - 3) / TS) == floor((x + 3) / TS) && floor((y - 3) / TS) == floor((y + 3) / TS); if (paint > 0 && one_tile) c.count("spectral_averages");
          if (paint <= 0 || one_tile) for (int k = 0; k < 3; k++) { D want = paint > 0 ? paint * v.spec[k] + (1 - paint) * v.col[k] : v.col[k]; if (opt().verbose && fabs(o[k] - want) > tc * 0.3) fprintf(stderr, "worst-avg %.5f of %.5f paint %g rad %g\n", fabs(o[k] - want), tc, paint, rad);
            if (!(fabs(o[k] - want) <= tc)) { c.viol("average-colour", "component %d sampled as %.7f, the area's weighted average is %.7f (radius %g, mode %g, alpha %.6f)", k, o[k], want, rad, paint, v.a); return; } }
        }
      }
    }
    c.count(kind == 5 ? "borders" : kind == 0 ? "uniform" : kind == 1 ? "transparent" : kind == 2 ? "noise" : kind == 3 ? "two_valued" : "painted");
    c.count(paint < 0 ? "legacy" : paint == 0 ? "additive" : paint == 1 ? "spectral" : "mixed"); if (rad > 90) c.count("large_radius");
    c.sig(mixh(kind, fnv(o, sizeof o)));
    if (it == 1 && c.idx % 43 == 4) c.sample("kind %d radius %.3f mode %g at %.2f,%.2f: sampled %.5f %.5f %.5f alpha %.5f, pixels' alpha %.5f..%.5f", kind, rad, paint, x, y, o[0], o[1], o[2], o[3], lo_a, hi_a);
  }
}
VP_MAIN("P16", one)
