// P14: every dab handed to the surface has sane parameters, for every brush in the published ranges and hostile events.
#include "hostile.hpp"
using namespace vp;
static jmp_buf out_of_event;
static void one(Case &c) {
  Rng &r = c.rng; bool far = r.chance(0.5), rough = r.chance(0.3); double span = far ? 4e8 : 3000;
  // spacing such that the longest motion costs a bounded number of dabs
  double rl = r.range(-2, 6), cost = 3000 * 0.2; float ratio_hi = r.chance(0.5) ? 10.f : 1.f;
  Brush br(r.chance(0.3) ? r.irange(1, 256) : 0); Bounds B;
  std::string ds = gen_ranged(r, br, B, [&](int s, float &lo, float &hi) {
    if (s == S_(DABS_PER_ACTUAL_RADIUS) || s == S_(DABS_PER_BASIC_RADIUS)) hi = (float)std::min(200.0, cost / span / ratio_hi * (rough ? 1 : 4)); if (s == S_(DABS_PER_SECOND)) hi = 60;
    if (s == S_(ELLIPTICAL_DAB_RATIO)) hi = ratio_hi; if (s == S_(RADIUS_LOGARITHMIC) && rough) { lo = (float)rl - 0.5f; hi = (float)rl + 0.5f; lo = std::max(lo, -2.f); hi = std::min(hi, 6.f); }
    if (s == S_(TRACKING_NOISE)) hi = r.chance(0.8) ? 0 : 12;
  }, r.range(0.05, 0.8), r.range(0, 0.5));
  if (B.hi[S_(DABS_PER_SECOND)] == 0) { br.set(S_(DABS_PER_SECOND), 20); B.lo[S_(DABS_PER_SECOND)] = B.hi[S_(DABS_PER_SECOND)] = 20; br.nomap(S_(DABS_PER_SECOND)); }
  if (B.hi[S_(OPAQUE_MULTIPLY)] == 0) { br.set(S_(OPAQUE_MULTIPLY), 1); B.lo[S_(OPAQUE_MULTIPLY)] = B.hi[S_(OPAQUE_MULTIPLY)] = 1; br.nomap(S_(OPAQUE_MULTIPLY)); }
  c.desc("%s", ds.c_str());
  Mock mk; mk.keep = false; uint64_t cseed = r.u64();
  mk.on_color = [&](float x, float y, float, float, float *o) { Rng q(mixh(cseed, (uint64_t)(x * 7 + y))); o[3] = (float)(q.chance(0.2) ? 0 : q.chance(0.3) ? 1 : q.uni()); for (int i = 0; i < 3; i++) o[i] = (float)q.uni(); };
  double x0 = 0, x1 = 0, y0 = 0, y1 = 0; std::string why; uint64_t tiny = 0, h = 0; float zmin = 1;
  double baseR = exp((double)br.get(S_(RADIUS_LOGARITHMIC))), noise = br.get(S_(TRACKING_NOISE)) * baseR * 4;
  mk.on_dab = [&](const Dab &d) -> int {
    auto bad = [&](const std::string &s) { why = s + " in " + d.str(); longjmp(out_of_event, 1); };
    if (!d.finite()) { bad("parameter not finite"); return 0; }
    if (!(d.radius > 0.19f) || d.radius > 1003.f) bad("radius outside the bounds");
    if (!(d.opaque >= 0) || d.opaque > 1) bad("opacity outside [0,1]");
    if (!(d.softness >= 0) || d.softness > 1) bad("softness outside [0,1]");
    if (!(d.hardness >= 0) || d.hardness > 1) bad("hardness outside [0,1]");
    if (!(d.alpha >= 0) || d.alpha > 1) bad("target alpha outside [0,1]");
    for (float q : {d.r, d.g, d.b}) if (!(q >= -0.001f) || q > 1.001f) bad("colour outside [0,1]");
    if (!(d.ratio >= 1) || d.ratio > 10.0001f) bad("aspect ratio outside its range");
    for (float q : {d.lock, d.colorize, d.posterize, d.paint}) if (!(q >= -1e-5f) || q > 1.00001f) bad("mode amount outside [0,1]");
    if (!(d.num >= 0.0099f) || d.num > 1.2801f) bad("posterise levels outside the range");
    if (fabs(d.angle) > 181) bad("dab angle outside half a turn");
    double ax = br.state(ST_(ACTUAL_X)), ay = br.state(ST_(ACTUAL_Y));
    auto lim = [&](int st) { return 3240 + 2 + (B.amax(S_(OFFSET_BY_SPEED)) ? fabs((double)br.state(st)) * B.amax(S_(OFFSET_BY_SPEED)) * 0.1 / std::min(zmin, br.state(ST_(VIEWZOOM))) * 1.001 : 0) + 3.5 * B.amax(S_(OFFSET_BY_RANDOM)) * baseR; };
    if (fabs(d.x - ax) > lim(ST_(NORM_DX_SLOW)) + fabs(ax) * 1e-6 || fabs(d.y - ay) > lim(ST_(NORM_DY_SLOW)) + fabs(ay) * 1e-6) bad(fmt("dab farther than the largest offset from the brush position (%.9g,%.9g)", ax, ay));
    for (int k = 0; k < 2; k++) for (int st : {k ? ST_(Y) : ST_(X), k ? ST_(ACTUAL_Y) : ST_(ACTUAL_X)}) { double v = br.state(st), lo = k ? y0 : x0, hi = k ? y1 : x1, m = 1e-6 * (fabs(lo) + fabs(hi)) + 1e-3 + noise * 40; if (!(v >= lo - m && v <= hi + m)) bad(fmt("brush position %.9g outside the positions visited [%.9g, %.9g]", v, lo, hi)); }
    if (d.hardness == 0) tiny++; if (d.hardness == 1.f) c.count("dabs_of_full_hardness");
    h = mixh(h, fnv(&d, 8)); c.sig(fnv(&d, sizeof d)); return r.chance(0.9);
  };
  Walk w(r, far && r.chance(0.5) ? 3e5 : 800); int n = r.irange(4, 40); bool linear = r.chance(0.3); uint64_t hostile = 0;
  for (int i = 0; i < n && mk.ndabs < 3000; i++) {
    Event e = w.next(r, linear); if (r.chance(0.03)) mypaint_brush_reset(br.b); if (r.chance(0.02)) mypaint_brush_new_stroke(br.b);
    bool hs = r.chance(0.5); if (hs) { make_hostile(r, e); hostile++; if (!far) { if (fabsf(e.x) >= 3000 && fabsf(e.x) < 1e8f) e.x = w.x; if (fabsf(e.y) >= 3000 && fabsf(e.y) < 1e8f) e.y = w.y; } }
    c.desc("%s", evstr(e).c_str());
    bool sane = std::isfinite(e.x) && std::isfinite(e.y) && fabsf(e.x) < 1e8f && fabsf(e.y) < 1e8f; float ex = sane ? e.x : 0, ey = sane ? e.y : 0;
    x0 = std::min(x0, (double)ex); x1 = std::max(x1, (double)ex); y0 = std::min(y0, (double)ey); y1 = std::max(y1, (double)ey);
    if (std::isfinite(e.zoom) && e.zoom > 0) zmin = std::min(zmin, e.zoom);
    uint64_t d0 = mk.ndabs; if (!setjmp(out_of_event)) stroke(br.b, mk.surf(), e);
    if (!why.empty()) { c.viol("dab", "event %d, dab %llu of it: %s", i, (unsigned long long)(mk.ndabs - d0), why.c_str()); return; }
    for (int st = 0; st < MYPAINT_BRUSH_STATES_COUNT; st++) if (!std::isfinite(br.state(st))) { c.viol("state", "state %d is %g after event %d", st, br.state(st), i); return; }
    if (!(br.state(ST_(PRESSURE)) >= 0)) { c.viol("state", "pressure is %g after event %d", br.state(ST_(PRESSURE)), i); return; }
    if (!(mypaint_brush_get_total_stroke_painting_time(br.b) >= 0)) { c.viol("time", "total painting time is %g after event %d", mypaint_brush_get_total_stroke_painting_time(br.b), i); return; }
    if (hs && mk.ndabs > d0) c.count("dabs_of_hostile_events", mk.ndabs - d0); if (!sane) c.count("insane_positions");
  }
  c.evals(mk.ndabs); c.count("dabs", mk.ndabs); c.count("hostile_events", hostile); if (tiny) c.count("dabs_of_zero_hardness", tiny); c.count("samples", mk.ncolor); if (far) c.count("far_reaching");
  if (c.idx % 97 == 3) c.sample("%llu dabs checked, %llu of %d events hostile, positions visited x %.6g..%.6g", (unsigned long long)mk.ndabs, (unsigned long long)hostile, n, x0, x1);
}
VP_MAIN("P14", one)
