// P18: stroke splitting and painting time.
#include "lib.hpp"
using namespace vp;
static void one(Case &c) {
  Rng &r = c.rng; Brush br; br.plain();
  bool noise = r.chance(0.2), smudge = r.chance(0.15);
  br.set(S_(RADIUS_LOGARITHMIC), (float)r.range(0, 3)); br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(0, 3)); br.set(S_(DABS_PER_BASIC_RADIUS), (float)(r.chance(0.5) ? 0 : r.range(0, 2)));
  if (r.chance(0.4)) br.set(S_(DABS_PER_SECOND), (float)r.range(0, 30)); if (r.chance(0.15)) { br.set(S_(DABS_PER_ACTUAL_RADIUS), 0); br.set(S_(DABS_PER_BASIC_RADIUS), 0); }
  if (r.chance(0.3)) br.set(S_(SLOW_TRACKING), (float)r.range(0, 8));
  if (noise) { br.set(S_(TRACKING_NOISE), (float)r.range(0.05, 2)); br.set(S_(SLOW_TRACKING), (float)r.range(0, 1)); }
  if (smudge) { br.set(S_(SMUDGE), 1); br.set(S_(SMUDGE_TRANSPARENCY), 0.5f); }
  Mock mk; mk.keep = false; int mode = (int)r.below(4);   // what the surface answers
  struct Sub { bool any = false, yes = false; float lastp; } sub[2]; bool two = false; float p_before = 0; bool flip = false;
  auto attempt = [&](bool ok) { float p = br.state(ST_(PRESSURE)); Sub &s = sub[two && p > 0 ? 1 : 0]; s.any = true; s.yes |= ok; s.lastp = p; flip = true; };
  float dead = (float)r.range(0.2, 0.8); uint64_t phase = r.u64(); uint64_t nd = 0; bool mask_on = false;
  mk.on_dab = [&](const Dab &) { bool ok = mode == 0 ? true : mode == 1 ? br.state(ST_(PRESSURE)) > 0 : mode == 2 ? ((mixh(phase, nd++ / 7) & 3) != 0) : !mask_on; attempt(ok); return ok ? 1 + (int)r.below(3) : 0; };
  mk.on_color = [&](float, float, float, float, float *o) { o[0] = o[1] = o[2] = 0; o[3] = 0; attempt(false); };
  double total = 0, idle = 0; float skipped = 0; bool reset_req = true;
  Walk w(r, 200); int n = r.irange(20, 200); float dtscale = (float)r.pick({0.3, 1, 5, 20}); bool never = r.chance(0.08); if (never) n = r.irange(200, 600); int hold = 0; float hp = 0; int maxhold = r.chance(0.4) ? r.irange(2, 8) : 40; float idle_p = (float)(r.chance(0.5) ? 0.4 : 0.8);
  c.desc("mode %d noise %d smudge %d", mode, noise, smudge);
  for (int i = 0; i < n; i++) {
    Event e = w.next(r); e.dt *= dtscale; if (r.chance(0.02)) e.dt = r.pick({0, -1, 0.1, 0.1001, 5, 5.001, 1.0, 6, NAN});
    // phases of holding a pressure or none
    if (hold-- <= 0) { hold = r.irange(1, maxhold); hp = (float)(r.chance(idle_p) ? 0 : r.range(0.05, 1.5)); mask_on = r.chance(0.4); }
    if (r.chance(0.8)) e.p = hp; else if (r.chance(0.3)) e.p = hp = (float)(hp * r.range(0.5, 1.1)); w.p = std::min(1.f, e.p); if (r.chance(0.3)) { e.x = w.x = br.state(ST_(X)); }
    if (!noise && r.chance(0.01)) e.x = NAN;
    if (r.chance(never ? 0.002 : 0.02)) { mypaint_brush_new_stroke(br.b); total = idle = 0; c.desc("new stroke"); c.count("new_strokes"); }
    if (r.chance(0.01)) { mypaint_brush_reset(br.b); reset_req = true; c.desc("reset"); }
    c.desc("%s mask %d", evstr(e).c_str(), mask_on);
    float before[MYPAINT_BRUSH_STATES_COUNT]; for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) before[k] = br.state(k);
    sub[0] = Sub(); sub[1] = Sub(); p_before = br.state(ST_(PRESSURE)); flip = false;
    float p = e.p; if (!(p > 0)) p = 0; if (!std::isfinite(e.x)) p = 0; double dt = e.dt; if (!std::isfinite(dt)) dt = 0; if (dt <= 0) dt = 0.0001;
    bool late = dt > 0.100 && p && p_before == 0; if (late && noise) { e.dt = dt = 0.05; late = false; }   // two sub events of which either may be skipped: not modelled
    two = late;
    int ret = stroke(br.b, mk.surf(), e); double got = mypaint_brush_get_total_stroke_painting_time(br.b);
    bool want = false, sure = true, skip = false; const char *cls = "";
    for (int k = 0; k < (late ? 2 : 1); k++) {
      Sub &s = sub[k]; double d = !late ? dt : k == 0 ? dt - 0.0001 : 0.0001; float pr = late && k == 0 ? 0 : p; want = false; sure = true; cls = "none";
      if (noise) {
        bool same = !flip; for (int q = 0; q < MYPAINT_BRUSH_STATES_COUNT; q++) if (memcmp(&before[q], std::vector<float>{br.state(q)}.data(), 4)) same = false;
        skipped += (float)d; double acc = skipped;
        if (same && !(acc > 5 || reset_req)) { skip = true; c.count("skipped_events"); break; }
        // a skip distance is only pending after an event that added noise; its time counts from there
        d = acc; skipped = 0;
      }
      if (d > 5 || reset_req) { reset_req = false; want = true; cls = "reset"; if (s.any) { c.viol("reset-paints", "event %d resets the brush and paints", i); return; } continue; }
      bool yes = s.any ? s.yes : !(idle > 0 || total == 0);
      float last = s.any ? s.lastp : (late ? 0 : p_before), dp = pr - last;
      if (yes) {
        total += d; idle = 0; double thr = 4 + 3.0 * pr; cls = "painting";
        if (fabs(total - thr) < 1e-5 * thr) sure = false; else if (total > thr && dp >= 0) { want = true; cls = "split_painting"; } else if (total > thr) cls = "pressure_falling";
      } else {
        idle += d; cls = "idle";
        if (total == 0) { if (fabs(idle - 1) < 1e-5) sure = false; else if (idle > 1) { want = true; cls = "split_idle"; } }
        else { double thr = 0.9 + 5.0 * pr; if (fabs(total + idle - thr) < 1e-5 * thr) sure = false; else if (total + idle > thr) { want = true; cls = "split_after_painting"; } }
      }
      (void)dead;
    }
    if (skip) { if (ret) { c.viol("skip", "event %d moved nothing and returned %d", i, ret); return; } continue; }
    c.evals(); c.count(cls); if (late) c.count("late_presses"); c.sig(mixh((uint64_t)(total * 1e6), (uint64_t)(idle * 1e6) + i));
    if (fabs(got - total) > 1e-6 * (1 + total) + (noise ? 1e-5 * (1 + total) : 0)) { c.viol("painting-time", "event %d (%s): total painting time is %.9g, expected %.9g", i, cls, got, total); return; }
    if (noise) total = got;
    if (sure && (ret != 0) != want) { c.viol("split", "event %d (%s): returned %d, expected %d (painting %.6g s, idle %.6g s, pressure %.5g, late %d)", i, cls, ret, want, total, idle, p, late); return; }
    if (ret && !never && r.chance(0.8)) { mypaint_brush_new_stroke(br.b); total = idle = 0; c.desc("new stroke"); }
    if (mk.ndabs > 4000) break;
  }
  if (c.idx % 51 == 0) c.sample("%d events, painting time %.4f s, idle %.4f s at the end", n, total, idle);
}
VP_MAIN("P18", one)
