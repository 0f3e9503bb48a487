// P15: every motion event is processed in bounded work.
#include "hostile.hpp"
using namespace vp;
static jmp_buf out_of_event;
static void one(Case &c) {
  Rng &r = c.rng; int kind = (int)r.below(3);                      // 0: dense brushes, short motions; 1: ordinary; 2: huge coordinates
  bool at_far = r.chance(0.3); double rl = r.range(-2, 6), dens = kind == 0 ? 200 : kind == 1 ? r.logrange(0.1, 30) : r.logrange(1e-7, 200), dps = r.chance(0.4) ? r.logrange(0.1, 200) : 0;
  Brush br(0); Bounds B;
  std::string ds = gen_ranged(r, br, B, [&](int s, float &lo, float &hi) {
    if (s == S_(DABS_PER_ACTUAL_RADIUS) || s == S_(DABS_PER_BASIC_RADIUS)) hi = (float)dens; if (s == S_(DABS_PER_SECOND)) hi = (float)dps;
    if (s == S_(RADIUS_LOGARITHMIC)) { lo = std::max(-2.f, (float)rl - (r.chance(0.5) ? 0.3f : 8.f)); hi = std::min(6.f, (float)rl + (r.chance(0.5) ? 0.3f : 8.f)); }
    if (s == S_(ELLIPTICAL_DAB_RATIO) && r.chance(0.4)) hi = 1; if (s == S_(TRACKING_NOISE)) hi = r.chance(0.9) ? 0 : 12; if (s == S_(SMUDGE) && r.chance(0.7)) hi = 0;
  }, r.range(0.1, 0.8), r.range(0, 0.4));
  c.desc("%s", ds.c_str());
  double bR = std::min(1000., std::max(0.2, exp((double)br.get(S_(RADIUS_LOGARITHMIC))))), aR = std::min(bR, std::min(1000., std::max(0.2, exp((double)B.lo[S_(RADIUS_LOGARITHMIC)]))));
  double ratio = std::max(1.0, (double)B.hi[S_(ELLIPTICAL_DAB_RATIO)]), K = ratio * (B.amax(S_(DABS_PER_ACTUAL_RADIUS)) / aR + B.amax(S_(DABS_PER_BASIC_RADIUS)) / bR), L = B.amax(S_(DABS_PER_SECOND));
  double base = exp((double)br.get(S_(RADIUS_LOGARITHMIC))), noise = br.get(S_(TRACKING_NOISE)) * base * 4 * 40;
  Mock mk; mk.keep = false; static volatile uint64_t budget; budget = ~0ull; static volatile uint64_t n_ev; bool dense_repeat = r.chance(0.3);
  mk.on_dab = [&](const Dab &) -> int { n_ev = n_ev + 1; if (n_ev > budget) longjmp(out_of_event, 1); return 1; };
  // a dab suppressed by smudging only samples
  static volatile uint64_t n_col; mk.on_color = [&](float, float, float, float, float *) { n_col = n_col + 1; if (n_col > budget) longjmp(out_of_event, 1); };
  double want = r.logrange(1, 3000);                               // dabs a motion may cost
  static float x, y; x = y = 0; if (at_far || kind == 2) { x = (float)(r.chance(0.5) ? r.range(-9.9e7, 9.9e7) : r.range(-3e5, 3e5)); y = (float)(r.chance(0.5) ? r.range(-9.9e7, 9.9e7) : r.range(-3e5, 3e5)); }
  Walk w(r, 300); static int i; int n = r.irange(3, 25); uint64_t total = 0; const bool linear = r.chance(0.2);
  for (i = 0; i < n && total < 40000; i++) {
    Event e = w.next(r, linear); bool still = r.chance(0.15);
    if (!still) {
      double reach = K > 0 ? std::min(want / K, kind == 2 ? 1e8 : 3000.) : (kind == 2 ? 1e8 : 3000); double a = r.range(0, 2 * M_PI), q = r.chance(0.5) ? 1 : r.uni();
      x = (float)(x + reach * q * cos(a)); y = (float)(y + reach * q * sin(a)); if (r.chance(0.1)) x = nextafterf(x, 1e9f); if (r.chance(0.1)) y = nextafterf(y, -1e9f);
    }
    if (fabsf(x) >= 9.99e7f) x = 0; if (fabsf(y) >= 9.99e7f) y = 0;
    e.x = x; e.y = y; if (L > 0 && e.dt * L > 3000) e.dt = 3000 / L; if (still) e.dt = r.pick({0, 1e-9, 1e-6, 0.0001, -1, 1e-300});
    if (r.chance(0.15)) { Event o = e; make_hostile(r, e, !still); if (K * 3e8 > 30000) { e.x = std::isfinite(e.x) && fabsf(e.x) < 1e8f ? o.x : e.x; e.y = std::isfinite(e.y) && fabsf(e.y) < 1e8f ? o.y : e.y; } }
    if (i == 0 || r.chance(0.02)) mypaint_brush_reset(br.b);
    c.desc("%s", evstr(e).c_str());
    bool sane = std::isfinite(e.x) && std::isfinite(e.y) && fabsf(e.x) < 1e8f && fabsf(e.y) < 1e8f; double ex = sane ? e.x : 0, ey = sane ? e.y : 0, dt = std::isfinite(e.dt) && e.dt > 0 ? e.dt : 0.0001;
    // insane positions are taken to be the origin: do not let the way there cost millions of dabs
    double X = br.state(ST_(X)), Y = br.state(ST_(Y)), part = br.state(ST_(PARTIAL_DABS)); if (hypot(ex - X, ey - Y) * K > 60000) { mypaint_brush_reset(br.b); }
    // tracking noise may skip an event and add its time to a later one
    double ulp = 1.2e-7 * (fabs(X) + fabs(Y) + fabs(ex) + fabs(ey) + noise), skip = br.get(S_(TRACKING_NOISE)) > 0 ? 5 + (double)i * 5 : 0;
    double apriori = (hypot(ex - X, ey - Y) + 2 * noise + 4 * ulp) * K + (dt + skip) * L; n_ev = n_col = 0; budget = (uint64_t)(3 * apriori + 1000);
    if (setjmp(out_of_event)) { c.viol("work", "event %d: stopped after %llu dabs, it covers %.6g px and %.6g s: at most %.6g dabs at the brush's highest density", i, (unsigned long long)std::max(+n_ev, +n_col), hypot(ex - X, ey - Y), dt, apriori + 1); return; }
    stroke(br.b, mk.surf(), e);
    n_ev = std::max(+n_ev, +n_col); double d = hypot(br.state(ST_(X)) - X, br.state(ST_(Y)) - Y), most = part + (d + ulp) * K + (dt + skip) * L;
    // a step is rounded to a representable position, which may shorten it
    double slack = 1e-4 * most + 1.5 + (kind == 2 || at_far || ulp * K > 1e-3 ? most : 0);
    if (n_ev > most + slack) { c.viol("work", "event %d painted %llu dabs, it covers %.6g px and %.6g s: at most %.6g dabs at the brush's highest density", i, (unsigned long long)n_ev, d, dt, most); return; }
    if (d == 0 && dt <= 0.0001 && (dt + skip) * L < 0.5) { c.count("motionless_events"); if (n_ev > 1) { c.viol("motionless", "event %d covers no distance in %.3g s and painted %llu dabs", i, dt, (unsigned long long)n_ev); return; } }
    total += n_ev; c.evals(); if (n_ev > 0.3 * most && n_ev > 3) c.count("events_near_the_bound"); if (n_ev > 1000) c.count("events_of_1000_dabs"); if (ulp * K > 1) c.count("events_below_the_position_resolution"); if (n_ev) c.sig(mixh(n_ev, (uint64_t)(d * 1e3)));
    if (c.idx % 91 == 5 && i == n / 2) c.sample("event of %.6g px and %.6g s: %llu dabs, bound %.6g", d, dt, (unsigned long long)n_ev, most);
  }
  (void)dense_repeat; c.count("dabs", total);
}
VP_MAIN("P15", one)
