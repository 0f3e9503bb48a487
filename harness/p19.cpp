// P19: states and smudge buckets against a shadow copy.
#include "lib.hpp"
using namespace vp;
enum { NS = MYPAINT_BRUSH_STATES_COUNT };
struct Bkt { float v[9]; };
static bool same(const Bkt &a, const Bkt &b) { return !memcmp(&a, &b, sizeof a); }
static float weird(Rng &r) { return r.chance(0.15) ? (float)r.pick({0, -0.0, 1e38, -1e-38, INFINITY, -INFINITY, NAN, 1}) : r.chance(0.5) ? (float)r.uni() : (float)r.range(-1e4, 1e4); }
struct Shadow {
  MyPaintBrush *b; int nb; std::vector<float> st = std::vector<float>(NS); std::vector<Bkt> bk; int lo = -1, hi = -1; bool exact = true; int plo = -1, phi = -1;   // plo..phi: possibly used as well
  void used(int i, bool sure) { if (plo < 0 || i < plo) plo = i; if (i > phi) phi = i; if (!sure) { exact = false; return; } if (lo < 0 || i < lo) lo = i; if (i > hi) hi = i; }
  void clear() { for (auto &k : bk) memset(&k, 0, sizeof k); lo = hi = plo = phi = -1; exact = true; }
  Bkt get(int i) { Bkt k; float *v = k.v; mypaint_brush_get_smudge_bucket_state(b, i, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8); return k; }
  void states(Case &c, const char *when) {
    for (int i = 0; i < NS; i++) { float q = mypaint_brush_get_state(b, (MyPaintBrushState)i); if (memcmp(&q, &st[i], 4)) { c.viol("state", "%s: state %d is %.9g, expected %.9g", when, i, q, st[i]); return; } }
  }
  void restate() { for (int i = 0; i < NS; i++) st[i] = mypaint_brush_get_state(b, (MyPaintBrushState)i); }
  void buckets(Case &c, const char *when, int except = -1) {
    for (int i = 0; i < nb; i++) if (i != except) { Bkt k = get(i); if (!same(k, bk[i])) { int j = 0; while (!memcmp(&k.v[j], &bk[i].v[j], 4)) j++; c.viol("bucket", "%s: component %d of bucket %d is %.9g, expected %.9g", when, j, i, k.v[j], bk[i].v[j]); return; } }
  }
  void range(Case &c, const char *when) {
    int l = mypaint_brush_get_min_smudge_bucket_used(b), h = mypaint_brush_get_max_smudge_bucket_used(b);
    if (exact ? (l != lo || h != hi) : !((l == lo && h == hi) || (l >= plo && h <= phi && l <= h && (lo < 0 || (l <= lo && h >= hi)))))
      c.viol("range", "%s: reports buckets %d..%d as used, expected %d..%d%s", when, l, h, lo, hi, exact ? "" : " or more");
  }
};
static void one(Case &c) {
  Rng &r = c.rng; int nb = r.chance(0.1) ? 0 : r.chance(0.05) ? -r.irange(1, 9) : r.chance(0.3) ? 256 : r.chance(0.3) ? r.irange(1, 3) : r.irange(1, 40), N = nb > 0 ? nb : 0;
  MyPaintBrush *raw = nb == 0 && r.chance(0.5) ? mypaint_brush_new() : mypaint_brush_new_with_buckets(nb);
  if (!raw) { c.viol("new", "no brush with %d buckets", nb); return; }
  Brush br(0, false); mypaint_brush_unref(br.b); br.b = raw;
  Brush other(N ? r.irange(1, 8) : 0);                       // a bystander
  Shadow sh{br.b, N}, so{other.b, 0}; sh.bk.assign(N, Bkt{}); so.restate(); sh.restate();
  c.desc("%d buckets", nb);
  sh.buckets(c, "new brush"); sh.range(c, "new brush"); if (c.bad()) return;
  if (N) c.count("with_buckets"); else c.count("without_buckets");
  br.plain(); bool pending = true; uint64_t h = 0;
  // painting configuration
  float sb = 0, y0 = 0, y1 = 0; bool dynb = false, smudging = false, constant = true, slow = false;
  auto configure = [&]() {
    smudging = r.chance(0.8); constant = true;
    br.set(S_(SMUDGE), smudging ? (float)r.range(0.1, 1) : 0); br.nomap(S_(SMUDGE)); if (r.chance(0.2)) { br.map(S_(SMUDGE), I_(PRESSURE), {{0, -0.3f}, {1, 0.5f}}); constant = false; }
    br.set(S_(SMUDGE_LENGTH), (float)(r.chance(0.2) ? r.pick({0, 1}) : r.range(0, 0.99))); if (br.get(S_(SMUDGE_LENGTH)) >= 1) constant = constant && smudging;
    br.set(S_(SMUDGE_LENGTH_LOG), r.chance(0.5) ? 0 : (float)r.range(0, 8)); br.set(S_(SMUDGE_TRANSPARENCY), r.chance(0.7) ? 0 : (float)r.range(-1, 1));
    br.set(S_(PAINT_MODE), r.chance(0.5) ? 0 : (float)r.uni()); br.set(S_(RADIUS_LOGARITHMIC), (float)r.range(0, 3)); br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(0.5, 3));
    sb = (float)(r.chance(0.6) ? r.irange(0, std::max(1, std::min(N, 255))) : r.range(-2, N + 2)); br.set(S_(SMUDGE_BUCKET), sb); br.nomap(S_(SMUDGE_BUCKET));
    if ((dynb = r.chance(0.5))) { y0 = (float)r.range(-N * 0.3, N * 0.3); y1 = (float)r.range(-N * 0.3, N * 0.3); br.map(S_(SMUDGE_BUCKET), I_(PRESSURE), {{0, y0}, {1, y1}}); }
    br.set(S_(SLOW_TRACKING), (slow = r.chance(0.3)) ? (float)r.range(0, 9) : 0);
    c.desc("bucket setting %.9g%s", sb, dynb ? fmt(" + %.9g..%.9g by pressure", y0, y1).c_str() : "");
  };
  configure();
  Mock mk; mk.keep = false; bool sampled = false; float last[4]; std::set<int> loose; bool anyd = false; float flip0 = 0;
  auto select = [&](int out[2]) {
    double v = sb; if (dynb) { double p = br.state(ST_(PRESSURE)); v += y0 + (y1 - y0) * p; }
    auto cl = [&](double q) { return (int)std::min<double>(N - 1, std::max(0.0, floor(q + 0.5))); };
    double e = 1e-5 * (1 + fabs(v)); out[0] = cl(v - e); out[1] = cl(v + e); if (v == floor(v) + 0.5 && !dynb) { out[0] = out[1] = (int)std::min<double>(N - 1, std::max(0.0, v < 0 ? ceil(v - 0.5) : floor(v + 0.5))); }
  };
  auto touch = [&](bool drawn) {
    anyd = true; if (!N) return;
    int s[2]; select(s); bool sure = s[0] == s[1] && constant && smudging;
    if (!smudging && constant) { if (drawn && r.chance(0.1)) sh.buckets(c, "a dab that does not smudge"); return; }
    for (int k = 0; k < 2; k++) { sh.used(s[k], sure || (sampled && s[0] == s[1])); loose.insert(s[k]); }
    if (s[0] != s[1]) { sampled = false; return; }
    if (drawn) {
      if (sampled && flip0 == br.state(ST_(FLIP))) { Bkt k = sh.get(s[0]); if (memcmp(k.v + 4, last, 16)) c.viol("selected", "bucket %d does not hold the colour sampled for its dab", s[0]); c.count("sampled_dabs"); }
      if (loose.size() == 1 && r.chance(0.2)) { sh.buckets(c, "a smudging dab", s[0]); c.count("dabs_checked"); }
      sampled = false;
    }
    if (drawn) c.count("smudging_dabs");
  };
  mk.on_color = [&](float, float, float, float, float *o) { for (int i = 0; i < 4; i++) o[i] = (float)r.uni(); memcpy(last, o, 16); sampled = true; flip0 = br.state(ST_(FLIP)); touch(false); };
  mk.on_dab = [&](const Dab &) { touch(true); return 1; };
  Walk w(r, 100); int n = r.irange(10, 80);
  for (int i = 0; i < n && !c.bad(); i++) {
    int op = (int)r.below(20); char when[64]; snprintf(when, sizeof when, "operation %d", i);
    if (op < 2) { int k = (int)r.below(NS); float v = weird(r); if (k == ST_(X) || k == ST_(Y) || !std::isfinite(v) || fabs(v) > 1e5) v = (float)r.range(-50, 50); if (r.chance(0.2)) v = weird(r);
      bool bad = !(v >= -50 && v <= 50) || (k == ST_(PARTIAL_DABS) && v > 0.9) || (v < 0 && k != ST_(X) && k != ST_(Y)); float old = br.state(k); c.desc("state %d = %.9g", k, v); mypaint_brush_set_state(br.b, (MyPaintBrushState)k, v); sh.st[k] = v; c.count("states_set");
      if (bad) { sh.states(c, when); mypaint_brush_set_state(br.b, (MyPaintBrushState)k, old); sh.st[k] = old; } }   // such values are only stored and read back
    else if (op < 5) { int k = r.chance(0.7) && N ? (int)r.below(N) : (int)r.pick({-1, (double)N, N + 1.0, INT32_MAX, INT32_MIN, N * 9.0}); Bkt v; for (float &q : v.v) q = r.chance(0.05) ? weird(r) : (float)r.uni();
      bool bad = false; for (float q : v.v) if (!std::isfinite(q) || fabs(q) > 10) bad = true;
      bool in = k >= 0 && k < N; Bkt old = in ? sh.bk[k] : v; c.desc("bucket %d set", k); auto put = [&](const Bkt &q) { return mypaint_brush_set_smudge_bucket_state(br.b, k, q.v[0], q.v[1], q.v[2], q.v[3], q.v[4], q.v[5], q.v[6], q.v[7], q.v[8]); };
      gboolean ok = put(v); if (!!ok != in) c.viol("set", "%s: setting bucket %d of %d returned %d", when, k, N, ok);
      if (in) { sh.bk[k] = v; sh.used(k, true); c.count("buckets_set"); if (bad) { sh.buckets(c, when); put(old); sh.bk[k] = old; } } else c.count("out_of_range"); }
    else if (op < 7) { int k = r.chance(0.5) && N ? (int)r.below(N) : (int)r.pick({-1, (double)N, N + 1.0, INT32_MAX, INT32_MIN, -7}); Bkt v; for (int q = 0; q < 9; q++) v.v[q] = 77 + q; Bkt o = v; float *p = v.v;
      gboolean ok = mypaint_brush_get_smudge_bucket_state(br.b, k, p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 6, p + 7, p + 8); bool in = k >= 0 && k < N; c.desc("bucket %d read", k);
      if (!!ok != in) c.viol("get", "%s: reading bucket %d of %d returned %d", when, k, N, ok); if (!in && !same(v, o)) c.viol("get", "%s: a refused read changed its results", when);
      if (in && !same(v, sh.bk[k])) c.viol("get", "%s: bucket %d does not read back", when, k); }
    else if (op < 8) { c.desc("reset"); mypaint_brush_reset(br.b); pending = true; c.count("resets_requested"); }
    else if (op < 10) {   // operations that leave states and buckets alone
      switch (r.below(5)) { case 0: configure(); break; case 1: mypaint_brush_new_stroke(br.b); break; case 2: mypaint_brush_get_total_stroke_painting_time(br.b); br.plain(); configure(); break;
        case 3: mypaint_brush_from_string(br.b, "{\"version\":3,\"settings\":{\"opaque\":{\"base_value\":1.0,\"inputs\":{}}}}"); br.plain(); configure(); break;
        default: mypaint_brush_from_string(br.b, "{\"version\":2}"); br.plain(); configure(); }
      c.count("neutral_operations"); }
    else if (op < 11) { for (int k = 0; k < 3; k++) { Event e = w.next(r); Mock m2; m2.keep = false; stroke(other.b, m2.surf(), e); } mypaint_brush_reset(other.b); so.restate(); }
    else {
      Event e = w.next(r); if (r.chance(0.02)) e.dt = 6; if (e.dt > 0.1 && e.dt < 5 && r.chance(0.7)) e.dt = 0.05;
      double dt = e.dt <= 0 ? 0.0001 : e.dt; bool late = dt > 0.1 && e.p > 0 && br.state(ST_(PRESSURE)) == 0, rs = pending || dt > 5 || (late && dt - 0.0001 > 5); if (dt > 5 && late && dt - 0.0001 <= 5) continue;
      c.desc("%s%s", evstr(e).c_str(), rs ? " (resets)" : "");
      double fac = slow ? 1 - exp(-100 * dt / br.get(S_(SLOW_TRACKING))) : 1; double X = br.state(ST_(X)), Y = br.state(ST_(Y));
      if (rs) { sh.clear(); loose.clear(); }
      anyd = false; sampled = false; loose.clear();
      int ret = stroke(br.b, mk.surf(), e);
      if (rs && !late) {
        pending = false; c.count("resets");
        if (anyd) c.viol("reset-paints", "%s: the event that resets the brush painted or sampled", when);
        if (!ret) c.viol("reset-return", "%s: the event that resets the brush returned 0", when);
        double wx = X + (e.x - X) * fac, wy = Y + (e.y - Y) * fac, tol = 3e-6 * (fabs(X) + fabs(Y) + fabs(e.x) + fabs(e.y) + 1);
        for (int k = 0; k < NS; k++) { double q = br.state(k), want = 0, t = 0;
          if (k == ST_(X) || k == ST_(ACTUAL_X)) want = wx, t = tol; if (k == ST_(Y) || k == ST_(ACTUAL_Y)) want = wy, t = tol; if (k == ST_(PRESSURE)) want = e.p; if (k == ST_(STROKE)) want = 1; if (k == ST_(FLIP)) want = -1;
          if (!(fabs(q - want) <= t)) { c.viol("reset-state", "%s: state %d is %.9g after the reset, expected %.9g", when, k, q, want); break; } }
        sh.restate(); sh.buckets(c, "after a reset"); sh.range(c, "after a reset");
      } else {
        if (rs) { pending = false; c.count("resets_late"); }
        // painting changes no smudge state of a brush with buckets
        if (N && !rs) for (int k = ST_(SMUDGE_RA); k < ST_(SMUDGE_RA) + 9; k++) { float q = br.state(k); if (memcmp(&q, &sh.st[k], 4)) { c.viol("smudge-state", "%s: state %d changed by painting with buckets", when, k); break; } }
        for (int k = 0; k < N; k++) if (loose.count(k)) { sh.bk[k] = sh.get(k); }
        sh.restate(); c.count("strokes");
      }
      c.evals();
    }
    sh.states(c, when); sh.buckets(c, when); sh.range(c, when);
    so.states(c, "bystander");
    h = mixh(h, mixh(fnv(sh.st.data(), NS * 4), N ? fnv(sh.bk.data(), N * sizeof(Bkt)) : 0)); c.sig(h);
    if (mk.ndabs > 6000) break;
  }
  if (c.idx % 97 == 0) c.sample("%d buckets, %d operations, used %d..%d", nb, n, sh.lo, sh.hi);
}
VP_MAIN("P19", one)
