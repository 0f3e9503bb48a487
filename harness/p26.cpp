// P26: smudging, step by step against a reference and end to end on uniform canvases.
#include "dmodel.hpp"
#include "spectral.hpp"
using namespace vp;
static const std::set<int> MOTION = {ST_(X), ST_(Y), ST_(PRESSURE), ST_(DECLINATION), ST_(ASCENSION), ST_(DECLINATIONX), ST_(DECLINATIONY), ST_(BARREL_ROTATION), ST_(DABS_PER_BASIC_RADIUS), ST_(DABS_PER_ACTUAL_RADIUS), ST_(DABS_PER_SECOND),
  ST_(VIEWZOOM), ST_(VIEWROTATION), ST_(STROKE), ST_(NORM_SPEED1_SLOW), ST_(DIRECTION_ANGLE_DX), ST_(DIRECTION_ANGLE_DY), ST_(CUSTOM_INPUT), ST_(ACTUAL_X), ST_(ACTUAL_Y), ST_(ACTUAL_RADIUS)};
struct Bucket { float v[9]; };
static Bucket bucket(MyPaintBrush *b, int nb, int i) {
  Bucket k; float *v = k.v;
  if (!nb) for (int j = 0; j < 9; j++) v[j] = mypaint_brush_get_state(b, (MyPaintBrushState)(ST_(SMUDGE_RA) + j));
  else mypaint_brush_get_smudge_bucket_state(b, i, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8);
  return k;
}
// a: weight f; the documented mix of smudge colour and canvas or brush colour
static void mix(const D a[4], const D b[4], D f, D paint, D out[4]) {
  D s[3] = {0, 0, 0}, fa = a[3] == 0 ? 0 : f * a[3] / (a[3] + b[3] * (1 - f));
  if (paint > 0) spec::wgm(a, b, fa, s);
  for (int i = 0; i < 3; i++) out[i] = paint < 1 ? s[i] * paint + (1 - paint) * (a[i] * f + b[i] * (1 - f)) : s[i];
  out[3] = cl01(f * a[3] + (1 - f) * b[3]);
}
// exact except for the recentness, which may be our own approximation
static bool differ(const Bucket &a, const Bucket &b) { return memcmp(&a, &b, sizeof(float) * 8) || fabs(a.v[8] - b.v[8]) > 1e-5 * b.v[8] + 1e-38; }
static void model_case(Case &c) {
  Rng &r = c.rng; int nb = r.chance(0.5) ? 0 : r.chance(0.3) ? 256 : r.irange(1, 12);
  Brush br(nb); br.plain();
  br.set(S_(RADIUS_LOGARITHMIC), (float)r.range(0, 4)); br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(0.5, 4)); br.set(S_(ANTI_ALIASING), 0);
  if (r.chance(0.3)) dyn(r, br, S_(RADIUS_LOGARITHMIC), -0.5, 0.5);
  auto setd = [&](int s, float v, D p, D lo, D hi) { br.set(s, v); if (r.chance(p)) dyn(r, br, s, lo, hi); };
  setd(S_(SMUDGE), (float)(r.chance(0.3) ? 1 : r.chance(0.15) ? 0 : r.range(0, 1)), 0.3, -0.5, r.chance(0.2) ? 4 : 0.7);
  setd(S_(SMUDGE_LENGTH), (float)(r.chance(0.2) ? r.pick({0, 1, 0.005}) : r.range(0, 1)), 0.2, -0.3, 0.3);
  if (r.chance(0.5)) setd(S_(SMUDGE_LENGTH_LOG), (float)r.range(0, 8), 0.2, -1, 1);
  if (r.chance(0.5)) setd(S_(SMUDGE_RADIUS_LOG), (float)r.range(-1.6, 1.6), 0.2, -0.5, 0.5);
  if (r.chance(0.4)) setd(S_(SMUDGE_TRANSPARENCY), (float)(r.chance(0.4) ? r.pick({-1, -0.5, 0.5, 1}) : r.range(-1, 1)), 0.2, -0.3, 0.3);
  setd(S_(PAINT_MODE), (float)(r.chance(0.4) ? 0 : r.chance(0.4) ? 1 : r.uni()), 0, 0, 0);
  if (r.chance(0.15)) { br.set(S_(PAINT_MODE), 0.5f); dyn(r, br, S_(PAINT_MODE), -0.5, 0.5); }
  if (nb || r.chance(0.3)) setd(S_(SMUDGE_BUCKET), (float)(r.chance(0.5) ? r.irange(0, std::max(1, std::min(nb + 2, 255))) : r.range(0, std::max(1, nb))), 0.3, -3, 3);
  if (r.chance(0.3)) br.set(S_(ERASER), (float)r.uni());
  br.set(S_(COLOR_H), (float)r.uni()); br.set(S_(COLOR_S), (float)r.uni()); br.set(S_(COLOR_V), (float)r.uni());
  if (r.chance(0.3)) { br.set(S_(OFFSET_X), (float)r.range(-3, 3)); br.set(S_(OFFSET_Y), (float)r.range(-3, 3)); }
  bool legacy_const = mypaint_brush_is_constant(br.b, S_(PAINT_MODE)), smudge_const = mypaint_brush_is_constant(br.b, S_(SMUDGE)), linear = false;
  std::string why; bool motion_ok = true; uint64_t hsh = 0;
  Model m(br.b); Mock mk; mk.keep = false;
  m.on_state = [&](int i, U p, float o, double per) { if (MOTION.count(i) && Model::off(p, o, per)) motion_ok = false; };
  bool broken = false;                 // buckets unknown until the event ends
  // the prediction for the dab being prepared
  struct { bool active = false, sampled = false, skip = false, must = false, mustnot = false, sup = false, supq = false; Pred P; Bucket before; int idx = 0; bool uses = false; D len, paint; } cur;
  auto prepare = [&](const Dab &dummy) {
    cur.active = true; cur.sampled = false; cur.sup = cur.supq = false; cur.skip = true; m.dab(dummy);
  };
  m.on_dab = [&](const Pred &P, const Dab &) {
    cur.P = P; cur.skip = !motion_ok || broken; if (cur.skip) return;
    const U *V = P.val;
    for (int s : {S_(SMUDGE), S_(SMUDGE_LENGTH), S_(SMUDGE_LENGTH_LOG), S_(SMUDGE_RADIUS_LOG), S_(SMUDGE_TRANSPARENCY), S_(PAINT_MODE), S_(SMUDGE_BUCKET)}) if (!V[s].known()) cur.skip = true;
    if (fabs(V[S_(SMUDGE_LENGTH)].v - 1) <= V[S_(SMUDGE_LENGTH)].u && V[S_(SMUDGE_LENGTH)].u > 0) cur.skip = true;
    D bv = V[S_(SMUDGE_BUCKET)].v; if (nb && fabs(bv - floor(bv) - 0.5) < 1e-5 + V[S_(SMUDGE_BUCKET)].u) cur.skip = true;
    cur.idx = nb ? (int)std::min((D)nb - 1, std::max(0.0, floor(bv + 0.5))) : 0;
    cur.len = V[S_(SMUDGE_LENGTH)].v; cur.paint = V[S_(PAINT_MODE)].v;
    cur.uses = cur.len < 1 && (V[S_(SMUDGE)].v != 0 || !smudge_const);
  };
  std::vector<Bucket> shadow(std::max(1, nb));
  auto resync = [&]() { for (int i = 0; i < std::max(1, nb); i++) shadow[i] = bucket(br.b, nb, i); };
  auto bad = [&](const std::string &s) { if (why.empty()) why = s; };
  float scol[4], flip0 = 0; int cmode = (int)r.below(4);
  auto canvas = [&](float, float, float, float, float *o) {
    for (int i = 0; i < 4; i++) o[i] = (float)r.uni();
    if (cmode == 1) o[3] = 1; else if (cmode == 2) o[3] = (float)r.pick({0, 0.005, 0.0105, 1, 0.5}); if (r.chance(0.1)) o[3] = 0;
    if (o[3] == 0) o[0] = o[1] = o[2] = 0;
  };
  auto close_unfinished = [&](bool was_end) {   // a dab was prepared (sampled) but never drawn
    if (!cur.active) return;
    cur.active = false;
    if (!cur.skip && why.empty()) {
      if (!cur.sup) bad(fmt("the dab was suppressed although the sampled alpha is %.7g and the limit %.7g", scol[3], cur.P.val[S_(SMUDGE_TRANSPARENCY)].v));
      c.count("suppressed");
      // a suppressed dab picks nothing up; how soon the canvas is sampled again is not judged
      if (was_end) for (int i = 0; i < (int)shadow.size(); i++) { Bucket n = bucket(br.b, nb, i); if (i == cur.idx) n.v[8] = shadow[i].v[8]; if (differ(n, shadow[i])) bad(fmt("a suppressed dab changed bucket %d", i)); }
    }
    if (was_end) resync(); else { D uf = std::max(0.01, cur.len); shadow[cur.idx].v[8] *= (float)uf; if (cur.skip) broken = true; }
  };
  mk.on_color = [&](float x, float y, float rad, float paint, float *o) {
    close_unfinished(false);
    canvas(x, y, rad, paint, o); memcpy(scol, o, 16); flip0 = br.state(ST_(FLIP));
    prepare(Dab()); cur.sampled = true; if (cur.skip || !why.empty()) return;
    const U *V = cur.P.val;
    if (!cur.uses) { bad(fmt("the canvas was sampled with smudge %.7g and smudge length %.7g", V[S_(SMUDGE)].v, cur.len)); return; }
    const Bucket &b = shadow[cur.idx];
    D uf = std::max(0.01, cur.len), rec = b.v[8] * uf, lim = std::min(1.0, pow(0.5 * uf, V[S_(SMUDGE_LENGTH_LOG)].v) + 1e-16);
    D t = 1e-5 * lim + 20 * (V[S_(SMUDGE_LENGTH)].u / uf + V[S_(SMUDGE_LENGTH_LOG)].u) * std::max(lim, rec);
    if (rec > lim + t) { bad(fmt("sampled again although the last sample is recent (recentness %.7g, limit %.7g)", rec, lim)); return; }
    DabExp e = expect_dab(m, cur.P, linear, base_rgb(m), U(1), nullptr);
    U sr = uclamp(U(m.S[ST_(ACTUAL_RADIUS)].v) * uexp(V[S_(SMUDGE_RADIUS_LOG)]), 0.2, 1000);
    if (sr.known() && fabs(sr.v - rad) > 3 * sr.u + 3e-6 * rad) bad(fmt("sampled with radius %.7g, expected %.7g", rad, sr.v));
    if (e.px.known() && (fabs(e.px.v - x) > 1.51 + e.px.u || fabs(e.py.v - y) > 1.51 + e.py.u)) bad(fmt("sampled at %.6g,%.6g, dab at %.6g,%.6g", x, y, e.px.v, e.py.v));
    bool legacy = cur.paint <= 0 && legacy_const;
    if (legacy ? paint != -1 : fabs(paint - cur.paint) > 3 * V[S_(PAINT_MODE)].u + 2e-6) bad(fmt("sampled with mode %.7g, paint mode is %.7g", paint, cur.paint));
    D l = V[S_(SMUDGE_TRANSPARENCY)].v, lu = V[S_(SMUDGE_TRANSPARENCY)].u; if (lu > 0) lu += 1e-7;    // constant limits and the sampled alpha are exact
    cur.sup = (l > 0 && scol[3] < l) || (l < 0 && scol[3] > -l); cur.supq = fabs(fabs(l) - scol[3]) < lu || fabs(l) < lu; if (l == 0 && V[S_(SMUDGE_TRANSPARENCY)].u == 0) cur.supq = false;
    if (cur.supq) cur.skip = true; else if (lu == 0 && l != 0 && fabs(l) == scol[3]) c.count("alpha_at_limit");
    c.count(legacy ? "legacy_samples" : cur.paint >= 1 ? "spectral_samples" : "mixed_samples");
  };
  mk.on_dab = [&](const Dab &d) {
    if (cur.active && br.state(ST_(FLIP)) != flip0) close_unfinished(false);     // this is already the next dab
    if (!cur.active) prepare(d);
    cur.active = false; if (!why.empty()) return 1;
    std::vector<Bucket> old = shadow; resync();
    if (cur.skip) return 1;
    const U *V = cur.P.val;
    if (cur.sampled && cur.sup) { bad(fmt("painted although the sampled alpha is %.7g and the limit %.7g", scol[3], V[S_(SMUDGE_TRANSPARENCY)].v)); return 1; }
    for (int i = 0; i < (int)shadow.size(); i++) if (i != cur.idx && differ(shadow[i], old[i])) { bad(fmt("painting with bucket %d changed bucket %d", cur.idx, i)); return 1; }
    Bucket b = old[cur.idx], o = shadow[cur.idx]; bool legacy = cur.paint <= 0 && legacy_const;
    if (!cur.uses) { if (differ(b, o)) { bad("the bucket changed although the canvas is not picked up"); return 1; } }
    else {
      D uf = std::max(0.01, cur.len), rec = b.v[8] * uf, lim = std::min(1.0, pow(0.5 * uf, V[S_(SMUDGE_LENGTH_LOG)].v) + 1e-16);
      D t = 1e-5 * lim + 20 * (V[S_(SMUDGE_LENGTH)].u / uf + V[S_(SMUDGE_LENGTH_LOG)].u) * std::max(lim, rec);
      if (!cur.sampled && rec < lim - t) { bad(fmt("not sampled although the last sample is old (recentness %.7g, limit %.7g)", rec, lim)); return 1; }
      D f = uf; D s[4]; for (int i = 0; i < 4; i++) s[i] = cur.sampled ? scol[i] : b.v[4 + i];
      if (cur.sampled && b.v[8] == 0) f = 0;
      else if (cur.sampled && rec < 1e-40) { return 1; }
      D e[9]; for (int i = 0; i < 4; i++) e[4 + i] = s[i]; e[8] = cur.sampled ? 1 : rec;
      D fu = V[S_(SMUDGE_LENGTH)].u + 1e-6, old4[4] = {b.v[0], b.v[1], b.v[2], b.v[3]}, tol = 3e-6 + 3 * fu;
      if (legacy) { for (int i = 0; i < 3; i++) e[i] = f * old4[i] + (1 - f) * s[3] * s[i]; e[3] = cl01(f * old4[3] + (1 - f) * s[3]); }
      else if (fabs(s[3] - 0.01) < 1e-6) return 1;
      else if (s[3] > 0.01) { D q[4]; mix(old4, s, f, cur.paint, q); for (int i = 0; i < 4; i++) e[i] = q[i]; tol += 2e-5 + 3 * V[S_(PAINT_MODE)].u; if (old4[3] < 1e-3 && f > 0) tol += 0.02; }
      else { for (int i = 0; i < 3; i++) e[i] = old4[i]; e[3] = (old4[3] + s[3]) / 2; }
      static const char *nm[] = {"smudge r", "smudge g", "smudge b", "smudge a", "picked r", "picked g", "picked b", "picked a", "recentness"};
      for (int i = 0; i < 9; i++) if (!(fabs(o.v[i] - e[i]) <= tol + (i == 8 ? e[8] * 1e-5 : 0))) { bad(fmt("%s of bucket %d is %.8g, expected %.8g (factor %.6g, picked up %.5g %.5g %.5g %.5g, before %.5g %.5g %.5g %.5g, paint %.4g%s)", nm[i], cur.idx, o.v[i], e[i], f, s[0], s[1], s[2], s[3], old4[0], old4[1], old4[2], old4[3], cur.paint, legacy ? ", legacy" : ""));  return 1; }
      c.count(cur.sampled ? "picked_up" : "reused_sample");
    }
    // the dab itself
    C3 brush = base_rgb(m); D sv = std::min(1.0, V[S_(SMUDGE)].v), su = V[S_(SMUDGE)].u + 1e-6, eta = 1, col[3] = {brush.v[0], brush.v[1], brush.v[2]}, ctol = 5e-6;
    if (sv > 0) {
      eta = cl01(1 - sv + sv * o.v[3]);
      if (eta > 0 && eta < 1e-4) return 1;
      if (eta <= 0) { ctol = 2; }
      else if (legacy) { for (int i = 0; i < 3; i++) col[i] = (sv * o.v[i] + (1 - sv) * brush.v[i]) / eta; ctol += 4 * su / eta / eta; }
      else { D a[4] = {o.v[0], o.v[1], o.v[2], o.v[3]}, b4[4] = {brush.v[0], brush.v[1], brush.v[2], 1}, q[4]; mix(a, b4, sv, cur.paint, q); for (int i = 0; i < 3; i++) col[i] = q[i]; ctol += 2e-5 + 4 * su + 3 * V[S_(PAINT_MODE)].u; if (o.v[3] < 1e-3) ctol += 0.02; }
    }
    D er = V[S_(ERASER)].v; if (er) eta *= 1 - er;
    if (fabs(d.alpha - eta) > 4 * su + 5e-6) { bad(fmt("target alpha %.7g, expected %.7g (smudge %.6g, smudge alpha %.6g, eraser %.6g)", d.alpha, eta, sv, o.v[3], er)); return 1; }
    D got[3] = {d.r, d.g, d.b}; for (int i = 0; i < 3; i++) if (!(fabs(got[i] - col[i]) <= ctol)) { bad(fmt("colour %d of the dab is %.7g, expected %.7g (smudge %.6g, smudge colour %.5g %.5g %.5g %.5g, brush %.5g %.5g %.5g, paint %.4g%s)", i, got[i], col[i], sv, o.v[0], o.v[1], o.v[2], o.v[3], brush.v[0], brush.v[1], brush.v[2], cur.paint, legacy ? ", legacy" : "")); return 1; }
    c.evals(); hsh = mixh(hsh, (uint64_t)(d.r * 1e5)); c.sig(hsh); if (sv >= 1) c.count("full_smudge"); else if (sv > 0) c.count("partial_smudge"); if (cur.len >= 1) c.count("length_one"); if (nb) c.count("bucket_dabs");
    return 1;
  };
  for (int s : {S_(SMUDGE), S_(SMUDGE_LENGTH), S_(SMUDGE_LENGTH_LOG), S_(SMUDGE_RADIUS_LOG), S_(SMUDGE_TRANSPARENCY), S_(PAINT_MODE), S_(SMUDGE_BUCKET), S_(ERASER)}) c.desc("%s=%.9g const=%d", mypaint_brush_setting_info((MyPaintBrushSetting)s)->cname, br.get(s), mypaint_brush_is_constant(br.b, (MyPaintBrushSetting)s));
  c.desc("buckets %d", nb);
  Walk w(r, 300); int n = r.irange(4, 30);
  for (int i = 0; i < n; i++) {
    Event e = w.next(r); if (r.chance(0.02)) { mypaint_brush_reset(br.b); m.reset_req = true; }
    if (r.chance(0.05)) { br.set(S_(SMUDGE), (float)r.uni()); m.refresh(); c.desc("smudge=%.9g", br.get(S_(SMUDGE))); }
    if (nb && r.chance(0.05)) { float v[9]; for (float &x : v) x = (float)r.uni(); mypaint_brush_set_smudge_bucket_state(br.b, r.irange(0, nb - 1), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); }
    c.desc("%s", evstr(e).c_str()); motion_ok = true; broken = false; resync();
    m.begin(e); stroke(br.b, mk.surf(), e); close_unfinished(true); m.end();
    if (m.lost) c.count("events_abandoned");
    if (!why.empty()) { c.viol("smudge-step", "event %d: %s", i, why.c_str()); return; }
    if (m.dabs > 250) break;
  }
}
// a fully smudging brush on a uniform canvas
static uint64_t painted; static MyPaintSurfaceDrawDabFunction real_draw;
static int counted(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float o, float h, float so, float a, float ra, float an, float l, float c, float p, float n, float pa) {
  int q = real_draw(s, x, y, radius, r, g, b, o, h, so, a, ra, an, l, c, p, n, pa); if (q) painted++; return q;
}
static void canvas_case(Case &c) {
  Rng &r = c.rng; Store s; s.logging = false; painted = 0; real_draw = s.base.parent.draw_dab; s.base.parent.draw_dab = counted; int nb = r.chance(0.6) ? 0 : r.irange(1, 5); Brush br(nb); br.plain();
  int kind = (int)r.below(3);     // 0 transparent, 1 opaque, 2 partly transparent
  int A = kind == 0 ? 0 : kind == 1 ? ONE15 : r.irange(400, ONE15); int px[4]; for (int i = 0; i < 3; i++) px[i] = r.chance(0.2) ? (r.chance(0.5) ? 0 : A) : (int)r.below(A + 1); px[3] = A;
  s.fill = fill_uniform(px[0], px[1], px[2], px[3]);
  float paint = (float)(r.chance(0.5) ? 0 : r.chance(0.5) ? 1 : r.uni()); bool dynamic_paint = r.chance(0.15);
  br.set(S_(SMUDGE), 1); br.set(S_(PAINT_MODE), paint); if (dynamic_paint) br.map(S_(PAINT_MODE), I_(PRESSURE), {{0, 0}, {1, 0}});
  br.set(S_(SMUDGE_LENGTH), (float)(r.chance(0.2) ? 0 : r.range(0, 0.999))); br.set(S_(SMUDGE_LENGTH_LOG), (float)(r.chance(0.6) ? 0 : r.range(0, 20))); br.set(S_(SMUDGE_RADIUS_LOG), (float)r.range(-1.6, 1.6));
  br.set(S_(RADIUS_LOGARITHMIC), (float)r.range(0, 3)); br.set(S_(HARDNESS), (float)r.range(0.1, 1)); br.set(S_(OPAQUE), (float)r.range(0.1, 1)); br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(1, 4));
  br.set(S_(COLOR_H), (float)r.uni()); br.set(S_(COLOR_S), 1); br.set(S_(COLOR_V), 1); if (nb) { br.set(S_(SMUDGE_BUCKET), (float)r.irange(0, nb + 1)); if (r.chance(0.5)) br.map(S_(SMUDGE_BUCKET), I_(PRESSURE), {{0, 0}, {1, (float)nb}}); }
  if (r.chance(0.3)) { br.set(S_(OFFSET_BY_RANDOM), (float)r.range(0, 2)); br.set(S_(RADIUS_BY_RANDOM), (float)r.range(0, 0.6)); }
  if (r.chance(0.3)) { br.set(S_(ELLIPTICAL_DAB_RATIO), (float)r.range(1, 5)); }
  if (r.chance(0.2)) br.set(S_(LOCK_ALPHA), (float)r.uni());
  if (r.chance(0.3)) { br.set(S_(SMUDGE_TRANSPARENCY), (float)r.range(-1, 1)); c.count("canvas_with_limit"); }
  c.desc("limit %g", br.get(S_(SMUDGE_TRANSPARENCY)));
  c.desc("canvas %d %d %d %d, paint %g%s, length %g log %g, smudge radius %g, radius %g, buckets %d, opaque %g", px[0], px[1], px[2], px[3], paint, dynamic_paint ? " dynamic" : "", br.get(S_(SMUDGE_LENGTH)), br.get(S_(SMUDGE_LENGTH_LOG)), br.get(S_(SMUDGE_RADIUS_LOG)), br.get(S_(RADIUS_LOGARITHMIC)), nb, br.get(S_(OPAQUE)));
  Walk w(r, 100); int n = r.irange(3, 20); MyPaintRectangle rc[4];
  for (int i = 0; i < n; i++) {
    Event e = w.next(r); MyPaintRectangles R{4, rc};
    mypaint_surface_begin_atomic(s.surf()); stroke(br.b, s.surf(), e); mypaint_surface_end_atomic(s.surf(), &R);
  }
  bool legacy = paint <= 0 && !dynamic_paint; int worst = 0, wx = 0, wy = 0; uint16_t wp[4] = {0, 0, 0, 0}; uint64_t changed = 0; D R = exp(br.get(S_(RADIUS_LOGARITHMIC)) + br.get(S_(SMUDGE_RADIUS_LOG)) + (br.get(S_(RADIUS_BY_RANDOM)) > 0 ? 1.5 : 0));
  for (auto &k : s.tiles) for (int i = 0; i < TS * TS; i++) { const uint16_t *p = k.second.px + 4 * i; int dd = 0; for (int q = 0; q < 4; q++) dd = std::max(dd, abs((int)p[q] - px[q])); if (dd) changed++; if (dd > worst) { worst = dd; memcpy(wp, p, 8); wx = (int)(uint32_t)(k.first >> 32) * TS + i % TS; wy = (int)(uint32_t)k.first * TS + i / TS; } }
  D tol = kind == 0 ? 4 : paint <= 0 ? 30 + 5.0 * painted : 700 + 6.0 * painted + 6 * (R + 9);   // rounding adds up over the dabs
  c.evals(); c.sig(mixh(changed, worst)); c.count(kind == 0 ? "transparent_canvas" : kind == 1 ? "opaque_canvas" : "translucent_canvas"); c.count(legacy ? "canvas_legacy" : "canvas_spectral");
  if (opt().verbose) fprintf(stderr, "DRIFT kind %d legacy %d paint %g worst %d dabs %llu per %.3f\n", kind, legacy, paint, worst, (unsigned long long)painted, (double)worst / std::max<uint64_t>(1, painted));
  if (worst > tol) c.viol("uniform-canvas", "smudging over a uniform canvas %d %d %d %d changed pixel (%d,%d) to %d %d %d %d (tolerance %.0f)", px[0], px[1], px[2], px[3], wx, wy, wp[0], wp[1], wp[2], wp[3], tol);
  if (c.idx % 41 == 1) c.sample("uniform canvas %d %d %d %d, paint %g: largest change %d/32768 over %llu changed pixels", px[0], px[1], px[2], px[3], paint, worst, (unsigned long long)changed);
}
static void one(Case &c) { if (c.idx % 3 == 1) canvas_case(c); else model_case(c); }
VP_MAIN("P26", one)
