// Reference for the parameters of one dab, from the modelled setting values and the brush's observed states.
#pragma once
#include "bmodel.hpp"
namespace vp {
typedef double D;
struct C3 { D v[3]; };
inline D cl01(D x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
inline C3 hsv2rgb(D h, D s, D v) {
  h -= floor(h); s = cl01(s); v = cl01(v); C3 o; D n[3] = {5, 3, 1};
  for (int i = 0; i < 3; i++) { D k = fmod(n[i] + h * 6, 6.0); o.v[i] = v - v * s * std::max(0.0, std::min(std::min(k, 4 - k), 1.0)); }
  return o;
}
inline C3 hsl2rgb(D h, D s, D l) {
  h -= floor(h); s = cl01(s); l = cl01(l); C3 o; D n[3] = {0, 8, 4}, a = s * std::min(l, 1 - l);
  for (int i = 0; i < 3; i++) { D k = fmod(n[i] + h * 12, 12.0); o.v[i] = l - a * std::max(-1.0, std::min(std::min(k - 3, 9 - k), 1.0)); }
  return o;
}
inline D hue6(const C3 &c, D mx, D mn) {
  D d = mx - mn; if (d <= 0) return 0; D h;
  if (c.v[0] == mx) h = (c.v[1] - c.v[2]) / d; else if (c.v[1] == mx) h = 2 + (c.v[2] - c.v[0]) / d; else h = 4 + (c.v[0] - c.v[1]) / d;
  h /= 6; return h - floor(h);
}
inline C3 rgbclamp(C3 c) { for (D &x : c.v) x = cl01(x); return c; }
inline C3 rgb2hsv(C3 c) { c = rgbclamp(c); D mx = std::max({c.v[0], c.v[1], c.v[2]}), mn = std::min({c.v[0], c.v[1], c.v[2]}); return {{hue6(c, mx, mn), mx > 0 ? (mx - mn) / mx : 0, mx}}; }
inline C3 rgb2hsl(C3 c) { c = rgbclamp(c); D mx = std::max({c.v[0], c.v[1], c.v[2]}), mn = std::min({c.v[0], c.v[1], c.v[2]}), l = (mx + mn) / 2; return {{hue6(c, mx, mn), mx > mn ? (mx - mn) / (l <= 0.5 ? mx + mn : 2 - mx - mn) : 0, l}}; }
struct ColSet { D h, hs, v, l, ls; bool linear; };
inline C3 adjust(C3 c, const ColSet &k) {
  bool any = k.h || k.hs || k.v || k.l || k.ls;
  if (!any) return c;
  if (k.linear) for (D &x : c.v) x = pow(x, 1 / 2.2);
  if (k.h || k.hs || k.v) { C3 q = rgb2hsv(c); q.v[0] += k.h; q.v[1] += q.v[1] * q.v[2] * k.hs; q.v[2] += k.v; c = hsv2rgb(q.v[0], q.v[1], q.v[2]); }
  if (k.l || k.ls) { C3 q = rgb2hsl(c); q.v[2] += k.l; q.v[1] += q.v[1] * std::min(fabs(1 - q.v[2]), fabs(q.v[2])) * 2 * k.ls; c = hsl2rgb(q.v[0], q.v[1], q.v[2]); }
  if (k.linear) for (D &x : c.v) x = pow(x, 2.2);
  return c;
}
// colour after the change settings, each given with its uncertainty; u is infinite where the result is ill conditioned
inline void colour(const C3 &c, const U val[5], bool linear, U out[3]) {
  ColSet k0{val[0].v, val[1].v, val[2].v, val[3].v, val[4].v, linear};
  for (int i = 0; i < 5; i++) if (!val[i].known()) { out[0] = out[1] = out[2] = U(0, INF); return; }
  C3 base = adjust(c, k0);
  bool any = k0.h || k0.hs || k0.v || k0.l || k0.ls;
  D spread[3] = {0, 0, 0};
  auto tryp = [&](C3 cc, const ColSet &kk) { C3 q = adjust(cc, kk); for (int i = 0; i < 3; i++) spread[i] = std::max(spread[i], fabs(q.v[i] - base.v[i])); };
  D eps = 2.5e-7 * std::max({c.v[0], c.v[1], c.v[2], 1e-3});
  if (any) {
    for (int m = 1; m < 27; m++) { C3 cc = c; int q = m; for (int i = 0; i < 3; i++, q /= 3) { D d = q % 3 == 1 ? eps : q % 3 == 2 ? -eps : 0; cc.v[i] = std::max(0.0, cc.v[i] + d); } tryp(cc, k0); }
    for (int i = 0; i < 5; i++) for (int sg = -1; sg <= 1; sg += 2) { ColSet kk = k0; D *p = i == 0 ? &kk.h : i == 1 ? &kk.hs : i == 2 ? &kk.v : i == 3 ? &kk.l : &kk.ls; if (*p) { *p += sg * (val[i].u + 2e-7); tryp(c, kk); } }
    // colours closer to grey than 1/10000 may lose their hue
    C3 g = c; if (linear) for (D &x : g.v) x = pow(x, 1 / 2.2);
    g = rgbclamp(g); D mx = std::max({g.v[0], g.v[1], g.v[2]}), mn = std::min({g.v[0], g.v[1], g.v[2]});
    if (mx - mn < 2e-4 && mx > mn) { C3 gg = {{mx, mx, mx}}; if (linear) for (D &x : gg.v) x = pow(x, 2.2); tryp(gg, k0); for (D &s : spread) s += 2e-4; }
  }
  for (int i = 0; i < 3; i++) out[i] = spread[i] > 4e-3 ? U(base.v[i], INF) : U(base.v[i], spread[i] * 2 + 2e-6);
}
struct DabExp { U x, y, radius, hard, soft, opaque, alpha, ratio, angle, lock, colorize, post, num, paint, col[3], px, py; bool posnoise, snapped; };
// eraser target alpha and colour before the change settings come from the caller (smudge)
inline DabExp expect_dab(const Model &m, const Pred &P, bool linear, const C3 &rgb, U smudge_alpha, const Dab *seen) {
  DabExp e; const U *V = P.val; auto st = [&](int i) { return U(m.S[i].v); };
  U op = uclamp(umax(V[S_(OPAQUE)], 0) * V[S_(OPAQUE_MULTIPLY)], 0, 1); D lin = m.base[S_(OPAQUE_LINEARIZE)];
  if (lin) {
    U n = U(1) + U(lin) * (umax((st(ST_(DABS_PER_ACTUAL_RADIUS)) + st(ST_(DABS_PER_BASIC_RADIUS))) * U(2), 1) - U(1));
    if (op.known()) { D a = op.v; auto f = [&](D o, D nn) { return 1 - pow(cl01(1 - o), 1 / nn); }; D v = f(a, n.v), t = 0;
      D du = op.u + 2e-7; for (D dn : {-n.u, n.u}) for (D da : {-du, du}) t = std::max(t, fabs(f(cl01(a + da), n.v + dn) - v)); op = U(v, t + 5e-7); }
  }
  // offsets
  U br = uexp(m.base[S_(RADIUS_LOGARITHMIC)]), mult = uexp(V[S_(OFFSET_MULTIPLIER)]), dx = V[S_(OFFSET_X)], dy = V[S_(OFFSET_Y)], adj = V[S_(OFFSET_ANGLE_ADJ)];
  U dir = uatan2(st(ST_(DIRECTION_ANGLE_DY)), st(ST_(DIRECTION_ANGLE_DX))) * U(DEG) - U(90), asc = st(ST_(ASCENSION)), vr = st(ST_(VIEWROTATION)), flip = st(ST_(FLIP));
  auto add = [&](U deg, U amt, bool neg) { U r = deg * U(M_PI / 180); r.u += 1e-6; if (neg) r = -r; dx = dx + ucos(r) * amt; dy = dy + usin(r) * amt; };
  U z(0);
  auto on = [&](U v) { return v.v != 0 || v.u != 0; };
  if (on(V[S_(OFFSET_ANGLE)])) add(dir + adj, V[S_(OFFSET_ANGLE)], false);
  if (on(V[S_(OFFSET_ANGLE_ASC)])) add(asc - vr + adj, V[S_(OFFSET_ANGLE_ASC)], false);
  if (on(V[S_(OFFSET_ANGLE_VIEW)])) add(vr + adj, V[S_(OFFSET_ANGLE_VIEW)], true);
  if (on(V[S_(OFFSET_ANGLE_2)])) add(dir + adj * flip, umax(V[S_(OFFSET_ANGLE_2)], 0) * flip, false);
  if (on(V[S_(OFFSET_ANGLE_2_ASC)])) add(asc - vr + adj * flip, umax(V[S_(OFFSET_ANGLE_2_ASC)], 0) * flip, false);
  if (on(V[S_(OFFSET_ANGLE_2_VIEW)])) add(vr + adj, umax(V[S_(OFFSET_ANGLE_2_VIEW)], 0) * flip, true);
  U bm = br * mult, ox = uclamp(dx * bm, -3240, 3240), oy = uclamp(dy * bm, -3240, 3240);
  U x = st(ST_(ACTUAL_X)) + ox, y = st(ST_(ACTUAL_Y)) + oy;
  U bs = V[S_(OFFSET_BY_SPEED)] * U(0.1) / st(ST_(VIEWZOOM));
  if (on(V[S_(OFFSET_BY_SPEED)])) { x = x + st(ST_(NORM_DX_SLOW)) * bs; y = y + st(ST_(NORM_DY_SLOW)) * bs; }
  e.posnoise = on(V[S_(OFFSET_BY_RANDOM)]);
  U radius = st(ST_(ACTUAL_RADIUS));
  U soft = uclamp(V[S_(SOFTNESS)], 0, 1), hard = uclamp(V[S_(HARDNESS)], 0, 1);
  if (on(V[S_(RADIUS_BY_RANDOM)])) {
    // the jittered radius is only seen when neither anti-aliasing nor snapping changes it afterwards
    bool seenok = seen && V[S_(ANTI_ALIASING)].v == 0 && V[S_(ANTI_ALIASING)].u == 0 && V[S_(SNAP_TO_PIXEL)].v <= 0 && V[S_(SNAP_TO_PIXEL)].u == 0;
    if (seenok) { U q = radius / U(seen->radius); q = q * q; op = op * umin(q, 1); op.u += 4e-7; radius = U(seen->radius); } else { radius = U(0, INF); op = U(0, INF); }
  }
  U smv = V[S_(ERASER)]; e.alpha = on(smv) ? smudge_alpha * (U(1) - smv) : smudge_alpha; e.alpha.u += 2e-7;
  e.px = x; e.py = y;
  // anti-aliasing
  U fade = radius * (U(1) - hard), mf = V[S_(ANTI_ALIASING)]; int c = lt(fade, mf);
  if (c < 0 || c == 0) {
    U opt = radius - (U(1) - hard) * radius / U(2), hn = (opt - mf / U(2)) / (opt + mf / U(2)), rn = opt + mf / U(2);
    if (c == 0) { hn.u += fabs(hn.v - hard.v); rn.u += fabs(rn.v - radius.v); }
    hard = umax(hn, 0); radius = rn; hard.u += 2e-6; radius.u += 2e-6 * fabs(radius.v);
    // (1 - hardness) loses digits where the fade-out is small
    if (1 - hn.v < 1) radius.u += fabs(radius.v) * 3 * 1.2e-7 / std::max(1e-7, 1 - hn.v);
  }
  U snap = V[S_(SNAP_TO_PIXEL)]; e.snapped = false;
  if (snap.v > 0 || snap.u > 0) {
    e.snapped = true;
    if (snap.v <= snap.u || fabs(snap.v - 0.9999) <= snap.u + 1e-6) { x = y = radius = U(0, INF); }
    else {
      auto sn = [&](U p) { if (!p.known()) return U(0, INF); D t = p.u + 2e-7 * fabs(p.v), f = p.v - floor(p.v); U s(floor(p.v) + 0.5); if (f < t || 1 - f < t) { if (snap.v >= 1) return U(floor(p.v + 0.5), 0.5); s.u = 1; } return p + (s - p) * snap; };
      x = sn(x); y = sn(y);
      if (radius.known()) {
        D h = radius.v * 2, f = h - floor(h), t = 2 * radius.u + 4e-7 * h; U s(std::max(0.5, floor(h + 0.5) / 2)); if (fabs(f - 0.5) < t) s.u = 0.5;
        if (snap.v > 0.9999) s = s - U(0.0001); radius = radius + (s - radius) * snap;
      }
    }
  }
  e.x = x; e.y = y; e.radius = radius; e.hard = hard; e.soft = soft; e.opaque = op;
  e.ratio = st(ST_(ACTUAL_ELLIPTICAL_DAB_RATIO)); e.angle = st(ST_(ACTUAL_ELLIPTICAL_DAB_ANGLE));
  e.lock = V[S_(LOCK_ALPHA)]; e.colorize = V[S_(COLORIZE)]; e.post = V[S_(POSTERIZE)]; e.num = V[S_(POSTERIZE_NUM)]; e.paint = V[S_(PAINT_MODE)];
  U cs[5] = {V[S_(CHANGE_COLOR_H)], V[S_(CHANGE_COLOR_HSV_S)], V[S_(CHANGE_COLOR_V)], V[S_(CHANGE_COLOR_L)], V[S_(CHANGE_COLOR_HSL_S)]};
  colour(rgb, cs, linear, e.col);
  return e;
}
inline C3 base_rgb(const Model &m) { return hsv2rgb(m.base[S_(COLOR_H)], m.base[S_(COLOR_S)], m.base[S_(COLOR_V)]); }
// gives a setting a random smooth curve on one of the inputs
inline void dyn(Rng &r, Brush &br, int s, D lo, D hi) {
  static const int ins[] = {I_(PRESSURE), I_(TILT_DECLINATION), I_(SPEED1), I_(DIRECTION_ANGLE), I_(CUSTOM), I_(VIEWZOOM), I_(TILT_DECLINATIONX), I_(BARREL_ROTATION), I_(STROKE)};
  int i = ins[r.below(9)]; const MyPaintBrushInputInfo *ii = mypaint_brush_input_info((MyPaintBrushInput)i); D a = ii->soft_min, b = ii->soft_max;
  int n = r.irange(2, 4); std::vector<std::pair<float, float>> p; for (int k = 0; k < n; k++) p.push_back({(float)(a + (b - a) * k / (n - 1)), (float)r.range(lo, hi)});
  p.insert(p.begin(), {(float)(a - (b - a)), p.front().second}); p.push_back({(float)(b + (b - a)), p.back().second});
  br.map(s, i, p);
}
}  // namespace vp
