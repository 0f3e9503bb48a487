// An independent model of one stroke step, resynchronised with the brush's published states after every dab and every event.
// Quantities carry an uncertainty: single precision rounding, and "unknown" where a comparison or a wrap is too close to call.
#pragma once
#include "lib.hpp"
namespace vp {
static const double EPS = 1.2e-7, INF = INFINITY;
struct U { double v, u; U(double v_ = 0, double u_ = 0) : v(v_), u(u_) {} bool known() const { return std::isfinite(u) && std::isfinite(v); } };
inline U mk(double v, double u) { U r; r.v = v; r.u = u + EPS * fabs(v) + 1e-37; if (std::isnan(r.v) || std::isnan(r.u)) { r.v = 0; r.u = INF; } return r; }
inline U operator+(U a, U b) { return mk(a.v + b.v, a.u + b.u); }
inline U operator-(U a, U b) { return mk(a.v - b.v, a.u + b.u); }
inline U operator-(U a) { return U(-a.v, a.u); }
inline U operator*(U a, U b) { if (!a.known() || !b.known()) return U(0, INF); return mk(a.v * b.v, fabs(a.v) * b.u + fabs(b.v) * a.u + a.u * b.u); }
inline U operator/(U a, U b) {
  if (!a.known() || !b.known() || fabs(b.v) <= 2 * b.u) return U(0, INF);
  double q = a.v / b.v; return mk(q, a.u / (fabs(b.v) - b.u) + fabs(q) * b.u / (fabs(b.v) - b.u));
}
template <class F> inline U mono(U a, F f) { if (!a.known()) return U(0, INF); double v = f(a.v), p = f(a.v + a.u), m = f(a.v - a.u); return mk(v, 2 * EPS * fabs(v) + std::max(fabs(p - v), fabs(m - v))); }
inline U uexp(U a) { return mono(a, [](double x) { return exp(x); }); }
inline U ulog(U a) { if (a.v - a.u <= 0) return U(0, INF); U r = mono(a, [](double x) { return log(x); }); r.u += EPS; return r; }
inline U usqrt(U a) { return mono(a, [](double x) { return sqrt(std::max(0.0, x)); }); }
inline U uhyp(U a, U b) { if (!a.known() || !b.known()) return U(0, INF); return mk(hypot(a.v, b.v), a.u + b.u + EPS * hypot(a.v, b.v)); }
inline U umax(U a, U b) { if (!a.known() || !b.known()) return U(0, INF); return U(std::max(a.v, b.v), std::max(a.u, b.u)); }
inline U umin(U a, U b) { return -umax(-a, -b); }
inline U uclamp(U a, double lo, double hi) { return umin(umax(a, lo), hi); }
inline U ucos(U a) { if (!a.known()) return U(0, INF); return mk(cos(a.v), a.u + EPS); }
inline U usin(U a) { if (!a.known()) return U(0, INF); return mk(sin(a.v), a.u + EPS); }
inline U uatan2(U y, U x) {
  double h = hypot(y.v, x.v); if (!y.known() || !x.known() || (h <= 4 * (x.u + y.u) && x.u + y.u > 0)) return U(0, INF);
  U r = mk(atan2(y.v, x.v), (h > 0 ? 2 * (x.u + y.u) / h : 0) + 2 * EPS);
  if (x.v < 0 && fabs(y.v) <= y.u && y.u > 0) r.u = INF; return r;   // branch cut
}
// -1 certainly less, 1 certainly not less, 0 cannot tell
inline int lt(U a, U b) { double d = a.v - b.v, t = a.u + b.u + EPS * std::max(fabs(a.v), fabs(b.v)); if (!a.known() || !b.known()) return 0; if (a.u == 0 && b.u == 0) return d < 0 ? -1 : 1; return d < -t ? -1 : d > t ? 1 : 0; }
inline U decay(U T, U t) {
  int c = lt(T, U(0.001, 1e-9)); if (T.u == 0 && T.v == (double)0.001f) c = 0;
  if (c == 0) return U(0, INF); if (c < 0) return U(0);
  return uexp(-t / T);
}
inline double wrapd(double d, double n) { return d - n * floor(d / n + 0.5); }
static const double DEG = 180 / M_PI;

typedef std::vector<std::pair<float, float>> Curve;
struct Pred {
  U st[MYPAINT_BRUSH_STATES_COUNT], in[MYPAINT_BRUSH_INPUTS_COUNT], val[MYPAINT_BRUSH_SETTINGS_COUNT];
  U stroke_wrap;
};
struct Model {
  MyPaintBrush *b;
  double base[MYPAINT_BRUSH_SETTINGS_COUNT];
  std::vector<std::pair<int, Curve>> cur[MYPAINT_BRUSH_SETTINGS_COUNT];
  U prevval[MYPAINT_BRUSH_SETTINGS_COUNT];      // the step before; base values after a reset
  U S[MYPAINT_BRUSH_STATES_COUNT];
  bool reset_req = true;
  // per event
  struct Sub { float x, y, p; double dt; };
  std::vector<Sub> subs; size_t cursub = 0;
  float xt, yt, zoom, rot, barrel; U tasc, tdecl, tdx, tdy;
  U tx, ty, moved, todo, dtl; bool is_reset = false, was_reset = false;
  std::string err; bool lost = false;            // lost: no longer comparable in this event (not a violation by itself)
  uint64_t compared = 0, skipped = 0, dabs = 0, steps = 0;
  std::function<void(int, U, float, double)> on_state;   // state id, prediction, observed, circular period (0: none)
  std::function<void(const Pred &, const Dab &)> on_dab;
  U last_dp; int painted_any = 0;

  explicit Model(MyPaintBrush *b_) : b(b_) { refresh(); for (auto &v : prevval) v = U(0); read(); }
  void refresh() {     // settings through the getters
    for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) {
      base[s] = mypaint_brush_get_base_value(b, (MyPaintBrushSetting)s); cur[s].clear();
      for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) {
        int n = mypaint_brush_get_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i); if (!n) continue;
        Curve c; for (int k = 0; k < n; k++) { float x, y; mypaint_brush_get_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, k, &x, &y); c.push_back({x, y}); }
        cur[s].push_back({i, c});
      }
    }
  }
  void read() { for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) S[i] = U(mypaint_brush_get_state(b, (MyPaintBrushState)i)); }
  static double ev1(const Curve &c, double x) {
    size_t n = c.size(), i = 0; while (i + 2 < n && x > c[i + 1].first) i++;
    double x0 = c[i].first, y0 = c[i].second, x1 = c[i + 1].first, y1 = c[i + 1].second;
    if (x0 == x1 || y0 == y1) return y0;
    return (y1 * (x - x0) + y0 * (x1 - x)) / (x1 - x0);
  }
  U value(int s, const U *in) const {
    U r(base[s]);
    for (auto &c : cur[s]) {
      U x = in[c.first]; if (!x.known()) return U(0, INF);
      double v = ev1(c.second, x.v), a = ev1(c.second, x.v - x.u - EPS * fabs(x.v)), d = ev1(c.second, x.v + x.u + EPS * fabs(x.v));
      double mag = 0; for (auto &p : c.second) mag = std::max(mag, fabs((double)p.second)); mag = std::max(mag, fabs(v));
      r = r + mk(v, std::max(fabs(a - v), fabs(d - v)) + 4 * EPS * mag);
    }
    return r;
  }
  U count(U dt) {
    U br = uclamp(uexp(base[S_(RADIUS_LOGARITHMIC)]), 0.2, 1000);
    if (S[ST_(ACTUAL_RADIUS)].v == 0) S[ST_(ACTUAL_RADIUS)] = br;
    U dx = tx - S[ST_(X)], dy = ty - S[ST_(Y)], dist, ratio = S[ST_(ACTUAL_ELLIPTICAL_DAB_RATIO)];
    int c = lt(U(1), ratio);
    if (c == 0) dist = U(0, INF);
    else if (c < 0) {
      U a = S[ST_(ACTUAL_ELLIPTICAL_DAB_ANGLE)] * U(M_PI / 180), cs = ucos(a), sn = usin(a);
      dist = uhyp((dy * cs - dx * sn) * ratio, dy * sn + dx * cs);
    } else dist = uhyp(dx, dy);
    U r = dist / S[ST_(ACTUAL_RADIUS)] * S[ST_(DABS_PER_ACTUAL_RADIUS)] + dist / br * S[ST_(DABS_PER_BASIC_RADIUS)] + dt * S[ST_(DABS_PER_SECOND)];
    return umax(r, 0);
  }
  // signed shorter way from a to b; unknown near 180
  static U sad(U a, U b2) {
    U d = b2 - a; double w = wrapd(d.v, 360), t = d.u + 4 * EPS * (fabs(a.v) + fabs(b2.v) + 360);
    if (180 - fabs(w) <= t) return U(w, INF);
    return U(w, t);
  }
  Pred step(U ddab, U dx, U dy, U dp, U ddec, U dasc, U dt, U ddx, U ddy, U dbar) {
    Pred P; U *T = P.st; for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) T[i] = S[i];
    if (dt.v <= dt.u + 1e-12) { if (dt.u == 0 && dt.v == 0) dt = U(0.001); else dt = U(0.001, INF); }
    T[ST_(X)] = T[ST_(X)] + dx; T[ST_(Y)] = T[ST_(Y)] + dy; T[ST_(PRESSURE)] = umax(T[ST_(PRESSURE)] + dp, 0);
    T[ST_(DECLINATION)] = T[ST_(DECLINATION)] + ddec; T[ST_(ASCENSION)] = T[ST_(ASCENSION)] + dasc;
    T[ST_(DECLINATIONX)] = T[ST_(DECLINATIONX)] + ddx; T[ST_(DECLINATIONY)] = T[ST_(DECLINATIONY)] + ddy;
    T[ST_(VIEWZOOM)] = U(zoom);
    double vr = wrapd(rot * DEG, 360); U VR = mk(vr, 4 * EPS * (fabs(rot * DEG) + 360)); T[ST_(VIEWROTATION)] = VR;
    for (int k = 0; k < 2; k++) {
      U pos = S[k ? ST_(ACTUAL_Y) : ST_(ACTUAL_X)], sc = prevval[k ? S_(GRIDMAP_SCALE_Y) : S_(GRIDMAP_SCALE_X)], size = uexp(prevval[S_(GRIDMAP_SCALE)]) * 256.0;
      U q = U(fabs(pos.v), pos.u) * sc / size; double f = q.v - floor(q.v); U g(f * 256, (q.u + 2 * EPS * (fabs(q.v) + 1)) * 256);
      if (lt(pos, 0) < 0) g.v = 256 - g.v; else if (lt(pos, 0) == 0) g.u = INF;
      T[k ? ST_(GRIDMAP_Y) : ST_(GRIDMAP_X)] = g;
    }
    U br = uexp(base[S_(RADIUS_LOGARITHMIC)]);
    T[ST_(BARREL_ROTATION)] = T[ST_(BARREL_ROTATION)] + dbar;
    U pr = T[ST_(PRESSURE)];
    double thr = base[S_(STROKE_THRESHOLD)];
    if (S[ST_(STROKE_STARTED)].v == 0) {
      int c = lt(U(thr + 0.0001, EPS), pr);
      if (c < 0) { T[ST_(STROKE_STARTED)] = U(1); T[ST_(STROKE)] = U(0); } else if (c == 0) T[ST_(STROKE_STARTED)].u = T[ST_(STROKE)].u = INF;
    } else {
      int c = lt(U(thr * 0.9 + 0.0001, EPS), pr);
      if (c > 0) T[ST_(STROKE_STARTED)] = U(0); else if (c == 0) T[ST_(STROKE_STARTED)].u = INF;
    }
    U ndx = dx / dt * U(zoom), ndy = dy / dt * U(zoom), nsp = uhyp(ndx, ndy), ndist = uhyp(dx / br, dy / br);
    U *I = P.in;
    I[I_(PRESSURE)] = pr * uexp(base[S_(PRESSURE_GAIN_LOG)]);
    for (int k = 0; k < 2; k++) {
      U gam = uexp(base[k ? S_(SPEED2_GAMMA) : S_(SPEED1_GAMMA)]), m = U(0.015) * (gam + U(45)), q = U(0.5) - m * ulog(gam + U(45));
      I[k ? I_(SPEED2) : I_(SPEED1)] = ulog(gam + S[k ? ST_(NORM_SPEED2_SLOW) : ST_(NORM_SPEED1_SLOW)]) * m + q;
    }
    I[I_(RANDOM)] = U(0.5, INF);
    I[I_(STROKE)] = umin(T[ST_(STROKE)], 1);
    U a180 = uatan2(S[ST_(DIRECTION_DY)], S[ST_(DIRECTION_DX)]) * U(DEG), a360 = uatan2(S[ST_(DIRECTION_ANGLE_DY)], S[ST_(DIRECTION_ANGLE_DX)]) * U(DEG);
    I[I_(DIRECTION)] = a180 + VR; I[I_(DIRECTION_ANGLE)] = a360 + VR;                        // periods 180, 360
    I[I_(TILT_DECLINATION)] = T[ST_(DECLINATION)]; I[I_(TILT_ASCENSION)] = T[ST_(ASCENSION)] + VR;   // period 360
    I[I_(VIEWZOOM)] = mk(log((double)zoom), 8 * EPS * (fabs(base[S_(RADIUS_LOGARITHMIC)]) + fabs(log((double)zoom)) + 1));
    I[I_(ATTACK_ANGLE)] = a360 + U(90) - T[ST_(ASCENSION)]; I[I_(ATTACK_ANGLE)].u += 360 * 4 * EPS;   // period 360
    I[I_(BRUSH_RADIUS)] = U(base[S_(RADIUS_LOGARITHMIC)]);
    I[I_(GRIDMAP_X)] = T[ST_(GRIDMAP_X)]; I[I_(GRIDMAP_Y)] = T[ST_(GRIDMAP_Y)];
    I[I_(TILT_DECLINATIONX)] = T[ST_(DECLINATIONX)]; I[I_(TILT_DECLINATIONY)] = T[ST_(DECLINATIONY)];
    I[I_(CUSTOM)] = S[ST_(CUSTOM_INPUT)]; I[I_(BARREL_ROTATION)] = T[ST_(BARREL_ROTATION)];
    // values of wrapped inputs for the curves of settings; too close to the wrap is unknown
    U W[MYPAINT_BRUSH_INPUTS_COUNT]; for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) W[i] = I[i];
    auto wrap = [&](int i, double lo, double n) { if (!W[i].known()) return; double f = W[i].v - lo; f -= n * floor(f / n); double t = W[i].u + 8 * EPS * n; W[i] = U(lo + f, f < t || n - f < t ? INF : t); };
    wrap(I_(DIRECTION), 0, 180); wrap(I_(DIRECTION_ANGLE), 0, 360); wrap(I_(TILT_ASCENSION), -180, 360); wrap(I_(ATTACK_ANGLE), -180, 360); wrap(I_(BARREL_ROTATION), 0, 360);
    for (int k = 0; k < 2; k++) { int i = k ? I_(GRIDMAP_Y) : I_(GRIDMAP_X); if (W[i].v < W[i].u || 256 - W[i].v < W[i].u) W[i].u = INF; }
    for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) P.val[s] = value(s, W);
    U *V = P.val;
    T[ST_(DABS_PER_BASIC_RADIUS)] = V[S_(DABS_PER_BASIC_RADIUS)]; T[ST_(DABS_PER_ACTUAL_RADIUS)] = V[S_(DABS_PER_ACTUAL_RADIUS)]; T[ST_(DABS_PER_SECOND)] = V[S_(DABS_PER_SECOND)];
    auto low = [&](int st, U target, U fac) { T[st] = T[st] + (target - T[st]) * fac; T[st].u += EPS * fabs(target.v) + 2 * EPS * fabs(S[st].v); };
    { U f = U(1) - decay(V[S_(SLOW_TRACKING_PER_DAB)], ddab); low(ST_(ACTUAL_X), T[ST_(X)], f); low(ST_(ACTUAL_Y), T[ST_(Y)], f); }
    low(ST_(NORM_SPEED1_SLOW), nsp, U(1) - decay(V[S_(SPEED1_SLOWNESS)], dt)); low(ST_(NORM_SPEED2_SLOW), nsp, U(1) - decay(V[S_(SPEED2_SLOWNESS)], dt));
    { U tc = umax(uexp(V[S_(OFFSET_BY_SPEED_SLOWNESS)] * U(0.01)) - U(1), 0.002), f = U(1) - decay(tc, dt); low(ST_(NORM_DX_SLOW), ndx, f); low(ST_(NORM_DY_SLOW), ndy, f); }
    {
      U sx = dx * U(zoom), sy = dy * U(zoom), f = U(1) - decay(uexp(V[S_(DIRECTION_FILTER)] * U(0.5)) - U(1), uhyp(sx, sy));
      low(ST_(DIRECTION_ANGLE_DX), sx, f); low(ST_(DIRECTION_ANGLE_DY), sy, f);
      U ox = S[ST_(DIRECTION_DX)], oy = S[ST_(DIRECTION_DY)]; double dot = ox.v * sx.v + oy.v * sy.v, m2 = ox.v * ox.v + oy.v * oy.v + sx.v * sx.v + sy.v * sy.v;
      double t = 8 * EPS * m2 + fabs(ox.v) * sx.u + fabs(oy.v) * sy.u;
      if (fabs(dot) <= t && m2 > 0) { T[ST_(DIRECTION_DX)].u = T[ST_(DIRECTION_DY)].u = INF; }
      else { if (dot < 0) { sx = -sx; sy = -sy; } low(ST_(DIRECTION_DX), sx, f); low(ST_(DIRECTION_DY), sy, f); }
    }
    low(ST_(CUSTOM_INPUT), V[S_(CUSTOM_INPUT)], U(1) - decay(V[S_(CUSTOM_INPUT_SLOWNESS)], 0.1));
    {
      U q = umax(T[ST_(STROKE)] + ndist * uexp(-V[S_(STROKE_DURATION_LOGARITHMIC)]), 0), w = U(1) + umax(V[S_(STROKE_HOLDTIME)], 0);
      P.stroke_wrap = w; int over = lt(q, w), inf = lt(U(10.9, 1e-6), w);
      if (over < 0) T[ST_(STROKE)] = q;
      else if (over == 0 || inf == 0) T[ST_(STROKE)] = U(0, INF);
      else if (inf < 0) T[ST_(STROKE)] = U(1);
      else { double n = floor(q.v / w.v), t = q.u + n * w.u + 4 * EPS * q.v; double f = q.v - n * w.v; T[ST_(STROKE)] = U(f, f < t || w.v - f < t ? INF : t); }
    }
    T[ST_(ACTUAL_RADIUS)] = uclamp(uexp(V[S_(RADIUS_LOGARITHMIC)]), 0.2, 1000);
    T[ST_(ACTUAL_ELLIPTICAL_DAB_RATIO)] = V[S_(ELLIPTICAL_DAB_RATIO)];
    { U a = V[S_(ELLIPTICAL_DAB_ANGLE)] - VR; T[ST_(ACTUAL_ELLIPTICAL_DAB_ANGLE)] = U(a.v, a.u + 360 * 4 * EPS); }   // period 180, reported in [-180,0)
    steps++;
    for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) prevval[s] = V[s];
    return P;
  }
  static double period(int st) { return st == ST_(GRIDMAP_X) || st == ST_(GRIDMAP_Y) ? 256 : st == ST_(VIEWROTATION) ? 360 : st == ST_(ACTUAL_ELLIPTICAL_DAB_ANGLE) ? 180 : 0; }
  void compare(const Pred &P) {
    for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) {
      float o = mypaint_brush_get_state(b, (MyPaintBrushState)i);
      if (i != ST_(PARTIAL_DABS) || P.st[i].u >= 0) { if (P.st[i].known()) { compared++; if (on_state) on_state(i, P.st[i], o, period(i)); } else skipped++; }
      S[i] = U(o);
    }
  }
  static bool off(U p, float o, double per) {     // certainly different
    if (!std::isfinite(o)) return true;
    double d = p.v - o; if (per) d = wrapd(d, per);
    return fabs(d) > 3 * p.u + 1e-6 * (1e-3 + fabs(p.v)) + 1e-9;
  }
  void start_sub() {
    Sub &e = subs[cursub];
    U fac = U(1) - decay(base[S_(SLOW_TRACKING)], U(100.0 * e.dt));
    tx = S[ST_(X)] + (U(e.x) - S[ST_(X)]) * fac; ty = S[ST_(Y)] + (U(e.y) - S[ST_(Y)]) * fac;
    tx.u += EPS * fabs(e.x); ty.u += EPS * fabs(e.y);
    is_reset = e.dt > 5 || reset_req; reset_req = false;
    if (is_reset) {
      was_reset = true;
      for (auto &s : S) s = U(0);
      for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) prevval[s] = U(base[s]);
      S[ST_(FLIP)] = U(-1); S[ST_(X)] = S[ST_(ACTUAL_X)] = tx; S[ST_(Y)] = S[ST_(ACTUAL_Y)] = ty; S[ST_(PRESSURE)] = U(e.p); S[ST_(STROKE)] = U(1);
      return;
    }
    moved = S[ST_(PARTIAL_DABS)]; dtl = U(e.dt); todo = count(dtl);
  }
  void begin(const Event &ev) {
    Event e = ev; err.clear(); subs.clear(); cursub = 0; lost = false; was_reset = false; read();
    if (e.p <= 0) e.p = 0; if (e.dt <= 0) e.dt = 0.0001;
    if (!(e.zoom > 0)) e.zoom = 1;
    xt = e.xt; yt = e.yt; zoom = e.zoom; rot = e.rot; barrel = e.barrel;
    tasc = U(0); tdecl = tdx = tdy = U(90);
    if (xt != 0 || yt != 0) {
      xt = std::min(1.f, std::max(-1.f, xt)); yt = std::min(1.f, std::max(-1.f, yt));
      tasc = mk(atan2(-(double)xt, (double)yt) * DEG, 180 * EPS); tdecl = mk(90 - 60 * hypot(xt, yt), 90 * EPS); tdx = mk(xt * 60, 0); tdy = mk(yt * 60, 0);
    }
    if (e.dt > 0.1 && e.p != 0 && S[ST_(PRESSURE)].v == 0) { subs.push_back({e.x, e.y, 0, e.dt - 0.0001}); subs.push_back({e.x, e.y, e.p, 0.0001}); }
    else subs.push_back({e.x, e.y, e.p, e.dt});
    start_sub();
  }
  Pred do_step(bool dab) {
    Sub &e = subs[cursub]; U ddab, frac;
    if (dab) { ddab = moved.v > 0 ? U(1) - moved : U(1); if (moved.v > 0 && moved.v <= moved.u) ddab.u = std::max(ddab.u, moved.v); moved = U(0); frac = ddab / todo; }
    else { ddab = todo; frac = U(1); }
    U dx = frac * (tx - S[ST_(X)]), dy = frac * (ty - S[ST_(Y)]);
    if (dab) {   // steps below the resolution of the position advance by at least one representable position
      double rx = 2 * EPS * fabs(S[ST_(X)].v), ry = 2 * EPS * fabs(S[ST_(Y)].v);
      if (dx.v && fabs(dx.v) < rx) dx.u += rx; if (dy.v && fabs(dy.v) < ry) dy.u += ry;
    }
    U dt = dab ? frac * dtl : dtl;
    last_dp = frac * (U(e.p) - S[ST_(PRESSURE)]);
    Pred P = step(ddab, dx, dy, last_dp, frac * (tdecl - S[ST_(DECLINATION)]), frac * sad(S[ST_(ASCENSION)], tasc), dt, frac * (tdx - S[ST_(DECLINATIONX)]), frac * (tdy - S[ST_(DECLINATIONY)]),
                  frac * sad(S[ST_(BARREL_ROTATION)], mk(barrel * 360.0, 0)));
    if (dab) dtl = dtl - dt;
    return P;
  }
  void finish_sub_invisibly() {
    if (!is_reset) { Pred P = do_step(false); U part = moved + todo; for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) S[i] = P.st[i]; S[ST_(PARTIAL_DABS)] = part;
      for (int k : {ST_(VIEWROTATION), ST_(ACTUAL_ELLIPTICAL_DAB_ANGLE), ST_(GRIDMAP_X), ST_(GRIDMAP_Y)}) if (period(k) && S[k].known()) { double n = period(k); double lo = k == ST_(VIEWROTATION) ? -180 : k == ST_(ACTUAL_ELLIPTICAL_DAB_ANGLE) ? -180 : 0; S[k].v = lo + (S[k].v - lo) - n * floor((S[k].v - lo) / n); } }
    cursub++; start_sub();
  }
  // call from the surface's draw_dab, while the brush is inside stroke_to
  void dab(const Dab &d) {
    if (lost) return;
    for (;;) {
      int c = is_reset ? 1 : lt(moved + todo, U(1, 2 * EPS));
      if (c <= 0 && !is_reset && c != -1) { /* maybe: the dab itself settles it */ break; }
      if (!is_reset && c == 1) break;
      if (cursub + 1 < subs.size()) { finish_sub_invisibly(); continue; }
      if (is_reset) err = "a dab was painted by an event that resets the brush";
      else err = fmt("a dab was painted %.7g dabs after the last one, expected after 1", (moved + todo).v);
      lost = true; return;
    }
    Pred P = do_step(true);
    P.st[ST_(FLIP)] = -P.st[ST_(FLIP)]; P.st[ST_(PARTIAL_DABS)].u = INF;
    compare(P); dabs++;
    todo = count(dtl);
    if (on_dab) on_dab(P, d);
  }
  void give_up() { read(); for (auto &v : prevval) v = U(0, INF); }
  void end() {
    if (lost) { give_up(); return; }
    for (;;) {
      if (!is_reset && lt(moved + todo, U(1, 2 * EPS)) == 1) { err = fmt("no dab was painted although %.7g dabs are due", (moved + todo).v); lost = true; give_up(); return; }
      if (!is_reset && lt(moved + todo, U(1, 2 * EPS)) == 0 && cursub + 1 < subs.size()) { lost = true; give_up(); return; }
      if (cursub + 1 >= subs.size()) break;
      finish_sub_invisibly();
    }
    if (is_reset) { Pred P; for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) P.st[i] = S[i]; compare(P); return; }
    Pred P = do_step(false);
    P.st[ST_(PARTIAL_DABS)] = moved + todo;
    compare(P);
  }
};
// names of states for messages
inline const char *stname(int i) {
  static const char *n[] = {"x","y","pressure","partial_dabs","actual_radius","smudge_ra","smudge_ga","smudge_ba","smudge_a","last_getcolor_r","last_getcolor_g","last_getcolor_b","last_getcolor_a","last_getcolor_recentness","actual_x","actual_y","norm_dx_slow","norm_dy_slow","norm_speed1_slow","norm_speed2_slow","stroke","stroke_started","custom_input","rng_seed","actual_elliptical_dab_ratio","actual_elliptical_dab_angle","direction_dx","direction_dy","declination","ascension","viewzoom","viewrotation","direction_angle_dx","direction_angle_dy","attack_angle","flip","gridmap_x","gridmap_y","declinationx","declinationy","dabs_per_basic_radius","dabs_per_actual_radius","dabs_per_second","barrel_rotation"};
  return i >= 0 && i < (int)(sizeof n / sizeof *n) ? n[i] : "?";
}
}  // namespace vp
