// P17: the colour of unsmudged dabs.
#include "dmodel.hpp"
using namespace vp;
static const std::set<int> MOTION = {ST_(X), ST_(Y), ST_(PRESSURE), ST_(DECLINATION), ST_(ASCENSION), ST_(DECLINATIONX), ST_(DECLINATIONY), ST_(BARREL_ROTATION), ST_(DABS_PER_BASIC_RADIUS), ST_(DABS_PER_ACTUAL_RADIUS), ST_(DABS_PER_SECOND),
  ST_(VIEWZOOM), ST_(VIEWROTATION), ST_(STROKE), ST_(NORM_SPEED1_SLOW), ST_(DIRECTION_ANGLE_DX), ST_(DIRECTION_ANGLE_DY), ST_(CUSTOM_INPUT)};
static const int CH[5] = {S_(CHANGE_COLOR_H), S_(CHANGE_COLOR_HSV_S), S_(CHANGE_COLOR_V), S_(CHANGE_COLOR_L), S_(CHANGE_COLOR_HSL_S)};
static void one(Case &c) {
  Rng &r = c.rng; Brush br; br.plain();
  br.set(S_(RADIUS_LOGARITHMIC), (float)r.range(0, 3)); br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(0.5, 3));
  int kind = (int)r.below(6); bool linear = r.chance(0.4);
  auto col = [&]() {
    D h = r.chance(0.3) ? r.irange(-6, 12) / 6.0 : r.chance(0.3) ? r.range(-2, 3) : r.range(0, 1), s = r.chance(0.2) ? r.pick({0, 1, 1e-5, 1e-3, -0.5, 1.5}) : r.range(-0.1, 1.1), v = r.chance(0.2) ? r.pick({0, 1, 1e-5, 0.5, -0.5, 1.5}) : r.range(0, 1.1);
    br.set(S_(COLOR_H), (float)h); br.set(S_(COLOR_S), (float)s); br.set(S_(COLOR_V), (float)v);
    // curves on settings that are documented to be constant have no effect; the others may follow inputs
  };
  col(); std::vector<int> act;
  if (kind == 1) act = {CH[r.below(5)]}; else if (kind == 2) act = {CH[0], CH[1], CH[2]}; else if (kind == 3) act = {CH[3], CH[4]}; else if (kind >= 4) for (int s : CH) if (r.chance(0.6)) act.push_back(s);
  for (int s : act) { br.set(s, (float)(r.chance(0.1) ? r.pick({-2, 2, 1, -1, 0.5}) : r.chance(0.5) ? r.range(-0.3, 0.3) : r.range(-2, 2))); if (r.chance(0.4)) { dyn(r, br, s, -0.4, 0.4); if (r.chance(0.5)) br.set(s, 0); } }
  // colours must not depend on anything else
  if (r.chance(0.5)) { br.set(S_(ERASER), (float)r.uni()); br.set(S_(PAINT_MODE), (float)r.uni()); br.set(S_(OPAQUE), (float)r.range(0.1, 1)); br.set(S_(LOCK_ALPHA), (float)r.uni()); }
  if (r.chance(0.3)) br.set(S_(SMUDGE_LENGTH), (float)r.uni());       // smudge itself stays off
  if (r.chance(0.2)) { br.set(S_(RESTORE_COLOR), 1); }
  std::string why; bool motion_ok = true; uint64_t h = 0, seen = 0, ill = 0;
  Model m(br.b); Mock mk; mk.keep = false; Dab last;
  m.on_state = [&](int i, U p, float o, double per) { if (MOTION.count(i) && Model::off(p, o, per)) motion_ok = false; };
  m.on_dab = [&](const Pred &P, const Dab &d) {
    if (!motion_ok || !why.empty()) return;
    DabExp e = expect_dab(m, P, linear, base_rgb(m), U(1), &d); float o[3] = {d.r, d.g, d.b}; last = d;
    for (int i = 0; i < 3; i++) {
      if (!(o[i] >= -1e-6f && o[i] <= 1 + 1e-6f)) why = fmt("channel %d is %.9g", i, o[i]);
      if (!e.col[i].known()) { ill++; continue; }
      seen++;
      if (fabs(o[i] - e.col[i].v) > e.col[i].u + 2e-6) { why = fmt("colour is %.7g %.7g %.7g, expected %.7g %.7g %.7g (channel %d +- %.2g; changes h %.7g hsv-s %.7g v %.7g l %.7g hsl-s %.7g, linear %d)", o[0], o[1], o[2], e.col[0].v, e.col[1].v, e.col[2].v, i, e.col[i].u,
          P.val[CH[0]].v, P.val[CH[1]].v, P.val[CH[2]].v, P.val[CH[3]].v, P.val[CH[4]].v, linear); return; }
    }
    c.evals(); h = mixh(h, (uint64_t)(d.r * 1e4) ^ ((uint64_t)(d.g * 1e4) << 20) ^ ((uint64_t)(d.b * 1e4) << 40)); c.sig(h);
    bool hsv = P.val[CH[0]].v || P.val[CH[1]].v || P.val[CH[2]].v, hsl = P.val[CH[3]].v || P.val[CH[4]].v;
    c.count(hsv && hsl ? "hsv_and_hsl" : hsv ? "hsv" : hsl ? "hsl" : "unchanged"); if (linear) c.count(hsv || hsl ? "linear_changed" : "linear_unchanged");
  };
  mk.on_dab = [&](const Dab &d) { m.dab(d); return 1; };
  for (int s : std::vector<int>{S_(COLOR_H), S_(COLOR_S), S_(COLOR_V), CH[0], CH[1], CH[2], CH[3], CH[4]}) c.desc("%s=%.9g", mypaint_brush_setting_info((MyPaintBrushSetting)s)->cname, br.get(s));
  Walk w(r, 200); w.view = r.chance(0.3); int n = r.irange(3, 20);
  for (int i = 0; i < n; i++) {
    Event e = w.next(r, linear); if (r.chance(0.15)) { col(); m.refresh(); c.desc("colour %.9g %.9g %.9g", br.get(S_(COLOR_H)), br.get(S_(COLOR_S)), br.get(S_(COLOR_V))); }
    c.desc("%s", evstr(e).c_str()); motion_ok = true;
    m.begin(e); stroke(br.b, mk.surf(), e); m.end();
    if (!why.empty()) { c.viol("colour", "event %d: %s", i, why.c_str()); return; }
    if (m.dabs > 200) break;
  }
  c.count("channels_compared", seen); c.count("channels_ill_conditioned", ill);
  if (c.idx % 71 == 3) c.sample("hsv %.3f %.3f %.3f -> %.5f %.5f %.5f after %llu dabs", br.get(S_(COLOR_H)), br.get(S_(COLOR_S)), br.get(S_(COLOR_V)), last.r, last.g, last.b, (unsigned long long)m.dabs);
}
VP_MAIN("P17", one)
