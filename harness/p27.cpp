// P27: size, opacity, hardness, placement and pass-through parameters of every dab follow the settings.
#include "dmodel.hpp"
using namespace vp;
static const std::set<int> MINE = {ST_(ACTUAL_X), ST_(ACTUAL_Y), ST_(ACTUAL_RADIUS), ST_(ACTUAL_ELLIPTICAL_DAB_RATIO), ST_(ACTUAL_ELLIPTICAL_DAB_ANGLE), ST_(FLIP)};
static const std::set<int> MOTION = {ST_(X), ST_(Y), ST_(PRESSURE), ST_(DECLINATION), ST_(ASCENSION), ST_(DECLINATIONX), ST_(DECLINATIONY), ST_(BARREL_ROTATION), ST_(DABS_PER_BASIC_RADIUS), ST_(DABS_PER_ACTUAL_RADIUS), ST_(DABS_PER_SECOND),
  ST_(VIEWZOOM), ST_(VIEWROTATION), ST_(STROKE), ST_(NORM_SPEED1_SLOW), ST_(NORM_DX_SLOW), ST_(NORM_DY_SLOW), ST_(DIRECTION_ANGLE_DX), ST_(DIRECTION_ANGLE_DY), ST_(CUSTOM_INPUT)};
static void one(Case &c) {
  Rng &r = c.rng; Brush br; br.plain();
  auto info = [](int s) { return mypaint_brush_setting_info((MyPaintBrushSetting)s); };
  auto rnd = [&](int s) { const MyPaintBrushSettingInfo *i = info(s); return (float)(r.chance(0.15) ? r.pick({i->min, i->max, i->def}) : r.range(i->min, i->max)); };
  br.set(S_(RADIUS_LOGARITHMIC), (float)r.range(-1.5, 4)); br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(0.1, 4)); br.set(S_(DABS_PER_BASIC_RADIUS), (float)(r.chance(0.5) ? 0 : r.range(0, 3)));
  if (br.get(S_(RADIUS_LOGARITHMIC)) < 0.5) br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(0.1, 0.6));
  if (r.chance(0.3)) br.set(S_(DABS_PER_SECOND), (float)r.range(0, 40));
  // each case concentrates on some of the settings
  struct G { double p; std::vector<int> s; };
  static const G groups[] = {
    {0.7, {S_(OPAQUE), S_(OPAQUE_MULTIPLY), S_(OPAQUE_LINEARIZE)}}, {0.6, {S_(HARDNESS), S_(SOFTNESS), S_(ANTI_ALIASING)}}, {0.4, {S_(SNAP_TO_PIXEL)}},
    {0.6, {S_(OFFSET_X), S_(OFFSET_Y), S_(OFFSET_ANGLE), S_(OFFSET_ANGLE_ASC), S_(OFFSET_ANGLE_VIEW), S_(OFFSET_ANGLE_2), S_(OFFSET_ANGLE_2_ASC), S_(OFFSET_ANGLE_2_VIEW)}},
    {0.4, {S_(OFFSET_ANGLE_ADJ), S_(OFFSET_MULTIPLIER)}}, {0.3, {S_(OFFSET_BY_SPEED), S_(OFFSET_BY_SPEED_SLOWNESS)}}, {0.4, {S_(ERASER)}},
    {0.6, {S_(ELLIPTICAL_DAB_RATIO), S_(ELLIPTICAL_DAB_ANGLE)}}, {0.6, {S_(LOCK_ALPHA), S_(COLORIZE), S_(POSTERIZE), S_(POSTERIZE_NUM), S_(PAINT_MODE)}}, {0.3, {S_(SLOW_TRACKING), S_(SLOW_TRACKING_PER_DAB)}}};
  std::vector<int> used;
  for (auto &g : groups) if (r.chance(g.p)) for (int s : g.s) if (r.chance(0.6)) {
    float v = rnd(s); bool off = s >= S_(OFFSET_Y) && s <= S_(OFFSET_ANGLE_2_VIEW); if (off && r.chance(0.8)) v *= 0.05f;
    br.set(s, v); used.push_back(s);
    if (!info(s)->constant && r.chance(0.4)) { double w = (info(s)->max - info(s)->min) * (off ? 0.02 : 0.3); dyn(r, br, s, s == S_(ELLIPTICAL_DAB_RATIO) ? 0 : -w, w); }
  }
  if (r.chance(0.4)) dyn(r, br, S_(RADIUS_LOGARITHMIC), -0.5, 0.5);
  if (r.chance(0.1)) { br.set(S_(RADIUS_LOGARITHMIC), (float)r.range(4, 6)); dyn(r, br, S_(RADIUS_LOGARITHMIC), -0.5, 3); br.set(S_(DABS_PER_ACTUAL_RADIUS), 4); }
  bool rrand = r.chance(0.15); if (rrand) { br.set(S_(RADIUS_BY_RANDOM), (float)r.range(0, 1.5)); br.set(S_(ANTI_ALIASING), 0); br.nomap(S_(ANTI_ALIASING)); br.set(S_(SNAP_TO_PIXEL), 0); br.nomap(S_(SNAP_TO_PIXEL)); }
  if (r.chance(0.2)) { dyn(r, br, S_(CUSTOM_INPUT), -2, 2); }
  bool linear = r.chance(0.2); std::string why; bool motion_ok = true; uint64_t h = 0, seen = 0; float lastflip = -1; (void)lastflip;
  Model m(br.b); Mock mk; mk.keep = false;
  m.on_state = [&](int i, U p, float o, double per) {
    if (!Model::off(p, o, per)) return;
    if (MOTION.count(i)) { motion_ok = false; return; }
    if (MINE.count(i) && motion_ok && why.empty()) why = fmt("state %s is %.9g, expected %.9g +- %.2g", stname(i), o, p.v, p.u);
  };
  m.on_dab = [&](const Pred &P, const Dab &d) {
    if (!motion_ok || !why.empty()) return;
    DabExp e = expect_dab(m, P, linear, base_rgb(m), U(1), &d);
    auto cmp = [&](const char *n, U p, float o, double slack) {
      if (!p.known()) { c.count("parameters_not_compared"); return; }
      seen++;
      if (!std::isfinite(o) || fabs(p.v - o) > 3 * p.u + slack) if (why.empty()) why = fmt("%s is %.9g, expected %.9g +- %.2g", n, o, p.v, p.u);
    };
    double ps = 2e-6 * (fabs(d.x) + fabs(d.y) + 1);
    if (!e.posnoise) { cmp("x", e.x, d.x, ps); cmp("y", e.y, d.y, ps); }
    cmp("radius", e.radius, d.radius, 3e-6 * fabs(d.radius)); cmp("hardness", e.hard, d.hardness, 3e-6); cmp("softness", e.soft, d.softness, 1e-6); cmp("opacity", e.opaque, d.opaque, 2e-6);
    cmp("target alpha", e.alpha, d.alpha, 2e-6); cmp("aspect ratio", e.ratio, d.ratio, 1e-6); cmp("angle", e.angle, d.angle, 1e-4); cmp("lock alpha", e.lock, d.lock, 2e-6); cmp("colorize", e.colorize, d.colorize, 2e-6);
    cmp("posterize", e.post, d.posterize, 2e-6); cmp("posterize levels", e.num, d.num, 2e-6); cmp("paint mode", e.paint, d.paint, 2e-6);
    c.evals(); h = mixh(h, (uint64_t)(d.radius * 1000) ^ (uint64_t)(d.opaque * 1e5)); c.sig(h);
    if (e.snapped) c.count("snapped"); if (m.base[S_(OPAQUE_LINEARIZE)] != 0) c.count("linearised"); if (fabs(e.px.v - m.S[ST_(ACTUAL_X)].v) > 0.01) c.count("offset"); if (d.alpha < 1) c.count("erasing"); if (d.radius > m.S[ST_(ACTUAL_RADIUS)].v * 1.001 && !rrand) c.count("softened_edges"); if (rrand) c.count("jittered_radius");
  };
  mk.on_dab = [&](const Dab &d) { m.dab(d); return 1; };
  Walk w(r, r.chance(0.2) ? 3000 : 200); w.view = r.chance(0.6); int n = r.irange(4, 30);
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) if (br.get(s) != info(s)->def) c.desc("%s=%.9g", info(s)->cname, br.get(s));
  for (int i = 0; i < n; i++) {
    Event e = w.next(r, linear); if (r.chance(0.02)) { mypaint_brush_reset(br.b); m.reset_req = true; }
    if (!used.empty() && r.chance(0.05)) { int s = used[r.below((uint32_t)used.size())]; if (s != S_(SLOW_TRACKING)) { float v = rnd(s); if (s >= S_(OFFSET_Y) && s <= S_(OFFSET_ANGLE_2_VIEW)) v *= 0.05f; if (!(rrand && (s == S_(ANTI_ALIASING) || s == S_(SNAP_TO_PIXEL)))) { br.set(s, v); m.refresh(); c.desc("%s=%.9g", info(s)->cname, v); } } }
    c.desc("%s", evstr(e).c_str()); motion_ok = true; uint64_t d0 = m.dabs;
    m.begin(e); stroke(br.b, mk.surf(), e); m.end();
    if (m.lost) c.count("events_abandoned");
    if (!why.empty()) { c.viol("dab", "event %d, dab %llu of it: %s", i, (unsigned long long)(m.dabs - d0), why.c_str()); return; }
    if (m.dabs > 400) break;
  }
  c.count("parameters_compared", seen);
  if (c.idx % 67 == 2) c.sample("%llu dabs, %llu parameters compared, %zu settings varied", (unsigned long long)m.dabs, (unsigned long long)seen, used.size());
}
VP_MAIN("P27", one)
