// P25: dynamics inputs report the documented physical quantity in the documented range.
#include "bmodel.hpp"
using namespace vp;
static const int PASS[] = {S_(LOCK_ALPHA), S_(COLORIZE), S_(POSTERIZE), S_(POSTERIZE_NUM), S_(PAINT_MODE)};
static float pass(const Dab &d, int k) { return k == 0 ? d.lock : k == 1 ? d.colorize : k == 2 ? d.posterize : k == 3 ? d.num : d.paint; }
static const std::set<int> MINE = {ST_(VIEWZOOM), ST_(VIEWROTATION), ST_(GRIDMAP_X), ST_(GRIDMAP_Y), ST_(STROKE), ST_(STROKE_STARTED), ST_(NORM_SPEED1_SLOW), ST_(NORM_SPEED2_SLOW),
  ST_(NORM_DX_SLOW), ST_(NORM_DY_SLOW), ST_(DIRECTION_DX), ST_(DIRECTION_DY), ST_(DIRECTION_ANGLE_DX), ST_(DIRECTION_ANGLE_DY), ST_(CUSTOM_INPUT)};
static const std::set<int> MOTION = {ST_(X), ST_(Y), ST_(PRESSURE), ST_(DECLINATION), ST_(ASCENSION), ST_(DECLINATIONX), ST_(DECLINATIONY), ST_(BARREL_ROTATION), ST_(PARTIAL_DABS), ST_(DABS_PER_BASIC_RADIUS), ST_(DABS_PER_ACTUAL_RADIUS), ST_(DABS_PER_SECOND), ST_(ACTUAL_X), ST_(ACTUAL_Y)};
struct Rg { double per, lo, hi; bool open; };
static Rg range(int i) {
  switch (i) {
    case I_(DIRECTION): return {180, 0, 180, true};
    case I_(DIRECTION_ANGLE): return {360, 0, 360, true};
    case I_(TILT_ASCENSION): case I_(ATTACK_ANGLE): return {360, -180, 180, false};
    case I_(BARREL_ROTATION): return {360, 0, 360, true};
    case I_(GRIDMAP_X): case I_(GRIDMAP_Y): return {256, 0, 256, false};
    case I_(STROKE): return {0, 0, 1, false};
    case I_(RANDOM): return {0, 0, 1, true};
    default: return {0, -INFINITY, INFINITY, false};
  }
}
static void one(Case &c) {
  Rng &r = c.rng;
  Brush br; br.plain();
  auto setr = [&](int s, double p) { const MyPaintBrushSettingInfo *i = mypaint_brush_setting_info((MyPaintBrushSetting)s); if (r.chance(p)) br.set(s, (float)(r.chance(0.2) ? r.pick({i->min, i->max, i->def}) : r.range(i->min, i->max))); };
  br.set(S_(RADIUS_LOGARITHMIC), (float)r.range(-0.5, 4)); br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(0.2, 4)); br.set(S_(DABS_PER_BASIC_RADIUS), (float)r.range(0, 3));
  if (r.chance(0.3)) br.set(S_(DABS_PER_SECOND), (float)r.range(0, 40));
  for (int s : {S_(SPEED1_SLOWNESS), S_(SPEED2_SLOWNESS), S_(SPEED1_GAMMA), S_(SPEED2_GAMMA), S_(DIRECTION_FILTER), S_(CUSTOM_INPUT), S_(CUSTOM_INPUT_SLOWNESS), S_(STROKE_THRESHOLD), S_(STROKE_DURATION_LOGARITHMIC),
                S_(STROKE_HOLDTIME), S_(GRIDMAP_SCALE_X), S_(GRIDMAP_SCALE_Y), S_(PRESSURE_GAIN_LOG), S_(OFFSET_BY_SPEED_SLOWNESS), S_(ELLIPTICAL_DAB_RATIO), S_(ELLIPTICAL_DAB_ANGLE)}) setr(s, 0.6);
  if (r.chance(0.6)) br.set(S_(GRIDMAP_SCALE), (float)r.range(-3, 3)); if (r.chance(0.1)) br.set(S_(GRIDMAP_SCALE), (float)r.pick({-10, 10}));
  if (r.chance(0.4)) br.set(S_(STROKE_DURATION_LOGARITHMIC), (float)r.range(-1, 3)); if (r.chance(0.3)) br.set(S_(STROKE_HOLDTIME), (float)r.pick({0, 0.5, 9.95, 10, 2}));
  if (r.chance(0.25)) br.set(S_(SLOW_TRACKING), (float)r.range(0, 10)); if (r.chance(0.25)) br.set(S_(SLOW_TRACKING_PER_DAB), (float)r.range(0, 10));
  int in[5]; for (int k = 0; k < 5; k++) { in[k] = (int)((c.idx * 5 + k) % MYPAINT_BRUSH_INPUTS_COUNT); br.set(PASS[k], 0); br.map(PASS[k], in[k], {{0, 0}, {1, 1}}); }
  // settings that drive inputs may themselves be dynamic
  if (r.chance(0.3)) br.map(S_(CUSTOM_INPUT), I_(PRESSURE), {{0, -2}, {1, 3}}); if (r.chance(0.2)) br.map(S_(GRIDMAP_SCALE), I_(PRESSURE), {{0, 0}, {1, 0.5}}); if (r.chance(0.2)) br.map(S_(SPEED1_SLOWNESS), I_(TILT_DECLINATION), {{0, 0.01f}, {90, 0.15f}});
  if (r.chance(0.2)) br.map(S_(DIRECTION_FILTER), I_(PRESSURE), {{0, 0}, {1, 4}});
  Model m(br.b); Mock mk; mk.keep = false; bool motion_ok = true; std::string why; uint64_t h = 0; Dab lastd; bool have = false;
  m.on_state = [&](int i, U p, float o, double per) {
    if (!Model::off(p, o, per)) return;
    if (MOTION.count(i)) { motion_ok = false; return; }
    if (MINE.count(i) && motion_ok && why.empty()) why = fmt("state %s is %.9g, expected %.9g +- %.2g", stname(i), o, p.v, p.u);
  };
  bool in_dab = false;
  m.on_dab = [&](const Pred &P, const Dab &d) {
    for (int k = 0; k < 5; k++) {
      float o = pass(d, k); Rg g = range(in[k]); U p = P.in[in[k]];
      double slack = g.per ? g.per * 2e-6 : 2e-7;
      if (!(o >= g.lo - slack && o <= g.hi + slack)) { if (why.empty()) why = fmt("input %s is %.9g, outside its range", mypaint_brush_input_info((MyPaintBrushInput)in[k])->cname, o); continue; }
      if (in[k] == I_(RANDOM)) continue;
      if (!p.known()) { c.count("inputs_not_compared"); continue; }
      if (g.per == 256 && o != o) continue;
      if (motion_ok && Model::off(U(p.v, p.u + (g.per ? g.per * 1e-6 : 0)), o, g.per)) { if (why.empty()) why = fmt("input %s is %.9g, expected %.9g +- %.2g", mypaint_brush_input_info((MyPaintBrushInput)in[k])->cname, o, p.v, p.u); }
      c.count(mypaint_brush_input_info((MyPaintBrushInput)in[k])->cname);
      h = mixh(h, (uint64_t)(o * 1000));
    }
    c.evals(); c.sig(h); lastd = d; have = true;
  };
  mk.on_dab = [&](const Dab &d) { m.dab(d); return 1; };
  (void)in_dab;
  Walk w(r, r.chance(0.2) ? 5000 : 300); w.view = r.chance(0.7); int n = r.irange(5, 40); bool straight = r.chance(0.3), wild = r.chance(0.15); double ang = r.range(0, 2 * M_PI);
  if (r.chance(0.2)) ang = M_PI / 4 * r.irange(0, 7);
  for (int i = 0; i < n; i++) {
    Event e = w.next(r);
    if (straight) { double st = r.range(1, 30); static const double cs[] = {1, 0, -1, 0}; (void)cs; w.x += (float)(st * cos(ang)); w.y += (float)(st * sin(ang)); e.x = w.x; e.y = w.y; if (r.chance(0.1)) ang += M_PI / 2 * r.irange(1, 3); }
    if (w.view && r.chance(0.2)) { w.rot = e.rot = (float)(M_PI / 2 * r.irange(-4, 4)); }
    if (r.chance(0.02)) e.dt = r.range(0.1, 0.5);
    if (r.chance(0.02)) { mypaint_brush_reset(br.b); m.reset_req = true; }
    if (r.chance(0.03)) { int s = r.pick({S_(CUSTOM_INPUT), S_(SPEED1_GAMMA), S_(RADIUS_LOGARITHMIC), S_(PRESSURE_GAIN_LOG)}); br.set(s, (float)(s == S_(RADIUS_LOGARITHMIC) ? r.range(0, 3) : r.range(-1.5, 1.5))); m.refresh(); }
    c.desc("%s", evstr(e).c_str());
    motion_ok = true; uint64_t d0 = m.dabs;
    // a tilt beyond the end of its range counts as the end
    Event sent = e; if (wild && r.chance(0.5)) { if (r.chance(0.7)) sent.xt = (float)r.pick({-1.02, 1.1, 3, -7, 1e6, 1.00001}); if (r.chance(0.7)) sent.yt = (float)r.pick({-1.3, 1.01, 2, -40, -1e9, 1.1}); e.xt = std::min(1.f, std::max(-1.f, sent.xt)); e.yt = std::min(1.f, std::max(-1.f, sent.yt)); c.desc("sent with tilt %.9g %.9g", sent.xt, sent.yt); c.count("excess_tilt"); }
    m.begin(e); stroke(br.b, mk.surf(), sent); m.end();
    if (m.lost) { c.count("events_abandoned"); }
    if (!why.empty()) { c.viol("input", "event %d, dab %llu of it: %s", i, (unsigned long long)(m.dabs - d0), why.c_str()); return; }
    if (m.dabs > 600) break;
  }
  c.count("state_comparisons", m.compared); c.count("state_comparisons_skipped", m.skipped);
  if (c.idx % 59 == 3 && have) c.sample("%llu dabs; %s=%.5f %s=%.5f %s=%.5f at the last one, as modelled", (unsigned long long)m.dabs, mypaint_brush_input_info((MyPaintBrushInput)in[0])->cname, pass(lastd, 0), mypaint_brush_input_info((MyPaintBrushInput)in[1])->cname, pass(lastd, 1), mypaint_brush_input_info((MyPaintBrushInput)in[2])->cname, pass(lastd, 2));
}
VP_MAIN("P25", one)
