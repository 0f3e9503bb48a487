// Brushes anywhere in the published ranges with known bounds on every setting, and hostile motion events.
#pragma once
#include "lib.hpp"
#include <csetjmp>
namespace vp {
struct Bounds { float lo[MYPAINT_BRUSH_SETTINGS_COUNT], hi[MYPAINT_BRUSH_SETTINGS_COUNT]; double amax(int s) const { return std::max(fabs((double)lo[s]), fabs((double)hi[s])); } };
// Every setting stays within its published range whatever the inputs: curves are flat outside their points and their
// extreme values are budgeted. cap(s, lo, hi) may narrow a setting's range first.
inline std::string gen_ranged(Rng &r, Brush &br, Bounds &b, const std::function<void(int, float &, float &)> &cap, double change = 0.4, double curves = 0.25) {
  std::string d;
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) {
    const MyPaintBrushSettingInfo *in = mypaint_brush_setting_info((MyPaintBrushSetting)s);
    float lo = in->min, hi = in->max; cap(s, lo, hi);
    float v = std::min(hi, std::max(lo, in->def));
    if (r.chance(change)) { double u = r.uni(); v = u < 0.15 ? lo : u < 0.3 ? hi : u < 0.4 && lo >= 0 ? (float)r.logrange(std::max(1e-8, (double)lo), std::max(1e-7, (double)hi)) : (float)r.range(lo, hi); v = std::min(hi, std::max(lo, v)); }
    br.set(s, v); br.nomap(s); b.lo[s] = b.hi[s] = v; if (v != in->def) d += fmt("%s=%.9g;", in->cname, v);
    if (in->constant || !r.chance(curves) || lo == hi) continue;
    int k = r.chance(0.7) ? 1 : 2; double dn = ((double)lo - v) / k, up = ((double)hi - v) / k; int i0 = -1;
    for (int q = 0; q < k; q++) {
      int i = (int)r.below(MYPAINT_BRUSH_INPUTS_COUNT); if (i == i0) continue; i0 = i; const MyPaintBrushInputInfo *ii = mypaint_brush_input_info((MyPaintBrushInput)i);
      int n = r.chance(0.6) ? 2 : r.irange(2, 40); std::vector<float> xs; for (int j = 0; j < n; j++) xs.push_back((float)r.range(ii->soft_min, ii->soft_max));
      if (r.chance(0.2)) xs[0] = xs[(size_t)n - 1]; std::sort(xs.begin(), xs.end()); std::vector<std::pair<float, float>> p; float m0 = 0, m1 = 0;
      for (int j = 0; j < n; j++) { float y = (float)(r.chance(0.3) ? (r.chance(0.5) ? dn : up) : r.range(dn, up)); p.push_back({xs[(size_t)j], y}); m0 = std::min(m0, y); m1 = std::max(m1, y); }
      p.insert(p.begin(), {p[0].first - 1, p[0].second}); p.push_back({p.back().first + 1, p.back().second}); br.map(s, i, p); b.lo[s] += m0; b.hi[s] += m1;
      d += fmt("%s<-%s[%d];", in->cname, ii->cname, n);
    }
  }
  return d;
}
inline float hostile_pos(Rng &r) { static const double v[] = {NAN, INFINITY, -INFINITY, 1e8, -1e8, 9.9e7, -9.9e7, 99999992, 1e30, -1e30, FLT_MAX, -FLT_MAX, 1e20, 2147483648.0, -2147483904.0, 16777217, 0, -0.0, 1e-40, -1e-40}; return (float)v[r.below(20)]; }
// corrupts some fields of a plain event
inline void make_hostile(Rng &r, Event &e, bool times = true) {
  auto pick = [&](std::initializer_list<double> l) { return r.pick(l); };
  if (r.chance(0.35)) e.x = hostile_pos(r); if (r.chance(0.35)) e.y = hostile_pos(r);
  if (r.chance(0.35)) e.p = (float)pick({NAN, INFINITY, -INFINITY, -1, 2, 1e10, 1e30, -1e30, 1e-40, -0.0, 1.0000001});
  if (r.chance(0.25)) e.xt = (float)pick({NAN, INFINITY, -INFINITY, 5, -5, 1e30, -1e30, 1e-40}); if (r.chance(0.25)) e.yt = (float)pick({NAN, INFINITY, -INFINITY, 5, -5, 1e30, -1e30, 1e-40});
  if (times && r.chance(0.35)) e.dt = pick({NAN, INFINITY, -INFINITY, -1, 0, -0.0, 1e-300, 1e-40, 1e-12, 4.999, 5, 5.0001, 1e30, 1e300, -1e300, 0.1, 0.1000001});
  if (r.chance(0.2)) e.zoom = (float)pick({NAN, INFINITY, -INFINITY, 0, -1, 0.01, 100, 1e-3}); if (r.chance(0.2)) e.rot = (float)pick({NAN, INFINITY, -INFINITY, 100, -100, 6.2831855, -3.1415927});
  if (r.chance(0.2)) e.barrel = (float)pick({NAN, INFINITY, -INFINITY, -1, 3, 1});
}
}  // namespace vp
