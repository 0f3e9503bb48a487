// P04: a setting's value is its base value plus the sum of its input curves.
#include "lib.hpp"
using namespace vp;
typedef double D;
typedef std::vector<std::pair<float, float>> Curve;
struct Iv { D lo, hi; };
// value of a curve at x as an interval: a single value except at, or beyond, coincident x coordinates, where any of their y values will do
static Iv curve(const Curve &p, D x, D &mag) {
  size_t n = p.size();
  auto vert = [&](D X) { Iv v{1e300, -1e300}; for (auto &q : p) if (q.first == X) { v.lo = std::min(v.lo, (D)q.second); v.hi = std::max(v.hi, (D)q.second); } return v; };
  size_t i = 0;
  while (i + 2 < n && x > p[i + 1].first) i++;
  D x0 = p[i].first, y0 = p[i].second, x1 = p[i + 1].first, y1 = p[i + 1].second;
  if (x == x0 || x == x1 || x0 == x1) {
    Iv v = vert(x0 == x1 ? x0 : x);
    mag += std::max(fabs(v.lo), fabs(v.hi));
    return v;
  }
  D a = y1 * (x - x0) / (x1 - x0), b = y0 * (x1 - x) / (x1 - x0);
  if (y0 == y1) { mag += fabs(y0); return {y0, y0}; }
  // cancellation in the float differences and products
  mag += fabs(a) + fabs(b);
  return {a + b, a + b};
}
static Curve gen(Rng &r, D lo, D hi, D amp) {
  int n = r.chance(0.35) ? 2 : r.chance(0.15) ? 64 : r.irange(2, 64);
  if (r.chance(0.4)) n = r.irange(2, 6);
  std::vector<float> xs;
  for (int i = 0; i < n; i++) xs.push_back((float)r.range(lo, hi));
  if (r.chance(0.3)) for (auto &x : xs) x = (float)(round(x * 4) / 4);
  if (r.chance(0.1)) for (auto &x : xs) x = xs[0];
  std::sort(xs.begin(), xs.end());
  // no segments too narrow to evaluate in single precision
  for (int i = 1; i < n; i++) if (xs[i] != xs[i - 1] && xs[i] - xs[i - 1] < 1e-4 * (hi - lo)) xs[i] = xs[i - 1];
  Curve c;
  for (int i = 0; i < n; i++) c.push_back({xs[i], i && r.chance(0.25) ? c.back().second : (float)r.range(-amp, amp)});
  return c;
}
static bool cmp(Case &c, const char *key, D base, const std::vector<Curve> &cv, const std::vector<float> &in, float got, const std::function<std::string()> &ctx) {
  D lo = base, hi = base, mag = fabs(base); int used = 0;
  for (size_t j = 0; j < cv.size(); j++) if (!cv[j].empty()) { Iv v = curve(cv[j], in[j], mag); lo += v.lo; hi += v.hi; used++; }
  D tol = mag * (8 + 2 * used) * 6e-8 + 1e-30;
  if (!std::isfinite(got) || got < lo - tol || got > hi + tol) {
    c.viol(key, "value is %.9g, expected %s%.12g%s (tolerance %.3g) for %s", got, lo == hi ? "" : "[", lo, lo == hi ? "" : fmt(" .. %.12g]", hi).c_str(), tol, ctx().c_str());
    return false;
  }
  if (opt().verbose && tol > 0) fprintf(stderr, "worst %.4f\n", std::max(lo - got, got - hi) / tol);
  return true;
}
static std::string cstr(const Curve &p) { std::string s = "["; for (size_t i = 0; i < p.size() && i < 12; i++) s += fmt("(%.9g,%.9g)", p[i].first, p[i].second); return s + (p.size() > 12 ? "...]" : "]"); }

static void object_case(Case &c) {
  Rng &r = c.rng;
  int inputs = r.chance(0.2) ? 1 : r.irange(1, 24);
  MyPaintMapping *m = mypaint_mapping_new(inputs);
  if (!m) harness_error("no mapping");
  std::vector<Curve> sh(inputs); float base = 0; uint64_t h = inputs;
  auto check = [&]() {
    if (mypaint_mapping_get_base_value(m) != base) { c.viol("base", "base value reads %.9g, was set to %.9g", mypaint_mapping_get_base_value(m), base); return; }
    int used = 0;
    for (int j = 0; j < inputs; j++) {
      used += !sh[j].empty();
      if (mypaint_mapping_get_n(m, j) != (int)sh[j].size()) { c.viol("count", "input %d has %d points, %zu were set", j, mypaint_mapping_get_n(m, j), sh[j].size()); return; }
      for (size_t i = 0; i < sh[j].size(); i++) {
        float x, y; mypaint_mapping_get_point(m, j, (int)i, &x, &y);
        if (x != sh[j][i].first || y != sh[j][i].second) { c.viol("point", "point %zu of input %d reads (%.9g,%.9g), was set to (%.9g,%.9g)", i, j, x, y, sh[j][i].first, sh[j][i].second); return; }
      }
    }
    if (!!mypaint_mapping_is_constant(m) != (used == 0)) { c.viol("constant", "%d inputs have curves but constant is %d", used, mypaint_mapping_is_constant(m)); return; }
    if (mypaint_mapping_get_inputs_used_n(m) != used) { c.viol("used", "%d inputs have curves, %d reported", used, mypaint_mapping_get_inputs_used_n(m)); return; }
  };
  check();
  int ops = r.irange(3, 40);
  for (int k = 0; k < ops && !c.bad(); k++) {
    int j = (int)r.below(inputs);
    D lo = r.pick({-1, 0, -180, 0, -1e3}), hi = lo + r.pick({1, 2, 360, 0.1, 1e4}), amp = r.pick({1, 10, 0.01, 1e4});
    switch (r.below(6)) {
      case 0: base = (float)r.range(-amp, amp); mypaint_mapping_set_base_value(m, base); break;
      case 1: mypaint_mapping_set_n(m, j, 0); sh[j].clear(); break;
      case 2:   // shrink
        if (sh[j].size() > 2) { int n = r.irange(2, (int)sh[j].size() - 1); mypaint_mapping_set_n(m, j, n); sh[j].resize(n); }
        break;
      case 3:   // move one point within its neighbours
        if (!sh[j].empty()) {
          int i = (int)r.below((uint32_t)sh[j].size()); float a = i ? sh[j][i - 1].first : sh[j][0].first - 1, b = i + 1 < (int)sh[j].size() ? sh[j][i + 1].first : sh[j][i].first + 1;
          float x = r.chance(0.3) ? sh[j][i].first : r.chance(0.5) ? a : b, y = (float)r.range(-amp, amp);
          mypaint_mapping_set_point(m, j, i, x, y); sh[j][i] = {x, y};
        }
        break;
      default: {
        Curve p = gen(r, lo, hi, amp);
        mypaint_mapping_set_n(m, j, (int)p.size());
        for (size_t i = 0; i < p.size(); i++) mypaint_mapping_set_point(m, j, (int)i, p[i].first, p[i].second);
        sh[j] = p;
      }
    }
    check(); if (c.bad()) break;
    for (int q = 0; q < 6; q++) {
      std::vector<float> in(inputs);
      for (int i = 0; i < inputs; i++) {
        in[i] = (float)r.range(-2, 2);
        if (!sh[i].empty()) {
          D a = sh[i].front().first, b = sh[i].back().first, w = std::max(b - a, 0.1);
          in[i] = r.chance(0.3) ? sh[i][r.below((uint32_t)sh[i].size())].first : (float)r.range(a - w, b + w);
          if (r.chance(0.05)) in[i] = (float)r.range(-1e5, 1e5);
        }
      }
      std::vector<float> data = in;
      float got = mypaint_mapping_calculate(m, data.data());
      if (data != in) { c.viol("input-modified", "evaluation changed its input vector"); break; }
      if (inputs == 1) { float g2 = mypaint_mapping_calculate_single_input(m, in[0]); if (g2 != got) { c.viol("single", "single input evaluation gives %.9g, vector gives %.9g", g2, got); break; } c.count("single_input"); }
      if (!cmp(c, "value", base, sh, in, got, [&] { std::string t = fmt("base %.9g", base); for (int i = 0; i < inputs; i++) if (!sh[i].empty()) t += fmt(" input %d=%.9g %s", i, in[i], cstr(sh[i]).c_str()); return t; })) break;
      c.evals(); c.count("evaluations"); h = mixh(h, fnv(&got, 4));
    }
  }
  c.sig(h); c.count("edit_histories");
  mypaint_mapping_free(m);
}
// the same stroke twice: first with identity curves exposing the inputs on parameters that only pass through, then with random curves on them
static const int PASS[] = {S_(LOCK_ALPHA), S_(COLORIZE), S_(POSTERIZE), S_(PAINT_MODE)};
static float pass(const Dab &d, int k) { return k == 0 ? d.lock : k == 1 ? d.colorize : k == 2 ? d.posterize : d.paint; }
static void brush_case(Case &c) {
  Rng &r = c.rng;
  int in[4]; for (int k = 0; k < 4; k++) in[k] = (int)r.below(MYPAINT_BRUSH_INPUTS_COUNT);
  Brush a, b; BrushGen g; g.map_prob = 0.05; g.rad_hi = 2.5; uint64_t gs = r.u64();
  { Rng q(gs); gen_brush(q, a, g); } { Rng q(gs); gen_brush(q, b, g); }
  struct B { float base; std::vector<Curve> cv; std::vector<int> id; } bs[4];
  for (int k = 0; k < 4; k++) {
    for (Brush *x : {&a, &b}) { x->nomap(PASS[k]); x->set(PASS[k], 0); x->set(S_(SMUDGE), 0); x->nomap(S_(SMUDGE)); }
    a.map(PASS[k], in[k], {{0, 0}, {1, 1}});
    bs[k].base = (float)r.range(-2, 2); b.set(PASS[k], bs[k].base);
    int used = r.irange(0, 4); std::vector<int> w = {0, 1, 2, 3};
    bs[k].cv.resize(4);
    for (int u = 0; u < used; u++) {
      int j = w[u]; bool dup = false; for (int v = 0; v < j; v++) dup |= in[v] == in[j] && !bs[k].cv[v].empty();
      if (dup) continue;
      const MyPaintBrushInputInfo *ii = mypaint_brush_input_info((MyPaintBrushInput)in[j]);
      Curve p = gen(r, ii->soft_min, ii->soft_max, r.pick({1, 5, 0.1})); bs[k].cv[j] = p; b.map(PASS[k], in[j], p);
    }
    { int n = mypaint_brush_get_inputs_used_n(b.b, (MyPaintBrushSetting)PASS[k]), want = 0; for (auto &q : bs[k].cv) want += !q.empty();
      if (n != want || !!mypaint_brush_is_constant(b.b, (MyPaintBrushSetting)PASS[k]) != (want == 0)) { c.viol("brush-used", "%d inputs have curves, %d reported", want, n); return; } }
  }
  Mock ma, mb; Walk w(r); int n = r.irange(3, 25);
  for (int i = 0; i < n; i++) {
    Event e = w.next(r); size_t n0 = ma.dabs.size();
    stroke(a.b, ma.surf(), e); stroke(b.b, mb.surf(), e);
    if (ma.dabs.size() != mb.dabs.size()) { c.viol("pass-through", "curves on pass-through settings changed the number of dabs (%zu vs %zu)", ma.dabs.size(), mb.dabs.size()); return; }
    for (size_t k = n0; k < ma.dabs.size(); k++) {
      std::vector<float> iv(4);
      for (int q = 0; q < 4; q++) { iv[q] = pass(ma.dabs[k], q); if (!std::isfinite(iv[q])) return; }
      for (int q = 0; q < 4; q++)
        if (!cmp(c, "brush-value", bs[q].base, bs[q].cv, iv, pass(mb.dabs[k], q), [&] {
              std::string t = fmt("%s base %.9g,", mypaint_brush_setting_info((MyPaintBrushSetting)PASS[q])->cname, bs[q].base);
              for (int u = 0; u < 4; u++) t += fmt(" %s=%.9g %s", mypaint_brush_input_info((MyPaintBrushInput)in[u])->cname, iv[u], cstr(bs[q].cv[u]).c_str());
              return t; })) return;
      c.evals(); c.count("brush_dabs"); c.sig(fnv(&mb.dabs[k], sizeof(Dab)));
    }
    if (ma.dabs.size() > 400) break;
  }
  if (c.idx % 41 == 1 && mb.dabs.size() > 3) c.sample("inputs %s %s %s %s: %zu dabs, last lock_alpha value %.6g", mypaint_brush_input_info((MyPaintBrushInput)in[0])->cname, mypaint_brush_input_info((MyPaintBrushInput)in[1])->cname, mypaint_brush_input_info((MyPaintBrushInput)in[2])->cname, mypaint_brush_input_info((MyPaintBrushInput)in[3])->cname, mb.dabs.size(), mb.dabs.back().lock);
}
static void one(Case &c) { if (c.idx & 1) brush_case(c); else object_case(c); }
VP_MAIN("P04", one)
