// P28: transforms are the plane maps they are named for, rectangles grow to exact bounding boxes.
#include "lib.hpp"
extern "C" {
#include "mypaint-matrix.h"
#include "mypaint-rectangle.h"
}
using namespace vp;
struct Aff { double a = 1, b = 0, c = 0, d = 0, e = 1, f = 0; void pt(double x, double y, double *X, double *Y) const { *X = a * x + b * y + c; *Y = d * x + e * y + f; } };
// what = op after m
static Aff after(const Aff &o, const Aff &m) { return {o.a * m.a + o.b * m.d, o.a * m.b + o.b * m.e, o.a * m.c + o.b * m.f + o.c, o.d * m.a + o.e * m.d, o.d * m.b + o.e * m.e, o.d * m.c + o.e * m.f + o.f}; }
static float angle(Rng &r) { switch (r.below(6)) { case 0: return (float)(r.irange(-12, 12) * M_PI / 6); case 1: return (float)r.range(-1e-4, 1e-4); case 2: return (float)r.range(-60, 60); default: return (float)r.range(-M_PI, M_PI); } }
static float coord(Rng &r) { switch (r.below(6)) { case 0: return 0; case 1: return (float)r.irange(-5, 5); case 2: return (float)(r.logrange(1e-6, 1e-2) * (r.chance(0.5) ? 1 : -1)); case 3: return (float)r.range(-1e5, 1e5); default: return (float)r.range(-300, 300); } }
static void transforms(Case &c) {
  Rng &r = c.rng; MyPaintTransform m = mypaint_transform_unit(), prev = m; Aff ref; int n = r.irange(0, 12); double scale = 1, pscale = 1; uint64_t h = 0;
  for (int i = 0; i <= n; i++) {
    for (int k = 0; k < 6; k++) {       // the whole map, seen through points
      float x = coord(r), y = coord(r), X = NAN, Y = NAN; MyPaintTransform keep = m; mypaint_transform_point(&m, x, y, &X, &Y); if (memcmp(&keep, &m, sizeof m)) { c.viol("const", "transforming a point changed the transform"); return; }
      double p, q; ref.pt(x, y, &p, &q); double tol = 3e-6 * (i + 2) * (scale + fabs(x) + fabs(y));
      if (!(fabs(X - p) <= tol) || !(fabs(Y - q) <= tol)) { c.viol("point", "after %d steps (%g,%g) is mapped to (%.8g,%.8g), expected (%.8g,%.8g)", i, x, y, X, Y, p, q); return; }
      c.count("points"); h = mixh(h, fnv(&X, 4)); h = mixh(h, fnv(&Y, 4));
    }
    c.evals(); if (i == n) break;
    prev = m; pscale = scale; MyPaintTransform arg = m; Aff o; float a = angle(r), x = coord(r), y = coord(r); int op = (int)r.below(4);
    if (op == 0) { m = mypaint_transform_rotate_cw(arg, a); o = {cos(a), sin(a), 0, -sin(a), cos(a), 0}; c.count("rotations"); }
    if (op == 1) { m = mypaint_transform_rotate_ccw(arg, a); o = {cos(a), -sin(a), 0, sin(a), cos(a), 0}; c.count("rotations"); }
    if (op == 2) { m = mypaint_transform_reflect(arg, a); o = {cos(2. * a), sin(2. * a), 0, sin(2. * a), -cos(2. * a), 0}; c.count("reflections"); }
    if (op == 3) { m = mypaint_transform_translate(arg, x, y); o = {1, 0, x, 0, 1, y}; scale += fabs(x) + fabs(y); c.count("translations"); }
    c.desc("%s %.9g %.9g", op == 0 ? "rotate_cw" : op == 1 ? "rotate_ccw" : op == 2 ? "reflect" : "translate", op == 3 ? x : a, op == 3 ? y : 0); ref = after(o, ref); (void)pscale;
    if (r.chance(0.2)) {    // inverses
      MyPaintTransform inv = op == 0 ? mypaint_transform_rotate_ccw(m, a) : op == 1 ? mypaint_transform_rotate_cw(m, a) : op == 2 ? mypaint_transform_reflect(m, a) : mypaint_transform_translate(m, -x, -y);
      float u = coord(r), v = coord(r), X, Y, P, Q; mypaint_transform_point(&inv, u, v, &X, &Y); mypaint_transform_point(&prev, u, v, &P, &Q); double tol = 6e-6 * (i + 3) * (scale + fabs(u) + fabs(v));
      if (!(fabs(X - P) <= tol) || !(fabs(Y - Q) <= tol)) { c.viol("inverse", "undoing step %d moves (%g,%g) to (%.8g,%.8g) instead of (%.8g,%.8g)", i, u, v, X, Y, P, Q); return; } c.count("inverses");
    }
  }
  c.sig(h); if (c.idx % 400 == 0) c.sample("%d composed transforms", n);
}
static void rectangles(Case &c) {
  Rng &r = c.rng; MyPaintRectangle q = {r.irange(-9, 9), r.irange(-9, 9), 0, r.chance(0.5) ? 0 : 7}; bool empty = true; int64_t x0 = 0, y0 = 0, x1 = 0, y1 = 0; int64_t span = r.pick({3, 50, 5000, 1e9}); int n = r.irange(1, 30); uint64_t h = 1;
  int64_t ox = span > 1e8 ? 0 : (int64_t)r.range(-2e9, 2e9), oy = span > 1e8 ? 0 : (int64_t)r.range(-2e9, 2e9); auto co = [&](int64_t o) { return (int)(o + (int64_t)r.range(-(double)span, (double)span)); };
  for (int i = 0; i < n; i++) {
    int64_t a, b, cx, d; 
    if (r.chance(0.6)) { int x = co(ox), y = co(oy); c.desc("point %d %d", x, y); mypaint_rectangle_expand_to_include_point(&q, x, y); a = cx = x; b = d = y; c.count("points_added"); }
    else { MyPaintRectangle o = {co(ox), co(oy), 0, 0}; o.width = 1 + (int)r.below((uint32_t)(span / 2 + 1)); o.height = 1 + (int)r.below((uint32_t)(span / 2 + 1)); if (span > 1e8) { o.x /= 2; o.y /= 2; } MyPaintRectangle k = o; c.desc("rectangle %d %d %d %d", o.x, o.y, o.width, o.height);
      mypaint_rectangle_expand_to_include_rect(&q, &o); if (memcmp(&k, &o, sizeof o)) { c.viol("argument", "the included rectangle was changed"); return; } a = o.x; b = o.y; cx = (int64_t)o.x + o.width - 1; d = (int64_t)o.y + o.height - 1; c.count("rectangles_added"); }
    if (empty) { x0 = a; y0 = b; x1 = cx; y1 = d; empty = false; } else { x0 = std::min(x0, a); y0 = std::min(y0, b); x1 = std::max(x1, cx); y1 = std::max(y1, d); }
    if (q.x != x0 || q.y != y0 || q.x + (int64_t)q.width - 1 != x1 || q.y + (int64_t)q.height - 1 != y1) { c.viol("box", "rectangle %d %d %d %d after %d inclusions, the points span %lld..%lld, %lld..%lld", q.x, q.y, q.width, q.height, i + 1, (long long)x0, (long long)x1, (long long)y0, (long long)y1); return; }
    c.evals(); h = mixh(h, fnv(&q, sizeof q));
    if (r.chance(0.2)) { MyPaintRectangle *k = mypaint_rectangle_copy(&q); if (!k || k == &q || memcmp(k, &q, sizeof q)) { c.viol("copy", "the copy differs"); free(k); return; } mypaint_rectangle_expand_to_include_point(k, q.x - 1, q.y - 1); if (q.x != x0) { c.viol("copy", "the copy is not independent"); free(k); return; } free(k); c.count("copies"); }
  }
  c.sig(h);
}
static void one(Case &c) { if (c.rng.chance(0.6)) transforms(c); else rectangles(c); }
VP_MAIN("P28", one)
