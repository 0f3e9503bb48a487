// P08: the footprint and opacity profile of a dab, independent of the tile grid and of its position.
#include "lib.hpp"
using namespace vp;
typedef double D;

// documented profile: two linear segments over rr = (normalised distance)^2
static D profile(D rr, D hard, D soft) {
  if (rr > 1) return 0;
  D o = rr <= hard ? 1 - rr * (1 / hard - 1) : (hard >= 1 ? 1 : hard / (1 - hard) * (1 - rr));
  return o * (1 - soft);
}
struct Geo { D x, y, r, ratio, cs, sn; };
static D rr_at(const Geo &g, D px, D py) {
  D xx = px - g.x, yy = py - g.y, a = (yy * g.cs - xx * g.sn) * g.ratio, b = yy * g.sn + xx * g.cs;
  return (a * a + b * b) / (g.r * g.r);
}
// smallest and largest rr over the box
static D rr_min(const Geo &g, D x0, D y0, D x1, D y1) {
  if (g.x >= x0 && g.x <= x1 && g.y >= y0 && g.y <= y1) return 0;
  D best = 1e300;
  auto edge = [&](D ax, D ay, D bx, D by) {       // convex along the edge: ternary search
    D lo = 0, hi = 1;
    for (int i = 0; i < 40; i++) { D m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3;
      if (rr_at(g, ax + (bx - ax) * m1, ay + (by - ay) * m1) < rr_at(g, ax + (bx - ax) * m2, ay + (by - ay) * m2)) hi = m2; else lo = m1; }
    best = std::min(best, rr_at(g, ax + (bx - ax) * (lo + hi) / 2, ay + (by - ay) * (lo + hi) / 2));
    best = std::min(best, std::min(rr_at(g, ax, ay), rr_at(g, bx, by)));
  };
  edge(x0, y0, x1, y0); edge(x0, y1, x1, y1); edge(x0, y0, x0, y1); edge(x1, y0, x1, y1);
  return best;
}
static D rr_max(const Geo &g, D x0, D y0, D x1, D y1) {
  return std::max(std::max(rr_at(g, x0, y0), rr_at(g, x1, y0)), std::max(rr_at(g, x0, y1), rr_at(g, x1, y1)));
}

static int paint1(Store &s, const Dab &q, bool twice = false) {
  mypaint_surface_begin_atomic(s.surf()); int m = draw(s.surf(), q); mypaint_surface_end_atomic(s.surf(), nullptr); return m;
}

static void one(Case &c) {
  Rng &r = c.rng;
  Dab d; d.r = 1; d.g = 0; d.b = 0; d.opaque = 1; d.alpha = 1; d.lock = d.colorize = d.posterize = d.paint = 0;
  bool small = r.chance(0.35);
  d.radius = small ? (float)r.range(0.1, 3) : (float)r.logrange(3, r.chance(0.1) ? 200 : 50);
  if (c.idx % 90 == 11) d.radius = (float)r.logrange(200, 1100);
  if (r.chance(0.05)) d.radius = (float)r.pick({0.1, 0.5, 1.0, 2.9999, 3.0, 3.0001});
  d.hardness = r.chance(0.2) ? 1.f : (float)r.range(0.01, 1);
  if (r.chance(0.05)) d.hardness = (float)r.pick({1e-4, 0.999999, 0.5});
  d.softness = r.chance(0.5) ? 0.f : (float)r.range(0, 0.99);
  d.ratio = r.chance(0.35) ? 1.f : r.chance(0.1) ? (float)r.range(0, 1) : (float)r.logrange(1, r.chance(0.06) ? 200 : 10);
  d.angle = r.chance(0.2) ? (float)(r.irange(-8, 8) * 45) : (float)r.range(-400, 400);
  // quantised position: whole pixel moves are exact in float
  D ext = r.chance(0.8) ? 300 : 4000;
  auto quant = [&](D v) { return (float)(floor(v * 64) / 64); };
  d.x = quant(r.range(-ext, ext)); d.y = quant(r.range(-ext, ext));
  if (r.chance(0.25)) d.x = (float)(TS * r.irange(-4, 4) + r.pick({0, 0.5, -0.5, 0.015625, -0.015625, 1, -1}));
  if (r.chance(0.25)) d.y = (float)(TS * r.irange(-4, 4) + r.pick({0, 0.5, -0.5, 0.015625, -0.015625, 1, -1}));
  c.desc("%s", d.str().c_str());
  Store a; a.logging = true;
  a.log.clear();
  int m = paint1(a, d); c.evals();
  if (!m && d.radius >= 0.1f) { c.viol("refused", "dab returned 0"); return; }
  if (d.radius < 0.1f) return;
  Geo g{d.x, d.y, d.radius, d.ratio < 1 ? 1.0 : d.ratio, cos(d.angle / 180.0 * M_PI), sin(d.angle / 180.0 * M_PI)};
  // 1. footprint and profile of every pixel of the bounding box; everything else untouched
  int x0 = (int)floor(d.x - d.radius - 3), x1 = (int)ceil(d.x + d.radius + 3), y0 = (int)floor(d.y - d.radius - 3), y1 = (int)ceil(d.y + d.radius + 3);
  uint64_t inside = 0, marked = 0; D worst = 0;
  for (int y = y0; y <= y1; y++)
    for (int x = x0; x <= x1; x++) {
      uint16_t p[4]; const uint16_t *t = a.peek(fdiv(x, TS), fdiv(y, TS));
      if (t) memcpy(p, t + ((y - fdiv(y, TS) * TS) * TS + (x - fdiv(x, TS) * TS)) * 4, 8); else memset(p, 0, 8);
      D dist = hypot(x + 0.5 - d.x, y + 0.5 - d.y);
      if (p[3]) marked++;
      if (dist > d.radius + 1 + 1e-3 && p[3]) { c.viol("outside", "pixel (%d,%d) at distance %.4f is marked with %d", x, y, dist, p[3]); return; }
      D lo, hi;
      if (d.radius >= 3) {
        D rr = rr_at(g, x + 0.5, y + 0.5);
        // rounding of coordinates and of the rotation in float
        D e = 4e-6 * rr + 8 * g.ratio * (fabs(d.angle) * 2e-7 + 2e-6) * sqrt(rr + 1e-9) * (1 + 40 / d.radius) + 1e-6;
        lo = profile(rr + e, d.hardness, d.softness); hi = profile(std::max(0.0, rr - e), d.hardness, d.softness);
        if (d.hardness < 1) lo = std::min(lo, profile(rr, d.hardness, d.softness));
      } else {
        // anti-aliased: between the profile at the nearest and the farthest point considered (up to 0.57 pixels beyond the pixel)
        D e = 3e-4 + 2e-5 * g.ratio * g.ratio / (d.radius * d.radius);
        D n = rr_min(g, x - 0.6, y - 0.6, x + 1.6, y + 1.6), f = rr_max(g, x - 0.6, y - 0.6, x + 1.6, y + 1.6);
        hi = profile(std::max(0.0, n - e), d.hardness, d.softness); lo = profile(f + e, d.hardness, d.softness);
      }
      D v = p[3] / 32768.0;
      D tol = 3 / 32768.0;
      if (v < lo - tol || v > hi + tol) {
        c.viol(d.radius < 3 ? "profile-small" : "profile", "pixel (%d,%d): opacity %.6f, expected %.6f..%.6f (rr %.5f)", x, y, v, lo, hi, rr_at(g, x + 0.5, y + 0.5)); return;
      }
      if (d.radius >= 3 && hi > lo) worst = std::max(worst, (fabs(v - (lo + hi) / 2) - tol) / ((hi - lo) / 2));
      if (p[3] && (abs(p[0] - p[3]) > 1 || p[1] > 1 || p[2] > 1)) { c.viol("colour", "pixel (%d,%d) is %d %d %d %d for a red dab", x, y, p[0], p[1], p[2], p[3]); return; }
      inside++;
    }
  uint64_t total = 0;
  for (auto &k : a.tiles) for (int i = 0; i < TS * TS; i++) if (k.second.px[4 * i + 3]) total++;
  if (total != marked) { c.viol("far", "%llu pixels marked, only %llu of them inside the dab's bounding box", (unsigned long long)total, (unsigned long long)marked); return; }
  // 2. the same dab moved by whole pixels
  int dx, dy;
  switch (r.below(3)) { case 0: dx = r.irange(-130, 130); dy = r.irange(-130, 130); break; case 1: dx = TS * r.irange(-3, 3); dy = r.irange(-2, 2); break; default: dx = r.irange(-2000, 2000); dy = r.irange(-2000, 2000); }
  Dab e = d; e.x += dx; e.y += dy;
  c.desc("moved by %d,%d", dx, dy);
  Store b; b.logging = false;
  if (!paint1(b, e)) { c.viol("refused", "moved dab returned 0"); return; }
  for (int y = y0; y <= y1; y++)
    for (int x = x0; x <= x1; x++) {
      uint16_t p[4] = {0}, q[4] = {0};
      const uint16_t *t = a.peek(fdiv(x, TS), fdiv(y, TS)); if (t) memcpy(p, t + ((y - fdiv(y, TS) * TS) * TS + (x - fdiv(x, TS) * TS)) * 4, 8);
      int X = x + dx, Y = y + dy;
      t = b.peek(fdiv(X, TS), fdiv(Y, TS)); if (t) memcpy(q, t + ((Y - fdiv(Y, TS) * TS) * TS + (X - fdiv(X, TS) * TS)) * 4, 8);
      if (abs(p[3] - q[3]) > 2 || abs(p[0] - q[0]) > 2) {
        c.viol("translation", "pixel (%d,%d) is %d,%d but (%d,%d) is %d,%d for the dab moved by (%d,%d)", x, y, p[0], p[3], X, Y, q[0], q[3], dx, dy); return;
      }
    }
  uint64_t total2 = 0;
  for (auto &k : b.tiles) for (int i = 0; i < TS * TS; i++) if (k.second.px[4 * i + 3]) total2++;
  if (total2 > total + 2 * total / 100 + 4 || total > total2 + 2 * total2 / 100 + 4) { c.viol("translation", "%llu pixels marked, %llu by the moved dab", (unsigned long long)total, (unsigned long long)total2); return; }
  // 3. degenerate dabs change nothing and say so
  Dab z = d;
  switch (r.below(6)) { case 0: z.radius = (float)r.range(0, 0.0999); break; case 1: z.opaque = 0; break; case 2: z.hardness = 0; break; case 3: z.softness = 1; break;
    case 4: z.opaque = -0.5f; break; default: z.softness = 1.5f; }
  uint64_t h = a.hash(); a.log.clear();
  c.desc("degenerate %s", z.str().c_str());
  int mz = paint1(a, z);
  if (mz || a.hash() != h || !a.log.empty()) { c.viol("degenerate", "returned %d, %zu tile requests, pixels %s", mz, a.log.size(), a.hash() == h ? "unchanged" : "changed"); return; }
  c.count("pixels_checked", inside); c.count("pixels_marked", marked); c.count(small ? "small_dabs" : "large_dabs"); if (d.ratio > 1) c.count("elliptic");
  c.count("moves"); c.count("degenerate");
  if (d.x < 0 || d.y < 0) c.count("negative_coordinates");
  if (marked) c.sig(mixh(marked, fnv(&d, sizeof d)));
  if (c.idx % 101 == 5) c.sample("%llu pixels match the profile (worst %.2f of tolerance), same after moving by (%d,%d): %s", (unsigned long long)marked, worst, dx, dy, d.str().c_str());
  if (opt().verbose) fprintf(stderr, "worst %.3f\n", worst);
}
VP_MAIN("P08", one)
