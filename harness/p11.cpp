// P11: symmetry paints the dab and exactly its images; changes of the symmetry apply from the next transaction on.
#include "lib.hpp"
using namespace vp;
typedef double D;
struct Sym { bool on; D cx, cy, ang; int type, n; };
struct Img { D x, y, angle; };
static Img rot(const Sym &s, const Img &i, D deg) {
  D a = deg * M_PI / 180, c = cos(a), n = sin(a), dx = i.x - s.cx, dy = i.y - s.cy;
  return {s.cx + dx * c - dy * n, s.cy + dx * n + dy * c, i.angle + deg};
}
static Img mirror(const Sym &s, const Img &i, D line_deg) {
  D a = 2 * line_deg * M_PI / 180, c = cos(a), n = sin(a), dx = i.x - s.cx, dy = i.y - s.cy;
  return {s.cx + dx * c + dy * n, s.cy + dx * n - dy * c, 2 * line_deg - i.angle};
}
static std::vector<Img> images(const Sym &s, const Img &d) {
  std::vector<Img> v{d};
  if (!s.on) return v;
  D h = -s.ang;                 // the symmetry angle turns counter-clockwise, y points down
  switch (s.type) {
    case MYPAINT_SYMMETRY_TYPE_VERTICAL: v.push_back(mirror(s, d, h + 90)); break;
    case MYPAINT_SYMMETRY_TYPE_HORIZONTAL: v.push_back(mirror(s, d, h)); break;
    case MYPAINT_SYMMETRY_TYPE_VERTHORZ: v.push_back(mirror(s, d, h)); v.push_back(mirror(s, d, h + 90)); v.push_back(rot(s, d, 180)); break;
    case MYPAINT_SYMMETRY_TYPE_ROTATIONAL: for (int i = 1; i < s.n; i++) v.push_back(rot(s, d, 360.0 * i / s.n)); break;
    case MYPAINT_SYMMETRY_TYPE_SNOWFLAKE: for (int i = 1; i < s.n; i++) v.push_back(rot(s, d, 360.0 * i / s.n));
      for (int i = 0; i < s.n; i++) v.push_back(mirror(s, d, h + 180.0 * i / s.n)); break;
  }
  return v;
}
static void one(Case &c) {
  Rng &r = c.rng;
  Store A, B; A.logging = B.logging = false;
  Sym cur{false, 0, 0, 0, MYPAINT_SYMMETRY_TYPE_VERTICAL, 2}, pend = cur;
  bool on = false;
  auto gen = [&](bool keep_on) {
    if (!keep_on) on = r.chance(0.85);
    Sym old = pend; bool was = on; pend = {on, (float)r.range(-120, 120), (float)r.range(-120, 120), r.chance(0.25) ? (D)(45 * r.irange(-4, 4)) : (float)r.range(-200, 200), (int)r.below(5), 2};
    switch (r.below(6)) { case 0: pend.n = 2; break; case 1: pend.n = 3; break; case 2: pend.n = r.irange(14, 18); break; case 3: pend.n = r.chance(0.12) ? r.irange(46, 300) : r.irange(30, 45); break; default: pend.n = r.irange(2, 10); }
    // as an application with one control per parameter: only one of them changes
    if (was && r.chance(0.45)) { Sym neu = pend; pend = old; pend.on = on; switch (r.below(6)) { case 0: pend.cx = neu.cx; break; case 1: pend.cy = neu.cy; break; case 2: pend.ang = neu.ang; break; case 3: pend.type = neu.type; break; case 4: pend.n = neu.n; break; default:; } c.count("single_changes"); }
    int given = pend.n == 2 && r.chance(0.3) ? r.irange(-5, 2) : pend.n;
    c.desc("set symmetry active=%d type=%d centre=%.9g,%.9g angle=%.9g lines=%d", on, pend.type, pend.cx, pend.cy, pend.ang, given);
    mypaint_tiled_surface_set_symmetry_state(&A.base, on, (float)pend.cx, (float)pend.cy, (float)pend.ang, (MyPaintSymmetryType)pend.type, given);
  };
  int T = r.irange(1, 5); uint64_t nimg = 0; int changes_inside = 0;
  for (int t = 0; t < T; t++) {
    if (t == 0 ? r.chance(0.95) : r.chance(0.5)) gen(false);
    mypaint_surface_begin_atomic(A.surf());
    cur = pend; cur.on = on;
    mypaint_surface_begin_atomic(B.surf());
    int nd = r.irange(1, 3);
    for (int k = 0; k < nd; k++) {
      if (r.chance(0.3)) { gen(true); changes_inside++; }           // must not affect this transaction
      Dab d; d.x = (float)r.range(-150, 150); d.y = (float)r.range(-150, 150); d.radius = (float)r.range(3.5, cur.n > 60 ? 4.5 : cur.n > 12 ? 8 : 20);
      d.hardness = (float)r.range(0.1, 0.6); d.softness = r.chance(0.5) ? 0 : 0.3f; d.ratio = r.chance(0.7) ? (float)r.range(1.5, 4) : 1; d.angle = (float)r.range(-360, 360);
      d.r = 1; d.g = 0.5f; d.b = 0; d.opaque = (float)r.range(0.3, 1);
      c.desc("t%d %s", t, d.str().c_str());
      if (!draw(A.surf(), d)) { c.viol("refused", "dab returned 0"); return; }
      auto v = images(cur, {d.x, d.y, d.angle});
      for (auto &i : v) { Dab e = d; e.x = (float)i.x; e.y = (float)i.y; e.angle = (float)fmod(i.angle, 360); draw(B.surf(), e); }
      nimg += v.size();
      if (cur.on) c.count(fmt("type_%d", cur.type).c_str());
    }
    mypaint_surface_end_atomic(A.surf(), nullptr); mypaint_surface_end_atomic(B.surf(), nullptr);
    c.evals();
    // images are painted in an unspecified order: same colour throughout, so only rounding differs
    std::set<uint64_t> keys; for (auto &k : A.tiles) keys.insert(k.first); for (auto &k : B.tiles) keys.insert(k.first);
    uint64_t marked = 0; D worst = 0;
    for (uint64_t k : keys) {
      int tx = (int)(uint32_t)(k >> 32), ty = (int)(uint32_t)k; const uint16_t *p = A.tile(tx, ty), *q = B.tile(tx, ty);
      for (int i = 0; i < TS * TS; i++) {
        if (p[4 * i + 3]) marked++;
        D e = abs(p[4 * i + 3] - q[4 * i + 3]); worst = std::max(worst, e);
        if (e > 60 + 2 * cur.n) {
          c.viol("images", "transaction %d (active %d type %d lines %d): pixel (%d,%d) has alpha %d, %d from the images painted one by one", t, cur.on, cur.type, cur.n, tx * TS + i % TS, ty * TS + i / TS,
                 p[4 * i + 3], q[4 * i + 3]); return;
        }
      }
    }
    c.count("transactions"); c.count("pixels_marked", marked);
    c.sig(mixh(marked, fnv(&cur, sizeof cur)));
    if (opt().verbose) fprintf(stderr, "worst %.0f\n", worst);
    if (c.idx % 71 == 1) c.sample("active %d type %d lines %d centre %.3f,%.3f angle %.3f: %llu pixels marked, largest alpha difference %.0f/32768", cur.on, cur.type, cur.n, cur.cx, cur.cy, cur.ang, (unsigned long long)marked, worst);
  }
  c.count("images", nimg); c.count("changes_inside_transaction", changes_inside);
}
VP_MAIN("P11", one)
