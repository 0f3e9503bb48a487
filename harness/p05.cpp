// P05: every pixel changed in a transaction lies in the rectangles reported for it.
#include "lib.hpp"
using namespace vp;

static void one(Case &c) {
  Rng &r = c.rng;
  Store st; st.logging = false;
  bool noise = r.chance(0.5);
  if (noise) st.fill = fill_noise(r.u64());
  int T = r.irange(3, 8);
  bool sym = false; float cx = 0, cy = 0; int lines = 2, type = 0; float sangle = 0;
  bool p_sym = false; float p_cx = 0, p_cy = 0; int p_lines = 2, p_type = 0; float p_angle = 0;   // pending
  auto setsym = [&]() {
    p_sym = r.chance(0.75); p_type = (int)r.below(5); p_cx = (float)r.range(-150, 150); p_cy = (float)r.range(-150, 150);
    p_angle = (float)r.range(-180, 180);
    switch (r.below(5)) { case 0: p_lines = r.irange(2, 6); break; case 1: p_lines = r.irange(14, 18); break; case 2: p_lines = r.irange(30, 34); break;
      case 3: p_lines = r.irange(2, 60); break; default: p_lines = r.chance(0.2) ? r.irange(100, 200) : r.irange(2, 20); }
    c.desc("symmetry active=%d centre=%.9g,%.9g angle=%.9g type=%d lines=%d", p_sym, p_cx, p_cy, p_angle, p_type, p_lines);
    mypaint_tiled_surface_set_symmetry_state(&st.base, p_sym, p_cx, p_cy, p_angle, (MyPaintSymmetryType)p_type, p_lines);
    sym = p_sym;    // (de)activation is immediate, the rest is not
  };
  const int CAPMAX = 330, GUARD = 8;
  std::vector<MyPaintRectangle> rects(CAPMAX + 2 * GUARD);
  for (int t = 0; t < T; t++) {
    if (r.chance(t ? 0.4 : 0.6)) setsym();
    mypaint_surface_begin_atomic(st.surf());
    cx = p_cx; cy = p_cy; lines = p_lines; type = p_type; sangle = p_angle; (void)sangle;
    Store::Snap before = st.snap();
    // allowed area of this transaction
    double ax0 = 1e18, ay0 = 1e18, ax1 = -1e18, ay1 = -1e18;
    auto grow = [&](double x0, double y0, double x1, double y1) { ax0 = std::min(ax0, x0); ay0 = std::min(ay0, y0); ax1 = std::max(ax1, x1); ay1 = std::max(ay1, y1); };
    int nops = r.chance(0.1) ? 0 : r.irange(1, 10), ndab = 0; bool any_sym = false;
    float bx = (float)r.range(-260, 260), by = (float)r.range(-260, 260);
    for (int k = 0; k < nops; k++) {
      if (r.chance(0.12)) {
        float cr, cg, cb, ca; float x = bx + (float)r.range(-60, 60), y = by + (float)r.range(-60, 60), rad = (float)r.logrange(0.5, 60);
        c.desc("t%d get_color %.9g %.9g r=%.9g", t, x, y, rad);
        mypaint_surface_get_color(st.surf(), x, y, rad, &cr, &cg, &cb, &ca, (float)r.pick({-1, 0, 0.5, 1}));
        continue;
      }
      if (r.chance(0.08)) { setsym(); }
      Dab d = gen_dab(r, 80, sym && lines > 40 ? 8 : r.chance(0.2) ? 90 : 20);
      d.x += bx; d.y += by;
      d.paint = r.chance(0.9) ? 0.f : d.paint;
      if (r.chance(0.15)) { switch (r.below(4)) { case 0: d.opaque = 0; break; case 1: d.radius = 0.05f; break; case 2: d.hardness = 0; break; default: d.softness = 1; } }
      c.desc("t%d %s", t, d.str().c_str());
      int ret = draw(st.surf(), d);
      if (ret) {
        ndab++;
        grow(d.x - d.radius - 3, d.y - d.radius - 3, d.x + d.radius + 3, d.y + d.radius + 3);
        if (sym) {
          any_sym = true;
          double R = hypot(d.x - cx, d.y - cy) + d.radius + 4;
          grow(cx - R, cy - R, cx + R, cy + R);
          grow(-1, -1, 1, 1);      // merging an unused slot may add the origin
        }
      }
    }
    int cap; switch (r.below(6)) { case 0: cap = 1; break; case 1: cap = r.irange(2, 4); break; case 2: cap = r.irange(2, 40); break; case 3: cap = 320; break; case 4: cap = r.chance(0.3) ? 0 : 5; break; default: cap = r.irange(1, 300); }
    bool null_roi = r.chance(0.05);
    for (auto &q : rects) { q.x = 7777; q.y = -7777; q.width = 3; q.height = 5; }
    if (r.chance(0.4)) for (int i = 0; i < cap; i++) rects[GUARD + i] = {r.irange(-300, 300), r.irange(-300, 300), r.irange(0, 50), r.irange(0, 50)};
    std::vector<MyPaintRectangle> orig = rects;
    MyPaintRectangles roi; roi.num_rectangles = cap; roi.rectangles = rects.data() + GUARD;
    c.desc("t%d end_atomic cap=%d null=%d", t, cap, null_roi);
    mypaint_surface_end_atomic(st.surf(), null_roi ? nullptr : &roi);
    c.evals();
    if (null_roi) continue;
    st.check_idle(c, "after end_atomic");
    int n = roi.num_rectangles;
    if (n < 0 || n > cap) { c.viol("rect-count", "transaction %d: %d rectangles reported for a capacity of %d", t, n, cap); return; }
    for (int i = 0; i < (int)rects.size(); i++)
      if ((i < GUARD || i >= GUARD + cap) && memcmp(&rects[i], &orig[i], sizeof orig[i])) {
        c.viol("rect-overwrite", "transaction %d: element %d outside the caller's %d rectangles was written", t, i - GUARD, cap); return;
      }
    if (cap == 0) continue;
    uint64_t changed = 0, missed = 0; int mx = 0, my = 0;
    for (auto &k : st.tiles) {
      auto it = before.find(k.first);
      int tx = (int)(uint32_t)(k.first >> 32), ty = (int)(uint32_t)k.first;
      std::vector<uint16_t> init;
      const uint16_t *q;
      if (it != before.end()) q = it->second.data();
      else { init.assign(TILE_U16, 0); if (st.fill) st.fill(init.data(), tx, ty); q = init.data(); }
      if (!memcmp(q, k.second.px, TILE_U16 * 2)) continue;
      // rectangles touching this tile
      std::vector<const MyPaintRectangle *> near;
      for (int i = 0; i < n; i++) {
        const MyPaintRectangle &R = roi.rectangles[i];
        if (R.width > 0 && R.height > 0 && R.x < (tx + 1) * TS && R.x + R.width > tx * TS && R.y < (ty + 1) * TS && R.y + R.height > ty * TS) near.push_back(&R);
      }
      for (int i = 0; i < TS * TS; i++)
        if (memcmp(q + 4 * i, k.second.px + 4 * i, 8)) {
          changed++;
          int x = tx * TS + i % TS, y = ty * TS + i / TS;
          bool in = false;
          for (auto R : near) if (x >= R->x && x < R->x + R->width && y >= R->y && y < R->y + R->height) { in = true; break; }
          if (!in && !missed++) { mx = x; my = y; }
        }
    }
    if (missed) {
      std::string rs; for (int i = 0; i < std::min(n, 12); i++) rs += fmt(" [%d,%d %dx%d]", roi.rectangles[i].x, roi.rectangles[i].y, roi.rectangles[i].width, roi.rectangles[i].height);
      c.viol("uncovered", "transaction %d: %llu of %llu changed pixels outside the %d reported rectangles, first (%d,%d); rects:%s", t,
             (unsigned long long)missed, (unsigned long long)changed, n, mx, my, rs.c_str());
      return;
    }
    for (int i = 0; i < n; i++) {
      const MyPaintRectangle &R = roi.rectangles[i];
      if (R.width <= 0 || R.height <= 0) continue;
      if (ndab == 0 || R.x < ax0 || R.y < ay0 || R.x + R.width > ax1 + 1 || R.y + R.height > ay1 + 1) {
        c.viol("stale-rect", "transaction %d: rectangle %d = [%d,%d %dx%d] reaches outside what this transaction's %d dabs can touch (%.0f,%.0f)-(%.0f,%.0f)", t, i,
               R.x, R.y, R.width, R.height, ndab, ax0, ay0, ax1, ay1);
        return;
      }
    }
    if (changed) {
      c.count("transactions_changed"); c.count("pixels_changed", changed); c.count("rectangles", n);
      if (any_sym) c.count("symmetry_transactions");
      if (any_sym && n == cap) c.count("merged_transactions");
      uint64_t h = mixh(changed, n); if (n) h = mixh(h, fnv(roi.rectangles, sizeof(MyPaintRectangle) * n));
      c.sig(mixh(h, any_sym * 10 + type));
      if (c.idx % 97 == 0 || t == 2) c.sample("transaction %d: %d dabs, symmetry %s type %d lines %d, capacity %d -> %d rects, first [%d,%d %dx%d], %llu pixels changed, all covered",
               t, ndab, any_sym ? "on" : "off", type, lines, cap, n, roi.rectangles[0].x, roi.rectangles[0].y, roi.rectangles[0].width, roi.rectangles[0].height, (unsigned long long)changed);
    }
  }
}
VP_MAIN("P05", one)
