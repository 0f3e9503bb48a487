// P23: the fixed-size surface confines painting to its bounds.
#include "lib.hpp"
using namespace vp;
// a surface of more than 2^16 tiles and 2^31 bytes: no two tiles share memory, painting reaches the far end
static void huge(Case &c) {
  Rng &r = c.rng; int TW = r.irange(60, 1000), TH = (65536 + r.irange(100, 2500)) / TW + 1; if (r.chance(0.5)) std::swap(TW, TH); int w = TW * TS - r.irange(0, 63), h = TH * TS - r.irange(0, 63); c.desc("fixed surface %dx%d", w, h);
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h); if (!f) { c.count("no_memory"); return; }
  struct G { MyPaintFixedTiledSurface *f; ~G() { mypaint_surface_unref(mypaint_fixed_tiled_surface_interface(f)); } } guard{f}; MyPaintTiledSurface *t = (MyPaintTiledSurface *)mypaint_fixed_tiled_surface_interface(f);
  std::vector<std::pair<int, int>> at; auto add = [&](int64_t i) { if (i >= 0 && i < (int64_t)TW * TH) { std::pair<int, int> p((int)(i % TW), (int)(i / TW)); if (std::find(at.begin(), at.end(), p) == at.end()) at.push_back(p); } };
  for (int64_t i : {0, 1, 32767, 32768, 65535, 65536, 65537, TW - 1, TW, TW * TH - 1, TW * TH - TW}) add(i); for (int k = 0; k < 25; k++) { int64_t i = r.below((uint32_t)(TW * TH)); for (int64_t j : {i, i + 32768, i + 65536, i - 65536, i + 4096, i + TW}) add(j); }
  auto tile = [&](int k, bool ro, uint16_t v) { MyPaintTileRequest q; mypaint_tile_request_init(&q, 0, at[k].first, at[k].second, ro); mypaint_tiled_surface_tile_request_start(t, &q); uint16_t *b = q.buffer; bool same = b != nullptr;
    if (b && !ro) for (int i = 0; i < TILE_U16; i++) b[i] = v; if (b && ro) for (int i = 0; i < TILE_U16; i++) same &= b[i] == v; mypaint_tiled_surface_tile_request_end(t, &q); c.beat(); return same; };
  for (int k = 0; k < (int)at.size(); k++) if (!tile(k, false, (uint16_t)(100 + k))) { c.viol("not-backed", "tile %d,%d of a %dx%d surface is refused", at[k].first, at[k].second, w, h); return; }
  for (int k = 0; k < (int)at.size(); k++) { c.evals(); if (!tile(k, true, (uint16_t)(100 + k))) { c.viol("shared-tile", "tile %d,%d of a %dx%d surface does not keep what is written to it", at[k].first, at[k].second, w, h); return; } }
  for (int k = 0; k < (int)at.size(); k++) tile(k, false, 0);
  for (int k = 0; k < 12; k++) {     // a dab within one tile changes that tile and no other
    int i = (int)r.below((uint32_t)at.size()); Dab d; d.x = at[i].first * TS + 32; d.y = at[i].second * TS + 32; d.radius = 6; d.hardness = 0.9f; d.r = d.g = d.b = 1; d.opaque = 1; d.alpha = 1; d.ratio = 1; d.angle = 0; d.softness = d.lock = d.colorize = d.posterize = d.paint = 0;
    if (d.x + 8 >= w || d.y + 8 >= h) continue; MyPaintSurface *s = (MyPaintSurface *)t; MyPaintRectangle rc; MyPaintRectangles R = {1, &rc}; mypaint_surface_begin_atomic(s); draw(s, d); mypaint_surface_end_atomic(s, &R);
    for (int j = 0; j < (int)at.size(); j++) if (tile(j, true, 0) == (j == i)) { c.viol("huge-dab", "a dab in tile %d,%d of a %dx%d surface %s", at[i].first, at[i].second, w, h, j == i ? "does not show there" : "shows in another tile"); return; }
    tile(i, false, 0); c.evals(); c.count("huge_dabs");
  }
  c.count("huge_surfaces"); c.sig(mixh(w, h));
}
static void one(Case &c) {
  if (c.idx % 3000 == 11) { huge(c); return; }
  Rng &r = c.rng;
  int w, h;
  switch (r.below(4)) { case 0: w = 64 * r.irange(1, 4); h = 64 * r.irange(1, 4); break; case 1: w = r.irange(1, 3); h = r.irange(1, 300); break; case 2: w = r.irange(1, 300); h = 64 * r.irange(1, 3) + r.irange(-1, 1); break;
    default: w = r.irange(1, 400); h = r.irange(1, 400); }
  c.desc("fixed surface %dx%d", w, h);
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h);
  if (!f) harness_error("no surface");
  struct G { MyPaintFixedTiledSurface *f; ~G() { mypaint_surface_unref(mypaint_fixed_tiled_surface_interface(f)); } } guard{f};
  if (mypaint_fixed_tiled_surface_get_width(f) != w || mypaint_fixed_tiled_surface_get_height(f) != h) {
    c.viol("size", "reports %dx%d", mypaint_fixed_tiled_surface_get_width(f), mypaint_fixed_tiled_surface_get_height(f)); return; }
  MyPaintSurface *s = mypaint_fixed_tiled_surface_interface(f); MyPaintTiledSurface *t = (MyPaintTiledSurface *)s;
  int TW = (w + TS - 1) / TS, TH = (h + TS - 1) / TS;
  // unbounded reference: same initial content inside, and what is blank outside stays blank
  Store ref; ref.logging = false;
  auto fetch = [&](int tx, int ty, bool ro, std::vector<uint16_t> *copy, const std::vector<uint16_t> *write) {
    MyPaintTileRequest q; mypaint_tile_request_init(&q, 0, tx, ty, ro); mypaint_tiled_surface_tile_request_start(t, &q);
    bool ok = q.buffer != nullptr;
    if (ok && copy) copy->assign(q.buffer, q.buffer + TILE_U16);
    if (ok && write) memcpy(q.buffer, write->data(), TILE_U16 * 2);
    uint16_t *b = q.buffer; mypaint_tiled_surface_tile_request_end(t, &q); return b;
  };
  // every pixel inside is backed by its own storage: write a pattern to every tile, then read all of it back
  std::vector<std::vector<uint16_t>> pat(TW * TH);
  std::vector<uint16_t> got;
  for (int ty = 0; ty < TH; ty++) for (int tx = 0; tx < TW; tx++) {
    if (r.chance(0.5)) { pat[ty * TW + tx].assign(TILE_U16, 0); fill_noise(r.u64())(pat[ty * TW + tx].data(), tx, ty); }
    else { fetch(tx, ty, true, &got, nullptr); pat[ty * TW + tx] = got; }
  }
  for (int ty = 0; ty < TH; ty++) for (int tx = 0; tx < TW; tx++) fetch(tx, ty, false, nullptr, &pat[ty * TW + tx]);
  std::set<uint16_t *> bufs;
  for (int ty = 0; ty < TH; ty++) for (int tx = 0; tx < TW; tx++) {
    uint16_t *b = fetch(tx, ty, r.chance(0.5), &got, nullptr);
    if (!bufs.insert(b).second) { c.viol("shared-tile", "tile %d,%d of a %dx%d surface shares its memory with another tile", tx, ty, w, h); return; }
    if (got != pat[ty * TW + tx]) { c.viol("not-backed", "tile %d,%d of a %dx%d surface does not keep what is written to it", tx, ty, w, h); return; }
    memcpy(ref.tile(tx, ty), pat[ty * TW + tx].data(), TILE_U16 * 2);
  }
  // what lies outside reads as the surface's blank, whatever it is on a fresh surface
  std::vector<uint16_t> blank; fetch(-1, -1, true, &blank, nullptr);
  for (int i = 4; i < TILE_U16; i++) if (blank[i] != blank[i % 4]) { c.viol("blank", "outside tile is not uniform on a fresh surface"); return; }
  ref.fill = [&](uint16_t *p, int, int) { memcpy(p, blank.data(), TILE_U16 * 2); };
  int n = r.irange(4, 24); uint64_t inside = 0, outside = 0, cross = 0;
  for (int k = 0; k < n; k++) {
    Dab d = gen_dab(r, 60, r.chance(0.1) ? 150 : 30);
    switch (r.below(5)) {
      case 0: d.x += (float)r.range(0, w); d.y += (float)r.range(0, h); break;
      case 1: d.x = (float)(r.chance(0.5) ? 0 : w) + (float)r.range(-5, 5); d.y = (float)r.range(-20, h + 20); break;
      case 2: d.x = (float)r.range(-20, w + 20); d.y = (float)(r.chance(0.5) ? 0 : h) + (float)r.range(-5, 5); break;
      case 3: d.x += (float)(r.chance(0.5) ? -1 : 1) * (float)r.range(100, 3000); d.y += (float)r.range(-3000, 3000); break;
      default: d.x = (float)(64 * r.irange(-1, TW + 1)); d.y = (float)(64 * r.irange(-1, TH + 1));
    }
    if (r.chance(0.7)) d.paint = 0;
    double R = d.radius + 1; bool in = d.x - R >= 0 && d.y - R >= 0 && d.x + R < w && d.y + R < h, out = d.x + R < 0 || d.y + R < 0 || d.x - R > TW * TS || d.y - R > TH * TS;
    c.desc("%s", d.str().c_str());
    Dab e2 = d; e2.x += 3; bool two = r.chance(0.3);
    for (MyPaintSurface *q : {s, ref.surf()}) {
      mypaint_surface_begin_atomic(q); draw(q, d); if (two) draw(q, e2); mypaint_surface_end_atomic(q, nullptr);
    }
    // nothing is kept outside the tiles
    for (auto it = ref.tiles.begin(); it != ref.tiles.end();) {
      int tx = (int)(uint32_t)(it->first >> 32), ty = (int)(uint32_t)it->first;
      if (tx < 0 || ty < 0 || tx >= TW || ty >= TH) { free(it->second.px); it = ref.tiles.erase(it); } else ++it;
    }
    (in ? inside : out ? outside : cross)++;
    c.evals();
    if (r.chance(0.35)) {     // sampling anywhere agrees with the reference
      float x = d.x + (float)r.range(-40, 40), y = d.y + (float)r.range(-40, 40), rad = (float)r.logrange(0.5, 40), paint = (float)r.pick({-1, 0, 1}), a[4], b[4];
      c.desc("sample %.9g %.9g r=%.9g paint=%g", x, y, rad, paint);
      mypaint_surface_get_color(s, x, y, rad, a, a + 1, a + 2, a + 3, paint); mypaint_surface_get_color(ref.surf(), x, y, rad, b, b + 1, b + 2, b + 3, paint);
      for (int i = 0; i < 4; i++) if (a[i] != b[i]) { c.viol("sample", "sample at (%.3f,%.3f) radius %.3f: component %d is %.9g, %.9g on an unbounded canvas", x, y, rad, i, a[i], b[i]); return; }
      for (auto it = ref.tiles.begin(); it != ref.tiles.end();) {
        int tx = (int)(uint32_t)(it->first >> 32), ty = (int)(uint32_t)it->first;
        if (tx < 0 || ty < 0 || tx >= TW || ty >= TH) { free(it->second.px); it = ref.tiles.erase(it); } else ++it;
      }
      c.count("samples");
    }
    if (r.chance(0.3)) {
      int tx = r.chance(0.5) ? -r.irange(1, 40) : TW + r.irange(0, 40), ty = r.irange(-40, 40 + TH); if (r.chance(0.5)) { tx = r.irange(0, TW - 1); ty = r.chance(0.5) ? -1 : TH; }
      fetch(tx, ty, true, &got, nullptr);
      if (got != blank) { c.viol("outside-not-blank", "outside tile %d,%d of a %dx%d surface is not blank", tx, ty, w, h); return; }
      c.count("outside_reads");
    }
  }
  for (int ty = 0; ty < TH; ty++) for (int tx = 0; tx < TW; tx++) {
    fetch(tx, ty, true, &got, nullptr);
    const uint16_t *q = ref.tile(tx, ty);
    for (int i = 0; i < TS * TS; i++) {
      int x = tx * TS + i % TS, y = ty * TS + i / TS;
      if (x < w && y < h && memcmp(&got[4 * i], q + 4 * i, 8)) {
        c.viol("inside", "pixel (%d,%d) is %d %d %d %d, %d %d %d %d on an unbounded canvas", x, y, got[4 * i], got[4 * i + 1], got[4 * i + 2], got[4 * i + 3], q[4 * i], q[4 * i + 1], q[4 * i + 2], q[4 * i + 3]); return;
      }
    }
  }
  c.count("dabs_inside", inside); c.count("dabs_outside", outside); c.count("dabs_across_edges", cross); c.count("surfaces");
  c.sig(mixh(w * 1000 + h, ref.hash()));
  if (c.idx % 37 == 2) c.sample("%dx%d (%dx%d tiles): %llu dabs inside, %llu across edges, %llu outside; pixels equal the unbounded canvas, outside blank", w, h, TW, TH, (unsigned long long)inside, (unsigned long long)cross, (unsigned long long)outside);
}
VP_MAIN("P23", one)
