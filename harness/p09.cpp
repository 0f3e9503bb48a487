// P09: queued rendering equals immediate rendering; tile protocol; every dab once per tile, in order; sampling sees queued dabs.
#include "lib.hpp"
#include <array>
using namespace vp;
struct Op { bool sample; Dab d; float x, y, rad, paint; };

static bool proto(Case &c, Store &s, size_t from, const char *when, bool sampling, const std::set<uint64_t> *expect, std::set<uint64_t> *got) {
  std::map<uint64_t, int> writes; std::map<uint64_t, int> open;
  for (size_t i = from; i < s.log.size(); i++) {
    const Store::Ev &e = s.log[i]; uint64_t k = tkey(e.tx, e.ty);
    if (e.start) {
      if (open[k]++) { c.viol("tile-protocol", "%s: tile %d,%d requested again before its release", when, e.tx, e.ty); return false; }
      if (!e.ro) {
        if (writes[k]++) { c.viol("tile-twice", "%s: tile %d,%d flushed twice", when, e.tx, e.ty); return false; }
        if (expect && !expect->count(k)) { c.viol("tile-unexpected", "%s: tile %d,%d written though no queued dab reaches it", when, e.tx, e.ty); return false; }
        if (got) got->insert(k);
      } else if (!sampling) { c.viol("tile-readonly", "%s: read-only request for tile %d,%d while rendering dabs", when, e.tx, e.ty); return false; }
    } else {
      if (--open[k]) { c.viol("tile-protocol", "%s: tile %d,%d released but not held", when, e.tx, e.ty); return false; }
    }
  }
  for (auto &k : open) if (k.second) { c.viol("tile-protocol", "%s: tile %d,%d not released", when, (int)(uint32_t)(k.first >> 32), (int)(uint32_t)k.first); return false; }
  s.check_idle(c, when);
  return !c.bad();
}
static void dab_tiles(const Dab &d, std::set<uint64_t> &t) {
  double f = d.radius + 1.01;
  for (int ty = (int)floor((d.y - f) / TS); ty <= (int)floor((d.y + f) / TS); ty++)
    for (int tx = (int)floor((d.x - f) / TS); tx <= (int)floor((d.x + f) / TS); tx++) t.insert(tkey(tx, ty));
}
static void one(Case &c) {
  Rng &r = c.rng;
  Store A, B, C; uint64_t seed = r.u64();
  bool noise = r.chance(0.4);
  if (noise) A.fill = B.fill = C.fill = fill_noise(seed);
  // positions cluster in a few places, sometimes very far apart so that the tile map has to grow with work queued
  int nc = r.irange(1, 4); std::vector<std::pair<float, float>> cen;
  double spread = r.chance(0.15) ? 9000 : r.chance(0.4) ? 1500 : 100;
  for (int i = 0; i < nc; i++) cen.push_back({(float)r.range(-spread, spread), (float)r.range(-spread, spread)});
  int n = r.chance(0.15) ? r.irange(100, 260) : r.irange(2, 40);
  std::vector<Op> ops;
  for (int i = 0; i < n; i++) {
    Op o; auto &q = cen[r.below(nc)];
    o.sample = r.chance(0.12);
    o.d = gen_dab(r, 40, r.chance(0.1) ? 90 : 18); o.d.x += q.first; o.d.y += q.second;
    if (n > 60) o.d.radius = std::min(o.d.radius, 8.f);
    if (r.chance(0.8)) o.d.paint = 0;
    if (r.chance(0.05)) o.d.opaque = 0;
    o.x = q.first + (float)r.range(-60, 60); o.y = q.second + (float)r.range(-60, 60); o.rad = (float)r.logrange(0.5, 40); o.paint = (float)r.pick({-1, -1, 0, 0.5, 1});
    ops.push_back(o);
    if (o.sample) c.desc("sample %.9g %.9g r=%.9g p=%.9g", o.x, o.y, o.rad, o.paint); else c.desc("%s", o.d.str().c_str());
  }
  auto beg = [](Store &s) { mypaint_surface_begin_atomic(s.surf()); };
  auto fin = [](Store &s) { mypaint_surface_end_atomic(s.surf(), nullptr); };
  auto sample = [](Store &s, const Op &o, float out[4]) { mypaint_surface_get_color(s.surf(), o.x, o.y, o.rad, out, out + 1, out + 2, out + 3, o.paint); };
  // A: everything queued in one transaction, no sampling
  std::set<uint64_t> expect, got; int drawn = 0;
  beg(A);
  size_t l0 = A.log.size();
  for (auto &o : ops) if (!o.sample) { int m = draw(A.surf(), o.d); if (m) { drawn++; dab_tiles(o.d, expect); } }
  bool early = A.log.size() != l0;      // allowed to render early, but the counts below must still hold
  fin(A);
  if (!proto(c, A, 0, "single transaction", false, &expect, &got)) return;
  // every tile whose dab marks a pixel must have been rendered: B's pixels settle that; B: one transaction per dab
  std::vector<std::array<float, 4>> sb;
  for (auto &o : ops) {
    if (o.sample) { std::array<float, 4> q; sample(B, o, q.data()); sb.push_back(q); continue; }
    size_t l = B.log.size(); std::set<uint64_t> e1; dab_tiles(o.d, e1);
    beg(B); draw(B.surf(), o.d); fin(B);
    if (!proto(c, B, l, "transaction of one dab", false, &e1, nullptr)) return;
  }
  // C: random transactions with sampling in the middle of them
  size_t k = 0, si = 0, ntrans = 0, mid = 0; int pend = 0;
  while (k < ops.size()) {
    size_t m = 1 + r.below(r.chance(0.3) ? 40 : 8);
    beg(C); ntrans++; pend = 0;
    for (size_t j = 0; j < m && k < ops.size(); j++, k++) {
      if (!ops[k].sample) { pend += draw(C.surf(), ops[k].d) ? 1 : 0; continue; }
      float q[4]; Store::Snap h; if (!pend) h = C.snap();
      size_t l = C.log.size();
      sample(C, ops[k], q);
      if (!proto(c, C, l, "sampling inside a transaction", true, nullptr, nullptr)) return;
      if (pend) mid++;
      if (!pend && changed_since(C, h)) { c.viol("sample-writes", "sampling with nothing queued changed pixels"); return; }
      for (int i = 0; i < 4; i++) if (!(q[i] == sb[si][i])) {
        c.viol("sample-order", "operation %zu: colour sampled with %d dabs queued is %.9g %.9g %.9g %.9g, but %.9g %.9g %.9g %.9g once they are rendered", k, pend, q[0], q[1], q[2], q[3],
               sb[si][0], sb[si][1], sb[si][2], sb[si][3]); return;
      }
      si++;
    }
    size_t l = C.log.size();
    fin(C);
    if (!proto(c, C, l, "random transaction", false, nullptr, nullptr)) return;
    if (r.chance(0.2)) {       // nothing may be left over
      l = C.log.size(); beg(C); fin(C); fin(C);
      if (C.log.size() != l) { c.viol("left-over", "an empty transaction requested %zu tiles", (C.log.size() - l) / 2); return; }
    }
  }
  c.evals(3);
  std::string why;
  if (!same_pixels(A, B, &why)) { c.viol("queued-vs-immediate", "one transaction and one per dab differ: %s", why.c_str()); return; }
  if (!same_pixels(A, C, &why)) { c.viol("queued-vs-split", "one transaction and %zu random ones differ: %s", ntrans, why.c_str()); return; }
  if (drawn) { c.count("sequences"); c.count("dabs", drawn); c.count("samples", sb.size()); c.count("samples_with_queued_dabs", mid); c.count("tiles", got.size()); if (spread > 5000) c.count("far_apart"); if (n >= 100) c.count("long_queues"); }
  if (early) c.count("early_rendering");
  // each dab exactly once: repeated flat dabs accumulate to a known alpha
  {
    Store F; int m = r.irange(1, 12); float o = (float)r.range(0.1, 0.6); float x = (float)r.range(-200, 200), y = (float)r.range(-200, 200);
    Dab d; d.x = x; d.y = y; d.radius = 6; d.hardness = 1; d.opaque = o; d.r = d.g = d.b = 1;
    beg(F); double keep = 1;
    for (int i = 0; i < m; i++) {
      draw(F.surf(), d); keep *= 1 - o;
      if (r.chance(0.2)) { float q[4]; Op s; s.x = x; s.y = y; s.rad = 2; s.paint = -1; sample(F, s, q);
        if (fabs(q[3] - (1 - keep)) > 2e-3) { c.viol("not-once", "after %d queued dabs of opacity %g the sampled alpha is %.6f, expected %.6f", i + 1, o, q[3], 1 - keep); return; } }
    }
    fin(F);
    uint16_t p[4]; F.get((int)floor(x), (int)floor(y), p);
    if (fabs(p[3] / 32768.0 - (1 - keep)) > 2e-3) { c.viol("not-once", "%d dabs of opacity %g in one transaction give alpha %.6f, expected %.6f", m, o, p[3] / 32768.0, 1 - keep); return; }
    c.count("accumulations");
  }
  // order: the last of several fully opaque dabs wins
  {
    Store F; Dab d; d.radius = 5; d.hardness = 1; d.x = (float)r.range(-100, 100); d.y = (float)r.range(-100, 100); int m = r.irange(2, 6);
    beg(F);
    for (int i = 0; i < m; i++) { d.r = (float)(i + 1) / m; d.g = 1 - d.r; draw(F.surf(), d); }
    fin(F);
    uint16_t p[4]; F.get((int)floor(d.x), (int)floor(d.y), p);
    if (abs(p[0] - 32768) > 2 || p[1] > 2) { c.viol("order", "after %d opaque dabs the pixel is %d %d, not the last dab's colour", m, p[0], p[1]); return; }
  }
  // very long queues, and very many tiles with work queued while the tile map grows
  if (c.idx % 60 == 17) {
    bool wide = c.idx % 120 == 17; Store F, G; F.logging = wide; G.logging = false; int m = wide ? r.irange(2, 6) : r.irange(1100, 5000), batch = wide ? 1 : r.irange(10, 90);
    std::set<uint64_t> e1, g1; std::vector<Dab> v;
    for (int i = 0; i < m; i++) {
      Dab d = gen_dab(r, wide ? 200 : 30, 3); if (d.opaque < 0.05f) d.opaque = 0.5f; d.paint = 0; if (!wide) { d.radius = (float)r.range(0.5, 3); d.opaque *= 0.3f; }
      if (wide) { if (i == 0 || r.chance(0.3)) d.radius = (float)r.range(750, 1150); else { d.x += (float)r.pick({0, 9000, -20000, 45000}); d.y += (float)r.pick({0, -9000, 30000}); d.radius = (float)r.range(1, 40); } }
      v.push_back(d);
    }
    c.desc("%s: %d dabs", wide ? "many tiles" : "long queues", m); if (wide) for (auto &d : v) c.desc("%s", d.str().c_str());
    beg(F); for (auto &d : v) if (draw(F.surf(), d)) dab_tiles(d, e1); fin(F);
    if (wide && !proto(c, F, 0, "transaction over many tiles", false, &e1, &g1)) return;
    for (size_t i = 0; i < v.size();) { beg(G); for (int j = 0; j < batch && i < v.size(); j++, i++) draw(G.surf(), v[i]); fin(G); }
    c.evals(2); std::string w2;
    if (!same_pixels(F, G, &w2)) { c.viol("queued-vs-immediate", "%d dabs (%s) in one transaction and in batches of %d differ: %s", m, wide ? "over many tiles" : "on few tiles", batch, w2.c_str()); return; }
    c.count(wide ? "wide_transactions" : "long_queues"); c.count(wide ? "tiles" : "dabs", wide ? g1.size() : m);
  }
  c.sig(mixh(A.hash(), n));
  if (c.idx % 53 == 2) c.sample("%d dabs and %zu samples on %zu tiles: one transaction = %d transactions = %zu random transactions, %zu samples saw queued dabs", drawn, sb.size(), got.size(), drawn, ntrans, mid);
}
VP_MAIN("P09", one)
