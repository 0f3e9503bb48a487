// Instrumented surfaces and generators on top of libmypaint's public API.
#pragma once
#include "vp.hpp"
extern "C" {
#include "mypaint-config.h"
#include "mypaint-brush.h"
#include "mypaint-brush-settings.h"
#include "mypaint-surface.h"
#include "mypaint-tiled-surface.h"
#include "mypaint-fixed-tiled-surface.h"
#include "mypaint-mapping.h"
}
#include <memory>
#include <cfloat>
namespace vp {

enum { TS = MYPAINT_TILE_SIZE, TILE_U16 = TS * TS * 4 };
static const int ONE15 = 1 << 15;

struct Dab {
  float x = 0, y = 0, radius = 5, r = 0, g = 0, b = 0, opaque = 1, hardness = 0.8f, softness = 0, alpha = 1, ratio = 1, angle = 0,
        lock = 0, colorize = 0, posterize = 0, num = 0.05f, paint = 0;
  std::string str() const {
    return fmt("dab(x=%.9g,y=%.9g,r=%.9g,rgb=%.9g/%.9g/%.9g,opa=%.9g,hard=%.9g,soft=%.9g,a=%.9g,ratio=%.9g,ang=%.9g,lock=%.9g,col=%.9g,post=%.9g,num=%.9g,paint=%.9g)",
               x, y, radius, r, g, b, opaque, hardness, softness, alpha, ratio, angle, lock, colorize, posterize, num, paint);
  }
  bool finite() const {
    const float *p = &x;
    for (int i = 0; i < 17; i++) if (!std::isfinite(p[i])) return false;
    return true;
  }
};
inline int draw(MyPaintSurface *s, const Dab &d) {
  return mypaint_surface_draw_dab(s, d.x, d.y, d.radius, d.r, d.g, d.b, d.opaque, d.hardness, d.softness, d.alpha, d.ratio, d.angle,
                                  d.lock, d.colorize, d.posterize, d.num, d.paint);
}

inline uint64_t tkey(int tx, int ty) { return ((uint64_t)(uint32_t)tx << 32) | (uint32_t)ty; }
inline int fdiv(int a, int b) { int q = a / b; return (a % b && (a < 0) != (b < 0)) ? q - 1 : q; }

// An unbounded tile store that records every tile transaction.
struct Store {
  MyPaintTiledSurface base;   // must be first
  struct Tile { uint16_t *px; int open = 0; };
  std::unordered_map<uint64_t, Tile> tiles;
  std::function<void(uint16_t *, int, int)> fill;    // initial content; default transparent
  struct Ev { int tx, ty; bool ro, start; };
  std::vector<Ev> log; bool logging = true;
  std::string err;                                   // first protocol error seen
  size_t max_tiles = 6000;
  std::mutex mu;
  uint64_t n_req = 0, n_wr = 0;
  std::function<void()> perturb;

  static void s_start(MyPaintTiledSurface *t, MyPaintTileRequest *r) { ((Store *)t)->start(r); }
  static void s_end(MyPaintTiledSurface *t, MyPaintTileRequest *r) { ((Store *)t)->end(r); }
  static void s_destroy(MyPaintSurface *t) { Store *s = (Store *)t; mypaint_tiled_surface_destroy(&s->base); s->destroyed = true; }
  bool destroyed = false;
  Store() {
    memset((void *)&base, 0xA5, sizeof base);        // the library must not rely on our zeroing
    mypaint_tiled_surface_init(&base, s_start, s_end);
    base.parent.destroy = s_destroy;
  }
  ~Store() {
    if (!destroyed) mypaint_surface_unref(surf());
    for (auto &k : tiles) free(k.second.px);
  }
  MyPaintSurface *surf() { return &base.parent; }
  uint16_t *tile(int tx, int ty) {
    auto it = tiles.find(tkey(tx, ty));
    if (it == tiles.end()) {
      if (tiles.size() >= max_tiles) harness_error("tile store exceeded %zu tiles (at %d,%d)", max_tiles, tx, ty);
      Tile t; t.px = (uint16_t *)malloc(TILE_U16 * 2);
      if (!t.px) harness_error("oom");
      memset(t.px, 0, TILE_U16 * 2);
      if (fill) fill(t.px, tx, ty);
      it = tiles.emplace(tkey(tx, ty), t).first;
    }
    return it->second.px;
  }
  const uint16_t *peek(int tx, int ty) { auto it = tiles.find(tkey(tx, ty)); return it == tiles.end() ? nullptr : it->second.px; }
  void start(MyPaintTileRequest *r) {
    if (perturb) perturb();
    std::lock_guard<std::mutex> l(mu);
    if (logging) log.push_back({r->tx, r->ty, (bool)r->readonly, true});
    n_req++; if (!r->readonly) n_wr++;
    if (progress()) progress()->beats = progress()->beats + 1;
    r->buffer = tile(r->tx, r->ty);
    Tile &t = tiles[tkey(r->tx, r->ty)];
    if (t.open && err.empty()) err = fmt("tile %d,%d requested while already handed out", r->tx, r->ty);
    if (r->mipmap_level != 0 && err.empty()) err = fmt("tile %d,%d requested at mipmap level %d", r->tx, r->ty, r->mipmap_level);
    t.open++;
  }
  void end(MyPaintTileRequest *r) {
    std::lock_guard<std::mutex> l(mu);
    if (logging) log.push_back({r->tx, r->ty, (bool)r->readonly, false});
    auto it = tiles.find(tkey(r->tx, r->ty));
    if (it == tiles.end() || it->second.open == 0) { if (err.empty()) err = fmt("tile %d,%d released but not handed out", r->tx, r->ty); return; }
    if (it->second.px != r->buffer && err.empty()) err = fmt("tile %d,%d released with another buffer", r->tx, r->ty);
    it->second.open--;
  }
  void check_idle(Case &c, const char *when) {
    for (auto &k : tiles) if (k.second.open && err.empty()) err = fmt("tile %d,%d never released", (int)(uint32_t)(k.first >> 32), (int)(uint32_t)k.first);
    if (!err.empty()) { c.viol("tile-protocol", "%s: %s", when, err.c_str()); err.clear(); }
  }
  typedef std::unordered_map<uint64_t, std::vector<uint16_t>> Snap;
  Snap snap() {
    Snap s;
    for (auto &k : tiles) s[k.first].assign(k.second.px, k.second.px + TILE_U16);
    return s;
  }
  void get(int x, int y, uint16_t out[4]) {
    int tx = fdiv(x, TS), ty = fdiv(y, TS);
    const uint16_t *p = tile(tx, ty);
    memcpy(out, p + ((y - ty * TS) * TS + (x - tx * TS)) * 4, 8);
  }
  void set(int x, int y, const uint16_t in[4]) {
    int tx = fdiv(x, TS), ty = fdiv(y, TS);
    memcpy(tile(tx, ty) + ((y - ty * TS) * TS + (x - tx * TS)) * 4, in, 8);
  }
  // hash of all pixels; tiles still blank do not count
  uint64_t hash() {
    uint64_t h = 0; static const uint16_t z[TILE_U16] = {};
    for (auto &k : tiles) if (fill || memcmp(k.second.px, z, TILE_U16 * 2)) h += mixh(k.first, fnv(k.second.px, TILE_U16 * 2));
    return h;
  }
};
// number of pixels that differ from the snapshot (tiles created since then are compared with their initial content)
inline uint64_t changed_since(Store &s, const Store::Snap &sn) {
  uint64_t n = 0; std::vector<uint16_t> z(TILE_U16);
  for (auto &k : s.tiles) {
    auto it = sn.find(k.first); const uint16_t *q;
    if (it != sn.end()) q = it->second.data();
    else { std::fill(z.begin(), z.end(), 0); if (s.fill) s.fill(z.data(), (int)(uint32_t)(k.first >> 32), (int)(uint32_t)k.first); q = z.data(); }
    if (memcmp(q, k.second.px, TILE_U16 * 2)) for (int i = 0; i < TS * TS; i++) if (memcmp(q + 4 * i, k.second.px + 4 * i, 8)) n++;
  }
  return n;
}
// pixels of a and b that differ anywhere (tiles only one of them touched count as initial content)
inline bool same_pixels(Store &a, Store &b, std::string *why) {
  std::set<uint64_t> keys;
  for (auto &k : a.tiles) keys.insert(k.first);
  for (auto &k : b.tiles) keys.insert(k.first);
  for (uint64_t k : keys) {
    int tx = (int)(uint32_t)(k >> 32), ty = (int)(uint32_t)k;
    const uint16_t *p = a.tile(tx, ty), *q = b.tile(tx, ty);
    if (memcmp(p, q, TILE_U16 * 2))
      for (int i = 0; i < TS * TS; i++)
        if (memcmp(p + 4 * i, q + 4 * i, 8)) {
          if (why) *why = fmt("pixel (%d,%d): %d %d %d %d vs %d %d %d %d", tx * TS + i % TS, ty * TS + i / TS, p[4 * i], p[4 * i + 1],
                              p[4 * i + 2], p[4 * i + 3], q[4 * i], q[4 * i + 1], q[4 * i + 2], q[4 * i + 3]);
          return false;
        }
  }
  return true;
}

// Content generators (premultiplied, valid pixels)
inline void px_random(Rng &r, uint16_t p[4]) {
  uint32_t a;
  switch (r.below(8)) {
    case 0: a = 0; break;
    case 1: a = ONE15; break;
    case 2: a = 1 + r.below(4); break;
    case 3: a = ONE15 - r.below(4); break;
    default: a = r.below(ONE15 + 1);
  }
  p[3] = (uint16_t)a;
  for (int i = 0; i < 3; i++) {
    switch (r.below(6)) {
      case 0: p[i] = 0; break;
      case 1: p[i] = (uint16_t)a; break;
      case 2: p[i] = (uint16_t)(a ? a - 1 : 0); break;
      default: p[i] = (uint16_t)r.below(a + 1);
    }
  }
}
inline std::function<void(uint16_t *, int, int)> fill_noise(uint64_t seed, bool valid_only_opaque = false) {
  return [=](uint16_t *t, int tx, int ty) {
    Rng r(mixh(seed, tkey(tx, ty)));
    for (int i = 0; i < TS * TS; i++) {
      px_random(r, t + 4 * i);
      if (valid_only_opaque) t[4 * i + 3] = ONE15;
    }
  };
}
inline std::function<void(uint16_t *, int, int)> fill_uniform(int r, int g, int b, int a) {
  return [=](uint16_t *t, int, int) {
    for (int i = 0; i < TS * TS; i++) { t[4 * i] = r; t[4 * i + 1] = g; t[4 * i + 2] = b; t[4 * i + 3] = a; }
  };
}

// Records the dabs and samples a brush asks for.
struct Mock {
  MyPaintSurface base;   // must be first
  std::vector<Dab> dabs;
  struct Sample { float x, y, radius, paint; float out[4]; };
  std::vector<Sample> samples;
  std::function<int(const Dab &)> on_dab;                       // return value of draw_dab
  std::function<void(float, float, float, float, float *)> on_color;  // x,y,radius,paint -> rgba
  float canvas[4] = {0, 0, 0, 0};
  size_t limit = 3000000; bool keep = true; uint64_t ndabs = 0, ncolor = 0; bool overflow = false;
  static int s_draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float o, float h, float so, float a,
                    float ra, float an, float l, float c, float p, float n, float pa) {
    Mock *m = (Mock *)s;
    Dab d; d.x = x; d.y = y; d.radius = radius; d.r = r; d.g = g; d.b = b; d.opaque = o; d.hardness = h; d.softness = so; d.alpha = a;
    d.ratio = ra; d.angle = an; d.lock = l; d.colorize = c; d.posterize = p; d.num = n; d.paint = pa;
    m->ndabs++;
    if (!(m->ndabs & 1023) && m->ndabs < m->limit && progress())  /* an event that never ends shows no progress */ progress()->beats = progress()->beats + 1;
    if (m->keep) m->dabs.push_back(d);
    if (m->on_dab) return m->on_dab(d);
    return 1;
  }
  static void s_color(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *a, float paint) {
    Mock *m = (Mock *)s;
    Sample q; q.x = x; q.y = y; q.radius = radius; q.paint = paint;
    memcpy(q.out, m->canvas, sizeof q.out);
    if (m->on_color) m->on_color(x, y, radius, paint, q.out);
    *r = q.out[0]; *g = q.out[1]; *b = q.out[2]; *a = q.out[3];
    m->ncolor++;
    if (m->keep) m->samples.push_back(q);
  }
  static void s_begin(MyPaintSurface *) {}
  static void s_end(MyPaintSurface *, MyPaintRectangles *) {}
  static void s_destroy(MyPaintSurface *) {}
  Mock() {
    memset((void *)&base, 0, sizeof base);
    mypaint_surface_init(&base);
    base.draw_dab = s_draw; base.get_color = s_color; base.begin_atomic = s_begin; base.end_atomic = s_end; base.destroy = s_destroy;
  }
  MyPaintSurface *surf() { return &base; }
};

struct Brush {
  MyPaintBrush *b;
  explicit Brush(int buckets = 0, bool defaults = true) {
    b = buckets > 0 ? mypaint_brush_new_with_buckets(buckets) : mypaint_brush_new();
    if (!b) harness_error("no brush");
    if (defaults) mypaint_brush_from_defaults(b);
  }
  ~Brush() { if (b) mypaint_brush_unref(b); }
  Brush(const Brush &) = delete;
  void set(int id, float v) { mypaint_brush_set_base_value(b, (MyPaintBrushSetting)id, v); }
  float get(int id) { return mypaint_brush_get_base_value(b, (MyPaintBrushSetting)id); }
  void nomap(int id) { for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)i, 0); }
  void map(int id, int in, const std::vector<std::pair<float, float>> &pts) {
    mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)in, (int)pts.size());
    for (size_t i = 0; i < pts.size(); i++) mypaint_brush_set_mapping_point(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)in, (int)i, pts[i].first, pts[i].second);
  }
  float state(int i) { return mypaint_brush_get_state(b, (MyPaintBrushState)i); }
  void setstate(int i, float v) { mypaint_brush_set_state(b, (MyPaintBrushState)i, v); }
  // everything constant, one plain dab per unit of spacing: a base for the step models
  void plain() {
    mypaint_brush_from_defaults(b);
    for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) nomap(s);
    set(MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, 1); set(MYPAINT_BRUSH_SETTING_PAINT_MODE, 0);
    set(MYPAINT_BRUSH_SETTING_OPAQUE_LINEARIZE, 0); set(MYPAINT_BRUSH_SETTING_ANTI_ALIASING, 0);
  }
};
#define S_(n) MYPAINT_BRUSH_SETTING_##n
#define I_(n) MYPAINT_BRUSH_INPUT_##n
#define ST_(n) MYPAINT_BRUSH_STATE_##n

struct Event { float x, y, p, xt, yt; double dt; float zoom, rot, barrel; bool linear; };
inline int stroke(MyPaintBrush *b, MyPaintSurface *s, const Event &e) {
  return mypaint_brush_stroke_to(b, s, e.x, e.y, e.p, e.xt, e.yt, e.dt, e.zoom, e.rot, e.barrel, e.linear);
}
inline std::string evstr(const Event &e) {
  return fmt("ev(x=%.9g,y=%.9g,p=%.9g,xt=%.9g,yt=%.9g,dt=%.17g,zoom=%.9g,rot=%.9g,barrel=%.9g,lin=%d)", e.x, e.y, e.p, e.xt, e.yt, e.dt,
             e.zoom, e.rot, e.barrel, e.linear);
}
inline Event ev(float x, float y, float p, double dt) { return Event{x, y, p, 0, 0, dt, 1, 0, 0, false}; }

// Random brush within the published ranges. cost: rough cap on dab density and radius so that runs stay bounded.
struct BrushGen {
  double map_prob = 0.12, change_prob = 0.35;
  float rad_lo = -1.0f, rad_hi = 3.2f;    // log radius
  float density_hi = 6;
  bool noise = true;
  bool extremes = false;                   // also take values at the ends of the ranges
};
inline std::string gen_brush(Rng &r, Brush &br, const BrushGen &g) {
  std::string d;
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) {
    const MyPaintBrushSettingInfo *in = mypaint_brush_setting_info((MyPaintBrushSetting)s);
    float v = in->def;
    if (r.chance(g.change_prob)) {
      if (g.extremes && r.chance(0.25)) v = r.chance(0.5) ? in->min : in->max;
      else v = (float)r.range(in->min, in->max);
    }
    float lo = in->min, hi = in->max;
    if (s == S_(RADIUS_LOGARITHMIC)) { lo = g.rad_lo; hi = g.rad_hi; v = (float)r.range(lo, hi); }
    if (s == S_(DABS_PER_ACTUAL_RADIUS) || s == S_(DABS_PER_BASIC_RADIUS)) { hi = g.density_hi; v = (float)r.range(0, hi); }
    if (s == S_(DABS_PER_SECOND)) { hi = 20; v = r.chance(0.3) ? (float)r.range(0, hi) : 0; }
    if (s == S_(OFFSET_MULTIPLIER)) { hi = 1; if (v > hi) v = hi; }
    if (!g.noise && (s == S_(RADIUS_BY_RANDOM) || s == S_(OFFSET_BY_RANDOM) || s == S_(TRACKING_NOISE))) v = 0;
    if (s == S_(OPAQUE_MULTIPLY) && r.chance(0.7)) v = 1;
    if (s == S_(SMUDGE) && r.chance(0.6)) v = 0;
    if (s == S_(HARDNESS) || s == S_(OPAQUE)) if (v < 0.05f && !g.extremes) v = 0.5f;
    // big offsets only now and then
    if (s >= S_(OFFSET_Y) && s <= S_(OFFSET_ANGLE_2_VIEW) && v != in->def && r.chance(0.7)) v *= 0.05f;
    br.set(s, v);
    if (v != in->def) d += fmt("%s=%.9g;", in->cname, v);
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(br.b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 0);
    if (!g.noise && (s == S_(RADIUS_BY_RANDOM) || s == S_(OFFSET_BY_RANDOM))) continue;
    if (!in->constant && r.chance(g.map_prob)) {
      int n_in = 1 + (r.chance(0.3) ? 1 : 0);
      for (int k = 0; k < n_in; k++) {
        int i = (int)r.below(MYPAINT_BRUSH_INPUTS_COUNT);
        if (!g.noise && i == I_(RANDOM)) continue;
        const MyPaintBrushInputInfo *ii = mypaint_brush_input_info((MyPaintBrushInput)i);
        int n = r.chance(0.6) ? 2 : r.irange(2, g.extremes ? 64 : 8);
        std::vector<float> xs;
        for (int q = 0; q < n; q++) xs.push_back((float)r.range(ii->soft_min, ii->soft_max));
        std::sort(xs.begin(), xs.end());
        std::vector<std::pair<float, float>> pts;
        float amp = (float)((hi - lo) * (r.chance(0.8) ? 0.2 : 0.5));
        if (s == S_(RADIUS_LOGARITHMIC)) amp = 0.7f;
        if (s == S_(DABS_PER_ACTUAL_RADIUS) || s == S_(DABS_PER_BASIC_RADIUS)) amp = 1.0f;
        for (int q = 0; q < n; q++) {
          float y = (float)r.range(-amp, amp);
          // keep extrapolation tame: identical last/first two y values half of the time
          pts.push_back({xs[q], y});
        }
        if (s == S_(RADIUS_LOGARITHMIC) || s == S_(DABS_PER_ACTUAL_RADIUS) || s == S_(DABS_PER_BASIC_RADIUS) || s == S_(OFFSET_MULTIPLIER) || r.chance(0.5)) {
          // flat outer segments bound the extrapolated value
          pts.insert(pts.begin(), {pts.front().first - 1, pts.front().second});
          pts.push_back({pts.back().first + 1, pts.back().second});
          while (pts.size() > 64) pts.erase(pts.begin() + 2);
        }
        br.map(s, i, pts);
        d += fmt("%s<-%s[%zu];", in->cname, ii->cname, pts.size());
      }
    }
  }
  return d;
}
// Random walk of motion events
struct Walk {
  float x, y, p = 0.5f, xt = 0, yt = 0, zoom = 1, rot = 0, barrel = 0; float ext = 200; bool tilt, view;
  explicit Walk(Rng &r, float ext_ = 200) : ext(ext_) {
    x = (float)r.range(-ext, ext); y = (float)r.range(-ext, ext); tilt = r.chance(0.6); view = r.chance(0.4);
  }
  Event next(Rng &r, bool linear = false) {
    double step = r.chance(0.1) ? 0 : r.logrange(0.05, 40);
    double a = r.range(0, 2 * M_PI);
    if (r.chance(0.05)) { x = (float)r.range(-ext, ext); y = (float)r.range(-ext, ext); }
    else { x += (float)(step * cos(a)); y += (float)(step * sin(a)); }
    x = std::min(std::max(x, -2 * ext), 2 * ext); y = std::min(std::max(y, -2 * ext), 2 * ext);
    p = r.chance(0.1) ? 0.f : r.chance(0.1) ? 1.f : (float)std::min(1.0, std::max(0.0, p + r.range(-0.2, 0.2)));
    if (tilt) { xt = (float)r.range(-1, 1); yt = (float)r.range(-1, 1); if (r.chance(0.05)) xt = yt = 0; barrel = (float)r.range(0, 1); }
    if (view && r.chance(0.1)) { zoom = r.chance(0.15) ? (float)r.logrange(0.005, 200) : (float)r.logrange(0.1, 16); rot = (float)r.range(-2 * M_PI, 2 * M_PI); }
    double dt = r.chance(0.05) ? 0 : r.chance(0.03) ? r.range(0.1, 6) : r.logrange(0.0005, 0.05);
    return Event{x, y, p, xt, yt, dt, zoom, rot, barrel, linear};
  }
};
// Random dab; ext: position range, rmax: radius limit
inline Dab gen_dab(Rng &r, double ext, double rmax, bool hostile = false) {
  Dab d;
  d.x = (float)r.range(-ext, ext); d.y = (float)r.range(-ext, ext);
  if (r.chance(0.2)) { d.x = (float)(64 * r.irange(-3, 3)) + (float)r.pick({0, 0.5, -0.5, 1e-4, -1e-4}); }
  if (r.chance(0.2)) { d.y = (float)(64 * r.irange(-3, 3)) + (float)r.pick({0, 0.5, -0.5, 1e-4, -1e-4}); }
  d.radius = (float)r.logrange(0.1, rmax);
  auto unit = [&]() -> float { return r.chance(0.25) ? (r.chance(0.5) ? 0.f : 1.f) : (float)r.uni(); };
  d.r = unit(); d.g = unit(); d.b = unit();
  d.opaque = r.chance(0.3) ? 1.f : (float)r.uni();
  d.hardness = r.chance(0.3) ? 1.f : (float)r.range(0.01, 1);
  d.softness = r.chance(0.6) ? 0.f : (float)r.range(0, 0.99);
  d.alpha = r.chance(0.5) ? 1.f : unit();
  d.ratio = r.chance(0.5) ? 1.f : (float)r.range(1, 10);
  d.angle = (float)r.range(-360, 360);
  d.lock = r.chance(0.7) ? 0.f : unit(); d.colorize = r.chance(0.75) ? 0.f : unit(); d.posterize = r.chance(0.75) ? 0.f : unit();
  d.num = (float)r.range(0.01, 1.28); if (d.num < 0.12f) d.num = 0.01f + (d.num - 0.01f) * 0.2f;
  d.paint = r.chance(0.5) ? 0.f : unit();
  if (hostile) {
    float *p = &d.r;
    for (int i = 0; i < 14; i++) if (r.chance(0.15)) p[i] = (float)r.pick({-1, 2, 1e30, -1e30, 1e-30, -0.0, 65536, 0.1, 1e9});
  }
  return d;
}
}  // namespace vp
