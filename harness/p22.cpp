// P22: the GEGL surface paints the same pixels as a plain tiled surface, whatever buffer backs it.
#include "lib.hpp"
extern "C" {
#include "mypaint-gegl-surface.h"
#include <gegl.h>
extern "C" GType mypaint_gegl_tiled_surface_get_type(void);
}
using namespace vp;
#ifdef VP_OMP
extern "C" { extern int shim_threads, shim_delays; extern uint64_t shim_seed, shim_parallel_regions; }
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/lsan_interface.h>
static void lsan(bool on) { if (on) __lsan_enable(); else __lsan_disable(); }      // what GEGL's modules allocate when loaded is not ours
#else
static void lsan(bool) {}
#endif
static const Babl *fmt15() { return babl_format_new(babl_model("R'aG'aB'aA"), babl_type("u15"), babl_component("R'a"), babl_component("G'a"), babl_component("B'a"), babl_component("A"), NULL); }
static void get_tile(GeglBuffer *b, int tx, int ty, uint16_t *out) { GeglRectangle q = {tx * TS, ty * TS, TS, TS}; memset(out, 0xEE, TILE_U16 * 2); gegl_buffer_get(b, &q, 1.0, fmt15(), out, GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE); }
// a buffer and what it has to contain
struct Buf { GeglBuffer *g = nullptr; int kind = 0; int tol = 0; std::unique_ptr<Store> ref; GeglRectangle ext{0, 0, 0, 0}; };
static int floatfmt(Rng &r) { return (int)r.below(2); }
static Buf make(Rng &r, int kind) {       // 0: native, 1: other tile size, 2: float, same model
  Buf b; b.kind = kind; b.ref.reset(new Store()); b.ref->logging = false;
  int tw = kind == 1 ? r.irange(1, 5) * 32 + (r.chance(0.3) ? 7 : 0) : 64, th = kind == 1 ? r.irange(1, 3) * 48 : 64; if (kind == 1 && r.chance(0.4)) (r.chance(0.5) ? tw : th) = 64; if (tw == 64 && th == 64 && kind == 1) tw = 128;
  b.ext = {r.irange(-300, 200), r.irange(-300, 200), r.irange(1, 300), r.irange(1, 300)}; if (r.chance(0.2)) b.ext = {r.irange(-4, 3) * TS, r.irange(-4, 3) * TS, r.irange(1, 4) * TS, r.irange(1, 4) * TS}; if (r.chance(0.1)) b.ext = {0, 0, 0, 0};
  const Babl *f = kind == 2 ? (floatfmt(r) ? babl_format("R'aG'aB'aA float") : babl_format("R'aG'aB'aA double")) : fmt15(); b.tol = kind == 2 ? 1 : 0;
  b.g = GEGL_BUFFER(g_object_new(GEGL_TYPE_BUFFER, "x", b.ext.x, "y", b.ext.y, "width", b.ext.width, "height", b.ext.height, "format", f, "tile-width", tw, "tile-height", th, "shift-x", kind == 3 ? r.irange(-70, 70) : 0, "shift-y", kind == 3 ? r.irange(-70, 70) : 0, NULL));
  if (r.chance(0.8) && b.ext.width) {     // some content, also reaching the very edge
    GeglRectangle q = b.ext; if (r.chance(0.5)) { q.x += (int)r.below((uint32_t)q.width); q.y += (int)r.below((uint32_t)q.height); q.width = r.irange(1, b.ext.x + b.ext.width - q.x); q.height = r.irange(1, b.ext.y + b.ext.height - q.y); }
    std::vector<uint16_t> px((size_t)q.width * q.height * 4); for (size_t i = 0; i < px.size(); i += 4) px_random(r, &px[i]);
    gegl_buffer_set(b.g, &q, 0, fmt15(), px.data(), GEGL_AUTO_ROWSTRIDE);
    if (kind == 2 && r.chance(0.6)) {     // values the surface's own format cannot hold
      std::vector<float> pf(px.size()); for (size_t i = 0; i < px.size(); i++) pf[i] = px[i] / 32768.f; for (size_t i = 0; i < px.size(); i += 4) { float k = 1 - (float)r.range(0, 1e-5); for (int j = 0; j < 4; j++) pf[i + j] *= k; }
      gegl_buffer_set(b.g, &q, 0, babl_format("R'aG'aB'aA float"), pf.data(), GEGL_AUTO_ROWSTRIDE);
    }
  }
  GeglBuffer *g = b.g; std::map<uint64_t, std::vector<uint16_t>> *init = new std::map<uint64_t, std::vector<uint16_t>>();
  if (b.ext.width) for (int ty = fdiv(b.ext.y, TS); ty <= fdiv(b.ext.y + b.ext.height - 1, TS); ty++) for (int tx = fdiv(b.ext.x, TS); tx <= fdiv(b.ext.x + b.ext.width - 1, TS); tx++) { auto &v = (*init)[tkey(tx, ty)]; v.resize(TILE_U16); get_tile(g, tx, ty, v.data()); }
  std::shared_ptr<std::map<uint64_t, std::vector<uint16_t>>> keep(init); b.ref->fill = [keep](uint16_t *t, int tx, int ty) { auto it = keep->find(tkey(tx, ty)); if (it != keep->end()) memcpy(t, it->second.data(), TILE_U16 * 2); };
  for (auto &k : *init) b.ref->tile((int)(uint32_t)(k.first >> 32), (int)(uint32_t)k.first);     // existing content is compared as well
  return b;
}
// every value of the buffer's own format, and its extent
static uint64_t own_hash(GeglBuffer *g) {
  GeglRectangle e = *gegl_buffer_get_extent(g); const Babl *f = gegl_buffer_get_format(g); uint64_t h = fnv(&e, sizeof e); size_t n = (size_t)e.width * e.height * babl_format_get_bytes_per_pixel(f); if (!n) return h;
  std::vector<char> px(n); gegl_buffer_get(g, &e, 1.0, f, px.data(), GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE); return fnv(px.data(), n, h);
}
static bool compare(Case &c, const Buf &b, GeglBuffer *g, const char *when, uint64_t *h) {
  std::vector<uint16_t> px(TILE_U16);
  // the tiles of the reference and a ring around them
  std::set<uint64_t> keys; for (auto &k : b.ref->tiles) for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) keys.insert(tkey((int)(uint32_t)(k.first >> 32) + dx, (int)(uint32_t)k.first + dy));
  for (uint64_t k : keys) {
    int tx = (int)(uint32_t)(k >> 32), ty = (int)(uint32_t)k; get_tile(g, tx, ty, px.data()); const uint16_t *q = b.ref->tile(tx, ty);
    for (int i = 0; i < TILE_U16; i++) if (abs(px[i] - q[i]) > b.tol) { c.viol("pixels", "%s: pixel (%d,%d) channel %d is %d in the GEGL buffer (kind %d), %d on the plain surface", when, tx * TS + i / 4 % TS, ty * TS + i / 4 / TS, i % 4, px[i], b.kind, q[i]); return false; }
    if (h) *h = mixh(*h, fnv(px.data(), TILE_U16 * 2));
    if (progress()) progress()->beats = progress()->beats + 1;
  }
  c.count("tiles_compared", keys.size()); return true;
}
// a picture saved of the surface shows what the buffer holds
static void saved(Case &c, MyPaintSurface *sf, GeglBuffer *g) {
  GeglRectangle e = *gegl_buffer_get_extent(g); if (e.width < 1 || e.height < 1 || (long)e.width * e.height > 400000) return;
  char dir[] = "/tmp/vp-p22-XXXXXX"; if (!mkdtemp(dir)) harness_error("no scratch directory"); std::string f = std::string(dir) + "/picture.png"; lsan(false);
  uint64_t before = own_hash(g); mypaint_surface_save_png(sf, f.c_str(), e.x, e.y, e.width, e.height); bool same = own_hash(g) == before;
  GeglNode *graph = gegl_node_new(); GeglBuffer *back = nullptr; bool there = access(f.c_str(), R_OK) == 0;
  if (there) { GeglNode *load = gegl_node_new_child(graph, "operation", "gegl:png-load", "path", f.c_str(), nullptr), *sink = gegl_node_new_child(graph, "operation", "gegl:buffer-sink", "buffer", &back, nullptr); gegl_node_link(load, sink); gegl_node_process(sink); }
  GeglRectangle b = {0, 0, 0, 0}; std::vector<uint16_t> want((size_t)e.width * e.height * 4), got = want; GeglRectangle whole = {0, 0, e.width, e.height};
  if (back) { b = *gegl_buffer_get_extent(back); gegl_buffer_get(back, &whole, 1, fmt15(), got.data(), GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE); }
  gegl_buffer_get(g, &e, 1, fmt15(), want.data(), GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE);
  if (back) g_object_unref(back); g_object_unref(graph); unlink(f.c_str()); rmdir(dir); lsan(true);
  if (!same) { c.viol("picture", "saving a picture changed the buffer"); return; } if (!there || !b.width) { c.viol("picture", "no picture was saved"); return; }
  if (b.x || b.y || b.width != e.width || b.height != e.height) { c.viol("picture", "the picture saved is %d,%d %dx%d large, the buffer %dx%d", b.x, b.y, b.width, b.height, e.width, e.height); return; }
  for (size_t i = 0; i < want.size(); i++) if (abs((int)want[i] - (int)got[i]) > 3) { c.viol("picture", "pixel %zu of the picture saved has %d in component %zu, the buffer %d", i / 4, got[i], i % 4, want[i]); return; }
  c.count("pictures");
}
static void one_(Case &c);
static int alive; static void died(gpointer, GObject *) { alive--; }
static void watch(GeglBuffer *g) { alive++; g_object_weak_ref(G_OBJECT(g), died, nullptr); }
static void one(Case &c) { alive = 0; one_(c); if (!c.bad() && alive) c.viol("buffer-leak", "%d buffers live on after the surface and every other owner let go of them", alive); }
static void one_(Case &c) {
  static bool up = false; if (!up) { up = true; lsan(false); gegl_init(nullptr, nullptr); lsan(true); }
  Rng &r = c.rng; MyPaintGeglTiledSurface *gs = mypaint_gegl_tiled_surface_new(); if (!gs) { c.viol("create", "no surface"); return; }
  MyPaintSurface *sf = mypaint_gegl_tiled_surface_interface(gs); std::vector<Buf> bufs;
  int held = 0; GType box = mypaint_gegl_tiled_surface_get_type();
  struct Free { MyPaintSurface *s; std::vector<Buf> *b; int *held; GType box; ~Free() { while (*held) { g_boxed_free(box, s); --*held; } mypaint_surface_unref(s); for (Buf &x : *b) if (x.g) g_object_unref(x.g); } } fr{sf, &bufs, &held, box};
  int cur = 0; { Buf b; b.ref.reset(new Store()); b.ref->logging = false; b.g = mypaint_gegl_tiled_surface_get_buffer(gs); g_object_ref(b.g); watch(b.g); bufs.push_back(std::move(b)); }
  // one symmetry state for all: every reference surface gets the same one
  struct Sym { int on, type, lines; float x, y, a; } sym{0, 0, 2, 0, 0, 0}; auto setsym = [&](MyPaintTiledSurface *t) { mypaint_tiled_surface_set_symmetry_state(t, sym.on, sym.x, sym.y, sym.a, (MyPaintSymmetryType)sym.type, sym.lines); };
#ifdef VP_OMP
  shim_threads = r.irange(2, 8); shim_delays = (int)r.below(3); shim_seed = r.u64(); uint64_t pr = shim_parallel_regions;
#endif
  int nt = r.irange(1, 5), total = 0; double ext = r.pick({60, 200, 400}); uint64_t h = 0; bool nonnative_only_tol0 = true; (void)nonnative_only_tol0;
  for (int t = 0; t < nt; t++) {
    if (r.chance(0.45)) {
      int act = (int)r.below(3);
      if (act == 0 || bufs.size() > 3) { cur = (int)r.below((uint32_t)bufs.size()); mypaint_gegl_tiled_surface_set_buffer(gs, bufs[cur].g); c.desc("buffer %d again", cur); }
      else if (act == 1) { mypaint_gegl_tiled_surface_set_buffer(gs, nullptr); Buf b; b.ref.reset(new Store()); b.ref->logging = false; b.g = mypaint_gegl_tiled_surface_get_buffer(gs); if (!b.g) { c.viol("buffer", "no buffer"); return; } g_object_ref(b.g); watch(b.g); for (Buf &x : bufs) if (x.g == b.g) { c.viol("buffer", "a fresh buffer was asked for and an old one handed out"); return; }
        bufs.push_back(std::move(b)); cur = (int)bufs.size() - 1; setsym(&bufs[cur].ref->base); c.desc("fresh buffer"); c.count("fresh_buffers"); }
      else { bufs.push_back(make(r, (int)r.below(4))); watch(bufs.back().g); cur = (int)bufs.size() - 1; setsym(&bufs[cur].ref->base); mypaint_gegl_tiled_surface_set_buffer(gs, bufs[cur].g); GeglRectangle e = bufs[cur].ext; c.desc("new buffer kind %d, extent %d %d %d %d", bufs[cur].kind, e.x, e.y, e.width, e.height); c.count(bufs[cur].kind == 0 ? "replaced_native" : bufs[cur].kind == 1 ? "replaced_tiling" : bufs[cur].kind == 2 ? "replaced_float" : "replaced_shifted"); }
      if (mypaint_gegl_tiled_surface_get_buffer(gs) != bufs[cur].g) { c.viol("buffer", "the buffer handed back is not the one set"); return; }
    }
    // further references come and go, taken the way language bindings take them; none of it shows
    if (r.chance(0.3)) { void *q = g_boxed_copy(box, gs); if (q != gs) { c.viol("boxed-copy", "a boxed copy of the surface %p is %p", (void *)gs, q); return; } held++; c.count("boxed_copies"); }
    if (held && r.chance(0.4)) { g_boxed_free(box, gs); held--; }
    Buf &b = bufs[cur]; MyPaintSurface *rs = b.ref->surf();
    if (r.chance(0.3)) { sym.on = r.chance(0.6); sym.type = (int)r.below(5); sym.lines = r.irange(2, 5); sym.x = (float)r.range(-80, 80); sym.y = (float)r.range(-80, 80); sym.a = (float)r.range(0, 360); setsym((MyPaintTiledSurface *)gs); for (Buf &x : bufs) setsym(&x.ref->base); c.desc("symmetry %d type %d lines %d", sym.on, sym.type, sym.lines); if (sym.on) c.count("symmetry"); }
    if (r.chance(0.4)) {    // sampling with nothing queued leaves the buffer alone
      uint64_t before = own_hash(b.g); for (int i = r.irange(1, 3); i > 0; i--) { float p[4]; mypaint_surface_get_color(sf, (float)r.range(-ext, ext), (float)r.range(-ext, ext), (float)r.logrange(0.5, 90), p, p + 1, p + 2, p + 3, (float)r.pick({-1, 0, 1})); }
      if (own_hash(b.g) != before) { c.viol("sample-writes", "sampling changed a buffer of kind %d", b.kind); return; } c.count("sampling_only");
    }
    mypaint_surface_begin_atomic(sf); mypaint_surface_begin_atomic(rs); int n = r.irange(0, 12); if (n) total++;
    for (int i = 0; i < n; i++) {
      if (r.chance(0.2)) {
        float x = (float)r.range(-ext, ext), y = (float)r.range(-ext, ext), rad = (float)r.logrange(0.5, 90), pm = (float)r.pick({-1, -1, 0, 0.5, 1}), p[4], q[4]; c.desc("sample %.9g %.9g r=%.9g p=%.9g", x, y, rad, pm);
        mypaint_surface_get_color(sf, x, y, rad, p, p + 1, p + 2, p + 3, pm); mypaint_surface_get_color(rs, x, y, rad, q, q + 1, q + 2, q + 3, pm); double tol = b.tol ? 3e-4 : 0;
#ifdef VP_OMP
        tol += pm > 0 ? 0.03 + 1.5e-3 * rad : 1e-5;       // the order of summation; the spectral average drifts with the number of pixels
#endif
        if (b.tol && q[3] < 0.02) tol = 0.05; if (b.tol && pm > 0) tol = 0.02;
        for (int k = 0; k < 4; k++) if (!(fabs(p[k] - q[k]) <= tol) && !(k < 3 && q[3] == 0 && p[3] == 0)) { if (b.tol && (q[3] < 1e-3)) continue; c.viol("sample", "sample at %g %g radius %g mode %g: %g %g %g %g, on the plain surface %g %g %g %g (buffer kind %d)", x, y, rad, pm, p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3], b.kind); return; }
        c.count("samples"); if (x < b.ext.x || y < b.ext.y) c.count("samples_outside");
      } else {
        Dab d = gen_dab(r, ext, r.chance(0.15) ? 140 : 40); if (b.tol) { d.paint = 0; d.posterize = 0; d.colorize = 0; d.lock = 0; } c.desc("%s", d.str().c_str());
        int p = draw(sf, d), q = draw(rs, d); if (p != q) { c.viol("return", "draw_dab returned %d, on the plain surface %d", p, q); return; } c.count("dabs");
        if (b.tol && b.tol < 40) b.tol++;      // each dab may turn a difference of one into another rounding
      }
    }
    int cap = (int)r.below(6) * (int)r.below(4); MyPaintRectangle ra[20], rb[20]; memset(ra, 7, sizeof ra); memset(rb, 7, sizeof rb); MyPaintRectangles qa = {cap, ra}, qb = {cap, rb};
    mypaint_surface_end_atomic(sf, &qa); mypaint_surface_end_atomic(rs, &qb); c.desc("end %d rectangles", cap);
    if (qa.num_rectangles != qb.num_rectangles || memcmp(ra, rb, sizeof ra)) { c.viol("rectangles", "%d rectangles, %d on the plain surface (capacity %d), or different ones", qa.num_rectangles, qb.num_rectangles, cap); return; }
    if (!compare(c, b, mypaint_gegl_tiled_surface_get_buffer(gs), "after the transaction", &h)) return;
    // everything painted lies inside the extent the buffer reports
    const GeglRectangle *e = gegl_buffer_get_extent(b.g);
    for (auto &k : b.ref->tiles) { int tx = (int)(uint32_t)(k.first >> 32), ty = (int)(uint32_t)k.first; for (int i = 0; i < TS * TS; i++) if (k.second.px[4 * i + 3]) { int x = tx * TS + i % TS, y = ty * TS + i / TS; if (x < e->x || y < e->y || x >= e->x + e->width || y >= e->y + e->height) { c.viol("extent", "pixel (%d,%d) is painted but outside the buffer's extent %d %d %d %d", x, y, e->x, e->y, e->width, e->height); return; } } }
    if (r.chance(0.03)) { saved(c, sf, b.g); if (c.bad()) return; }
    c.evals();
  }
  for (size_t i = 0; i < bufs.size(); i++) if (!compare(c, bufs[i], bufs[i].g, fmt("buffer %zu at the end", i).c_str(), nullptr)) return;
#ifdef VP_OMP
  c.count("parallel_regions", shim_parallel_regions - pr);
#endif
  if (total) c.count("histories"); c.sig(h);
  if (c.idx % 40 == 7) c.sample("%d transactions over %zu buffers, pixels, samples and rectangles equal", nt, bufs.size());
}
VP_MAIN("P22", one)
