// P10: parallel tile processing is race-free and gives the sequential result.
#include "lib.hpp"
#include <atomic>
extern "C" { extern int shim_threads, shim_delays; extern uint64_t shim_seed, shim_regions, shim_parallel_regions, shim_criticals; void shim_delay(void); void mypaint_init(void); }
using namespace vp;

// A tile store whose bookkeeping orders nothing: relaxed atomics only.
struct Grid {
  MyPaintTiledSurface base; enum { N = 40 };
  std::atomic<uint16_t *> t[N * N]; std::atomic<int> open[N * N]; std::atomic<int> twice{0}, bad{0}; std::atomic<int> missing{0}; std::atomic<uint64_t> req{0}, mask{0};
  std::function<void(uint16_t *, int, int)> fill; bool delays = false; int fail_tx = 1 << 20, fail_ty = 0;
  static int ix(int tx, int ty) { return tx < -N / 2 || ty < -N / 2 || tx >= N / 2 || ty >= N / 2 ? -1 : (ty + N / 2) * N + tx + N / 2; }
  static void s_start(MyPaintTiledSurface *s, MyPaintTileRequest *r) { ((Grid *)s)->start(r); }
  static void s_end(MyPaintTiledSurface *s, MyPaintTileRequest *r) { ((Grid *)s)->end(r); }
  static void s_destroy(MyPaintSurface *s) { mypaint_tiled_surface_destroy(&((Grid *)s)->base); }
  explicit Grid(bool par) {
    for (int i = 0; i < N * N; i++) { t[i].store(nullptr, std::memory_order_relaxed); open[i].store(0, std::memory_order_relaxed); }
    mypaint_tiled_surface_init(&base, s_start, s_end); base.parent.destroy = s_destroy; base.threadsafe_tile_requests = par;
  }
  ~Grid() { mypaint_surface_unref(&base.parent); for (auto &p : t) free(p.load()); }
  uint16_t *tile(int tx, int ty) {
    int i = ix(tx, ty); uint16_t *p = t[i].load(std::memory_order_relaxed);
    if (!p) { p = (uint16_t *)calloc(TILE_U16, 2); if (fill) fill(p, tx, ty); uint16_t *e = nullptr; if (!t[i].compare_exchange_strong(e, p, std::memory_order_relaxed)) { free(p); p = e; } }
    return p;
  }
  void start(MyPaintTileRequest *r) {
    if (delays) shim_delay();
    req.fetch_add(1, std::memory_order_relaxed); if (r->thread_id >= 0 && r->thread_id < 64) mask.fetch_or(1ull << r->thread_id, std::memory_order_relaxed);
    int i = ix(r->tx, r->ty); if (i < 0) { missing = 1; r->buffer = nullptr; return; }
    r->buffer = tile(r->tx, r->ty);
    if (open[i].fetch_add(1, std::memory_order_relaxed)) twice = i + 1;
    if (delays) shim_delay();
  }
  void end(MyPaintTileRequest *r) { if (delays) shim_delay(); int i = ix(r->tx, r->ty); if (i < 0) return; if (open[i].fetch_sub(1, std::memory_order_relaxed) <= 0) bad = i + 1; }
  MyPaintSurface *surf() { return &base.parent; }
};

static void one(Case &c) {
  static bool init = false; if (!init) { mypaint_init(); init = true; }
  Rng &r = c.rng; Grid p(true), q(false); uint64_t seed = r.u64(); bool noise = r.chance(0.3);
  if (noise) p.fill = q.fill = fill_noise(seed);
  p.delays = true; uint64_t reg0 = shim_regions, par0 = shim_parallel_regions;
  int T = r.irange(1, 3);
  for (int t = 0; t < T; t++) {
    shim_threads = r.irange(2, 8); shim_delays = (int)r.below(3); shim_seed = r.u64();
    if (r.chance(0.4)) {
      bool a = r.chance(0.8); int type = (int)r.below(5), lines = r.irange(2, 12); float cx = (float)r.range(-60, 60), cy = (float)r.range(-60, 60), an = (float)r.range(-180, 180);
      c.desc("symmetry %d type %d lines %d", a, type, lines);
      for (Grid *g : {&p, &q}) mypaint_tiled_surface_set_symmetry_state(&g->base, a, cx, cy, an, (MyPaintSymmetryType)type, lines);
    }
    mypaint_surface_begin_atomic(p.surf()); mypaint_surface_begin_atomic(q.surf());
    bool wide = c.idx % 45 == 13 && t == 0;        // more tiles than any queue or schedule is likely to be sized for
    int n = wide ? r.irange(1, 4) : r.irange(1, 14); double ext = r.chance(0.5) ? 60 : 300; p.mask = 0;
    for (int k = 0; k < n; k++) {
      if ((!wide || k) && r.chance(0.25)) {
        float x = (float)r.range(-ext, ext), y = (float)r.range(-ext, ext), rad = (float)r.logrange(2, 220), pm = (float)r.pick({-1, 0, 1, 0.5}), A[4], B[4];
        if (pm > 0 && rad > 110) rad = 110;
        c.desc("sample %.9g %.9g r=%.9g mode %.9g threads %d delays %d", x, y, rad, pm, shim_threads, shim_delays);
        mypaint_surface_get_color(p.surf(), x, y, rad, A, A + 1, A + 2, A + 3, pm); mypaint_surface_get_color(q.surf(), x, y, rad, B, B + 1, B + 2, B + 3, pm);
        double R = std::max(1.f, rad) + 1, tol = pm > 0 ? 0.03 + 1.5e-3 * R : 3e-4;   // the spectral average depends on the order of summation: its approximate powers drift with the number of pixels; alpha does not
        for (int i = 0; i < 4; i++) if (fabs(A[i] - B[i]) > (i == 3 ? 2e-4 : tol) && (i == 3 || B[3] > 1e-4)) { c.viol("sample", "component %d sampled in parallel is %.7f, sequentially %.7f (radius %g, mode %g, %d threads)", i, A[i], B[i], rad, pm, shim_threads); return; }
        c.count("samples"); if (rad > 70) c.count("large_samples");
      } else {
        Dab d = gen_dab(r, ext, r.chance(0.3) ? 150 : 40); if (r.chance(0.7)) d.paint = 0;
        if (wide && !k) { d.radius = (float)r.range(500, 1150); d.x *= 0.3f; d.y *= 0.3f; d.paint = 0; c.count("wide_transactions"); }
        c.desc("%s", d.str().c_str());
        int a = draw(p.surf(), d), b = draw(q.surf(), d);
        if (a != b) { c.viol("ret", "draw_dab returns %d on the parallel surface, %d on the sequential one", a, b); return; }
        c.count("dabs");
      }
    }
    int cap = r.irange(1, 30); MyPaintRectangle ra[32], rb[32]; memset(ra, 1, sizeof ra); memset(rb, 1, sizeof rb); MyPaintRectangles A = {cap, ra}, B = {cap, rb};
    c.desc("end_atomic, %d threads, delays %d", shim_threads, shim_delays);
    mypaint_surface_end_atomic(p.surf(), &A); mypaint_surface_end_atomic(q.surf(), &B);
    if (A.num_rectangles != B.num_rectangles || memcmp(ra, rb, sizeof ra)) { c.viol("rects", "rectangles differ: %d in parallel, %d sequentially", A.num_rectangles, B.num_rectangles); return; }
    if (p.twice) { c.viol("shared-tile", "a tile was handed to two workers at once (%d,%d)", (p.twice - 1) % Grid::N - Grid::N / 2, (p.twice - 1) / Grid::N - Grid::N / 2); return; }
    if (p.bad) { c.viol("release", "a tile was released that was not handed out"); return; }
    for (auto &o : p.open) if (o) { c.viol("release", "a tile was never released"); return; }
    if (p.missing || q.missing) { if (!!p.missing != !!q.missing) c.viol("coords", "only one of the surfaces reached outside"); return; }
    uint64_t h = 0;
    for (int i = 0; i < Grid::N * Grid::N; i++) {
      uint16_t *x = p.t[i], *y = q.t[i]; if (!x && !y) continue;
      int tx = i % Grid::N - Grid::N / 2, ty = i / Grid::N - Grid::N / 2; x = p.tile(tx, ty); y = q.tile(tx, ty);
      if (memcmp(x, y, TILE_U16 * 2)) { int k = 0; while (x[k] == y[k]) k++; c.viol("pixels", "tile %d,%d pixel %d channel %d: %d in parallel, %d sequentially (%d threads)", tx, ty, k / 4, k % 4, x[k], y[k], shim_threads); return; }
      h += fnv(x, TILE_U16 * 2);
    }
    c.evals(); c.count("transactions"); c.count("worker_ids_seen", __builtin_popcountll(p.mask)); c.sig(mixh(h, shim_seed));
  }
  c.count("parallel_regions", shim_parallel_regions - par0); c.count("regions", shim_regions - reg0); c.count("tile_requests", p.req);
  if (c.idx % 61 == 3) c.sample("%d transactions: %llu parallel regions, %llu tile requests, no shared tile, pixels as sequential", T, (unsigned long long)(shim_parallel_regions - par0), (unsigned long long)p.req.load());
}
VP_MAIN("P10", one)
