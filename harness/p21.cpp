// P21: threads with their own brushes and surfaces neither race nor disturb each other.
#include "lib.hpp"
#include <array>
#include <thread>
#include <atomic>
struct In {};
#include "script.hpp"
#include <glib-object.h>
extern "C" { void mypaint_init(void); GType mypaint_brush_get_type(void), mypaint_surface_get_type(void), mypaint_fixed_tiled_surface_get_type(void), mypaint_rectangle_get_type(void), mypaint_gegl_tiled_surface_get_type(void); }
static thread_local uint64_t yrng;
static void hook() { uint64_t z = yrng += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 27; if (z % 11 == 0) sched_yield(); else if (z % 97 == 0) usleep((unsigned)((z >> 9) % 200)); }
// the part of the interface that takes no object at all
static void metadata(Rng &r, Log &l) {
  for (int i = r.irange(1, 6); i > 0; i--) {
    int s = (int)r.below(MYPAINT_BRUSH_SETTINGS_COUNT), n = (int)r.below(MYPAINT_BRUSH_INPUTS_COUNT); const MyPaintBrushSettingInfo *si = mypaint_brush_setting_info((MyPaintBrushSetting)s); const MyPaintBrushInputInfo *ii = mypaint_brush_input_info((MyPaintBrushInput)n);
    std::string t = fmt("%d %d %s %s %g %g %g", mypaint_brush_setting_from_cname(si->cname), mypaint_brush_input_from_cname(ii->cname), mypaint_brush_setting_info_get_name(si), mypaint_brush_input_info_get_tooltip(ii), si->def, si->max, ii->soft_max);
    l.add(fnv(t.data(), t.size()), t);
  }
}
static void curves(Rng &r, Log &l) {
  int n = r.irange(1, 4); MyPaintMapping *m = mypaint_mapping_new(n); mypaint_mapping_set_base_value(m, (float)r.uni());
  for (int i = 0; i < n; i++) { int k = r.irange(2, 20); mypaint_mapping_set_n(m, i, k); for (int j = 0; j < k; j++) mypaint_mapping_set_point(m, i, j, (float)j, (float)r.range(-1, 1)); }
  for (int q = 0; q < 30; q++) { float in[4]; for (float &x : in) x = (float)r.range(-2, 22); float v = mypaint_mapping_calculate(m, in); l.add(fnv(&v, 4), fmt("curve %g", v)); }
  mypaint_mapping_free(m);
}
// the boxed types of the GObject bindings, registered on first use
static const int NTYPES = 5; static GType (*const types[NTYPES])(void) = {mypaint_brush_get_type, mypaint_surface_get_type, mypaint_fixed_tiled_surface_get_type, mypaint_rectangle_get_type, mypaint_gegl_tiled_surface_get_type};
static const char *type_names[NTYPES] = {"MyPaintBrush", "MyPaintSurface", "MyPaintFixedTiledSurface", "MyPaintRectangle", "MyPaintGeglTiledSurface"};
static void boxed(Rng &r, Log &l) {
  MyPaintBrush *b = mypaint_brush_new(); MyPaintRectangle q = {r.irange(-9, 9), 2, 3, 4}; GType tb = types[0](), tq = types[3]();
  if (b && tb && tq) { void *b2 = g_boxed_copy(tb, b); MyPaintRectangle *q2 = (MyPaintRectangle *)g_boxed_copy(tq, &q); l.add(b2 == b, fmt("boxed %d %d", b2 == b, q2 ? q2->x - q.x : 99)); g_boxed_free(tb, b2); g_boxed_free(tq, q2); }
  if (b) mypaint_brush_unref(b);
}
struct Job { Script s; uint64_t seed; int rounds; };
static void body(const Job &j, Log &l, bool perturb) {
  Rng r(j.seed); if (perturb) { yrng = j.seed; spy_hook = hook; } else spy_hook = nullptr;
  for (int k = 0; k < j.rounds; k++) {
    if (r.chance(0.3)) metadata(r, l); if (r.chance(0.3)) curves(r, l); if (r.chance(0.3)) boxed(r, l); if (r.chance(0.1)) mypaint_init();
    run(j.s, perturb ? []() { hook(); } : []() {}, l);
  }
}
static void one(Case &c) {
  Rng &r = c.rng; int n = r.irange(2, 6); std::vector<Job> jobs; bool same = r.chance(0.6); Script first = gen_script(r);
  for (int i = 0; i < n; i++) jobs.push_back({same || i == 0 ? first : gen_script(r), same ? 77 : r.u64(), r.irange(1, 2)});
  if (same) for (Job &j : jobs) j.rounds = jobs[0].rounds;
  for (Job &j : jobs) if (r.chance(0.7)) j.s.ops.resize(std::min<size_t>(j.s.ops.size(), 25));
  c.desc("%d threads, %s scripts, %zu operations", n, same ? "the same" : "different", first.ops.size());
  std::vector<std::array<GType, NTYPES>> got(n); int first_type = (int)r.below(NTYPES);
  // together first: whatever is set up on first use is set up concurrently
  std::vector<Log> together(n), alone(n); std::atomic<int> ready{0}; std::vector<std::thread> th; std::vector<unsigned> lag; for (int i = 0; i < n; i++) lag.push_back(r.chance(0.6) ? 0 : r.below(3000));
  for (int i = 0; i < n; i++) th.emplace_back([&, i]() { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield(); for (int k = 0; k < NTYPES; k++) { int t = (first_type + k) % NTYPES; got[i][t] = types[t](); } if (lag[i]) usleep(lag[i]); body(jobs[i], together[i], true); });
  for (auto &t : th) t.join();
  for (int i = 0; i < n; i++) for (int t = 0; t < NTYPES; t++) { if (!got[i][t] || got[i][t] != got[0][t] || strcmp(g_type_name(got[i][t]), type_names[t])) { c.viol("type", "thread %d was given type %lx for %s, thread 0 %lx", i, (unsigned long)got[i][t], type_names[t], (unsigned long)got[0][t]); return; } c.count("types_compared"); }
  for (int i = 0; i < n; i++) {
    if (same && i) alone[i] = alone[0]; else body(jobs[i], alone[i], false);
    if (same && i && jobs[i].s.ops.size() != jobs[0].s.ops.size()) { alone[i] = Log(); body(jobs[i], alone[i], false); }
    const Log &a = together[i], &b = alone[i];
    if (a.v.size() != b.v.size()) { c.viol("log", "thread %d: %zu records among others, %zu alone", i, a.v.size(), b.v.size()); return; }
    for (size_t k = 0; k < a.v.size(); k++) if (a.v[k] != b.v[k]) { c.viol("interference", "thread %d, record %zu: '%s' among other threads, '%s' alone", i, k, a.what[k].c_str(), b.what[k].c_str()); return; }
    c.evals(); c.count("threads"); c.count("records_compared", a.v.size()); uint64_t h = 0; for (uint64_t x : a.v) h = mixh(h, x); c.sig(h);
    c.count(jobs[i].s.fixed ? "fixed_surfaces" : "tile_stores"); if (jobs[i].s.buckets) c.count("with_buckets"); for (const Op &o : jobs[i].s.ops) { if (o.k == 1) c.count("samples"); if (o.k == 5) c.count("loads"); if (o.k == 9) c.count("direct_dabs"); }
  }
  c.count(same ? "same_script" : "different_scripts");
  if (c.idx % 40 == 0) c.sample("%d threads, %zu records each equal to the solo run", n, together[0].v.size());
}
VP_MAIN("P21", one)
