// P24: the random input and the jitter settings, as seen in emitted dabs.
#include "lib.hpp"
using namespace vp;
typedef double D;
static void passthrough(Brush &br, int s = S_(LOCK_ALPHA)) { br.set(s, 0); br.map(s, I_(RANDOM), {{0, 0}, {1, 1}}); }
// n values look independent and follow cdf
static void judge(Case &c, const char *what, const std::vector<D> &v, const std::function<D(D)> &cdf, bool lags) {
  size_t n = v.size(); D dn = (D)n; if (n < 500) return; std::vector<D> u(n); for (size_t i = 0; i < n; i++) u[i] = cdf(v[i]);
  const int B = 32; std::vector<D> h(B); for (D x : u) h[std::min(B - 1, std::max(0, (int)(x * B)))]++;
  D chi = 0, e = dn / B; for (D x : h) chi += (x - e) * (x - e) / e;
  if (chi > 31 + 12 * sqrt(62.0)) { c.viol("distribution", "%s: %zu values are not distributed as documented (chi square %.1f with 31 degrees of freedom)", what, n, chi); return; }
  D mean = 0; for (D x : u) mean += x; mean /= dn; if (fabs(mean - 0.5) > 8 * sqrt(1 / 12. / dn)) { c.viol("mean", "%s: mean quantile of %zu values is %.5f", what, n, mean); return; }
  size_t same = 0; for (size_t i = 1; i < n; i++) same += v[i] == v[i - 1]; if (same > 3 + n / 300) { c.viol("stuck", "%s: %zu of %zu values repeat the one before", what, same, n); return; }
  if (!lags) { D q = 0; for (D x : v) q += x * x; q /= dn; if (fabs(q - 1) > 8 * sqrt(1.7 / dn)) { c.viol("spread", "%s: mean square of %zu values is %.4f of the documented one", what, n, q); return; } }
  D var = 0; for (D x : u) var += (x - 0.5) * (x - 0.5); var /= dn;
  for (size_t lag = 1; lag <= 40; lag++) { D s = 0; for (size_t i = lag; i < n; i++) s += (u[i] - 0.5) * (u[i - lag] - 0.5); s /= var * (dn - lag); if (fabs(s) * sqrt(dn - lag) > 8) { c.viol("correlation", "%s: values %zu apart correlate (%.4f over %zu values)", what, lag, s, n); return; } }
  // pairs: independent of the value before
  { const int P = 8; std::vector<D> g(P * P); for (size_t i = 1; i < n; i++) g[std::min(P - 1, (int)(u[i] * P)) * P + std::min(P - 1, (int)(u[i - 1] * P))]++; D e2 = (dn - 1) / (P * P), x2 = 0; for (D x : g) x2 += (x - e2) * (x - e2) / e2; if (x2 > 63 + 12 * sqrt(126.0)) { c.viol("pairs", "%s: consecutive values are not independent (chi square %.1f with 63 degrees of freedom)", what, x2); return; } }
  // no value is a fixed combination of two earlier ones
  if (lags) for (size_t a = 1; a <= 30; a++) for (size_t b = a; b <= 30; b++) {
    size_t hit = 0, hit2 = 0, m = std::min<size_t>(n, 3000); for (size_t i = b; i < m; i++) { D s = v[i - a] + v[i - b]; s -= floor(s); D q = fabs(s - v[i]); q = std::min(q, 1 - q); hit += q < 1e-6; s = v[i - a] - v[i - b]; s -= floor(s); q = fabs(s - v[i]); q = std::min(q, 1 - q); hit2 += q < 1e-6; }
    if (hit > 30 + m / 50 || hit2 > 30 + m / 50) { c.viol("lag-relation", "%s: %zu of %zu values are the %s of the values %zu and %zu before, modulo 1", what, std::max(hit, hit2), m, hit > hit2 ? "sum" : "difference", a, b); return; }
  }
  // no repetition of a longer stretch
  std::unordered_set<uint64_t> seen; for (size_t i = 4; i < n; i++) { uint64_t k = fnv(&v[i - 4], 4 * sizeof(D)); if (!seen.insert(k).second) { c.viol("period", "%s: a stretch of 4 values repeats after at most %zu values", what, i); return; } }
  c.evals(n); c.sig(fnv(v.data(), n * sizeof(D))); c.count(what, n);
}
static D uniform(D x) { return std::min(1.0, std::max(0.0, x)); }
// sum of four uniform variables, scaled to unit variance
static D gauss4(D z) {
  D x = (z / sqrt(3.0)) + 2; if (x <= 0) return 0; if (x >= 4) return 1; D s = 0, f = 1; for (int k = 0; k <= 4; k++) { if (x > k) s += (k % 2 ? -1 : 1) * f * pow(x - k, 4); f = f * (4 - k) / (k + 1); } return s / 24;
}
static bool bounded(Case &c, const char *what, const std::vector<D> &v) { for (D z : v) if (!(fabs(z) <= 3.4645)) { c.viol("bound", "%s: deviation of %.5g standard deviations", what, z); return false; } return true; }
static void skip_some(Rng &r, Brush &br) { int k = r.irange(0, 400); Mock m; m.keep = false; D x = 0; for (int i = 0; i < k; i++) stroke(br.b, m.surf(), ev((float)(x += 3), 0, 1, 0.01)); }

// the noise depends on the distance covered, not on how often it is reported
static void density(Case &c) {
  Rng &r = c.rng; Brush br; br.plain(); D lr = r.range(0, 3), na = r.range(0.2, 2), N = exp(lr) * na; br.set(S_(RADIUS_LOGARITHMIC), (float)lr); br.set(S_(TRACKING_NOISE), (float)na); br.set(S_(DABS_PER_ACTUAL_RADIUS), 0); br.set(S_(DABS_PER_BASIC_RADIUS), 0); br.set(S_(DABS_PER_SECOND), 0);
  Mock mk; mk.keep = false; D x = r.range(-500, 500), y = r.range(-500, 500), a = r.range(0, 6.3); stroke(br.b, mk.surf(), ev((float)x, (float)y, 1, 0.01)); stroke(br.b, mk.surf(), ev((float)(x += 6 * N), (float)y, 1, 0.01));
  float px = br.state(ST_(X)), py = br.state(ST_(Y)); float lx = (float)x, ly = (float)y; D since = 0; int moved = 0, still = 0; c.desc("noise %g pixels", N);
  for (int i = 0; i < 400; i++) {
    D st = N * (r.chance(0.2) ? r.range(0.3, 1) : r.range(0.005, 0.2)); if (r.chance(0.1)) a += r.range(-1, 1); x += st * cos(a); y += st * sin(a); float fx = (float)x, fy = (float)y; since += hypot((D)fx - lx, (D)fy - ly); lx = fx; ly = fy;
    stroke(br.b, mk.surf(), ev(fx, fy, 1, 0.002)); float qx = br.state(ST_(X)), qy = br.state(ST_(Y)); bool m = qx != px || qy != py; c.evals(); D slack = 0.002 + 1e-4 * N + 4e-4 * fabs(x) * 0.01;
    if (m && since < 0.5 * N - slack) { c.viol("density", "new noise after %.6g pixels, %.6g expected at least (noise %.6g)", since, 0.5 * N, N); return; }
    if (!m && since > 0.5 * N + slack) { c.viol("density", "no new noise after %.6g pixels, expected from %.6g on (noise %.6g)", since, 0.5 * N, N); return; }
    if (m) { since = 0; moved++; } else still++; px = qx; py = qy;
  }
  c.count("noise_steps", (uint64_t)moved); c.count("noise_skips", (uint64_t)still); c.sig(mixh((uint64_t)(N * 1e6), (uint64_t)(px * 1000)));
}
static void streams(Case &c) {
  Rng &r = c.rng; Brush br; br.plain(); int kind = (int)r.below(4); br.set(S_(RADIUS_LOGARITHMIC), 1); br.set(S_(DABS_PER_ACTUAL_RADIUS), 1); br.set(S_(DABS_PER_BASIC_RADIUS), 0);
  // what else draws random numbers must not spoil the stream looked at
  D amp = r.range(0.1, 5), R = exp(1.0); bool jitter = r.chance(0.5), rj = r.chance(0.5), refuse = r.chance(0.5); br.set(S_(OFFSET_BY_RANDOM), kind == 1 || jitter ? (float)amp : 0); D ra = r.range(0.05, 0.5); br.set(S_(RADIUS_BY_RANDOM), kind == 2 || rj ? (float)ra : 0);
  if (kind == 1) R = exp(1.0);
  passthrough(br); skip_some(r, br); mypaint_brush_reset(br.b); Mock mk; mk.keep = false; std::vector<D> rnd, jx, jy, jr, tx, ty;
  bool noise = kind == 3; D na = r.range(0.1, 2), X = 0; if (noise) { br.set(S_(TRACKING_NOISE), (float)na); }
  mk.on_dab = [&](const Dab &d) { rnd.push_back(d.lock); if (!noise) { jx.push_back((d.x - br.state(ST_(ACTUAL_X))) / (amp * R)); jy.push_back((d.y - br.state(ST_(ACTUAL_Y))) / (amp * R)); jr.push_back((log((D)d.radius) - 1) / ra); } return refuse ? (int)r.below(2) : 1; };
  int n = opt().thorough() ? 60000 : r.chance(0.04) ? 100000 : 5000; c.desc("kind %d amp %g radius %g noise %g", kind, amp, ra, na);
  stroke(br.b, mk.surf(), ev(0, 0, 1, 0.01));
  bool small = r.chance(0.3);     // many events per dab, or many dabs per event
  for (int i = 0; rnd.size() < (size_t)n && i < 40 * n; i++) {
    if (X > 2000) { X = 0; stroke(br.b, mk.surf(), ev(0, 0, 0, 0.01)); continue; }
    X += noise ? r.range(3, 6) * na * R : small ? r.range(0.1, 2) : r.range(5, 60); stroke(br.b, mk.surf(), ev((float)X, 0, 1, 0.01));
    if (noise) { tx.push_back((br.state(ST_(X)) - X) / (na * R)); ty.push_back(br.state(ST_(Y)) / (na * R)); }
    if (r.chance(0.001)) { mypaint_brush_reset(br.b); stroke(br.b, mk.surf(), ev((float)X, 0, 1, 0.01)); if (noise) X += 5 * na * R; }
    if (noise && (int)tx.size() >= n) break;
  }
  for (D x : rnd) if (!(x >= 0 && x <= 1)) { c.viol("range", "random input %.9g", x); return; }
  judge(c, "random_input", rnd, uniform, true);
  if (!noise && (kind == 1 || jitter)) if (bounded(c, "position jitter", jx) && bounded(c, "position jitter", jy)) {
    // positions are floats of up to 2000: the smallest jitters carry rounding noise, far below a bin
    judge(c, "jitter_x", jx, gauss4, false); judge(c, "jitter_y", jy, gauss4, false); std::vector<D> xy(jx.size()); D s = 0; for (size_t i = 0; i < jx.size(); i++) s += jx[i] * jy[i]; if (fabs(s) > 8 * sqrt((D)jx.size())) c.viol("jitter-xy", "horizontal and vertical jitter correlate (%.4f)", s / (D)jx.size()); }
  if (!noise && (kind == 2 || rj)) if (bounded(c, "radius jitter", jr)) judge(c, "jitter_radius", jr, gauss4, false);
  if (noise) { std::vector<D> fx, fy; for (size_t i = 0; i < tx.size(); i++) if (fabs(tx[i]) < 3.4642 && fabs(ty[i]) < 3.4642) fx.push_back(tx[i]), fy.push_back(ty[i]);
    if (fx.size() + 20 < tx.size() - tx.size() / 50) c.viol("bound", "tracking noise beyond its bound in %zu of %zu events", tx.size() - fx.size(), tx.size()); judge(c, "tracking_noise", fx, gauss4, false); judge(c, "tracking_noise", fy, gauss4, false); }
  if (c.idx % 37 == 0 && rnd.size()) c.sample("%zu dabs, random input %.6f %.6f %.6f ...", rnd.size(), rnd[0], rnd[rnd.size() > 1], rnd[rnd.size() > 2 ? 2 : 0]);
}
// several brushes interleaved: each one's sequence is its own, and the same for every new brush
static void independence(Case &c) {
  Rng &r = c.rng; int nb = r.irange(2, 4), n = r.irange(60, 400); struct P { std::unique_ptr<Brush> b; std::unique_ptr<Mock> m; std::vector<D> v, pos; D x = 0; }; std::vector<P> ps; uint64_t cfg = r.u64();
  auto conf = [&](Brush &b) { Rng q(cfg); b.plain(); b.set(S_(RADIUS_LOGARITHMIC), 1); b.set(S_(DABS_PER_ACTUAL_RADIUS), 1); b.set(S_(OFFSET_BY_RANDOM), q.chance(0.5) ? (float)q.range(0.1, 3) : 0); b.set(S_(RADIUS_BY_RANDOM), q.chance(0.5) ? 0.3f : 0); b.set(S_(TRACKING_NOISE), q.chance(0.3) ? 0.3f : 0); passthrough(b); };
  auto hook = [](P &p) { p.m.reset(new Mock); p.m->keep = false; P *q = &p; p.m->on_dab = [q](const Dab &d) { q->v.push_back(d.lock); q->pos.push_back(d.x); q->pos.push_back(d.radius); return 1; }; };
  ps.resize((size_t)nb); P solo; solo.b.reset(new Brush()); conf(*solo.b); hook(solo); auto step = [](P &p) { p.x += 7; stroke(p.b->b, p.m->surf(), ev((float)p.x, 0, 1, 0.01)); };
  for (int i = 0; i < n; i++) step(solo);
  for (int i = 0; i < n * nb * 2; i++) {
    P &p = ps[r.below((uint32_t)nb)]; if (!p.b) { p.b.reset(new Brush(r.chance(0.3) ? 3 : 0)); conf(*p.b); hook(p); } if (p.x < 7 * n - 1) step(p);
    if (r.chance(0.05)) { Brush tmp; Mock m; stroke(tmp.b, m.surf(), ev(0, 0, 1, 0.01)); stroke(tmp.b, m.surf(), ev(30, 0, 1, 0.01)); }
    if (r.chance(0.1)) { Store s; s.logging = false; Dab d = gen_dab(r, 50, 10); mypaint_surface_begin_atomic(s.surf()); draw(s.surf(), d); float a, b, cc, e; mypaint_surface_get_color(s.surf(), 0, 0, 20, &a, &b, &cc, &e, 0.5f); mypaint_surface_end_atomic(s.surf(), nullptr); }
  }
  for (P &p : ps) if (p.b) { size_t m = std::min(p.v.size(), solo.v.size()); c.evals(m);
    for (size_t i = 0; i < m; i++) if (p.v[i] != solo.v[i] || p.pos[2 * i] != solo.pos[2 * i] || p.pos[2 * i + 1] != solo.pos[2 * i + 1]) { c.viol("own-sequence", "dab %zu of an interleaved brush has random input %.9g x %.9g, %.9g x %.9g for the same brush alone", i, p.v[i], p.pos[2 * i], solo.v[i], solo.pos[2 * i]); return; }
    if (m > 5) c.count("interleaved_brushes"); c.sig(fnv(p.v.data(), m * sizeof(D))); }
}
static void one(Case &c) { for (int k = 0; k < 3; k++) density(c); if (c.bad()) return; if (c.rng.chance(0.7)) streams(c); else independence(c); }
VP_MAIN("P24", one)
