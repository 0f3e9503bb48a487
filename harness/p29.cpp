// P29: colour conversions agree with their definitions, invert each other and stay in range.
#include "lib.hpp"
extern "C" {
void hsl_to_rgb_float(float *, float *, float *); void rgb_to_hsl_float(float *, float *, float *); void hsv_to_rgb_float(float *, float *, float *); void rgb_to_hsv_float(float *, float *, float *);
void hcy_to_rgb_float(float *, float *, float *); void rgb_to_hcy_float(float *, float *, float *);
void rgb_to_spectral(float, float, float, float *); void spectral_to_rgb(float *, float *); float mod_arith(float, float); float smallest_angular_difference(float, float); void mix_colors(float *, float *, float, float, float *);
}
using namespace vp;
struct C3 { float v[3]; };
static float chan(Rng &r) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 0.5f; case 3: return (float)r.logrange(1e-8, 1e-3); case 4: return 1 - (float)r.logrange(6e-8, 1e-3); case 5: return (float)r.irange(0, 255) / 255; default: return (float)r.uni(); } }
static C3 rgbc(Rng &r) {
  C3 c; for (float &x : c.v) x = chan(r); int k = (int)r.below(8);
  if (k == 0) c.v[1] = c.v[2] = c.v[0]; if (k == 1) c.v[r.below(3)] = c.v[r.below(3)]; if (k == 2) { float b = chan(r); for (float &x : c.v) { x = b + (float)r.range(-2e-4, 2e-4); x = std::min(1.f, std::max(0.f, x)); } }
  return c;
}
static C3 wild(Rng &r) { C3 c; for (float &x : c.v) { x = chan(r); if (r.chance(0.5)) x = (float)r.range(-3, 4); if (r.chance(0.1)) x = (float)(r.logrange(1, 1e30) * (r.chance(0.5) ? 1 : -1)); } return c; }
static bool unit(const C3 &c, double e = 0) { for (float x : c.v) if (!(x >= -e && x <= 1 + e)) return false; return true; }
static double dist(const C3 &a, const C3 &b) { double m = 0; for (int i = 0; i < 3; i++) { double d = fabs((double)a.v[i] - b.v[i]); if (!(d <= m)) m = d; } return m; }
static C3 cv(void (*f)(float *, float *, float *), C3 c) { f(&c.v[0], &c.v[1], &c.v[2]); return c; }
static double cl(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static C3 ref_hsv(const C3 &q) { double h = q.v[0] - floor(q.v[0]), s = cl(q.v[1]), v = cl(q.v[2]); C3 o; int n[3] = {5, 3, 1}; for (int i = 0; i < 3; i++) { double k = fmod(n[i] + h * 6, 6); o.v[i] = (float)(v - v * s * cl(std::min(k, 4 - k))); } return o; }
static C3 ref_hsl(const C3 &q) { double h = q.v[0] - floor(q.v[0]), s = cl(q.v[1]), l = cl(q.v[2]), a = s * std::min(l, 1 - l); C3 o; int n[3] = {0, 8, 4}; for (int i = 0; i < 3; i++) { double k = fmod(n[i] + h * 12, 12); o.v[i] = (float)(l - a * std::max(-1., std::min(std::min(k - 3, 9 - k), 1.))); } return o; }
static const char *S3(const C3 &c) { static char b[8][96]; static int k; k = (k + 1) & 7; snprintf(b[k], 96, "(%.9g %.9g %.9g)", c.v[0], c.v[1], c.v[2]); return b[k]; }
#define BAD(key, ...) do { c.viol(key, __VA_ARGS__); return; } while (0)
static void one(Case &c) {
  Rng &r = c.rng; uint64_t h = 0; int n = opt().thorough() ? 4000 : 400;
  for (int i = 0; i < n && !c.bad(); i++) {
    C3 q = rgbc(r); c.evals();
    // there, in range, right, and back
    C3 a = cv(rgb_to_hsv_float, q), b = cv(rgb_to_hsl_float, q), y = cv(rgb_to_hcy_float, q); h = mixh(h, fnv(&a, sizeof a));
    if (!unit(a)) BAD("hsv-range", "%s becomes HSV %s", S3(q), S3(a)); if (!unit(b)) BAD("hsl-range", "%s becomes HSL %s", S3(q), S3(b)); 
    double mx = std::max(q.v[0], std::max(q.v[1], q.v[2])), mn = std::min(q.v[0], std::min(q.v[1], q.v[2]));
    if (fabs(a.v[2] - mx) > 1e-6 || fabs(b.v[2] - (mx + mn) / 2) > 1e-6) BAD("value", "%s has HSV value %g and HSL lightness %g", S3(q), a.v[2], b.v[2]);
    if (mx == mn && (a.v[1] || b.v[1])) BAD("grey", "grey %g has saturations %g and %g", mx, a.v[1], b.v[1]);
    if (mx - mn > 2e-4 && fabs(a.v[1] - (mx - mn) / mx) > 1e-5) BAD("saturation", "%s has HSV saturation %g", S3(q), a.v[1]);
    if (mx - mn > 1e-3) { double d = fabs(a.v[0] - b.v[0]); if (std::min(d, 1 - d) > 1e-5) BAD("hue", "%s has hue %g in HSV, %g in HSL", S3(q), a.v[0], b.v[0]); c.count("hues_compared"); }
    C3 a2 = cv(hsv_to_rgb_float, a), b2 = cv(hsl_to_rgb_float, b);
    if (dist(q, a2) > 1.2e-4) BAD("hsv-round-trip", "%s -> HSV %s -> %s", S3(q), S3(a), S3(a2)); if (mx - mn > 2e-4 && dist(q, a2) > 5e-6) BAD("hsv-round-trip", "%s -> HSV %s -> %s", S3(q), S3(a), S3(a2));
    if (dist(q, b2) > 5e-6) BAD("hsl-round-trip", "%s -> HSL %s -> %s", S3(q), S3(b), S3(b2)); c.count("round_trips", 2);
    if (!unit(y, 1e-5) && mx - mn > 1e-4 && mx < 0.999 && mn > 1e-3) BAD("hcy-range", "%s becomes HCY %s", S3(q), S3(y)); double luma = 0.2126 * q.v[0] + 0.7152 * q.v[1] + 0.0722 * q.v[2];
    if (!(fabs(y.v[2] - luma) <= 1e-5)) BAD("luma", "%s has luma %.8g, %.8g expected", S3(q), y.v[2], luma); C3 y2 = cv(hcy_to_rgb_float, y); if (!(dist(q, y2) <= 2e-5)) BAD("hcy-round-trip", "%s -> HCY %s -> %s", S3(q), S3(y), S3(y2)); c.count("hcy_round_trips");
    // from anywhere
    C3 w = wild(r), p = cv(hsv_to_rgb_float, w), l = cv(hsl_to_rgb_float, w), wc; for (int k = 0; k < 3; k++) wc.v[k] = (float)cl(w.v[k]);
    double ht = fabs(w.v[0]) < 100 ? 1e-4 : 9; if (!unit(p) || !unit(l, 1e-6)) BAD("rgb-range", "%s as HSV is %s, as HSL %s", S3(w), S3(p), S3(l));
    if (dist(p, ref_hsv(w)) > ht) BAD("hsv-definition", "HSV %s is %s, by definition %s", S3(w), S3(p), S3(ref_hsv(w))); if (dist(l, ref_hsl(w)) > ht) BAD("hsl-definition", "HSL %s is %s, by definition %s", S3(w), S3(l), S3(ref_hsl(w))); c.count("definitions", 2);
    if (dist(cv(rgb_to_hsv_float, w), cv(rgb_to_hsv_float, wc)) > 0 || dist(cv(rgb_to_hsl_float, w), cv(rgb_to_hsl_float, wc)) > 0) BAD("clamp", "%s is not converted as its nearest colour %s", S3(w), S3(wc));
    C3 u = {{(float)r.uni(), chan(r), chan(r)}}, u2 = u; u2.v[0] += (float)r.irange(-20, 20); if (dist(cv(hsv_to_rgb_float, u), cv(hsv_to_rgb_float, u2)) > 3e-5 || dist(cv(hsl_to_rgb_float, u), cv(hsl_to_rgb_float, u2)) > 3e-5) BAD("hue-period", "%s and %s differ", S3(u), S3(u2));
    { C3 f = cv(hcy_to_rgb_float, w); bool fin = true; for (float x : f.v) fin &= std::isfinite(x); if (!fin) BAD("hcy-finite", "HCY %s is %s", S3(w), S3(f)); if (u.v[2] > 0 && u.v[2] < 1) { f = cv(hcy_to_rgb_float, u); if (!unit(f, 1e-5)) BAD("hcy-gamut", "HCY %s is %s", S3(u), S3(f)); } }
    // spectral
    float sp[10] = {0}, ro[3]; rgb_to_spectral(q.v[0], q.v[1], q.v[2], sp); for (float x : sp) if (!(x > 0 && x < 1.6)) BAD("spectrum", "%s has spectral component %g", S3(q), x); spectral_to_rgb(sp, ro); C3 s = {{ro[0], ro[1], ro[2]}}; if (!unit(s) || dist(q, s) > 2e-3) BAD("spectral-round-trip", "%s -> spectrum -> %s", S3(q), S3(s)); c.count("spectral_round_trips");
    // mixing
    float A[4], B[4], R[4]; C3 q2 = rgbc(r); for (int k = 0; k < 3; k++) { A[k] = q.v[k]; B[k] = q2.v[k]; } A[3] = chan(r); B[3] = chan(r); float fac = r.chance(0.2) ? 1 : r.chance(0.2) ? 0 : (float)r.uni(), pm = (float)r.pick({0, 1, r.uni()}); bool same = r.chance(0.2); if (same) memcpy(B, A, sizeof A);
    float KA[4], KB[4]; memcpy(KA, A, sizeof A); memcpy(KB, B, sizeof B); mix_colors(A, B, fac, pm, R); if (memcmp(KA, A, sizeof A) || memcmp(KB, B, sizeof B)) BAD("mix-argument", "mixing changed its arguments");
    if (!(fabs(R[3] - (fac * A[3] + (1 - fac) * B[3])) < 1e-5)) BAD("mix-alpha", "alphas %g and %g mixed by %g give %g", A[3], B[3], fac, R[3]);
    for (int k = 0; k < 3; k++) {
      double lin = fac * A[k] + (1. - fac) * B[k]; if (pm == 0 && !(fabs(R[k] - lin) < 1e-5)) BAD("mix-linear", "channels %g and %g mixed by %g give %g", A[k], B[k], fac, R[k]); if (!(R[k] >= -1e-5 && R[k] <= 1 + 1e-5)) BAD("mix-range", "mixing %s gives channel %g", S3(q), R[k]);
      if (same && !(fabs(R[k] - A[k]) < 3e-3)) BAD("mix-equal", "a colour mixed with itself: %g becomes %g", A[k], R[k]); if (fac == 1 && A[3] > 1e-4 && !(fabs(R[k] - A[k]) < 3e-3)) BAD("mix-end", "factor 1: channel %g becomes %g", A[k], R[k]); if (fac == 0 && !(fabs(R[k] - B[k]) < 3e-3)) BAD("mix-end", "factor 0: channel %g becomes %g", B[k], R[k]);
    }
    c.count("mixes");
    // angles
    float e = (float)r.range(-2000, 2000), f = (float)r.range(-2000, 2000); if (r.chance(0.3)) { e = (float)(r.irange(-20, 20) * 45); f = (float)(r.irange(-20, 20) * 45); } float d = smallest_angular_difference(e, f); double want = (double)f - e; double off = remainder(want - d, 360); if (!(d >= -180 && d <= 180) || fabs(off) > 2e-3) BAD("angle", "difference from %g to %g is %g", e, f, d);
    float N = (float)r.pick({1, 2, 180, 360, 0.7}), m = mod_arith(e, N); double turns = (e - m) / N; if (!(m >= -1e-7 * fabs(e) && m <= N + 1e-7 * fabs(e)) || fabs(turns - rint(turns)) > 1e-3) BAD("mod", "%g modulo %g is %g", e, N, m); c.count("angles");
  }
  c.sig(h);
}
VP_MAIN("P29", one)
