// P07: every blend mode against a double precision reference of its documented formula.
#include "lib.hpp"
#include "spectral.hpp"
using namespace vp;
typedef double D;
using spec::wgm; using spec::EPS;
static const D K = 32768.0;

static D cl01(D v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
static D lum(const D c[3]) { return 0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2]; }
// W3C SetLum/ClipColor, target luminance given
static void setlum(const D top[3], D l, D out[3]) {
  D d = l - lum(top); D c[3] = {top[0] + d, top[1] + d, top[2] + d};
  D n = std::min(c[0], std::min(c[1], c[2])), x = std::max(c[0], std::max(c[1], c[2])), L = cl01(lum(c));
  if (n < 0) for (auto &v : c) v = L + (v - L) * L / (L - n);
  if (x > 1) for (auto &v : c) v = L + (v - L) * (1 - L) / (x - L);
  for (int i = 0; i < 3; i++) out[i] = cl01(c[i]);
}

struct Ref { D v[4]; D tol[4]; };   // interval centre and half width, in units of 1/32768
static D q15(D v) { return floor(v * K + 1e-3) / K; }

// applies dab d with mask m to pixel p
static Ref reference(const Dab &d, D m, const uint16_t p[4]) {
  Ref R; for (int i = 0; i < 4; i++) { R.v[i] = p[i] / K; R.tol[i] = 0; }
  D col[3] = {cl01(d.r), cl01(d.g), cl01(d.b)};
  D A = d.alpha, normal = (1.0 - d.lock) * (1.0 - d.colorize) * (1.0 - d.posterize);
  auto over = [&](D o, D A_, bool lockalpha) {
    D a0 = R.v[3]; D w = lockalpha ? o * a0 : o * A_;
    for (int i = 0; i < 3; i++) { R.v[i] = w * col[i] + (1 - o) * R.v[i]; R.tol[i] = R.tol[i] * (1 - o) + (lockalpha ? R.tol[3] * o : 0) + 4.5 / K; }
    if (!lockalpha) { R.v[3] = w + (1 - o) * a0; R.tol[3] = R.tol[3] * (1 - o) + 4.5 / K; }
  };
  if (d.paint < 1) {
    if (normal > 0) over(m * q15(normal * d.opaque * (1 - d.paint)), A, false);
    if (d.lock > 0 && A != 0) over(m * q15(d.lock * d.opaque * (1.0 - d.colorize) * (1.0 - d.posterize) * (1.0 - d.paint)), 1, true);
  }
  if (d.paint > 0) {
    auto spectral = [&](D o, D A_, bool lockalpha) {
      // very low opacities are raised to a documented minimum except when erasing
      D a0 = R.v[3];
      D wa = lockalpha ? o * a0 : o, wb = (1 - o) * a0;
      D t0 = R.tol[0], t3 = R.tol[3];
      if (a0 * K < 0.5 + t3 * K) {      // nothing to mix with (or too close to tell)
        over(o, A_, lockalpha);
        if (a0 > 0 || t3 > 0) for (int i = 0; i < 3; i++) R.tol[i] += 6 / K + t3;
        return;
      }
      D out = lockalpha ? a0 : o * A_ + (1 - o) * a0;
      D bot[3]; for (int i = 0; i < 3; i++) bot[i] = cl01(R.v[i] / a0);
      D fa = wa + wb > 0 ? wa / (wa + wb) : 0;
      D factor = 1, add[3] = {0, 0, 0};
      if (!lockalpha && A_ != 1) {
        fa *= A_;
        D b = a0 * 8 - 3; factor = cl01(0.5 + b / (1 + fabs(b) * 1.65));
        for (int i = 0; i < 3; i++) add[i] = o * A_ * col[i] + (1 - o) * R.v[i];
      }
      D mix[3]; wgm(col, bot, fa, mix);
      // weights and colours are rounded to 1/32768 before mixing: bound the effect by evaluating neighbours
      D sp[3] = {0, 0, 0};
      D den = std::max((wa + wb) * K, 1.0);
      for (int s = -1; s <= 1; s += 2) {
        D f2 = fa + s * (3.0 / den); f2 = cl01(f2);
        D b2[3]; for (int i = 0; i < 3; i++) b2[i] = cl01(bot[i] + s * (1.5 + (t0 + t3) * K) / (a0 * K));
        D m2[3]; wgm(col, bot, f2, m2); for (int i = 0; i < 3; i++) sp[i] = std::max(sp[i], fabs(m2[i] - mix[i]));
        wgm(col, b2, fa, m2); for (int i = 0; i < 3; i++) sp[i] = std::max(sp[i], 2 * fabs(m2[i] - mix[i]));
      }
      for (int i = 0; i < 3; i++) {
        R.v[i] = (1 - factor) * add[i] + factor * mix[i] * out;
        R.tol[i] = t0 + t3 + 6 / K + 2 * sp[i] * out + 0.008 * out;   // the power function used is an approximation
      }
      if (!lockalpha) { R.v[3] = out; R.tol[3] = t3 * (1 - o) + 4.5 / K; }
    };
    if (normal > 0) {
      D op = q15(normal * d.opaque * d.paint); if (A == 1) op = std::max(op, 150 / K);
      spectral(m * op, A, false);
    }
    if (d.lock > 0 && A != 0) {
      D op = std::max(q15(d.lock * d.opaque * (1.0 - d.colorize) * (1.0 - d.posterize) * d.paint), 150 / K);
      spectral(m * op, 1, true);
    }
  }
  if (d.colorize > 0) {
    D o = m * q15(d.colorize * d.opaque), a0 = R.v[3];
    D mn[3] = {9, 9, 9}, mx[3] = {-9, -9, -9};
    D bot[3]; for (int i = 0; i < 3; i++) bot[i] = a0 > 0 ? cl01(R.v[i] / a0) : 0;
    D l = lum(bot), dl = 3.0 / K;
    if (a0 > 0) dl += (R.tol[0] + R.tol[3] + (R.tol[0] > 0 ? 1 / K : 0)) / a0;
    for (int s = -2; s <= 2; s++) for (int q = -1; q <= 1; q++) {
      D top[3]; for (int i = 0; i < 3; i++) top[i] = cl01(col[i] + q * 1.5 / K);
      D out[3]; setlum(top, cl01(l + s * dl / 2), out);
      for (int i = 0; i < 3; i++) { mn[i] = std::min(mn[i], out[i]); mx[i] = std::max(mx[i], out[i]); }
    }
    for (int i = 0; i < 3; i++) {
      D c = (mn[i] + mx[i]) / 2, h = (mx[i] - mn[i]) + 6 / K;
      R.v[i] = o * c * a0 + (1 - o) * R.v[i];
      R.tol[i] = o * h * a0 + (1 - o) * R.tol[i] + R.tol[3] + 4.5 / K;
    }
  }
  if (d.posterize > 0) {
    D o = m * q15(d.posterize * d.opaque), n = round(std::min(std::max(d.num * 100.0, 1.0), 128.0));
    for (int i = 0; i < 3; i++) {
      D c = R.v[i], t = R.tol[i], lo = 9, hi = -9;
      for (int s = -1; s <= 1; s++) {
        D v = floor((c + s * (t + 1e-6)) * n + 0.5) / n; lo = std::min(lo, std::max(0.0, std::min(v, R.v[3] - R.tol[3]))); hi = std::max(hi, std::min(v, R.v[3] + R.tol[3]));
      }
      R.v[i] = o * (lo + hi) / 2 + (1 - o) * c;
      R.tol[i] = o * (hi - lo) / 2 + (1 - o) * t + R.tol[3] + 3.5 / K;
    }
  }
  return R;
}

static const char *family(int f) {
  static const char *n[] = {"normal", "erase", "lock", "colorize", "posterize", "paint", "paint-erase", "paint-lock", "combined", "opaque-paint"};
  return n[f];
}
static void one(Case &c) {
  Rng &r = c.rng;
  Store st; st.logging = false; Store mk; mk.logging = false;
  uint64_t seed = r.u64();
  int kind = (int)r.below(4);
  if (kind == 0) { uint16_t p[4]; Rng q(seed); px_random(q, p); st.fill = fill_uniform(p[0], p[1], p[2], p[3]); }
  else if (kind == 1) st.fill = nullptr;
  else st.fill = fill_noise(seed);
  int fam = (int)(c.idx % 10);
  Dab d = gen_dab(r, 30, 25);
  d.radius = (float)r.range(3, 30); d.ratio = 1;
  if (r.chance(0.4)) { d.hardness = 1; d.softness = 0; }
  d.lock = d.colorize = d.posterize = d.paint = 0; d.alpha = 1;
  auto frac = [&]() { return r.chance(0.5) ? 1.f : (float)r.range(0.01, 1); };
  switch (fam) {
    case 0: break;
    case 1: d.alpha = r.chance(0.4) ? 0.f : (float)r.uni(); break;
    case 2: d.lock = frac(); break;
    case 3: d.colorize = frac(); if (r.chance(0.3)) d.r = d.g = d.b; break;
    case 4: d.posterize = frac(); break;
    case 5: d.paint = frac(); break;
    case 6: d.paint = frac(); d.alpha = r.chance(0.3) ? 0.f : (float)r.uni(); break;
    case 7: d.paint = frac(); d.lock = frac(); break;
    case 8: d.lock = r.chance(0.5) ? 0 : (float)r.uni(); d.colorize = r.chance(0.5) ? 0 : (float)r.uni(); d.posterize = r.chance(0.5) ? 0 : (float)r.uni();
            d.paint = r.chance(0.7) ? 0 : (float)r.uni(); d.alpha = r.chance(0.5) ? 1 : (float)r.uni(); break;
    case 9: d.paint = 1; d.opaque = 1; d.hardness = 1; d.softness = 0; break;
  }
  if (d.opaque == 0) d.opaque = 0.5f;
  c.desc("%s fill=%d seed=%llx: %s", family(fam), kind, (unsigned long long)seed, d.str().c_str());
  auto paint = [&](Store &s, const Dab &q) { mypaint_surface_begin_atomic(s.surf()); int m = draw(s.surf(), q); mypaint_surface_end_atomic(s.surf(), nullptr); return m; };
  // the dab's mask, observed on an empty surface with plain opaque paint
  Dab md = d; md.lock = md.colorize = md.posterize = md.paint = 0; md.alpha = 1; md.opaque = 1; md.r = md.g = md.b = 0;
  paint(mk, md);
  // touch the tiles first so that their initial content is known
  for (auto &k : mk.tiles) st.tile((int)(uint32_t)(k.first >> 32), (int)(uint32_t)k.first);
  Store::Snap before = st.snap();
  if (!paint(st, d)) { c.viol("refused", "dab returned 0"); return; }
  c.evals();
  uint64_t npx = 0; D worst = 0;
  for (auto &k : st.tiles) {
    int tx = (int)(uint32_t)(k.first >> 32), ty = (int)(uint32_t)k.first;
    const uint16_t *q = before.count(k.first) ? before[k.first].data() : nullptr, *m = mk.peek(tx, ty);
    if (!q || !m) { c.viol("tile", "dab touched tile %d,%d its mask does not reach", tx, ty); return; }
    for (int i = 0; i < TS * TS; i++) {
      const uint16_t *b = q + 4 * i, *a = k.second.px + 4 * i; D mask = m[4 * i + 3] / K;
      if (m[4 * i + 3] == 0) {
        if (memcmp(a, b, 8)) { c.viol("outside-mask", "pixel (%d,%d) changed though the dab's mask is 0 there", tx * TS + i % TS, ty * TS + i / TS); return; }
        continue;
      }
      npx++;
      if ((d.lock == 1 || d.colorize == 1 || d.posterize == 1) && a[3] != b[3]) {
        c.viol("alpha-changed", "%s: alpha of pixel (%d,%d) changed %d -> %d", family(fam), tx * TS + i % TS, ty * TS + i / TS, b[3], a[3]); return;
      }
      Ref R = reference(d, mask, b);
      for (int j = 0; j < 4; j++) {
        D e = fabs(a[j] - R.v[j] * K);
        if (R.tol[j] > 0) worst = std::max(worst, e / (R.tol[j] * K));
        if (!(e <= R.tol[j] * K + 0.5)) {
          c.viol(fmt("formula-%s", family(fam)).c_str(), "%s: pixel (%d,%d) %d %d %d %d, mask %.5f -> %d %d %d %d, expected channel %d = %.2f +- %.2f", family(fam), tx * TS + i % TS,
                 ty * TS + i / TS, b[0], b[1], b[2], b[3], mask, a[0], a[1], a[2], a[3], j, R.v[j] * K, R.tol[j] * K);
          return;
        }
      }
      if (fam == 9) {   // spectral at full opacity is the brush colour
        D want[4] = {floor(d.r * K), floor(d.g * K), floor(d.b * K), K};
        if (m[4 * i + 3] == 32768) for (int j = 0; j < 4; j++) if (fabs(a[j] - want[j]) > 0.008 * K) {
          c.viol("opaque-paint", "full opacity spectral paint gives %d %d %d %d for colour %g %g %g", a[0], a[1], a[2], a[3], d.r, d.g, d.b); return;
        }
      }
    }
  }
  c.count("pixels", npx); if (npx) c.count(family(fam));
  c.sig(mixh(fam, mixh(npx, fnv(&d, sizeof d))));
  if (c.idx % 61 == 3) c.sample("%s: %llu pixels under the mask match the reference, worst deviation %.2f of the tolerance; %s", family(fam), (unsigned long long)npx, worst, d.str().c_str());
  if (opt().verbose) fprintf(stderr, "worst %s %.3f\n", family(fam), worst);
  // nothing happens at opacity 0
  Dab z = d; z.opaque = 0; uint64_t h = st.hash();
  if (paint(st, z) || st.hash() != h) { c.viol("opacity-zero", "a dab of opacity 0 changed the surface or claimed to"); return; }
}
VP_MAIN("P07", one)
