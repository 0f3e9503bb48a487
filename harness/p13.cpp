// P13: dab spacing follows the settings, not how events are split.
#include "bmodel.hpp"
using namespace vp;
typedef double D;
static const std::set<int> MOTION = {ST_(X), ST_(Y), ST_(PRESSURE), ST_(DECLINATION), ST_(ASCENSION), ST_(DECLINATIONX), ST_(DECLINATIONY), ST_(BARREL_ROTATION), ST_(PARTIAL_DABS), ST_(DABS_PER_BASIC_RADIUS), ST_(DABS_PER_ACTUAL_RADIUS), ST_(DABS_PER_SECOND)};
// every step of random strokes against the step model
static void steps_case(Case &c) {
  Rng &r = c.rng; Brush br; br.plain();
  br.set(S_(RADIUS_LOGARITHMIC), (float)r.range(-2, 4.5)); br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(0, 5)); br.set(S_(DABS_PER_BASIC_RADIUS), (float)r.range(0, 5));
  if (br.get(S_(RADIUS_LOGARITHMIC)) < 0.5) { br.set(S_(DABS_PER_ACTUAL_RADIUS), (float)r.range(0, 1)); br.set(S_(DABS_PER_BASIC_RADIUS), (float)r.range(0, 1)); }
  if (r.chance(0.4)) br.set(S_(DABS_PER_SECOND), (float)r.range(0, 60));
  if (r.chance(0.4)) { br.set(S_(ELLIPTICAL_DAB_RATIO), (float)r.range(1, 6)); br.set(S_(ELLIPTICAL_DAB_ANGLE), (float)r.range(0, 180)); }
  if (r.chance(0.3)) br.map(S_(RADIUS_LOGARITHMIC), I_(PRESSURE), {{0, -0.5f}, {1, 0.8f}}); if (r.chance(0.3)) br.map(S_(DABS_PER_ACTUAL_RADIUS), I_(TILT_DECLINATION), {{0, 0}, {90, 2}});
  if (r.chance(0.3)) br.map(S_(DABS_PER_BASIC_RADIUS), I_(PRESSURE), {{0, 0}, {1, 2}}); if (r.chance(0.2)) br.map(S_(DABS_PER_SECOND), I_(PRESSURE), {{0, 5}, {1, 30}});
  if (r.chance(0.2)) br.map(S_(ELLIPTICAL_DAB_RATIO), I_(PRESSURE), {{0, 0}, {1, 3}});
  if (r.chance(0.3)) br.set(S_(SLOW_TRACKING), (float)r.range(0, 10)); if (r.chance(0.2)) br.set(S_(SLOW_TRACKING_PER_DAB), (float)r.range(0, 10));
  Model m(br.b); Mock mk; mk.keep = false; std::string why;
  m.on_state = [&](int i, U p, float o, double per) { if (MOTION.count(i) && why.empty() && Model::off(p, o, per)) why = fmt("state %s is %.9g, expected %.9g +- %.2g", stname(i), o, p.v, p.u); };
  mk.on_dab = [&](const Dab &d) { m.dab(d); return 1; };
  Walk w(r, r.chance(0.15) ? 8000 : 300); int n = r.irange(5, 50); bool painted_fast = false;
  for (int i = 0; i < n; i++) {
    Event e = w.next(r);
    if (r.chance(0.3)) e.dt = r.logrange(0.0001, 0.09); if (r.chance(0.1)) { e.p = 0; w.p = 0; } if (r.chance(0.05)) e.dt = r.range(0.1, 5.2);
    if (r.chance(0.02)) { mypaint_brush_reset(br.b); m.reset_req = true; }
    c.desc("%s", evstr(e).c_str());
    uint64_t d0 = m.dabs; m.begin(e); stroke(br.b, mk.surf(), e); m.end();
    if (!m.err.empty()) { c.viol("spacing", "event %d after %llu dabs of it: %s", i, (unsigned long long)(m.dabs - d0), m.err.c_str()); return; }
    if (!why.empty()) { c.viol("interpolation", "event %d: %s", i, why.c_str()); return; }
    if (m.lost) c.count("events_abandoned");
    c.count(m.dabs == d0 ? "events_without_dab" : m.dabs == d0 + 1 ? "events_with_one_dab" : "events_with_more_dabs"); if (m.subs.size() > 1) c.count("late_presses"); if (m.was_reset) c.count("resets");
    if (m.dabs - d0 > 30) painted_fast = true; c.evals(); c.sig(mixh(m.dabs, (uint64_t)(e.x * 1000)));
    if (m.dabs > 700) break;
  }
  (void)painted_fast; c.count("dabs_modelled", m.dabs); c.count("state_comparisons", m.compared);
}
// a straight motion with constant parameters: closed form, and the same motion split into more events
struct Rec { D x, y, p, dec, bar; };
static void split_case(Case &c) {
  Rng &r = c.rng; uint64_t bs = r.u64();
  auto setup = [&](Brush &b) { Rng q(bs); b.plain(); b.set(S_(RADIUS_LOGARITHMIC), (float)q.range(0, 4)); b.set(S_(DABS_PER_ACTUAL_RADIUS), (float)(q.chance(0.2) ? 0 : q.range(0.1, 4))); b.set(S_(DABS_PER_BASIC_RADIUS), (float)(q.chance(0.4) ? 0 : q.range(0.1, 4)));
    if (q.chance(0.4)) b.set(S_(DABS_PER_SECOND), (float)q.range(1, 50)); if (q.chance(0.5)) { b.set(S_(ELLIPTICAL_DAB_RATIO), (float)q.range(1, 8)); b.set(S_(ELLIPTICAL_DAB_ANGLE), (float)q.range(0, 180)); } };
  D ext = r.pick({100, 1000, 10000}), x0 = (float)r.range(-ext, ext), y0 = (float)r.range(-ext, ext), L = r.logrange(1, 300), a = r.range(0, 2 * M_PI), T = r.logrange(0.001, 2), p0 = (float)r.range(0.1, 1), p1 = (float)r.range(0.1, 1);
  D b0 = (float)r.range(0, 1), b1 = (float)r.range(0, 1); if (fabs(fabs(b0 - b1) - 0.5) < 0.01) b1 = b0;
  float xt = (float)r.range(-1, 1), yt = (float)r.range(-1, 1), rot = r.chance(0.5) ? 0.f : (float)r.range(-3, 3), zoom = (float)r.pick({1, 2, 0.5});
  D x1 = x0 + L * cos(a), y1 = y0 + L * sin(a); D bd = wrapd(b1 - b0, 1);
  std::vector<Rec> ref; D refprog = 0;
  for (int run = 0; run < 3; run++) {
    Brush b; setup(b); Mock mk; mk.keep = false; std::vector<Rec> rec;
    mk.on_dab = [&](const Dab &) { rec.push_back({b.state(ST_(X)), b.state(ST_(Y)), b.state(ST_(PRESSURE)), b.state(ST_(DECLINATION)), b.state(ST_(BARREL_ROTATION))}); return 1; };
    auto go = [&](D f0, D f1, D extra) { Event e{(float)(x0 + (x1 - x0) * f1), (float)(y0 + (y1 - y0) * f1), (float)(p0 + (p1 - p0) * f1), xt, yt, T * (f1 - f0) + extra, zoom, rot, (float)(b0 + bd * f1), false}; stroke(b.b, mk.surf(), e); };
    go(0, 0, 10);                      // reset at the start
    go(0, 0, 0.0005); go(0, 0, 0.0005);   // settle
    size_t pre = rec.size(); D part0 = b.state(ST_(PARTIAL_DABS)); rec.erase(rec.begin(), rec.begin() + pre); (void)part0;
    std::vector<D> cut = {0, 1};
    if (run) { int k = r.irange(1, run == 1 ? 3 : 40); for (int i = 0; i < k; i++) cut.push_back(r.range(0, 1)); if (run == 2 && r.chance(0.3)) { cut.push_back(1e-5); cut.push_back(1 - 1e-5); } std::sort(cut.begin(), cut.end()); }
    for (size_t i = 0; i + 1 < cut.size(); i++) go(cut[i], cut[i + 1], 0);
    D prog = rec.size() + b.state(ST_(PARTIAL_DABS)) - part0;
    // closed form
    D R = std::min(1000.0, std::max(0.2, exp((D)b.get(S_(RADIUS_LOGARITHMIC))))), ratio = b.get(S_(ELLIPTICAL_DAB_RATIO)), th = (b.get(S_(ELLIPTICAL_DAB_ANGLE)) - rot * DEG) * M_PI / 180, dx = x1 - x0, dy = y1 - y0;
    D dist = ratio > 1 ? hypot((dy * cos(th) - dx * sin(th)) * ratio, dy * sin(th) + dx * cos(th)) : L;
    D total = dist * (b.get(S_(DABS_PER_ACTUAL_RADIUS)) + b.get(S_(DABS_PER_BASIC_RADIUS))) / R + T * b.get(S_(DABS_PER_SECOND));
    if (total > 4000) return;
    // splitting rounds the cut points to float positions and each event starts from a rounded position
    D ulp = 1.2e-7 * (ext + L), per = std::max(ratio, 1.0) * (b.get(S_(DABS_PER_ACTUAL_RADIUS)) + b.get(S_(DABS_PER_BASIC_RADIUS))) / R;
    D tol = 1e-4 + 3e-6 * total + (2.0 * (rec.size() + cut.size())) * ulp * per;
    // shallow cuts change the length by at most the rounding of their end points
    if (fabs(prog - total) > tol + cut.size() * ulp * per * 2) { c.viol("progress", "%zu events: %zu dabs and %.6f pending = %.6f dabs, spacing settings give %.6f over %.4f px in %.4f s", cut.size() - 1, rec.size(), (D)b.state(ST_(PARTIAL_DABS)), prog, total, L, T); return; }
    for (size_t k = 0; k < rec.size(); k++) {
      D f = total > 0 ? (k + 1 - part0) / total : 0, pt = 3 * ulp * (1 + 0.2 * cut.size()) + tol / std::max(total, 1e-9) * L + 1e-4;
      if (f > 1) f = 1;
      const Rec &q = rec[k];
      if (fabs(q.x - (x0 + dx * f)) > pt || fabs(q.y - (y0 + dy * f)) > pt) { c.viol("position", "%zu events: dab %zu of %zu at (%.5f,%.5f), expected (%.5f,%.5f)", cut.size() - 1, k, rec.size(), q.x, q.y, x0 + dx * f, y0 + dy * f); return; }
      D ft = tol / std::max(total, 1e-9) + 1e-5;
      if (fabs(q.p - (p0 + (p1 - p0) * f)) > ft) { c.viol("pressure", "%zu events: dab %zu has pressure %.6f, expected %.6f", cut.size() - 1, k, q.p, p0 + (p1 - p0) * f); return; }
      D bw = wrapd(q.bar - 360 * (b0 + bd * f), 360); if (fabs(bw) > 360 * ft + 0.002) { c.viol("rotation", "%zu events: dab %zu has barrel rotation %.4f, expected %.4f", cut.size() - 1, k, q.bar, 360 * (b0 + bd * f)); return; }
    }
    if (run == 0) { ref = rec; refprog = prog; } else { if (fabs(prog - refprog) > 2 * tol) { c.viol("split", "splitting into %zu events changed the progress from %.6f to %.6f dabs", cut.size() - 1, refprog, prog); return; } c.count("splits"); }
    c.evals(); c.count("closed_form_dabs", rec.size()); c.sig(mixh(rec.size(), cut.size() * 1000 + (uint64_t)(L * 100)));
    if (c.idx % 61 == 1 && run == 2) c.sample("%.2f px in %.4f s split into %zu events: %zu dabs + %.4f pending, closed form %.4f", L, T, cut.size() - 1, rec.size(), (D)b.state(ST_(PARTIAL_DABS)), total);
  }
}
static void one(Case &c) { if (c.idx & 1) split_case(c); else steps_case(c); }
VP_MAIN("P13", one)
