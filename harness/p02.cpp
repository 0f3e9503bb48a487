// P02: loading a brush is total.
#include "jsongen.hpp"
using namespace vp;
static std::string hostile_value(Rng &r, int depth = 0) {
  switch (r.below(depth > 3 ? 14 : 18)) {
    case 0: return "null"; case 1: return "true"; case 2: return "\"text\""; case 3: return "[]"; case 4: return "{}";
    case 5: return "NaN"; case 6: return "Infinity"; case 7: return "-Infinity"; case 8: return "1e999"; case 9: return "-1e308";
    case 10: return "9223372036854775808"; case 11: return "1e-400"; case 12: return "\"\\u0000\""; case 13: return fmt("%.9g", r.range(-10, 10));
    case 14: { std::string s = "["; int n = r.pick({1, 2, 3, 63, 64, 65, 66, 100, 4096}); for (int i = 0; i < n && s.size() < 200000; i++) s += (i ? "," : "") + hostile_value(r, depth + 2); return s + "]"; }
    case 15: { int n = (int)r.pick({1, 2, 5, 63, 64, 65, 66, 128, 1000}); std::string s = "["; bool ord = r.chance(0.6);
      for (int i = 0; i < n; i++) s += fmt("%s[%.9g,%.9g]", i ? "," : "", ord ? i * 0.01 : r.range(-1, 1), r.range(-1, 1)); return s + "]"; }
    case 16: { std::string s = "{"; int n = r.irange(1, 4); for (int i = 0; i < n; i++) s += fmt("%s\"%s\":", i ? "," : "", mypaint_brush_input_info((MyPaintBrushInput)r.below(MYPAINT_BRUSH_INPUTS_COUNT))->cname) + hostile_value(r, depth + 1); return s + "}"; }
    default: { std::string s = "["; int n = (int)r.pick({2, 3, 4}); for (int i = 0; i < n; i++) { s += i ? ",[" : "["; int m = (int)r.pick({0, 1, 2, 2, 3}); for (int k = 0; k < m; k++) s += (k ? "," : "") + hostile_value(r, 4); s += "]"; } return s + "]"; }
  }
}
// position of a random occurrence of a value: after ':' , '[' or ','
static bool value_span(Rng &r, const std::string &t, size_t &a, size_t &b) {
  for (int k = 0; k < 20; k++) {
    size_t p = r.below((uint32_t)t.size());
    while (p < t.size() && !strchr(":[,", t[p])) p++;
    if (p >= t.size()) continue;
    a = p + 1; while (a < t.size() && isspace((unsigned char)t[a])) a++;
    int d = 0; bool q = false; b = a;
    for (; b < t.size(); b++) {
      char ch = t[b];
      if (q) { if (ch == '\\') b++; else if (ch == '"') q = false; continue; }
      if (ch == '"') q = true; else if (ch == '[' || ch == '{') d++;
      else if (ch == ']' || ch == '}') { if (!d) break; d--; } else if (ch == ',' && !d) break;
    }
    if (b > a && b <= t.size()) return true;
  }
  return false;
}
static std::string hostile(Rng &r) {
  int k = (int)r.below(12);
  if (k == 0) { const char *s[] = {"", " ", "{", "}", "[", "]", "null", "3", "\"x\"", "[[[", "{}", "[]", "{\"version\":3}", "{\"version\":3,\"settings\":[]}", "{\"version\":3,\"settings\":3}", "{\"version\":3,\"settings\":null}", "{\"version\":{},\"settings\":{}}", "{\"version\":\"3\",\"settings\":{\"opaque\":1}}", "\xff\xfe", "{\"version\":3,\"settings\":{\"opaque\":{}}}", "{\"version\":3.5,\"settings\":{\"opaque\":[]}}", "nul", "tru", "-", "\"\\u12", "{\"a\":1,}", "/* c */{}", "3 {}"}; return s[r.below(sizeof s / sizeof *s)]; }
  if (k == 1) { int n = (int)r.pick({10, 100, 5000}); std::string s; for (int i = 0; i < n; i++) s += (char)(1 + r.below(255)); return s; }
  if (k == 2) { int n = (int)r.pick({30, 31, 32, 33, 1000, 50000}); std::string s, o = r.chance(0.5) ? "[" : "{\"a\":"; for (int i = 0; i < n; i++) s += o; return s; }
  Doc d = gen_doc(r, r.pick({0.03, 0.1, 0.4}), r.chance(0.3)); std::string t = d.text;
  if (k <= 7) {         // structural: replace whole values
    int n = r.irange(1, 4);
    for (int i = 0; i < n; i++) { size_t a, b; if (value_span(r, t, a, b)) t = t.substr(0, a) + hostile_value(r) + t.substr(b); }
  } else if (k == 8) t = t.substr(0, r.below((uint32_t)t.size()));
  else if (k == 9) { int n = r.irange(1, 8); for (int i = 0; i < n; i++) t[r.below((uint32_t)t.size())] = (char)(1 + r.below(255)); }
  else if (k == 10) { int n = r.irange(1, 5); for (int i = 0; i < n && !t.empty(); i++) { size_t a = r.below((uint32_t)t.size()), l = r.below(40); if (r.chance(0.5)) t.erase(a, l); else t.insert(a, t.substr(r.below((uint32_t)t.size()), l)); } }
  else {   // a name that is known elsewhere, or over-long
    size_t p = t.find("\"inputs\""); if (p != std::string::npos) { size_t q = t.find('{', p); if (q != std::string::npos) t.insert(q + 1, "\"" + (r.chance(0.5) ? std::string(100000, 'x') : std::string(r.chance(0.5) ? "opaque" : "nothing")) + "\":" + hostile_value(r) + ","); }
  }
  return t;
}
// a document that determines every setting and curve
static std::string full_doc(Rng &r) {
  std::string s = "{\"version\":3,\"settings\":{";
  for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
    const MyPaintBrushSettingInfo *si = mypaint_brush_setting_info((MyPaintBrushSetting)i); double v = si->def;
    if (i == S_(RADIUS_LOGARITHMIC)) v = r.range(0, 2.5); else if (i == S_(COLOR_H) || i == S_(COLOR_S) || i == S_(COLOR_V) || i == S_(HARDNESS) || i == S_(LOCK_ALPHA)) v = r.uni();
    s += fmt("%s\"%s\":{\"base_value\":%.9g,\"inputs\":{", i ? "," : "", si->cname, v);
    for (int k = 0; k < MYPAINT_BRUSH_INPUTS_COUNT; k++) s += fmt("%s\"%s\":%s", k ? "," : "", mypaint_brush_input_info((MyPaintBrushInput)k)->cname, k == I_(PRESSURE) && i == S_(OPAQUE_MULTIPLY) ? "[[0,0],[0.5,0.25],[1,1]]" : "[]");
    s += "}}";
  }
  return s + "}}";
}
static void one(Case &c) {
  Rng &r = c.rng;
  MyPaintBrush *b = mypaint_brush_new(); if (!b) harness_error("no brush");
  struct Un { MyPaintBrush *b; ~Un() { mypaint_brush_unref(b); } } un{b};
  if (r.chance(0.7)) mypaint_brush_from_defaults(b);
  int n = r.irange(1, 12); uint64_t h = 0;
  for (int k = 0; k < n; k++) {
    std::string t; bool null = r.chance(0.01);
    if (!null) t = hostile(r);
    c.desc("load %s", null ? "NULL" : t.substr(0, 700).c_str());
    BrushDump before = dump(b);
    // an exact-size copy, so that reading past the end is an error
    char *copy = (char *)malloc(t.size() + 1); memcpy(copy, t.c_str(), t.size() + 1);
    int ok = mypaint_brush_from_string(b, null ? nullptr : copy);
    free(copy);
    c.evals(); h = mixh(h, fnv(t.data(), t.size())); c.sig(h);
    if (ok != 0 && ok != 1) { c.viol("result", "the loader returned %d", ok); return; }
    c.count(ok ? "accepted" : "rejected");
    BrushDump d = dump(b);
    for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) {
      auto &p = d.e[s].in[i];
      if (p.size() == 1 || p.size() > 64) { c.viol("curve-size", "setting %d input %d has %zu points after a load", s, i, p.size()); return; }
      for (size_t q = 1; q < p.size(); q++) if (!(p[q].first >= p[q - 1].first)) { c.viol("curve-order", "setting %d input %d has points out of order after a load", s, i); return; }
    }
    if (!ok && !(d == before)) c.count("rejected_in_part");
    if (r.chance(0.15)) { mypaint_brush_new_stroke(b); mypaint_brush_reset(b); mypaint_brush_get_total_stroke_painting_time(b); }
  }
  // what is certainly no brush is refused, and changes nothing
  if (r.chance(0.7)) {
    std::string v0 = full_doc(r), t; size_t vp = v0.find("\"settings\""), br = v0.find('{', vp); int kind = (int)r.below(8);
    static const char *wrong[] = {"[]", "3", "\"x\"", "null", "true", "[{\"opaque\":{\"base_value\":1,\"inputs\":{}}}]", "0.5"};
    std::string set = v0.substr(br, v0.size() - 1 - br);
    switch (kind) {
      case 0: t = r.chance(0.5) ? "[" + v0 + "]" : wrong[r.below(7)]; break;
      case 1: t = "{\"settings\":" + set + "}"; break;
      case 2: t = fmt("{\"version\":%d,\"settings\":", (int)r.pick({-3, 0, 1, 2, 4, 5, 30, 33, 1000000})) + set + "}"; break;
      case 3: t = "{\"version\":3,\"comment\":" + set + "}"; break;
      case 4: t = std::string("{\"version\":3,\"settings\":") + wrong[r.below(7)] + "}"; break;
      case 5: t = v0.substr(0, r.below((uint32_t)v0.size())); break;
      case 6: t = "{\"version\":3,\"settings\":{}}"; break;
      default: t = "{\"version\":3,\"settings\":{\"no_such_setting\":{\"base_value\":1,\"inputs\":{}},\"opaqueness\":{\"base_value\":1,\"inputs\":{\"pressure\":[[0,0],[1,1]]}}}}"; break;
    }
    c.desc("no brush: %s", t.substr(0, 200).c_str()); BrushDump before = dump(b); int ok = mypaint_brush_from_string(b, t.c_str()); c.evals(); c.count("no_brush");
    if (ok) { c.viol("accepted", "what is no brush (kind %d) was reported as loaded: %s", kind, t.substr(0, 200).c_str()); return; }
    if (!(dump(b) == before)) { c.viol("refused-changes", "a refused load (kind %d) changed the brush: %s", kind, t.substr(0, 200).c_str()); return; }
  }
  // the brush is still usable: a valid load gives exactly what a fresh brush gets from it
  Brush f(0, false); std::string v = full_doc(r);
  int r1 = mypaint_brush_from_string(b, v.c_str()), r2 = mypaint_brush_from_string(f.b, v.c_str());
  if (!r1 || !r2) { c.viol("reload", "a valid document was refused (%d, fresh brush %d)", r1, r2); return; }
  if (!(dump(b) == dump(f.b))) { c.viol("reload", "a valid document loads differently into a brush that was given bad strings before"); return; }
  Mock m1, m2; uint64_t ws = r.u64(); Walk w1(r), w2 = w1; Rng q1(ws), q2(ws);
  for (int i = 0; i < 12; i++) {
    Event e = w1.next(q1); int a = stroke(b, m1.surf(), e), z = stroke(f.b, m2.surf(), e);
    if (a != z || m1.dabs.size() != m2.dabs.size()) { c.viol("usable", "after bad strings event %d paints %zu dabs, %zu on a fresh brush", i, m1.dabs.size(), m2.dabs.size()); return; }
  }
  for (size_t i = 0; i < m1.dabs.size(); i++) if (memcmp(&m1.dabs[i], &m2.dabs[i], sizeof(Dab))) { c.viol("usable", "dab %zu is %s, on a fresh brush %s", i, m1.dabs[i].str().c_str(), m2.dabs[i].str().c_str()); return; }
  c.count("dabs_after_bad_loads", m1.dabs.size()); c.count("reloads");
  if (c.idx % 53 == 5) c.sample("%d hostile strings, then a valid load and %zu dabs identical to a fresh brush's", n, m1.dabs.size());
}
VP_MAIN("P02", one)
