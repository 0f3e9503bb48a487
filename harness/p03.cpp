// P03: loading, defaults and metadata are faithful.
#include "jsongen.hpp"
#include <json.h>
using namespace vp;
static const char *sn(int s) { return mypaint_brush_setting_info((MyPaintBrushSetting)s)->cname; }
static bool same(Case &c, MyPaintBrush *b, const BrushDump &want, const char *when) {
  BrushDump g = dump(b);
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) {
    if (g.e[s].base != want.e[s].base) { c.viol("base", "%s: %s base value is %.9g, expected %.9g", when, sn(s), g.e[s].base, want.e[s].base); return false; }
    int used = 0;
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) {
      const char *in = mypaint_brush_input_info((MyPaintBrushInput)i)->cname; used += !want.e[s].in[i].empty();
      if (g.e[s].in[i].size() != want.e[s].in[i].size()) { c.viol("points", "%s: %s/%s has %zu points, expected %zu", when, sn(s), in, g.e[s].in[i].size(), want.e[s].in[i].size()); return false; }
      for (size_t k = 0; k < g.e[s].in[i].size(); k++) if (g.e[s].in[i][k] != want.e[s].in[i][k]) {
        c.viol("point", "%s: %s/%s point %zu is (%.9g,%.9g), expected (%.9g,%.9g)", when, sn(s), in, k, g.e[s].in[i][k].first, g.e[s].in[i][k].second, want.e[s].in[i][k].first, want.e[s].in[i][k].second); return false; }
    }
    if (mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)s) != used || !!mypaint_brush_is_constant(b, (MyPaintBrushSetting)s) != (used == 0)) {
      c.viol("used", "%s: %s has %d curves, reports %d (constant %d)", when, sn(s), used, mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)s), mypaint_brush_is_constant(b, (MyPaintBrushSetting)s)); return false; }
  }
  return true;
}
static BrushDump defaults() {
  BrushDump d; d.e.resize(MYPAINT_BRUSH_SETTINGS_COUNT);
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) { d.e[s].base = mypaint_brush_setting_info((MyPaintBrushSetting)s)->def; d.e[s].in.resize(MYPAINT_BRUSH_INPUTS_COUNT); }
  d.e[S_(OPAQUE_MULTIPLY)].in[I_(PRESSURE)] = {{0, 0}, {1, 1}};
  return d;
}
// the published metadata, from the definition file the tables are generated from
static void metadata(Case &c) {
  const char *src = getenv("VP_SRC"); if (!src) harness_error("VP_SRC not set");
  json_object *j = json_object_from_file((std::string(src) + "/brushsettings.json").c_str()); if (!j) harness_error("no brushsettings.json");
  auto g = [](json_object *o, const char *k) { json_object *v = nullptr; json_object_object_get_ex(o, k, &v); return v; };
  auto str = [&](json_object *o, const char *k) { json_object *v = g(o, k); return std::string(v ? json_object_get_string(v) : "?"); };
  json_object *ss = g(j, "settings"), *is = g(j, "inputs"), *st = g(j, "states");
  if (!ss || !is || !st) harness_error("brushsettings.json has another layout");
  if ((int)json_object_array_length(ss) != MYPAINT_BRUSH_SETTINGS_COUNT) c.viol("meta-count", "%d settings defined, %d compiled in", (int)json_object_array_length(ss), MYPAINT_BRUSH_SETTINGS_COUNT);
  if ((int)json_object_array_length(is) != MYPAINT_BRUSH_INPUTS_COUNT) c.viol("meta-count", "%d inputs defined, %d compiled in", (int)json_object_array_length(is), MYPAINT_BRUSH_INPUTS_COUNT);
  if ((int)json_object_array_length(st) != MYPAINT_BRUSH_STATES_COUNT) c.viol("meta-count", "%d states defined, %d compiled in", (int)json_object_array_length(st), MYPAINT_BRUSH_STATES_COUNT);
  std::set<std::string> names;
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT && !c.bad(); s++) {
    const MyPaintBrushSettingInfo *i = mypaint_brush_setting_info((MyPaintBrushSetting)s); json_object *o = json_object_array_get_idx(ss, s);
    if (!names.insert(i->cname).second) c.viol("meta-name", "setting name %s is used twice", i->cname);
    if (str(o, "internal_name") != i->cname) c.viol("meta-name", "setting %d is %s, defined as %s", s, i->cname, str(o, "internal_name").c_str());
    if (mypaint_brush_setting_from_cname(i->cname) != s) c.viol("meta-lookup", "setting %s (%d) is looked up as %d", i->cname, s, mypaint_brush_setting_from_cname(i->cname));
    if (!(i->min <= i->def && i->def <= i->max) || !(i->min < i->max)) c.viol("meta-order", "setting %s has min %g default %g max %g", i->cname, i->min, i->def, i->max);
    if (i->min != (float)json_object_get_double(g(o, "minimum")) || i->max != (float)json_object_get_double(g(o, "maximum")) || i->def != (float)json_object_get_double(g(o, "default")))
      c.viol("meta-range", "setting %s: compiled %g %g %g", i->cname, i->min, i->def, i->max);
    if (!!i->constant != !!json_object_get_boolean(g(o, "constant"))) c.viol("meta-constant", "setting %s constant flag %d", i->cname, i->constant);
    if (str(o, "displayed_name") != i->name || str(o, "tooltip") != i->tooltip) c.viol("meta-text", "setting %s: name or tooltip differ from the definition", i->cname);
    if (std::string(mypaint_brush_setting_info_get_name(i)) != i->name || std::string(mypaint_brush_setting_info_get_tooltip(i)) != i->tooltip) c.viol("meta-text", "setting %s: getters disagree", i->cname);
  }
  names.clear();
  for (int s = 0; s < MYPAINT_BRUSH_INPUTS_COUNT && !c.bad(); s++) {
    const MyPaintBrushInputInfo *i = mypaint_brush_input_info((MyPaintBrushInput)s); json_object *o = json_object_array_get_idx(is, s);
    if (!names.insert(i->cname).second) c.viol("meta-name", "input name %s is used twice", i->cname);
    if (str(o, "id") != i->cname) c.viol("meta-name", "input %d is %s, defined as %s", s, i->cname, str(o, "id").c_str());
    if (mypaint_brush_input_from_cname(i->cname) != s) c.viol("meta-lookup", "input %s (%d) is looked up as %d", i->cname, s, mypaint_brush_input_from_cname(i->cname));
    if (!(i->hard_min <= i->soft_min && i->soft_min <= i->normal && i->normal <= i->soft_max && i->soft_max <= i->hard_max)) c.viol("meta-order", "input %s: %g %g %g %g %g", i->cname, i->hard_min, i->soft_min, i->normal, i->soft_max, i->hard_max);
    struct { const char *k; float v, none; } f[] = {{"hard_minimum", i->hard_min, -FLT_MAX}, {"soft_minimum", i->soft_min, 0}, {"normal", i->normal, 0}, {"soft_maximum", i->soft_max, 0}, {"hard_maximum", i->hard_max, FLT_MAX}};
    for (auto &q : f) { json_object *v = g(o, q.k); float w = v && !json_object_is_type(v, json_type_null) ? (float)json_object_get_double(v) : q.none; if (w != q.v) c.viol("meta-range", "input %s %s is %g, defined as %g", i->cname, q.k, q.v, w); }
    if (str(o, "displayed_name") != i->name || str(o, "tooltip") != i->tooltip) c.viol("meta-text", "input %s: name or tooltip differ from the definition", i->cname);
    if (std::string(mypaint_brush_input_info_get_name(i)) != i->name || std::string(mypaint_brush_input_info_get_tooltip(i)) != i->tooltip) c.viol("meta-text", "input %s: getters disagree", i->cname);
  }
  for (const char *bad : {"", "opaqu", "opaquee", "OPAQUE", " opaque", "pressure_", "zzz"}) {
    if ((int)mypaint_brush_setting_from_cname(bad) >= 0 && (unsigned)mypaint_brush_setting_from_cname(bad) < MYPAINT_BRUSH_SETTINGS_COUNT) c.viol("meta-unknown", "unknown setting name '%s' maps to %d", bad, mypaint_brush_setting_from_cname(bad));
    if ((unsigned)mypaint_brush_input_from_cname(bad) < MYPAINT_BRUSH_INPUTS_COUNT) c.viol("meta-unknown", "unknown input name '%s' maps to %d", bad, mypaint_brush_input_from_cname(bad));
  }
  // state ids: the generated header lists them in definition order
  FILE *f = fopen((std::string(src) + "/mypaint-brush-settings-gen.h").c_str(), "r"); if (!f) harness_error("no generated header");
  std::string h; char buf[4096]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) h.append(buf, k); fclose(f);
  size_t pos = 0; names.clear();
  for (int s = 0; s < MYPAINT_BRUSH_STATES_COUNT && !c.bad(); s++) {
    json_object *o = json_object_array_get_idx(st, s); std::string n = json_object_is_type(o, json_type_string) ? json_object_get_string(o) : str(o, "id"), u;
    if (!names.insert(n).second) c.viol("meta-name", "state name %s is used twice", n.c_str());
    for (char ch : n) u += (char)toupper(ch);
    size_t q = h.find("MYPAINT_BRUSH_STATE_" + u + ",", pos); if (q == std::string::npos) q = h.find("MYPAINT_BRUSH_STATE_" + u + " ", pos);
    if (q == std::string::npos) c.viol("meta-states", "state %s is missing or out of order in the generated header", n.c_str()); else pos = q;
  }
  json_object_put(j); c.count("metadata");
}
static void one(Case &c) {
  Rng &r = c.rng;
  if (c.idx % 50 == 0) { metadata(c); if (c.bad()) return; }
  MyPaintBrush *b = r.chance(0.2) ? mypaint_brush_new_with_buckets(r.irange(1, 4)) : mypaint_brush_new(); if (!b) harness_error("no brush");
  struct Un { MyPaintBrush *b; ~Un() { mypaint_brush_unref(b); } } un{b};
  BrushDump want;
  if (r.chance(0.5)) { mypaint_brush_from_defaults(b); want = defaults(); if (!same(c, b, want, "after defaults")) return; c.count("defaults"); }
  else want = dump(b);
  int n = r.irange(1, 5); uint64_t h = 0;
  for (int k = 0; k < n; k++) {
    int what = (int)r.below(12);
    if (what == 0) { mypaint_brush_from_defaults(b); want = defaults(); if (!same(c, b, want, "after defaults")) return; c.count("defaults"); continue; }
    if (what == 1) {    // documents that must be rejected without effect
      Doc d = gen_doc(r, 0.3, false); size_t p = d.text.find("\"version\":"); std::string bad = d.text;
      switch (r.below(4)) {
        case 0: { size_t q = bad.find('3', p); bad[q] = (char)r.pick({'2', '4', '1', '0'}); break; }
        case 1: bad.replace(p, 9, "\"versiom\""); break;
        case 2: p = bad.find("\"settings\":"); bad.replace(p, 10, "\"settingz\""); break;
        default: bad = "{\"version\": 3, \"settings\": {\"opaqu\": {\"base_value\": 1.0, \"inputs\": {}}, \"nothing\": {\"base_value\": 1.0, \"inputs\": {}}}}";
      }
      c.desc("reject %s", bad.substr(0, 300).c_str());
      if (mypaint_brush_from_string(b, bad.c_str())) { c.viol("accepted", "a document without a known setting of version 3 was reported as loaded"); return; }
      if (!same(c, b, want, "after a rejected document")) return;
      c.count("rejected"); c.evals(); continue;
    }
    if (what == 2) {   // edits through the API between loads
      int s = (int)r.below(MYPAINT_BRUSH_SETTINGS_COUNT), i = (int)r.below(MYPAINT_BRUSH_INPUTS_COUNT); float v = (float)r.range(-3, 3);
      mypaint_brush_set_base_value(b, (MyPaintBrushSetting)s, v); want.e[s].base = v;
      mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 2);
      mypaint_brush_set_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 0, 0, v); mypaint_brush_set_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 1, 1, 2);
      want.e[s].in[i] = {{0, v}, {1, 2}};
    }
    Doc d = gen_doc(r, r.pick({0.03, 0.2, 0.6, 1.0}), r.chance(0.5));
    c.desc("load %s", d.text.substr(0, 1500).c_str());
    bool ok = mypaint_brush_from_string(b, d.text.c_str());
    for (auto &s : d.s) { want.e[s.id].base = (float)s.base; for (auto &i : s.in) { auto &q = want.e[s.id].in[i.first]; q.clear(); for (auto &p : i.second) q.push_back({(float)p.first, (float)p.second}); } }
    if (ok != !d.s.empty()) { c.viol("result", "load of a document with %zu known settings reported %d", d.s.size(), ok); return; }
    if (!same(c, b, want, "after loading")) return;
    c.evals(); c.count(d.s.empty() ? "empty_documents" : d.s.size() == MYPAINT_BRUSH_SETTINGS_COUNT ? "full_documents" : "partial_documents"); h = mixh(h, fnv(d.text.data(), d.text.size()));
    for (auto &s : d.s) c.count("curves", s.in.size());
    if (c.idx % 47 == 3) c.sample("document of %zu bytes setting %zu settings read back exactly, %zu others unchanged", d.text.size(), d.s.size(), MYPAINT_BRUSH_SETTINGS_COUNT - d.s.size());
  }
  if (h) c.sig(h);
}
VP_MAIN("P03", one)
