// Brush documents as text.
#pragma once
#include "lib.hpp"
namespace vp {
typedef std::vector<std::pair<double, double>> DCurve;
inline std::string ws(Rng &r) { std::string s; while (r.chance(0.25)) s += r.pick({0, 1, 2, 3}) == 0 ? "\n" : r.chance(0.5) ? " " : r.chance(0.5) ? "\t" : "\r\n"; return s; }
// a literal for v, and the value it really denotes
inline std::string num(Rng &r, double &v) {
  char b[64];
  switch (r.below(6)) {
    case 0: v = round(v); snprintf(b, sizeof b, "%d", (int)v); v = (int)v; return b;
    case 1: snprintf(b, sizeof b, "%.3f", v); break;
    case 2: snprintf(b, sizeof b, "%.9e", v); break;
    case 3: snprintf(b, sizeof b, "%.17g", v); break;
    case 4: snprintf(b, sizeof b, "%.2E", v); break;
    default: snprintf(b, sizeof b, "%.6g", v);
  }
  v = strtod(b, nullptr); return b;
}
inline DCurve dcurve(Rng &r, double lo, double hi, double amp) {
  int n = r.chance(0.15) ? 0 : r.chance(0.5) ? r.irange(2, 5) : r.chance(0.2) ? 64 : r.irange(2, 64);
  std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(r.range(lo, hi));
  std::sort(x.begin(), x.end()); DCurve c;
  for (int i = 0; i < n; i++) c.push_back({x[i], r.range(-amp, amp)});
  return c;
}
struct DocSetting { int id; double base; std::vector<std::pair<int, DCurve>> in; };
struct Doc { std::vector<DocSetting> s; std::string text; };
// a well-formed document setting a random subset of the settings; "extra" adds members a loader has to ignore
inline Doc gen_doc(Rng &r, double prob, bool extra) {
  Doc d; std::vector<int> ids; for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) if (r.chance(prob)) ids.push_back(i);
  for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.below((uint32_t)i)]);
  std::vector<std::string> mem;
  for (int id : ids) {
    const MyPaintBrushSettingInfo *si = mypaint_brush_setting_info((MyPaintBrushSetting)id);
    DocSetting s; s.id = id; s.base = r.chance(0.1) ? si->def : r.range(si->min, si->max);
    std::string bt = num(r, s.base), it;
    int ni = r.chance(0.4) ? 0 : r.chance(0.8) ? r.irange(1, 3) : MYPAINT_BRUSH_INPUTS_COUNT; std::set<int> used;
    for (int k = 0; k < ni; k++) {
      int in = ni == MYPAINT_BRUSH_INPUTS_COUNT ? k : (int)r.below(MYPAINT_BRUSH_INPUTS_COUNT); if (!used.insert(in).second) continue;
      const MyPaintBrushInputInfo *ii = mypaint_brush_input_info((MyPaintBrushInput)in);
      DCurve c = dcurve(r, ii->soft_min, ii->soft_max, std::min(100.0, (double)(si->max - si->min)));
      std::string pt; double prev = -1e300;
      for (size_t i = 0; i < c.size(); i++) {
        std::string xs = num(r, c[i].first);
        if ((float)c[i].first < (float)prev) { c[i].first = prev; char b[40]; snprintf(b, sizeof b, "%.17g", prev); xs = b; }
        prev = c[i].first;
        std::string ys = num(r, c[i].second);
        pt += (i ? "," : "") + ws(r) + "[" + ws(r) + xs + ws(r) + "," + ws(r) + ys + "]" + ws(r);
      }
      it += std::string(it.empty() ? "" : ",") + ws(r) + "\"" + ii->cname + "\"" + ws(r) + ":" + ws(r) + "[" + pt + "]";
      s.in.push_back({in, c});
    }
    std::string bv = "\"base_value\":" + ws(r) + bt, inp = "\"inputs\":" + ws(r) + "{" + it + ws(r) + "}";
    std::string body = r.chance(0.5) ? bv + "," + ws(r) + inp : inp + ws(r) + "," + bv;
    if (extra && r.chance(0.1)) body += ",\"note\":" + std::string(r.chance(0.5) ? "null" : "{\"a\":[1,2]}");
    mem.push_back("\"" + std::string(si->cname) + "\"" + ws(r) + ":" + ws(r) + "{" + ws(r) + body + ws(r) + "}");
    d.s.push_back(s);
  }
  if (extra) while (r.chance(0.4)) {
    const char *unk[] = {"adapt_color_from_image", "opaqu", "opaque_", "Opaque", "", "radius", "zzz", "stroke_treshold"};
    mem.insert(mem.begin() + r.below((uint32_t)mem.size() + 1), fmt("\"%s\":{\"base_value\": %g, \"inputs\": {\"pressure\": [[0,0],[1,1]]}}", unk[r.below(8)], r.range(-1, 1)));
  }
  std::string st; for (size_t i = 0; i < mem.size(); i++) st += (i ? "," : "") + ws(r) + mem[i];
  std::vector<std::string> top = {"\"version\":" + ws(r) + "3", "\"settings\":" + ws(r) + "{" + st + ws(r) + "}"};
  if (r.chance(0.5)) top.push_back("\"comment\": \"MyPaint brush file \\u00e9 \\\" \\\\ \"");
  if (r.chance(0.5)) top.push_back("\"parent_brush_name\":\"classic/bulk\""); if (r.chance(0.3)) top.push_back("\"group\": \"\"");
  for (size_t i = top.size(); i > 1; i--) std::swap(top[i - 1], top[r.below((uint32_t)i)]);
  d.text = ws(r) + "{"; for (size_t i = 0; i < top.size(); i++) d.text += (i ? "," : "") + ws(r) + top[i];
  d.text += ws(r) + "}" + ws(r);
  return d;
}
// base values and curves of every setting, as the getters report them
struct BrushDump {
  struct E { float base; std::vector<std::vector<std::pair<float, float>>> in; };
  std::vector<E> e;
  bool operator==(const BrushDump &o) const {
    for (size_t i = 0; i < e.size(); i++) {
      if (memcmp(&e[i].base, &o.e[i].base, 4) || e[i].in.size() != o.e[i].in.size()) return false;
      for (size_t k = 0; k < e[i].in.size(); k++) if (e[i].in[k].size() != o.e[i].in[k].size() || (e[i].in[k].size() && memcmp(e[i].in[k].data(), o.e[i].in[k].data(), e[i].in[k].size() * 8))) return false;   // bitwise: a NaN equals itself
    }
    return true;
  }
};
inline BrushDump dump(MyPaintBrush *b) {
  BrushDump d; d.e.resize(MYPAINT_BRUSH_SETTINGS_COUNT);
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) {
    d.e[s].base = mypaint_brush_get_base_value(b, (MyPaintBrushSetting)s); d.e[s].in.resize(MYPAINT_BRUSH_INPUTS_COUNT);
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) {
      int n = mypaint_brush_get_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i);
      for (int k = 0; k < n; k++) { float x, y; mypaint_brush_get_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, k, &x, &y); d.e[s].in[i].push_back({x, y}); }
    }
  }
  return d;
}
}  // namespace vp
