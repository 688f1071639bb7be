// Scenarios over histories: C08 (handles), C09 (recovery), C10 (isolation), C11 (determinism), C14 (probes), C16 (errors)
#include "ops.h"
#include <algorithm>

static Plan startPlan(Rng &r) { Plan p; Step cfg("cfg"); cfg.set("fill", (long)r.pick(std::vector<int>{0xCD, 0, 0xFF, 0x01, 0x80})); p.steps.push_back(cfg); return p; }
static void cfgPlan(const Plan &p) { for (auto &s : p.steps) if (s.op == "cfg") applyCfgStep(s); }
static GenOpt swarm(Rng &r) { GenOpt o; o.faultNum = (int)r.pick(std::vector<int>{1, 1, 1, 2}); o.faultDen = (int)r.pick(std::vector<int>{2, 3, 5}); o.slots = (int)r.range(1, 4); if (r.chance(1, 4)) o.allocFaults = false; else if (r.chance(1, 3)) o.ioFaults = false; if (r.chance(1, 3)) o.loads = false; if (r.chance(1, 3)) o.saves = false; if (r.chance(1, 3)) o.settings = false; if (r.chance(1, 3)) o.probes = false; if (r.chance(1, 4)) o.sub = false; if (!o.loads && !o.saves) o.pixels = true; else if (r.chance(1, 4)) o.pixels = false; return o; }
static str dig(const str &s) { return strf("%zu:%llx", s.size(), (unsigned long long)hashStr(s)); }
// fixes what the interface leaves to the process: clear colour, key colour, filter, placement
static void fixParameters() { ilClearColour(0.25f, 0.5f, 0.75f, 1); ilKeyColour(0.5f, 0.25f, 0.125f, 1); iluImageParameter(ILU_FILTER, ILU_BILINEAR); iluImageParameter(ILU_PLACEMENT, ILU_LOWER_LEFT); }
static std::vector<str> lines(const str &t) { std::vector<str> v; size_t a = 0; while (a < t.size()) { size_t b = t.find('\n', a); if (b == str::npos) b = t.size(); v.push_back(t.substr(a, b - a)); a = b + 1; } return v; }

// ============================================================ C08
static Plan genC08(Rng &r, u64 idx, bool th) {
  GenOpt o = swarm(r); o.pixels = false; o.loads = o.saves = o.probes = true; o.ioFaults = true; o.faultDen = 2; (void)idx;
  Plan p = startPlan(r); if (r.chance(1, 3)) randSettings(r, p, true); int cur = 0; p.steps.push_back(genImage(r));
  int n = (int)r.range(2, th ? 24 : 10);
  for (int i = 0; i < n; i++) {
    Step s = genOp(r, o, cur);
    if (r.chance(1, 10)) { s = Step(r.chance(1, 2) ? "applypal" : "loaddata"); randPixelArgs(r, s); if (r.chance(2, 3)) s.set("f", randFaultFor(r, s, true, true)); }
    if (s.op == "save" && r.chance(1, 6)) { s.set("ow", 0).set("exists", 1); }
    if (s.op == "load" && r.chance(1, 8)) s.set("astype", r.pick(SAVE_EXTS));
    if ((s.op == "load" || s.op == "probe") && r.chance(1, 6)) s.set("cut", (long)r.skewed(300));
    if (s.has("f") && r.chance(1, 6)) { str g = randFaultFor(r, s, o.allocFaults, true); if (!g.empty()) s.set("f", s.s("f") + "," + g); }
    p.steps.push_back(s);
  }
  return p;
}
static void execC08(const Plan &p) {
  cfgPlan(p); Ctx c; libStart(0); c.slot[0] = ilGenImage(); ilBindImage(c.slot[0]); c.cur = 0; u64 hit = 0, done = 0;
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue; runOp(s, c); done++; if (simFault()) { hit++; SH->nontrivial = 1; } str key = imgKey(s);
    for (auto &v : W.soft) if (v.prop == "C08") failRun("C08", v.key + ":" + key, v.msg + " during " + s.text());
    if (openLibHandles()) { str n; for (auto h : W.handles) if (h->open && !h->caller) n = h->name; failRun("C08", "left-open:" + key, strf("%d handles the library opened (%s) are still open after %s", openLibHandles(), n.c_str(), s.text().c_str())); }
  }
  SH->cnt[0] += done; SH->cnt[1] += hit; SH->cnt[2] += W.handles.size(); SH->stateHash = evHash;
  curOp("shutdown"); ilShutDown(); for (auto &v : W.soft) if (v.prop == "C08") failRun("C08", v.key + ":shutdown", v.msg + " during shutdown");
  installAlloc(); ilInit(); ilBindImage(ilGenImage()); curOp("size after restart"); ilSaveL(IL_TGA, nullptr, 0); drainErrors();
  for (auto &v : W.soft) if (v.prop == "C08") failRun("C08", v.key + ":restart", v.msg + " after a restart");
}
static const char *const cntC08[] = {"operations", "operations_hit_by_a_fault", "handles_opened", nullptr};

// ============================================================ C09
static void settle(Ctx &c) {
  disarm(); curOp("settle"); drainErrors(); installIO(0); W.bufMode = 0; W.chunk = 0;
  for (int i = 0; i < 40; i++) ilPopAttrib();
  for (ILuint n = 1; n < 64; n++) if (ilIsImage(n)) ilDeleteImage(n);
  static const struct { const char *k; long v; } ks[] = {{"tgarle", 0}, {"bmprle", 0}, {"sgirle", 1}, {"pnginter", 0}, {"jpgq", 80}, {"jpgprog", 0}, {"dxt", 0}, {"squish", 0}, {"vtf", 0}, {"compress", 2}, {"hint", 1}, {"saveinter", 0}, {"alphaidx", -1}, {"origin", -1}, {"format", -1}, {"type", -1}, {"convpal", 0}, {"keycolour", 0}, {"blend", 1}, {"quant", 0}, {"maxind", 256}, {"keepdxt", 0}, {"memhint", 0}, {"defaultfail", 0}, {"stamp", 0}};
  for (auto &k : ks) { Step s("set"); s.set("k", k.k).set("v", k.v); doSetting(s); }
  for (int i = 0; i < 11; i++) { Step s("set"); s.set("k", "str").set("v", (long)i).set("n", 6 + i); doSetting(s); }
  ilDisable(IL_NVIDIA_COMPRESS); ilOriginFunc(IL_ORIGIN_LOWER_LEFT); ilFormatFunc(IL_BGRA); ilTypeFunc(IL_UNSIGNED_BYTE); ilSetInteger(IL_NEU_QUANT_SAMPLE, 15); ilSetInteger(IL_PCD_PICNUM, 2); ilSetInteger(IL_JPG_SAVE_FORMAT, IL_JFIF); ilEnable(IL_FILE_OVERWRITE); fixParameters();
  W.disk.clear(); W.clock = 2000000000; W.randState = 999; W.totOps = 0; c = Ctx(); drainErrors();
}
static str suite(const Plan &p, size_t from, Ctx &c) {
  str out; c.slot[1] = ilGenImage(); ilBindImage(c.slot[1]); makeImage(5, 6, 5, 1, IL_RGB, IL_UNSIGNED_BYTE, 1, 0); c.slot[0] = ilGenImage(); ilBindImage(c.slot[0]); makeImage(3, 4, 3, 1, IL_RGB, IL_UNSIGNED_BYTE, 0, 0); c.cur = 0; drainErrors();
  for (size_t i = from; i < p.steps.size(); i++) {
    const Step &s = p.steps[i]; if (s.op == "cfg" || s.op == "settle") continue;
    if (s.op == "setchk") { out += dig(snapshotSettings()) + "\n"; continue; }
    Res r = runOp(s, c); out += strf("%ld|%s|%s|%llx|%s\n", r.ret, errText(r.err).c_str(), dig(r.out).c_str(), (unsigned long long)imgHash(ilGetCurImage()), imgDesc(ilGetCurImage()).c_str());
  }
  return out;
}
static Plan genC09(Rng &r, u64 idx, bool th) {
  GenOpt o = swarm(r); o.faultNum = 2; o.faultDen = 3; o.slots = 2; Plan p = startPlan(r); if (r.chance(1, 2)) randSettings(r, p, true); int cur = 0; p.steps.push_back(genImage(r));
  int n = (int)r.range(2, th ? 20 : 9); for (int i = 0; i < n; i++) p.steps.push_back(genOp(r, o, cur));
  p.steps.push_back(Step("settle")); GenOpt q = o; q.faultNum = 0; q.settings = q.attrib = false; q.loads = q.saves = true; q.pixels = true; cur = 0; n = (int)r.range(3, th ? 16 : 8);
  // what was disturbed is tried again afterwards
  std::vector<Step> again; for (auto &s : p.steps) if (s.has("f") && s.op != "push" && s.op != "set") { Step t = s; t.kv.erase("f"); again.push_back(t); }
  for (int i = 0; i < n; i++) {
    Step s; if (!again.empty() && r.chance(1, 2)) s = again[r.below(again.size())]; else s = genOp(r, q, cur);
    if (s.op == "noisify" || s.op == "slot" || s.op == "del") { s = Step("slot").set("k", (long)r.below(2)); } p.steps.push_back(s);
    if (r.chance(1, 3)) p.steps.push_back(genImage(r));
  }
  p.steps.push_back(Step("setchk")); (void)idx; return p;
}
static void execC09(const Plan &p) {
  size_t at = 0; for (size_t i = 0; i < p.steps.size(); i++) if (p.steps[i].op == "settle") at = i; if (!at) return;
  FreshResult ref = runFresh([&]() { simReset(); cfgPlan(p); Ctx c; libStart(0); settle(c); return suite(p, at, c); });
  if (!ref.ok) failRun("C09", "healthy-" + ref.err.substr(0, 80), "the operations do not return in a fresh process: " + ref.err);
  cfgPlan(p); Ctx c; libStart(0); c.slot[0] = ilGenImage(); ilBindImage(c.slot[0]); c.cur = 0; int hit = 0;
  for (size_t i = 0; i < at; i++) { if (p.steps[i].op == "cfg") continue; runOp(p.steps[i], c); if (simFault()) hit++; }
  if (hit) SH->nontrivial = 1; SH->cnt[0] += hit;
  settle(c); str got = suite(p, at, c); SH->stateHash = hashStr(got, evHash);
  auto a = lines(ref.out), b = lines(got); size_t j = 0;
  for (size_t i = at; i < p.steps.size(); i++) { const Step &s = p.steps[i]; if (s.op == "cfg" || s.op == "settle") continue; if (j >= a.size() || j >= b.size() || a[j] != b[j]) failRun("C09", "differs-after-faults:" + imgKey(s), strf("after the faults stopped, %s gives %s, in a freshly started library %s", s.text().c_str(), j < b.size() ? b[j].c_str() : "nothing", j < a.size() ? a[j].c_str() : "nothing")); j++; }
  SH->cnt[1] += j;
}
static const char *const cntC09[] = {"faulted_operations_before", "operations_compared_afterwards", nullptr};

// ============================================================ C10
static Plan genC10(Rng &r, u64 idx, bool th) {
  Plan p = startPlan(r); (void)idx; int K = (int)r.range(2, 3); if (r.chance(1, 2)) { Plan q; randSettings(r, q, true); for (auto &s : q.steps) if (s.s("k") != "keepdxt") p.steps.push_back(s); }
  GenOpt o = swarm(r); o.settings = o.attrib = o.bindings = false; o.slots = 2; if (r.chance(1, 4)) o.faultNum = 0;
  std::vector<int> left(K); int tot = 0; for (auto &x : left) { x = (int)r.range(2, th ? 14 : 6); tot += x; } int dummy = 0;
  std::vector<bool> started(K); int burst = (int)r.range(1, 3), who = 0, b = 0;
  while (tot) {
    if (b == 0 || !left[who]) { do who = (int)r.below(K); while (!left[who]); b = (int)r.range(1, burst); } b--; left[who]--; tot--;
    Step s = !started[who] ? genImage(r) : r.chance(1, 14) ? Step("del") : genOp(r, o, dummy); started[who] = true;
    if (s.op == "active") s = genImage(r); if (s.op == "save" && !s.has("name") && s.s("dst") != "lump" && s.s("dst") != "size") s.set("name", strf("c%d.%s", who, s.s("ext").c_str())); if (s.op == "savepal" || s.op == "savedata") s.set("name", strf("c%d.%s", who, s.op == "savepal" ? "pal" : "bin"));
    s.set("c", (long)who).set("cs", (long)r.below(2)); if (r.chance(1, 8)) s.set("ak", (long)r.below(4)).set("an", r.range(1, 2));
    p.steps.push_back(s);
  }
  return p;
}
// runs the steps of client 'only' (or of all); returns one line per step of each client
static std::vector<std::vector<str>> clients(const Plan &p, int only, int K, std::vector<str> &finals) {
  Ctx c; libStart(0); std::vector<std::vector<str>> out(K); std::vector<int> cnt(K);
  for (auto &s : p.steps) if (s.op == "set") doSetting(s);
  for (int k = 0; k < 2 * K; k++) { c.slot[k] = ilGenImage(); ilBindImage(c.slot[k]); makeImage(k, 3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, 0, 0); } drainErrors();
  for (auto &s : p.steps) {
    if (s.op == "cfg" || s.op == "set") continue; int k = (int)s.i("c") % K; if (only >= 0 && k != only) continue;
    int sl = k * 2 + (int)(s.i("cs") & 1); W.clock = 2000000000 + cnt[k] * 100; W.randState = 1000 + k * 100 + cnt[k]; cnt[k]++; W.totOps = 0;
    if (!c.slot[sl]) { c.slot[sl] = ilGenImage(); ilBindImage(c.slot[sl]); makeImage(k, 3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, 0, 0); }
    ilBindImage(c.slot[sl]); c.cur = sl; fixParameters(); ilEnable(IL_FILE_OVERWRITE); if (s.has("ak")) { long n = s.i("an"); switch (s.i("ak")) { case 0: ilActiveImage(n); break; case 1: ilActiveMipmap(n); break; case 2: ilActiveLayer(n); break; default: ilActiveFace(n); } } drainErrors();
    Step t = s; t.kv.erase("c"); t.kv.erase("cs"); if (t.has("oslot")) t.set("oslot", (long)(k * 2 + (t.i("oslot") & 1))); if (t.op == "del" || t.op == "slot") t.set("k", (long)sl);
    Res r = runOp(t, c); str img = t.op == "del" ? "deleted" : strf("%llx %s", (unsigned long long)imgHash(ilGetCurImage()), imgDesc(ilGetCurImage()).c_str());
    out[k].push_back(strf("%ld|%s|%s|%s", r.ret, errText(r.err).c_str(), dig(r.out).c_str(), img.c_str()));
  }
  finals.assign(K, "");
  for (int k = 0; k < K; k++) { for (int j = 0; j < 2; j++) { ILuint n = c.slot[k * 2 + j]; if (n) { ilBindImage(n); finals[k] += strf("image %d %llx;", j, (unsigned long long)imgHash(ilGetCurImage())); } else finals[k] += "none;"; } str pre = strf("c%d.", k); for (auto &f : W.disk) if (f.first.compare(0, 3, pre) == 0) finals[k] += strf(" %s %zu:%llx;", f.first.c_str(), f.second.size(), (unsigned long long)hashBytes(f.second.data(), f.second.size())); }
  return out;
}
static void execC10(const Plan &p) {
  int K = 0; for (auto &s : p.steps) if (s.has("c")) K = std::max(K, (int)s.i("c") + 1); if (K < 1 || K > 4) return;
  std::vector<std::vector<str>> alone(K); std::vector<str> fin(K);
  for (int k = 0; k < K; k++) {
    FreshResult f = runFresh([&]() { simReset(); cfgPlan(p); std::vector<str> fi; auto o = clients(p, k, K, fi); str t = fi[k] + "\n"; for (auto &l : o[k]) t += l + "\n"; return t; });
    if (!f.ok) failRun("C10", "alone-" + f.err.substr(0, 80), "a client does not return when it runs alone: " + f.err);
    auto v = lines(f.out); if (v.empty()) v.push_back(""); fin[k] = v[0]; alone[k].assign(v.begin() + 1, v.end());
  }
  cfgPlan(p); std::vector<str> fi; auto got = clients(p, -1, K, fi); std::vector<size_t> at(K); int sw = 0, last = -1;
  for (auto &s : p.steps) { if (s.op == "cfg" || s.op == "set") continue; int k = (int)s.i("c") % K; size_t i = at[k]++; if (last >= 0 && last != k) sw++; last = k; if (i >= alone[k].size() || alone[k][i] != got[k][i]) failRun("C10", "differs:" + imgKey(s), strf("%s gives %s when clients take turns and %s alone", s.text().c_str(), got[k][i].c_str(), i < alone[k].size() ? alone[k][i].c_str() : "nothing")); }
  for (int k = 0; k < K; k++) if (fin[k] != fi[k]) failRun("C10", "final-state", strf("client %d ends with %s when clients take turns and with %s alone", k, fi[k].c_str(), fin[k].c_str()));
  SH->nontrivial = sw > 0; SH->cnt[0] += sw; for (auto x : at) SH->cnt[1] += x; str all; for (auto &x : fi) all += x; SH->stateHash = hashStr(all, evHash);
}
static const char *const cntC10[] = {"client_switches", "client_operations", nullptr};

// ============================================================ C11
static Plan genC11(Rng &r, u64 idx, bool th) {
  Plan p = startPlan(r); p.steps[0].set("env", (long)r.below(1000)); if (r.chance(1, 2)) randSettings(r, p, true); GenOpt o = swarm(r); o.slots = 2; if (r.chance(2, 3)) o.faultNum = 0; else o.faultDen = 6; o.attrib = false; int cur = 0;
  static const std::vector<str> F = []() { std::vector<str> v = PIXEL_OPS; for (int i = 0; i < 9; i++) v.push_back("convert"); return v; }();
  auto focus = [&]() { Step s(F[(idx / 2) % F.size()]); randPixelArgs(r, s); s.set("oslot", (long)r.below(2)); return s; };
  if (r.chance(1, 2)) { // an earlier history on other images, which only one of the two executions has
    GenOpt q = swarm(r); q.settings = q.attrib = q.bindings = false; q.slots = 2; int dummy = 0; long m = r.range(1, th ? 8 : 4); Step g = genImage(r); p.steps.push_back(g.set("p", 1)); if (idx % 2) p.steps.push_back(focus().set("p", 1));
    while (m--) { Step s = genOp(r, q, dummy); if (s.op == "del" || s.op == "set" || s.op == "region") continue; p.steps.push_back(s.set("p", 1)); }
  }
  p.steps.push_back(genImage(r)); int n = (int)r.range(1, th ? 20 : 8);
  if (idx % 2 == 0) { auto &sm = SAMPLES[(idx / 2) % SAMPLES.size()]; Step l = genLoad(r); l.set("sample", sm.name); p.steps.push_back(l); }
  else { Step s = focus(); if (s.op != "noisify") p.steps.push_back(s); }
  for (int i = 0; i < n; i++) { Step s = genOp(r, o, cur); if (s.op == "noisify" || s.op == "del") continue; p.steps.push_back(s); }
  return p;
}
static void defineNew(ILimage *im, int depth = 0) { for (int g = 0; im && g < 100; g++, im = im->Next) { if (im->Data && im->Width == 1 && im->Height == 1) memset(im->Data, 7, im->SizeOfData); if (depth < 40) { defineNew(im->Mipmaps, depth + 1); defineNew(im->Faces, depth + 1); defineNew(im->Layers, depth + 1); } } }
static str runC11(const Plan &p, bool other) {
  long env = 0; cfgPlan(p); for (auto &s : p.steps) if (s.op == "cfg") env = s.i("env");
  if (other) { W.fillMode = env % 3 == 0 ? 0 : 1; W.fill = (u8)(W.fill ^ 0x5B ^ env); W.fillState = env * 7 + 3; W.jitter = env % 5 == 0 ? 0 : env + 1; W.randState = env * 31 + 5; }
  libStart(0);
  if (!other) { // the earlier history
    Ctx q; bool any = false; ilPushAttrib(IL_ALL_ATTRIB_BITS); auto disk = W.disk; long rs = W.randState, ck = W.clock;
    for (auto &s : p.steps) { if (!s.i("p")) continue; if (!any) { for (int k = 0; k < 2; k++) { q.slot[k] = ilGenImage(); ilBindImage(q.slot[k]); makeImage(k + 8, 5, 4, 1, IL_RGB, IL_UNSIGNED_BYTE, 1, 0); } q.cur = 1; any = true; } Step t = s; t.kv.erase("p"); runOp(t, q); SH->cnt[1]++; }
    if (any) { for (auto &n : q.slot) if (n) ilDeleteImage(n); iluRegionfv(NULL, 0); iluImageParameter(ILU_FILTER, ILU_NEAREST); iluImageParameter(ILU_PLACEMENT, ILU_CENTER); drainErrors(); W.disk = disk; W.randState = rs; W.clock = ck; W.totOps = 0; }
    ilPopAttrib(); drainErrors();
  }
  ilClearColour(1, 1, 1, 1); ilKeyColour(0, 0, 0, 0);
  Ctx c; c.slot[1] = ilGenImage(); ilBindImage(c.slot[1]); makeImage(5, 6, 5, 1, IL_RGB, IL_UNSIGNED_BYTE, 1, 0); c.slot[0] = ilGenImage(); ilBindImage(c.slot[0]); makeImage(3, 4, 3, 1, IL_RGB, IL_UNSIGNED_BYTE, 0, 0); c.cur = 0; drainErrors(); str out;
  for (auto &s : p.steps) {
    if (s.op == "cfg" || s.i("p")) continue; str ext = s.s("ext"); bool dated = s.op == "save" && (ext == "tga" || ext == "tif" || s.has("si")); W.clock = dated || !other ? 2000000000 : 1900000000 + env * 86400; 
    Res r = runOp(s, c); bool clean = r.err.empty() && (r.ret || s.op == "compare" || s.op == "probe");
    if (s.op == "probe" || s.op == "compare" || s.op == "active") clean = true;
    if (s.op == "slot" || s.op == "subimage" || s.op == "regmip" || s.op == "regnum" || s.op == "regfaces" || s.op == "defaultimage" || s.op == "del") defineNew(ilGetCurImage());
    out += strf("%ld|%s|%s\n", r.ret, errText(r.err).c_str(), clean ? strf("%s|%llx|%s", dig(r.out).c_str(), (unsigned long long)imgHash(ilGetCurImage()), imgDesc(ilGetCurImage()).c_str()).c_str() : "-");
    if (!clean) { ILuint b = ilGetCurName(); ilBindImage(b); Step im("img"); im.set("spec", "rgba").set("w", 7).set("h", 5).set("seed", 3).set("style", 1); makeImageFrom(im); }
  }
  return out;
}
static void execC11(const Plan &p) {
  FreshResult ref = runFresh([&]() { simReset(); return runC11(p, true); });
  if (!ref.ok) failRun("C11", "other-environment-" + ref.err.substr(0, 80), "the history does not return in the other environment: " + ref.err);
  str got = runC11(p, false); auto a = lines(ref.out), b = lines(got); size_t j = 0; SH->nontrivial = 1; SH->stateHash = hashStr(got, evHash);
  for (auto &s : p.steps) { if (s.op == "cfg" || s.i("p")) continue; if (j >= a.size() || j >= b.size() || a[j] != b[j]) failRun("C11", "differs:" + imgKey(s), strf("%s gives %s, and with another past, other memory contents, addresses, clock and random numbers %s", s.text().c_str(), j < b.size() ? b[j].c_str() : "nothing", j < a.size() ? a[j].c_str() : "nothing")); j++; }
  SH->cnt[0] += j;
}
static const char *const cntC11[] = {"operations_compared", "operations_of_another_past", nullptr};

// ============================================================ C14
static Plan genC14(Rng &r, u64 idx, bool th) {
  Plan p = startPlan(r); if (r.chance(1, 2)) randSettings(r, p, true); p.steps.push_back(Step("slot").set("k", 1)); p.steps.push_back(genImage(r)); p.steps.push_back(Step("slot").set("k", 0)); p.steps.push_back(genImage(r));
  if (r.chance(1, 3)) p.steps.push_back(genLoad(r)); if (r.chance(1, 4)) { Step s("subimage"); randPixelArgs(r, s); p.steps.push_back(s); p.steps.push_back(Step("active").set("kind", (long)r.below(3)).set("n", 1)); }
  const Sample &sm = SAMPLES[idx % SAMPLES.size()]; int n = (int)r.range(1, th ? 6 : 3); u64 ty = idx / SAMPLES.size();
  for (int i = 0; i < n; i++) {
    Step s("probe"); s.set("sample", sm.name).set("src", r.pick(LOAD_SOURCES)).set("buf", r.range(0, 2)); if (r.chance(1, 3)) s.set("det", 1); if (r.chance(3, 4)) s.set("t", (long)((ty + i) % 45)); if (s.s("src") == "handle" || s.s("src") == "cbhandle") s.set("off", r.chance(1, 3) ? 0l : r.range(1, 60));
    if (r.chance(1, 3)) s.set("cut", r.chance(1, 2) ? (long)r.below(40) : (long)r.below(sm.data.size())); if (r.chance(1, 4)) s.set("mut", (long)r.below(100000)); if (r.chance(1, 4)) s.set("chunk", r.pick(std::vector<long>{1, 2, 3, 7, 16, 100}));
    if (r.chance(1, 2)) { s.set("f", s.s("src") == "lump" ? strf("afail:%ld", r.range(1, 4)) : r.pick(std::vector<str>{strf("rfail:%ld", r.range(1, 12)), strf("rfailp:%ld", r.range(1, 12)), strf("rtrunc:%ld", (long)r.below(80)), strf("rshort:%ld", r.range(1, 8)), strf("afail:%ld", r.range(1, 4)), strf("rseek:%ld", r.range(1, 4)), strf("rseekp:%ld", r.range(1, 4)), str("ropen:1")})); }
    p.steps.push_back(s);
  }
  return p;
}
static void execC14(const Plan &p) {
  cfgPlan(p); Ctx c; libStart(0); c.slot[0] = ilGenImage(); ilBindImage(c.slot[0]); c.cur = 0; u64 probes = 0, yes = 0, hit = 0;
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue; if (s.op != "probe") { Step t = s; t.kv.erase("f"); runOp(t, c); continue; }
    str i0 = snapshotImages(10), s0 = snapshotSettings(); drainErrors(); str key = imgKey(s) + (s.i("det") ? "-det" : "-t" + s.s("t")); long first = -1;
    for (int k = 0; k < 3; k++) {
      Step t = s; if (k) t.kv.erase("f"); size_t nb = W.blocks.size(), ns = W.soft.size(); Res r = runOp(t, c); probes++; if (r.ret) yes++; if (simFault()) { hit++; SH->nontrivial = 1; }
      const char *when = k == 0 ? "a probe" : "a fault-free probe";
      for (size_t i = ns; i < W.soft.size(); i++) if (W.soft[i].prop == "C14" || W.soft[i].prop == "C08") failRun("C14", W.soft[i].key + ":" + key, W.soft[i].msg);
      str i1 = snapshotImages(10), s1 = snapshotSettings(); drainErrors();
      if (i1 != i0) failRun("C14", "images-changed:" + key, strf("images or binding changed during %s (%s)", when, t.text().c_str()));
      if (s1 != s0) failRun("C14", "settings-changed:" + key, strf("settings changed during %s (%s)", when, t.text().c_str()));
      if (W.blocks.size() != nb) failRun("C14", "memory-left:" + key, strf("%s leaves %zd blocks behind (%s)", when, W.blocks.size() - nb, t.text().c_str()));
      if (k == 1) first = r.ret; if (k == 2 && r.ret != first) failRun("C14", "answer-changes:" + key, strf("the same question is answered %lx and then %lx (%s)", first, r.ret, t.text().c_str()));
    }
  }
  SH->nontrivial |= probes > 0; SH->cnt[0] += probes; SH->cnt[1] += yes; SH->cnt[2] += hit; SH->stateHash = evHash;
}
static const char *const cntC14[] = {"probes", "answered_yes", "probes_hit_by_a_fault", nullptr};

// ============================================================ C16
static Plan genC16(Rng &r, u64 idx, bool th) {
  GenOpt o = swarm(r); if (r.chance(1, 2)) o.faultNum = 0; Plan p = startPlan(r); if (r.chance(1, 3)) randSettings(r, p, true); int cur = 0; p.steps.push_back(genImage(r)); int n = (int)r.range(2, th ? 26 : 12); (void)idx;
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 5)) { p.steps.push_back(Step("raise").set("n", r.chance(1, 4) ? r.range(20, 45) : r.range(1, 8)).set("seed", (long)r.below(1000))); continue; }
    if (r.chance(1, 5)) { p.steps.push_back(Step("read").set("n", r.chance(1, 4) ? r.range(20, 45) : r.range(1, 8))); continue; }
    if (r.chance(1, 12)) { Step s("misuse"); s.set("a", (long)r.below(14)); p.steps.push_back(s); continue; }
    Step s = genOp(r, o, cur); if (s.op == "load" && r.chance(1, 6)) s.set("astype", r.pick(SAVE_EXTS)); if (s.op == "save" && r.chance(1, 10)) s.set("ow", 0).set("exists", 1); if ((s.op == "load") && r.chance(1, 8)) s.set("cut", (long)r.skewed(500)); p.steps.push_back(s);
  }
  return p;
}
// calls that answer yes or no, where no means failure
static bool answersSuccess(const str &o) { static const char *not_[] = {"probe", "compare", "coloursused", "info", "setpixels", "regpal", "modalpha", "push", "pop", "del", "set", "img", "dxtflip", "getalpha", "subimage", "equalize2", "region", "regorigin", "getdata", "getters"}; for (auto x : not_) if (o == x) return false; return true; }
static long misuse(long a) { // a call that cannot succeed; answers whether it claims to
  switch (a) {
  case 0: return ilLoad(IL_BMP, "no/such/file.bmp"); case 1: return ilLoad(IL_BMP, nullptr); case 2: return ilLoadL(IL_BMP, nullptr, 0); case 3: return ilLoad(0x7777, "in.bmp"); case 4: return ilSave(0x7777, "x.bmp"); case 5: return ilSave(IL_BMP, nullptr); case 6: return ilSaveImage("noext"); case 7: return ilLoadImage(nullptr);
  case 8: return ilConvertImage(0x1234, IL_UNSIGNED_BYTE); case 9: return ilTexImage(0, 0, 0, 3, IL_RGB, IL_UNSIGNED_BYTE, nullptr) && ilGetInteger(IL_IMAGE_WIDTH) == 0; case 10: return ilLoadPal("none.pal"); case 11: return ilActiveImage(5000); case 12: return ilBlit(0, 0, 0, 0, 0, 0, 0, 0, 0, 0) && 0; default: return ilConvertPal(0x9999);
  }
}
static void execC16(const Plan &p) {
  cfgPlan(p); Ctx c; libStart(0); c.slot[0] = ilGenImage(); ilBindImage(c.slot[0]); c.cur = 0; std::vector<int> q; u64 failures = 0, clean = 0, reads = 0;
  auto expectQueue = [&](const str &what) { // reads everything back
    curOp("drain after " + what); while (!q.empty()) { int e = ilGetError(); reads++; if (e != q.back()) failRun("C16", "wrong-error", strf("after %s the error queue gives %x, by the model %x (%zu left)", what.c_str(), e, q.back(), q.size())); q.pop_back(); }
    for (int i = 0; i < 3; i++) { int e = ilGetError(); if (e != IL_NO_ERROR) failRun("C16", "error-from-empty-queue", strf("the empty error queue gives %x after %s", e, what.c_str())); }
  };
  auto push = [&](int e) { q.push_back(e); if (q.size() > 32) q.erase(q.begin()); };
  drainErrors();
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue; const str &o = s.op; curOp(s.text());
    if (o == "raise") {
      Rng r(s.i("seed")); for (long i = 0; i < s.i("n"); i++) switch (r.below(6)) {
        case 0: ilEnable(0x4321); push(IL_INVALID_ENUM); break; case 1: ilSetInteger(IL_TGA_RLE, 7); push(IL_INVALID_PARAM); break; case 2: ilActiveImage(9999); push(IL_ILLEGAL_OPERATION); break; case 3: { int e = 0x501 + (int)r.below(20); ilSetError(e); push(e); break; } case 4: ilSetString(IL_TGA_ID_STRING, nullptr); push(IL_INVALID_PARAM); break; default: ilHint(0x55, IL_FASTEST); push(IL_INVALID_ENUM); }
      continue;
    }
    if (o == "read") { for (long i = 0; i < s.i("n"); i++) { int e = ilGetError(); reads++; int m = q.empty() ? IL_NO_ERROR : q.back(); if (!q.empty()) q.pop_back(); if (e != m) failRun("C16", "wrong-error", strf("the error queue gives %x, by the model %x (%zu left)", e, m, q.size())); } continue; }
    expectQueue("the steps before " + s.text());
    if (o == "misuse") { long ok = misuse(s.i("a")); auto e = drainErrors(); failures++; if (ok) failRun("C16", strf("misuse-%ld-accepted", s.i("a")), "a call that cannot do what it was asked answers success"); if (e.empty() && s.i("a") != 9 && s.i("a") != 12) failRun("C16", strf("misuse-%ld-silent", s.i("a")), "a call that cannot do what it was asked queues no error"); continue; }
    Res r = runOp(s, c); str key = imgKey(s); bool fault = simFault(); if (fault) SH->nontrivial = 1;
    if (answersSuccess(o) && !r.skipped && !r.ret) { failures++; if (r.err.empty()) failRun("C16", "silent-failure:" + key, strf("%s answers failure and no error is queued", s.text().c_str())); }
    if (r.ret && !fault && answersSuccess(o)) { clean++; if (!r.err.empty() && !s.i("unknown") && !s.i("li") && !s.has("cut")) failRun("C16", "error-on-success:" + key + ":" + errText(r.err).substr(0, 20), strf("%s answers success with nothing going wrong and error %s is queued", s.text().c_str(), errText(r.err).c_str())); }
  }
  expectQueue("the end"); SH->nontrivial |= failures > 0; SH->cnt[0] += failures; SH->cnt[1] += clean; SH->cnt[2] += reads; SH->stateHash = evHash;
}
static const char *const cntC16[] = {"failures_with_error", "clean_successes", "errors_read_back", nullptr};

Scenario scC08() { return {"C08", "exploration", "run = history of loads, saves, probes and palette and raw data operations by name, handle, memory and callbacks with read, write, seek, open, close and allocation faults; the ledger of handles checked after each call; non-trivial: a fault took effect; distinct by event-log hash", [](bool t) { return (u64)(t ? 600000 : 40000); }, genC08, execC08, cntC08}; }
Scenario scC09() { return {"C09", "exploration", "run = disturbed history, then faults stop, errors drained, settings fixed, and a suite of operations (what was disturbed among them) compared call by call with a freshly started process; non-trivial: a fault took effect before; distinct by event-log and result hashes", [](bool t) { return (u64)(t ? 400000 : 24000); }, genC09, execC09, cntC09}; }
Scenario scC10() { return {"C10", "exploration", "run = 2 or 3 clients, each with its own images and files, interleaved by the seeded scheduler, with faults; every answer, image and file of each client compared with that client running alone in a fresh process; distinct by event-log and result hashes", [](bool t) { return (u64)(t ? 300000 : 20000); }, genC10, execC10, cntC10}; }
Scenario scC11() { return {"C11", "exploration", "run = one history executed twice, the second time in a fresh process without the earlier history on other images and with other contents of fresh memory, other addresses, another clock and another random generator, compared call by call; distinct by event-log and result hashes", [](bool t) { return (u64)(t ? 400000 : 36000); }, genC11, execC11, cntC11}; }
Scenario scC14() { return {"C14", "exploration", "run = images, settings, then probes for every type of every sample content (whole, cut, mutated) from every source with read, seek, open and allocation faults, each asked again twice without faults; distinct by event-log hash", [](bool t) { return (u64)(t ? 800000 : 60000); }, genC14, execC14, cntC14}; }
Scenario scC16() { return {"C16", "exploration", "run = history of operations with and without faults, misuse, and errors raised and read back, compared with a model of the error queue; distinct by event-log hash", [](bool t) { return (u64)(t ? 600000 : 60000); }, genC16, execC16, cntC16}; }
