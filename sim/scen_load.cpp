// Scenarios about reading: C01, C02, C03
#include "lib.h"
#include <algorithm>
extern str curProp;

static bool enabledSample(const Sample &) { return true; }
static std::vector<const Sample *> pool() { std::vector<const Sample *> v; for (auto &s : SAMPLES) if (enabledSample(s)) v.push_back(&s); return v; }

// one fault specification for a load
static str readFault(Rng &r, const Sample &sm, const str &src) {
  long n = (long)sm.data.size(); str f;
  auto one = [&]() -> str {
    int k = (int)r.below(src == "lump" ? 1 : 9);
    switch (k) {
    case 0: case 1: case 2: return strf("rtrunc:%ld", r.chance(1, 3) ? std::min<long>(n - 1, r.range(0, 64)) : r.chance(1, 4) ? std::max<long>(0, n - r.range(1, 20)) : (long)r.below(n));
    case 3: return strf("rfail:%ld", 1 + (long)r.skewed(60));
    case 4: case 5: return strf("rfailp:%ld", 1 + (long)r.skewed(60));
    case 6: return strf("rshort:%ld", 1 + (long)r.skewed(40));
    case 7: return strf("rseek:%ld", 1 + (long)r.skewed(12));
    default: return strf("rseekp:%ld", 1 + (long)r.skewed(12));
    }
  };
  f = one(); if (r.chance(1, 8)) f += "," + one();
  if (r.chance(1, 60) && src != "lump") f = "ropen:1";
  return f;
}
static Step loadStep(Rng &r, const Sample &sm, const str &src) {
  Step s("load"); s.set("sample", sm.name).set("src", src);
  if (src != "lump") s.set("buf", (long)r.pick(std::vector<int>{0, 1, 1, 2})); // stdio buffering
  if (src == "handle" || src == "cbhandle") s.set("off", r.chance(1, 2) ? 0l : r.range(1, 40));
  return s;
}
static Plan genFaultedLoad(Rng &r, u64 idx, bool thorough, bool settings) {
  Plan p; auto v = pool(); const Sample &sm = *v[idx % v.size()]; u64 round = idx / v.size();
  str src = LOAD_SOURCES[round % LOAD_SOURCES.size()];
  Step cfg("cfg"); cfg.set("fill", (long)r.pick(std::vector<int>{0xCD, 0, 0xFF, 0x01, 0x80})); p.steps.push_back(cfg);
  if (settings && r.chance(1, 4)) randSettings(r, p, true);
  Step s = loadStep(r, sm, src); s.set("f", readFault(r, sm, src)); p.steps.push_back(s); if (settings && r.chance(1, 3)) focusSettings(r, p);
  return p;
}
static void applyCfg(const Step &s) { W.fill = (u8)s.i("fill", 0xCD); W.fillMode = (int)s.i("fillmode"); W.fillState = s.i("fillseed", 1); W.jitter = s.i("jitter"); W.clock = s.i("clock", 1000000000); W.randState = s.i("rand", 12345); }
void applyCfgStep(const Step &s) { applyCfg(s); }

// C01 -------------------------------------------------------------
static void execC01(const Plan &p) {
  for (auto &s : p.steps) if (s.op == "cfg") applyCfg(s);
  libStart(0);
  ILuint a = ilGenImage(), b = ilGenImage();
  ilBindImage(b); makeImage(3, 4, 3, 1, IL_RGB, IL_UNSIGNED_BYTE, 0, 0); u64 hb = imgHash(ilGetCurImage());
  ilBindImage(a);
  for (auto &s : p.steps) {
    if (s.op == "set") { doSetting(s); continue; }
    if (s.op != "load") continue;
    u64 before = W.totOps;
    Res r = doLoad(s);
    if (simFault()) SH->nontrivial = 1;
    const Sample *sm = sampleBy(s.s("sample"));
    u64 used = W.totOps - before;
    if (sm && used > 400000 + 64 * sm->data.size()) failRun("C01", "too-many-stream-calls:" + sm->ext, strf("%llu stream operations to load %zu bytes", (unsigned long long)used, sm->data.size()));
    if (ilGetCurName() != a) failRun("C01", "binding-changed", "after the load another image is bound");
    SH->cnt[r.ret ? 0 : 1]++;
    battery();
    ilBindImage(b); if (imgHash(ilGetCurImage()) != hb) failRun("C01", "other-image-changed", "the load changed an image that was not bound");
    ilBindImage(a); curOp("reload"); // the image can be used for a new, healthy load
    Step h = s; h.kv.erase("f"); doLoad(h); battery();
  }
  SH->stateHash = evHash;
  curOp("delete"); ilBindImage(0); ilDeleteImage(a); ilDeleteImage(b);
  libEnd();
}
static const char *const cntC01[] = {"loads_answered_success", "loads_answered_failure", nullptr};

// reference results, from a fresh process
struct LoadRef { bool ok = false; long ret = 0; str err, desc; u64 hash = 0; str crash; };
static LoadRef refLoad(const Plan &p, const Step &s) {
  FreshResult f = runFresh([&]() {
    simReset(); for (auto &x : p.steps) if (x.op == "cfg") applyCfg(x);
    libStart(0); ILuint a = ilGenImage(); ilBindImage(a);
    for (auto &x : p.steps) if (x.op == "set") doSetting(x);
    Res r = doLoad(s); return strf("%ld|%s|%llx|%s", r.ret, errText(r.err).c_str(), (unsigned long long)imgHash(ilGetCurImage()), imgDesc(ilGetCurImage()).c_str());
  });
  LoadRef o; o.ok = f.ok; o.crash = f.err; if (!f.ok) return o;
  size_t a = f.out.find('|'), b = f.out.find('|', a + 1), c = f.out.find('|', b + 1);
  o.ret = atol(f.out.c_str()); o.err = f.out.substr(a + 1, b - a - 1); o.hash = strtoull(f.out.substr(b + 1, c - b - 1).c_str(), 0, 16); o.desc = f.out.substr(c + 1);
  return o;
}
// C02 -------------------------------------------------------------
static void execC02(const Plan &p) {
  const Step *ld = nullptr; for (auto &s : p.steps) if (s.op == "load") ld = &s;
  if (!ld) return;
  Step h = *ld; h.kv.erase("f");
  LoadRef ref = refLoad(p, h);
  if (!ref.ok) failRun("C02", "healthy-load-" + ref.crash.substr(0, 80), "the fault-free load does not return: " + ref.crash);
  for (auto &s : p.steps) if (s.op == "cfg") applyCfg(s);
  libStart(0); ILuint a = ilGenImage(); ilBindImage(a);
  for (auto &s : p.steps) if (s.op == "set") doSetting(s);
  Res r = doLoad(*ld); u64 hash = imgHash(ilGetCurImage()); str desc = imgDesc(ilGetCurImage());
  if (simFault() && ref.ret) SH->nontrivial = 1;
  if (r.ret && r.err.empty()) {
    SH->cnt[0]++;
    if (!ref.ret) failRun("C02", "success-only-with-fault:" + sampleBy(ld->s("sample"))->ext, strf("load fails on the healthy source (%s) but succeeds with the fault", ref.err.c_str()));
    if (hash != ref.hash) failRun("C02", "silently-wrong:" + sampleBy(ld->s("sample"))->ext, strf("load succeeded without any error queued although its source failed, and the image differs: got %s, healthy %s", desc.c_str(), ref.desc.c_str()));
  } else SH->cnt[r.ret ? 1 : 2]++;
  SH->stateHash = evHash;
}
static const char *const cntC02[] = {"clean_success", "success_with_error_queued", "failure", nullptr};

// C03 -------------------------------------------------------------
static Plan genC03(Rng &r, u64 idx, bool thorough) {
  Plan p; auto v = pool(); const Sample &sm = *v[idx % v.size()]; u64 round = idx / v.size();
  Step cfg("cfg"); cfg.set("fill", 0xCD); p.steps.push_back(cfg);
  if (r.chance(1, 3)) randSettings(r, p, true);
  Step ref("ref"); ref.set("sample", sm.name); p.steps.push_back(ref);
  int n = 2 + (int)r.below(3);
  for (int i = 0; i < n; i++) {
    str src = LOAD_SOURCES[(round + i) % LOAD_SOURCES.size()]; Step s = loadStep(r, sm, src);
    if (src != "lump" && r.chance(1, 2)) s.set("chunk", r.pick(std::vector<long>{1, 2, 3, 5, 7, 16, 61, 512, 1000}));
    if (r.chance(1, 6)) s.set("unknown", 1);
    if (r.chance(1, 8) && (src == "file" || src == "cbfile")) s.set("li", 1);
    p.steps.push_back(s);
  }
  return p;
}
static void execC03(const Plan &p) {
  Step rs; for (auto &s : p.steps) if (s.op == "ref") rs = s;
  const Sample *sm = sampleBy(rs.s("sample")); if (!sm) return;
  for (auto &s : p.steps) if (s.op == "cfg") applyCfg(s);
  rs.op = "load"; rs.set("src", "lump");
  LoadRef ref = refLoad(p, rs);
  if (!ref.ok) failRun("C03", "memory-load-" + ref.crash.substr(0, 80), "loading from memory does not return: " + ref.crash);
  // what the library says the type is, by content
  str det = runFresh([&]() { simReset(); libStart(0); ilBindImage(ilGenImage()); Bytes b = sm->data; return strf("%x", ilDetermineTypeL(b.data(), (ILuint)b.size())); }).out;
  ILenum detected = (ILenum)strtoul(det.c_str(), 0, 16);
  libStart(0);
  for (auto &s : p.steps) if (s.op == "set") doSetting(s);
  for (auto &s : p.steps) if (s.op == "load") {
    ILuint a = ilGenImage(); ilBindImage(a);
    bool named = s.s("src") == "file" || s.s("src") == "cbfile";
    if (s.i("unknown") && !named && detected != sm->type) continue; // content does not identify the type
    if ((s.i("unknown") || s.i("li")) && (sm->ext == "raw" || sm->ext == "doom" || sm->ext == "flat")) continue;  // these are only ever loaded by naming the type
    Res r = doLoad(s); u64 h = imgHash(ilGetCurImage());
    SH->nontrivial = 1; SH->cnt[0]++;
    str key = sm->ext + ":" + s.s("src") + (s.i("off") ? "+off" : "") + (s.i("chunk") ? "+pieces" : "") + (s.i("unknown") || s.i("li") ? "+detected" : "");
    if ((r.ret != 0) != (ref.ret != 0)) failRun("C03", "answer-differs:" + key, strf("from memory the load answers %ld (errors %s), from %s it answers %ld (errors %s)", ref.ret, ref.err.c_str(), s.text().c_str(), r.ret, errText(r.err).c_str()));
    if (r.ret && h != ref.hash) failRun("C03", "image-differs:" + key, strf("image from %s is %s, from memory %s", s.text().c_str(), imgDesc(ilGetCurImage()).c_str(), ref.desc.c_str()));
    if (r.ret && !s.i("unknown") && !s.i("li") && ref.err.empty() && !r.err.empty()) failRun("C03", "errors-differ:" + key, "errors queued only for this kind of source: " + errText(r.err));
    ilDeleteImage(a);
  }
  SH->stateHash = evHash;
}
static const char *const cntC03[] = {"source_variants_compared", nullptr};

// C25 -------------------------------------------------------------
// The image a load leaves behind is in the form the settings ask for, all of its frames, faces, layers and mipmaps.
static const ILenum WFMT[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA};
static const ILenum WTYP[] = {IL_UNSIGNED_BYTE, IL_BYTE, IL_UNSIGNED_SHORT, IL_SHORT, IL_UNSIGNED_INT, IL_INT, IL_FLOAT, IL_DOUBLE};
struct Want { int o, f, t, oe, fe, te, cp; };
static Want wantOf(const Step &s) { return {(int)s.i("o", -1), (int)s.i("f", -1), (int)s.i("t", -1), (int)s.i("oe"), (int)s.i("fe"), (int)s.i("te"), (int)s.i("cp")}; }
static Plan genC25(Rng &r, u64 idx, bool thorough) {
  (void)thorough; Plan p; auto v = pool(); const Sample &sm = *v[idx % v.size()]; u64 round = idx / v.size();
  Step cfg("cfg"); cfg.set("fill", (long)r.pick(std::vector<int>{0xCD, 0, 0xFF})); p.steps.push_back(cfg);
  if (r.chance(1, 8)) { Step q("set"); const char *k[] = {"quant", "maxind", "keepdxt", "memhint", "stamp"}; int n = (int)r.below(5); q.set("k", k[n]).set("v", n == 1 ? r.range(2, 256) : (long)r.below(2)); p.steps.push_back(q); }
  Step w("want"); int some = 1 + (int)r.below(15);
  if (some & 1) w.set("o", (long)r.below(2)).set("oe", (long)!r.chance(1, 6));
  if (some & 2) w.set("f", (long)(r.chance(2, 3) ? r.below(4) : r.below(6))).set("fe", (long)!r.chance(1, 6));
  if (some & 4) w.set("t", (long)(r.chance(1, 2) ? 0 : r.below(8))).set("te", (long)!r.chance(1, 6));
  if (some & 8) w.set("cp", 1);
  w.set("off", (long)r.chance(1, 4)); w.set("push", (long)r.chance(1, 6)); p.steps.push_back(w);
  str src = LOAD_SOURCES[round % LOAD_SOURCES.size()]; Step s = loadStep(r, sm, src);
  if (r.chance(1, 10) && (src == "file" || src == "cbfile") && sm.ext != "raw" && sm.ext != "doom" && sm.ext != "flat") s.set("li", 1);
  int k = (int)r.below(8);
  if (k < 1) s.set("f", readFault(r, sm, src)); else if (k < 4) s.set("f", strf("%s:%ld", r.chance(1, 4) ? "afrom" : "afail", 1 + (long)r.skewed(r.chance(1, 2) ? 12 : 80))); else if (k < 5) s.set("f", strf("abig:%ld", r.range(16, 4096)));
  p.steps.push_back(s); return p;
}
static void applyWant(const Step &s) {
  Want w = wantOf(s); bool push = s.i("push");
  if (s.i("off")) { ilEnable(IL_ORIGIN_SET); ilEnable(IL_FORMAT_SET); ilEnable(IL_TYPE_SET); ilDisable(IL_TYPE_SET); ilDisable(IL_FORMAT_SET); ilDisable(IL_ORIGIN_SET); }
  if (w.o >= 0) { ilOriginFunc(w.o ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); if (w.oe) ilEnable(IL_ORIGIN_SET); }
  if (w.f >= 0) { ilFormatFunc(WFMT[w.f % 6]); if (w.fe) ilEnable(IL_FORMAT_SET); }
  if (w.t >= 0) { ilTypeFunc(WTYP[w.t & 7]); if (w.te) ilEnable(IL_TYPE_SET); }
  if (w.cp) ilEnable(IL_CONV_PAL);
  if (push) { ilPushAttrib(IL_ALL_ATTRIB_BITS); ilDisable(IL_ORIGIN_SET); ilDisable(IL_FORMAT_SET); ilDisable(IL_TYPE_SET); ilEnable(IL_CONV_PAL); ilOriginFunc(IL_ORIGIN_LOWER_LEFT); ilTypeFunc(IL_DOUBLE); ilPopAttrib(); }
}
// What the settings mean, done by hand with the public calls on an image loaded without them.
static bool convertCur(const Want &w) {
  if (w.o >= 0 && w.oe && ilGetInteger(IL_IMAGE_ORIGIN) != (w.o ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT)) { if (!iluFlipImage()) return false; ilGetCurImage()->Origin = w.o ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT; }
  if (w.t >= 0 && w.te && ilGetInteger(IL_IMAGE_TYPE) != (ILint)WTYP[w.t & 7]) if (!ilConvertImage(ilGetInteger(IL_IMAGE_FORMAT), WTYP[w.t & 7])) return false;
  if (w.f >= 0 && w.fe && ilGetInteger(IL_IMAGE_FORMAT) != (ILint)WFMT[w.f % 6]) if (!ilConvertImage(WFMT[w.f % 6], ilGetInteger(IL_IMAGE_TYPE))) return false;
  if (w.cp && ilGetInteger(IL_IMAGE_FORMAT) == IL_COLOUR_INDEX) if (!ilConvertImage(IL_BGR, IL_UNSIGNED_BYTE)) return false;
  return true;
}
static bool convertAll(ILimage *im, const Want &w, int &n) {
  std::vector<ILimage *> fr; for (ILimage *x = im; x && fr.size() < 2000; x = x->Next) fr.push_back(x);
  for (ILimage *x : fr) {
    for (ILimage *f = x; f; f = f->Faces) for (ILimage *l = f; l; l = l->Layers) for (ILimage *m = l; m; m = m->Mipmaps) { if (n++ > 4000) return false; ilSetCurImage(m); if (!convertCur(w)) return false; }
  }
  return true;
}
static void execC25(const Plan &p) {
  const Step *ld = nullptr, *ws = nullptr; for (auto &s : p.steps) { if (s.op == "load") ld = &s; if (s.op == "want") ws = &s; }
  if (!ld || !ws) return; Want w = wantOf(*ws); const Sample *sm = sampleBy(ld->s("sample")); if (!sm) return;
  Step h = *ld; h.kv.erase("f"); int recs = 0;
  FreshResult f = runFresh([&]() {
    simReset(); for (auto &x : p.steps) if (x.op == "cfg") applyCfg(x);
    libStart(0); ILuint a = ilGenImage(); ilBindImage(a); for (auto &x : p.steps) if (x.op == "set") doSetting(x);
    Res r = doLoad(h); int n = 0; ilBindImage(a); str plain = imgDesc(ilGetCurImage()); bool ok = r.ret; if (ok) ok = convertAll(ilGetCurImage(), w, n); ilBindImage(a);
    return strf("%ld|%d|%llx|%s|%d", r.ret, (int)ok, (unsigned long long)imgHash(ilGetCurImage()), plain.c_str(), n); });
  if (!f.ok) failRun("C25", "plain-load-" + f.err.substr(0, 80), "the load without settings does not return: " + f.err);
  long pret = 0; int pok = 0; unsigned long long phash = 0; char pd[400] = ""; sscanf(f.out.c_str(), "%ld|%d|%llx|%399[^|]|%d", &pret, &pok, &phash, pd, &recs);
  for (auto &s : p.steps) if (s.op == "cfg") applyCfg(s);
  libStart(0); ILuint a = ilGenImage(); ilBindImage(a); for (auto &s : p.steps) if (s.op == "set") doSetting(s); applyWant(*ws);
  Res r = doLoad(*ld); bool flt = simFault() || ld->s("f").find("rtrunc") != str::npos; str e = sm->ext;
  // Doom pictures and models bring their own rule for doing away with a palette; raw data has no origin of its own and takes the one asked for.
  bool own = (w.cp && (e == "doom" || e == "flat" || e == "mdl")) || (e == "raw" && w.o >= 0 && w.oe);
  if (ilGetCurName() != a) failRun("C25", "binding:" + e, "after the load another image is bound");
  if (r.ret) {
    SH->cnt[0]++;
    if (!pret && r.err.empty()) failRun("C25", "loads-only-converted:" + e, "the load succeeds with the settings and fails without");
    ilBindImage(a); ILimage *base = ilGetCurImage(); int n = 0;
    for (ILimage *x = base; x && n < 4000; x = x->Next) for (ILimage *fc = x; fc; fc = fc->Faces) for (ILimage *l = fc; l; l = l->Layers) for (ILimage *m = l; m; m = m->Mipmaps) {
      str where = strf("record %d (%s), loaded as %s without the settings", n, imgDesc(m).c_str(), pd); n++;
      if (w.o >= 0 && w.oe && m->Origin != (ILenum)(w.o ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT)) failRun("C25", "origin:" + e, "not the origin asked for: " + where);
      if (w.f >= 0 && w.fe && m->Format != WFMT[w.f % 6]) failRun("C25", "format:" + e, "not the format asked for: " + where);
      if (w.t >= 0 && w.te && !w.cp && m->Type != WTYP[w.t & 7]) failRun("C25", "type:" + e, "not the type asked for: " + where);
      if (w.cp && m->Format == IL_COLOUR_INDEX) failRun("C25", "palette:" + e, "still paletted: " + where);
      str pr = imgProblem(m); if (!pr.empty()) failRun("C25", "inconsistent:" + e, pr + ": " + where);
    }
    SH->cnt[2] += n;
    if (r.err.empty() && !own) {
      if (!pok) failRun("C25", "unconvertible:" + e, strf("the load succeeds although the image (%s) cannot be converted as asked", pd));
      if (imgHash(base) != phash) failRun("C25", "differs:" + e, strf("the image is not what loading it without settings and converting it gives: got %s, plain %s", imgDesc(base).c_str(), pd));
    }
  } else {
    SH->cnt[1]++; if (!flt && pok && pret && !own) failRun("C25", "refused:" + e, strf("loading with the settings fails (%s), loading without (%s) and converting works", errText(r.err).c_str(), pd));
    if (r.err.empty()) failRun("C25", "silent:" + e, "the load fails and queues no error");
  }
  SH->nontrivial = r.ret && pret; if (flt) SH->cnt[3]++; SH->stateHash = evHash; libEnd();
}
static const char *const cntC25[] = {"loads_answered_success", "loads_answered_failure", "records_checked", "loads_with_faults", nullptr};

Scenario scC01() { return {"C01", "exploration", "run = library start, one sample file loaded from one kind of source with one or two read faults (truncation at a byte, failing/short/persistently failing n-th read, failing seek or open), then a usability battery, a healthy reload, deletion and shutdown; samples x sources are enumerated in turn, fault points seeded; non-trivial: a fault took effect; distinct by event-log hash", [](bool t) { return (u64)(t ? 400000 : 48000); }, [](Rng &r, u64 i, bool t) { return genFaultedLoad(r, i, t, true); }, execC01, cntC01}; }
Scenario scC02() { return {"C02", "exploration", "run = fault-free twin in a fresh process and the same load with a read fault, images compared when the faulted load answers success with an empty error queue; non-trivial: a fault took effect on a load that succeeds when healthy; distinct by event-log hash", [](bool t) { return (u64)(t ? 400000 : 42000); }, [](Rng &r, u64 i, bool t) { return genFaultedLoad(r, i, t, true); }, execC02, cntC02}; }
Scenario scC03() { return {"C03", "exploration", "run = one sample loaded from memory in a fresh process and from 2-4 other sources (file, handle at an offset, callbacks, piecewise reads, detected type) in one library; results compared; distinct by event-log hash", [](bool t) { return (u64)(t ? 100000 : 16000); }, genC03, execC03, cntC03}; }
Scenario scC25() { return {"C25", "exploration", "run = one sample loaded with origin, format, type and palette-conversion settings, from one source, with read faults or refused allocations or none; every record of the loaded image checked and all compared with a fresh process that loads without the settings and converts by hand; distinct by event-log hash", [](bool t) { return (u64)(t ? 2000000 : SAMPLES.size() * 60); }, genC25, execC25, cntC25}; }
