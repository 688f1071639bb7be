// Scenarios about writing: C04, C05, C15, C20, C21
#include "ops.h"
#include <algorithm>

static Plan startPlan(Rng &r) { Plan p; Step cfg("cfg"); cfg.set("fill", (long)r.pick(std::vector<int>{0xCD, 0, 0xFF, 0x01, 0x80})); p.steps.push_back(cfg); return p; }
static Step saveImg(Rng &r, u64 k) {
  Step s("img"); s.set("spec", SPECS[k % SPECS.size()].name);
  bool big = r.chance(1, 4);
  s.set("w", big ? r.range(30, 120) : r.range(1, 24)); s.set("h", big ? r.range(20, 70) : r.range(1, 20)); if (r.chance(1, 16)) s.set("d", r.range(1, 3));
  if (r.chance(1, 8)) { s.set("w", r.pick(std::vector<long>{1, 2, 4, 8, 16, 32, 64, 128})); s.set("h", r.pick(std::vector<long>{1, 2, 4, 8, 16, 32, 64})); }
  s.set("style", r.range(0, 6)); s.set("seed", r.range(0, 999)); if (r.chance(1, 8)) s.set("w", r.range(100, 600)).set("h", r.range(1, 6)); if (r.chance(1, 100)) s.set("w", r.range(150, 400)).set("h", r.range(100, 260)); if (r.chance(1, 2)) s.set("org", 1);
  if (s.s("spec") == "pal") { s.set("pal", r.range(0, 2)); s.set("nc", r.pick(std::vector<long>{256, 256, 255, 16, 17, 4, 2, 1, 130})); }
  return s;
}
static const std::vector<str> FILE_DST = {"file", "handle", "cbfile", "cbhandle"};
static const Step *find(const Plan &p, const char *op) { for (auto &s : p.steps) if (s.op == op) return &s; return nullptr; }
static const Step *finalSave(const Plan &p) { const Step *f = nullptr; for (auto &s : p.steps) if (s.op == "save" || s.op == "savepal" || s.op == "savedata") f = &s; return f; }
// everything before the last save
static void prelude(const Plan &p, Ctx &c, const Step *until) {
  for (auto &s : p.steps) if (s.op == "cfg") applyCfgStep(s);
  libStart(0); c.slot[0] = ilGenImage(); ilBindImage(c.slot[0]); c.cur = 0;
  for (auto &s : p.steps) { if (&s == until) break; if (s.op != "cfg" && s.op != "check") runOp(s, c); }
}
static str packBytes(const str &b) { return b; }
struct SaveRef { bool ok = false; long ret = 0; str err, bytes, crash; long nw = 0, ns = 0, nb = 0; };
// faults count events of the healthy save, so that they fall inside it
static str fitFaults(const str &spec, const SaveRef &o) {
  str out; for (auto &f : parseFaults(spec)) {
    Fault g = f; if (g.k == W_FAIL || g.k == W_FAILP || g.k == W_SHORT) g.n = 1 + (g.n - 1) % std::max(1l, o.nw);
    else if (g.k == W_SEEK || g.k == W_SEEKP) { if (!o.ns) { g.k = W_FAIL; g.n = 1 + (g.n - 1) % std::max(1l, o.nw); } else g.n = 1 + (g.n - 1) % o.ns; }
    else if (g.k == W_SPACE || g.k == W_CLOSE) { if (o.nb) g.n = g.n % o.nb; if (g.k == W_CLOSE && !g.n) g.n = 1; }
    out += strf("%s%s:%ld", out.empty() ? "" : ",", faultName[g.k], g.n);
  }
  return out;
}
static SaveRef refSave(const Plan &p, const Step *sv, const Step &healthy) {
  SaveRef o; FreshResult f = runFresh([&]() { simReset(); Ctx c; prelude(p, c, sv); long clk = W.clock; (void)clk; W.clock = 2000000000; Res r = runOp(healthy, c); return strf("%ld %ld %ld %ld|%s|", r.ret, W.nWrite, W.nSeekW, W.wroteBytes, errText(r.err).c_str()) + packBytes(r.out); });
  o.ok = f.ok; o.crash = f.err; if (!f.ok) return o;
  size_t a = f.out.find('|'), b = f.out.find('|', a + 1); sscanf(f.out.c_str(), "%ld %ld %ld %ld", &o.ret, &o.nw, &o.ns, &o.nb); o.err = f.out.substr(a + 1, b - a - 1); o.bytes = f.out.substr(b + 1); return o;
}
static str writeFault(Rng &r, long guess) {
  auto one = [&]() -> str {
    switch (r.below(10)) {
    case 0: case 1: return strf("wspace:%ld", r.chance(1, 3) ? r.range(0, 64) : (long)r.below(guess));
    case 2: return strf("wfail:%ld", 1 + (long)r.skewed(60));
    case 3: case 4: return strf("wfailp:%ld", 1 + (long)r.skewed(60));
    case 5: return strf("wshort:%ld", 1 + (long)r.skewed(60));
    case 6: return strf("wseek:%ld", 1 + (long)r.skewed(5));
    case 7: return strf("wseekp:%ld", 1 + (long)r.skewed(5));
    case 8: return strf("wclose:%ld", r.chance(1, 2) ? r.range(1, 64) : r.range(1, 5000));
    default: return strf("wfail:%ld", (long)r.range(1, 4));
    }
  };
  str f = one(); if (r.chance(1, 10)) f += "," + one(); if (r.chance(1, 50)) f = "wopen:1"; return f;
}
// ---- C04 ----
static Plan genC04(Rng &r, u64 idx, bool) {
  Plan p = startPlan(r); if (r.chance(1, 2)) randSettings(r, p, false);
  int kinds = (int)SAVE_EXTS.size() + 2; int k = (int)(idx % kinds); u64 round = idx / kinds;
  Step im = saveImg(r, r.next()); if (k == kinds - 2) im.set("spec", "pal").set("nc", r.range(1, 256));
  p.steps.push_back(im);
  if (k < (int)SAVE_EXTS.size() && r.chance(1, 6)) { Step l = genLoad(r); l.kv.erase("f"); p.steps.push_back(l); } // a picture with whatever its file carries
  if (r.chance(1, 8)) { Step m("mipmaps"); randPixelArgs(r, m); p.steps.push_back(m); }
  Step s(k == kinds - 2 ? "savepal" : k == kinds - 1 ? "savedata" : "save");
  if (s.op == "save") {
    str dst = FILE_DST[round % FILE_DST.size()]; s.set("ext", SAVE_EXTS[k]).set("dst", dst);
    if ((dst == "file" || dst == "cbfile") && r.chance(1, 8)) s.set("si", 1);
    if ((dst == "handle" || dst == "cbhandle") && r.chance(1, 3)) s.set("off", r.range(1, 40));
  } else if (s.op == "savedata") s.set("cb", (long)r.below(2));
  s.set("buf", (long)r.pick(std::vector<int>{0, 1, 1, 2}));
  long est = im.i("w") * im.i("h") * 4 + 300;
  s.set("f", writeFault(r, est)); p.steps.push_back(s); focusSettings(r, p); return p;
}
static void execC04(const Plan &p) {
  const Step *sv = finalSave(p); if (!sv) return; Step h = *sv; h.kv.erase("f");
  SaveRef ref = refSave(p, sv, h);
  str key = sv->op == "save" ? sv->s("ext") + ":" + sv->s("dst") : sv->op;
  if (!ref.ok) failRun("C04", "healthy-save-" + ref.crash.substr(0, 80), "the fault-free save does not return: " + ref.crash);
  Ctx c; prelude(p, c, sv); W.clock = 2000000000;
  Step fs = *sv; fs.set("f", fitFaults(sv->s("f"), ref));
  Res r = runOp(fs, c);
  if (simFault() && ref.ret) SH->nontrivial = 1;
  SH->stateHash = hashStr(r.out, evHash);
  if (r.ret) {
    SH->cnt[0]++;
    if (!ref.ret) failRun("C04", "success-only-with-fault:" + key, "the save fails on a healthy disk (" + ref.err + ") but reports success with the fault");
    if (!r.skipped && r.out != ref.bytes) failRun("C04", "acknowledged-but-incomplete:" + key, strf("save reported success but the file holds %zu bytes that are not the %zu bytes a fault-free save writes", r.out.size(), ref.bytes.size()));
  } else {
    SH->cnt[1]++;
    if (r.err.empty()) failRun("C04", "failure-without-error:" + key, "the save answered failure without queueing an error");
    if (!simFault() && ref.ret) failRun("C04", "fails-without-fault:" + key, "the save failed although nothing went wrong: " + errText(r.err));
  }
  if (r.ret && r.skipped) SH->cnt[2]++;
}
static const char *const cntC04[] = {"saves_acknowledged", "saves_refused", "caller_saw_close_failure", nullptr};
// ---- C05 ----
static Plan genC05(Rng &r, u64 idx, bool) {
  Plan p = startPlan(r); if (r.chance(1, 2)) randSettings(r, p, false);
  int k = (int)(idx % SAVE_EXTS.size());
  p.steps.push_back(saveImg(r, r.next()));
  if (r.chance(1, 6)) { Step l = genLoad(r); l.kv.erase("f"); p.steps.push_back(l); }
  if (r.chance(1, 8)) { Step m("mipmaps"); randPixelArgs(r, m); p.steps.push_back(m); }
  Step s("save"); s.set("ext", SAVE_EXTS[k]).set("dst", "lump");
  static const char *modes[] = {"delta", "frac", "abs", "query"}; str m = modes[r.below(4)]; s.set("m", m);
  if (m == "delta") s.set("v", r.chance(1, 3) ? 0l : r.range(-20, 20)); else if (m == "frac") s.set("v", (long)r.below(1000)); else if (m == "abs") s.set("v", (long)r.skewed(700)); else s.set("v", r.chance(1, 2) ? 0l : r.range(-3, 3));
  if (r.chance(1, 8)) s.set("f", strf("afail:%ld", 1 + (long)r.skewed(10)));
  p.steps.push_back(s); focusSettings(r, p); return p;
}
static void execC05(const Plan &p) {
  const Step *sv = finalSave(p); if (!sv) return; Step h = *sv; h.kv.erase("f"); h.set("dst", "file").set("buf", 0l);
  str ext = sv->s("ext");
  SaveRef ref = refSave(p, sv, h);
  if (!ref.ok) failRun("C05", "healthy-save-" + ref.crash.substr(0, 80), "the file save does not return: " + ref.crash);
  Ctx c; prelude(p, c, sv); W.clock = 2000000000; SH->nontrivial = 1;
  long size = (long)ref.bytes.size(); Step q = *sv; q.kv.erase("f"); q.set("dst", "size");
  Res rq = runOp(q, c); W.clock = 2000000000;
  if (ext != "h") {
    if (ref.ret && rq.ret == 0) failRun("C05", "size-query-fails:" + ext, strf("the size query answers 0 (%s) although a file save writes %ld bytes", errText(rq.err).c_str(), size));
    if (ref.ret && rq.ret < size) failRun("C05", "size-query-too-small:" + ext, strf("the size query answers %ld but the encoded image has %ld bytes", rq.ret, size));
  }
  str m = sv->s("m"); long v = sv->i("v"); long n = m == "delta" ? size + v : m == "frac" ? size * v / 1000 : m == "abs" ? v : rq.ret + v; if (n < 0) n = 0; if (n > (1 << 22)) n = 1 << 22;
  Step t = *sv; t.set("n", n); Res r = runOp(t, c); SH->stateHash = mix(evHash, n);
  if (ext == "h") return;
  if (r.ret) {
    SH->cnt[0]++;
    if (!ref.ret) failRun("C05", "memory-succeeds-file-fails:" + ext, "saving to memory succeeds but to a file fails: " + ref.err);
    if (r.ret > n) failRun("C05", "length-beyond-buffer:" + ext, strf("buffer of %ld bytes, reported length %ld", n, r.ret));
    if ((r.err.empty() || !W.oomFired) && (r.ret != size || r.out != ref.bytes)) failRun("C05", "memory-differs-from-file:" + ext, strf("memory save gives %ld bytes, the file save %ld%s", r.ret, size, r.ret == size ? " other ones" : ""));
  } else {
    SH->cnt[1]++;
    if (ref.ret && !W.oomFired && n >= size && n >= rq.ret) failRun("C05", "enough-room-refused:" + ext, strf("a buffer of %ld bytes is refused although the image takes %ld and the query says %ld (%s)", n, size, rq.ret, errText(r.err).c_str()));
  }
}
static const char *const cntC05[] = {"memory_saves_succeeded", "memory_saves_refused", nullptr};
// ---- C20 ----
static Plan genC20(Rng &r, u64 idx, bool) {
  Plan p = startPlan(r); if (r.chance(1, 2)) randSettings(r, p, true);
  int k = (int)(idx % (SAVE_EXTS.size() + 1));
  p.steps.push_back(Step("slot").set("k", 1)); p.steps.push_back(saveImg(r, r.next())); p.steps.push_back(Step("slot").set("k", 0)); p.steps.push_back(saveImg(r, idx / (SAVE_EXTS.size() + 1)));
  if (r.chance(1, 5)) { Step l = genLoad(r); l.kv.erase("f"); p.steps.push_back(l); }
  if (r.chance(1, 6)) { Step m("mipmaps"); randPixelArgs(r, m); p.steps.push_back(m); if (r.chance(1, 3)) p.steps.push_back(Step("active").set("kind", 1).set("n", r.range(1, 2))); }
  if (r.chance(1, 8)) { Step m("dxtsurface"); randPixelArgs(r, m); p.steps.push_back(m); }
  Step s(k == (int)SAVE_EXTS.size() ? r.chance(1, 2) ? "savepal" : "savedata" : "save");
  if (s.op == "save") { str dst = r.pick(std::vector<str>{"file", "handle", "cbfile", "cbhandle", "lump", "size"}); s.set("ext", SAVE_EXTS[k]).set("dst", dst); if (dst == "lump") s.set("n", r.chance(1, 2) ? (long)r.skewed(3000) : 1l << 20); }
  if (s.s("dst") != "lump" && s.s("dst") != "size") s.set("buf", (long)r.range(0, 2));
  if (r.chance(3, 4)) s.set("f", s.s("dst") == "lump" || s.s("dst") == "size" || r.chance(1, 2) ? strf(r.chance(1, 5) ? "afrom:%ld" : "afail:%ld", 1 + (long)r.skewed(12)) : writeFault(r, 2000));
  p.steps.push_back(s); focusSettings(r, p); return p;
}
static void execC20(const Plan &p) {
  const Step *sv = finalSave(p); if (!sv) return; Step h = *sv; h.kv.erase("f");
  str key = sv->op == "save" ? sv->s("ext") : sv->op;
  SaveRef ref = refSave(p, sv, h);
  Ctx c; prelude(p, c, sv); W.clock = 2000000000;
  ilEnable(IL_FILE_OVERWRITE);
  str im0 = snapshotImages(8), st0 = snapshotSettings(); str d0 = imgDesc(ilGetCurImage()); ILimage *cur0 = ilGetCurImage();
  Res r = runOp(*sv, c);
  if (simFault()) SH->nontrivial = 1; else if (r.ret) SH->nontrivial = 1;
  SH->stateHash = evHash; SH->cnt[r.ret ? 0 : 1]++;
  str im1 = snapshotImages(8), st1 = snapshotSettings(), out = r.ret ? "success" : "failure";
  if (ilGetCurImage() != cur0) failRun("C20", "binding-changed:" + key + ":" + out, "after the save another (sub-)image is current");
  if (im0 != im1) failRun("C20", "image-changed:" + key + ":" + out, "the save changed the image: " + d0 + " -> " + imgDesc(ilGetCurImage()));
  if (st0 != st1) { size_t i = 0; while (i < st0.size() && i < st1.size() && st0[i] == st1[i]) i++; failRun("C20", "settings-changed:" + key, "the save changed settings: ..." + st0.substr(i > 12 ? i - 12 : 0, 50) + " -> ..." + st1.substr(i > 12 ? i - 12 : 0, 50)); }
  W.clock = 2000000000; Res r2 = runOp(h, c);
  if (ref.ok && ((r2.ret != 0) != (ref.ret != 0) || (r2.ret && r2.out != ref.bytes))) failRun("C20", "second-save-differs:" + key, strf("saving again gives %ld with %zu bytes, a first save gives %ld with %zu bytes", r2.ret, r2.out.size(), ref.ret, ref.bytes.size()));
}
static const char *const cntC20[] = {"saves_succeeded", "saves_failed", nullptr};
// ---- C15 ----
static Plan genC15(Rng &r, u64 idx, bool) {
  Plan p = startPlan(r); Step im = saveImg(r, r.next()); im.set("w", r.range(1, 20)).set("h", r.range(1, 12)); if (r.chance(1, 3)) im.set("spec", "pal"); p.steps.push_back(im);
  int n = 2 + (int)r.below(8);
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(10);
    if (k < 3) p.steps.push_back(Step("ow").set("v", (long)r.below(2)).set("how", (long)r.below(2)));
    else if (k == 3) p.steps.push_back(Step("push").set("m", r.chance(1, 2) ? 0xFFFFFl : r.chance(1, 2) ? 0x2l : (long)(r.next() & 0xFFFFF)));
    else if (k == 4) p.steps.push_back(Step("pop"));
    else {
      int q = (int)((idx + i) % (SAVE_EXTS.size() + 2)); Step s(q == (int)SAVE_EXTS.size() ? "savepal" : q == (int)SAVE_EXTS.size() + 1 ? "savedata" : "save");
      if (s.op == "save") { s.set("ext", SAVE_EXTS[q]).set("dst", r.chance(1, 4) ? "cbfile" : "file"); if (r.chance(1, 4)) s.set("si", 1); }
      s.set("keepow", 1); s.set("ex", (long)(r.chance(2, 3) ? 1 : 0)); if (r.chance(1, 4)) s.set("f", r.chance(1, 3) ? strf("afail:%ld", 1 + (long)r.skewed(8)) : writeFault(r, 500));
      p.steps.push_back(s);
    }
  }
  return p;
}
static void execC15(const Plan &p) {
  for (auto &s : p.steps) if (s.op == "cfg") applyCfgStep(s);
  libStart(0); Ctx c; c.slot[0] = ilGenImage(); ilBindImage(c.slot[0]);
  bool ow = false; std::vector<std::pair<bool, bool>> st; // (value, saved?)
  Bytes other; for (int i = 0; i < 50; i++) other.push_back(i);
  W.disk["bystander.tga"] = other;
  // which saves work at all for this image is not the question here
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue;
    if (s.op == "ow") { curOp(s.text()); if (s.i("v")) ilEnable(IL_FILE_OVERWRITE); else ilDisable(IL_FILE_OVERWRITE); ow = s.i("v"); drainErrors(); continue; }
    if (s.op == "push") { if (st.size() < 31) { runOp(s, c); st.push_back({ow, true}); if (!(s.i("m") & IL_FILE_BIT)) ow = false; } continue; }
    if (s.op == "pop") { if (!st.empty()) { runOp(s, c); ow = st.back().first; st.pop_back(); } continue; }
    if (s.op != "save" && s.op != "savepal" && s.op != "savedata") { runOp(s, c); continue; }
    str name = s.op == "savepal" ? "out.pal" : s.op == "savedata" ? "out.bin" : "out." + s.s("ext");
    bool ex = s.i("ex"); Bytes old; for (int i = 0; i < 333; i++) old.push_back((u8)(i * 3)); if (ex) W.disk[name] = old; else W.disk.erase(name);
    std::map<str, Bytes> before = W.disk; W.writesTo.clear();
    str key = s.op == "save" ? s.s("ext") + (s.i("si") ? "+byname" : "") + (s.s("dst") == "cbfile" ? "+callbacks" : "") : s.op;
    bool modelAllows = ow || !ex;
    bool cb = s.s("dst") == "cbfile";
    (void)cb;
    Res r = runOp(s, c);
    SH->cnt[modelAllows ? 1 : 0]++; if (!modelAllows) SH->nontrivial = 1;
    if (!modelAllows) {
      if (r.ret) failRun("C15", "overwrite-acknowledged:" + key, "a save onto an existing file succeeded although overwriting is not enabled");
      if (W.disk[name] != old) failRun("C15", "existing-file-changed:" + key, "a refused save changed the existing file");
      if (r.err.empty()) failRun("C15", "refusal-not-reported:" + key, "the refusal queued no error");
    }
    for (auto &f : before) if (f.first != name && (!W.disk.count(f.first) || W.disk[f.first] != f.second)) failRun("C15", "other-file-changed:" + key, "the call changed or removed " + f.first);
    for (auto &f : W.disk) if (f.first != name && !before.count(f.first)) failRun("C15", "stray-file:" + key, "the call created " + f.first);
    for (auto &v : W.soft) if (v.prop == "C15") failRun("C15", v.key, v.msg);
  }
  SH->stateHash = evHash;
}
static const char *const cntC15[] = {"refusals_expected", "writes_allowed", nullptr};
// ---- C21 ----
static const std::vector<str> LOSSLESS = {"bmp", "tga", "png", "pnm", "sgi", "tif", "psd", "raw", "pcx", "vtf", "dds"};
static bool lossless(const str &ext, const str &spec) {
  auto in = [&](std::initializer_list<const char *> l) { for (auto x : l) if (spec == x) return true; return false; };
  if (ext == "bmp") return in({"rgb", "bgr", "lum", "pal"});  // 32-bit bitmaps load without alpha by design
  if (ext == "tga") return in({"rgb", "bgr", "rgba", "bgra", "lum", "pal"});
  if (ext == "png") return in({"rgb", "bgr", "rgba", "bgra", "lum", "la", "pal", "rgb16", "rgba16", "lum16", "la16", "bgra16"});
  if (ext == "pnm") return in({"rgb", "bgr", "lum"});
  if (ext == "sgi") return in({"rgb", "rgba", "bgr", "bgra", "lum"});
  if (ext == "tif") return in({"rgb", "rgba", "bgr", "bgra", "lum", "rgb16", "rgba16", "lum16"});
  if (ext == "psd") return in({"rgb", "rgba", "bgr", "bgra", "lum", "rgb16", "rgba16"});
  if (ext == "raw") return in({"rgb", "rgba", "lum", "rgb16", "lum16"});
  if (ext == "pcx") return in({"rgb", "bgr", "pal"});
  if (ext == "vtf") return in({"rgb", "rgba", "bgr", "bgra", "lum", "la", "rgba16"});
  return false;
}
// pixels as RGBA 16 bit, top row first
static str canon(ILimage *im) {
  if (!im || !im->Data) return "none";
  int ch = im->Bpp, bpc = im->Bpc; str out = strf("%ux%u:", im->Width, im->Height);
  if (im->Depth != 1) return "deep";
  auto comp = [&](const u8 *p) -> unsigned { if (im->Type == IL_UNSIGNED_BYTE) return *p * 257u; if (im->Type == IL_UNSIGNED_SHORT) { unsigned short v; memcpy(&v, p, 2); return v; } return 0xFFFFFF; };
  for (u32 y = 0; y < im->Height; y++) {
    u32 row = im->Origin == IL_ORIGIN_UPPER_LEFT ? y : im->Height - 1 - y;
    for (u32 x = 0; x < im->Width; x++) {
      const u8 *p = im->Data + (size_t)row * im->Bps + (size_t)x * ch * bpc; unsigned c[4] = {0, 0, 0, 65535};
      switch (im->Format) {
      case IL_RGB: case IL_RGBA: for (int i = 0; i < ch; i++) c[i] = comp(p + i * bpc); break;
      case IL_BGR: case IL_BGRA: for (int i = 0; i < ch; i++) c[i == 3 ? 3 : 2 - i] = comp(p + i * bpc); break;
      case IL_LUMINANCE: c[0] = c[1] = c[2] = comp(p); break;
      case IL_LUMINANCE_ALPHA: c[0] = c[1] = c[2] = comp(p); c[3] = comp(p + bpc); break;
      case IL_COLOUR_INDEX: {
        int pb = im->Pal.PalType == IL_PAL_RGB24 || im->Pal.PalType == IL_PAL_BGR24 ? 3 : 4; size_t i = *p; if (!im->Pal.Palette || (i + 1) * pb > im->Pal.PalSize) { c[0] = 0xABCDEF; break; }
        const u8 *q = im->Pal.Palette + i * pb; bool bgr = im->Pal.PalType == IL_PAL_BGR24 || im->Pal.PalType == IL_PAL_BGR32 || im->Pal.PalType == IL_PAL_BGRA32;
        c[0] = q[bgr ? 2 : 0] * 257u; c[1] = q[1] * 257u; c[2] = q[bgr ? 0 : 2] * 257u; if (im->Pal.PalType == IL_PAL_RGBA32 || im->Pal.PalType == IL_PAL_BGRA32) c[3] = q[3] * 257u; break; }
      default: c[0] = 0xFEDCBA;
      }
      out.append((char *)c, sizeof c);
    }
  }
  return out;
}
static Plan genC21(Rng &r, u64 idx, bool) {
  Plan p = startPlan(r); if (r.chance(1, 2)) randSettings(r, p, false);
  static std::vector<std::pair<str, str>> combos; if (combos.empty()) for (auto &e : LOSSLESS) for (auto &s : SPECS) if (lossless(e, s.name)) combos.push_back({e, s.name});
  auto &cb = combos[idx % combos.size()]; Step im = saveImg(r, 0); im.set("spec", cb.second); im.kv.erase("d"); im.kv.erase("pal"); im.kv.erase("nc"); if (cb.second == "pal") { im.set("pal", r.chance(1, 2) ? 0l : 2l); im.set("nc", r.pick(std::vector<long>{256, 256, 255, 16, 4, 2})); }
  if (cb.first == "vtf") { im.set("w", 1l << r.below(6)); im.set("h", 1l << r.below(6)); bool lossy = r.chance(1, 4); p.steps.push_back(Step("set").set("k", "vtf").set("v", lossy ? r.range(1, 3) : 0l)); }  // only powers of two can be held
  if (cb.first == "raw") im.set("org", 1l);  // the format records no orientation
  p.steps.push_back(im);
  Step s("save"); s.set("ext", cb.first).set("dst", r.pick(FILE_DST)).set("buf", (long)r.pick(std::vector<int>{0, 1, 2}));
  if (r.chance(1, 2)) { long est = im.i("w") * im.i("h") * 3 + 100; s.set("f", r.chance(1, 3) ? strf("wfailp:%ld", 1 + (long)r.skewed(80)) : strf("wspace:%ld", r.chance(1, 4) ? r.range(0, 64) : (long)r.below(est))); }
  p.steps.push_back(s); if (cb.first != "vtf" && cb.first != "dds") focusSettings(r, p); Step l("reload"); l.set("src", LOAD_SOURCES[r.below(LOAD_SOURCES.size())]); p.steps.push_back(l); return p;
}
static void execC21(const Plan &p) {
  const Step *sv = finalSave(p); const Step *rl = find(p, "reload"); if (!sv || !rl) return; str ext = sv->s("ext");
  // first life: make, save, crash
  FreshResult f = runFresh([&]() {
    simReset(); Ctx c; prelude(p, c, sv); str want = canon(ilGetCurImage()); Res r = runOp(*sv, c);
    bool cutShort = simFault(); str name = "out." + ext; Bytes b = W.disk.count(name) ? W.disk[name] : Bytes(); long off = sv->s("dst") == "handle" || sv->s("dst") == "cbhandle" ? sv->i("off") : 0; if ((long)b.size() < off) off = b.size();
    return strf("%ld %d %zu ", r.ret, (int)cutShort, want.size()) + want + str(b.begin() + off, b.end()); });
  if (!f.ok) failRun("C21", "save-" + f.err.substr(0, 80), "the save does not return: " + f.err);
  long ret; int cutShort; size_t wl; int n = 0; sscanf(f.out.c_str(), "%ld %d %zu %n", &ret, &cutShort, &wl, &n);
  // n may have skipped white space belonging to the data: locate it exactly
  size_t q = 0; for (int i = 0; i < 3; i++) q = f.out.find(' ', q) + 1;
  str want = f.out.substr(q, wl), bytes = f.out.substr(q + wl);
  if (cutShort) SH->cnt[1]++; else SH->cnt[0]++;
  if (!cutShort && !ret) failRun("C21", "save-refused:" + ext, "saving an image the format can hold fails on a healthy disk");
  // second life: a fresh library, only the disk content survives
  for (auto &s : p.steps) if (s.op == "cfg") applyCfgStep(s);
  libStart(0); ILuint a = ilGenImage(); ilBindImage(a); SH->nontrivial = 1; SH->stateHash = hashStr(bytes);
  Sample sm; sm.name = "survivor"; sm.ext = ext; sm.type = typeByExt(ext); sm.data.assign(bytes.begin(), bytes.end()); sm.typed = true; SAMPLES.push_back(sm);
  Step ld("load"); ld.set("sample", "survivor").set("src", rl->s("src", "file")); Res r = doLoad(ld);
  str got = canon(ilGetCurImage());
  SH->cnt[r.ret ? 2 : 3]++;
  if (!cutShort) {
    if (!r.ret) failRun("C21", "reload-fails:" + ext + ":" + (find(p, "img") ? find(p, "img")->s("spec") : ""), "the file that was saved with success does not load: " + errText(r.err));
    bool lossy = false; if (ext == "vtf") for (auto &s : p.steps) if (s.op == "set" && s.s("k") == "vtf") lossy = s.i("v") != 0;
    if (lossy ? got.substr(0, got.find(':')) != want.substr(0, want.find(':')) : got != want) failRun("C21", "reload-differs:" + ext + ":" + (find(p, "img") ? find(p, "img")->s("spec") : ""), strf("the image comes back different: %s, wanted %s", imgDesc(ilGetCurImage()).c_str(), want.substr(0, want.find(':')).c_str()));
  } else if (r.ret && r.err.empty() && got != want && ext != "vtf") {
    failRun("C21", "torn-file-accepted:" + ext, strf("a file cut off by a crash (%zu bytes) loads without any error and gives other pixels: %s", bytes.size(), imgDesc(ilGetCurImage()).c_str()));
  }
}
static const char *const cntC21[] = {"whole_files", "cut_short_by_crash", "reloads_succeeded", "reloads_failed", nullptr};

Scenario scC04() { return {"C04", "exploration", "run = settings, one image (generated or loaded), one save (every format, palette or raw data; file, handle, callbacks; three buffer sizes) with one or two write faults (n-th write fails once or for good, short write, disk full after n bytes, seek or close fails, open fails), compared byte by byte with a fault-free twin in a fresh process; non-trivial: a fault took effect on a save that works when healthy; distinct by event-log and file hash", [](bool t) { return (u64)(t ? 400000 : 30000); }, genC04, execC04, cntC04}; }
Scenario scC05() { return {"C05", "exploration", "run = settings, one image, size query, one save to an exact-size memory buffer whose length is chosen around the boundaries (encoded size +-20, a fraction, a small number, the query's answer +-3), compared with the file save of a fresh process; buffers are red-zoned by the address sanitizer; distinct by event-log hash and length", [](bool t) { return (u64)(t ? 300000 : 20000); }, genC05, execC05, cntC05}; }
Scenario scC15() { return {"C15", "exploration", "run = history of enabling/disabling overwriting, attribute pushes and pops and named saves onto existing or missing files with write and allocation faults, against a model of the setting; the whole simulated disk is compared before and after each call; non-trivial: at least one refusal was due; distinct by event-log hash", [](bool t) { return (u64)(t ? 300000 : 40000); }, genC15, execC15, cntC15}; }
Scenario scC20() { return {"C20", "exploration", "run = settings, two images, one save of any format to any sink with write or allocation faults; all images, sub-images, the binding and all settings are compared before and after, and a second save is compared with a fresh process; distinct by event-log hash", [](bool t) { return (u64)(t ? 400000 : 30000); }, genC20, execC20, cntC20}; }
Scenario scC21() { return {"C21", "exploration", "run = first life: make an image, save it in a lossless format, in half of the runs with a crash after a prefix of the writes; second life: a fresh library loads what survived on the disk from a random kind of source; pixels compared; distinct by event-log and file hash", [](bool t) { return (u64)(t ? 400000 : 30000); }, genC21, execC21, cntC21}; }
