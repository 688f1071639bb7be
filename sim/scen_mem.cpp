// Scenarios about memory: C06, C07, C17, C19
#include "ops.h"
#include <algorithm>

static Plan startPlan(Rng &r) { Plan p; Step cfg("cfg"); cfg.set("fill", (long)r.pick(std::vector<int>{0xCD, 0, 0xFF, 0x01, 0x80})); p.steps.push_back(cfg); return p; }
static void startLib(const Plan &p, Ctx &c) {
  for (auto &s : p.steps) if (s.op == "cfg") applyCfgStep(s);
  libStart(0); c.slot[0] = ilGenImage(); ilBindImage(c.slot[0]); c.cur = 0;
}
struct OpRef { bool ok = false; str crash, err, images, out, desc; long ret = 0, nAlloc = 0; };
static str cleanOut(const str &o) { return strf("%zu:%llx", o.size(), (unsigned long long)hashStr(o)); }
// the same history in a fresh process, the last step without faults
static OpRef refOp(const Plan &p, const Step *target) {
  OpRef o; Step h = *target; h.kv.erase("f");
  FreshResult f = runFresh([&]() {
    simReset(); Ctx c; startLib(p, c);
    for (auto &s : p.steps) { if (&s == target) break; if (s.op != "cfg") runOp(s, c); }
    W.clock = 2000000000; W.randState = 777; Res r = runOp(h, c);
    return strf("%ld|%ld|%s|%s|%s|%s", r.ret, W.nAlloc, errText(r.err).c_str(), snapshotImages(12).c_str(), cleanOut(r.out).c_str(), imgDesc(ilGetCurImage()).c_str());
  });
  o.ok = f.ok; o.crash = f.err; if (!f.ok) return o;
  std::vector<str> v; size_t a = 0; for (int i = 0; i < 5; i++) { size_t b = f.out.find('|', a); v.push_back(f.out.substr(a, b - a)); a = b + 1; } v.push_back(f.out.substr(a));
  o.ret = atol(v[0].c_str()); o.nAlloc = atol(v[1].c_str()); o.err = v[2]; o.images = v[3]; o.out = v[4]; o.desc = v[5]; return o;
}
static bool answersAlways(const str &op) { static const char *v[] = {"setpixels", "regpal", "modalpha", "push", "pop", "del", "set", "dxtflip", "info", "img", "region", "regorigin", "getdata", "getters"}; for (auto x : v) if (op == x) return true; return false; }
static Step fit(const Step &t, const OpRef &ref) {
  Step s = t; str out; for (auto &f : parseFaults(t.s("f"))) { Fault g = f; if (g.k == A_FAIL || g.k == A_FROM) g.n = 1 + (g.n - 1) % std::max(1l, ref.nAlloc); out += strf("%s%s:%ld", out.empty() ? "" : ",", faultName[g.k], g.n); }
  if (!out.empty()) s.set("f", out); return s;
}
static str allocFault(Rng &r) { switch (r.below(8)) { case 0: case 1: return strf("afrom:%ld", 1 + (long)r.below(40)); case 2: return strf("abig:%ld", r.pick(std::vector<long>{16, 64, 256, 1000, 3000, 20000})); case 3: return strf("afail:%ld,afail:%ld", 1 + (long)r.below(12), 1 + (long)r.below(40)); default: return strf("afail:%ld", 1 + (long)r.below(60)); } }
static const Step *target(const Plan &p) { for (auto i = p.steps.rbegin(); i != p.steps.rend(); ++i) if (i->op != "cfg") return &*i; return nullptr; }
static void useAll(const char *prop, Ctx &c, const str &key) {
  (void)prop; (void)key;
  for (ILuint n = 1; n < 12; n++) if (ilIsImage(n)) { ilBindImage(n); battery(); }
}
// ---- C06 ----
static const std::vector<str> &c06Kinds() {
  static std::vector<str> v; if (v.empty()) { for (auto &o : PIXEL_OPS) v.push_back(o); for (auto &e : SAVE_EXTS) v.push_back("save " + e); for (auto &s : SAMPLES) v.push_back("load " + s.name); for (auto x : {"slot", "del", "push", "pop", "set", "savepal", "savedata", "loadpal", "loadraw", "dxttex", "probe", "active"}) v.push_back(x); } return v;
}
static Step stepOfKind(Rng &r, const str &k) {
  Step s; if (k.compare(0, 5, "save ") == 0) { s = genSave(r); s.set("ext", k.substr(5)); } else if (k.compare(0, 5, "load ") == 0) { s = genLoad(r); s.set("sample", k.substr(5)); }
  else if (k == "slot" || k == "del") s = Step(k).set("k", (long)r.below(4)); else if (k == "push") s = Step(k).set("m", r.chance(1, 2) ? 0xFFFFFl : (long)(r.next() & 0xFFF));
  else if (k == "set") { s = Step("set").set("k", "str").set("v", (long)r.below(11)).set("n", (long)r.below(100)); } else if (k == "probe") { const Sample &sm = SAMPLES[r.below(SAMPLES.size())]; s = Step("probe"); s.set("sample", sm.name).set("src", r.pick(LOAD_SOURCES)).set("det", (long)r.below(2)); }
  else if (k == "active") s = Step(k).set("kind", (long)r.below(4)).set("n", (long)r.below(3)); else if (k == "loadpal") s = Step(k).set("num", r.range(1, 256)); else if (k == "savepal" || k == "savedata" || k == "pop") s = Step(k);
  else { s = Step(k); randPixelArgs(r, s); s.set("oslot", (long)r.below(2)); }
  return s;
}
static void genScene(Rng &r, Plan &p, u64 specIdx) {
  if (r.chance(1, 2)) randSettings(r, p, true);
  p.steps.push_back(Step("slot").set("k", 1)); p.steps.push_back(genImage(r)); p.steps.push_back(Step("slot").set("k", 0));
  Step im = genImage(r); im.set("spec", SPECS[specIdx % SPECS.size()].name); if (im.s("spec") == "pal" && !im.has("nc")) im.set("nc", r.range(1, 256)).set("pal", r.range(0, 2)); p.steps.push_back(im);
  if (r.chance(1, 6)) { Step m("mipmaps"); randPixelArgs(r, m); p.steps.push_back(m); }
  if (r.chance(1, 8)) { Step m("subimage"); randPixelArgs(r, m); p.steps.push_back(m); }
  if (r.chance(1, 8)) { Step m("dxtsurface"); randPixelArgs(r, m); p.steps.push_back(m); }
  if (r.chance(1, 8)) { Step l = genLoad(r); p.steps.push_back(l); }
}
static Plan genC06(Rng &r, u64 idx, bool) {
  Plan p = startPlan(r); auto &ks = c06Kinds(); genScene(r, p, idx / ks.size());
  if (ks[idx % ks.size()] == "pop") p.steps.push_back(Step("push").set("m", (long)(r.next() & 0xFFFFF)));
  Step s = stepOfKind(r, ks[idx % ks.size()]); s.set("f", allocFault(r)); p.steps.push_back(s); focusSettings(r, p); return p;
}
static void execC06(const Plan &p) {
  const Step *t = target(p); if (!t || t->op == "cfg") return; OpRef ref = refOp(p, t); str key = imgKey(*t);
  if (!ref.ok) failRun("C06", "healthy-" + ref.crash.substr(0, 80), "the operation does not return even with memory: " + ref.crash);
  Ctx c; startLib(p, c); for (auto &s : p.steps) { if (&s == t) break; if (s.op != "cfg") runOp(s, c); }
  Step fs = fit(*t, ref); ILuint cur0 = ilGetCurName(); ILuint other = c.slot[1]; u64 ho = 0; if (other && other != cur0) { ilBindImage(other); ho = imgHash(ilGetCurImage()); ilBindImage(cur0); for (auto &s : p.steps) { if (&s == t) break; if (s.op == "active") { /* selection was lost by binding: restore it */ ilActiveImage(0); runOp(s, c); } } }
  W.clock = 2000000000; W.randState = 777; Res r = runOp(fs, c);
  str images = snapshotImages(12), desc = imgDesc(ilGetCurImage());
  bool oom = W.oomFired; if (oom) SH->nontrivial = 1; SH->cnt[oom ? r.ret && r.err.empty() ? 0 : 1 : 2]++; SH->stateHash = hashStr(images, evHash);
  curOp("after " + fs.text());
  checkAllImages(12, "C06", key);
  if (oom) {
    bool clean = r.err.empty() && (r.ret || answersAlways(t->op));
    bool said = answersAlways(t->op) ? r.err.empty() : t->op == "subimage" ? r.ret == ref.ret : t->op == "save" ? clean : r.ret != 0;  // the call says that it did its work
    if (said && ref.err.empty() && t->op != "compare" && !r.skipped) {
      if (images != ref.images) failRun("C06", "success-but-different:" + key, strf("the call reports success although an allocation was refused, and the result differs: %s, with memory %s", desc.c_str(), ref.desc.c_str()));
      if (cleanOut(r.out) != ref.out) failRun("C06", "success-but-other-output:" + key, "the call reports success although an allocation was refused, and delivers other data");
    }
    if (!clean && ref.ret && ref.err.empty() && !hasErr(r.err, IL_OUT_OF_MEMORY)) failRun("C06", "no-out-of-memory-error:" + key, "an allocation was refused and the call failed, but no out-of-memory error is queued: " + errText(r.err));
  }
  if (other && other != cur0 && ilIsImage(other) && t->op != "del") { ilBindImage(other); if (imgHash(ilGetCurImage()) != ho) failRun("C06", "other-image-changed:" + key, "an image that was not bound changed"); }
  useAll("C06", c, key);
  curOp("delete all"); for (ILuint n = 1; n < 12; n++) if (ilIsImage(n)) ilDeleteImage(n);
  ILuint g = ilGenImage(); ilBindImage(g); if (!g || ilGetCurName() != g) failRun("C06", "unusable-afterwards:" + key, "no image can be created once memory is available again");
  makeImage(1, 3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, 0, 0); str pb = imgProblem(ilGetCurImage()); if (!pb.empty() || ilGetInteger(IL_IMAGE_WIDTH) != 3) failRun("C06", "unusable-afterwards:" + key, "a new image cannot be filled: " + pb);
  curOp("shutdown"); libEnd();
}
static const char *const cntC06[] = {"calls_succeeded_despite_refusal", "calls_reported_failure", "no_allocation_refused", nullptr};
// ---- C19 ----
static Plan genC19(Rng &r, u64 idx, bool) {
  Plan p = startPlan(r); size_t n = PIXEL_OPS.size(); genScene(r, p, idx / n);
  if (r.chance(1, 4)) { Step m(PIXEL_OPS[r.below(n)]); randPixelArgs(r, m); m.set("oslot", (long)r.below(2)); p.steps.push_back(m); }
  Step s(PIXEL_OPS[idx % n]); randPixelArgs(r, s); s.set("oslot", (long)r.below(2)); s.set("f", allocFault(r)); p.steps.push_back(s); focusSettings(r, p); return p;
}
static void execC19(const Plan &p) {
  const Step *t = target(p); if (!t || t->op == "cfg" || !isPixelOp(t->op)) return; OpRef ref = refOp(p, t); str key = imgKey(*t);
  if (!ref.ok) failRun("C19", "healthy-" + ref.crash.substr(0, 80), "the operation does not return even with memory: " + ref.crash);
  Ctx c; startLib(p, c); for (auto &s : p.steps) { if (&s == t) break; if (s.op != "cfg") runOp(s, c); }
  str before = strf("%llx", (unsigned long long)imgHash(ilGetCurImage()));
  Step fs = fit(*t, ref); W.clock = 2000000000; W.randState = 777; Res r = runOp(fs, c); str after = strf("%llx", (unsigned long long)imgHash(ilGetCurImage())), desc = imgDesc(ilGetCurImage());
  str images = snapshotImages(12); bool oom = W.oomFired; if (oom) SH->nontrivial = 1; SH->stateHash = hashStr(images, evHash);
  bool clean = r.err.empty() && (r.ret || answersAlways(t->op)); SH->cnt[clean ? 0 : after == before ? 1 : 2]++;
  checkAllImages(12, "C19", key);
  bool said = answersAlways(t->op) ? r.err.empty() : t->op == "subimage" ? r.ret == ref.ret : r.ret != 0;  // the call says that it did its work
  if (said && ref.err.empty() && (ref.ret || answersAlways(t->op))) {
    if (images != ref.images) failRun("C19", "success-but-different:" + key, strf("the operation reports success and the image is not the one it gives when nothing goes wrong: %s, otherwise %s", desc.c_str(), ref.desc.c_str()));
    if (cleanOut(r.out) != ref.out) failRun("C19", "success-but-other-output:" + key, "the operation reports success and delivers other data than when nothing goes wrong");
  }
  if (!oom && r.ret != ref.ret) failRun("C19", "answer-differs:" + key, strf("answers %ld, in a fresh process %ld", r.ret, ref.ret));
}
static const char *const cntC19[] = {"operations_succeeded", "failed_image_untouched", "failed_image_changed_but_complete", nullptr};
// ---- C17 ----
static Plan genHistory(Rng &r, int lo, int hi, const GenOpt &o) { Plan p = startPlan(r); if (r.chance(1, 3)) randSettings(r, p, true); int cur = 0; p.steps.push_back(genImage(r)); int n = (int)r.range(lo, hi); for (int i = 0; i < n; i++) p.steps.push_back(genOp(r, o, cur)); return p; }
static GenOpt swarm(Rng &r) { GenOpt o; o.faultNum = (int)r.pick(std::vector<int>{0, 1, 1, 1, 2}); o.faultDen = (int)r.pick(std::vector<int>{3, 4, 6}); o.slots = (int)r.range(1, 4); if (r.chance(1, 4)) o.allocFaults = false; else if (r.chance(1, 3)) o.ioFaults = false; if (r.chance(1, 3)) o.loads = false; if (r.chance(1, 3)) o.saves = false; if (r.chance(1, 3)) o.settings = false; if (r.chance(1, 3)) o.probes = false; if (r.chance(1, 4)) o.sub = false; if (!o.loads && !o.saves) o.pixels = true; else if (r.chance(1, 4)) o.pixels = false; return o; }
static Plan genC17(Rng &r, u64 idx, bool th) { GenOpt o = swarm(r); return genHistory(r, 3, th ? 30 : 14, o); }
static void execC17(const Plan &p) {
  Ctx c; startLib(p, c); int fired = 0, done = 0;
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue; runOp(s, c); done++; if (simFault()) fired++; str key = imgKey(s);
    curOp("check after " + s.text());
    checkAllImages(16, "C17", key);
    ILimage *im = ilGetCurImage(); if (!im) continue;
    // what the interface reports is what the record holds
    struct { ILenum q; long v; } qs[] = {{IL_IMAGE_WIDTH, im->Width}, {IL_IMAGE_HEIGHT, im->Height}, {IL_IMAGE_DEPTH, im->Depth}, {IL_IMAGE_SIZE_OF_DATA, im->SizeOfData}, {IL_IMAGE_BYTES_PER_PIXEL, (long)im->Bpp * im->Bpc}, {IL_IMAGE_BITS_PER_PIXEL, (long)im->Bpp * im->Bpc * 8}, {IL_IMAGE_FORMAT, im->Format}, {IL_IMAGE_TYPE, im->Type}, {IL_IMAGE_CHANNELS, im->Bpp}, {IL_PALETTE_TYPE, im->Pal.PalType}};
    for (auto &q : qs) { long v = (ILuint)ilGetInteger(q.q); if (v != (long)(ILuint)q.v) failRun("C17", strf("query-%x:", q.q) + key, strf("query %x answers %ld, the image record says %ld after %s", q.q, v, q.v, s.text().c_str())); }
    u32 pc = im->Pal.PalType == IL_PAL_NONE ? 0 : im->Pal.PalSize / (im->Pal.PalType == IL_PAL_RGB24 || im->Pal.PalType == IL_PAL_BGR24 ? 3 : 4);
    if (im->Pal.PalSize && (u32)ilGetInteger(IL_PALETTE_NUM_COLS) != pc) failRun("C17", "palette-length:" + key, strf("the palette is reported to have %d entries but holds %u after %s", ilGetInteger(IL_PALETTE_NUM_COLS), pc, s.text().c_str()));
    drainErrors();
  }
  SH->nontrivial = done > 1; SH->cnt[0] += done; SH->cnt[1] += fired; SH->stateHash = hashStr(snapshotImages(16), evHash);
}
static const char *const cntC17[] = {"operations", "operations_hit_by_a_fault", nullptr};
// ---- C07 ----
static ILenum ILAPIENTRY dummyHandler(ILconst_string) { return IL_FALSE; }
static Plan genC07(Rng &r, u64 idx, bool th) {
  GenOpt o = swarm(r); if (o.faultNum == 0) o.faultNum = (int)r.below(2); Plan p = genHistory(r, 1, th ? 25 : 10, o);
  if (idx % 3 == 0) { auto &ks = c06Kinds(); Step s = stepOfKind(r, ks[(idx / 3) % ks.size()]); s.set("f", r.chance(1, 2) ? allocFault(r) : randFaultFor(r, s, true, true)); if (s.s("f").empty()) s.kv.erase("f"); if (opMayFault(s.op)) p.steps.push_back(s); }
  int n = (int)r.below(4); for (int i = 0; i < n; i++) { Step s(r.chance(2, 3) ? "reg" : "unreg"); s.set("save", (long)r.below(2)).set("e", (long)r.below(4)); if (r.chance(1, 4)) s.set("f", strf("afail:%ld", r.range(1, 3))); p.steps.insert(p.steps.begin() + 1 + r.below(p.steps.size()), s); }
  return p;
}
static void execC07(const Plan &p) {
  Ctx c; startLib(p, c); int fired = 0;
  static const char *E[] = {"aaa", "bbb", "ccc", "ddd"};
  auto soft = [&](const str &key) { for (auto &v : W.soft) if (v.prop == "C07") failRun("C07", v.key + ":" + key, v.msg + " during " + key); };
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue;
    if (s.op == "reg" || s.op == "unreg") { curOp(s.text()); const char *e = E[s.i("e") & 3]; arm(s.s("f")); if (s.op == "reg") { if (s.i("save")) ilRegisterSave(e, dummyHandler); else ilRegisterLoad(e, dummyHandler); } else { if (s.i("save")) ilRemoveSave(e); else ilRemoveLoad(e); } disarm(); drainErrors(); soft(s.op); continue; }
    runOp(s, c); if (simFault()) { fired++; SH->nontrivial = 1; }
    soft(imgKey(s));
  }
  SH->cnt[0]++; SH->cnt[1] += fired; SH->stateHash = evHash; SH->cnt[2] += W.allocSerial;
  for (auto e : E) { ilRemoveLoad(e); ilRemoveSave(e); } drainErrors();
  size_t nops = W.opTags.size();
  curOp("delete all"); for (ILuint n = 0; n < 64; n++) if (n && ilIsImage(n)) ilDeleteImage(n);
  soft("delete"); curOp("shutdown"); ilShutDown(); soft("shutdown");
  if (!W.blocks.empty()) {
    const Block *b = nullptr; for (auto &x : W.blocks) if (!b || x.second.serial < b->serial) b = &x.second;
    str who = b->tag == 0 ? "init" : b->tag <= nops ? W.opTags[b->tag - 1] : "shutdown"; str k = who.substr(0, who.find(' '));
    for (auto &s : p.steps) if (s.text() == who || "load " + s.text() == who || "save " + s.text() == who) k = imgKey(s);
    failRun("C07", "leak:" + k, strf("%zu blocks are outstanding after shutdown; the oldest has %zu bytes (allocation %llu) and was taken during: %s", W.blocks.size(), b->size, (unsigned long long)b->serial, who.c_str()));
  }
}
static const char *const cntC07[] = {"histories_shut_down", "operations_hit_by_a_fault", "blocks_tracked", nullptr};

Scenario scC06() { return {"C06", "exploration", "run = settings, two images, one call (every pixel operation, every save format, every sample load, stacks, palettes, probes, names in turn) in which one, two, all from some point, or all large allocations are refused (points fitted to the allocations the call makes), compared with a fault-free twin in a fresh process; then all images are checked, used, deleted and a new one made; non-trivial: an allocation was refused; distinct by event-log and image hashes", [](bool t) { return (u64)(t ? 500000 : 40000); }, genC06, execC06, cntC06}; }
Scenario scC07() { return {"C07", "exploration", "run = history of operations (swarm-chosen mix) with I/O and allocation faults and handler registrations, then deletion of all images and shutdown; every callback block accounted for; non-trivial: a fault took effect; distinct by event-log hash", [](bool t) { return (u64)(t ? 500000 : 40000); }, genC07, execC07, cntC07}; }
Scenario scC17() { return {"C17", "exploration", "run = history of operations (swarm-chosen mix) with I/O and allocation faults; after each call every live image and all its sub-images are checked for consistent sizes against the simulated allocator's block sizes and the query interface; distinct by event-log and image hashes", [](bool t) { return (u64)(t ? 400000 : 36000); }, genC17, execC17, cntC17}; }
Scenario scC19() { return {"C19", "exploration", "run = settings, two images, one pixel operation (each in turn) with refused allocations fitted to those it makes, compared with a fault-free twin in a fresh process; non-trivial: an allocation was refused; distinct by event-log and image hashes", [](bool t) { return (u64)(t ? 500000 : 36000); }, genC19, execC19, cntC19}; }
