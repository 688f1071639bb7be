#include "ops.h"
#include <algorithm>
bool isPixelOp(const str &op) { return std::find(PIXEL_OPS.begin(), PIXEL_OPS.end(), op) != PIXEL_OPS.end(); }
static const ILenum PROBE_TYPES[] = {IL_BMP, IL_TGA, IL_PCX, IL_PNG, IL_JPG, IL_PNM, IL_SGI, IL_TIF, IL_PSD, IL_HDR, IL_DDS, IL_VTF, IL_GIF, IL_ICNS, IL_LIF, IL_MDL, IL_MNG, IL_PIX, IL_DCX, IL_DICOM, IL_DPX, IL_FITS, IL_FTX, IL_IFF, IL_ILBM, IL_IWI, IL_JP2, IL_KTX, IL_PIC, IL_PSP, IL_PXR, IL_SCITEX, IL_SUN, IL_TPL, IL_XPM, IL_MP3, IL_BLP, IL_EXR, IL_WAL, IL_UTX, IL_CUT, IL_ICO, IL_RAW, IL_TYPE_UNKNOWN, 0x9999};
Res runOp(const Step &s, Ctx &c) {
  Res r; const str &o = s.op;
  if (o == "slot") {
    int k = (int)s.i("k") & 7; curOp(s.text()); arm(s.s("f"));
    if (!c.slot[k]) c.slot[k] = ilGenImage();
    if (c.slot[k]) { ilBindImage(c.slot[k]); c.cur = k; }
    disarm(); r.ret = c.slot[k] && ilGetCurName() == c.slot[k]; r.err = drainErrors(); ev("slot -> %ld", r.ret); return r;
  }
  if (o == "del") {
    int k = (int)s.i("k") & 7; curOp(s.text()); arm(s.s("f"));
    if (c.slot[k]) { ilDeleteImage(c.slot[k]); c.slot[k] = 0; if (c.cur == k) c.cur = -1; }
    disarm(); r.ret = 1; r.err = drainErrors(); return r;
  }
  if (o == "img") { curOp(s.text()); makeImageFrom(s); r.ret = 1; return r; }
  if (o == "load") return doLoad(s);
  if (o == "save") return doSave(s);
  if (o == "set") { arm(s.s("f")); r = doSetting(s); disarm(); return r; }
  if (o == "push") { curOp(s.text()); arm(s.s("f")); ilPushAttrib((ILuint)s.i("m")); disarm(); r.ret = 1; r.err = drainErrors(); return r; }
  if (o == "pop") { curOp(s.text()); arm(s.s("f")); ilPopAttrib(); disarm(); r.ret = 1; r.err = drainErrors(); return r; }
  if (o == "active") {
    curOp(s.text()); long n = s.i("n"), k = s.i("kind"); arm(s.s("f"));
    r.ret = k == 0 ? ilActiveImage((ILuint)n) : k == 1 ? ilActiveMipmap((ILuint)n) : k == 2 ? ilActiveLayer((ILuint)n) : ilActiveFace((ILuint)n);
    disarm(); r.err = drainErrors(); ev("active -> %ld", r.ret); return r;
  }
  if (o == "savepal" || o == "savedata") {
    str name = s.s("name", o == "savepal" ? "out.pal" : "out.bin"); installIO(s.i("cb")); W.bufMode = (int)s.i("buf"); W.chunk = 0;
    if (!s.i("keepow")) { ilEnable(IL_FILE_OVERWRITE); if (!s.i("exists")) W.disk.erase(name); }
    curOp(s.text()); arm(s.s("f"));
    r.ret = o == "savepal" ? ilSavePal(name.c_str()) : ilSaveData(name.c_str());
    disarm(); if (W.disk.count(name)) r.out.assign(W.disk[name].begin(), W.disk[name].end()); r.err = drainErrors();
    ev("%s -> %ld err %s #%llx", o.c_str(), r.ret, errText(r.err).c_str(), (unsigned long long)hashStr(r.out)); return r;
  }
  if (o == "loadpal") {
    str t = "JASC-PAL\r\n0100\r\n"; long n = s.i("num", 16); t += strf("%ld\r\n", n); for (long i = 0; i < n; i++) t += strf("%ld %ld %ld\r\n", (i * 37) & 255, (i * 11) & 255, (255 - i) & 255);
    if (s.has("cut")) t.resize(std::min<size_t>(t.size(), s.i("cut")));
    W.disk["in.pal"].assign(t.begin(), t.end()); installIO(0); W.bufMode = (int)s.i("buf"); W.chunk = 0;
    curOp(s.text()); arm(s.s("f")); r.ret = ilLoadPal("in.pal"); disarm(); r.err = drainErrors(); ev("loadpal -> %ld", r.ret); return r;
  }
  if (o == "loadraw") { // ilLoadDataL / ilLoadDataF
    long w = s.i("w", 4), h = s.i("h", 4), bpp = 1 + s.i("a") % 4; Bytes b(std::max(0l, w * h * bpp - s.i("short"))); for (size_t i = 0; i < b.size(); i++) b[i] = (u8)(i * 7);
    curOp(s.text()); installIO(0); W.chunk = 0; W.bufMode = (int)s.i("buf");
    if (s.i("b") & 1) { u8 *p = (u8 *)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size()); arm(s.s("f")); r.ret = ilLoadDataL(p, (ILuint)b.size(), w, h, 1, (ILubyte)bpp); disarm(); free(p); }
    else {
      W.disk["in.bin"] = b; arm(s.s("f")); Handle *hd = simOpenHandle("in.bin", false, true, false); r.ret = ilLoadDataF(handlePtr(hd), w, h, 1, (ILubyte)bpp); disarm();
      if (!W.byFp.count(hd->fp)) note("C08", "caller-handle-closed", "the caller's handle was closed by ilLoadDataF"); else simFinishHandle(hd);
    }
    r.err = drainErrors(); ev("loadraw -> %ld", r.ret); return r;
  }
  if (o == "dxttex") {
    static const ILenum F[] = {IL_DXT1, IL_DXT3, IL_DXT5}; long w = s.i("w", 4), h = s.i("h", 4); ILenum f = F[s.i("a") % 3];
    size_t n = ((w + 3) / 4) * ((h + 3) / 4) * (f == IL_DXT1 ? 8 : 16); u8 *p = (u8 *)malloc(n); for (size_t i = 0; i < n; i++) p[i] = (u8)(i * 29 + s.i("b"));
    curOp(s.text()); arm(s.s("f")); r.ret = ilTexImageDxtc(w, h, 1, f, p); disarm(); free(p); r.err = drainErrors();
    ev("dxttex -> %ld", r.ret); return r;
  }
  if (o == "probe") {
    const Sample *sm = sampleBy(s.s("sample")); Bytes content; if (sm) content = sm->data; if (s.has("cut")) content.resize(std::min<size_t>(content.size(), s.i("cut")));
    if (s.has("mut")) { Rng m(s.i("mut")); int k = 1 + (int)m.below(6); for (int i = 0; i < k && !content.empty(); i++) { size_t at = m.chance(2, 3) ? m.below(std::min<size_t>(content.size(), 64)) : m.below(content.size()); content[at] = m.chance(1, 3) ? (u8)(m.chance(1, 2) ? 0 : 255) : (u8)m.next(); } }
    str src = s.s("src", "file"), name = "pr." + str(sm ? sm->ext : "xyz"); long off = (src == "handle" || src == "cbhandle") ? s.i("off") : 0;
    ILenum t = s.has("t") ? PROBE_TYPES[s.i("t") % (sizeof PROBE_TYPES / sizeof *PROBE_TYPES)] : sm ? sm->type : IL_TGA; bool det = s.i("det");
    Bytes full; Rng q(9); for (long i = 0; i < off; i++) full.push_back(q.next() & 255); full.insert(full.end(), content.begin(), content.end()); W.disk[name] = full;
    installIO(src.compare(0, 2, "cb") == 0); W.bufMode = (int)s.i("buf"); W.chunk = s.i("chunk");
    curOp(s.text()); arm(s.s("f"));
    if (src == "lump") { size_t n = full.size(); u8 *b = (u8 *)malloc(n ? n : 1); memcpy(b, full.data(), n); r.ret = det ? (long)ilDetermineTypeL(b, (ILuint)n) : (long)ilIsValidL(t, b, (ILuint)n); disarm(); if (n && memcmp(b, full.data(), n)) note("C14", "source-modified", "probing changed the memory block"); free(b); }
    else if (src == "file" || src == "cbfile") { r.ret = det ? (long)ilDetermineType(name.c_str()) : (long)ilIsValid(t, name.c_str()); disarm(); }
    else {
      if (off) for (auto &x : W.faults) if (x.k == R_TRUNC) x.n += off;
      Handle *h = simOpenHandle(name, false, true, src == "cbhandle"); if (off) simSeekHandle(h, off);
      r.ret = det ? (long)ilDetermineTypeF(handlePtr(h)) : (long)ilIsValidF(t, handlePtr(h)); bool seekFault = W.fired[R_SEEK] || W.fired[R_SEEKP]; disarm();
      if (!h->open || (!h->cb && !W.byFp.count(h->fp))) note("C08", "caller-handle-closed", "the caller's handle was closed by a probe");
      else { long pos = simHandlePos(h); if (pos != off && !seekFault) note("C14", "position-moved", strf("the source was at %ld before the probe and is at %ld after it (%s)", off, pos, s.text().c_str())); simFinishHandle(h); }
    }
    W.disk.erase(name);
    r.err = drainErrors(); ev("probe -> %lx", r.ret); return r;
  }
  Step t = s; if (s.has("oslot")) t.set("other", (long)c.slot[s.i("oslot") & 7]);
  return doPixelOp(t);
}
// ---------- generators ----------
Step genImage(Rng &r, bool small) {
  Step s("img"); s.set("spec", SPECS[r.below(SPECS.size())].name); s.set("w", small ? r.range(1, 20) : r.range(1, 90)); s.set("h", small ? r.range(1, 20) : r.range(1, 60)); if (r.chance(1, 14)) s.set("d", r.range(1, 3));
  s.set("style", r.range(0, 6)); s.set("seed", r.range(0, 999)); if (!small && r.chance(1, 10)) s.set("w", r.range(90, 400)).set("h", r.range(1, 6)); if (r.chance(1, 2)) s.set("org", 1);
  if (s.s("spec") == "pal") { s.set("pal", r.range(0, 2)); s.set("nc", r.pick(std::vector<long>{256, 256, 255, 16, 17, 4, 2, 1, 130})); }
  return s;
}
static str rf(Rng &r, long n) {
  switch (r.below(8)) {
  case 0: case 1: case 2: return strf("rtrunc:%ld", r.chance(1, 3) ? std::min<long>(std::max(0l, n - 1), r.range(0, 64)) : (long)r.below(n ? n : 1));
  case 3: return strf("rfail:%ld", 1 + (long)r.skewed(60));
  case 4: case 5: return strf("rfailp:%ld", 1 + (long)r.skewed(60));
  case 6: return strf("rseek:%ld", 1 + (long)r.skewed(12));
  default: return strf("rseekp:%ld", 1 + (long)r.skewed(12));
  }
}
static str wf(Rng &r) {
  switch (r.below(9)) {
  case 0: case 1: return strf("wspace:%ld", r.chance(1, 2) ? (long)r.range(0, 200) : (long)r.skewed(4000));
  case 2: return strf("wfail:%ld", 1 + (long)r.skewed(40));
  case 3: case 4: return strf("wfailp:%ld", 1 + (long)r.skewed(40));
  case 5: return strf("wshort:%ld", 1 + (long)r.skewed(40));
  case 6: return strf("wseek:%ld", 1 + (long)r.skewed(4));
  case 7: return strf("wclose:%ld", (long)r.range(1, 300));
  default: return strf("wopen:%d", 1);
  }
}
static str af(Rng &r, bool loadOrSave) { long k = loadOrSave ? 1 + (long)r.skewed(20) : 1 + (long)r.skewed(8); return r.chance(1, 4) ? strf("afrom:%ld", k) : strf("afail:%ld", k); }
bool opMayFault(const str &o) { return o != "img" && o != "pop"; }
str randFaultFor(Rng &r, const Step &s, bool alloc, bool io) {
  if (s.op == "load" || s.op == "probe" || s.op == "loadpal" || s.op == "loadraw" || s.op == "loaddata" || s.op == "applypal" || s.op == "applyprofile" || s.op == "iluload") {
    if (io && (!alloc || r.chance(2, 3))) { const Sample *sm = sampleBy(s.s("sample")); str f = rf(r, sm ? (long)sm->data.size() : 60); if (s.s("src") == "lump") f = strf("rtrunc:%ld", (long)r.below(sm ? sm->data.size() : 50)); if (r.chance(1, 40) && s.s("src") != "lump") f = "ropen:1"; return f; }
    return alloc ? af(r, true) : "";
  }
  if (s.op == "save" || s.op == "savepal" || s.op == "savedata") { if (io && s.s("dst") != "lump" && s.s("dst") != "size" && (!alloc || r.chance(2, 3))) return wf(r); return alloc ? af(r, true) : ""; }
  return alloc ? af(r, false) : "";
}
Step genLoad(Rng &r) {
  const Sample &sm = SAMPLES[r.below(SAMPLES.size())]; Step s("load"); s.set("sample", sm.name); str src = LOAD_SOURCES[r.below(LOAD_SOURCES.size())]; s.set("src", src);
  if (src != "lump") s.set("buf", r.range(0, 2)); if (src == "handle" || src == "cbhandle") s.set("off", r.chance(1, 2) ? 0l : r.range(1, 40));
  if (r.chance(1, 12)) s.set("li", 1); else if (r.chance(1, 12)) s.set("unknown", 1);
  return s;
}
Step genSave(Rng &r) {
  Step s("save"); s.set("ext", SAVE_EXTS[r.below(SAVE_EXTS.size())]); str dst = r.pick(std::vector<str>{"file", "file", "handle", "lump", "size", "cbfile", "cbhandle"}); s.set("dst", dst);
  if (dst == "lump") s.set("n", r.chance(1, 3) ? (long)r.skewed(600) : 1l << 18); else if (dst != "size") s.set("buf", r.range(0, 2));
  if ((dst == "file" || dst == "cbfile") && r.chance(1, 8)) s.set("si", 1);
  if ((dst == "handle" || dst == "cbhandle") && r.chance(1, 3)) s.set("off", r.range(1, 40));
  return s;
}
Step genOp(Rng &r, const GenOpt &o, int &cur) {
  for (;;) {
    int k = (int)r.below(100); Step s;
    if (k < 8) { if (!o.bindings) continue; cur = (int)r.below(o.slots); s = Step("slot").set("k", (long)cur); }
    else if (k < 11) { if (!o.bindings) continue; s = Step("del").set("k", (long)r.below(o.slots)); }
    else if (k < 22) s = genImage(r);
    else if (k < 36) { if (!o.loads) continue; s = genLoad(r); }
    else if (k < 48) { if (!o.saves) continue; s = genSave(r); }
    else if (k < 52) { if (!o.settings) continue; Plan p; randSettings(r, p, true); if (p.steps.empty()) continue; s = p.steps[0]; }
    else if (k < 55) { if (!o.probes) continue; const Sample &sm = SAMPLES[r.below(SAMPLES.size())]; s = Step("probe"); s.set("sample", sm.name).set("src", LOAD_SOURCES[r.below(LOAD_SOURCES.size())]).set("det", (long)r.below(2)).set("off", r.chance(1, 2) ? 0l : r.range(1, 30)); if (r.chance(1, 2)) s.set("t", (long)r.below(45)); s.set("buf", r.range(0, 2)); }
    else if (k < 57) { if (!o.attrib) continue; s = r.chance(1, 2) ? Step("push").set("m", r.chance(1, 2) ? 0xFFFFFl : (long)(r.next() & 0xFFF)) : Step("pop"); }
    else if (k < 60) { if (!o.sub) continue; s = Step("active").set("kind", (long)r.below(4)).set("n", (long)r.below(4)); }
    else if (k < 62) { if (!o.saves) continue; s = Step(r.chance(1, 2) ? "savepal" : "savedata").set("buf", r.range(0, 2)); }
    else if (k < 63) { s = Step("loadpal").set("num", r.range(1, 256)).set("buf", r.range(0, 2)); }
    else if (k < 65) { s = Step(r.chance(1, 2) ? "loadraw" : "dxttex"); randPixelArgs(r, s); if (s.op == "loadraw" && r.chance(1, 4)) s.set("short", r.range(1, 5)); }
    else { if (!o.pixels) continue; s = Step(PIXEL_OPS[r.below(PIXEL_OPS.size())]); randPixelArgs(r, s); s.set("oslot", (long)r.below(o.slots)); }
    if (opMayFault(s.op) && r.chance(o.faultNum, o.faultDen)) { str f = randFaultFor(r, s, o.allocFaults, o.ioFaults); if (!f.empty()) s.set("f", f); }
    return s;
  }
}
str imgKey(const Step &s) { return s.op + (s.has("ext") ? "-" + s.s("ext") : s.has("sample") ? "-" + s.s("sample").substr(s.s("sample").rfind('.') + 1) : ""); }
