// Operations on the library and observation of its state.
#include "lib.h"
#include <array>
#include <dirent.h>
#include <lcms2.h>
#include <algorithm>
#include <sanitizer/asan_interface.h>

std::vector<Sample> SAMPLES;
extern str curProp;

ILenum typeByExt(const str &e) {
  static const std::map<str, ILenum> m = {
    {"bmp", IL_BMP}, {"tga", IL_TGA}, {"pcx", IL_PCX}, {"png", IL_PNG}, {"jpg", IL_JPG}, {"pnm", IL_PNM}, {"ppm", IL_PNM}, {"pgm", IL_PNM}, {"pbm", IL_PNM}, {"sgi", IL_SGI}, {"tif", IL_TIF}, {"psd", IL_PSD},
    {"hdr", IL_HDR}, {"raw", IL_RAW}, {"wbmp", IL_WBMP}, {"dds", IL_DDS}, {"vtf", IL_VTF}, {"h", IL_CHEAD}, {"gif", IL_GIF}, {"ico", IL_ICO}, {"cur", IL_ICO}, {"cut", IL_CUT}, {"dcx", IL_DCX}, {"dcm", IL_DICOM}, {"doom", IL_DOOM}, {"flat", IL_DOOM_FLAT},
    {"dpx", IL_DPX}, {"fits", IL_FITS}, {"ftx", IL_FTX}, {"icns", IL_ICNS}, {"iff", IL_IFF}, {"lbm", IL_ILBM}, {"ilbm", IL_ILBM}, {"iwi", IL_IWI}, {"ktx", IL_KTX}, {"lif", IL_LIF}, {"mdl", IL_MDL}, {"mp3", IL_MP3}, {"pcd", IL_PCD},
    {"pic", IL_PIC}, {"pix", IL_PIX}, {"psp", IL_PSP}, {"pxr", IL_PXR}, {"rot", IL_ROT}, {"sct", IL_SCITEX}, {"sun", IL_SUN}, {"texture", IL_TEXTURE}, {"tpl", IL_TPL}, {"utx", IL_UTX}, {"wal", IL_WAL}, {"xpm", IL_XPM}, {"blp", IL_BLP}, {"mng", IL_MNG}, {"jng", IL_MNG}, {"pal", IL_JASC_PAL}};
  auto i = m.find(e); return i == m.end() ? IL_TYPE_UNKNOWN : i->second;
}
void loadSamples(const str &dir) {
  DIR *d = opendir(dir.c_str()); if (!d) { fprintf(stderr, "no samples in %s\n", dir.c_str()); exit(2); }
  std::vector<str> names; while (dirent *e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
  closedir(d); std::sort(names.begin(), names.end());
  for (auto &n : names) {
    str ext = n.substr(n.rfind('.') + 1); ILenum t = typeByExt(ext); if (t == IL_TYPE_UNKNOWN || ext == "pal") continue;
    Sample s; s.name = n; s.ext = ext; s.type = t; s.typed = true;
    FILE *f = fopen((dir + "/" + n).c_str(), "rb"); u8 b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.data.insert(s.data.end(), b, b + k); fclose(f);
    SAMPLES.push_back(s);
  }
}
const Sample *sampleBy(const str &n) { for (auto &s : SAMPLES) if (s.name == n) return &s; return nullptr; }

// ---------- observation ----------
static int chainLen(ILimage *im, ILimage *ILimage::*m) { int n = 0; for (ILimage *p = im->*m; p && n < 10000; p = p->*m) n++; return n; }
str imgDesc(ILimage *im) {
  if (!im) return "(no image)";
  return strf("%ux%ux%u ch%u bpc%u fmt%x type%x org%x pal%x/%u size%u dxt%x/%u dur%u off%u,%u cube%x n%d m%d f%d l%d", im->Width, im->Height, im->Depth, im->Bpp, im->Bpc, im->Format, im->Type, im->Origin, im->Pal.PalType, im->Pal.PalSize, im->SizeOfData, im->DxtcFormat, im->DxtcSize, im->Duration, im->OffX, im->OffY, im->CubeFlags,
              chainLen(im, &ILimage::Next), chainLen(im, &ILimage::Mipmaps), chainLen(im, &ILimage::Faces), chainLen(im, &ILimage::Layers));
}
static size_t blockSize(const void *p) { auto i = W.blocks.find(p); return i == W.blocks.end() ? 0 : i->second.size; }
static u64 hashMem(const void *p, size_t n, u64 h) { if (!p) return h ^ 0x77; size_t k = blockSize(p); return hashBytes(p, std::min(n, k), h ^ n); }
u64 imgHash(ILimage *im, int what) {
  if (!im) return 0;
  u64 h = 1469598103934665603ull; int guard = 0;
  std::function<void(ILimage *, int)> go = [&](ILimage *p, int depth) {
    if (!p || depth > 60 || guard++ > 2000) return;
    u32 v[] = {p->Width, p->Height, p->Depth, p->Bpp, p->Bpc, p->Bps, p->SizeOfData, p->SizeOfPlane, p->Format, p->Type, p->Origin, p->Pal.PalType, p->Pal.PalSize, p->Duration, p->CubeFlags, p->OffX, p->OffY, p->DxtcFormat, p->DxtcData ? p->DxtcSize : 0, p->ProfileSize, p->AnimSize};
    h = hashBytes(v, sizeof v, h); h = hashMem(p->Data, p->SizeOfData, h);
    if (p->Pal.PalType != IL_PAL_NONE) h = hashMem(p->Pal.Palette, p->Pal.PalSize, h);
    if (p->DxtcData) h = hashMem(p->DxtcData, p->DxtcSize, h);
    if (p->Profile) h = hashMem(p->Profile, p->ProfileSize, h);
    if (what == 1) return;
    h = mix(h, 1); go(p->Mipmaps, depth + 1); h = mix(h, 2); go(p->Faces, depth + 1); h = mix(h, 3); go(p->Layers, depth + 1); h = mix(h, 4);
    go(p->Next, depth + 1);
  };
  go(im, 0);
  return h;
}
static int chOf(ILenum f) {
  switch (f) { case IL_COLOUR_INDEX: case IL_LUMINANCE: case IL_ALPHA: return 1; case IL_LUMINANCE_ALPHA: return 2; case IL_RGB: case IL_BGR: return 3; case IL_RGBA: case IL_BGRA: return 4; }
  return 0;
}
static int bpcOf(ILenum t) {
  switch (t) { case IL_BYTE: case IL_UNSIGNED_BYTE: return 1; case IL_SHORT: case IL_UNSIGNED_SHORT: case IL_HALF: return 2; case IL_INT: case IL_UNSIGNED_INT: case IL_FLOAT: return 4; case IL_DOUBLE: return 8; }
  return 0;
}
static int palBpp(ILenum t) { switch (t) { case IL_PAL_RGB24: case IL_PAL_BGR24: return 3; case IL_PAL_RGB32: case IL_PAL_RGBA32: case IL_PAL_BGR32: case IL_PAL_BGRA32: return 4; } return 0; }
str imgProblem(ILimage *p, int depth) {
  if (!p) return "missing image";
  if (depth > 200) return "sub-image chain without end";
  if (!p->Width || !p->Height || !p->Depth) return strf("zero-dimension");
  // A record made from compressed data alone has no pixels until it is asked to decompress them.
  bool dxtOnly = !p->Data && p->DxtcData && !p->SizeOfData;
  int ch = chOf(p->Format), bpc = bpcOf(p->Type);
  if (dxtOnly) {
    if (!W.blocks.count(p->DxtcData) || blockSize(p->DxtcData) < p->DxtcSize) return "compressed-data-storage";
    for (ILimage *q : {p->Mipmaps, p->Faces, p->Layers, p->Next}) if (q) { if (!W.blocks.count(q)) return "sub-image-not-allocated"; str s = imgProblem(q, depth + 1); if (!s.empty()) return s; }
    return "";
  }
  if (!ch) return strf("unknown-format-%x", p->Format);
  if (!bpc) return strf("unknown-type-%x", p->Type);
  if (p->Bpp != ch) return strf("channels-%u-for-format-%x", p->Bpp, p->Format);
  if (p->Bpc != bpc) return strf("component-size-%u-for-type-%x", p->Bpc, p->Type);
  if ((u64)p->Bps != (u64)p->Width * ch * bpc) return "bytes-per-line";
  if ((u64)p->SizeOfPlane != (u64)p->Bps * p->Height) return "bytes-per-plane";
  if ((u64)p->SizeOfData != (u64)p->SizeOfPlane * p->Depth) return "bytes-per-image";
  if (!p->Data) return "no-pixel-storage";
  if (!W.blocks.count(p->Data)) return "pixel-storage-not-allocated";
  if (blockSize(p->Data) < p->SizeOfData) return "pixel-storage-too-small";
  if (p->Pal.PalType != IL_PAL_NONE) {
    int b = palBpp(p->Pal.PalType); if (!b) return strf("unknown-palette-type-%x", p->Pal.PalType);
    if (p->Pal.PalSize) { if (!p->Pal.Palette) return "palette-missing"; if (!W.blocks.count(p->Pal.Palette)) return "palette-not-allocated"; if (blockSize(p->Pal.Palette) < p->Pal.PalSize) return "palette-too-small"; if (p->Pal.PalSize % b) return "palette-size"; }
  }
  if (p->DxtcData) { if (!W.blocks.count(p->DxtcData)) return "compressed-data-not-allocated"; if (blockSize(p->DxtcData) < p->DxtcSize) return "compressed-data-too-small"; }
  if (p->Profile && !W.blocks.count(p->Profile)) return "profile-not-allocated";
  if (p->Profile && blockSize(p->Profile) < p->ProfileSize) return "profile-too-small";
  for (ILimage *q : {p->Mipmaps, p->Faces, p->Layers, p->Next}) if (q) { if (!W.blocks.count(q)) return "sub-image-not-allocated"; str s = imgProblem(q, depth + 1); if (!s.empty()) return s; }
  return "";
}
std::vector<NameState> liveNames(ILuint upto) {
  std::vector<NameState> v; ILimage *cur = ilGetCurImage(); ILuint name = ilGetCurName();
  auto keep = W.faults; W.faults.clear();
  for (ILuint n = 0; n < upto; n++) if (n == 0 || ilIsImage(n)) { ilBindImage(n); v.push_back({n, ilGetCurImage()}); }
  ilBindImage(name); ilSetCurImage(cur);
  W.faults = keep; return v;
}
str snapshotImages(ILuint upto) {
  str s = strf("bound %u sub %llx;", ilGetCurName(), (unsigned long long)imgHash(ilGetCurImage(), 0));
  for (auto &n : liveNames(upto)) s += strf(" %u:%llx", n.name, (unsigned long long)imgHash(n.img));
  return s;
}
static const ILenum INT_MODES[] = {IL_COMPRESS_MODE, IL_FORMAT_MODE, IL_INTERLACE_MODE, IL_KEEP_DXTC_DATA, IL_ORIGIN_MODE, IL_MAX_QUANT_INDICES, IL_NEU_QUANT_SAMPLE, IL_QUANTIZATION_MODE, IL_TYPE_MODE, IL_BMP_RLE, IL_DXTC_FORMAT, IL_JPG_QUALITY, IL_JPG_SAVE_FORMAT, IL_PCD_PICNUM, IL_PNG_ALPHA_INDEX, IL_PNG_INTERLACE, IL_SGI_RLE, IL_TGA_CREATE_STAMP, IL_TGA_RLE, IL_VTF_COMP, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_FILE_MODE, IL_FORMAT_SET, IL_ORIGIN_SET, IL_TYPE_SET, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS};
static const ILenum STR_MODES[] = {IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING};
str snapshotSettings() {
  str s; for (ILenum m : INT_MODES) s += strf("%x=%d ", m, ilGetInteger(m));
  for (ILenum m : STR_MODES) { const char *t = ilGetString(m); s += strf("%x=%s ", m, t ? t : "(null)"); }
  return s;
}
std::vector<int> drainErrors() { std::vector<int> v; int e; while ((e = ilGetError()) != IL_NO_ERROR && v.size() < 100) v.push_back(e); return v; }
str errText(const std::vector<int> &e) { str s; for (int x : e) s += strf("%x,", x); return s; }
bool hasErr(const std::vector<int> &e, int c) { return std::find(e.begin(), e.end(), c) != e.end(); }

void libStart(int io) { installAlloc(); ilInit(); iluInit(); installIO(io); drainErrors(); }
void libEnd() { ilShutDown(); }
void checkAllImages(ILuint upto, const str &prop, const str &after) {
  for (auto &n : liveNames(upto)) {
    str p = imgProblem(n.img);
    if (!p.empty()) failRun(prop, "inconsistent-image:" + p + ":" + after, strf("image %u is inconsistent after %s: %s (%s)", n.name, after.c_str(), p.c_str(), n.img ? imgDesc(n.img).c_str() : ""));
  }
}
bool simFault() { return W.anyFired() || W.hugeRefused; }

// ---------- images ----------
const std::vector<ImgSpec> SPECS = {
  {"rgb", IL_RGB, IL_UNSIGNED_BYTE}, {"rgba", IL_RGBA, IL_UNSIGNED_BYTE}, {"bgr", IL_BGR, IL_UNSIGNED_BYTE}, {"bgra", IL_BGRA, IL_UNSIGNED_BYTE}, {"lum", IL_LUMINANCE, IL_UNSIGNED_BYTE}, {"la", IL_LUMINANCE_ALPHA, IL_UNSIGNED_BYTE}, {"pal", IL_COLOUR_INDEX, IL_UNSIGNED_BYTE}, {"alpha", IL_ALPHA, IL_UNSIGNED_BYTE},
  {"rgb16", IL_RGB, IL_UNSIGNED_SHORT}, {"rgba16", IL_RGBA, IL_UNSIGNED_SHORT}, {"lum16", IL_LUMINANCE, IL_UNSIGNED_SHORT}, {"la16", IL_LUMINANCE_ALPHA, IL_UNSIGNED_SHORT}, {"rgbf", IL_RGB, IL_FLOAT}, {"rgbaf", IL_RGBA, IL_FLOAT}, {"lumf", IL_LUMINANCE, IL_FLOAT}, {"rgbd", IL_RGB, IL_DOUBLE}, {"rgb32", IL_RGB, IL_UNSIGNED_INT}, {"bgra16", IL_BGRA, IL_UNSIGNED_SHORT}};
const ImgSpec *specBy(const str &n) { for (auto &s : SPECS) if (n == s.name) return &s; return &SPECS[0]; }
void makeImage(long seed, long w, long h, long d, ILenum fmt, ILenum type, int style, int origin) {
  int ch = chOf(fmt), bpc = bpcOf(type); size_t n = (size_t)w * h * d * ch; Bytes b(n * bpc + 8);
  Rng r(seed + 17);
  // styles 5 and 6: stretches of equal pixels and of ever different ones, of any length and of lengths around the limits of run-length codes
  std::vector<std::array<u8, 4>> px5; if (style == 5 || style == 6) {
    static const std::vector<long> LEN = {1, 2, 3, 62, 63, 64, 65, 126, 127, 128, 129, 130, 131, 254, 255, 256, 257, 258};
    while (px5.size() < (size_t)w * h * d) {
      long k = style == 5 ? 1 + (long)r.skewed(150) : r.pick(LEN); bool same = r.chance(1, 2); std::array<u8, 4> c; for (auto &q : c) q = r.chance(1, 3) ? 192 + r.below(64) : r.next() & 255;
      for (long j = 0; j < k; j++) { px5.push_back(c); if (!same) for (auto &q : c) q = (q + 1 + r.below(200)) & 255; }
    }
  }
  for (size_t i = 0; i < n; i++) {
    long px = (long)(i / ch), x = px % w, y = px / w; unsigned v;
    if (style == 4) { static const u8 EXT[] = {0, 255, 0, 255, 1, 254, 127, 128, 248, 7}; v = EXT[r.below(10)]; } else if (style > 4) v = px5[px][i % ch]; else switch (style) { case 0: v = (unsigned)(x * 19 + y * 31 + (i % ch) * 77 + seed) & 255; break; case 1: v = r.next() & 255; break; case 2: v = ((x / 4 + y / 3 + seed) & 1) ? 200 : 30; break; default: v = 100 + (seed & 63); }
    if (type == IL_FLOAT) { float f = v / 255.0f; memcpy(&b[i * 4], &f, 4); } else if (type == IL_DOUBLE) { double f = v / 255.0; memcpy(&b[i * 8], &f, 8); }
    else if (bpc == 1) b[i] = v; else if (bpc == 2) { unsigned short q = v * 257; memcpy(&b[i * 2], &q, 2); } else { u32 q = v * 16843009u; memcpy(&b[i * 4], &q, 4); }
  }
  ilTexImage(w, h, d, ch, fmt, type, b.data());
  if (fmt == IL_COLOUR_INDEX) { u8 p[768]; Rng q(seed + 5); for (auto &c : p) c = q.next() & 255; ilRegisterPal(p, 768, IL_PAL_RGB24); ilSetData(b.data()); ilTexImage(w, h, d, ch, fmt, type, b.data()); }
  (void)origin;
}
void ilSetOriginRaw(ILenum o) { ILimage *im = ilGetCurImage(); if (im) im->Origin = o; }
// makes the current image from w,h,d,spec,style,seed,org,pal
void makeImageFrom(const Step &s) {
  auto keep = W.faults; W.faults.clear();
  const ImgSpec *sp = specBy(s.s("spec", "rgb"));
  long w = std::max(1l, s.i("w", 5)), h = std::max(1l, s.i("h", 4)), d = std::max(1l, s.i("d", 1));
  makeImage(s.i("seed"), w, h, d, sp->fmt, sp->type, (int)s.i("style"), 0);
  ILimage *im = ilGetCurImage();
  if (sp->fmt == IL_COLOUR_INDEX) {
    int bpp = s.i("pal", 0) == 1 ? 4 : 3; ILenum pt = bpp == 4 ? IL_PAL_RGBA32 : s.i("pal", 0) == 2 ? IL_PAL_BGR24 : IL_PAL_RGB24; long nc = s.i("nc", 256);
    if (nc < 1) nc = 1; if (nc > 256) nc = 256;
    ILpal p; std::vector<u8> buf(nc * bpp); Rng q(s.i("seed") + 5); for (auto &c : buf) c = q.next() & 255;
    for (u32 i = 0; i < im->SizeOfData; i++) im->Data[i] = im->Data[i] % nc;
    p.Palette = buf.data(); p.PalSize = (ILuint)buf.size(); p.PalType = pt; ilSetPal(&p);
  }
  im->Origin = s.i("org") ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
  W.faults = keep; drainErrors();
}

// ---------- load and save ----------
const std::vector<str> LOAD_SOURCES = {"file", "handle", "lump", "cbfile", "cbhandle"};
static void ioFor(const str &src) { installIO(src.compare(0, 2, "cb") == 0 ? 1 : 0); }
Res doLoad(const Step &s) {
  Res r; const Sample *sm = sampleBy(s.s("sample")); if (!sm) { r.skipped = true; return r; }
  str src = s.s("src", "file"); ILenum type = s.i("unknown") ? IL_TYPE_UNKNOWN : s.has("astype") ? typeByExt(s.s("astype")) : sm->type; long off = s.i("off");
  str name = "in." + sm->ext; str f = s.s("f");
  W.bufMode = (int)s.i("buf"); W.chunk = s.i("chunk");
  Bytes content;
  if (src == "file" || src == "cbfile") off = 0;
  if (src == "handle" || src == "cbhandle") { Rng q(77); for (long i = 0; i < off; i++) content.push_back(q.next() & 255); }
  content.insert(content.end(), sm->data.begin(), sm->data.end());
  if (s.has("cut")) content.resize(std::min<size_t>(content.size(), off + s.i("cut")));
  W.disk[name] = content;
  ioFor(src);
  curOp("load " + s.text());
  arm(f);
  if (src == "lump") {
    size_t n = content.size(); for (auto &x : W.faults) if (x.k == R_TRUNC && (size_t)x.n < n) { n = x.n; W.fired[R_TRUNC] = true; if (SH) SH->fired[R_TRUNC]++; }
    u8 *buf = (u8 *)malloc(n ? n : 1); memcpy(buf, content.data(), n); Bytes before(buf, buf + n);
    r.ret = ilLoadL(type, buf, (ILuint)n);
    disarm();
    if (n && memcmp(buf, before.data(), n)) note("C05", "source-buffer-modified", "loading changed the caller's source buffer");
    free(buf);
  } else if (src == "file" || src == "cbfile") { r.ret = s.i("li") ? ilLoadImage(name.c_str()) : ilLoad(type, name.c_str()); disarm(); }
  else {
    if (off) for (auto &x : W.faults) if (x.k == R_TRUNC) x.n += off;
    Handle *h = simOpenHandle(name, false, true, src == "cbhandle");
    if (off) simSeekHandle(h, off);
    r.ret = ilLoadF(type, handlePtr(h)); disarm();
    if (!h->open || (!h->cb && !W.byFp.count(h->fp))) note("C08", "caller-handle-closed", "the caller's handle was closed by a load"); else simFinishHandle(h);
  }
  r.err = drainErrors();
  ev("load -> %ld err %s %s", r.ret, errText(r.err).c_str(), imgDesc(ilGetCurImage()).c_str());
  return r;
}
const std::vector<str> SAVE_EXTS = {"bmp", "tga", "pcx", "png", "jpg", "pnm", "sgi", "tif", "psd", "hdr", "raw", "wbmp", "dds", "vtf", "h"};
Res doSave(const Step &s) {
  Res r; str ext = s.s("ext", "bmp"), dst = s.s("dst", "file"); ILenum type = typeByExt(ext); str name = s.s("name", "out." + ext);
  W.bufMode = (int)s.i("buf"); W.chunk = 0;
  ioFor(dst);
  if (!s.i("keepow")) { if (s.i("ow", 1)) ilEnable(IL_FILE_OVERWRITE); else ilDisable(IL_FILE_OVERWRITE); }
  if (!s.i("exists") && !s.i("keepow")) W.disk.erase(name);
  curOp("save " + s.text());
  arm(s.s("f"));
  if (dst == "lump") {
    long n = s.i("n", 1 << 16); u8 *buf = (u8 *)malloc(n ? n : 1); memset(buf, 0xA5, n ? n : 1);
    r.ret = (long)ilSaveL(type, n ? buf : buf, (ILuint)n); disarm();
    r.out.assign((char *)buf, r.ret > 0 && r.ret <= n ? r.ret : 0); free(buf);
  } else if (dst == "size") { r.ret = (long)ilSaveL(type, nullptr, 0); disarm(); }
  else if (dst == "file" || dst == "cbfile") {
    r.ret = s.i("si") ? ilSaveImage(name.c_str()) : ilSave(type, name.c_str()); disarm();
    if (W.disk.count(name)) r.out.assign(W.disk[name].begin(), W.disk[name].end());
  } else {
    long off = s.i("off");
    Handle *h = simOpenHandle(name, true, true, dst == "cbhandle");
    if (off) { W.disk[name].assign(off, 0x5A); h->pos = off; if (!h->cb) fseek(h->fp, off, SEEK_SET); for (auto &x : W.faults) if (x.k == W_SPACE) x.n += 0; W.nSeekW = 0; }
    r.ret = (long)ilSaveF(type, handlePtr(h));
    bool closeOk = true;
    if (!h->open || (!h->cb && !W.byFp.count(h->fp))) note("C08", "caller-handle-closed", "the caller's handle was closed by a save");
    else if (h->cb) simFinishHandle(h);
    else { W.byFp.erase(h->fp); closeOk = fclose(h->fp) == 0; h->fp = nullptr; }
    disarm();
    if (!closeOk) { r.out = ""; r.skipped = true; } // the caller saw the failure when closing its handle
    else { Bytes &b = W.disk[name]; if ((long)b.size() >= off) r.out.assign(b.begin() + off, b.end()); }
  }
  r.err = drainErrors();
  ev("save -> %ld err %s out %zu #%llx", r.ret, errText(r.err).c_str(), r.out.size(), (unsigned long long)hashStr(r.out));
  return r;
}

// ---------- pixel operations ----------
const std::vector<str> PIXEL_OPS = {"convert", "scale", "flip", "mirror", "rotate", "rotate3d", "bluravg", "blurgauss", "contrast", "edgee", "edgep", "edges", "emboss", "equalize", "gamma", "negative", "pixelize", "saturate1", "saturate4", "sharpen", "wave", "alienify", "crop", "canvas", "enlarge", "invertalpha", "replacecolour", "scalealpha", "scalecolours", "swapcolours", "convolution", "mipmaps", "coloursused", "clearimage", "modalpha", "setalpha", "getalpha", "copypixels", "setpixels", "copyimage", "clone", "defaultimage", "convertpal", "clampntsc", "noisify", "teximage", "texsurface", "setdata", "regpal", "subimage", "dxtsurface", "dxtget", "dxtimage", "dxtcompress", "overlay", "blit", "compare", "info", "duration", "regmip", "regnum", "regfaces", "applypal", "dxtflip", "dxtinvert", "loaddata", "equalize2", "sepia", "iluload", "region", "applyprofile", "regorigin", "getdata", "getters"};
static const ILenum FMTS[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_COLOUR_INDEX, IL_ALPHA};
static const ILenum TYPES[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_FLOAT, IL_UNSIGNED_INT, IL_DOUBLE, IL_BYTE, IL_SHORT, IL_INT};
static const ILenum FILTERS[] = {ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL};
static const ILenum PALS[] = {IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32};
static const ILenum DXTS[] = {IL_DXT1, IL_DXT3, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N, IL_DXT1A, IL_DXT2, IL_DXT4};
void randPixelArgs(Rng &r, Step &s) {
  s.set("a", (long)r.below(8)); s.set("b", (long)r.below(8)); s.set("w", r.range(1, 24)); s.set("h", r.range(1, 24)); s.set("x", r.range(0, 6)); s.set("y", r.range(0, 6)); s.set("iter", r.range(1, 3)); s.set("q", r.range(1, 30));
  if (s.op == "convert" && r.chance(1, 3)) s.set("a", 6l).set("b", 0l);  // quantising
  if ((s.op == "pixelize" || s.op == "noisify" || s.op == "negative" || s.op == "region" || s.op == "convolution" || s.op == "sharpen" || s.op == "emboss" || s.op.compare(0, 4, "blur") == 0 || s.op.compare(0, 4, "edge") == 0) && r.chance(1, 2)) s.set("rg", r.range(1, 400));
}
// A region for the operations of ILU: a polygon of 3 to 7 corners, as fractions or as pixels; partly outside of the image at times.
static void setRegion(long rg) {
  Rng r(rg * 77 + 1); ILimage *im = ilGetCurImage(); int n = (int)r.range(3, 7); long w = im ? im->Width : 4, h = im ? im->Height : 4; bool out = r.chance(1, 6);
  if (r.chance(1, 2)) { ILpointf *p = (ILpointf *)malloc(sizeof(ILpointf) * n); for (int i = 0; i < n; i++) { p[i].x = r.below(out ? 130 : 100) / 100.0f; p[i].y = r.below(out ? 130 : 100) / 100.0f; } iluRegionfv(p, n); free(p); }
  else { ILpointi *p = (ILpointi *)malloc(sizeof(ILpointi) * n); for (int i = 0; i < n; i++) { p[i].x = (ILint)r.below(w + (out ? 3 : 0)) - (out && r.chance(1, 9) ? 5 : 0); p[i].y = (ILint)r.below(h + (out ? 3 : 0)); } iluRegioniv(p, n); free(p); }
}
// colour profiles the simulated disk holds
static const Bytes &iccProfile(int k) {
  static Bytes b[3]; if (b[k].empty()) {
    cmsHPROFILE h; cmsToneCurve *g = cmsBuildGamma(nullptr, k == 1 ? 1.4 : 2.2);
    if (k == 2) h = cmsCreateGrayProfile(cmsD50_xyY(), g); else if (k == 0) h = cmsCreate_sRGBProfile(); else { cmsCIExyYTRIPLE t = {{0.6, 0.35, 1}, {0.25, 0.65, 1}, {0.16, 0.08, 1}}; cmsToneCurve *c[3] = {g, g, g}; h = cmsCreateRGBProfile(cmsD50_xyY(), &t, c); }
    cmsUInt32Number n = 0; cmsSaveProfileToMem(h, nullptr, &n); b[k].resize(n); cmsSaveProfileToMem(h, b[k].data(), &n); memset(&b[k][24], 0, 12); memset(&b[k][84], 0, 16); b[k][25] = 1; b[k][27] = 1; b[k][29] = 1; b[k][24] = 7;
    cmsCloseProfile(h); cmsFreeToneCurve(g);
  }
  return b[k];
}
Res doPixelOp(const Step &s) {
  Res r; str o = s.op; long a = s.i("a"), b = s.i("b"), w = s.i("w", 4), h = s.i("h", 4), x = s.i("x"), y = s.i("y"), it = s.i("iter", 1), q = s.i("q", 3);
  float fq = q / 10.0f; ILuint other = (ILuint)s.i("other", 0);
  ILuint made = 0; bool mkdel = false; Bytes tmp;
  W.disk["pal.pal"] = Bytes(); { str t = "JASC-PAL\r\n0100\r\n4\r\n0 0 0\r\n255 0 0\r\n0 255 0\r\n10 20 255\r\n"; W.disk["pal.pal"].assign(t.begin(), t.end()); Bytes d(4096); for (size_t i = 0; i < d.size(); i++) d[i] = (u8)(i * 5); W.disk["data.bin"] = d; }
  W.bufMode = 0; W.chunk = 0;
  ILimage *cur0 = ilGetCurImage();
  if (o == "setpixels" || o == "copypixels" || o == "teximage" || o == "texsurface" || o == "setdata" || o == "dxtcompress") { tmp.resize(24 * 24 * 4 * 8 + 64 * 64 * 32); for (size_t i = 0; i < tmp.size(); i++) tmp[i] = (u8)(i * 13 + a); }
  if (o == "applyprofile") { for (int k = 0; k < 3; k++) W.disk[strf("p%d.icc", k)] = iccProfile(k); if (s.has("cut")) W.disk["p0.icc"].resize(std::min<size_t>(W.disk["p0.icc"].size(), s.i("cut"))); }
  const Sample *ils = nullptr; if (o == "iluload") { ils = &SAMPLES[(x * 31 + y * 7 + a * 8 + b) % SAMPLES.size()]; W.disk["il." + ils->ext] = ils->data; W.bufMode = (int)(q % 3); }
  curOp(s.text());
  if (s.has("rg") && o != "region") { auto keep = W.faults; W.faults.clear(); setRegion(s.i("rg")); W.faults = keep; }
  ILuint name0 = ilGetCurName();
  arm(s.s("f"));
  if (o == "convert") r.ret = ilConvertImage(FMTS[a % 8], TYPES[b % 8]);
  else if (o == "scale") { iluImageParameter(ILU_FILTER, FILTERS[a + b > 8 ? (a + b) % 9 : a]); r.ret = iluScale(w, h, s.i("d", 1)); }
  else if (o == "flip") r.ret = iluFlipImage();
  else if (o == "mirror") r.ret = iluMirror();
  else if (o == "rotate") r.ret = iluRotate((float)(q * 12));
  else if (o == "rotate3d") r.ret = iluRotate3D(0, 0, 1, (float)(q * 12));
  else if (o == "bluravg") r.ret = iluBlurAvg(it);
  else if (o == "blurgauss") r.ret = iluBlurGaussian(it);
  else if (o == "contrast") r.ret = iluContrast(fq);
  else if (o == "edgee") r.ret = iluEdgeDetectE();
  else if (o == "edgep") r.ret = iluEdgeDetectP();
  else if (o == "edges") r.ret = iluEdgeDetectS();
  else if (o == "emboss") r.ret = iluEmboss();
  else if (o == "equalize") r.ret = iluEqualize();
  else if (o == "gamma") r.ret = iluGammaCorrect(fq);
  else if (o == "negative") r.ret = iluNegative();
  else if (o == "pixelize") r.ret = iluPixelize(it + 1);
  else if (o == "saturate1") r.ret = iluSaturate1f(fq);
  else if (o == "saturate4") r.ret = iluSaturate4f(0.3f, 0.5f, 0.2f, fq);
  else if (o == "sharpen") r.ret = iluSharpen(fq, it);
  else if (o == "wave") r.ret = iluWave(fq);
  else if (o == "alienify") r.ret = iluAlienify();
  else if (o == "crop") { int iw = cur0 ? cur0->Width : 1, ih = cur0 ? cur0->Height : 1; int cx = x % iw, cy = y % ih; r.ret = iluCrop(cx, cy, 0, 1 + (w - 1) % (iw - cx), 1 + (h - 1) % (ih - cy), 1); }
  else if (o == "canvas") { iluImageParameter(ILU_PLACEMENT, a & 1 ? ILU_CENTER : a & 2 ? ILU_UPPER_RIGHT : ILU_LOWER_LEFT); r.ret = iluEnlargeCanvas((cur0 ? cur0->Width : 1) + x, (cur0 ? cur0->Height : 1) + y, cur0 ? cur0->Depth : 1); }
  else if (o == "enlarge") r.ret = iluEnlargeImage(1 + a / 4.0f, 1 + b / 4.0f, 1);
  else if (o == "invertalpha") r.ret = iluInvertAlpha();
  else if (o == "replacecolour") r.ret = iluReplaceColour(200, 30, 60, fq);
  else if (o == "scalealpha") r.ret = iluScaleAlpha(fq);
  else if (o == "scalecolours") r.ret = iluScaleColours(fq, 1, 0.5f);
  else if (o == "swapcolours") r.ret = iluSwapColours();
  else if (o == "convolution") { ILint m[9] = {1, 2, 1, 0, 4, 0, 1, -1, 1}; r.ret = iluConvolution(m, 9, (int)a); }
  else if (o == "mipmaps") r.ret = iluBuildMipmaps();
  else if (o == "coloursused") r.ret = iluColoursUsed();
  else if (o == "clearimage") { ilClearColour(0.5f, 0.25f, 1, 0.75f); r.ret = ilClearImage(); }
  else if (o == "modalpha") { ilModAlpha(fq); r.ret = 1; }
  else if (o == "setalpha") r.ret = ilSetAlpha(q / 31.0);
  else if (o == "getalpha") { ILubyte *p = ilGetAlpha(TYPES[a % 5]); r.ret = p != nullptr; if (p) { r.out = strf("%llx", (unsigned long long)hashMem(p, blockSize(p), 5)); auto keep = W.faults; W.faults.clear(); ifree(p); W.faults = keep; } }
  else if (o == "copypixels") { int iw = cur0 ? cur0->Width : 1, ih = cur0 ? cur0->Height : 1; int cx = x % iw, cy = y % ih; bool beyond = q % 4 == 0; int cw = beyond ? w : 1 + (w - 1) % (iw - cx), ch = beyond ? h : 1 + (h - 1) % (ih - cy), cd = q % 8 == 4 ? 2 : 1; std::vector<u8> buf(24 * 24 * 2 * 4 * 8 + 16, 0xEE); r.ret = ilCopyPixels(cx, cy, 0, cw, ch, cd, FMTS[a % 6], TYPES[b % 5], buf.data()); r.out = r.ret > 0 ? strf("%llx", (unsigned long long)hashBytes(buf.data(), std::min<size_t>(r.ret, buf.size()))) : ""; }
  else if (o == "setpixels") { ilSetPixels(x - 2, y - 2, 0, w, h, 1, FMTS[a % 6], TYPES[b % 5], tmp.data()); r.ret = 1; }
  else if (o == "copyimage") r.ret = ilCopyImage(other);
  else if (o == "clone") { made = ilCloneCurImage(); r.ret = made != 0; mkdel = true; }
  else if (o == "defaultimage") r.ret = ilDefaultImage();
  else if (o == "convertpal") r.ret = ilConvertPal(PALS[a % 6]);
  else if (o == "clampntsc") r.ret = ilClampNTSC();
  else if (o == "noisify") r.ret = iluNoisify(fq > 1 ? 1 : fq);
  else if (o == "teximage") r.ret = ilTexImage(w, h, 1, chOf(FMTS[a % 6]), FMTS[a % 6], TYPES[b % 5], tmp.data());
  else if (o == "texsurface") r.ret = ilTexImageSurface(w, h, 1, chOf(FMTS[a % 6]), FMTS[a % 6], TYPES[b % 5], tmp.data());
  else if (o == "setdata") r.ret = ilSetData(tmp.data());
  else if (o == "regpal") { u8 p[1024]; for (int i = 0; i < 1024; i++) p[i] = (u8)(i * 3 + a); ilRegisterPal(p, 256 * palBpp(PALS[a % 6]), PALS[a % 6]); r.ret = 1; }
  else if (o == "subimage") { ILenum k = a % 3 == 0 ? IL_SUB_NEXT : a % 3 == 1 ? IL_SUB_MIPMAP : IL_SUB_LAYER; r.ret = ilCreateSubImage(k, it); }
  else if (o == "dxtsurface") { ilSetInteger(IL_KEEP_DXTC_DATA, 1); r.ret = ilSurfaceToDxtcData(DXTS[a % 3]); ilSetInteger(IL_KEEP_DXTC_DATA, 0); }
  else if (o == "dxtget") { u8 *buf = (u8 *)malloc(1 << 16); r.ret = ilGetDXTCData(buf, 1 << 16, DXTS[a % 7]); if (r.ret > 0) r.out = strf("%llx", (unsigned long long)hashBytes(buf, r.ret)); free(buf); }
  else if (o == "dxtimage") { bool ok = ilImageToDxtcData(DXTS[a % 3]); bool ok2 = b & 1 ? ilDxtcDataToSurface() : ilDxtcDataToImage(); r.ret = ok && ok2; }
  else if (o == "dxtcompress") { ILuint sz = 0; u8 *in = (u8 *)malloc(16 * 12 * 4); memcpy(in, tmp.data(), 16 * 12 * 4); ILubyte *p = ilCompressDXT(in, 16, 12, 1, DXTS[a % 3], &sz); r.ret = p != nullptr; if (p) { r.out = strf("%llx", (unsigned long long)hashMem(p, sz, 3)); auto keep = W.faults; W.faults.clear(); ifree(p); W.faults = keep; } free(in); }
  else if (o == "overlay") r.ret = ilOverlayImage(other, x - 2, y - 2, 0);
  else if (o == "blit") r.ret = ilBlit(other, x - 2, y - 2, 0, a % 3, b % 3, 0, w, h, 1);
  else if (o == "compare") r.ret = iluCompareImage(other);
  else if (o == "info") { ILinfo inf; memset(&inf, 0, sizeof inf); iluGetImageInfo(&inf); r.ret = 1; r.out = strf("%u %u %u %u %u %x %x %x %x %u %u %u", inf.Width, inf.Height, inf.Depth, inf.Bpp, inf.SizeOfData, inf.Format, inf.Type, inf.Origin, inf.PalType, inf.PalSize, inf.NumNext, inf.NumMips); }
  else if (o == "duration") r.ret = ilSetDuration(q);
  else if (o == "regmip") r.ret = ilRegisterMipNum(it);
  else if (o == "regnum") r.ret = ilRegisterNumImages(it);
  else if (o == "regfaces") r.ret = ilRegisterNumFaces(it);
  else if (o == "applypal") r.ret = ilApplyPal("pal.pal");
  else if (o == "dxtflip") { ilImageToDxtcData(DXTS[a % 3]); ilFlipSurfaceDxtcData(); r.ret = 1; }
  else if (o == "dxtinvert") { bool ok = ilImageToDxtcData(DXTS[a % 3]); r.ret = ok && ilInvertSurfaceDxtcDataAlpha(); }
  else if (o == "loaddata") r.ret = ilLoadData("data.bin", w, h, 1, 1 + a % 4);
  else if (o == "equalize2") r.ret = iluEqualize2();
  else if (o == "sepia") r.ret = iluSepia();
  else if (o == "region") { setRegion(s.i("rg", 3)); r.ret = 1; }
  else if (o == "regorigin") { ilRegisterOrigin(a & 1 ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); r.ret = 1; }
  else if (o == "iluload") { installIO(0); made = iluLoadImage(("il." + ils->ext).c_str()); r.ret = made != 0; mkdel = true; }
  else if (o == "applyprofile") { installIO(0); str in = strf("p%ld.icc", a % 3), to = strf("p%ld.icc", b % 3); r.ret = ilApplyProfile(a < 6 ? (ILstring)in.c_str() : nullptr, (ILstring)to.c_str()); }
  else if (o == "getdata") { ILubyte *d = ilGetData(); ILubyte *p = ilGetPalette(); r.ret = 1; r.out = strf("%d %d", d != nullptr, p != nullptr); }
  else if (o == "getters") { r.ret = 1; r.out = strf("%x %x %s %s", ilTypeFromExt("a/b.tga"), ilTypeFromExt("noext"), ilGetString(IL_VERSION_NUM), iluGetString(ILU_VERSION_NUM)); for (ILenum m : {IL_ORIGIN_SET, IL_FORMAT_SET, IL_CONV_PAL, IL_FILE_MODE}) r.out += strf(" %d", ilGetBoolean(m)); for (ILenum e : {IL_OUT_OF_MEMORY, IL_INVALID_ENUM, IL_FILE_READ_ERROR, IL_NO_ERROR, (int)IL_LIB_PNG_ERROR}) { const char *t = iluErrorString(e); r.out += t ? t : "-"; } }
  else r.skipped = true;
  disarm();
  if (s.has("rg") || o == "region") { auto keep = W.faults; W.faults.clear(); iluRegionfv(nullptr, 0); W.faults = keep; }
  r.err = drainErrors();
  if (o == "iluload") {
    if (!made && (ilGetCurName() != name0 || ilGetCurImage() != cur0)) failRun(curProp, "binding-changed:iluload", strf("iluLoadImage fails and leaves image %u bound instead of %u", ilGetCurName(), name0));
    if (made) { if (made != ilGetCurName()) failRun(curProp, "not-loaded:iluload", "iluLoadImage gives a name that is not the image that it loaded"); r.out = strf("%llx", (unsigned long long)imgHash(ilGetCurImage())); ilBindImage(name0); ilSetCurImage(cur0); ilDeleteImage(made); drainErrors(); mkdel = false; }
  }
  if (o == "applyprofile" && W.cmsLive) { note("C07", "profile-left-open", strf("%ld colour profiles or transforms are left open", W.cmsLive)); W.cmsLive = 0; }
  if (mkdel && made) { ILuint c = ilGetCurName(); ilBindImage(made); r.out = strf("%llx", (unsigned long long)imgHash(ilGetCurImage())); ilBindImage(c); ilDeleteImage(made); }
  ev("%s -> %ld err %s %s %s", o.c_str(), r.ret, errText(r.err).c_str(), imgDesc(ilGetCurImage()).c_str(), r.out.c_str());
  return r;
}

// ---------- settings that influence loads, saves and conversions ----------
Res doSetting(const Step &s) {
  Res r; str k = s.s("k"); long v = s.i("v");
  curOp(s.text());
  if (k == "origin") { if (v < 0) ilDisable(IL_ORIGIN_SET); else { ilEnable(IL_ORIGIN_SET); ilOriginFunc(v ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); } }
  else if (k == "format") { if (v < 0) ilDisable(IL_FORMAT_SET); else { ilEnable(IL_FORMAT_SET); ilFormatFunc(FMTS[v % 6]); } }
  else if (k == "type") { if (v < 0) ilDisable(IL_TYPE_SET); else { ilEnable(IL_TYPE_SET); ilTypeFunc(TYPES[v % 3]); } }
  else if (k == "convpal") { if (v) ilEnable(IL_CONV_PAL); else ilDisable(IL_CONV_PAL); }
  else if (k == "keycolour") { if (v) { ilEnable(IL_USE_KEY_COLOUR); ilKeyColour(0.5f, 0.5f, 0.5f, 1); } else ilDisable(IL_USE_KEY_COLOUR); }
  else if (k == "blend") { if (v) ilEnable(IL_BLIT_BLEND); else ilDisable(IL_BLIT_BLEND); }
  else if (k == "quant") ilSetInteger(IL_QUANTIZATION_MODE, v ? IL_NEU_QUANT : IL_WU_QUANT);
  else if (k == "maxind") ilSetInteger(IL_MAX_QUANT_INDICES, v);
  else if (k == "tgarle") ilSetInteger(IL_TGA_RLE, v);
  else if (k == "bmprle") ilSetInteger(IL_BMP_RLE, v);
  else if (k == "sgirle") ilSetInteger(IL_SGI_RLE, v);
  else if (k == "pnginter") ilSetInteger(IL_PNG_INTERLACE, v);
  else if (k == "saveinter") { if (v) ilEnable(IL_SAVE_INTERLACED); else ilDisable(IL_SAVE_INTERLACED); }
  else if (k == "jpgq") ilSetInteger(IL_JPG_QUALITY, v);
  else if (k == "jpgprog") { if (v) ilEnable(IL_JPG_PROGRESSIVE); else ilDisable(IL_JPG_PROGRESSIVE); }
  else if (k == "dxt") ilSetInteger(IL_DXTC_FORMAT, DXTS[v % 6]);
  else if (k == "keepdxt") ilSetInteger(IL_KEEP_DXTC_DATA, v);
  else if (k == "squish") { if (v) ilEnable(IL_SQUISH_COMPRESS); else ilDisable(IL_SQUISH_COMPRESS); }
  else if (k == "vtf") { static const int c[] = {IL_DXT_NO_COMP, IL_DXT1, IL_DXT3, IL_DXT5}; ilSetInteger(IL_VTF_COMP, c[v & 3]); }
  else if (k == "compress") ilCompressFunc(v == 0 ? IL_COMPRESS_NONE : v == 1 ? IL_COMPRESS_RLE : IL_COMPRESS_ZLIB);
  else if (k == "hint") ilHint(IL_COMPRESSION_HINT, v ? IL_USE_COMPRESSION : IL_NO_COMPRESSION);
  else if (k == "memhint") ilHint(IL_MEM_SPEED_HINT, v ? IL_LESS_MEM : IL_FASTEST);
  else if (k == "defaultfail") { if (v) ilEnable(IL_DEFAULT_ON_FAIL); else ilDisable(IL_DEFAULT_ON_FAIL); }
  else if (k == "alphaidx") ilSetInteger(IL_PNG_ALPHA_INDEX, v);
  else if (k == "stamp") ilSetInteger(IL_TGA_CREATE_STAMP, v);
  else if (k == "str") { str t; for (long i = 0; i < s.i("n", 8); i++) t += (char)('a' + (i * 7 + v) % 26); ilSetString(STR_MODES[v % 11], t.c_str()); }
  r.ret = 1; r.err = drainErrors(); return r;
}
void randSettings(Rng &r, Plan &p, bool any) {
  struct K { const char *k; long lo, hi; };
  static const K ks[] = {{"tgarle", 0, 1}, {"bmprle", 0, 1}, {"sgirle", 0, 1}, {"pnginter", 0, 1}, {"jpgq", 10, 99}, {"jpgprog", 0, 1}, {"dxt", 0, 5}, {"squish", 0, 1}, {"vtf", 0, 3}, {"compress", 0, 2}, {"hint", 0, 1}, {"str", 0, 10}, {"saveinter", 0, 1}, {"alphaidx", -1, 40},
                         {"origin", -1, 1}, {"format", -1, 5}, {"type", -1, 2}, {"convpal", 0, 1}, {"keycolour", 0, 1}, {"blend", 0, 1}, {"quant", 0, 1}, {"maxind", 2, 256}, {"keepdxt", 0, 1}, {"memhint", 0, 1}, {"defaultfail", 0, 1}, {"stamp", 0, 1}};
  int n = (int)r.below(4); int lim = any ? 26 : 14;
  for (int i = 0; i < n; i++) { const K &k = ks[r.below(lim)]; Step s("set"); s.set("k", k.k); s.set("v", r.range(k.lo, k.hi)); if (!strcmp(k.k, "str")) s.set("n", r.pick(std::vector<long>{0, 1, 8, 40, 41, 80, 90, 254, 255, 300})); p.steps.push_back(s); }
}
// Settings that the last step of a plan looks at, put right before it.
void focusSettings(Rng &r, Plan &p) {
  if (p.steps.empty() || !r.chance(1, 2)) return; const Step &t = p.steps.back(); str o = t.op; if (o == "save") o = "save-" + t.s("ext"); if (o == "content" || o == "replace") o = t.s("op");
  struct K { const char *op, *k; long lo, hi; };
  static const K ks[] = {{"load", "origin", 0, 1}, {"load", "format", 0, 5}, {"load", "type", 0, 2}, {"load", "convpal", 1, 1}, {"load", "keycolour", 1, 1}, {"load", "defaultfail", 1, 1}, {"load", "keepdxt", 1, 1}, {"iluload", "origin", 0, 1}, {"iluload", "format", 0, 5}, {"loaddata", "origin", 0, 1},
    {"copypixels", "origin", 0, 1}, {"setpixels", "origin", 0, 1}, {"blit", "origin", 0, 1}, {"blit", "blend", 0, 1}, {"overlay", "origin", 0, 1}, {"overlay", "blend", 0, 1}, {"convert", "quant", 0, 1}, {"convert", "maxind", 2, 256},
    {"dxtsurface", "squish", 0, 1}, {"dxtget", "squish", 0, 1}, {"dxtcompress", "squish", 0, 1}, {"dxtimage", "squish", 0, 1}, {"dxtimage", "keepdxt", 0, 1},
    {"save-tga", "tgarle", 1, 1}, {"save-tga", "str", 0, 10}, {"save-tga", "stamp", 1, 1}, {"save-sgi", "sgirle", 1, 1}, {"save-png", "pnginter", 1, 1}, {"save-png", "str", 0, 10}, {"save-png", "alphaidx", 0, 40}, {"save-png", "saveinter", 1, 1}, {"save-jpg", "jpgq", 10, 99}, {"save-jpg", "jpgprog", 1, 1},
    {"save-dds", "dxt", 0, 5}, {"save-dds", "squish", 1, 1}, {"save-vtf", "vtf", 0, 3}, {"save-vtf", "squish", 1, 1}, {"save-tif", "compress", 0, 2}, {"save-tif", "str", 0, 10}, {"save-h", "str", 0, 10}};
  std::vector<const K *> v; for (auto &k : ks) if (o == k.op) v.push_back(&k); if (v.empty()) return;
  int n = (int)r.range(1, 2); for (int i = 0; i < n; i++) { const K &k = *v[r.below(v.size())]; Step s("set"); s.set("k", k.k).set("v", r.range(k.lo, k.hi)); if (!strcmp(k.k, "str")) s.set("n", r.pick(std::vector<long>{1, 8, 40, 80, 254, 255, 300})); p.steps.insert(p.steps.end() - 1, s); }
}
str battery() {
  str out; ILuint c = ilGetCurName();
  curOp("battery");
  out += strf("%d %d %d;", ilGetInteger(IL_IMAGE_WIDTH), ilGetInteger(IL_IMAGE_HEIGHT), ilGetInteger(IL_IMAGE_FORMAT));
  ilGetInteger(IL_NUM_IMAGES); ilGetInteger(IL_NUM_MIPMAPS); ilGetInteger(IL_PALETTE_NUM_COLS);
  curOp("battery size query"); out += strf("s%u ", ilSaveL(IL_TGA, nullptr, 0));
  curOp("battery clone"); ILuint k = ilCloneCurImage(); out += k ? "c1 " : "c0 ";
  if (k) { ilBindImage(k); }
  curOp("battery flip"); out += strf("f%d ", iluFlipImage());
  curOp("battery convert"); out += strf("v%d ", ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE));
  curOp("battery save"); ilEnable(IL_FILE_OVERWRITE); installIO(0); W.bufMode = 0; out += strf("w%d ", ilSave(IL_TGA, "battery.tga"));
  curOp("battery delete"); if (k) ilDeleteImage(k);
  ilBindImage(c); drainErrors();
  return out;
}
