// Scenarios decided against small reference models: C12 (names and chains), C13 (settings), C18 (handlers)
#include "ops.h"
#include <algorithm>
#include <memory>

static Plan startPlan(Rng &r) { Plan p; Step cfg("cfg"); cfg.set("fill", (long)r.pick(std::vector<int>{0xCD, 0, 0xFF, 0x01, 0x80})); p.steps.push_back(cfg); return p; }
static void cfgPlan(const Plan &p) { for (auto &s : p.steps) if (s.op == "cfg") applyCfgStep(s); }

// ============================================================ C12
// The model of an image: a stamp (kept in the image's duration attribute) and four links.
struct Node { long stamp = 0; std::unique_ptr<Node> next, mip, face, layer; };
typedef std::unique_ptr<Node> NodeP;
static NodeP Node::*link(int k) { static NodeP Node::*const m[] = {&Node::next, &Node::mip, &Node::layer, &Node::face}; return m[k & 3]; }
static const char *linkName[] = {"image", "mipmap", "layer", "face"};
struct Names {
  std::map<ILuint, NodeP> live; std::set<ILuint> freed; ILuint top = 2; ILuint bound = 1; Node *cur = nullptr;
  Node *at(ILuint n) { auto i = live.find(n); return i == live.end() ? nullptr : i->second.get(); }
};
static str sync(ILimage *im, Node *n, long &stamp, int depth = 0) { // takes the structure over from the library
  n->stamp = im->Duration = ++stamp; if (depth > 40) return "";
  struct { ILimage *p; NodeP *q; } v[] = {{im->Next, &n->next}, {im->Mipmaps, &n->mip}, {im->Layers, &n->layer}, {im->Faces, &n->face}};
  for (auto &x : v) { x.q->reset(); if (x.p) { x.q->reset(new Node); sync(x.p, x.q->get(), stamp, depth + 1); } }
  return "";
}
static str cmpTree(ILimage *im, Node *n, const str &path) {
  for (int guard = 0; guard < 500; guard++) {
    if (!im && !n) return "";
    if (!im) return path + " is missing";
    if (!n) return path + " exists although nothing created it";
    if ((long)im->Duration != n->stamp) return strf("%s carries stamp %u instead of %ld", path.c_str(), im->Duration, n->stamp);
    str s; if (!(s = cmpTree(im->Mipmaps, n->mip.get(), path + ".mipmap")).empty() || !(s = cmpTree(im->Layers, n->layer.get(), path + ".layer")).empty() || !(s = cmpTree(im->Faces, n->face.get(), path + ".face")).empty()) return s;
    im = im->Next; n = n->next.get();
  }
  return path + ": chain without end";
}
static Plan genC12(Rng &r, u64 idx, bool th) {
  Plan p = startPlan(r); int n = (int)r.range(4, th ? 60 : 28); int fn = (int)r.below(3), spread = r.pick(std::vector<int>{3, 4, 6, 9});
  std::vector<int> w = {10, 14, 9, 3, 8, 14, 10, 4, 4, 4, 6, 6, 3, 2, 3, 1, 4}; for (auto &x : w) if (r.chance(1, 5)) x = 0; w[0]++; w[1]++; (void)idx;
  int tot = 0; for (int x : w) tot += x;
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(tot), j = 0; while (k >= w[j]) k -= w[j++];
    Step s; bool may = false;
    switch (j) {
    case 0: s = Step("gen").set("n", r.chance(1, 4) ? r.range(0, 5) : 1l); if (r.chance(1, 4)) s.set("ilu", 1); may = true; break;
    case 1: s = Step("bind").set("n", r.chance(1, 30) ? r.pick(std::vector<long>{1023, 1024, 1025, 2047, 2048, 3000}) : (long)r.below(spread)); may = r.chance(1, 2); break;
    case 2: s = Step("delete").set("n", r.chance(1, 20) ? r.pick(std::vector<long>{1023, 1024, 5000, 0x7fffffff}) : (long)r.below(spread)); if (r.chance(1, 4)) s.set("ilu", 1); may = true; break;
    case 3: s = Step("deletes").set("a", (long)r.below(spread)).set("b", (long)r.below(spread)).set("c", (long)r.below(spread)); break;
    case 4: s = Step("sub").set("k", (long)r.below(3)).set("n", r.range(0, 4)); may = true; break;
    case 5: s = Step("active").set("k", (long)r.below(4)).set("n", r.chance(1, 6) ? (long)r.skewed(4000000000u) : (long)r.below(5)); break;
    case 6: s = Step("stamp"); break;
    case 7: s = Step("regnum").set("k", 0).set("n", r.range(0, 4)); may = true; break;
    case 8: s = Step("regnum").set("k", 1).set("n", r.range(0, 4)); may = true; break;
    case 9: s = Step("regnum").set("k", 3).set("n", r.range(0, 4)); may = true; break;
    case 10: s = Step("rebind"); break;
    case 11: s = Step("clone"); may = true; break;
    case 12: s = Step("content"); s.set("op", r.pick(std::vector<str>{"mipmaps", "flip", "convert", "scale", "teximage", "copyimage", "overlay", "rotate", "negative"})); randPixelArgs(r, s); s.set("other", (long)r.below(spread)); may = true; break;
    case 13: s = genLoad(r); s.kv.erase("li"); may = true; break;
    case 14: s = genSave(r); break;
    case 15: s = Step("restart"); break;
    default: s = Step("replace").set("op", r.chance(1, 2) ? "texsurface" : "teximage"); randPixelArgs(r, s); may = true; break;
    }
    if (may && fn && r.chance(fn, 8)) s.set("f", r.chance(1, 4) ? strf("afrom:%ld", 1 + (long)r.below(8)) : strf("afail:%ld", 1 + (long)r.below(8)));
    p.steps.push_back(s);
  }
  return p;
}
static void execC12(const Plan &p) {
  cfgPlan(p); libStart(0); Names M; long stamp = 100; u64 sel = 0, miss = 0, ops = 0;
  auto adopt = [&]() { // the state right after initialisation
    M = Names(); for (ILuint n = 0; n < 2; n++) { M.live[n].reset(new Node); }
    for (auto &x : liveNames(2)) sync(x.img, M.at(x.name), stamp);
    M.bound = ilGetCurName(); M.cur = M.at(M.bound); M.top = 2;
  };
  adopt();
  auto check = [&](const str &after, const str &key) {
    ILimage *cur = ilGetCurImage();
    if (ilGetCurName() != M.bound || (ILuint)ilGetInteger(IL_CUR_IMAGE) != M.bound) failRun("C12", "bound-name:" + key, strf("after %s the bound name is %u, by the model it is %u", after.c_str(), ilGetCurName(), M.bound));
    if (!cur) failRun("C12", "nothing-selected:" + key, "no image is selected after " + after);
    if (ilGetInteger(IL_IMAGE_DURATION) != M.cur->stamp) failRun("C12", "selected-image:" + key, strf("after %s the selected image carries stamp %d, by the model it is %ld", after.c_str(), ilGetInteger(IL_IMAGE_DURATION), M.cur->stamp));
    static const ILenum Q[] = {IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_LAYERS, IL_NUM_FACES}, A[] = {IL_ACTIVE_IMAGE, IL_ACTIVE_MIPMAP, IL_ACTIVE_LAYER, IL_ACTIVE_FACE};
    for (int k = 0; k < 4; k++) {
      long n = 0; for (Node *q = (M.cur->*link(k)).get(); q; q = (q->*link(k)).get()) n++;
      if (ilGetInteger(Q[k]) != n) failRun("C12", strf("count-%s:", linkName[k]) + key, strf("after %s %d %ss are reported, by the model there are %ld", after.c_str(), ilGetInteger(Q[k]), linkName[k], n));
      long a = 0, c = 0; for (Node *q = (M.at(M.bound)->*link(k)).get(); q; q = (q->*link(k)).get()) { c++; if (q == M.cur) { a = c; break; } }
      if (ilGetInteger(A[k]) != a) failRun("C12", strf("active-%s:", linkName[k]) + key, strf("after %s %s %d is reported as selected, by the model it is %ld", after.c_str(), linkName[k], ilGetInteger(A[k]), a));
    }
    for (ILuint n = 0; n < std::max(12u, M.top + 2); n++) if ((bool)ilIsImage(n) != (n != 0 && M.at(n) != nullptr)) failRun("C12", "is-image:" + key, strf("after %s name %u is %s an image, by the model it is %s", after.c_str(), n, ilIsImage(n) ? "reported as" : "not reported as", M.at(n) ? "one" : "none"));
    ILimage *c0 = cur; ILuint b0 = ilGetCurName(); auto keep = W.faults; W.faults.clear();
    for (auto &l : M.live) { ilBindImage(l.first); str s = cmpTree(ilGetCurImage(), l.second.get(), strf("image %u", l.first)); if (!s.empty()) failRun("C12", "structure:" + key, "after " + after + ": " + s); }
    ilBindImage(b0); ilSetCurImage(c0); W.faults = keep; drainErrors();
  };
  auto fresh = [&](ILuint n) { NodeP q(new Node); M.freed.erase(n); Node *x = q.get(); M.live[n] = std::move(q); M.top = std::max(M.top, n + 1); return x; };
  auto remove = [&](ILuint n) { if (!n || !M.at(n)) return; if (M.bound == n) { M.bound = 0; M.cur = M.at(0); } M.live.erase(n); M.freed.insert(n); };
  check("start", "start");
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue; str f = s.s("f"), key = s.op; std::vector<int> err; curOp(s.text()); drainErrors(); ops++; const str &o = s.op; bool faulty = !f.empty();
    auto expectOk = [&](bool ok, const char *what) { if (!ok && !W.oomFired) failRun("C12", str(what) + ":" + key, strf("%s although nothing went wrong (%s)", what, s.text().c_str())); };
    if (o == "gen") {
      long n = s.i("n"); std::vector<ILuint> v(std::max(1l, n), 0xEEEEEEEE); arm(f); bool ilu = n == 1 && s.i("ilu"); if (ilu) v[0] = iluGenImage(); else if (n == 1) v[0] = ilGenImage(); else ilGenImages((ILsizei)n, v.data()); disarm(); err = drainErrors();
      bool oom = W.oomFired; if (n < 1) { if (v[0] != 0xEEEEEEEE) failRun("C12", "gen-none", "asking for no names wrote a name"); }
      else for (long i = 0; i < n; i++) {
        ILuint x = v[i];
        if (x == 0xEEEEEEEE) { if (!oom) failRun("C12", "gen-skipped", strf("name %ld of %ld was not generated", i + 1, n)); continue; }
        if (x == 0) { if (!oom) failRun("C12", "gen-failed", "no name was generated although nothing went wrong"); if (!hasErr(err, IL_OUT_OF_MEMORY)) failRun("C12", "gen-silent", "no name was generated and no error queued"); continue; }
        if (M.at(x)) failRun("C12", "gen-not-new", strf("name %u was generated although it is in use", x));
        if (!M.freed.count(x) && x < M.top) failRun("C12", "gen-skipped-name", strf("name %u was generated, which the model does not hold free (names up to %u were used)", x, M.top));
        fresh(x); if (ilu) { M.bound = x; M.cur = M.at(x); key += "-ilu"; }
      }
      // new images carry no stamp yet: give them one
    } else if (o == "bind" || o == "rebind") {
      ILuint n = o == "rebind" ? M.bound : (ILuint)s.i("n"); arm(f); ilBindImage(n); disarm(); err = drainErrors(); bool known = M.at(n) != nullptr;
      if (ilGetCurName() == n && (known || !W.oomFired || (ilGetCurImage() && n == ilGetCurName() && ilIsImage(n)))) { if (!known) fresh(n); M.bound = n; M.cur = M.at(n); }
      else { expectOk(false, "binding a name failed"); if (known) failRun("C12", "bind-existing-failed", "binding an existing image failed"); if (!hasErr(err, IL_OUT_OF_MEMORY)) failRun("C12", "bind-silent", "binding failed and no error is queued"); }
    } else if (o == "delete") { ILuint n = (ILuint)s.i("n"); arm(f); if (s.i("ilu")) iluDeleteImage(n); else ilDeleteImage(n); disarm(); drainErrors(); bool lost = W.oomFired; remove(n); if (lost) M.freed.insert(n); }
    else if (o == "deletes") { ILuint v[3] = {(ILuint)s.i("a"), (ILuint)s.i("b"), (ILuint)s.i("c")}; arm(f); ilDeleteImages(3, v); disarm(); drainErrors(); for (auto n : v) remove(n); }
    else if (o == "sub") {
      static const ILenum T[] = {IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER}; long k = s.i("k") % 3, n = s.i("n"); arm(f); long got = ilCreateSubImage(T[k], (ILuint)n); disarm(); err = drainErrors(); key += linkName[k];
      expectOk(got == n, "fewer sub-images were created than asked for"); if (got > n) failRun("C12", "sub-too-many", "more sub-images are reported as created than were asked for"); if (got < n && err.empty()) failRun("C12", "sub-silent", "sub-images are missing and no error is queued");
      if (got) { NodeP *at = &(M.cur->*link((int)k)); at->reset(); for (long i = 0; i < got; i++) { at->reset(new Node); at = &((**at).*link((int)k)); } }
    } else if (o == "active") {
      int k = (int)s.i("k") & 3; ILuint n = (ILuint)s.i("n"); Node *q = M.cur; for (ILuint i = 0; i < n && q; i++) q = (q->*link(k)).get();
      long ret = k == 0 ? ilActiveImage(n) : k == 1 ? ilActiveMipmap(n) : k == 2 ? ilActiveLayer(n) : ilActiveFace(n); err = drainErrors(); key += linkName[k];
      if ((ret != 0) != (q != nullptr)) failRun("C12", "active-answer:" + key, strf("selecting %s %u answers %ld, by the model it %s", linkName[k], n, ret, q ? "exists" : "does not exist"));
      if (!q && err.empty()) failRun("C12", "active-silent:" + key, "selecting a sub-image that does not exist queues no error"); if (q && !err.empty()) failRun("C12", "active-error:" + key, "selecting an existing sub-image queues an error");
      if (q) { M.cur = q; if (n) sel++; } else miss++;
    } else if (o == "stamp") { ilSetDuration((ILuint)++stamp); M.cur->stamp = stamp; }
    else if (o == "regnum") {
      int k = (int)s.i("k"); long n = s.i("n"); arm(f); long ret = k == 0 ? ilRegisterNumImages((ILuint)n) : k == 1 ? ilRegisterMipNum((ILuint)n) : ilRegisterNumFaces((ILuint)n); disarm(); err = drainErrors(); key += linkName[k];
      expectOk(ret != 0, "creating sub-images failed"); M.cur = M.at(M.bound); NodeP *at = &(M.cur->*link(k)); at->reset();
      if (ret) for (long i = 0; i < n; i++) { at->reset(new Node); at = &((**at).*link(k)); } else if (err.empty()) failRun("C12", "regnum-silent:" + key, "creating sub-images failed and no error is queued");
    } else if (o == "clone") {
      arm(f); ILuint n = ilCloneCurImage(); disarm(); err = drainErrors(); expectOk(n != 0, "cloning failed"); if (!n) { M.freed.insert(M.top); M.top++; } // the name it had generated is free again
      if (n) { if (M.at(n)) failRun("C12", "clone-not-new", strf("the clone got name %u, which is in use", n)); Node *x = fresh(n); x->stamp = M.cur->stamp; }
    } else if (o == "replace") { // a new image in the place of the selected one: as a surface it keeps all sub-images, otherwise it has none
      ILimage *c0 = ilGetCurImage(); bool surf = s.s("op") == "texsurface"; Step t(s.s("op")); t.kv = s.kv; t.kv.erase("op"); ILenum org = c0 ? c0->Origin : 0, cube = c0 ? c0->CubeFlags : 0; Res r = doPixelOp(t); err = drainErrors(); key += "-" + s.s("op");
      for (int e : r.err) err.push_back(e); expectOk(r.ret != 0, "replacing the image failed"); if (!r.ret && err.empty()) failRun("C12", "replace-silent:" + key, "replacing the image failed and no error is queued");
      if (ilGetCurImage() != c0) failRun("C12", "selection-changed:" + key, "the selected image changed during " + s.text());
      if (r.ret) {
        if (surf && (c0->Origin != org || c0->CubeFlags != cube)) failRun("C12", "surface-flags", "replacing a surface changed the origin or the cube face of the image");
        if (!surf) for (int k = 0; k < 4; k++) (M.cur->*link(k)).reset();
        if (c0->Duration) failRun("C12", "new-image-not-empty:" + key, strf("the new image carries duration %u", c0->Duration)); M.cur->stamp = c0->Duration = ++stamp;
      }
    } else if (o == "restart") { ilShutDown(); ilInit(); iluInit(); installIO(0); drainErrors(); adopt(); }
    else { // operations on the content of the selected image: they may replace its chains, but nobody else's
      ILimage *sel0 = ilGetCurImage(); Step t = s; if (o == "content") { t = Step(s.s("op")); t.kv = s.kv; t.kv.erase("op"); ILuint ot = (ILuint)s.i("other"); if (!M.at(ot)) fresh(ot); }
      if (o == "load") { doLoad(s); key += "-" + s.s("sample").substr(s.s("sample").rfind('.') + 1); }
      else if (o == "save") { doSave(s); }
      else {
        ILuint ot = (ILuint)s.i("other"); if (t.op == "copyimage" || t.op == "overlay") { ILuint b = ilGetCurName(); ILimage *c = ilGetCurImage(); ilBindImage(ot); ilBindImage(b); ilSetCurImage(c); } // make sure the other name exists
        doPixelOp(t); key += "-" + t.op;
      }
      drainErrors();
      ILimage *c = ilGetCurImage(); if (!c) failRun("C12", "nothing-selected:" + key, "no image is selected after " + s.text());
      if (ilGetCurName() != M.bound) failRun("C12", "bound-name:" + key, strf("after %s the bound name is %u, by the model it is %u", s.text().c_str(), ilGetCurName(), M.bound));
      if (o == "load" && c != sel0) { ILuint b = ilGetCurName(); ilBindImage(b); if (ilGetCurImage() != c) failRun("C12", "selection-after-load:" + key, "after a load neither the image it loaded into nor the bound image is selected"); M.cur = M.at(M.bound); }
      else if (c != sel0) failRun("C12", "selection-changed:" + key, "the selected image changed during " + s.text());
      if (o != "save") sync(c, M.cur, stamp);
    }
    // images created by this step carry no stamp of the model yet
    { ILimage *c0 = ilGetCurImage(); ILuint b0 = ilGetCurName(); (void)faulty;
      std::function<void(ILimage *, Node *)> st = [&](ILimage *im, Node *n) { for (; im && n; im = im->Next, n = n->next.get()) { if (!n->stamp) { if (im->Duration) failRun("C12", "new-image-not-empty:" + key, strf("a newly created image carries duration %u", im->Duration)); n->stamp = im->Duration = ++stamp; } st(im->Mipmaps, n->mip.get()); st(im->Layers, n->layer.get()); st(im->Faces, n->face.get()); } };
      for (auto &l : M.live) { ilBindImage(l.first); if (ilGetCurName() == l.first) st(ilGetCurImage(), l.second.get()); }
      ilBindImage(b0); ilSetCurImage(c0); drainErrors(); }
    check(s.text(), key);
  }
  SH->nontrivial = ops > 2; SH->cnt[0] += ops; SH->cnt[1] += sel; SH->cnt[2] += miss; SH->stateHash = hashStr(snapshotImages(12), evHash);
}
static const char *const cntC12[] = {"operations", "sub_images_selected", "selections_refused", nullptr};

// ============================================================ C13
struct IntSet { ILenum mode; long def; std::vector<long> ok, bad; int how; };  // how: 0 ilSetInteger, 1 ilEnable/ilDisable, 2 both a function and ilSetInteger
static const std::vector<IntSet> &intSets() {
  static const std::vector<IntSet> v = {
    {IL_ORIGIN_SET, 0, {}, {}, 1}, {IL_FORMAT_SET, 0, {}, {}, 1}, {IL_TYPE_SET, 0, {}, {}, 1}, {IL_FILE_MODE, 0, {}, {}, 1}, {IL_CONV_PAL, 0, {}, {}, 1}, {IL_DEFAULT_ON_FAIL, 0, {}, {}, 1}, {IL_USE_KEY_COLOUR, 0, {}, {}, 1}, {IL_BLIT_BLEND, 1, {}, {}, 1}, {IL_INTERLACE_MODE, 0, {}, {}, 1}, {IL_JPG_PROGRESSIVE, 0, {}, {}, 1}, {IL_NVIDIA_COMPRESS, 0, {}, {}, 1}, {IL_SQUISH_COMPRESS, 0, {}, {}, 1},
    {IL_ORIGIN_MODE, IL_ORIGIN_LOWER_LEFT, {IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT}, {0, 1, IL_RGB, -1}, 2},
    {IL_FORMAT_MODE, IL_BGRA, {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}, {0, IL_COLOUR_INDEX, IL_FLOAT, -5}, 2},
    {IL_TYPE_MODE, IL_UNSIGNED_BYTE, {IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE}, {0, IL_RGB, 77, -1}, 2},
    {IL_COMPRESS_MODE, IL_COMPRESS_ZLIB, {IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_ZLIB}, {0, IL_COMPRESS_LZO, -1}, 3},
    {IL_KEEP_DXTC_DATA, 0, {0, 1}, {2, -1, 255}, 0}, {IL_MAX_QUANT_INDICES, 256, {2, 3, 128, 256}, {1, 0, 257, -1, 100000}, 0}, {IL_NEU_QUANT_SAMPLE, 15, {1, 2, 30}, {0, 31, -1}, 0}, {IL_QUANTIZATION_MODE, IL_WU_QUANT, {IL_WU_QUANT, IL_NEU_QUANT}, {0, 1, -1}, 0},
    {IL_BMP_RLE, 0, {0, 1}, {2, -1}, 0}, {IL_DXTC_FORMAT, IL_DXT1, {IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N, IL_DXT1A}, {0, IL_DXT_NO_COMP, -1}, 0}, {IL_JPG_SAVE_FORMAT, IL_JFIF, {IL_JFIF, IL_EXIF}, {0, 1, -1}, 0}, {IL_JPG_QUALITY, 99, {0, 1, 50, 99}, {100, -1, 1000}, 0}, {IL_PNG_INTERLACE, 0, {0, 1}, {2, -1}, 0},
    {IL_PCD_PICNUM, 2, {0, 1, 2}, {3, -1}, 0}, {IL_PNG_ALPHA_INDEX, -1, {-1, 0, 1, 255}, {-2, 256}, 0}, {IL_SGI_RLE, 0, {0, 1}, {2, -1}, 0}, {IL_TGA_CREATE_STAMP, 0, {0, 1}, {2, -1}, 0}, {IL_TGA_RLE, 0, {0, 1}, {2, -1}, 0}, {IL_VTF_COMP, IL_DXT_NO_COMP, {IL_DXT1, IL_DXT3, IL_DXT5, IL_DXT1A, IL_DXT_NO_COMP}, {0, IL_DXT2, IL_3DC, -1}, 0}};
  return v;
}
static const ILenum STRS[] = {IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING};
static const int NSTR = sizeof STRS / sizeof *STRS;
static ILuint groupOf(ILenum m) { // the group of IL_*_BIT a setting belongs to, 0: none
  switch (m) {
  case IL_ORIGIN_SET: case IL_ORIGIN_MODE: return IL_ORIGIN_BIT;
  case IL_FORMAT_SET: case IL_FORMAT_MODE: return IL_FORMAT_BIT;
  case IL_TYPE_SET: case IL_TYPE_MODE: return IL_TYPE_BIT;
  case IL_FILE_MODE: return IL_FILE_BIT;
  case IL_CONV_PAL: return IL_PAL_BIT;
  case IL_DEFAULT_ON_FAIL: return IL_LOADFAIL_BIT;
  case IL_COMPRESS_MODE: return IL_COMPRESS_BIT;
  case IL_TGA_CREATE_STAMP: case IL_JPG_QUALITY: case IL_PNG_INTERLACE: case IL_TGA_RLE: case IL_BMP_RLE: case IL_SGI_RLE: case IL_JPG_SAVE_FORMAT: case IL_DXTC_FORMAT: case IL_PCD_PICNUM: case IL_JPG_PROGRESSIVE: case IL_VTF_COMP: case IL_PNG_ALPHA_INDEX: return IL_FORMAT_SPECIFIC_BIT;
  }
  return 0;
}
struct Level { std::map<ILenum, long> v; std::map<ILenum, str> s; std::set<ILenum> has; std::set<ILenum> unsure; };
static Level defaults() { Level l; for (auto &x : intSets()) l.v[x.mode] = x.def; return l; }
static Plan genC13(Rng &r, u64 idx, bool th) {
  Plan p = startPlan(r); int n = (int)r.range(4, th ? 120 : 50); (void)idx; int pushy = (int)r.below(4), fn = (int)r.below(3); bool deep = r.chance(1, 8); if (deep) { pushy = 30; n += 60; }
  bool others = r.chance(1, 3); int cur = 0;
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(100); Step s; bool may = false; auto &is = intSets(); const IntSet &x = is[r.below(is.size())];
    if (k < 6 + pushy * 2) { s = Step("push").set("m", r.chance(1, 3) ? 0xFFFFFFFFl : r.chance(1, 2) ? 1l << r.below(20) : (long)(r.next() & 0xFFFFF)); may = true; if (deep && r.chance(1, 4)) i++; }
    else if (k < 12 + pushy) s = Step("pop");
    else if (k < 22) { s = Step("str").set("v", (long)r.below(NSTR)).set("n", r.pick(std::vector<long>{0, 1, 5, 20, 40, 41, 100, 255, 256, 700})).set("c", (long)r.below(26)); may = true; }
    else if (k < 24) s = Step("bad").set("a", (long)r.below(7)).set("v", (long)r.below(1u << 20));
    else if (k < 25) s = Step("restart");
    else if (k < 27) { s = Step("hint").set("a", (long)r.below(4)).set("b", (long)r.below(4)); }
    else if (k < 40 && others) { GenOpt o; o.settings = o.attrib = false; o.faultNum = 1; o.faultDen = 3; do { s = genOp(r, o, cur); } while (s.op == "dxtsurface" || s.op == "savepal" || s.op == "savedata"); if (s.op == "save") s.set("keepow", 1); s.set("x13", 1); }
    else { s = Step("int").set("m", (long)(&x - &is[0])); if (x.how == 1) s.set("v", (long)r.below(2)); else { bool bad = r.chance(1, 3); auto &vs = bad ? x.bad : x.ok; s.set("v", vs[r.below(vs.size())]); if (bad) s.set("bad", 1); if (x.how == 2) s.set("fn", (long)r.below(2)); } }
    if (may && fn && r.chance(fn, 8)) s.set("f", r.chance(1, 3) ? strf("afrom:%ld", 1 + (long)r.below(10)) : strf("afail:%ld", 1 + (long)r.below(11)));
    p.steps.push_back(s);
  }
  return p;
}
static void execC13(const Plan &p) {
  cfgPlan(p); Ctx c; libStart(0); std::vector<Level> st(1, defaults()); u64 ops = 0, rej = 0, maxDepth = 0, other = 0; auto &is = intSets();
  auto check = [&](const str &after, const str &key) {
    Level &l = st.back();
    for (auto &x : is) {
      long v = ilGetInteger(x.mode); if (v != l.v[x.mode]) failRun("C13", strf("setting-%x:", x.mode) + key, strf("after %s setting %x reads %ld, by the model it is %ld (level %zu)", after.c_str(), x.mode, v, l.v[x.mode], st.size()));
      if (ilGetBoolean(x.mode) != (ILboolean)v) failRun("C13", strf("boolean-%x:", x.mode) + key, strf("setting %x reads differently as a boolean after %s", x.mode, after.c_str()));
      if (x.how == 1) { ILenum m = x.mode == IL_FILE_MODE ? (ILenum)IL_FILE_OVERWRITE : x.mode == IL_INTERLACE_MODE ? (ILenum)IL_SAVE_INTERLACED : x.mode; if ((ilIsEnabled(m) != 0) != (v != 0) || (ilIsDisabled(m) != 0) != (v == 0)) failRun("C13", strf("enabled-%x:", x.mode) + key, strf("setting %x reads %ld and is reported as %s after %s", x.mode, v, ilIsEnabled(m) ? "enabled" : "disabled", after.c_str())); }
    }
    for (ILenum m : STRS) {
      const char *t = ilGetString(m);
      if (l.unsure.count(m)) { // set or copied while memory was short: the old value, or the new one
        if (t) { if (!l.has.count(m) || l.s[m] != t) failRun("C13", strf("string-%x:", m) + key, strf("after %s string %x is \"%.60s\"", after.c_str(), m, t)); } else l.has.erase(m);
        l.unsure.erase(m); continue;
      }
      if ((t != nullptr) != (l.has.count(m) != 0)) failRun("C13", strf("string-%x:", m) + key, strf("after %s string %x is %s", after.c_str(), m, t ? "set" : "not set"));
      if (t && l.s[m] != t) failRun("C13", strf("string-%x:", m) + key, strf("after %s string %x is \"%.60s\", by the model it is \"%.60s\"", after.c_str(), m, t, l.s[m].c_str()));
    }
    drainErrors();
  };
  check("initialisation", "start");
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue; str key = s.op, f = s.s("f"); curOp(s.text()); drainErrors(); ops++; Level &l = st.back(); std::vector<int> err; const str &o = s.op;
    if (s.i("x13")) { runOp(s, c); other++; key = imgKey(s); }
    else if (o == "int") {
      const IntSet &x = is[s.i("m") % is.size()]; long v = s.i("v"); bool bad = s.i("bad"); key += strf("-%x", x.mode); arm(f); long ret = 1;
      if (x.how == 1) { ILenum m = x.mode == IL_FILE_MODE ? (ILenum)IL_FILE_OVERWRITE : x.mode == IL_INTERLACE_MODE ? (ILenum)IL_SAVE_INTERLACED : x.mode; ret = v ? ilEnable(m) : ilDisable(m); }
      else if (x.how == 3) ret = ilCompressFunc((ILenum)v);
      else if (x.how == 2 && s.i("fn")) ret = x.mode == IL_ORIGIN_MODE ? ilOriginFunc((ILenum)v) : x.mode == IL_FORMAT_MODE ? ilFormatFunc((ILenum)v) : ilTypeFunc((ILenum)v);
      else { ilSetInteger(x.mode, (ILint)v); }
      disarm(); err = drainErrors();
      if (bad) { rej++; if (err.empty() || (ret && x.how != 0 && (x.how == 3 || s.i("fn")))) failRun("C13", "bad-value-accepted:" + key, strf("setting %x to %ld is not rejected", x.mode, v)); }
      else { if (!err.empty() || !ret) failRun("C13", "value-rejected:" + key, strf("setting %x to %ld is rejected", x.mode, v)); l.v[x.mode] = v; }
    } else if (o == "str") {
      ILenum m = STRS[s.i("v") % NSTR]; str t; for (long i = 0; i < s.i("n"); i++) t += (char)('a' + (i * 7 + s.i("c")) % 26); key += strf("-%x", m);
      arm(f); ilSetString(m, t.c_str()); disarm(); err = drainErrors();
      const char *now = ilGetString(m); bool took = now && t == now;
      if (W.oomFired) { if (!took && err.empty()) failRun("C13", "string-not-set:" + key, "a string could not be set for lack of memory and no error is queued"); if (took) { l.s[m] = t; l.has.insert(m); } }
      else { if (!err.empty()) failRun("C13", "string-error:" + key, "setting a string queues an error"); l.s[m] = t; l.has.insert(m); }
    } else if (o == "push") {
      ILuint bits = (ILuint)s.i("m"); arm(f); ilPushAttrib(bits); disarm(); err = drainErrors();
      if (st.size() >= 32) { rej++; if (!hasErr(err, IL_STACK_OVERFLOW)) failRun("C13", "overflow-silent", "pushing onto a full attribute stack queues no overflow error"); }
      else {
        if (hasErr(err, IL_STACK_OVERFLOW)) failRun("C13", "overflow-early", strf("the attribute stack overflows at level %zu", st.size()));
        if (!W.oomFired && !err.empty()) failRun("C13", "push-error", "pushing attributes queues error " + errText(err));
        Level d = defaults(); for (auto &x : is) if (groupOf(x.mode) & bits) d.v[x.mode] = l.v[x.mode];
        if (bits & IL_FORMAT_SPECIFIC_BIT) for (ILenum m : STRS) if (l.has.count(m)) { d.has.insert(m); d.s[m] = l.s[m]; if (W.oomFired) d.unsure.insert(m); }
        if (W.oomFired && !hasErr(err, IL_OUT_OF_MEMORY)) failRun("C13", "push-silent", "an allocation was refused while pushing attributes and no error is queued");
        st.push_back(d); maxDepth = std::max<u64>(maxDepth, st.size());
      }
    } else if (o == "pop") {
      ilPopAttrib(); err = drainErrors();
      if (st.size() == 1) { rej++; if (!hasErr(err, IL_STACK_UNDERFLOW)) failRun("C13", "underflow-silent", "popping an empty attribute stack queues no underflow error"); } else { if (!err.empty()) failRun("C13", "pop-error", "popping attributes queues error " + errText(err)); st.pop_back(); }
    } else if (o == "bad") {
      long v = s.i("v"); ILenum m = 0x30000 + (ILenum)v; long ret = 0; rej++;
      switch (s.i("a") % 7) { case 0: ret = ilEnable(m); break; case 1: ret = ilDisable(m); break; case 2: ilSetInteger(m, 1); break; case 3: ilSetString(m, "x"); break; case 4: ilSetString(STRS[v % NSTR], nullptr); break; case 5: ilHint(m, IL_FASTEST); break; default: { int q = 5; ilGetIntegerv(m, &q); ilIsEnabled(m); const char *t = ilGetString(m); ret = t != nullptr; } }
      err = drainErrors(); if (ret || err.empty()) failRun("C13", strf("bad-name-accepted-%ld", s.i("a") % 7), "an unknown setting or missing value is not rejected");
    } else if (o == "hint") {
      static const ILenum H[] = {IL_MEM_SPEED_HINT, IL_COMPRESSION_HINT}; static const ILenum MV[][3] = {{IL_FASTEST, IL_LESS_MEM, IL_DONT_CARE}, {IL_USE_COMPRESSION, IL_NO_COMPRESSION, IL_DONT_CARE}}; int a = (int)s.i("a") & 1; bool bad = (s.i("b") & 3) == 3; ilHint(H[a], bad ? 0x1234 : MV[a][s.i("b") & 3]); err = drainErrors();
      if (bad ? err.empty() : !err.empty()) failRun("C13", "hint", bad ? "an unknown hint is not rejected" : "a documented hint is rejected");
    } else if (o == "restart") { ilShutDown(); ilInit(); iluInit(); installIO(0); drainErrors(); st.assign(1, defaults()); c = Ctx(); }
    check(s.text(), key);
  }
  // everything unwinds to what it was
  while (st.size() > 1) { curOp("unwind"); ilPopAttrib(); st.pop_back(); check("unwinding", "unwind"); }
  SH->nontrivial = ops > 3; SH->cnt[0] += ops; SH->cnt[1] += rej; SH->cnt[2] += maxDepth > 20; SH->cnt[3] += other; SH->stateHash = hashStr(snapshotSettings(), evHash);
}
static const char *const cntC13[] = {"operations", "rejected", "deep_stacks", "other_calls_in_between", nullptr};

// ============================================================ C18
struct Call { bool save; int id; str name; };
static std::vector<Call> calls; static ILenum hAnswer[8]; static int hAct[8]; static str hNested; static ILenum hNestedType;
static const char *const HEXT[] = {"aaa", "bbb", "ccc", "tga", "png", "xyz"};
static ILenum handler(bool save, int id, ILconst_string f) {
  calls.push_back({save, id, f}); ev("handler %d %d %s", save, id, f);
  if (calls.size() > 20) return 0x555;
  switch (hAct[id]) {
  case 1: if (!save) { u8 px[3] = {(u8)(id * 20 + 1), 7, 9}; ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); } else { ilEnable(IL_FILE_OVERWRITE); ilSave(IL_TGA, "nested.tga"); } break;
  case 2: if (!save) ilLoad(hNestedType, hNested.c_str()); break;                       // a handler may use the library
  case 3: { const char *e = strrchr(f, '.'); if (e) { if (save) ilRemoveSave(e + 1); else ilRemoveLoad(e + 1); } break; } // removes itself
  }
  return hAnswer[id];
}
#define H(n) static ILenum ILAPIENTRY loadH##n(ILconst_string f) { return handler(false, n, f); } static ILenum ILAPIENTRY saveH##n(ILconst_string f) { return handler(true, n, f); }
H(0) H(1) H(2) H(3)
static const IL_LOADPROC LH[] = {loadH0, loadH1, loadH2, loadH3}; static const IL_SAVEPROC SHN[] = {saveH0, saveH1, saveH2, saveH3};
static Plan genC18(Rng &r, u64 idx, bool th) {
  Plan p = startPlan(r); int n = (int)r.range(3, th ? 50 : 22); (void)idx; int fn = (int)r.below(3); int ne = (int)r.range(2, 6);
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(20); Step s; long e = (long)r.below(ne); bool may = true; long up = (long)r.below(3);
    if (k < 7) s = Step("reg").set("save", (long)r.below(2)).set("e", e).set("h", (long)r.below(4)).set("case", up);
    else if (k < 10) s = Step("unreg").set("save", (long)r.below(2)).set("e", e).set("case", up);
    else if (k < 14) { s = Step("hload").set("e", e).set("case", up).set("how", (long)r.below(3)).set("content", (long)r.below(3)).set("a", r.chance(1, 3) ? 0x50Al : 0l).set("act", (long)r.below(4)); const Sample &sm = SAMPLES[r.below(SAMPLES.size())]; s.set("sample", sm.name); }
    else if (k < 18) s = Step("hsave").set("e", e).set("case", up).set("how", (long)r.below(2)).set("a", r.chance(1, 3) ? 0x50Bl : 0l).set("act", (long)r.below(4));
    else if (k < 19) { s = Step("bad").set("a", (long)r.below(6)); may = false; }
    else { s = Step("restart"); may = false; }
    if (may && fn && r.chance(fn, 8)) s.set("f", r.chance(1, 4) ? strf("afrom:%ld", 1 + (long)r.below(3)) : strf("afail:%ld", 1 + (long)r.below(3)));
    p.steps.push_back(s);
  }
  return p;
}
static void execC18(const Plan &p) {
  cfgPlan(p); libStart(0); ILuint a = ilGenImage(); ilBindImage(a); makeImage(3, 4, 3, 1, IL_RGB, IL_UNSIGNED_BYTE, 0, 0);
  std::map<int, int> reg[2]; u64 ops = 0, called = 0, twice = 0, oomReg = 0;
  auto ext = [&](const Step &s) { str e = HEXT[s.i("e") % 6]; if (s.i("case") == 1) for (auto &ch : e) ch = toupper(ch); return e; };
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue; curOp(s.text()); drainErrors(); calls.clear(); ops++; const str &o = s.op; str f = s.s("f"); int e = (int)(s.i("e") % 6); std::vector<int> err;
    if (o == "reg") {
      int sv = (int)s.i("save") & 1, h = (int)s.i("h") & 3; size_t blocks = W.blocks.size(); arm(f); ILboolean ret = sv ? ilRegisterSave(ext(s).c_str(), SHN[h]) : ilRegisterLoad(ext(s).c_str(), LH[h]); disarm(); err = drainErrors();
      if (!ret && !W.oomFired) failRun("C18", "register-refused", "registering a handler fails although nothing went wrong"); if (!ret && err.empty()) failRun("C18", "register-silent", "registering a handler fails and no error is queued");
      if (!ret && W.blocks.size() != blocks) failRun("C18", "register-leak", "a refused registration leaves memory behind");
      if (W.oomFired) oomReg++;
      if (reg[sv].count(e)) { twice++; if (W.blocks.size() != blocks) failRun("C18", "second-registration-leak", "a second registration for an extension leaves memory behind"); } else if (ret) reg[sv][e] = h;
    } else if (o == "unreg") {
      int sv = (int)s.i("save") & 1; arm(f); ILboolean ret = sv ? ilRemoveSave(ext(s).c_str()) : ilRemoveLoad(ext(s).c_str()); disarm(); drainErrors();
      if ((ret != 0) != (reg[sv].count(e) != 0)) failRun("C18", "remove-answer", strf("removing a handler answers %d although %s registered", ret, reg[sv].count(e) ? "one is" : "none is")); reg[sv].erase(e);
    } else if (o == "hload" || o == "hsave") {
      bool sv = o == "hsave"; str x = ext(s), name = (s.i("case") == 2 ? "dir.d/im.ge." : "image.") + x; const Sample *sm = sampleBy(s.s("sample")); auto h = reg[sv].find(e); bool builtin = e == 3 || e == 4;
      for (int i = 0; i < 4; i++) { hAnswer[i] = 0; hAct[i] = 0; } if (h != reg[sv].end()) { hAnswer[h->second] = (ILenum)s.i("a"); hAct[h->second] = (int)s.i("act") & 3; }
      if (sm) { hNested = "nest." + sm->ext; hNestedType = sm->type; W.disk[hNested] = sm->data; }
      long how = s.i("how"), content = s.i("content"); bool byName = true; long ret; Bytes before; bool existed = false;
      if (!sv) { if (content == 0) W.disk.erase(name); else if (content == 1) W.disk[name] = Bytes(40, 0x11); else if (sm) W.disk[name] = sm->data; } else { existed = false; W.disk.erase(name); ilEnable(IL_FILE_OVERWRITE); (void)existed; }
      str was = snapshotImages(8); ILuint b0 = ilGetCurName(); bool expect = false; int id = -1;
      arm(f);
      if (!sv) { byName = how != 2; ret = how == 0 ? ilLoadImage(name.c_str()) : how == 1 ? ilLoad(IL_TYPE_UNKNOWN, name.c_str()) : ilLoad(IL_TGA, name.c_str()); }
      else { ret = how == 0 ? ilSaveImage(name.c_str()) : ilSave(IL_TYPE_UNKNOWN, name.c_str()); if (builtin) byName = false; }
      disarm(); err = drainErrors(); if (h != reg[sv].end() && byName) { expect = true; id = h->second; }
      // called exactly once, with the name given, and nobody else (a nested load names its type, so calls no handler)
      size_t want = expect ? 1 : 0; if (calls.size() != want) failRun("C18", strf("%s-calls-%zu", sv ? "save" : "load", calls.size()), strf("%zu handlers were called for %s, by the model %zu", calls.size(), name.c_str(), want));
      if (expect) {
        called++; SH->nontrivial = 1;
        if (calls[0].save != sv || calls[0].id != id) failRun("C18", "wrong-handler", strf("handler %d (%s) was called instead of %d (%s)", calls[0].id, calls[0].save ? "save" : "load", id, sv ? "save" : "load"));
        if (calls[0].name != name) failRun("C18", "wrong-name", "the handler was called with the name " + calls[0].name + " instead of " + name);
        if (hAct[id] == 3) reg[sv].erase(e);
        if (s.i("a") == 0) { if (!ret) failRun("C18", sv ? "save-answer-ignored" : "load-answer-ignored", "the handler reported success and the call answers failure"); }
        else {
          if (err.size() < 32 && !hasErr(err, (int)s.i("a"))) failRun("C18", "error-lost", "the error the handler answered is not queued: " + errText(err));
          if (sv && ret) failRun("C18", "save-failure-ignored", "the handler reported failure and the save answers success");
          if (!sv && ret && content != 2) failRun("C18", "load-failure-ignored", "the handler reported failure and the load answers success");
        }
        if (ret && !sv && s.i("a") == 0 && hAct[id] == 1 && !W.oomFired) { ILimage *im = ilGetCurImage(); if (!im || im->Width != 1 || im->Bpp != 3 || !im->Data || im->Data[0] != id * 20 + 1) failRun("C18", "handler-image-lost", "the image the handler made is not the current image after the load"); }
        if (ret && !sv && s.i("a") == 0 && (hAct[id] == 0 || hAct[id] == 3) && snapshotImages(8) != was) failRun("C18", "handler-image-touched", "the handler changed nothing and the images differ after the load");
      } else {
        if (sv && !builtin) { if (ret) failRun("C18", "save-without-handler", "saving with an unknown extension and no handler answers success"); if (err.empty()) failRun("C18", "save-without-handler-silent", "saving with an unknown extension queues no error"); }
        if (sv && builtin && !W.oomFired) { Bytes got = W.disk.count(name) ? W.disk[name] : Bytes(); W.disk.erase(name); bool ok = ilSave(e == 3 ? IL_TGA : IL_PNG, name.c_str()); drainErrors(); if ((ret != 0) != ok || got != (W.disk.count(name) ? W.disk[name] : Bytes())) failRun("C18", "builtin-save", "a save in a built-in format fails after handlers were registered"); }
        if (!sv && content == 0 && ret) failRun("C18", "load-nothing", "a file that does not exist is loaded");
        if (!sv && content == 2 && sm && !W.oomFired && !builtin && how != 2 && sm->ext != "raw") { // no handler: the content decides, as if handlers did not exist
          ILenum t = ilDetermineType(name.c_str()); drainErrors(); if (ret && t == IL_TYPE_UNKNOWN) failRun("C18", "load-unknown", "content of unknown type was loaded without a handler");
        }
      }
      if (ilGetCurName() != b0) failRun("C18", "binding", "the bound image changed");
      checkAllImages(8, "C18", o);
      if (sv && !W.disk.count("nested.tga") && expect && hAct[id] == 1 && !W.oomFired) failRun("C18", "nested-save", "a save made by a handler did not reach the disk");
      W.disk.erase("nested.tga"); W.disk.erase(name);
    } else if (o == "bad") {
      long ret = 0; switch (s.i("a") % 6) { case 0: ret = ilRegisterLoad(nullptr, LH[0]); break; case 1: ret = ilRegisterSave(nullptr, SHN[0]); break; case 2: ret = ilRegisterLoad("zzz", nullptr); break; case 3: ret = ilRegisterSave("zzz", nullptr); break; case 4: ret = ilRemoveLoad("zzz"); break; default: ret = ilRemoveSave("never"); }
      err = drainErrors(); if (ret) failRun("C18", strf("bad-accepted-%ld", s.i("a") % 6), "a registration without extension or handler, or the removal of an unknown one, answers success");
      if (s.i("a") % 6 < 4 && err.empty()) failRun("C18", "bad-silent", "a rejected registration queues no error");
    } else if (o == "restart") { ilShutDown(); ilInit(); iluInit(); installIO(0); drainErrors(); a = ilGenImage(); ilBindImage(a); makeImage(3, 4, 3, 1, IL_RGB, IL_UNSIGNED_BYTE, 0, 0); } // handlers stay registered until they are removed
    int nh = 0; (void)nh;
  }
  // removing everything: nothing is called any more, nothing is left behind
  for (int sv = 0; sv < 2; sv++) for (int e = 0; e < 6; e++) { ILboolean ret = sv ? ilRemoveSave(HEXT[e]) : ilRemoveLoad(HEXT[e]); if ((ret != 0) != (reg[sv].count(e) != 0)) failRun("C18", "remove-answer", "removing all handlers finds others than were registered"); }
  calls.clear(); for (int e = 0; e < 6; e++) { str n = str("last.") + HEXT[e]; W.disk[n] = Bytes(30, 0x22); ilLoadImage(n.c_str()); ilSaveImage(n.c_str()); } drainErrors();
  if (!calls.empty()) failRun("C18", "called-after-removal", "a handler was called after it was removed");
  SH->cnt[0] += ops; SH->cnt[1] += called; SH->cnt[2] += twice; SH->cnt[3] += oomReg; SH->stateHash = evHash;
  curOp("shutdown"); ilShutDown(); if (!W.blocks.empty()) failRun("C18", "leak", strf("%zu blocks are outstanding after all handlers were removed and the library was shut down", W.blocks.size()));
}
static const char *const cntC18[] = {"operations", "handler_calls", "second_registrations", "registrations_without_memory", nullptr};

// ============================================================ C24
// Copies of an image: equal to the original when made, and from then on nobody's but their own.
static str recDiff(ILimage *a, ILimage *b) {
  struct { const char *n; ILuint x, y; } v[] = {{"width", a->Width, b->Width}, {"height", a->Height, b->Height}, {"depth", a->Depth, b->Depth}, {"channels", a->Bpp, b->Bpp}, {"component size", a->Bpc, b->Bpc}, {"line size", a->Bps, b->Bps}, {"plane size", a->SizeOfPlane, b->SizeOfPlane}, {"data size", a->SizeOfData, b->SizeOfData},
    {"format", a->Format, b->Format}, {"type", a->Type, b->Type}, {"origin", a->Origin, b->Origin}, {"palette type", a->Pal.PalType, b->Pal.PalType}, {"palette size", a->Pal.PalSize, b->Pal.PalSize}, {"duration", a->Duration, b->Duration}, {"cube flags", a->CubeFlags, b->CubeFlags}, {"x offset", a->OffX, b->OffX}, {"y offset", a->OffY, b->OffY}, {"profile size", a->Profile ? a->ProfileSize : 0, b->Profile ? b->ProfileSize : 0}, {"animation list", a->AnimList ? a->AnimSize : 0, b->AnimList ? b->AnimSize : 0}};
  for (auto &f : v) if (f.x != f.y) return strf("%s %u instead of %u", f.n, f.y, f.x);
  if (!a->Data != !b->Data || (a->Data && memcmp(a->Data, b->Data, a->SizeOfData))) return "other pixels";
  if (!a->Pal.Palette != !b->Pal.Palette || (a->Pal.Palette && a->Pal.PalType != IL_PAL_NONE && memcmp(a->Pal.Palette, b->Pal.Palette, a->Pal.PalSize))) return "another palette";
  if (!a->Profile != !b->Profile || (a->Profile && memcmp(a->Profile, b->Profile, a->ProfileSize))) return "another profile";
  if (!a->AnimList != !b->AnimList || (a->AnimList && memcmp(a->AnimList, b->AnimList, a->AnimSize * sizeof(ILuint)))) return "another animation list";
  return "";
}
static str sharedStorage() {
  std::map<const void *, ILuint> seen; str bad;
  for (auto &l : liveNames(16)) {
    int guard = 0; std::function<void(ILimage *)> go = [&](ILimage *im) {
      if (!im || !bad.empty() || guard++ > 2000) return;
      struct { const char *n; const void *p; } v[] = {{"record", im}, {"pixels", im->Data}, {"palette", im->Pal.Palette}, {"profile", im->Profile}, {"animation list", im->AnimList}, {"compressed data", im->DxtcData}};
      for (auto &x : v) if (x.p) { if (seen.count(x.p)) { bad = strf("images %u and %u share the same %s", seen[x.p], l.name, x.n); return; } seen[x.p] = l.name; }
      go(im->Mipmaps); go(im->Faces); go(im->Layers); go(im->Next); };
    go(l.img);
  }
  return bad;
}
static std::map<ILuint, u64> hashesOf() { std::map<ILuint, u64> m; for (auto &l : liveNames(16)) m[l.name] = imgHash(l.img); return m; }
static Plan genC24(Rng &r, u64 idx, bool th) {
  Plan p = startPlan(r); (void)idx; int slots = (int)r.range(2, 4), fn = (int)r.below(3); if (r.chance(1, 4)) randSettings(r, p, true);
  GenOpt o; o.slots = slots; o.faultNum = 0; o.attrib = false; o.probes = false; o.settings = r.chance(1, 3); o.bindings = false; int cur = 0;
  for (int k = slots - 1; k >= 0; k--) {
    p.steps.push_back(Step("slot").set("k", (long)k)); if (r.chance(3, 4)) p.steps.push_back(genImage(r)); else { Step l = genLoad(r); l.kv.erase("li"); p.steps.push_back(l); }
    if (r.chance(1, 3)) { Step a("attr"); a.set("dur", r.range(1, 5000)).set("x", r.range(0, 300)).set("y", r.range(0, 300)).set("org", (long)r.below(2)); if (r.chance(1, 3)) a.set("cube", (long)r.below(7)); p.steps.push_back(a); }
    if (r.chance(1, 6)) { Step m(r.chance(1, 2) ? "mipmaps" : "subimage"); randPixelArgs(r, m); p.steps.push_back(m); }
    if (r.chance(1, 10)) { Step m("applyprofile"); randPixelArgs(r, m); p.steps.push_back(m); }
    if (r.chance(1, 10)) { Step m("dxtsurface"); randPixelArgs(r, m); p.steps.push_back(m); }
  }
  int n = (int)r.range(2, th ? 24 : 10);
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(20); Step s; bool may = true;
    if (k < 5) s = Step("dup").set("k", (long)r.below(slots));
    else if (k < 9) s = Step("copyfrom").set("k", (long)r.below(slots));
    else if (k < 11) { s = Step("slot").set("k", (long)r.below(slots)); may = false; }
    else if (k < 12) { s = Step("active").set("kind", (long)r.below(4)).set("n", (long)r.below(3)); may = false; }
    else if (k < 13) { s = Step("del").set("k", (long)r.below(slots)); may = false; }
    else if (k < 14) { s = genLoad(r); s.kv.erase("li"); }
    else if (k < 15) s = genSave(r);
    else { s = Step(PIXEL_OPS[r.below(PIXEL_OPS.size())]); randPixelArgs(r, s); s.set("oslot", (long)r.below(slots)); }
    bool copy = s.op == "dup" || s.op == "copyfrom"; if (may && fn && r.chance(copy ? 3 : fn, 8)) s.set("f", r.chance(1, 4) ? strf("afrom:%ld", 1 + (long)r.below(copy ? 6 : 8)) : strf("afail:%ld", 1 + (long)r.below(copy ? 6 : 8)));
    p.steps.push_back(s);
  }
  (void)o; (void)cur; return p;
}
static void execC24(const Plan &p) {
  cfgPlan(p); libStart(0); Ctx c; u64 copies = 0, refused = 0, compared = 0, ops = 0;
  auto saved = [&](ILuint n, ILenum t) { ILuint b = ilGetCurName(); ILimage *ci = ilGetCurImage(); ilBindImage(n); installIO(0); W.bufMode = 0; W.chunk = 0; W.disk.erase("copy.out"); ilEnable(IL_FILE_OVERWRITE); bool ok = ilSave(t, "copy.out"); drainErrors(); Bytes d = W.disk.count("copy.out") ? W.disk["copy.out"] : Bytes(); W.disk.erase("copy.out"); ilBindImage(b); ilSetCurImage(ci); return std::make_pair(ok, d); };
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue; const str &o = s.op; str key = imgKey(s); std::vector<int> err; ops++; curOp(s.text());
    auto was = hashesOf(); ILuint b0 = ilGetCurName(); std::set<ILuint> mine = {b0}; ILimage *sel = ilGetCurImage();
    if (o == "attr") { if (sel) { ilSetDuration((ILuint)s.i("dur")); sel->OffX = (ILuint)s.i("x"); sel->OffY = (ILuint)s.i("y"); ilRegisterOrigin(s.i("org") ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); if (s.has("cube")) sel->CubeFlags = (ILenum)(s.i("cube") ? 0x400u << s.i("cube") : 0); } }
    else if (o == "dup") {
      int k = (int)s.i("k") & 7; drainErrors(); arm(s.s("f")); ILuint n = ilCloneCurImage(); disarm(); err = drainErrors(); bool oom = W.oomFired; key = "clone";
      if (ilGetCurName() != b0 || ilGetCurImage() != sel) failRun("C24", "selection:clone", "cloning changed which image is selected");
      if (n) {
        copies++; if (was.count(n)) failRun("C24", "clone-in-use", strf("the clone took name %u, which is in use", n)); ILimage *im = nullptr; for (auto &l : liveNames(16)) if (l.name == n) im = l.img;
        if (!im) failRun("C24", "clone-missing", strf("the clone's name %u is no image", n)); str d = recDiff(sel, im); if (!d.empty()) failRun("C24", "clone-differs:" + d.substr(0, d.find(' ')), "the clone has " + d + " (" + imgDesc(sel) + ")");
        if (im->Next || im->Mipmaps || im->Faces || im->Layers) failRun("C24", "clone-chains", "a clone has sub-images of its own");
        if (b0 && sel->Data && !sel->Mipmaps && !sel->Next && !sel->Faces && !sel->Layers && !sel->DxtcData && ilGetCurImage() == sel) {
          bool base = false; for (auto &l : liveNames(16)) if (l.name == b0) base = l.img == sel;
          if (base) { compared++; ILenum t = s.i("k") & 1 ? IL_TGA : IL_PNG; auto x = saved(b0, t), y = saved(n, t); if (x.first != y.first || x.second != y.second) failRun("C24", "clone-saves-differently", "a clone is not saved to the same bytes as its original (" + imgDesc(sel) + ")"); }
          drainErrors(); ILboolean same = iluCompareImage(n); if (drainErrors().empty() && !same) failRun("C24", "clone-compares-different", "comparing an image with its clone answers that they differ (" + imgDesc(sel) + ")");
        }
        if (c.slot[k] && c.slot[k] != b0) { mine.insert(c.slot[k]); ilDeleteImage(c.slot[k]); c.slot[k] = 0; } if (!c.slot[k]) c.slot[k] = n; else ilDeleteImage(n); mine.insert(n);
      } else { refused++; if (!oom && sel && sel->Data) failRun("C24", "clone-refused", "cloning fails although nothing went wrong (" + imgDesc(sel) + ")"); if (err.empty()) failRun("C24", "clone-silent", "cloning fails and queues no error"); }
      mine.erase(b0); // the original is nobody's to change
    } else if (o == "copyfrom") {
      ILuint src = c.slot[s.i("k") & 7]; if (!src || !b0) continue; drainErrors(); arm(s.s("f")); ILboolean ret = ilCopyImage(src); disarm(); err = drainErrors(); bool oom = W.oomFired; key = "copy";
      if (ilGetCurName() != b0 || ilGetCurImage() != sel) failRun("C24", "selection:copy", "copying changed which image is selected");
      ILimage *from = nullptr; for (auto &l : liveNames(16)) if (l.name == src) from = l.img; if (!from) failRun("C24", "source-missing", "the source of a copy is gone");
      if (ret) {
        copies++; str d = from == sel ? "" : recDiff(from, sel); if (!d.empty()) failRun("C24", "copy-differs:" + d.substr(0, d.find(' ')), "the copy has " + d + " (" + imgDesc(from) + ")");
        if (src == b0) mine.insert(b0); else if (from != sel && (sel->Next || sel->Mipmaps || sel->Faces || sel->Layers)) failRun("C24", "copy-chains", "after a copy the image still has the sub-images it had before");
      } else { refused++; mine.erase(b0); if (!oom && from->Data) failRun("C24", "copy-refused", "copying fails although nothing went wrong"); if (err.empty()) failRun("C24", "copy-silent", "copying fails and queues no error"); }
    } else {
      ILuint gone = o == "del" ? c.slot[s.i("k") & 7] : 0; if (gone) mine.insert(gone);
      Step t = s; if (t.has("oslot")) t.set("other", (long)c.slot[s.i("oslot") & 7]); Res r = runOp(t, c); mine.insert(ilGetCurName()); if (o == "slot") mine.erase(b0);
    }
    auto now = hashesOf();
    for (auto &x : was) if (!mine.count(x.first)) { if (!now.count(x.first)) failRun("C24", "other-gone:" + key, strf("image %u is gone after %s, which did not concern it", x.first, s.text().c_str())); if (now[x.first] != x.second) failRun("C24", "other-changed:" + key, strf("image %u changed during %s, which does not write to it", x.first, s.text().c_str())); }
    str sh = sharedStorage(); if (!sh.empty()) failRun("C24", "shared:" + key, sh + " after " + s.text());
  }
  SH->nontrivial = copies > 0; SH->cnt[0] += ops; SH->cnt[1] += copies; SH->cnt[2] += refused; SH->cnt[3] += compared; SH->stateHash = hashStr(snapshotImages(16), evHash);
  curOp("delete all"); for (ILuint n = 1; n < 16; n++) if (ilIsImage(n)) ilDeleteImage(n); libEnd();
}
static const char *const cntC24[] = {"operations", "copies", "refused_copies", "copies_saved_and_compared", nullptr};

// ============================================================ C26
// Settings of the two toolkits: ILUT's switches, numbers and attribute stack, ILU's filter, placement and language.
struct TSet { ILenum mode; long def; std::vector<long> ok, bad; ILuint group; bool sw, num; }; // sw: ilutEnable, num: ilutSetInteger
static const std::vector<TSet> &tSets() {
  static const std::vector<TSet> v = {
    {ILUT_PALETTE_MODE, 0, {0, 1}, {}, ILUT_OPENGL_BIT, true, false}, {ILUT_OPENGL_CONV, 0, {0, 1}, {}, ILUT_OPENGL_BIT, true, false}, {ILUT_FORCE_INTEGER_FORMAT, 0, {0, 1}, {}, 0, true, false},
    {ILUT_GL_USE_S3TC, 0, {0, 1}, {2, -1, 300}, ILUT_OPENGL_BIT, true, true}, {ILUT_GL_GEN_S3TC, 0, {0, 1}, {2, -1}, ILUT_OPENGL_BIT, true, true}, {ILUT_GL_AUTODETECT_TEXTURE_TARGET, 0, {0, 1}, {2, -1}, ILUT_OPENGL_BIT, true, true},
    {ILUT_S3TC_FORMAT, 0, {IL_DXT1, IL_DXT3, IL_DXT5}, {0, 64, IL_DXT5 + 1, 4096, -1}, 0, false, true},
    {ILUT_MAXTEX_WIDTH, 256, {1, 64, 2048}, {0, -1}, ILUT_OPENGL_BIT, false, true}, {ILUT_MAXTEX_HEIGHT, 256, {1, 32, 4096}, {0, -5}, ILUT_OPENGL_BIT, false, true}, {ILUT_MAXTEX_DEPTH, 1, {1, 2, 64}, {0, -1}, ILUT_OPENGL_BIT, false, true},
    {ILUT_D3D_MIPLEVELS, 0, {0, 1, 9}, {-1, -100}, ILUT_D3D_BIT, false, true}, {ILUT_D3D_ALPHA_KEY_COLOR, -1, {-1, 0, 0xFF00FF}, {}, ILUT_D3D_BIT, false, true}, {ILUT_D3D_POOL, 0, {0, 1, 2}, {-1, 3}, 0, false, true}};
  return v;
}
static const ILenum FILT[] = {ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL};
static const ILenum PLACE[] = {ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER};
// What out of memory, a bad parameter and a png library error start with in each language
static const struct { ILenum lang; const char *oom, *param, *png; } LANG[] = {{ILU_ENGLISH, "out of memory", "invalid parameter", "png library"}, {ILU_ARABIC, "\xD8\xAE\xD8\xA7\xD8\xB1\xD8\xAC", "\xD8\xA7\xD9\x84\xD8\xA8\xD8\xA7", "\xD8\xAE\xD8\xB7"}, {ILU_DUTCH, "Geen vrij", "Ongeldige parameter", "fout in png"}, {ILU_JAPANESE, "\xE3\x83\xA1\xE3\x83\xA2", "\xE7\x84\xA1\xE5\x8A\xB9", "png\xE3\x83\xA9"}, {ILU_SPANISH, "no queda memoria", "par", "error en la librer"}, {ILU_GERMAN, "Kein Speicher", "Unzul", "Fehler in der png"}, {ILU_FRENCH, "d\xE9passement", "param", "png : erreur"}, {ILU_ITALIAN, "raggiungendo", "parametro nullo", "png : si sbagli"}};
static bool starts(const char *t, const char *w) { return t && !strncmp(t, w, strlen(w)); }
static u64 canvasHash(int origin) { // which corner the content goes to
  ILuint was = ilGetCurName(), n = ilGenImage(); ilBindImage(n); makeImage(77, 3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, 1, 0); ilGetCurImage()->Origin = origin ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT; ilClearColour(0, 0, 0, 0);
  ILboolean ok = iluEnlargeCanvas(8, 7, 1); u64 h = ok ? imgHash(ilGetCurImage(), 1) : 1; ilBindImage(was); ilDeleteImage(n); return h;
}
static u64 scaleHash() { ILuint was = ilGetCurName(), n = ilGenImage(); ilBindImage(n); makeImage(78, 6, 5, 1, IL_RGB, IL_UNSIGNED_BYTE, 1, 0); ILboolean ok = iluScale(11, 9, 1); u64 h = ok ? imgHash(ilGetCurImage(), 1) : 1; ilBindImage(was); ilDeleteImage(n); return h; }
static Plan genC26(Rng &r, u64, bool th) {
  Plan p = startPlan(r); int n = (int)r.range(4, th ? 120 : 60); bool deep = r.chance(1, 8), others = r.chance(1, 3); int pushy = deep ? 30 : (int)r.below(4), cur = 0; if (deep) n += 60;
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(100); Step s; auto &ts = tSets(); size_t w = r.below(ts.size()); const TSet &x = ts[w];
    if (k < 8 + pushy * 2) s = Step("tpush").set("m", r.chance(1, 3) ? (long)r.below(4) : r.chance(1, 2) ? 0xFFFFFl : 1l << r.below(20));
    else if (k < 16 + pushy) s = Step("tpop");
    else if (k < 22) s = Step("lang").set("v", (long)r.below(11));
    else if (k < 30) s = Step("filter").set("v", (long)r.below(12));
    else if (k < 36) s = Step("place").set("v", (long)r.below(7));
    else if (k < 39) s = Step("canvas").set("o", (long)r.below(2));
    else if (k < 42) s = Step("scaled");
    else if (k < 46) s = Step("tbad").set("a", (long)r.below(9)).set("v", (long)r.below(1u << 16));
    else if (k < 48) s = Step("restart");
    else if (k < 58 && others) { GenOpt o; o.faultNum = 1; o.faultDen = 3; do s = genOp(r, o, cur); while (s.op == "dxtsurface" || s.op == "savepal" || s.op == "savedata"); s.set("x26", 1); if (s.op == "save") s.set("keepow", 1); }
    else { s = Step("tset").set("m", (long)w); bool bad = !x.bad.empty() && r.chance(1, 3); auto &vs = bad ? x.bad : x.ok; s.set("v", vs[r.below(vs.size())]); if (bad) s.set("bad", 1); s.set("sw", x.sw && (!x.num || (!bad && r.chance(1, 2)))); }
    p.steps.push_back(s);
  }
  return p;
}
static void execC26(const Plan &p) {
  cfgPlan(p); Ctx c; libStart(0); ilutInit(); drainErrors(); auto &ts = tSets(); typedef std::map<ILenum, long> Lv; Lv def; for (auto &x : ts) def[x.mode] = x.def; std::vector<Lv> st(1, def);
  u64 ops = 0, rej = 0, deepest = 0, looked = 0; int lang = 0; ILenum filter = ILU_NEAREST; int place = 4;
  // what the placements and filters do, each chosen on its own
  u64 canv[5][2], scal[9]; for (int i = 0; i < 5; i++) { iluImageParameter(ILU_PLACEMENT, PLACE[i]); for (int o = 0; o < 2; o++) canv[i][o] = canvasHash(o); } for (int i = 0; i < 9; i++) { iluImageParameter(ILU_FILTER, FILT[i]); scal[i] = scaleHash(); }
  for (int i = 0; i < 5; i++) for (int o = 0; o < 2; o++) for (int j = 0; j < i; j++) if (canv[i][o] == canv[j][o]) failRun("C26", "placement-same", strf("placements %x and %x enlarge the canvas in the same way", PLACE[i], PLACE[j]));
  iluImageParameter(ILU_FILTER, filter); iluImageParameter(ILU_PLACEMENT, PLACE[place]); auto err0 = drainErrors(); if (!err0.empty()) failRun("C26", "prelude-error", "choosing documented filters and placements queues error " + errText(err0));
  auto check = [&](const str &after, const str &key) {
    Lv &l = st.back();
    for (auto &x : ts) {
      long v = ilutGetInteger(x.mode), want = l[x.mode]; if (v != want) failRun("C26", strf("setting-%x:", x.mode) + key, strf("after %s ILUT setting %x reads %ld, by the model it is %ld (level %zu)", after.c_str(), x.mode, v, want, st.size()));
      if (x.sw && (ilutGetBoolean(x.mode) != (ILboolean)want || (ilutIsEnabled(x.mode) != 0) != (want != 0) || (ilutIsDisabled(x.mode) != 0) != (want == 0))) failRun("C26", strf("boolean-%x:", x.mode) + key, strf("after %s ILUT switch %x is %ld and is reported otherwise", after.c_str(), x.mode, want));
    }
    if (iluGetInteger(ILU_FILTER) != (ILint)filter) failRun("C26", "filter:" + key, strf("after %s the filter reads %x, by the model it is %x", after.c_str(), iluGetInteger(ILU_FILTER), filter));
    if (iluGetInteger(ILU_VERSION_NUM) != ILU_VERSION || ilutGetInteger(ILUT_VERSION_NUM) != ILUT_VERSION || !iluGetString(ILU_VENDOR) || !ilutGetString(ILUT_VENDOR)) failRun("C26", "version:" + key, "the version or vendor is not given");
    for (ILenum e = IL_INVALID_ENUM; e <= IL_FILE_READ_ERROR; e++) { const char *t = iluErrorString(e); if (!t || !*t) failRun("C26", "string:" + key, strf("error %x has no string in language %x", e, LANG[lang].lang)); }
    for (ILenum e = IL_LIB_GIF_ERROR; e <= IL_LIB_EXR_ERROR; e++) { const char *t = iluErrorString(e); if (!t || !*t) failRun("C26", "string:" + key, strf("error %x has no string in language %x", e, LANG[lang].lang)); }
    if (!iluErrorString(IL_NO_ERROR) || !iluErrorString(IL_UNKNOWN_ERROR)) failRun("C26", "string:" + key, "no string for no error or an unknown one");
    if (!starts(iluErrorString(IL_OUT_OF_MEMORY), LANG[lang].oom) || !starts(iluErrorString(IL_INVALID_PARAM), LANG[lang].param) || !starts(iluErrorString(IL_LIB_PNG_ERROR), LANG[lang].png)) failRun("C26", strf("language-%x:", LANG[lang].lang) + key, strf("after %s the language is %x and out of memory is \"%s\"", after.c_str(), LANG[lang].lang, iluErrorString(IL_OUT_OF_MEMORY)));
    auto e = drainErrors(); if (!e.empty()) failRun("C26", "query-error:" + key, "reading the settings queues error " + errText(e));
  };
  check("initialisation", "start");
  for (auto &s : p.steps) {
    if (s.op == "cfg") continue; curOp(s.text()); drainErrors(); ops++; Lv &l = st.back(); str key = s.op; const str &o = s.op; std::vector<int> err; long v = s.i("v"); bool other = false;
    if (s.i("x26")) { runOp(s, c); key = imgKey(s); other = true; if (o == "scale") filter = iluGetInteger(ILU_FILTER); if (o == "canvas") place = -1; }
    else if (o == "tset") {
      const TSet &x = ts[s.i("m") % ts.size()]; bool bad = s.i("bad"); key += strf("-%x", x.mode); ILboolean ret = IL_TRUE; if (s.i("sw")) ret = v ? ilutEnable(x.mode) : ilutDisable(x.mode); else ilutSetInteger(x.mode, (ILint)v); err = drainErrors();
      if (bad) { rej++; if (err.empty()) failRun("C26", "bad-value-accepted:" + key, strf("ILUT setting %x to %ld queues no error", x.mode, v)); } else { if (!err.empty() || !ret) failRun("C26", "value-rejected:" + key, strf("ILUT setting %x to %ld is rejected", x.mode, v)); l[x.mode] = v; }
    } else if (o == "tpush") {
      ILuint m = (ILuint)s.i("m"); ilutPushAttrib(m); err = drainErrors();
      if (st.size() >= 32) { rej++; if (!hasErr(err, ILUT_STACK_OVERFLOW)) failRun("C26", "overflow-silent", "pushing onto ILUT's full stack queues no overflow error"); }
      else { if (!err.empty()) failRun("C26", "push-error", "pushing ILUT attributes queues error " + errText(err)); Lv d = def; for (auto &x : ts) if (x.group & m) d[x.mode] = l[x.mode]; st.push_back(d); deepest = std::max<u64>(deepest, st.size()); }
    } else if (o == "tpop") {
      ilutPopAttrib(); err = drainErrors();
      if (st.size() == 1) { rej++; if (!hasErr(err, ILUT_STACK_UNDERFLOW)) failRun("C26", "underflow-silent", "popping ILUT's empty stack queues no underflow error"); } else { if (!err.empty()) failRun("C26", "pop-error", "popping ILUT attributes queues error " + errText(err)); st.pop_back(); }
    } else if (o == "lang") {
      bool bad = v >= 8; ILboolean ret = iluSetLanguage(bad ? (ILenum)(ILU_ENGLISH + (v == 8 ? -1 : v == 9 ? 8 : 0x1000)) : LANG[v].lang); err = drainErrors(); if (bad ? ret || err.empty() : !ret || !err.empty()) failRun("C26", "language-answer", bad ? "an unknown language is not rejected" : "a documented language is rejected"); if (bad) rej++; else lang = (int)v;
    } else if (o == "filter") {
      bool bad = v >= 9; iluImageParameter(ILU_FILTER, bad ? (ILenum)(v == 9 ? 0 : v == 10 ? ILU_CENTER : ILU_SCALE_MITCHELL + 1) : FILT[v]); err = drainErrors(); if (bad == err.empty()) failRun("C26", "filter-answer", bad ? "an unknown filter is not rejected" : "a documented filter is rejected"); if (bad) rej++; else filter = FILT[v];
    } else if (o == "place") {
      bool bad = v >= 5; iluImageParameter(ILU_PLACEMENT, bad ? (ILenum)(v == 5 ? 0 : ILU_NEAREST) : PLACE[v]); err = drainErrors(); if (bad == err.empty()) failRun("C26", "placement-answer", bad ? "an unknown placement is not rejected" : "a documented placement is rejected"); if (bad) rej++; else place = (int)v;
    } else if (o == "canvas") { looked++; int q = (int)s.i("o") & 1; u64 h = canvasHash(q); if (place >= 0 && h != canv[place][q]) failRun("C26", strf("canvas-%x", PLACE[place]), strf("the placement is %x and enlarging the canvas puts the image elsewhere", PLACE[place])); }
    else if (o == "scaled") { looked++; int q = 0; while (q < 8 && FILT[q] != filter) q++; if (scaleHash() != scal[q]) failRun("C26", strf("scaled-%x", filter), strf("the filter is %x and scaling gives something else", filter)); }
    else if (o == "tbad") {
      ILenum m = 0x30000 + (ILenum)v; long ret = 0; rej++; ILint q = 5; ILboolean b = 1;
      switch (s.i("a") % 9) { case 0: ret = ilutEnable(m); break; case 1: ret = ilutDisable(m); break; case 2: ilutSetInteger(m, 1); break; case 3: ilutGetIntegerv(m, &q); ret = q != 5; break; case 4: ret = ilutGetString(m) != nullptr; break; case 5: iluGetIntegerv(m, &q); ret = q != 5; break; case 6: ret = iluGetString(m) != nullptr; break; case 7: iluImageParameter(m, ILU_NEAREST); break; default: ret = ilutRenderer(m); (void)b; }
      err = drainErrors(); if (ret || err.empty()) failRun("C26", strf("bad-name-accepted-%ld", s.i("a") % 9), "an unknown name is not rejected"); if (err.size() != 1) failRun("C26", strf("bad-name-errors-%ld", s.i("a") % 9), "an unknown name queues " + errText(err));
    } else if (o == "restart") { ilShutDown(); ilInit(); iluInit(); installIO(0); drainErrors(); c = Ctx(); lang = 0; }
    (void)other; drainErrors(); check(s.text(), key);
  }
  while (st.size() > 1) { curOp("unwind"); ilutPopAttrib(); st.pop_back(); check("unwinding", "unwind"); }
  u64 h = evHash; for (auto &x : st.back()) h = h * 1000003 + (u64)x.second; SH->nontrivial = ops > 3; SH->cnt[0] += ops; SH->cnt[1] += rej; SH->cnt[2] += deepest > 20; SH->cnt[3] += looked; SH->stateHash = h * 31 + filter * 7 + (u64)(place + 1) * 3 + (u64)lang;
}
static const char *const cntC26[] = {"operations", "rejected", "deep_stacks", "effects_looked_at", nullptr};

Scenario scC12() { return {"C12", "exploration", "run = history of generating, binding, deleting and cloning names, creating and selecting frames, mipmaps, faces and layers, operations on the content, and restarts, with refused allocations; names, counts, selection and the whole structure of every image compared with a model after each call; distinct by event-log and image hashes", [](bool t) { return (u64)(t ? 1000000 : 60000); }, genC12, execC12, cntC12}; }
Scenario scC13() { return {"C13", "exploration", "run = history of valid and invalid settings, pushes and pops (also beyond the documented depth), strings, other library calls and restarts, with refused allocations; all settings compared with a model after each call; distinct by event-log and settings hashes", [](bool t) { return (u64)(t ? 1000000 : 75000); }, genC13, execC13, cntC13}; }
Scenario scC18() { return {"C18", "exploration", "run = history of registrations, removals, loads and saves by name with handlers that answer, refuse, use the library or remove themselves, with refused allocations; calls and answers compared with a model; distinct by event-log hash", [](bool t) { return (u64)(t ? 1000000 : 60000); }, genC18, execC18, cntC18}; }
Scenario scC24() { return {"C24", "exploration", "run = history of cloning and copying images among several names (sub-images selected at times) mixed with every kind of operation, loads, saves and deletions, with refused allocations; copies compared with their originals field by field, byte by byte and through the savers, all other images and the storage of all compared after each call; distinct by event-log and image hashes", [](bool t) { return (u64)(t ? 1000000 : 40000); }, genC24, execC24, cntC24}; }
Scenario scC26() { return {"C26", "exploration", "run = history of ILUT switches and numbers, pushes and pops (also beyond the documented depth), ILU filters, placements and languages, valid and invalid, mixed with faulted library calls and restarts; everything readable and the effect of filter and placement compared with a model after each call; distinct by event-log and settings hashes", [](bool t) { return (u64)(t ? 600000 : 40000); }, genC26, execC26, cntC26}; }
