// The simulated environment: every source of nondeterminism DevIL can see is decided here.
#include "sim.h"
#include <lcms2.h>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <stdexcept>

World W;
bool traceOn = false;
u64 evHash = 1469598103934665603ull, evCount = 0;
Shared *SH = nullptr;
str curProp = "C00";
const char *faultName[F_COUNT] = {"none", "rtrunc", "rfail", "rfailp", "rshort", "rseek", "rseekp", "ropen", "wfail", "wfailp", "wspace", "wshort", "wseek", "wseekp", "wclose", "wopen", "afail", "afrom", "abig"};

u64 mix(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x1234567)); r.next(); return r.next(); }
u64 hashBytes(const void *p, size_t n, u64 h) {
  const u8 *b = (const u8 *)p;
  while (n >= 8) { u64 v; memcpy(&v, b, 8); h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; b += 8; n -= 8; }
  while (n--) { h = (h ^ *b++) * 0x100000001b3ull; h ^= h >> 29; }
  return h;
}
u64 hashStr(const str &s, u64 h) { return hashBytes(s.data(), s.size(), h); }
str strf(const char *fmt, ...) {
  char buf[4096]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a); return buf;
}
void ev(const char *fmt, ...) {
  char buf[1024]; va_list a; va_start(a, fmt); int n = vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  evHash = hashBytes(buf, n, evHash); evCount++;
  if (traceOn) fprintf(stderr, "  %6llu %s\n", (unsigned long long)evCount, buf);
}
std::vector<Fault> parseFaults(const str &s) {
  std::vector<Fault> out; size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find(',', p); if (e == str::npos) e = s.size();
    str t = s.substr(p, e - p); size_t c = t.find(':');
    str k = t.substr(0, c); long n = c == str::npos ? 0 : atol(t.c_str() + c + 1);
    for (int i = 1; i < F_COUNT; i++) if (k == faultName[i]) out.push_back({(FaultKind)i, n});
    p = e + 1;
  }
  return out;
}
void note(const char *prop, const str &key, const str &msg) {
  ev("note %s %s", prop, key.c_str());
  if (W.soft.size() < 200) W.soft.push_back({prop, key, msg});
}
void simReset() { W = World(); evHash = 1469598103934665603ull; evCount = 0; }
// what a call finds in its local variables before it sets them is part of the simulated environment
static __attribute__((noinline, no_sanitize_address)) void smearStack() { volatile u8 b[60000]; memset((void *)b, W.fillMode == 2 ? 0xCD : W.fill, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
void arm(const str &f) {
  smearStack();
  W.faults = parseFaults(f);
  W.nRead = W.nSeekR = W.nOpenR = W.nWrite = W.nSeekW = W.nOpenW = W.nClose = W.nAlloc = 0; W.wroteBytes = 0;
  memset(W.fired, 0, sizeof W.fired); W.touchedTrunc = false; W.oomFired = W.hugeRefused = false; W.stepOps = 0;
}
void disarm() { W.faults.clear(); }
static void fire(FaultKind k) { W.fired[k] = true; W.firedTotal[k]++; if (SH) SH->fired[k]++; ev("fault %s", faultName[k]); }
static bool fault1(FaultKind once, FaultKind pers, long n) {
  for (auto &f : W.faults) {
    if (f.k == once && n == f.n) { fire(once); return true; }
    if (f.k == pers && pers != F_NONE && n >= f.n) { fire(pers); return true; }
  }
  return false;
}
static void op() {
  W.totOps++; W.stepOps++; if (SH) SH->ops++;
  if (W.totOps > W.opBudget) failRun(curProp, "unbounded-io", strf("more than %llu stream operations without the run ending", (unsigned long long)W.opBudget));
}
static Bytes &fileOf(Handle *h) { return W.disk[h->name]; }

// ---------- raw operations on simulated files ----------
static long rawRead(Handle *h, void *buf, long n) {   // returns bytes or -1
  op();
  long k = ++W.nRead;
  if (fault1(R_FAIL, R_FAILP, k)) { ev("read h%d @%ld n=%ld -> EIO", h->id, h->pos, n); errno = EIO; return -1; }
  long avail = h->visible - h->pos; if (avail < 0) avail = 0;
  long got = n < avail ? n : avail;
  if (W.chunk && got > W.chunk) got = W.chunk;
  if (got > 1) for (auto &f : W.faults) if (f.k == R_SHORT && k == f.n) { fire(R_SHORT); got = got / 2; }
  if (n > avail && h->visible < (long)fileOf(h).size() && !W.fired[R_TRUNC]) { fire(R_TRUNC); W.touchedTrunc = true; }
  memcpy(buf, fileOf(h).data() + h->pos, got); h->pos += got;
  ev("read h%d @%ld n=%ld -> %ld", h->id, h->pos - got, n, got);
  return got;
}
static long rawWrite(Handle *h, const void *buf, long n) { // returns bytes stored (short on fault)
  op();
  long k = ++W.nWrite;
  if (fault1(W_FAIL, W_FAILP, k)) { ev("write h%d n=%ld -> EIO", h->id, n); errno = EIO; return 0; }
  long can = n;
  for (auto &f : W.faults) {
    if (f.k == W_SPACE) { long room = f.n - W.wroteBytes; if (room < 0) room = 0; if (room < can) { can = room; fire(W_SPACE); errno = ENOSPC; } }
    if (f.k == W_SHORT && k == f.n && can > 0) { can = can / 2; fire(W_SHORT); errno = ENOSPC; }
  }
  Bytes &b = fileOf(h);
  if (h->pos + can > (1l << 26)) { can = 0; errno = ENOSPC; W.hugeRefused = true; ev("disk limit"); }
  if ((long)b.size() < h->pos + can) b.resize(h->pos + can);
  memcpy(b.data() + h->pos, buf, can); h->pos += can; W.wroteBytes += can;
  ev("write h%d @%ld n=%ld -> %ld #%llx", h->id, h->pos - can, n, can, (unsigned long long)hashBytes(buf, can));
  return can;
}
static int rawSeek(Handle *h, long off, int whence, bool counted) {
  op();
  if (counted) {
    if (h->write ? fault1(W_SEEK, W_SEEKP, ++W.nSeekW) : fault1(R_SEEK, R_SEEKP, ++W.nSeekR)) { ev("seek h%d -> EIO", h->id); errno = EIO; return -1; }
  }
  long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : (h->write ? (long)fileOf(h).size() : h->visible);
  if (whence == SEEK_END && !h->write && h->visible < (long)fileOf(h).size() && !W.fired[R_TRUNC]) { fire(R_TRUNC); W.touchedTrunc = true; }
  long np = base + off;
  if (np < 0) { ev("seek h%d %ld/%d -> EINVAL", h->id, off, whence); errno = EINVAL; return -1; }
  h->pos = np; ev("seek h%d %ld/%d -> %ld", h->id, off, whence, np);
  return 0;
}
static Handle *openRaw(const str &name, bool write, bool caller, bool cb) {
  Handle *h = new Handle(); h->id = (int)W.handles.size(); h->name = name; h->write = write; h->caller = caller; h->open = true; h->cb = cb; h->fp = nullptr; h->pos = 0; h->invalidated = false;
  if (write) W.disk[name].clear();
  h->visible = write ? 0 : (long)W.disk[name].size();
  if (!write) for (auto &f : W.faults) if (f.k == R_TRUNC && f.n < h->visible) h->visible = f.n;
  W.handles.push_back(h);
  ev("open h%d %s %s%s", h->id, name.c_str(), write ? "w" : "r", caller ? " caller" : "");
  return h;
}
static void closeRaw(Handle *h) { h->open = false; ev("close h%d", h->id); }

// ---------- stdio on simulated files ----------
static ssize_t ck_read(void *c, char *b, size_t n) { return rawRead((Handle *)c, b, (long)n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { return rawWrite((Handle *)c, b, (long)n); }
static int ck_seek(void *c, off64_t *o, int wh) {
  Handle *h = (Handle *)c;
  bool tell = (wh == SEEK_CUR && *o == 0);
  if (rawSeek(h, (long)*o, wh, !tell)) return -1;
  *o = h->pos; return 0;
}
static int ck_close(void *c) { closeRaw((Handle *)c); return 0; }
static FILE *makeFile(Handle *h) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(h, h->write ? "w" : "r", io);
  if (W.bufMode == 1) setvbuf(fp, nullptr, _IONBF, 0);
  if (W.bufMode == 2) { static std::vector<char *> bufs; char *b = (char *)malloc(16); bufs.push_back(b); setvbuf(fp, b, _IOFBF, 16); }
  h->fp = fp; W.byFp[fp] = h; return fp;
}
static Handle *live(FILE *fp, const char *what) {
  auto i = W.byFp.find(fp);
  if (i == W.byFp.end()) { note("C08", strf("%s-on-closed-handle", what), strf("%s on a handle that is not open", what)); return nullptr; }
  return i->second;
}
static long closeFault() { for (auto &f : W.faults) if (f.k == W_CLOSE) return f.n; return -1; }

extern "C" {
FILE *sim_fopen(const char *name, const char *mode) {
  op();
  if (!name) { note("C08", "open-null", "opening a null name"); errno = EINVAL; return nullptr; }
  bool w = mode[0] == 'w' || mode[0] == 'a';
  if (w) {
    if (fault1(W_OPEN, F_NONE, ++W.nOpenW)) { ev("open %s w -> EACCES", name); errno = EACCES; return nullptr; }
    W.writesTo.push_back(name);
  } else {
    ++W.nOpenR;
    if (!W.disk.count(name)) { ev("open %s r -> ENOENT", name); errno = ENOENT; return nullptr; }
    if (fault1(R_OPEN, F_NONE, W.nOpenR)) { ev("open %s r -> EIO", name); errno = EIO; return nullptr; }
  }
  if (mode[0] == 'a') { Bytes keep = W.disk[name]; Handle *h = openRaw(name, true, false, false); W.disk[name] = keep; h->pos = keep.size(); return makeFile(h); }
  return makeFile(openRaw(name, w, false, false));
}
FILE *sim_fopen64(const char *n, const char *m) { return sim_fopen(n, m); }
int sim_fclose(FILE *fp) {
  op();
  Handle *h = live(fp, "fclose"); if (!h) return EOF;
  if (h->caller) { note("C08", "library-closed-caller-handle", "the library closed a handle it was given: " + h->name); }
  ++W.nClose;
  bool wasWrite = h->write; str name = h->name; long cut = wasWrite ? closeFault() : -1;
  W.byFp.erase(fp); h->fp = nullptr;
  int r = fclose(fp);
  if (cut >= 0) { fire(W_CLOSE); Bytes &b = W.disk[name]; b.resize(b.size() > (size_t)cut ? b.size() - cut : 0); errno = EIO; return EOF; }
  return r;
}
size_t sim_fread(void *b, size_t s, size_t n, FILE *fp) { op(); return live(fp, "fread") ? fread(b, s, n, fp) : 0; }
int sim_fgetc(FILE *fp) { op(); return live(fp, "fgetc") ? fgetc(fp) : EOF; }
int sim_getc(FILE *fp) { return sim_fgetc(fp); }
char *sim_fgets(char *b, int n, FILE *fp) { return live(fp, "fgets") ? fgets(b, n, fp) : nullptr; }
int sim_ungetc(int c, FILE *fp) { return live(fp, "ungetc") ? ungetc(c, fp) : EOF; }
int sim_feof(FILE *fp) { return live(fp, "feof") ? feof(fp) : 1; }
int sim_ferror(FILE *fp) { return live(fp, "ferror") ? ferror(fp) : 1; }
int sim_fseek(FILE *fp, long o, int w) { if (!live(fp, "fseek")) return -1; op(); return fseek(fp, o, w); }
int sim_fseeko(FILE *fp, off_t o, int w) { return sim_fseek(fp, o, w); }
long sim_ftell(FILE *fp) { if (!live(fp, "ftell")) return -1; op(); return ftell(fp); }
off_t sim_ftello(FILE *fp) { return sim_ftell(fp); }
void sim_rewind(FILE *fp) { if (live(fp, "rewind")) rewind(fp); }
int sim_fputc(int c, FILE *fp) { op(); return live(fp, "fputc") ? fputc(c, fp) : EOF; }
int sim_putc(int c, FILE *fp) { return sim_fputc(c, fp); }
int sim_fputs(const char *s, FILE *fp) { return live(fp, "fputs") ? fputs(s, fp) : EOF; }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *fp) { op(); return live(fp, "fwrite") ? fwrite(b, s, n, fp) : 0; }
int sim_fprintf(FILE *fp, const char *f, ...) {
  if (fp == stderr || fp == stdout) return 0;
  if (!live(fp, "fprintf")) return -1;
  va_list a; va_start(a, f); int r = vfprintf(fp, f, a); va_end(a); return r;
}
int sim_fflush(FILE *fp) { return fp && live(fp, "fflush") ? fflush(fp) : 0; }
FILE *sim_tmpfile(void) { return nullptr; }
int sim_remove(const char *n) { ev("remove %s", n); note("C15", "removed-file", str("the library removed ") + n); W.disk.erase(n); return 0; }
int sim_unlink(const char *n) { return sim_remove(n); }
int sim_rename(const char *a, const char *b) { ev("rename %s %s", a, b); if (!W.disk.count(a)) return -1; W.disk[b] = W.disk[a]; W.disk.erase(a); W.writesTo.push_back(b); return 0; }
int sim_open(const char *, int, ...) { errno = ENOENT; return -1; }
int sim_creat(const char *, int) { errno = EACCES; return -1; }

// ---------- clock, randomness ----------
time_t sim_time(time_t *t) { W.timeCalls++; W.clock += 1; if (t) *t = W.clock; ev("time"); return W.clock; }
struct tm *sim_localtime(const time_t *t) { static struct tm tmv; gmtime_r(t, &tmv); return &tmv; }
void sim_srand(unsigned s) { W.randState = mix(W.randState, s); }
int sim_rand(void) { W.randCalls++; Rng r(W.randState); int v = (int)(r.next() & RAND_MAX); W.randState = r.s; return v; }
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned s) { sim_srand(s); }
} // extern C

// ---------- memory ----------
static void fillBlock(u8 *p, size_t n) {
  switch (W.fillMode) {
  case 0: memset(p, W.fill, n); break;
  default: { Rng r(mix(W.fillState, W.allocSerial)); for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) r.next(); p[i] = (u8)(r.s >> (8 * (i & 7))); } }
  }
}
static void *rawAlloc(size_t n, bool faultable) {
  long k = 0;
  if (faultable) {
    k = ++W.nAlloc; if (SH) SH->allocs++;
    if (W.allocSerial > 3000000) failRun(curProp, "unbounded-alloc", "more than 3000000 allocations in one run");
    bool f = fault1(A_FAIL, A_FROM, k);
    if (!f) for (auto &x : W.faults) if (x.k == A_BIG && n > (size_t)x.n) { fire(A_BIG); f = true; break; }
    if (f) { W.oomFired = true; ev("alloc %zu -> NULL (fault)", n); return nullptr; }
  }
  if (n > (256u << 20) || W.liveBytes + n > (700u << 20)) { W.hugeRefused = true; ev("alloc %zu -> NULL (limit)", n); return nullptr; }
  size_t pre = W.jitter ? (size_t)(mix(W.jitter, W.allocSerial) % 97) : 0;
  void *pad = pre ? malloc(pre) : nullptr;
  u8 *p = (u8 *)malloc(n ? n : 1);
  if (pad) free(pad);
  fillBlock(p, n ? n : 1);
  W.freed.erase(p);
  return p;
}
static void *ILAPIENTRY cbAlloc(const ILsizei n) {
  void *p = rawAlloc(n, true);
  if (p) { W.blocks[p] = {n, ++W.allocSerial, (u32)W.opTags.size()}; W.liveBytes += n; if (W.liveBytes > W.peakBytes) W.peakBytes = W.liveBytes; ev("alloc %zu #%llu", (size_t)n, (unsigned long long)W.allocSerial); }
  return p;
}
static std::unordered_map<const void *, size_t> direct;
static void ILAPIENTRY cbFree(const void *p) {
  if (!p) { note("C07", "free-null", "the free callback was given a null pointer"); return; }
  auto i = W.blocks.find(p);
  if (i == W.blocks.end()) {
    if (direct.count(p)) note("C07", "foreign-free", "a block that did not come from the allocation callback was handed to the free callback");
    else note("C07", "double-free", "a block was handed to the free callback that is not outstanding");
    return;
  }
  ev("free #%llu", (unsigned long long)i->second.serial);
  W.liveBytes -= i->second.size; W.blocks.erase(i); free((void *)p);
}
extern "C" {
void *sim_malloc(size_t n) { void *p = rawAlloc(n, true); if (p) direct[p] = n; return p; }
void *sim_calloc(size_t a, size_t b) { void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void sim_free(void *p) {
  if (!p) return;
  if (W.blocks.count(p)) { note("C07", "mismatched-free", "a block from the allocation callback was released with free()"); cbFree(p); return; }
  direct.erase(p); free(p);
}
void *sim_realloc(void *p, size_t n) {
  if (W.blocks.count(p)) note("C07", "mismatched-free", "a block from the allocation callback was given to realloc()");
  void *q = sim_malloc(n); if (!q) return nullptr;
  if (p) { size_t o = direct.count(p) ? direct[p] : n; memcpy(q, p, o < n ? o : n); sim_free(p); }
  return q;
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
}
// ---------- colour management: the library is real, profiles come from the simulated disk and what is opened is counted ----------
extern "C" {
void *sim_cmsOpenProfileFromFile(const char *name, const char *mode) {
  FILE *fp = sim_fopen(name, mode); if (!fp) return nullptr; Bytes d; u8 b[512]; size_t k; while ((k = fread(b, 1, sizeof b, fp)) > 0) d.insert(d.end(), b, b + k); bool bad = ferror(fp); sim_fclose(fp);
  cmsHPROFILE h = bad || d.empty() ? nullptr : cmsOpenProfileFromMem(d.data(), (cmsUInt32Number)d.size()); if (h) W.cmsLive++; return h;
}
void *sim_cmsOpenProfileFromMem(const void *p, u32 n) { cmsHPROFILE h = cmsOpenProfileFromMem(p, n); if (h) W.cmsLive++; return h; }
int sim_cmsCloseProfile(void *h) { W.cmsLive--; return cmsCloseProfile(h); }
void *sim_cmsCreateTransform(void *a, u32 f, void *b, u32 g, u32 i, u32 fl) { void *t = cmsCreateTransform(a, f, b, g, i, fl); if (t) W.cmsLive++; return t; }
void sim_cmsDeleteTransform(void *t) { W.cmsLive--; cmsDeleteTransform(t); }
}
size_t directBlocks() { return direct.size(); }
void installAlloc() { ilSetMemory(cbAlloc, cbFree); }

// ---------- user callbacks ----------
static Handle *liveCb(ILHANDLE p, const char *what) {
  for (auto h : W.handles) if (h == (Handle *)p) {
    if (h->open) return h;
    note("C08", strf("%s-on-closed-handle", what), strf("callback %s called with a handle that was closed", what)); return nullptr;
  }
  note("C08", strf("%s-on-foreign-handle", what), strf("callback %s called with a value that is not an open handle", what)); return nullptr;
}
static ILHANDLE ILAPIENTRY cbOpenR(ILconst_string n) {
  op(); ++W.nOpenR;
  if (!n || !W.disk.count(n)) { ev("cb open %s -> none", n ? n : "(null)"); return nullptr; }
  if (fault1(R_OPEN, F_NONE, W.nOpenR)) return nullptr;
  return openRaw(n, false, false, true);
}
static void ILAPIENTRY cbClose(ILHANDLE p) {
  op(); Handle *h = liveCb(p, "close"); if (!h) return;
  if (h->caller) note("C08", "library-closed-caller-handle", "the library closed a handle it was given: " + h->name);
  ++W.nClose; closeRaw(h);
}
static ILboolean ILAPIENTRY cbEof(ILHANDLE p) { op(); Handle *h = liveCb(p, "eof"); return !h || h->pos >= h->visible; }
static ILint ILAPIENTRY cbGetc(ILHANDLE p) { Handle *h = liveCb(p, "getc"); u8 c; if (!h || rawRead(h, &c, 1) != 1) return -1; return c; }
static ILint ILAPIENTRY cbRead(void *b, ILuint s, ILuint n, ILHANDLE p) {
  Handle *h = liveCb(p, "read"); if (!h || !s || !n) return 0;
  u64 want = (u64)s * n; if (want > (1u << 30)) want = 1u << 30;
  long have = h->visible - h->pos; if (have < 0) have = 0;
  long got = 0;
  while (got < (long)want) { // like fread: pieces are put together, an error or the end stops
    long k = rawRead(h, (u8 *)b + got, (long)want - got); if (k <= 0) break; got += k;
    if (W.fired[R_SHORT]) break;
  }
  return (ILint)(got / s);
}
static ILint ILAPIENTRY cbSeek(ILHANDLE p, ILint o, ILint m) { Handle *h = liveCb(p, "seek"); return h ? rawSeek(h, o, m, true) : -1; }
static ILint ILAPIENTRY cbTell(ILHANDLE p) { op(); Handle *h = liveCb(p, "tell"); return h ? (ILint)h->pos : -1; }
static ILHANDLE ILAPIENTRY cbOpenW(ILconst_string n) {
  op();
  if (!n) return nullptr;
  if (fault1(W_OPEN, F_NONE, ++W.nOpenW)) return nullptr;
  W.writesTo.push_back(n);
  return openRaw(n, true, false, true);
}
static ILint ILAPIENTRY cbPutc(ILubyte c, ILHANDLE p) { Handle *h = liveCb(p, "putc"); return h && rawWrite(h, &c, 1) == 1 ? c : -1; }
static ILint ILAPIENTRY cbWrite(const void *b, ILuint s, ILuint n, ILHANDLE p) {
  Handle *h = liveCb(p, "write"); if (!h || !s || !n) return 0;
  return (ILint)(rawWrite(h, b, (long)s * n) / s);
}
void installIO(int io) {
  if (io == 1) { ilSetRead(cbOpenR, cbClose, cbEof, cbGetc, cbRead, cbSeek, cbTell); ilSetWrite(cbOpenW, cbClose, cbPutc, cbSeek, cbTell, cbWrite); }
  else { ilResetRead(); ilResetWrite(); }
}
Handle *simOpenHandle(const str &name, bool write, bool caller, bool cb) {
  Handle *h = openRaw(name, write, caller, cb);
  if (!cb) makeFile(h);
  return h;
}
void *handlePtr(Handle *h) { return h->cb ? (void *)h : (void *)h->fp; }
long simHandlePos(Handle *h) { if (h->cb || !h->fp) return h->pos; return ftell(h->fp); }
void simSeekHandle(Handle *h, long pos) { auto keep = W.faults; W.faults.clear(); if (h->cb) h->pos = pos; else fseek(h->fp, pos, SEEK_SET); W.faults = keep; W.nSeekR = W.nSeekW = 0; }
void simFinishHandle(Handle *h) {
  if (!h->open) return;
  if (h->cb) closeRaw(h); else { W.byFp.erase(h->fp); fclose(h->fp); h->fp = nullptr; }
}
int openLibHandles() { int n = 0; for (auto h : W.handles) if (h->open && !h->caller) n++; return n; }

// ---------- plan text ----------
str Step::text() const { str t = op; for (auto &p : kv) t += " " + p.first + "=" + (p.second.empty() ? "-" : p.second); return t; }
str Plan::text() const { str t; for (auto &s : steps) t += s.text() + "\n"; return t; }
Plan Plan::parse(const str &t) {
  Plan p; size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == str::npos) e = t.size();
    str line = t.substr(i, e - i); i = e + 1;
    if (line.empty() || line[0] == '#') continue;
    Step s; size_t q = line.find(' '); s.op = line.substr(0, q);
    while (q != str::npos) {
      size_t b = q + 1; q = line.find(' ', b); str tok = line.substr(b, q == str::npos ? str::npos : q - b);
      size_t c = tok.find('='); if (c != str::npos) { str v = tok.substr(c + 1); s.kv[tok.substr(0, c)] = v == "-" ? "" : v; }
    }
    p.steps.push_back(s);
  }
  return p;
}
