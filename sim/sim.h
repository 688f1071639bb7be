// Simulated environment for DevIL: disk, handles, allocator, clock, faults; plus plan/run infrastructure.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <IL/il.h>
#include <IL/ilu.h>
#include <IL/ilut.h>
#include <IL/devil_internal_exports.h>
extern "C" {
ILAPI ILubyte *ILAPIENTRY ilGetPalette(void);
}
#undef assert
typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef std::string str;
typedef std::vector<u8> Bytes;

// ---------- random ----------
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  // log-ish distribution 0..max
  u64 skewed(u64 max) { if (!max) return 0; int bits = 1; while ((max >> bits) != 0) bits++; u64 m = (1ull << range(0, bits)) ; u64 v = below(m ? m : 1); return v > max ? below(max + 1) : v; }
};
u64 mix(u64 a, u64 b);
u64 hashBytes(const void *p, size_t n, u64 h = 1469598103934665603ull);
u64 hashStr(const str &s, u64 h = 1469598103934665603ull);

// ---------- plan ----------
struct Step {
  str op;
  std::map<str, str> kv;
  Step() {}
  Step(const str &o) : op(o) {}
  Step &set(const str &k, const str &v) { kv[k] = v; return *this; }
  Step &set(const str &k, long v) { kv[k] = std::to_string(v); return *this; }
  str s(const str &k, const str &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  long i(const str &k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
  bool has(const str &k) const { return kv.count(k) != 0; }
  str text() const;
};
struct Plan {
  std::vector<Step> steps;
  str text() const;
  static Plan parse(const str &t);
};

// ---------- faults ----------
enum FaultKind { F_NONE, R_TRUNC, R_FAIL, R_FAILP, R_SHORT, R_SEEK, R_SEEKP, R_OPEN, W_FAIL, W_FAILP, W_SPACE, W_SHORT, W_SEEK, W_SEEKP, W_CLOSE, W_OPEN, A_FAIL, A_FROM, A_BIG, F_COUNT };
extern const char *faultName[F_COUNT];
struct Fault { FaultKind k; long n; };
std::vector<Fault> parseFaults(const str &s);

// ---------- simulated world ----------
struct Handle {
  int id; str name; bool write; bool caller; bool open; bool cb; FILE *fp; long pos; long visible; // visible: length seen by readers
  bool invalidated;
};
struct Violation { str prop, key, msg; };
struct Block { size_t size; u64 serial; u32 tag; };  // tag: index of the operation that allocated it

struct World {
  std::map<str, Bytes> disk;
  int bufMode = 0;     // 0 libc default buffer, 1 unbuffered, 2 16-byte buffer
  long chunk = 0;      // largest piece a read of the simulated disk returns (0: all)
  int fillMode = 0; u8 fill = 0xCD; u64 fillState = 1;
  long clock = 1000000000; u64 randState = 12345; long randCalls = 0, timeCalls = 0;
  long jitter = 0; long cmsLive = 0;
  // counters of the current step
  std::vector<Fault> faults;
  long nRead = 0, nSeekR = 0, nOpenR = 0, nWrite = 0, nSeekW = 0, nOpenW = 0, nClose = 0, nAlloc = 0; long wroteBytes = 0;
  bool fired[F_COUNT] = {0};
  bool anyFired() const { for (int i = 1; i < F_COUNT; i++) if (fired[i]) return true; return false; }
  bool touchedTrunc = false;
  // totals
  u64 totOps = 0, opBudget = 3000000; u64 stepOps = 0;
  u64 firedTotal[F_COUNT] = {0};
  std::vector<Handle *> handles;
  std::map<FILE *, Handle *> byFp;
  std::unordered_map<const void *, Block> blocks;
  std::unordered_map<const void *, int> freed;
  u64 allocSerial = 0; size_t liveBytes = 0, peakBytes = 0;
  bool oomFired = false; bool hugeRefused = false;
  std::vector<Violation> soft;  // problems noted by the environment (handles, allocator), judged by the scenario
  std::vector<str> writesTo;    // names opened for writing
  std::vector<str> opTags;      // operations in order
};
extern World W;
void simReset();
void arm(const str &faults);   // start a step
void disarm();
void note(const char *prop, const str &key, const str &msg);

Handle *simOpenHandle(const str &name, bool write, bool caller, bool cb);
void *handlePtr(Handle *h);    // what is passed to DevIL as ILHANDLE
long simHandlePos(Handle *h);  // logical position as the library's caller sees it
void simSeekHandle(Handle *h, long pos);
void simFinishHandle(Handle *h); // caller closes
void installIO(int io);        // 0 default stdio, 1 user callbacks
void installAlloc();
int openLibHandles();          // handles opened by the library still open
size_t directBlocks();         // blocks the library took from malloc itself

// ---------- event log ----------
extern bool traceOn;
extern u64 evHash; extern u64 evCount;
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------- child <-> parent ----------
struct Shared {
  volatile int done; int viol; char prop[8]; char key[200]; char msg[1200];
  u64 hash, events, ops, allocs, stateHash; u64 fired[F_COUNT]; u64 nontrivial; char tag[64]; char opname[160];
  u64 cnt[16];
};
extern Shared *SH;
[[noreturn]] void failRun(const str &prop, const str &key, const str &msg);
[[noreturn]] void endRun();
void curOp(const str &s);      // remembered for crash reports
typedef std::map<str, str> KV;
// runs f in a forked copy of the pristine process; returns its output lines. crash -> ok=false
struct FreshResult { bool ok; str out; str err; };
FreshResult runFresh(const std::function<str()> &f);
str strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
