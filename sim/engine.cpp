// Seeded search: plans are generated from seeds, each executed in a forked copy of the pristine process,
// violations are minimised, re-run and written as replay files.
#include "sim.h"
#include "scen.h"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

extern str curProp;
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:symbolize=1:malloc_context_size=6:max_malloc_fill_size=0:detect_stack_use_after_return=0:quarantine_size_mb=16:print_legend=0:print_full_thread_history=0:intercept_strlen=1:strict_string_checks=0:color=never:detect_odr_violation=0:max_allocation_size_mb=2048";
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void cpuExpired(int) {
  if (SH && !SH->done) {
    SH->viol = 1; snprintf(SH->prop, sizeof SH->prop, "%s", curProp.c_str());
    snprintf(SH->key, sizeof SH->key, "hang"); snprintf(SH->msg, sizeof SH->msg, "a library call did not return within the processor time budget (%s)", SH->opname);
    SH->hash = 0; SH->done = 1;
  }
  _exit(0);
}
void curOp(const str &s) { if (SH) snprintf(SH->opname, sizeof SH->opname, "%s", s.c_str()); W.opTags.push_back(s); ev("op %s", s.c_str()); }
static str normKey(const str &k) { str o; for (char c : k) o += (c == ' ' || c == '\n' || c == '\t') ? '-' : c; return o; }
void failRun(const str &prop, const str &key, const str &msg) {
  if (!SH->done) {
    ev("violation %s %s", prop.c_str(), key.c_str());
    SH->viol = 1; snprintf(SH->prop, sizeof SH->prop, "%s", prop.c_str());
    snprintf(SH->key, sizeof SH->key, "%s", normKey(key).c_str()); snprintf(SH->msg, sizeof SH->msg, "%s", msg.c_str());
    SH->hash = evHash; SH->events = evCount; SH->done = 1;
  }
  _exit(0);
}
void endRun() { SH->hash = evHash; SH->events = evCount; SH->done = 1; _exit(0); }

struct RunOut { bool viol = false; str prop, key, msg; u64 hash = 0; bool hang = false; Shared sh; };

static const int CPU_BUDGET = 10;
static void childSetup() {
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = CPU_BUDGET; signal(SIGPROF, cpuExpired); setitimer(ITIMER_PROF, &tv, nullptr);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
static str readAll(int fd) { str o; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) if (o.size() < 60000) o.append(b, n); return o; }

// short stable description of an ASAN report or a signal
static str crashKey(const str &err, int status, str &msg) {
  size_t p = err.find("ERROR: AddressSanitizer: ");
  if (p != str::npos) {
    str rest = err.substr(p + 25); str kind = rest.substr(0, rest.find_first_of(" \n"));
    str fn = "?"; size_t q = 0; int depth = 0;
    while ((q = rest.find(" in ", q)) != str::npos && depth < 30) { // first frame inside DevIL sources
      size_t e = rest.find('\n', q); str fr = rest.substr(q + 4, e - q - 4);
      if (fr.find("/src-IL") != str::npos) { fn = fr.substr(0, fr.find_first_of(" (")); msg = fr; break; }
      q += 4; depth++;
    }
    msg = "AddressSanitizer " + kind + " in " + msg;
    return "crash:" + kind + ":" + fn;
  }
  if (WIFSIGNALED(status)) { msg = strf("killed by signal %d", WTERMSIG(status)); return strf("crash:signal%d", WTERMSIG(status)); }
  msg = strf("the process ended with status %d inside a library call: %s", WEXITSTATUS(status), err.substr(0, 200).c_str());
  return strf("crash:exit%d", WEXITSTATUS(status));
}

FreshResult runFresh(const std::function<str()> &f) {
  int pf[2], pe[2]; FreshResult r; r.ok = false;
  if (pipe(pf) || pipe(pe)) { perror("pipe"); _exit(99); }
  fflush(stdout); fflush(stderr);
  pid_t c = fork();
  if (c < 0) { perror("fork"); _exit(99); }
  if (c == 0) {
    close(pf[0]); close(pe[0]); dup2(pe[1], 2); childSetup();
    Shared *keep = SH; static Shared dummy; SH = &dummy; memset(SH, 0, sizeof *SH); (void)keep;
    str o = f(); size_t off = 0;
    while (off < o.size()) { ssize_t n = write(pf[1], o.data() + off, o.size() - off); if (n <= 0) break; off += n; }
    if (write(pe[1], "\nFRESH-OK\n", 10) < 0) _exit(98); _exit(0);
  }
  close(pf[1]); close(pe[1]);
  bool a = true, b = true; char buf[65536];
  while (a || b) {
    struct pollfd p[2] = {{pf[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
    if (!a) p[0].fd = -1; if (!b) p[1].fd = -1;
    if (poll(p, 2, -1) < 0) { if (errno == EINTR) continue; break; }
    if (a && p[0].revents) { ssize_t n = read(pf[0], buf, sizeof buf); if (n > 0) r.out.append(buf, n); else a = false; }
    if (b && p[1].revents) { ssize_t n = read(pe[0], buf, sizeof buf); if (n > 0) { if (r.err.size() < 60000) r.err.append(buf, n); } else b = false; }
  }
  close(pf[0]); close(pe[0]); int st; waitpid(c, &st, 0);
  r.ok = r.err.find("\nFRESH-OK\n") != str::npos;
  if (!r.ok) { str m; str k = crashKey(r.err, st, m); r.err = k + " " + m; }
  return r;
}

static RunOut runPlan(const Scenario &sc, const Plan &plan, bool trace, str *errOut = nullptr) {
  RunOut out; memset((void *)SH, 0, sizeof *SH);
  int pe[2]; if (pipe(pe)) { perror("pipe"); exit(99); }
  fflush(stdout); fflush(stderr);
  pid_t c = fork();
  if (c < 0) { perror("fork"); exit(99); }
  if (c == 0) {
    close(pe[0]); if (!trace) dup2(pe[1], 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    childSetup(); traceOn = trace; curProp = sc.prop; simReset();
    sc.exec(plan);
    endRun();
  }
  close(pe[1]); str err = readAll(pe[0]); close(pe[0]);
  int st; waitpid(c, &st, 0);
  out.sh = *SH;
  if (SH->done) {
    out.viol = SH->viol; out.prop = SH->prop; out.key = SH->key; out.msg = SH->msg; out.hash = SH->hash; out.hang = out.key == "hang";
  } else {
    out.viol = true; out.prop = sc.prop; str m; out.key = crashKey(err, st, m); out.msg = m + " during " + SH->opname; out.hash = hashStr(out.key + SH->opname);
  }
  if (errOut) *errOut = err;
  return out;
}

// ---------- known findings ----------
static str verifDir = "/verif";
struct Known { str prop, key; };
static std::vector<Known> knownList() {
  std::vector<Known> v; FILE *f = fopen((verifDir + "/known_findings.txt").c_str(), "r"); if (!f) return v;
  char line[1024];
  while (fgets(line, sizeof line, f)) {
    if (strncmp(line, "finding: ", 9)) continue;
    char p[64], k[400]; if (sscanf(line, "finding: property=%63s key=%399s", p, k) == 2) v.push_back({p, k});
  }
  fclose(f); return v;
}
static bool isKnown(const std::vector<Known> &k, const str &prop, const str &key) { for (auto &x : k) if (x.prop == prop && x.key == key) return true; return false; }

// ---------- minimiser ----------
static Plan minimise(const Scenario &sc, Plan p, const str &prop, const str &key, int budget) {
  auto still = [&](const Plan &q) { if (budget-- <= 0) return false; RunOut r = runPlan(sc, q, false); return r.viol && r.prop == prop && r.key == key; };
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, p.steps.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= p.steps.size() && p.steps.size() > 1;) {
        bool pinned = false; for (size_t j = i; j < i + chunk; j++) if (p.steps[j].op == "cfg") pinned = true;
        Plan q = p; q.steps.erase(q.steps.begin() + i, q.steps.begin() + i + chunk);
        if (!pinned && !q.steps.empty() && still(q)) { p = q; progress = true; } else i++;
        if (budget <= 0) return p;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < p.steps.size(); i++) { // drop single faults
      str f = p.steps[i].s("f"); if (f.empty()) continue;
      std::vector<str> parts; size_t a = 0; while (a <= f.size()) { size_t e = f.find(',', a); if (e == str::npos) e = f.size(); parts.push_back(f.substr(a, e - a)); a = e + 1; }
      for (size_t j = 0; j < parts.size(); j++) {
        str nf; for (size_t k2 = 0; k2 < parts.size(); k2++) if (k2 != j) nf += (nf.empty() ? "" : ",") + parts[k2];
        Plan q = p; q.steps[i].kv["f"] = nf; if (nf.empty()) q.steps[i].kv.erase("f");
        if (still(q)) { p = q; progress = true; break; }
      }
    }
    static const char *nums[] = {"w", "h", "d", "n", "off", "chunk", "x", "y", "iter", "seed", "buf", "fillseed", "num", nullptr};
    for (size_t i = 0; i < p.steps.size(); i++)
      for (int k = 0; nums[k]; k++) {
        if (!p.steps[i].has(nums[k])) continue;
        long v = p.steps[i].i(nums[k]);
        for (long t : {0l, 1l, 2l, v / 2, v - 1}) if (t >= 0 && t < v) { Plan q = p; q.steps[i].set(nums[k], t); if (still(q)) { p = q; progress = true; break; } }
      }
  }
  return p;
}

// ---------- search ----------
struct Rec { u64 idx; char prop[8]; char key[200]; char msg[1200]; };
struct WorkerShm { volatile int stopAll; 
  volatile u64 runs, ops, allocs, events, nontrivial, violations; u64 fired[F_COUNT]; u64 cnt[16];
  u32 nrec; Rec rec[40]; u64 nstates; u64 states[1 << 16]; u64 digest; char samples[4][400]; u32 nsamples; u32 hangs; volatile int finished;
};
static void addState(WorkerShm *w, u64 h) {
  if (!h) h = 1; u64 m = (1 << 16) - 1; u64 i = h & m; int probes = 0;
  while (w->states[i] && w->states[i] != h && probes < 64) { i = (i + 1) & m; probes++; }
  if (w->states[i] == h) return; if (w->states[i] == 0) { w->states[i] = h; w->nstates++; }
}
static str jsonEsc(const str &s) { str o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32) o += ' '; else o += c; } return o; }

static Plan planFor(const Scenario &sc, u64 seed, u64 idx, bool thorough) { Rng r(mix(mix(seed, hashStr(sc.prop)), idx)); return sc.gen(r, idx, thorough); }

static int search(const Scenario &sc, u64 seed, bool thorough, int workers, double tcap, long nOverride, bool explore) {
  double t0 = now();
  u64 total = nOverride > 0 ? nOverride : sc.count(thorough);
  std::vector<WorkerShm *> ws; std::vector<pid_t> pids;
  std::vector<Known> known = knownList();
  for (int w = 0; w < workers; w++) {
    WorkerShm *s = (WorkerShm *)mmap(nullptr, sizeof(WorkerShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ws.push_back(s);
    fflush(stdout); pid_t c = fork();
    if (c == 0) {
      SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::set<str> keys;
      for (u64 i = w; i < total; i += workers) {
        if (now() - t0 > tcap || (getenv("STOPV") && ws[0]->stopAll)) break;
        Plan p = planFor(sc, seed, i, thorough);
        RunOut r = runPlan(sc, p, false);
        s->runs++; s->ops += r.sh.ops; s->allocs += r.sh.allocs; s->events += r.sh.events; s->nontrivial += r.sh.nontrivial ? 1 : 0;
        for (int k = 0; k < F_COUNT; k++) s->fired[k] += r.sh.fired[k];
        for (int k = 0; k < 16; k++) s->cnt[k] += r.sh.cnt[k];
        s->digest += mix(i, r.hash);
        if (r.sh.nontrivial) addState(s, mix(r.sh.hash, r.sh.stateHash));
        if (s->nsamples < 4 && (r.sh.nontrivial || s->runs > 20) && s->runs % 7 == 1) { str t = p.text(); snprintf(s->samples[s->nsamples++], 400, "%s", t.c_str()); }
        if (r.viol) {
          s->violations++;
          if (r.hang) s->hangs++;
          if (!keys.count(r.key) && s->nrec < 40) {
            keys.insert(r.key); Rec &x = s->rec[s->nrec]; x.idx = i; snprintf(x.prop, sizeof x.prop, "%s", r.prop.c_str()); snprintf(x.key, sizeof x.key, "%s", r.key.c_str()); snprintf(x.msg, sizeof x.msg, "%s", r.msg.c_str()); s->nrec++;
          }
          if (getenv("STOPV")) ws[0]->stopAll = 1;
          // enough to report: stop early unless exploring
          if ((!explore || getenv("STOPV")) && (!isKnown(known, r.prop, r.key)) && s->violations >= (getenv("STOPV") ? 1 : 3)) break;
          if (r.hang && s->hangs >= 3 && !explore) break;
        }
      }
      s->finished = 1; _exit(0);
    }
    pids.push_back(c);
  }
  for (pid_t c : pids) { int st; waitpid(c, &st, 0); }
  u64 digest = 0, runs = 0, ops = 0, allocs = 0, events = 0, nontriv = 0, viol = 0; u64 fired[F_COUNT] = {0}, cnt[16] = {0}; std::set<u64> states; bool bad = false; std::vector<str> samples;
  std::map<str, Rec> recs;
  for (auto s : ws) {
    if (!s->finished) bad = true;
    digest += s->digest; runs += s->runs; ops += s->ops; allocs += s->allocs; events += s->events; nontriv += s->nontrivial; viol += s->violations;
    for (int k = 0; k < F_COUNT; k++) fired[k] += s->fired[k];
    for (int k = 0; k < 16; k++) cnt[k] += s->cnt[k];
    for (u64 i = 0; i < (1 << 16); i++) if (s->states[i]) states.insert(s->states[i]);
    for (u32 i = 0; i < s->nrec; i++) { str k = str(s->rec[i].prop) + " " + s->rec[i].key; if (!recs.count(k) || recs[k].idx > s->rec[i].idx) recs[k] = s->rec[i]; }
    for (u32 i = 0; i < s->nsamples && samples.size() < 4; i++) samples.push_back(s->samples[i]);
  }
  double wall = now() - t0;
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // determinism self-test on a few plans of this search
  int detRuns = 0;
  for (u64 i = 0; i < 6 && i < total; i++) {
    u64 idx = total * i / 6; Plan p = planFor(sc, seed, idx, thorough); RunOut a = runPlan(sc, p, false), b = runPlan(sc, Plan::parse(p.text()), false); detRuns++;
    if (a.hash != b.hash && !a.viol) { printf("ERROR: run %llu of %s is not repeatable\n", (unsigned long long)idx, sc.prop); return 3; }
  }
  int rc = 0, newViol = 0; std::set<str> knownSeen; std::vector<str> vlines;
  int done = 0;
  for (auto &kv : recs) {
    Rec &r = kv.second;
    if (isKnown(known, r.prop, r.key)) { knownSeen.insert(str(r.prop) + " " + r.key); continue; }
    if (done >= (explore ? 60 : 6)) continue;
    done++;
    Plan p = planFor(sc, seed, r.idx, thorough);
    if (explore) {
      printf("FOUND %s key=%s idx=%llu: %s\n", r.prop, r.key, (unsigned long long)r.idx, r.msg);
      if (getenv("MINIMISE")) { p = minimise(sc, p, r.prop, r.key, 200); printf("%s", p.text().c_str()); }
      rc = 1; continue;
    }
    bool hang = !strcmp(r.key, "hang");
    Plan m = minimise(sc, p, r.prop, r.key, hang ? 12 : 300);
    RunOut a = runPlan(sc, m, false), b = runPlan(sc, Plan::parse(m.text()), false);
    if (!(a.viol && b.viol && a.key == r.key && b.key == r.key && a.hash == b.hash)) { // try the plan as generated
      m = p; a = runPlan(sc, m, false); b = runPlan(sc, m, false);
      if (!(a.viol && b.viol && a.key == b.key && a.hash == b.hash)) { printf("ERROR: violation of %s (%s) at run %llu does not replay exactly\n", r.prop, r.key, (unsigned long long)r.idx); if (rc == 0) rc = 3; continue; }
    }
    mkdir((verifDir + "/build").c_str(), 0777); mkdir((verifDir + "/build/replays").c_str(), 0777);
    str path = strf("%s/build/replays/%s-%016llx.plan", verifDir.c_str(), r.prop, (unsigned long long)hashStr(m.text()));
    FILE *f = fopen(path.c_str(), "w");
    if (f) { fprintf(f, "# scenario %s\n# property %s key %s\n# seed %llu run %llu hash %016llx\n# %s\n%s", sc.prop, r.prop, a.key.c_str(), (unsigned long long)seed, (unsigned long long)r.idx, (unsigned long long)a.hash, a.msg.c_str(), m.text().c_str()); fclose(f); }
    printf("violated: %s: %s\n%s", a.key.c_str(), a.msg.c_str(), m.text().c_str());
    printf("VIOLATION property=%s replay=%s\n", r.prop, path.c_str());
    newViol++; rc = 1;
  }
  for (auto &k : known) if (k.prop == sc.prop) printf("KNOWN-FINDING: property=%s %s%s\n", k.prop.c_str(), k.key.c_str(), knownSeen.count(k.prop + " " + k.key) ? "" : " (not met in this run)");
  if (bad) { printf("ERROR: a worker of %s did not finish\n", sc.prop); if (rc == 0) rc = 3; }
  if (runs < total && rc == 0) printf("note: time cap reached after %llu of %llu runs\n", (unsigned long long)runs, (unsigned long long)total);
  // evidence
  if (!explore) {
    mkdir((verifDir + "/evidence").c_str(), 0777);
    FILE *f = fopen((verifDir + "/evidence/" + sc.prop + ".json").c_str(), "w");
    if (f) {
      fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n", sc.prop, thorough ? "thorough" : "quick", (unsigned long long)seed, sc.level);
      fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": \"%s\",\n", (unsigned long long)runs, (unsigned long long)states.size(), jsonEsc(sc.rule).c_str());
      fprintf(f, "  \"planned_runs\": %llu,\n  \"runs_with_effect\": %llu,\n  \"simulated_runs_per_hour\": %.0f,\n  \"stream_operations_simulated\": %llu,\n  \"allocations_simulated\": %llu,\n  \"events_logged\": %llu,\n  \"repeatability_runs\": %d,\n", (unsigned long long)total, (unsigned long long)nontriv, runs / wall * 3600, (unsigned long long)ops, (unsigned long long)allocs, (unsigned long long)events, detRuns * 2);
      fprintf(f, "  \"simulated_time\": \"the system has no timers; simulated extent is counted in stream operations and allocations\",\n");
      fprintf(f, "  \"faults_injected\": {"); bool first = true; for (int k = 1; k < F_COUNT; k++) if (fired[k]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", faultName[k], (unsigned long long)fired[k]); first = false; } fprintf(f, "},\n");
      fprintf(f, "  \"counters\": {"); for (int k = 0; k < 16 && sc.counters && sc.counters[k]; k++) fprintf(f, "%s\"%s\": %llu", k ? ", " : "", sc.counters[k], (unsigned long long)cnt[k]); fprintf(f, "},\n");
      fprintf(f, "  \"real_components\": \"all IL, ILU and ILUT sources of /repo as built, libpng, libjpeg, libtiff, libmng, lcms2, libsquish, libc stdio buffering\",\n  \"stub_components\": \"disk and file handles, user I/O callbacks, allocator, clock, rand\",\n");
      fprintf(f, "  \"samples\": ["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jsonEsc(samples[i]).c_str()); fprintf(f, "]\n },\n");
      fprintf(f, " \"assumptions\": [\"memory errors are those AddressSanitizer sees\", \"third-party codecs' own allocations are not refused\"],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, newViol);
      fclose(f);
    }
  }
  printf("%s %s: %llu runs (%llu with effect, %zu distinct), %llu stream ops, %llu allocations, %.1fs, %llu violating runs, %d new\n", sc.prop, thorough ? "thorough" : "quick", (unsigned long long)runs, (unsigned long long)nontriv, states.size(), (unsigned long long)ops, (unsigned long long)allocs, wall, (unsigned long long)viol, newViol);
  if (getenv("DIGEST")) printf("digest of all histories %016llx\n", (unsigned long long)digest); // the same for any number of workers
  if (rc == 0 && nontriv == 0) { printf("ERROR: no run of %s had any effect\n", sc.prop); rc = 3; }
  return rc;
}

static str slurp(const char *p) { str o; FILE *f = fopen(p, "rb"); if (!f) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }

int main(int argc, char **argv) {
  if (!getenv("DEVILSIM_NOASLR")) { // one address-space layout for every run
    setenv("DEVILSIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (getenv("VERIF_DIR")) verifDir = getenv("VERIF_DIR");
  if (argc < 3) { fprintf(stderr, "usage: devilsim check ID | explore ID | replay FILE | plan ID IDX | trace ID IDX | sweep\n"); return 2; }
  str cmd = argv[1]; u64 seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1; bool thorough = getenv("VERIF_TIER") && str(getenv("VERIF_TIER")) == "thorough";
  int workers = getenv("JOBS") ? atoi(getenv("JOBS")) : (int)sysconf(_SC_NPROCESSORS_ONLN); if (workers < 1) workers = 1; if (workers > 16) workers = 16;
  double cap = getenv("TCAP") ? atof(getenv("TCAP")) : thorough ? 3000 : 180; long n = getenv("RUNS") ? atol(getenv("RUNS")) : 0;
  str samplesDir = getenv("DEVILSIM_SAMPLES") ? getenv("DEVILSIM_SAMPLES") : verifDir + "/sim/samples";
  loadSamples(samplesDir);
  if (cmd == "replay") {
    str t = slurp(argv[2]); size_t p = t.find("# scenario "); if (p == str::npos) { fprintf(stderr, "not a replay file\n"); return 2; }
    str id = t.substr(p + 11, t.find('\n', p) - p - 11); const Scenario *sc = findScenario(id); if (!sc) return 2;
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    prepare(*sc);
    Plan pl = Plan::parse(t); bool tr = argc > 3; str err; RunOut r = runPlan(*sc, pl, tr, &err);
    if (argc > 3) printf("%s\n", err.c_str());
    if (r.viol) { printf("%s: %s (hash %016llx)\nVIOLATION property=%s replay=%s\n", r.key.c_str(), r.msg.c_str(), (unsigned long long)r.hash, r.prop.c_str(), argv[2]); return 1; }
    printf("no violation (hash %016llx)\n", (unsigned long long)r.hash); return 0;
  }
  const Scenario *sc = findScenario(argv[2]); if (!sc) { fprintf(stderr, "unknown scenario %s\n", argv[2]); return 2; }
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  prepare(*sc);
  if (cmd == "plan") { printf("%s", planFor(*sc, seed, atoll(argv[3]), thorough).text().c_str()); return 0; }
  if (cmd == "trace") { Plan p = planFor(*sc, seed, atoll(argv[3]), thorough); str err; RunOut r = runPlan(*sc, p, true, &err); printf("%s%s\n%s %s %s\n", p.text().c_str(), err.c_str(), r.viol ? "VIOLATED" : "ok", r.key.c_str(), r.msg.c_str()); return r.viol; }
  if (cmd == "explore") return search(*sc, seed, thorough, workers, cap, n, true);
  if (cmd == "check") return search(*sc, seed, thorough, workers, cap, n, false);
  return 2;
}
