// Command line: explores seeds, replays and minimises.
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <string>
#include <vector>

#include "plan.h"
#include "props.h"
#include "sim.h"

#ifndef FLAVOR
#define FLAVOR "rel"
#endif

namespace {

double RealNow() {
  timespec t;
  // The interposed clock is virtual only inside a run.
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct BodyArg {
  const Plan* plan;
  const Scenario* sc;
};
void Body(void* p) {
  BodyArg* b = (BodyArg*)p;
  b->sc->run(*b->plan);
}

void ClearOutcome() {
  sim::Outcome* o = sim::g_out;
  memset(o, 0, offsetof(sim::Outcome, dec));
  o->log_len = 0;
}

// Holds back while the memory of ended runs has not come back to the system.
void WaitForMemory() {
  for (int i = 0; i < 300; i++) {
    FILE* f = fopen("/proc/meminfo", "r");
    if (!f) return;
    char line[128];
    long kb = -1;
    while (fgets(line, sizeof line, f))
      if (sscanf(line, "MemAvailable: %ld", &kb) == 1) break;
    fclose(f);
    if (kb < 0 || kb > (4l << 20)) return;
    usleep(100000);
  }
}

// Runs a plan in a forked child. replay == nullptr: decisions from seed.
void RunPlan(const Plan& plan, uint64_t seed, const std::vector<sim::Decision>* replay,
             bool verbose) {
  ClearOutcome();
  const Scenario* sc = FindScenario(plan.scenario);
  if (!sc) {
    fprintf(stderr, "unknown scenario %s\n", plan.scenario.c_str());
    exit(2);
  }
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    ApplyConfig(plan);
    BodyArg b = {&plan, sc};
    static const sim::Decision none = {};  // data() of an empty list may be null
    sim::RunInThisProcess(seed, !replay ? nullptr : replay->empty() ? &none : replay->data(),
                          replay ? (uint32_t)replay->size() : 0, verbose, Body, &b);
  }
  int st = 0;
  // The child has its own limit of CPU time; this is the backstop.
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  double t0 = RealNow();
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (r < 0 && errno != EINTR) break;
    timespec to = {1, 0};
    sigtimedwait(&ss, nullptr, &to);
    if (RealNow() - t0 > 330) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      sim::g_out->status = 4;
      snprintf(sim::g_out->msg, sizeof sim::g_out->msg, "run did not end in 330 s");
      break;
    }
  }
  if (sim::g_out->status == 0) {
    sim::g_out->status = 4;
    snprintf(sim::g_out->cls, sizeof sim::g_out->cls, "machinery");
    snprintf(sim::g_out->msg, sizeof sim::g_out->msg, "child ended with status 0x%x", st);
  }
  if (sim::g_out->dec_overflow && sim::g_out->status == 2) {
    // Can not be replayed; does not happen with the bounds in use.
    fprintf(stderr, "decision log overflow\n");
  }
}

uint64_t OutHash() {
  return MixHash(sim::g_out->event_hash, sim::g_out->state_hash) ^ (uint64_t)sim::g_out->status * 0x9E3779B97F4A7C15ull;
}

// ---- replay files -----------------------------------------------------------
struct ReplayFile {
  std::string property, flavor, cls, msg;
  uint64_t seed = 0, hash = 0, run = 0;
  Plan plan;
  std::vector<sim::Decision> dec;
};

void Save(const char* path, const ReplayFile& f) {
  FILE* o = fopen(path, "w");
  if (!o) {
    perror(path);
    exit(2);
  }
  fprintf(o, "ruysim-replay 1\nproperty %s\nflavor %s\nscenario %s\n", f.property.c_str(),
          f.flavor.c_str(), f.plan.scenario.c_str());
  fprintf(o, "seed %llu run %llu\n", (unsigned long long)f.seed, (unsigned long long)f.run);
  fprintf(o, "expect %s\nhash %016llx\n", f.cls.c_str(), (unsigned long long)f.hash);
  std::string m = f.msg;
  for (char& c : m)
    if (c == '\n') c = ' ';
  fprintf(o, "message %s\n", m.c_str());
  for (auto& k : f.plan.cfg)
    fprintf(o, "cfg %s %lld\n", k.first.c_str(), (long long)k.second);
  for (const Op& op : f.plan.ops) {
    fprintf(o, "op %d %d", op.thread, op.kind);
    int n = kOpArgs;
    while (n > 0 && op.a[n - 1] == 0) n--;
    for (int i = 0; i < n; i++) fprintf(o, " %lld", (long long)op.a[i]);
    fprintf(o, "\n");
  }
  for (const sim::Decision& d : f.dec)
    fprintf(o, "dec %s %u %u\n", sim::kDecNames[d.kind_index >> 27],
            d.kind_index & ((1u << 27) - 1), d.value);
  fclose(o);
}

bool Load(const char* path, ReplayFile* f) {
  FILE* in = fopen(path, "r");
  if (!in) return false;
  static char line[1 << 16];
  bool ok = false;
  while (fgets(line, sizeof line, in)) {
    size_t l = strlen(line);
    if (l && line[l - 1] == '\n') line[l - 1] = 0;
    char w[256];
    if (sscanf(line, "%255s", w) != 1) continue;
    const char* rest = line + strlen(w);
    while (*rest == ' ') rest++;
    std::string k = w;
    if (k == "ruysim-replay") ok = true;
    else if (k == "property") f->property = rest;
    else if (k == "flavor") f->flavor = rest;
    else if (k == "scenario") f->plan.scenario = rest;
    else if (k == "seed") {
      unsigned long long a = 0, b = 0;
      sscanf(rest, "%llu run %llu", &a, &b);
      f->seed = a;
      f->run = b;
    } else if (k == "expect") f->cls = rest;
    else if (k == "hash") f->hash = strtoull(rest, nullptr, 16);
    else if (k == "message") f->msg = rest;
    else if (k == "cfg") {
      char n[128];
      long long v;
      if (sscanf(rest, "%127s %lld", n, &v) == 2) f->plan.cfg[n] = v;
    } else if (k == "op") {
      Op op;
      char* e = (char*)rest;
      op.thread = (int)strtol(e, &e, 10);
      op.kind = (int)strtol(e, &e, 10);
      for (int i = 0; i < kOpArgs; i++) {
        char* s = e;
        long long v = strtoll(s, &e, 10);
        if (e == s) break;
        op.a[i] = v;
      }
      f->plan.ops.push_back(op);
    } else if (k == "dec") {
      char n[64];
      unsigned i, v;
      if (sscanf(rest, "%63s %u %u", n, &i, &v) == 3)
        for (uint32_t kk = 0; kk < sim::kDecCount; kk++)
          if (!strcmp(n, sim::kDecNames[kk])) f->dec.push_back({kk << 27 | i, v});
    }
  }
  fclose(in);
  return ok;
}

std::vector<sim::Decision> TakeDecisions() {
  return std::vector<sim::Decision>(sim::g_out->dec, sim::g_out->dec + sim::g_out->ndec);
}

// ---- generation ----------------------------------------------------------------
uint64_t PropHash(const std::string& p) {
  uint64_t h = 1469598103934665603ull;
  for (char c : p) h = (h ^ (unsigned char)c) * 1099511628211ull;
  return h;
}

bool MakePlan(const std::string& prop, uint64_t run_seed, Plan* p) {
  Rng r(run_seed);
  const PropDef* d = FindProp(prop);
  if (!d) return false;
  int total = 0;
  for (const PropScenario& s : d->scenarios)
    if (!strcmp(s.flavor, "any") || !strcmp(s.flavor, FLAVOR)) total += s.weight;
  if (!total) return false;
  int x = (int)r.Below(total);
  for (const PropScenario& s : d->scenarios) {
    if (strcmp(s.flavor, "any") && strcmp(s.flavor, FLAVOR)) continue;
    if (x < s.weight) {
      p->scenario = s.scenario;
      const Scenario* sc = FindScenario(s.scenario);
      if (!sc) {
        fprintf(stderr, "no scenario %s\n", s.scenario);
        exit(2);
      }
      sc->gen(r, s.variant ? s.variant : prop, p);
      return true;
    }
    x -= s.weight;
  }
  return false;
}
uint64_t RunSeed(uint64_t base, const std::string& prop, uint64_t idx) {
  return MixHash(MixHash(base, PropHash(prop) ^ PropHash(FLAVOR)), idx);
}

const char* Arg(int argc, char** argv, const char* name, const char* def) {
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
bool Has(int argc, char** argv, const char* name) {
  for (int i = 1; i < argc; i++)
    if (!strcmp(argv[i], name)) return true;
  return false;
}

void Pin(int worker) {
  cpu_set_t s;
  if (sched_getaffinity(0, sizeof s, &s)) return;
  int n = CPU_COUNT(&s);
  if (n < 1) return;
  int want = worker % n;
  for (int i = 0; i < CPU_SETSIZE; i++)
    if (CPU_ISSET(i, &s) && want-- == 0) {
      cpu_set_t o;
      CPU_ZERO(&o);
      CPU_SET(i, &o);
      sched_setaffinity(0, sizeof o, &o);
      return;
    }
}

bool Accepted(const PropDef* d, const char* cls) {
  for (const char* c : d->classes)
    if (!strcmp(c, cls)) return true;
  return false;
}

void SetAccept(const std::string& prop) {
  if (const PropDef* d = FindProp(prop)) sim::SetAccept(d->classes.data(), d->classes.size());
}

std::string JsonStr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return r + "\"";
}

int Explore(int argc, char** argv) {
  std::string prop = Arg(argc, argv, "--prop", "");
  uint64_t base = strtoull(Arg(argc, argv, "--seed", "1"), nullptr, 10);
  int worker = atoi(Arg(argc, argv, "--worker", "0"));
  int workers = atoi(Arg(argc, argv, "--workers", "1"));
  double secs = atof(Arg(argc, argv, "--secs", "10"));
  uint64_t maxruns = strtoull(Arg(argc, argv, "--maxruns", "1000000000"), nullptr, 10);
  const char* out = Arg(argc, argv, "--out", nullptr);
  const char* cand = Arg(argc, argv, "--cand", nullptr);
  bool keep_going = Has(argc, argv, "--keep-going");
  const PropDef* d = FindProp(prop);
  if (!d || !out || !cand) return 2;
  SetAccept(prop);
  Pin(atoi(Arg(argc, argv, "--cpu", "0")));
  double t0 = RealNow();
  uint64_t runs = 0, faulty = 0, nontrivial = 0, steps = 0, switches = 0, accesses = 0,
           atomics = 0, stale = 0, accepted_ends = 0, maxthreads = 0, threads = 0;
  double vtime = 0;
  uint64_t fired[sim::kDecCount] = {}, considered[sim::kDecCount] = {};
  std::vector<std::pair<std::string, uint64_t>> probes;
  std::vector<std::pair<std::string, uint64_t>> ends, scen, foreign;
  std::vector<std::string> foreign_msg;
  std::set<uint64_t> seen_sched, seen_state;
  auto bump = [](std::vector<std::pair<std::string, uint64_t>>& v, const std::string& k,
                 uint64_t n) {
    for (auto& x : v)
      if (x.first == k) {
        x.second += n;
        return;
      }
    v.push_back({k, n});
  };
  std::vector<std::string> samples;
  int rc = 0;
  std::string err;
  for (uint64_t i = 0;; i++) {
    uint64_t idx = worker + i * workers;
    if (idx >= maxruns || RealNow() - t0 > secs) break;
    if (i % 32 == 0) WaitForMemory();
    uint64_t rs = RunSeed(base, prop, idx);
    Plan plan;
    if (!MakePlan(prop, rs, &plan)) break;
    RunPlan(plan, MixHash(rs, 77), nullptr, false);
    sim::Outcome* o = sim::g_out;
    runs++;
    if (plan.Get("faults")) faulty++;
    steps += o->steps;
    switches += o->switches;
    accesses += o->accesses;
    atomics += o->atomics;
    stale += o->stale_reads;
    vtime += o->vtime_ns * 1e-9;
    threads += o->threads;
    if (o->threads > maxthreads) maxthreads = o->threads;
    for (int k = 0; k < sim::kDecCount; k++) {
      fired[k] += o->fired[k];
      considered[k] += o->considered[k];
    }
    for (uint32_t k = 0; k < o->nprobes; k++) bump(probes, o->probe_names[k], o->probes[k]);
    bump(scen, plan.scenario, 1);
    bool any = o->switches > 0 || plan.ops.size() >= 2;
    for (int k = 0; k < sim::kDecCount; k++) any |= o->fired[k] > 0;
    if (any) {
      nontrivial++;
      seen_state.insert(OutHash());
      seen_sched.insert(o->sched_hash);
    }
    if (samples.size() < 3 && o->status == 1) {
      char b[300];
      snprintf(b, sizeof b,
               "run %llu seed %llu: %s, %zu operations, %u threads, %llu steps, %llu "
               "switches, hash %016llx",
               (unsigned long long)idx, (unsigned long long)rs, plan.scenario.c_str(),
               plan.ops.size(), o->threads, (unsigned long long)o->steps,
               (unsigned long long)o->switches, (unsigned long long)OutHash());
      samples.push_back(b);
    }
    if (o->passed_over) bump(foreign, std::string("passed over: ") + o->passed_cls, 1);
    if (o->status == 3) {
      accepted_ends++;
      bump(ends, o->cls, 1);
    } else if (o->status == 2) {
      if (Accepted(d, o->cls)) {
        ReplayFile f;
        f.property = prop;
        f.flavor = FLAVOR;
        f.cls = o->cls;
        f.msg = o->msg;
        f.seed = base;
        f.run = idx;
        f.hash = OutHash();
        f.plan = plan;
        f.dec = TakeDecisions();
        Save(cand, f);
        rc = 1;
        if (!keep_going) break;
        bump(foreign, std::string("own:") + o->cls, 1);
        if (foreign_msg.size() < 20)
          foreign_msg.push_back(std::string(o->cls) + ": run " + std::to_string(idx) + " " +
                                o->msg);
      } else {
        bump(foreign, o->cls, 1);
        if (foreign_msg.size() < 5)
          foreign_msg.push_back(std::string(o->cls) + ": run " + std::to_string(idx) + " " +
                                o->msg);
      }
    } else if (o->status == 4) {
      err = std::string(o->msg) + " (run " + std::to_string(idx) + ")";
      rc = 2;
      break;
    }
  }
  FILE* fo = fopen(out, "w");
  if (!fo) return 2;
  auto list = [&](const char* name, std::vector<std::pair<std::string, uint64_t>>& v) {
    fprintf(fo, "\"%s\":{", name);
    for (size_t i = 0; i < v.size(); i++)
      fprintf(fo, "%s%s:%llu", i ? "," : "", JsonStr(v[i].first).c_str(),
              (unsigned long long)v[i].second);
    fprintf(fo, "},\n");
  };
  auto strs = [&](const char* name, std::vector<std::string>& v) {
    fprintf(fo, "\"%s\":[", name);
    for (size_t i = 0; i < v.size(); i++) fprintf(fo, "%s%s", i ? "," : "", JsonStr(v[i]).c_str());
    fprintf(fo, "],\n");
  };
#define U(x) fprintf(fo, "\"%s\":%llu,\n", #x, (unsigned long long)x)
  fprintf(fo, "{");
  U(runs); U(faulty); U(nontrivial); U(steps); U(switches); U(accesses); U(atomics);
  U(stale); U(accepted_ends); U(maxthreads); U(threads);
  fprintf(fo, "\"vtime_s\":%.9f,\n\"wall_s\":%.3f,\n", vtime, RealNow() - t0);
  std::vector<std::pair<std::string, uint64_t>> fv, cv;
  for (int k = 0; k < sim::kDecCount; k++) {
    fv.push_back({sim::kDecNames[k], fired[k]});
    cv.push_back({sim::kDecNames[k], considered[k]});
  }
  list("fired", fv);
  list("considered", cv);
  list("probes", probes);
  list("ends", ends);
  list("scenarios", scen);
  list("foreign", foreign);
  strs("foreign_msg", foreign_msg);
  strs("samples", samples);
  fprintf(fo, "\"error\":%s,\n", JsonStr(err).c_str());
  fprintf(fo, "\"sched_hashes\":[");
  size_t c = 0;
  for (uint64_t h : seen_sched) fprintf(fo, "%s\"%llx\"", c++ ? "," : "", (unsigned long long)h);
  fprintf(fo, "],\n\"state_hashes\":[");
  c = 0;
  for (uint64_t h : seen_state) fprintf(fo, "%s\"%llx\"", c++ ? "," : "", (unsigned long long)h);
  fprintf(fo, "]}\n");
  fclose(fo);
  return rc;
}

int Replay(int argc, char** argv) {
  ReplayFile f;
  if (argc < 3 || !Load(argv[2], &f)) {
    fprintf(stderr, "can not read replay file\n");
    return 2;
  }
  bool verbose = Has(argc, argv, "--verbose");
  SetAccept(f.property);
  RunPlan(f.plan, 0, &f.dec, verbose);
  sim::Outcome* o = sim::g_out;
  if (verbose) fwrite(o->log, 1, o->log_len, stdout);
  printf("status %d class %s hash %016llx expected %s %016llx\nmessage %s\n", o->status,
         o->cls, (unsigned long long)OutHash(), f.cls.c_str(), (unsigned long long)f.hash,
         o->msg);
  if (o->status == 4) return 2;
  if (o->status == 2) return OutHash() == f.hash && f.cls == o->cls ? 1 : 3;
  return 0;
}

// Re-generates a run from its seed (not from recorded decisions).
int SeedRun(int argc, char** argv) {
  std::string prop = Arg(argc, argv, "--prop", "");
  uint64_t base = strtoull(Arg(argc, argv, "--seed", "1"), nullptr, 10);
  uint64_t run = strtoull(Arg(argc, argv, "--run", "0"), nullptr, 10);
  bool verbose = Has(argc, argv, "--verbose");
  uint64_t rs = RunSeed(base, prop, run);
  SetAccept(prop);
  Plan plan;
  if (!MakePlan(prop, rs, &plan)) return 2;
  RunPlan(plan, MixHash(rs, 77), nullptr, verbose);
  sim::Outcome* o = sim::g_out;
  if (verbose) {
    for (auto& k : plan.cfg) printf("cfg %s %lld\n", k.first.c_str(), (long long)k.second);
    for (const Op& op : plan.ops) {
      printf("op %d %d", op.thread, op.kind);
      for (int i = 0; i < kOpArgs; i++) printf(" %lld", (long long)op.a[i]);
      printf("\n");
    }
    fwrite(o->log, 1, o->log_len, stdout);
  }
  printf("status %d class %s hash %016llx steps %llu msg %s\n", o->status, o->cls,
         (unsigned long long)OutHash(), (unsigned long long)o->steps, o->msg);
  if (const char* save = Arg(argc, argv, "--save", nullptr)) {
    ReplayFile f;
    f.property = prop;
    f.flavor = FLAVOR;
    f.cls = o->cls;
    f.msg = o->msg;
    f.seed = base;
    f.run = run;
    f.hash = OutHash();
    f.plan = plan;
    f.dec = TakeDecisions();
    Save(save, f);
  }
  return o->status == 2 ? 1 : o->status == 4 ? 2 : 0;
}

// Prints one hash per run, for the determinism self-test. With --replay each
// run is repeated from its recorded decisions and must give the same hash.
int Selftest(int argc, char** argv) {
  std::string prop = Arg(argc, argv, "--prop", "");
  uint64_t base = strtoull(Arg(argc, argv, "--seed", "1"), nullptr, 10);
  uint64_t from = strtoull(Arg(argc, argv, "--from", "0"), nullptr, 10);
  uint64_t n = strtoull(Arg(argc, argv, "--runs", "20"), nullptr, 10);
  uint64_t step = strtoull(Arg(argc, argv, "--stride", "1"), nullptr, 10);
  bool rep = Has(argc, argv, "--replay");
  SetAccept(prop);
  int bad = 0;
  for (uint64_t i = from; i < from + n * step; i += step) {
    uint64_t rs = RunSeed(base, prop, i);
    Plan plan;
    if (!MakePlan(prop, rs, &plan)) return 0;
    RunPlan(plan, MixHash(rs, 77), nullptr, false);
    uint64_t h = OutHash();
    int st = sim::g_out->status;
    if (st == 4) {
      printf("%s %llu machinery %s\n", prop.c_str(), (unsigned long long)i, sim::g_out->msg);
      bad = 1;
    }
    printf("%s %llu %d %016llx\n", prop.c_str(), (unsigned long long)i, st,
           (unsigned long long)h);
    if (rep) {
      std::vector<sim::Decision> dec = TakeDecisions();
      RunPlan(plan, 12345, &dec, false);
      if (OutHash() != h) {
        printf("%s %llu REPLAY-DIFFERS %016llx\n", prop.c_str(), (unsigned long long)i,
               (unsigned long long)OutHash());
        bad = 1;
      }
    }
  }
  return bad ? 2 : 0;
}

// ---- minimisation ----------------------------------------------------------
struct Minimizer {
  ReplayFile best;
  double deadline;
  uint64_t tries = 0;
  bool Time() { return RealNow() < deadline; }
  bool Test(const Plan& p, const std::vector<sim::Decision>* dec, uint64_t seed) {
    tries++;
    RunPlan(p, seed, dec, false);
    sim::Outcome* o = sim::g_out;
    if (o->status != 2 || best.cls != o->cls || o->dec_overflow) return false;
    best.plan = p;
    best.dec = TakeDecisions();
    best.msg = o->msg;
    best.hash = OutHash();
    return true;
  }
  // Tries a changed plan with the known decisions, none, and fresh seeds.
  bool TestPlan(const Plan& p, int fresh) {
    std::vector<sim::Decision> none, dec = best.dec;
    if (Test(p, &dec, 0)) return true;
    if (Test(p, &none, 0)) return true;
    for (int i = 0; i < fresh && Time(); i++)
      if (Test(p, nullptr, MixHash(4242, i))) return true;
    return false;
  }
  void Ops() {
    bool again = true;
    while (again && Time()) {
      again = false;
      for (size_t chunk = std::max<size_t>(best.plan.ops.size() / 2, 1);; chunk /= 2) {
        for (size_t i = 0; i < best.plan.ops.size() && Time();) {
          Plan p = best.plan;
          size_t e = std::min(i + chunk, p.ops.size());
          p.ops.erase(p.ops.begin() + i, p.ops.begin() + e);
          if (TestPlan(p, 12))
            again = true;
          else
            i += chunk;
        }
        if (chunk <= 1) break;
      }
      if (best.plan.ops.size() > 40) break;
    }
  }
  void Config() {
    static const char* const kOff[] = {
        "s.stale_permille", "s.spurious_permille", "s.weakcas_permille", "s.tick_jitter",
        "s.jump_permille", "s.oversleep_ns", "s.heap_reuse", "s.alloc_fail_permille", "s.alloc_fail_plain",
        "s.migrate_permille", "c.fail_first", "c.flip", "c.little_l2", "c.zero_count",
        "c.uarch_null", "clients"};
    for (const char* k : kOff) {
      if (!Time()) return;
      if (!best.plan.Get(k)) continue;
      if (!strcmp(k, "clients") && best.plan.Get("shared")) continue;
      Plan p = best.plan;
      p.cfg[k] = 0;
      TestPlan(p, 6);
    }
  }
  void Decs() {
    // ddmin
    size_t n = 2;
    while (best.dec.size() >= 1 && Time()) {
      size_t len = best.dec.size();
      if (n > len) n = len;
      size_t chunk = (len + n - 1) / n;
      bool ok = false;
      for (size_t i = 0; i < len && Time(); i += chunk) {
        std::vector<sim::Decision> d(best.dec.begin(), best.dec.begin() + i);
        d.insert(d.end(), best.dec.begin() + std::min(len, i + chunk), best.dec.end());
        Plan p = best.plan;
        size_t before = best.dec.size();
        ReplayFile save = best;
        if (Test(p, &d, 0)) {
          if (best.dec.size() < before) {
            ok = true;
            break;
          }
          best = save;
        }
      }
      if (ok) {
        if (n > 2) n--;
        continue;
      }
      if (n >= len) break;
      n *= 2;
    }
  }
};

int Minimize(int argc, char** argv) {
  Minimizer m;
  if (argc < 4 || !Load(argv[2], &m.best)) return 2;
  double secs = atof(Arg(argc, argv, "--secs", "20"));
  double t0 = RealNow();
  SetAccept(m.best.property);
  ReplayFile orig = m.best;
  std::vector<sim::Decision> d = m.best.dec;
  m.deadline = t0 + 1000;
  if (!m.Test(orig.plan, &d, 0)) {
    fprintf(stderr, "candidate does not reproduce\n");
    return 2;
  }
  m.deadline = t0 + secs * 0.5;
  m.Ops();
  m.Config();
  m.deadline = t0 + secs;
  m.Decs();
  m.deadline = t0 + secs * 1.2;
  m.Ops();
  Save(argv[3], m.best);
  printf("minimised: %zu -> %zu operations, %zu -> %zu decisions, %llu runs\n",
         orig.plan.ops.size(), m.best.plan.ops.size(), orig.dec.size(), m.best.dec.size(),
         (unsigned long long)m.tries);
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  if (!getenv("RUYSIM_EXEC")) {
    setenv("RUYSIM_EXEC", "1", 1);
    unsetenv("RUY_PATHS");
    unsetenv("LD_PRELOAD");
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  if (argc < 2) return 2;
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  sigprocmask(SIG_BLOCK, &ss, nullptr);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  sim::Init();
  if (!strcmp(argv[1], "explore")) return Explore(argc, argv);
  if (!strcmp(argv[1], "replay")) return Replay(argc, argv);
  if (!strcmp(argv[1], "seed")) return SeedRun(argc, argv);
  if (!strcmp(argv[1], "selftest")) return Selftest(argc, argv);
  if (!strcmp(argv[1], "minimize")) return Minimize(argc, argv);
  return 2;
}
