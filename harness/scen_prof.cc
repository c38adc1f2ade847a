// Profiled scopes over labelled threads that start, run, multiply and exit.
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "mulop.h"
#include "plan.h"
#include "sim.h"
#include "sut.h"

namespace {

enum Kind : int {
  kPush = 0,  // a0 kind, a1 nargs, a2.. args
  kPop,
  kSleep,   // a0 ns
  kSpin,    // a0 scheduling points
  kMul,     // fields of MulField
  kStart,   // thread 0: a0 enable, a1 tree slot (-1: print)
  kStop,    // thread 0: a0 format, a1 depth, a2 formatted: collapse checks
  kSpawn,   // thread 0: a0 client
  kJoin,    // thread 0: a0 client
  kSynth,   // thread 0: a0 seed, a1 samples: tree from a given sample sequence
};
constexpr int kMaxDepth = 64;
constexpr int kTrees = 2;
constexpr uint64_t kPeriod = 1000000;

// A stack the thread had, from the begin of the call that made it to the end of
// the call that ended it.
struct Entry {
  std::string key;
  bool mul;  // with further labels of the library on top
  uint64_t step0, step1, ns0, ns1;
};
struct Node {
  std::string label, format;
  int weight = 0;
  std::vector<Node> kids;
};
struct Tree {
  std::map<uint32_t, Node> roots;
};
struct Label {
  std::string text;
  void* mem;
};
struct Client {
  std::vector<Label> stack;
  std::vector<Entry> hist;
  int open = -1;  // index into hist of the current stack
  pthread_t th;
  bool started = false, joined = false;
  void* ctx = nullptr;
  MulEnv env;
};
struct Scope {
  void* p = nullptr;
  void* mem = nullptr;
  bool enabled = false;
  int tree = -1;
  uint64_t step0 = 0, ns0 = 0;
  int64_t expect = 0;  // samples thread 0 must have at least
  std::vector<int> threads;
};
struct State {
  const Plan* plan;
  std::vector<Client> c;
  void* tree[kTrees] = {};
  Scope scope;
  bool starting = false;
  std::set<std::string> formats;
};
State* g_st;

void OnThread(int tid) {
  if (g_st->starting && sim::Self() == 0) g_st->scope.threads.push_back(tid);
}

std::string Format(const char* f, int nargs, const int* a) {
  char b[300];
  switch (nargs) {
    case 0:
      return f;
    case 1:
      snprintf(b, sizeof b, f, a[0]);
      break;
    case 2:
      snprintf(b, sizeof b, f, a[0], a[1]);
      break;
    case 3:
      snprintf(b, sizeof b, f, a[0], a[1], a[2]);
      break;
    default:
      snprintf(b, sizeof b, f, a[0], a[1], a[2], a[3]);
  }
  return b;
}

std::string Key(const Client& c) {
  std::string k;
  for (const Label& l : c.stack) k += l.text + "\x1e";
  return k;
}

void Close(Client* c, int i) {
  if (i < 0) return;
  c->hist[i].step1 = sim::Steps();
  c->hist[i].ns1 = sim::NowNs();
}
int Open(Client* c, bool mul) {
  c->hist.push_back({Key(*c), mul, sim::Steps(), ~0ull, sim::NowNs(), ~0ull});
  return (int)c->hist.size() - 1;
}

void Pop(Client* c) {
  Label l = c->stack.back();
  int old = c->open;
  c->stack.pop_back();
  c->open = Open(c, false);
  {
    sim::SutScope s;
    sut::LabelPop(l.mem);
  }
  Close(c, old);
  sim::UserFree(l.mem);
}

// Operations any thread can do.
void ClientOp(State* st, int thread, const Op& op) {
  Client* c = &st->c[thread];
  switch (op.kind) {
    case kPush: {
      int limit = (int)st->plan->Get("depth", 12);
      if ((int)c->stack.size() >= limit) break;
      int nargs = (int)(op.a[1] % 5);
      int args[4];
      for (int i = 0; i < 4; i++) args[i] = (int)op.a[2 + i];
      if (c->stack.empty()) {
        if (nargs == 0) nargs = 1;
        args[0] = 1000 + thread;
      }
      void* mem = sim::UserAlloc(sut::LabelBytes(), 8, 0);
      int old = c->open;
      c->stack.push_back({Format(sut::LabelFormat((int)op.a[0], nargs), nargs, args), mem});
      c->open = Open(c, false);
      {
        sim::SutScope s;
        sut::LabelPush(mem, (int)op.a[0], nargs, args);
      }
      Close(c, old);
      break;
    }
    case kPop:
      if (!c->stack.empty()) Pop(c);
      break;
    case kSleep: {
      uint64_t idle = sim::IdleNs();
      timespec t = {(time_t)(op.a[0] / 1000000000), (long)(op.a[0] % 1000000000)};
      nanosleep(&t, nullptr);
      // While nobody can run, the sampler is in one of its short sleeps.
      if (thread == 0 && st->scope.enabled && !c->stack.empty()) {
        int64_t n = (int64_t)((sim::IdleNs() - idle) /
                              (2 * kPeriod + (uint64_t)sim::g_cfg.oversleep_ns)) - 2;
        if (n > 0) st->scope.expect += n;
      }
      break;
    }
    case kSpin:
      for (int i = 0; i < op.a[0]; i++) sim::Yield();
      break;
    case kMul: {
      if (!c->ctx) {
        sim::SutScope s;
        c->ctx = sut::CtxNew();
        sut::CtxSetMaxThreads(c->ctx, (int)st->plan->Get("threads", 2));
        sut::CtxSetStrategy(c->ctx, 1);
      }
      int e = Open(c, true);
      DoMul(&c->env, c->ctx, op.a, MulOpts());
      Close(c, e);
      if (st->scope.enabled) sim::Probe("mul_profiled");
      break;
    }
  }
}

void FinishClient(State* st, int thread) {
  Client* c = &st->c[thread];
  while (!c->stack.empty()) Pop(c);
  if (c->ctx) {
    sim::SutScope s;
    sut::CtxDelete(c->ctx);
    c->ctx = nullptr;
  }
  if (thread != 0 && st->scope.enabled) sim::Probe("exit_while_profiled");
}

void* ClientMain(void* p) {
  int thread = (int)(intptr_t)p;
  State* st = g_st;
  for (const Op& op : st->plan->ops) {
    if (op.thread != thread) continue;
    ClientOp(st, thread, op);
    sim::Yield();
  }
  FinishClient(st, thread);
  return nullptr;
}

// ---------------------------------------------------------------------------
// Trees.
struct Builder {
  Tree* t;
  std::vector<Node*> path;
};
void OnNode(void* arg, uint32_t thread, int depth, const char* formatted, const char* format,
            int weight, int) {
  sim::HarnessScope h;
  Builder* b = (Builder*)arg;
  Node n;
  n.label = formatted;
  n.format = format;
  n.weight = weight;
  b->path.resize(depth);
  if (depth == 0) {
    if (b->t->roots.count(thread)) sim::Fail("profile-tree", "two roots for one thread");
    b->t->roots[thread] = n;
    b->path.push_back(&b->t->roots[thread]);
  } else {
    b->path.back()->kids.push_back(n);
    b->path.push_back(&b->path.back()->kids.back());
  }
}
Tree Read(void* tree) {
  Tree t;
  Builder b = {&t, {}};
  sut::TreeVisitor v = {OnNode, &b};
  sim::SutScope s;
  sut::TreeVisit(tree, v);
  return t;
}

std::string Canon(const Node& n) {
  std::vector<std::string> k;
  for (const Node& c : n.kids) k.push_back(Canon(c));
  std::sort(k.begin(), k.end());
  std::string s = n.label + ":" + std::to_string(n.weight) + "{";
  for (const std::string& x : k) s += x + ",";
  return s + "}";
}
std::string Canon(const Tree& t) {
  std::string s;
  for (const auto& r : t.roots) s += std::to_string(r.first) + "=" + Canon(r.second) + "\n";
  return s;
}

void CheckConserved(const Node& n) {
  if (n.weight <= 0) sim::Fail("profile-tree", "node '%s' has weight %d", n.label.c_str(), n.weight);
  if (n.kids.empty()) return;
  int sum = 0;
  std::set<std::string> seen;
  for (const Node& k : n.kids) {
    sum += k.weight;
    if (!seen.insert(k.label).second)
      sim::Fail("profile-tree", "node '%s' has two children '%s'", n.label.c_str(),
                k.label.c_str());
    CheckConserved(k);
  }
  if (sum != n.weight)
    sim::Fail("profile-tree", "children of '%s' weigh %d, the node %d", n.label.c_str(), sum,
              n.weight);
}

Node Collapse(const Node& n, const std::string& what, bool formatted, int depth, int left) {
  Node o;
  o.label = n.label;
  o.format = n.format;
  o.weight = n.weight;
  if (left == 0) return o;
  if (left < 0 && (formatted ? n.label : n.format) == what) {
    if (depth == 0) return o;
    left = depth;
  }
  for (const Node& k : n.kids)
    o.kids.push_back(Collapse(k, what, formatted, depth, left > 0 ? left - 1 : -1));
  return o;
}
int64_t Weight(const Node& n, const std::string& what, bool formatted) {
  int64_t w = (formatted ? n.label : n.format) == what ? n.weight : 0;
  for (const Node& k : n.kids) w += Weight(k, what, formatted);
  return w;
}
int Depth(const Node& n) {
  int d = 0;
  for (const Node& k : n.kids) d = std::max(d, 1 + Depth(k));
  return d;
}
void Labels(const Node& n, std::vector<std::pair<std::string, std::string>>* out) {
  out->push_back({n.label, n.format});
  for (const Node& k : n.kids) Labels(k, out);
}

void CheckViews(void* tree, const Tree& t, const Op& op) {
  std::vector<std::pair<std::string, std::string>> ls;
  for (const auto& r : t.roots) Labels(r.second, &ls);
  if (ls.empty()) return;
  bool formatted = op.a[2];
  const auto& l = ls[(size_t)op.a[0] % ls.size()];
  std::string what = formatted ? l.first : l.second;
  int depth = (int)op.a[1];
  Tree want;
  int64_t weight = 0;
  int deep = 0;
  for (const auto& r : t.roots) {
    want.roots[r.first] = Collapse(r.second, what, formatted, depth, -1);
    weight += Weight(r.second, what, formatted);
    deep = std::max(deep, Depth(r.second));
  }
  void* got;
  int64_t w;
  int d;
  {
    sim::SutScope s;
    got = sut::TreeCollapse(tree, depth, what.c_str(), formatted);
    w = sut::TreeWeight(tree, what.c_str(), formatted);
    d = sut::TreeDepth(tree);
  }
  Tree g = Read(got);
  if (Canon(g) != Canon(want))
    sim::Fail("profile-tree", "collapsing '%s' to depth %d gives\n%s instead of\n%s", what.c_str(),
              depth, Canon(g).substr(0, 400).c_str(), Canon(want).substr(0, 400).c_str());
  if (w != weight)
    sim::Fail("profile-tree", "weight of '%s' is %ld instead of %ld", what.c_str(), (long)w,
              (long)weight);
  if (d != deep) sim::Fail("profile-tree", "depth %d instead of %d", d, deep);
  if (Canon(Read(tree)) != Canon(t)) sim::Fail("profile-tree", "reading a tree changed it");
  sim::SutScope s;
  sut::TreeDelete(got);
}

// Checks the samples that ended in a node of a thread's tree.
struct Walk {
  State* st;
  uint64_t step0, step1, ns0, ns1;
  int owner = -1;
  bool library = false;
};
void CheckStack(Walk* w, const std::string& key, bool lib, int count) {
  if (key.empty()) {
    w->library = true;
    return;
  }
  State* st = w->st;
  int owner = -1;
  uint64_t max = 0;
  bool ever = false, possible = false;
  uint64_t last_end = ~0ull;
  for (size_t t = 0; t < st->c.size(); t++)
    for (const Entry& e : st->c[t].hist) {
      if (e.key != key || e.mul != lib) continue;
      ever = true;
      owner = (int)t;
      if (e.step0 > w->step1 || e.step1 < w->step0) continue;
      possible = true;
      uint64_t a = std::max(e.ns0, w->ns0), b = std::min(e.ns1, w->ns1);
      // Adjacent histories can share a moment; samples are at least half a
      // period apart.
      max += (b > a ? b - a : 0) / (kPeriod / 2) + 1;
      (void)last_end;
    }
  std::string shown = key;
  for (char& ch : shown)
    if (ch == '\x1e') ch = ';';
  if (!ever)
    sim::Fail("profile-sample", "sampled stack '%s'%s never existed", shown.c_str(),
              lib ? " below library labels" : "");
  if (!possible)
    sim::Fail("profile-scope", "sampled stack '%s' did not exist during the profiled scope",
              shown.c_str());
  if ((uint64_t)count > max)
    sim::Soft("profile-rate", "stack '%s' has %d samples, at most %lu are possible", shown.c_str(),
              count, (unsigned long)max);
  if (w->owner >= 0 && w->owner != owner)
    sim::Fail("profile-sample", "one thread's tree has stacks of threads %d and %d", w->owner,
              owner);
  w->owner = owner;
}
void WalkNode(Walk* w, const Node& n, const std::string& key, bool lib) {
  int sum = 0;
  for (const Node& k : n.kids) {
    if (k.format == "[other]") continue;
    sum += k.weight;
    bool client = w->st->formats.count(k.format);
    if (client && lib)
      sim::Fail("profile-sample", "label '%s' on top of library labels", k.label.c_str());
    WalkNode(w, k, client ? key + k.label + "\x1e" : key, !client);
  }
  if (n.weight > sum) CheckStack(w, key, lib, n.weight - sum);
}

void CheckProfile(State* st, const Scope& sc, void* tree, const Op& op) {
  Tree t = Read(tree);
  uint64_t step1 = sim::Steps(), ns1 = sim::NowNs();
  uint64_t most = (ns1 - sc.ns0) / (kPeriod / 2) + 1;
  std::set<int> owners;
  int64_t main_samples = 0;
  uint64_t total = 0;
  for (const auto& r : t.roots) {
    const Node& n = r.second;
    if (n.kids.empty()) sim::Fail("profile-tree", "thread without any label");
    CheckConserved(n);
    if ((uint64_t)n.weight > most)
      sim::Soft("profile-rate", "%d samples of a thread in %ld ns", n.weight, (long)(ns1 - sc.ns0));
    Walk w = {st, sc.step0, step1, sc.ns0, ns1};
    // Samples that ended in the root would be empty stacks.
    int sum = 0;
    for (const Node& k : n.kids)
      if (k.format != "[other]") sum += k.weight;
    if (sum != n.weight) sim::Fail("profile-sample", "empty stacks were sampled");
    WalkNode(&w, n, "", false);
    if (w.owner >= 0) {
      if (!owners.insert(w.owner).second)
        sim::Fail("profile-sample", "two trees for thread %d", w.owner);
      if (w.owner == 0) main_samples = n.weight;
    } else {
      sim::Probe("library_thread_sampled");
    }
    total += n.weight;
  }
  if (main_samples < sc.expect)
    sim::Soft("profile-rate", "%ld samples of the calling thread, at least %ld expected",
              (long)main_samples, (long)sc.expect);
  if (total) sim::Probe("samples", total);
  if (owners.size() > 1) sim::Probe("threads_sampled");
  if (sc.expect) sim::Probe("rate_checked");
  sim::MixState(std::hash<std::string>()(Canon(t)));
  CheckViews(tree, t, op);
}

void DoStart(State* st, const Op& op) {
  Scope* sc = &st->scope;
  if (sc->p) return;
  *sc = Scope();
  sc->mem = sim::UserAlloc(sut::ProfileBytes(), 16, 0);
  sc->step0 = sim::Steps();
  sc->ns0 = sim::NowNs();
  sc->tree = (int)op.a[1];
  st->starting = true;
  {
    sim::SutScope s;
    if (op.a[2]) sim::ArmAllocFaults(true, true);
    try {
      sc->p = sut::ProfileStart(sc->mem, op.a[0]);
    } catch (const std::exception&) {
      if (!sim::AllocFaultFired()) sim::Fail("exception", "starting a profile threw");
    }
    if (op.a[2]) sim::ArmAllocFaults(false);
  }
  st->starting = false;
  if (!sc->p) {
    // No thread for sampling; a later profile must work.
    sim::Probe("start_refused");
    for (int t : sc->threads)
      if (!sim::Info(t).finished)
        sim::Fail("profile-scope", "sampling thread t%d is alive after a failed start", t);
    sim::UserFree(sc->mem);
    *sc = Scope();
    return;
  }
  sc->enabled = op.a[0];
  if (sc->enabled && sc->threads.empty())
    sim::Probe("no_sampler_thread");
  if (!sc->enabled && !sc->threads.empty())
    sim::Fail("profile-scope", "a disabled profile started a thread");
  if (sc->tree >= 0) {
    sim::SutScope s;
    if (!st->tree[sc->tree]) st->tree[sc->tree] = sut::TreeNew();
    sut::ProfileSetTree(sc->p, st->tree[sc->tree]);
  }
  if (sc->enabled)
    for (size_t i = 1; i < st->c.size(); i++)
      if (st->c[i].started && !st->c[i].joined) sim::Probe("start_over_running_thread");
}

void DoStop(State* st, const Op& op) {
  Scope* sc = &st->scope;
  if (!sc->p) return;
  Tree before;
  if (!sc->enabled && sc->tree >= 0) before = Read(st->tree[sc->tree]);
  {
    sim::SutScope s;
    sut::ProfileStop(sc->p);
  }
  for (int t : sc->threads)
    if (!sim::Info(t).finished)
      sim::Fail("profile-scope", "sampling thread t%d is alive after the scope", t);
  sim::UserFree(sc->mem);
  Scope done = *sc;
  *sc = Scope();
  if (done.tree < 0) return;
  if (!done.enabled) {
    if (Canon(Read(st->tree[done.tree])) != Canon(before))
      sim::Fail("profile-scope", "a disabled profile changed the tree");
    return;
  }
  CheckProfile(st, done, st->tree[done.tree], op);
}

void AddSample(Node* n, const std::vector<std::pair<std::string, std::string>>& path, size_t i) {
  n->weight++;
  if (i == path.size()) return;
  for (Node& k : n->kids)
    if (k.label == path[i].first) return AddSample(&k, path, i + 1);
  Node k;
  k.label = path[i].first;
  k.format = path[i].second;
  n->kids.push_back(k);
  AddSample(&n->kids.back(), path, i + 1);
}
void AddOther(Node* n) {
  int sum = 0;
  for (Node& k : n->kids) {
    AddOther(&k);
    sum += k.weight;
  }
  if (n->kids.empty() || sum == n->weight) return;
  Node k;
  k.label = k.format = "[other]";
  k.weight = n->weight - sum;
  n->kids.push_back(k);
}

// The tree of a known sample sequence.
void DoSynth(State* st, const Op& op) {
  Rng r((uint64_t)op.a[0]);
  int n = (int)op.a[1];
  std::vector<sut::SynthSample> v(n);
  Tree want;
  for (int i = 0; i < n; i++) {
    sut::SynthSample& s = v[i];
    if (i && r.Chance(70)) {
      // Continue from an earlier sample of some thread.
      s = v[r.Below(i)];
      s.size = r.Chance(30) ? s.size : (int)r.In(1, s.size);
    } else {
      s.id = (uint32_t)r.Pick<int64_t>({0, 1, 2, 3, 4294967295ll});
      s.size = 0;
    }
    int grow = s.size == 0 ? (int)r.In(1, 3) : (int)r.Below(3);
    if (r.Chance(2)) grow = kMaxDepth - s.size;
    for (int j = 0; j < grow && s.size < kMaxDepth; j++) {
      int k = s.size++;
      s.kinds[k] = (int)r.Below(3);
      s.nargs[k] = (int)r.Below(5);
      for (int a = 0; a < 4; a++) s.args[k][a] = (int)r.Pick<int64_t>({0, 1, 2, -1});
    }
    std::vector<std::pair<std::string, std::string>> path;
    for (int k = 0; k < s.size; k++) {
      const char* f = sut::LabelFormat(s.kinds[k], s.nargs[k]);
      path.push_back({Format(f, s.nargs[k], s.args[k]), f});
    }
    AddSample(&want.roots[s.id], path, 0);
  }
  for (auto& x : want.roots) AddOther(&x.second);
  {
    sim::SutScope s;
    if (!st->tree[0]) st->tree[0] = sut::TreeNew();
    sut::TreePopulate(st->tree[0], v.data(), n);
  }
  Tree got = Read(st->tree[0]);
  for (auto& x : want.roots)
    if (got.roots.count(x.first)) x.second.label = got.roots[x.first].label;
  if (Canon(got) != Canon(want))
    sim::Fail("profile-tree", "%d samples give the tree\n%s instead of\n%s", n,
              Canon(got).substr(0, 450).c_str(), Canon(want).substr(0, 450).c_str());
  CheckViews(st->tree[0], got, op);
  sim::Probe("tree_of_known_samples");
}

void Run(const Plan& plan) {
  // Profiles without a tree are printed.
  int null = open("/dev/null", O_WRONLY);
  if (null >= 0) dup2(null, 1);
  State* st = new State;
  g_st = st;
  st->plan = &plan;
  int clients = (int)plan.Get("clients");
  st->c.resize(clients + 1);
  sim::g_sut_thread_hook = OnThread;
  for (int k = 0; k < 8; k++)
    for (int n = 0; n < 5; n++) st->formats.insert(sut::LabelFormat(k, n));
  auto join = [st](int c) {
    if (!st->c[c].started || st->c[c].joined) return;
    pthread_join(st->c[c].th, nullptr);
    st->c[c].joined = true;
  };
  for (const Op& op : plan.ops) {
    if (op.thread != 0) continue;
    switch (op.kind) {
      case kStart:
        DoStart(st, op);
        break;
      case kStop:
        DoStop(st, op);
        break;
      case kSpawn: {
        int c = (int)op.a[0];
        if (c < 1 || c > clients || st->c[c].started) break;
        st->c[c].started = true;
        if (pthread_create(&st->c[c].th, nullptr, ClientMain, (void*)(intptr_t)c))
          sim::Machinery("client thread");
        break;
      }
      case kJoin:
        if (op.a[0] >= 1 && op.a[0] <= clients) join((int)op.a[0]);
        break;
      case kSynth:
        if (!st->scope.p) DoSynth(st, op);
        break;
      default:
        ClientOp(st, 0, op);
    }
  }
  Op last;
  last.kind = kStop;
  last.a[1] = 1;
  DoStop(st, last);
  for (int c = 1; c <= clients; c++) join(c);
  FinishClient(st, 0);
  sim::SutScope s;
  for (void* t : st->tree)
    if (t) sut::TreeDelete(t);
}

Op GenClientOp(Rng& r, int thread, const MulGen& g, bool mul, int lively) {
  Op o;
  o.thread = thread;
  int x = (int)r.Below(100);
  if (x < 40 + lively) {
    o.kind = kPush;
    o.a[0] = r.Below(r.Chance(50) ? 2 : 8);
    o.a[1] = r.Below(5);
    for (int i = 0; i < 4; i++) o.a[2 + i] = r.Pick<int64_t>({0, 0, 1, 2, -1, 2147483647});
  } else if (x < 70 + lively) {
    o.kind = kPop;
  } else if (x < 85) {
    o.kind = kSleep;
    o.a[0] = r.Pick<int64_t>({1000, 300000, 1000000, 1000001, 3000000, 12000000});
    if (r.Below(400) == 0) o.a[0] = 400000000;
  } else if (x < 95 || !mul) {
    o.kind = kSpin;
    o.a[0] = r.In(1, 12);
  } else {
    o.kind = kMul;
    GenMul(r, g, o.a);
  }
  return o;
}

void Gen(Rng& r, const std::string& prop, Plan* p) {
  SwarmOpts so;
  so.pct_len = 800;
  DrawSim(r, p, so);
  DrawCpu(r, p, false);
  if (p->Get("s.oversleep_ns") > 5000000) p->cfg["s.oversleep_ns"] = 5000000;
  p->cfg["s.step_ns"] = r.Pick({100, 2000, 20000, 100000});
  bool mul = r.Chance(prop == "C19" ? 45 : 15);
  p->cfg["threads"] = r.In(1, 4);
  p->cfg["depth"] = mul ? r.Pick({3, 12}) : r.Pick({2, 4, 12, 12, kMaxDepth});
  int clients = (int)r.Pick({0, 1, 1, 2, 2, 3, 4});
  p->cfg["clients"] = clients;
  MulGen g;
  g.max_dim = 12;
  g.max_macs = 600;
  g.allow_all_paths = false;
  int lively = r.Pick({0, 5, 10, 15});
  if (prop == "C18" && r.Chance(15)) {
    p->cfg["clients"] = 0;
    int n = (int)r.In(1, 4);
    for (int i = 0; i < n; i++) {
      Op o;
      o.kind = kSynth;
      o.a[0] = (int64_t)(r.Next() >> 8);
      o.a[1] = r.Pick({0, 1, 2, 5, 20, 60});
      o.a[2] = r.Below(2);
      o.a[0] = o.a[0] | 1;
      p->ops.push_back(o);
    }
    return;
  }
  for (int t = 1; t <= clients; t++) {
    int n = (int)r.Pick({0, 1, 3, 10, 30});
    for (int i = 0; i < n; i++) p->ops.push_back(GenClientOp(r, t, g, mul, lively));
  }
  // Thread 0: scopes, thread starts and joins in any order.
  std::vector<Op> main;
  int n = (int)r.In(2, 24);
  for (int i = 0; i < n; i++) {
    Op o;
    switch (r.Below(8)) {
      case 0:
        o.kind = kStart;
        o.a[0] = !r.Chance(8);
        o.a[1] = r.Chance(8) ? -1 : r.Below(kTrees);
        break;
      case 1:
        o.kind = kStop;
        o.a[0] = r.Below(1000);
        o.a[1] = r.Below(4);
        o.a[2] = r.Below(2);
        break;
      case 2:
        if (clients) {
          o.kind = kJoin;
          o.a[0] = r.In(1, clients);
          if (r.Chance(50)) break;
        }
        // fall through
      default:
        o = GenClientOp(r, 0, g, mul, lively);
    }
    main.push_back(o);
  }
  for (int c = 1; c <= clients; c++) {
    Op o;
    o.kind = kSpawn;
    o.a[0] = c;
    main.insert(main.begin() + r.Below((int64_t)main.size() + 1), o);
  }
  if (r.Chance(70)) {
    Op o;
    o.kind = kStart;
    o.a[0] = 1;
    o.a[1] = r.Below(kTrees);
    main.insert(main.begin() + r.Below(2), o);
  }
  if (prop == "C19" && r.Chance(12)) {
    // One start finds no thread to sample with.
    p->cfg["s.thread_fail_nth"] = r.In(1, 2);
    for (Op& o : main)
      if (o.kind == kStart) o.a[2] = 1;
  }
  for (const Op& o : main) p->ops.push_back(o);
}

Registrar reg({"prof", "prof", Gen, Run});

}  // namespace
