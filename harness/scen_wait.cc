// Wait and BlockingCounter used directly.
#include <pthread.h>
#include <string.h>
#include <time.h>

#include "plan.h"
#include "sim.h"
#include "sut.h"

namespace {

enum Kind : int {
  kWait = 0,   // wait for value a0 with spin a1 us
  kSet,        // (thread 0) next value, a0: yields before, a1: sleep us
  kRound,      // (thread 0) counter round: a0 spin us, a1.. decrements per client,
               // a10: set of clients that wait too, a11: their spin us
};

struct State {
  const Plan* plan;
  void* obj;
  void* counter;
  int64_t* data;  // [round][slot]
  int clients;
  int value = 0;
  // round hand-out
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  int round = 0;
  const Op* round_op = nullptr;
  int reached_zero[64] = {};
  int decrements[64] = {};
  int total[64] = {};
  int waiters_left = 0;
  bool stop = false;
};
constexpr int kSlots = 16;

void Pause(int64_t yields, int64_t us) {
  for (int64_t i = 0; i < yields; i++) sim::Yield();
  if (us) {
    timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    nanosleep(&t, nullptr);
  }
}

void DoWait(State* st, const Op& op) {
  int v = (int)op.a[0];
  int evals = 0;
  bool last = false;
  int64_t spin_ns = op.a[1] * 1000;
  sim::MonitorReset(sim::Self(), spin_ns);
  uint64_t t0 = sim::NowNs();
  {
    sim::SutScope s;
    sut::WaitObjWait(st->obj, v, (double)op.a[1] / 1000.0, &evals, &last);
  }
  if (!last) sim::Fail("early-return", "wait returned though the last evaluation was false");
  if (evals < 1) sim::Fail("early-return", "wait returned without evaluating the condition");
  {
    sim::SutScope s;
    if (sut::WaitObjGet(st->obj) < v)
      sim::Fail("early-return", "wait returned before the condition was true");
  }
  // Everything before the event is visible.
  for (int i = 1; i <= v; i++)
    if (sut::PlainRead(&st->data[i]) != i * 7)
      sim::Soft("stale-data", "data before event %d not visible", i);
  const sim::ThreadInfo& f = sim::Info(sim::Self());
  sim::Probe(f.cond_waits ? "wait_blocked" : "wait_spun");
  if (f.cond_waits && f.first_block_ns - t0 < (uint64_t)spin_ns)
    sim::Soft("blocked-early", "wait blocked after %ld ns, spin duration %ld ns",
              (long)(f.first_block_ns - t0), (long)spin_ns);
  uint64_t after = f.cond_waits ? f.after_expiry_at_block : f.atomics_after_expiry;
  if (spin_ns > 0 && after > 8)
    sim::Soft("spin-too-long", "%lu polls after the spin duration", (unsigned long)after);
  if (f.clock_reads > 8 * (uint64_t)evals + 16)
    sim::Soft("spin-blind", "%lu clock readings but only %d looks at the condition",
              (unsigned long)f.clock_reads, evals);
  if (f.timer_wakes > 3)
    sim::Soft("timer-polls", "woken %lu times by timers while waiting",
              (unsigned long)f.timer_wakes);
  if (spin_ns == 0 && f.cond_waits && f.atomics_before_block > 8)
    sim::Soft("spin-too-long", "polled with a zero spin duration");
}

// After a wait on the counter for round `round`.
void CheckRound(State* st, const Op& op, int round) {
  if (st->decrements[round] != st->total[round])
    sim::Fail("early-return", "counter wait returned after %d of %d decrements",
              st->decrements[round], st->total[round]);
  for (int t = 1; t <= st->clients; t++)
    for (int i = 0; i < op.a[1 + t] && i < 4; i++) {
      int slot = (round & 31) * kSlots * 4 + t * 4 + i;
      if (sut::PlainRead(&st->data[slot]) != round * 100 + t * 10 + i)
        sim::Soft("stale-data", "data before a decrement not visible after the wait");
    }
}

void Client(int thread, void* arg) {
  State* st = (State*)arg;
  if (st->plan->Get("mode") == 0) {
    for (const Op& op : st->plan->ops)
      if (op.thread == thread && op.kind == kWait) {
        Pause(op.a[2], op.a[3]);
        DoWait(st, op);
      }
    return;
  }
  int seen = 0;
  for (;;) {
    pthread_mutex_lock(&st->mu);
    while (st->round == seen && !st->stop) pthread_cond_wait(&st->cv, &st->mu);
    bool stop = st->round == seen;
    int round = st->round;
    const Op* op = st->round_op;
    pthread_mutex_unlock(&st->mu);
    if (stop) return;
    seen = round;
    int n = (int)op->a[1 + thread];
    for (int i = 0; i < n; i++) {
      Pause(op->a[9] & 7, (op->a[9] >> 3) * (thread & 1));
      int slot = (round & 31) * kSlots * 4 + thread * 4 + i;
      if (i < 4) sut::PlainWrite(&st->data[slot], round * 100 + thread * 10 + i);
      st->decrements[round]++;
      bool z;
      {
        sim::SutScope s;
        z = sut::CounterDecrement(st->counter);
      }
      if (z && ++st->reached_zero[round] > 1)
        sim::Soft("last-decrement", "two decrements reported reaching zero");
      if (z && st->decrements[round] < st->total[round])
        sim::Soft("last-decrement", "reached zero after %d of %d decrements",
                  st->decrements[round], st->total[round]);
    }
    if (op->a[10] >> thread & 1) {
      {
        sim::SutScope s;
        sut::CounterWait(st->counter, (double)op->a[11] / 1000.0);
      }
      CheckRound(st, *op, round);
      sim::Probe("counter_second_waiter");
      pthread_mutex_lock(&st->mu);
      if (--st->waiters_left == 0) pthread_cond_broadcast(&st->cv);
      pthread_mutex_unlock(&st->mu);
    }
  }
}

void Setter(State* st) {
  for (const Op& op : st->plan->ops) {
    if (op.thread != 0 || op.kind != kSet) continue;
    Pause(op.a[0], op.a[1]);
    int v = ++st->value;
    sut::PlainWrite(&st->data[v], v * 7);
    sim::SutScope s;
    sut::WaitObjSet(st->obj, v, true);
  }
  // Waiters may wait for values up to max; make them all true.
  int max = (int)st->plan->Get("max");
  while (st->value < max) {
    int v = ++st->value;
    sut::PlainWrite(&st->data[v], v * 7);
    sim::SutScope s;
    sut::WaitObjSet(st->obj, v, true);
  }
}

void Rounds(State* st) {
  for (const Op& op : st->plan->ops) {
    if (op.kind != kRound) continue;
    int total = 0;
    for (int i = 1; i <= st->clients; i++) total += (int)op.a[1 + i];
    if (total == 0) continue;
    int round = st->round + 1;
    if (round >= 30) break;
    st->total[round] = total;
    {
      sim::SutScope s;
      sut::CounterReset(st->counter, total);
    }
    pthread_mutex_lock(&st->mu);
    st->round = round;
    st->round_op = &op;
    for (int i = 1; i <= st->clients; i++) st->waiters_left += op.a[10] >> i & 1;
    pthread_cond_broadcast(&st->cv);
    pthread_mutex_unlock(&st->mu);
    {
      sim::SutScope s;
      sut::CounterWait(st->counter, (double)op.a[0] / 1000.0);
    }
    CheckRound(st, op, round);
    // The counter is reset for the next round only when nobody waits any more.
    pthread_mutex_lock(&st->mu);
    while (st->waiters_left) pthread_cond_wait(&st->cv, &st->mu);
    pthread_mutex_unlock(&st->mu);
    sim::Probe("counter_round");
  }
  pthread_mutex_lock(&st->mu);
  st->stop = true;
  pthread_cond_broadcast(&st->cv);
  pthread_mutex_unlock(&st->mu);
}

void Main(int thread, void* arg) {
  State* st = (State*)arg;
  // The highest numbered client drives.
  if (thread == st->clients + 1) {
    if (st->plan->Get("mode") == 0)
      Setter(st);
    else
      Rounds(st);
  } else {
    Client(thread, arg);
  }
}

void Run(const Plan& plan) {
  State* st = new State;
  st->plan = &plan;
  st->clients = (int)plan.Get("clients");
  size_t bytes = 32 * kSlots * 4 * 8;
  st->data = (int64_t*)sim::UserAlloc(bytes, 16, 0);
  memset(st->data, 0, bytes);
  sim::UserWrite(st->data, bytes);
  {
    sim::SutScope s;
    st->obj = sut::WaitObjNew();
    st->counter = sut::CounterNew();
  }
  RunClients(st->clients + 1, Main, st);
  for (int i = 1; i <= st->round; i++)
    if (st->reached_zero[i] != 1)
      sim::Soft("last-decrement", "%d decrements reported reaching zero", st->reached_zero[i]);
  sim::SutScope s;
  sut::WaitObjDelete(st->obj);
  sut::CounterDelete(st->counter);
}

void Gen(Rng& r, const std::string& prop, Plan* p) {
  SwarmOpts so;
  so.pct_len = 200;
  DrawSim(r, p, so);
  p->cfg["s.tick_ns"] = r.Pick({2000, 50000, 500000});
  int clients = (int)r.In(1, 4);
  int mode = (int)r.Below(2);
  if (prop == "C07") {
    mode = 0;
    p->cfg["s.spurious_permille"] = 0;
  }
  p->cfg["clients"] = clients;
  p->cfg["mode"] = mode;
  if (mode == 0) {
    int max = (int)r.In(1, 6);
    p->cfg["max"] = max;
    for (int i = 0; i < max; i++) {
      Op o;
      o.kind = kSet;
      o.a[0] = r.Below(10);
      o.a[1] = r.Chance(30) ? r.Pick({10, 500, 3000, 20000}) : 0;
      if (prop == "C07" && r.Chance(1)) o.a[1] = 100000000;
      p->ops.push_back(o);
    }
    for (int t = 1; t <= clients; t++) {
      int n = (int)r.In(1, 4), v = 0;
      for (int i = 0; i < n; i++) {
        Op o;
        o.thread = t;
        o.kind = kWait;
        v = (int)r.In(v, max);
        o.a[0] = v;
        o.a[1] = r.Pick({0, 0, 1, 100, 2000});
        if (r.Chance(4)) o.a[1] = r.Pick({12000, 30000});
        o.a[2] = r.Below(6);
        o.a[3] = r.Chance(20) ? r.Pick({10, 500, 3000}) : 0;
        p->ops.push_back(o);
      }
    }
  } else {
    int n = (int)r.In(1, 8);
    for (int i = 0; i < n; i++) {
      Op o;
      o.kind = kRound;
      o.a[0] = r.Pick({0, 0, 1, 100, 2000});
      for (int t = 1; t <= clients; t++) o.a[1 + t] = r.Below(4);
      if (r.Chance(2))
        for (int t = 1; t <= clients; t++) o.a[1 + t] = r.Below(r.Chance(20) ? 120 : 20);
      if (r.Chance(40)) {
        o.a[10] = r.Below(1 << (clients + 1)) & ~1;
        o.a[11] = r.Pick({0, 0, 1, 100, 2000});
      }
      o.a[9] = r.Below(8) | (r.Chance(20) ? r.Pick({10, 3000}) << 3 : 0);
      p->ops.push_back(o);
    }
  }
}

Registrar reg({"wait", "any", Gen, Run});

}  // namespace
