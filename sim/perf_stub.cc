// Simulated kernel event counters, behind the system calls of pmu.cc.
#include "perf.h"

#include <errno.h>
#include <linux/perf_event.h>
#include <stdarg.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>

#include "sim.h"

namespace sim {
namespace {
constexpr int kFirstFd = 1000, kMaxFds = 1024;
struct Counter {
  bool open, enabled, inherit, user, kernel;
  int owner;
  uint32_t type;
  uint64_t config;
  uint64_t opened_at;   // order of events
  int64_t count;
  int64_t child_count;  // of ended children; not reset
  int64_t live_child;
};
Counter g_counters[kMaxFds];
int g_nfds;
uint64_t g_order;
int g_opens;
struct Child {
  bool is_child;
  int parent;
  uint64_t born_at;
} g_child[kMaxThreads];

Counter* Find(int fd, const char* what) {
  if (fd < 0) return nullptr;
  int i = fd - kFirstFd;
  if (i < 0 || i >= g_nfds || !g_counters[i].open)
    Fail("perf-fd", "%s of file descriptor %d, which is not an open counter", what, fd);
  return &g_counters[i];
}
}  // namespace

int64_t PerfRate(uint64_t config, uint32_t type) {
  uint64_t h = ((uint64_t)g_cfg.perf_rates * 1000003 + type) * 1000003 + config;
  h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  return h % 5 ? (int64_t)(h / 5 % 251) : 0;
}

void PerfWork(int64_t n, bool kernel) {
  int self = Self();
  for (int i = 0; i < g_nfds; i++) {
    Counter& c = g_counters[i];
    if (!c.open || !c.enabled || !(kernel ? c.kernel : c.user)) continue;
    if (c.owner == self)
      c.count += n * PerfRate(c.config, c.type);
    else if (c.inherit && g_child[self].is_child && g_child[self].parent == c.owner &&
             g_child[self].born_at > c.opened_at)
      c.live_child += n * PerfRate(c.config, c.type);
  }
}
void PerfChildBegin(int parent) { g_child[Self()] = {true, parent, ++g_order}; }
void PerfChildEnd() {
  int parent = g_child[Self()].parent;
  g_child[Self()].is_child = false;
  for (int i = 0; i < g_nfds; i++) {
    Counter& c = g_counters[i];
    if (!c.open || c.owner != parent) continue;
    c.child_count += c.live_child;
    c.live_child = 0;
  }
}
int PerfOpenCount() {
  int n = 0;
  for (int i = 0; i < g_nfds; i++) n += g_counters[i].open;
  return n;
}
}  // namespace sim

using sim::Counter;

extern "C" {
long sim_syscall(long number, ...) {
  va_list ap;
  va_start(ap, number);
  const perf_event_attr* pe = va_arg(ap, const perf_event_attr*);
  va_end(ap);
  if (number != SYS_perf_event_open) sim::Machinery("system call %ld is not simulated", number);
  sim::Yield();
  bool fail = sim::g_cfg.perf_open_fail_nth == ++sim::g_opens;
  if (sim::SyscallFault(1, fail ? 1000 : 0)) {
    sim::Probe("perf_open_refused");
    errno = EACCES;
    return -1;
  }
  if (sim::g_nfds == sim::kMaxFds) sim::Machinery("too many event counters");
  Counter& c = sim::g_counters[sim::g_nfds];
  memset(&c, 0, sizeof c);
  c.open = true;
  c.enabled = !pe->disabled;
  c.inherit = pe->inherit;
  c.user = !pe->exclude_user;
  c.kernel = !pe->exclude_kernel;
  c.type = pe->type;
  c.owner = sim::Self();
  c.config = pe->config;
  c.opened_at = ++sim::g_order;
  return sim::kFirstFd + sim::g_nfds++;
}

int sim_ioctl(int fd, unsigned long request, ...) {
  sim::Yield();
  Counter* c = sim::Find(fd, "ioctl");
  if (!c) {
    errno = EBADF;
    return -1;
  }
  switch (request) {
    case PERF_EVENT_IOC_RESET:
      c->count = 0;
      break;
    case PERF_EVENT_IOC_ENABLE:
      c->enabled = true;
      break;
    case PERF_EVENT_IOC_DISABLE:
      c->enabled = false;
      break;
    default:
      sim::Machinery("ioctl %lu is not simulated", request);
  }
  return 0;
}

ssize_t sim_read(int fd, void* buf, size_t n) {
  sim::Yield();
  Counter* c = sim::Find(fd, "read");
  if (!c) {
    errno = EBADF;
    return -1;
  }
  uint32_t v = sim::SyscallFault(2, (uint32_t)sim::g_cfg.perf_read_fail_permille);
  if (v == 1) {
    sim::Probe("perf_read_refused");
    errno = EIO;
    return -1;
  }
  if (v == 2) {
    // What the kernel returns for a counter in error state.
    sim::Probe("perf_read_empty");
    return 0;
  }
  if (n < sizeof(int64_t)) {
    errno = ENOSPC;
    return -1;
  }
  int64_t total = c->count + c->child_count + c->live_child;
  memcpy(buf, &total, sizeof total);
  return sizeof total;
}

int sim_close(int fd) {
  sim::Yield();
  Counter* c = sim::Find(fd, "close");
  if (!c) {
    errno = EBADF;
    return -1;
  }
  c->open = false;
  return 0;
}
}
