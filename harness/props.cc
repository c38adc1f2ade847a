#include "props.h"

#define MEMORY                                                                     \
  "data-race", "heap-use-after-free", "heap-out-of-bounds", "heap-double-free",   \
      "heap-bad-free", "crash", "abort", "const-write", "sync-misuse", "exit"
#define HANG "deadlock", "livelock", "hang-wall"
#define RESULT "result-mismatch", "dst-outside-write", "exception"

static const std::vector<PropDef>& Table() {
  static const std::vector<PropDef>* t = new std::vector<PropDef>{
      {"C01", {{"ctx", "any", 1, nullptr}}, {RESULT, MEMORY, HANG}},
      {"C02",
       {{"ctx", "any", 6, nullptr}, {"pool", "any", 2, nullptr}, {"wait", "any", 1, nullptr}},
       {"data-race", "stale-data", "result-mismatch", "sync-misuse", "heap-use-after-free"}},
      {"C03",
       {{"ctx", "any", 5, nullptr}, {"pool", "any", 4, nullptr}, {"wait", "any", 3, nullptr}},
       {HANG, "sync-misuse", "abort", "exit"}},
      {"C04",
       {{"pool", "any", 1, nullptr}},
       {"task-count", "task-stray", "task-unfinished", "task-thread", "stale-data",
        "exception", MEMORY, HANG}},
      {"C05",
       {{"ctx", "any", 5, nullptr}, {"pool", "any", 3, nullptr}},
       {"leak", "growth", "thread-leak", "task-stray", "task-unfinished", "dst-outside-write", MEMORY, HANG}},
      {"C06",
       {{"wait", "any", 3, nullptr}, {"pool", "any", 1, nullptr}},
       {"early-return", "last-decrement", "stale-data", "task-unfinished", MEMORY, HANG}},
      {"C07",
       {{"pool", "any", 3, nullptr}, {"wait", "any", 1, nullptr}},
       {"spin-too-long", "spin-blind", "blocked-early", "polls-after-block", "timer-polls", "settings",
        HANG}},
      {"C08",
       {{"ctx", "any", 1, nullptr}},
       {RESULT, MEMORY, "leak"}},
      {"C09",
       {{"cache", "any", 6, nullptr}, {"ctx", "any", 1, nullptr}},
       {"cache-lookup", "cache-contents", "cache-ejection", "cache-accounting", RESULT, MEMORY,
        "leak"}},
      {"C10",
       {{"alloc", "any", 1, nullptr}},
       {"alloc-contract", "alloc-growth", "leak", "exception", MEMORY}},
      {"C12",
       {{"ctx", "any", 4, nullptr}, {"pool", "any", 1, nullptr}},
       {RESULT, MEMORY, HANG, "leak", "thread-leak", "settings", "path", "advisory", "task-count",
        "fpenv"}},
      {"C13",
       {{"ctx", "any", 1, nullptr}},
       {RESULT, "settings", "path", "path-unstable", "advisory", "thread-budget", MEMORY, HANG}},
      {"C14",
       {{"ctx", "any", 1, nullptr}},
       {RESULT, "fpenv"}},
      {"C15",
       {{"tune", "any", 1, nullptr}},
       {"tuning", "tuning-stale", "tuning-rate", "settings", MEMORY, HANG}},
      {"C16",
       {{"ctx", "any", 1, nullptr}},
       {RESULT, "path", "path-unstable", MEMORY, HANG}},
      {"C17",
       {{"ctx", "any", 3, nullptr}, {"pool", "any", 1, nullptr}},
       {"thread-budget", "thread-leak"}},
      {"C18",
       {{"prof", "prof", 1, nullptr}},
       {"profile-sample", "profile-tree", "profile-scope", "data-race", "heap-use-after-free",
        "heap-out-of-bounds", "crash"}},
      {"C19",
       {{"prof", "prof", 1, nullptr}},
       {"profile-scope", "profile-rate", "profile-sample", RESULT, MEMORY, HANG}},
      {"C24",
       {{"ctx", "any", 3, nullptr}, {"pool", "any", 1, nullptr}},
       {RESULT, MEMORY, HANG, "leak", "thread-leak", "task-count", "task-stray", "task-unfinished",
        "stale-data", "settings", "fpenv"}},
      {"C25",
       {{"perf", "any", 1, nullptr}},
       {"perf-count", "perf-fd", "perf-leak", MEMORY, "data-race", HANG}},
      {"C11",
       {{"ctx", "any", 5, nullptr}, {"pool", "any", 1, nullptr}},
       {RESULT, "data-race", "heap-use-after-free", "heap-out-of-bounds", "heap-double-free",
        "heap-bad-free", "const-write", "crash", "sync-misuse", "task-count", "task-unfinished",
        HANG}},
  };
  return *t;
}

const PropDef* FindProp(const std::string& id) {
  for (const PropDef& d : Table())
    if (id == d.id) return &d;
  return nullptr;
}
