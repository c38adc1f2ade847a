// Multiplications as plan operations, with oracle.
#ifndef VERIF_HARNESS_MULOP_H_
#define VERIF_HARNESS_MULOP_H_

#include <cstdint>
#include <vector>

#include "plan.h"
#include "sut.h"

enum ValueMode : int {
  kSmallInts = 0,  // exact in every floating-point evaluation order
  kRandom = 1,
  kDenormal = 2,
  kExtreme = 3
};

// Layout of Op::a for a multiplication.
enum MulField : int {
  kMCombo = 0,
  kMRows,
  kMDepth,
  kMCols,
  kMOrders,   // bit 0 lhs, 1 rhs, 2 dst (1 = row-major)
  kMPads,     // stride padding: lhs | rhs << 8 | dst << 16
  kMZpL,
  kMZpR,
  kMZpD,
  kMPolicy,   // lhs | rhs << 4
  kMFlags,    // see MulFlag
  kMSeed,
  kMValues,   // ValueMode
  kMBufL,     // id of a persistent buffer (0: temporary)
  kMBufR,
  kMOffL,     // element offset into the persistent buffer
  kMOffR,
  kMMisalign  // extra misalignment of temporaries in elements
};
enum MulFlag : int {
  kMFBias = 1,
  kMFPerChannel = 2,
  kMFChannelCol = 4,
  kMFClamp = 8,
  kMFAllPaths = 16,
  kMFCap8 = 32,
  kMFCap16 = 64,
  kMFDstSub = 128,  // destination is a sub-block of a larger buffer
};

struct MulGen {
  int max_long = 0;  // if not 0: some shapes have one side up to this
  int max_dim = 24;
  int64_t max_macs = 12000;
  bool caching = false;
  bool allow_all_paths = true;
  int combos = 0x3f;  // bit mask
  int values = kSmallInts;
};
void GenMul(Rng& r, const MulGen& g, int64_t* a);

// Persistent operand buffers of a run (user memory).
struct Buffer {
  char* p = nullptr;
  size_t bytes = 0;
  uint64_t seed = 0;
};

// Per-run state for multiplications.
struct MulEnv {
  std::vector<Buffer> bufs;  // index 0 unused
};

struct MulResult {
  bool threw = false;
  int path = 0;
  bool advisory = false, ref_advisory = false;
  uint64_t writers = 0;  // threads that wrote the destination
  std::vector<char> dst;  // elements only, column-major order of bytes
};
struct MulOpts {
  bool faults = false;         // arm allocation/thread faults during the call
  bool check = true;           // compare with the single-threaded reference
  bool exact_check = false;    // compare with the harness' own exact product
  bool free_operands = true;
  int ref_paths = -1;          // -1: path used by the call under test
  void (*before)(void*) = nullptr;
  void (*after)(void*) = nullptr;
  void* arg = nullptr;
};
// Performs the multiplication on ctx and checks it. Fails the run on mismatch.
MulResult DoMul(MulEnv* env, void* ctx, const int64_t* a, const MulOpts& o);

// Fills a persistent buffer.
void FillBuffer(Buffer* b, int combo, uint64_t seed, int values);
void NewBuffer(MulEnv* env, int id, size_t bytes);

#endif
