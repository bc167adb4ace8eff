// Deterministic simulator core: scheduler, virtual clock, storage seam, heap, race/memory oracle.
// One simulated run happens in one forked child process.  Every thread of the run (producers,
// controlling thread, the library's own worker) is a real thread, but exactly one of them runs at
// a time and the scheduler decides which one at every yield point.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Rng {  // splitmix64 / xorshift, value-stable
  uint64_t s = 1;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { Next(); }
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : Next() % n; }
  int64_t Range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(Below(static_cast<uint64_t>(hi - lo + 1))); }
  bool Chance(double p) { return (Next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double Unit() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline uint64_t Mix(uint64_t a, uint64_t b, uint64_t c = 0, uint64_t d = 0) {
  uint64_t h = 0x9E3779B97F4A7C15ull;
  for (uint64_t v : {a, b, c, d}) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 29;
  }
  return h;
}

// A scheduling decision that differs from the default ("keep running the current thread").
//  kind 's': at sync step `at`;  kind 'm': at memory-access step `at` (instrumented build only).
//  arg >= 0: run thread arg;  -1: let the clock jump to the next timer;  -2: spurious wake-up.
struct Deviation {
  char kind = 's';
  uint64_t at = 0;
  int32_t arg = 0;
};

// A storage fault: the `nth` (0-based) operation of class `op` counted from ArmFaults().
//  op: 'w' write, 'r' read, 'o' open for write, 'i' open for read, 'c' capacity (nth = bytes)
struct Fault {
  char op = 'w';
  uint64_t nth = 0;
  std::string kind;   // eintr short eio enospc eacces  | for 'c': enospc
  uint64_t count = 1;  // number of consecutive operations hit (0 = for ever)
};

struct ClockJump { uint64_t at_ns = 0; int64_t delta_ns = 0; };

struct SchedConfig {
  bool replay = false;              // use devs only, no randomness
  std::vector<Deviation> devs;
  uint64_t seed = 1;
  double p_switch = 0;              // random preemption probability per sync step
  double p_timer = 0;               // probability of a clock jump to the next timer
  double p_spurious = 0;
  double p_pick = 0;                // random (instead of lowest id) thread when the current one blocks
  uint64_t mem_gap = 0;             // mean gap between memory-level preemptions (0 = off)
  uint64_t tick_ns = 1000;          // virtual time per step
  uint64_t step_cap = 40'000'000;
  uint64_t time_cap_ns = 6ull * 3600 * 1'000'000'000ull;  // relative to the start
  uint64_t real_base = 1'700'000'000'000'000'000ull;
  std::vector<ClockJump> jumps;
};

struct JournalOp {
  char type;  // W write, T truncate, C close, O open, X remove
  int file;
  uint64_t off;
  uint64_t time;     // virtual time
  uint64_t step;
  std::string data;
};

struct Stats {
  uint64_t steps = 0, mem_steps = 0, switches = 0, timer_jumps = 0, spurious = 0, preempt = 0, mem_preempt = 0;
  uint64_t threads = 0, sim_ns = 0, hash = 0, opens = 0, iopens = 0, reads = 0, writes = 0;
  std::map<std::string, uint64_t> faults;  // fired, by kind
};

void Start(const SchedConfig& cfg, const std::string& scratch_prefix);
void Stop();  // all other threads must have ended
bool Active();
const Stats& GetStats();
const std::vector<Deviation>& Recorded();
uint64_t Now();       // virtual monotonic time, ns
uint64_t RealNow();   // virtual wall clock, ns since 1970
void Sleep(uint64_t ns);
void Yield(int kind, uint64_t obj = 0);
void Note(uint64_t v);  // mixes v into the execution hash
void SetStage(const char* text);
void SetLimitStage(const char* what);
const char* Stage();

// Harness code calls the library inside this scope; the memory oracle only looks there (and at
// threads created by the library).
struct Api {
  Api();
  ~Api();
  bool old_;
};

// Reports a violation (or any final result) and ends the child.
[[noreturn]] void Fail(const std::string& cls, const std::string& msg);
extern void (*g_fail_hook)(const std::string& cls, const std::string& msg);

// Storage
void ArmFaults(const std::vector<Fault>& faults);
void DisarmFaults();
struct IoCounts { uint64_t w = 0, r = 0, o = 0, i = 0, n = 0; };  // n: rename, mkdir
IoCounts Counts();  // operations since ArmFaults()
bool AnyFaultFired();
void JournalOn(bool on);
const std::vector<JournalOp>& Journal();
const std::vector<std::string>& JournalFiles();
int OpenFileCount();
uint64_t HeapLive();  // bytes allocated in the run and not freed

bool RaceOracle();  // true in the instrumented build
void EnableRaceOracle(bool on);
bool Instrumented();
void NoteAtomicRegion();
}  // namespace sim
