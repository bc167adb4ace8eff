#include "sim.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <deque>
#include <new>
#include <unordered_map>

namespace sim {
void (*g_fail_hook)(const std::string&, const std::string&) = nullptr;
namespace {

template <typename F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(ret, name, ...)                                    \
  static ret (*real_##name)(__VA_ARGS__) = nullptr;             \
  if (real_##name == nullptr) real_##name = Real<ret (*)(__VA_ARGS__)>(#name)

bool g_active = false;

// ---------------------------------------------------------------- threads
constexpr int kMaxThreads = 64;
struct Sem {
  std::atomic<int> v{0};
  void Post() {
    v.store(1, std::memory_order_release);
    syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
  }
  void Wait() {
    for (int i = 0; i < 200; ++i) {
      if (v.load(std::memory_order_acquire) == 1) {
        v.store(0);
        return;
      }
    }
    while (v.load(std::memory_order_acquire) != 1) {
      syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    v.store(0);
  }
};
enum class St : uint8_t { Free, Run, Mutex, Cond, Join, Sleep, Done };
constexpr uint64_t kNever = ~0ull;
struct Thr {
  St st = St::Free;
  const void* obj = nullptr;
  uint64_t deadline = kNever;
  bool timed_out = false;
  Sem sem;
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  bool in_lib = false;
  bool lib_thread = false;
  uintptr_t stack_lo = 0, stack_hi = 0;
  uint32_t vc[kMaxThreads] = {};
};
Thr g_thr[kMaxThreads];
int g_nthr = 0;
thread_local int t_id = -1;
int g_cur = 0;

SchedConfig g_cfg;
Rng g_rng;
Stats g_stats;
std::vector<Deviation>* g_rec = nullptr;
size_t g_dev_s = 0, g_dev_m = 0;
std::vector<Deviation>* g_dev_sync = nullptr;
std::vector<Deviation>* g_dev_mem = nullptr;
uint64_t g_now = 0, g_t0 = 0;
uint64_t g_next_mem = kNever;
char g_stage[256] = "";

struct MutexS { int owner = -1; int rec = 0; };
struct VC { uint32_t c[kMaxThreads] = {}; };
std::unordered_map<const void*, MutexS>* g_mutex = nullptr;
std::unordered_map<const void*, VC>* g_sync_vc = nullptr;
std::unordered_map<const void*, uint64_t>* g_obj_id = nullptr;

bool InSim() { return g_active && t_id >= 0; }

// Harness-internal bookkeeping must not use the simulated heap.
thread_local int t_nosim = 0;
thread_local int t_noswitch = 0;
struct NoSim {
  NoSim() { ++t_nosim; }
  ~NoSim() { --t_nosim; }
};

void HashIn(uint64_t v) {
  g_stats.hash ^= v;
  g_stats.hash *= 0x100000001b3ull;
  g_stats.hash ^= g_stats.hash >> 31;
}
uint64_t ObjId(const void* p) {
  NoSim n;
  auto it = g_obj_id->find(p);
  if (it != g_obj_id->end()) return it->second;
  uint64_t id = g_obj_id->size() + 1;
  g_obj_id->emplace(p, id);
  return id;
}

// ---------------------------------------------------------------- happens-before
void VcRelease(const void* obj) {
  NoSim n;
  auto& t = g_thr[t_id];
  auto& v = (*g_sync_vc)[obj];
  for (int i = 0; i < g_nthr; ++i) if (t.vc[i] > v.c[i]) v.c[i] = t.vc[i];
  ++t.vc[t_id];
}
void VcAcquire(const void* obj) {
  NoSim n;
  auto it = g_sync_vc->find(obj);
  if (it == g_sync_vc->end()) return;
  auto& t = g_thr[t_id];
  for (int i = 0; i < g_nthr; ++i) if (it->second.c[i] > t.vc[i]) t.vc[i] = it->second.c[i];
}

// ---------------------------------------------------------------- scheduling
void WakeTimers() {
  for (int i = 0; i < g_nthr; ++i) {
    auto& t = g_thr[i];
    if ((t.st == St::Sleep || t.st == St::Cond) && t.deadline <= g_now) {
      t.timed_out = true;
      t.st = St::Run;
      t.deadline = kNever;
    }
  }
}
uint64_t MinDeadline(int* who) {
  uint64_t best = kNever;
  for (int i = 0; i < g_nthr; ++i) {
    if ((g_thr[i].st == St::Sleep || g_thr[i].st == St::Cond) && g_thr[i].deadline < best) {
      best = g_thr[i].deadline;
      *who = i;
    }
  }
  return best;
}
const char* StName(St s) {
  switch (s) {
    case St::Run: return "runnable";
    case St::Mutex: return "mutex";
    case St::Cond: return "condition";
    case St::Join: return "join";
    case St::Sleep: return "sleep";
    case St::Done: return "done";
    default: return "?";
  }
}
void SwitchTo(int next) {
  if (next == t_id) return;
  ++g_stats.switches;
  g_cur = next;
  const int me = t_id;
  g_thr[next].sem.Post();
  g_thr[me].sem.Wait();
}

// Decides who runs next.  Returns the chosen thread.
int Decide(bool can_continue, char kind, uint64_t at, std::vector<Deviation>* list, size_t& pos) {
  int dev = -100;
  if (can_continue && t_noswitch > 0) return t_id;
  if (g_cfg.replay) {
    if (list != nullptr && pos < list->size() && (*list)[pos].at <= at) {
      while (pos < list->size() && (*list)[pos].at < at) ++pos;
      if (pos < list->size() && (*list)[pos].at == at) dev = (*list)[pos++].arg;
    }
  } else if (kind == 'm') {
    dev = -50;  // any other
  } else {
    if (g_cfg.p_timer > 0 && g_rng.Chance(g_cfg.p_timer)) dev = -1;
    else if (g_cfg.p_spurious > 0 && g_rng.Chance(g_cfg.p_spurious)) dev = -2;
    else if (can_continue ? (g_cfg.p_switch > 0 && g_rng.Chance(g_cfg.p_switch))
                          : (g_cfg.p_pick > 0 && g_rng.Chance(g_cfg.p_pick))) dev = -50;
  }
  int run[kMaxThreads], n = 0;
  for (int i = 0; i < g_nthr; ++i) if (g_thr[i].st == St::Run) run[n++] = i;
  int def = can_continue ? t_id : (n > 0 ? run[0] : -1);
  int chosen = def;
  int rec = -100;
  if (dev == -50) {  // random other runnable thread
    int cand[kMaxThreads], m = 0;
    for (int k = 0; k < n; ++k) if (run[k] != def) cand[m++] = run[k];
    if (m > 0) {
      chosen = cand[g_rng.Below(static_cast<uint64_t>(m))];
      rec = chosen;
      if (can_continue) (kind == 'm' ? g_stats.mem_preempt : g_stats.preempt)++;
    }
  } else if (dev >= 0) {
    if (dev < g_nthr && g_thr[dev].st == St::Run) {
      chosen = dev;
      rec = dev;
      if (can_continue && dev != def) (kind == 'm' ? g_stats.mem_preempt : g_stats.preempt)++;
    }
  } else if (dev == -1) {
    int who = -1;
    const uint64_t d = MinDeadline(&who);
    if (d != kNever && d - g_t0 < g_cfg.time_cap_ns) {
      if (d > g_now) g_now = d;
      WakeTimers();
      chosen = who;
      rec = -1;
      ++g_stats.timer_jumps;
    }
  } else if (dev == -2) {
    for (int i = 0; i < g_nthr; ++i) {
      if (g_thr[i].st == St::Cond) {
        g_thr[i].st = St::Run;
        g_thr[i].deadline = kNever;
        g_thr[i].timed_out = false;
        chosen = i;
        rec = -2;
        ++g_stats.spurious;
        break;
      }
    }
  }
  if (rec != -100) {
    NoSim ns;
    g_rec->push_back({kind, at, rec});
  }
  if (chosen < 0) {  // nobody runnable: advance to the next timer
    int who = -1;
    const uint64_t d = MinDeadline(&who);
    if (d == kNever) {
      std::string msg;
      {
        NoSim ns;
        msg = "no thread can run:";
        for (int i = 0; i < g_nthr; ++i) {
          msg += " t" + std::to_string(i) + "=" + StName(g_thr[i].st);
        }
      }
      Fail("DEADLOCK", msg);
    }
    if (d > g_now) g_now = d;
    WakeTimers();
    chosen = who;
  }
  return chosen;
}

void Resched(bool can_continue, int kind, uint64_t obj) {
  ++g_stats.steps;
  g_now += g_cfg.tick_ns;
  if (g_stats.steps > g_cfg.step_cap) Fail("LIVELOCK", "step cap reached");
  if (g_now - g_t0 > g_cfg.time_cap_ns) Fail("LIVELOCK", "virtual time cap reached");
  WakeTimers();
  if (g_nthr > 1) HashIn((static_cast<uint64_t>(t_id) << 48) ^ (static_cast<uint64_t>(kind) << 40) ^ obj);
  const int next = Decide(can_continue, 's', g_stats.steps, g_dev_sync, g_dev_s);
  SwitchTo(next);
}

void BlockOn(St st, const void* obj, uint64_t deadline, int kind) {
  auto& t = g_thr[t_id];
  t.st = st;
  t.obj = obj;
  t.deadline = deadline;
  t.timed_out = false;
  Resched(false, kind, ObjId(obj));
}

int MutexLock(const void* m) {
  Resched(true, 1, ObjId(m));
  for (;;) {
    MutexS* s;
    {
      NoSim n;
      s = &(*g_mutex)[m];
    }
    if (s->owner < 0) {
      s->owner = t_id;
      VcAcquire(m);
      return 0;
    }
    if (s->owner == t_id) {
      Fail("DEADLOCK", "thread locks a mutex it already holds");
    }
    BlockOn(St::Mutex, m, kNever, 2);
  }
}
void MutexRelease(const void* m) {
  NoSim n;
  auto it = g_mutex->find(m);
  if (it == g_mutex->end() || it->second.owner != t_id) {
    // undefined behaviour in the library under test
    Fail("LOCKING", "unlock of a mutex the thread does not hold");
  }
  VcRelease(m);
  g_mutex->erase(it);
  for (int i = 0; i < g_nthr; ++i) {
    if (g_thr[i].st == St::Mutex && g_thr[i].obj == m) g_thr[i].st = St::Run;
  }
}
int MutexUnlock(const void* m) {
  MutexRelease(m);
  Resched(true, 3, ObjId(m));
  return 0;
}
int CondWait(const void* c, const void* m, uint64_t deadline) {
  Resched(true, 26, ObjId(c));  // between the predicate and the wait
  MutexRelease(m);
  BlockOn(St::Cond, c, deadline, 4);
  const bool to = g_thr[t_id].timed_out;
  for (;;) {
    MutexS* s;
    {
      NoSim n;
      s = &(*g_mutex)[m];
    }
    if (s->owner < 0) {
      s->owner = t_id;
      VcAcquire(m);
      break;
    }
    BlockOn(St::Mutex, m, kNever, 2);
  }
  return to ? ETIMEDOUT : 0;
}
void CondSignal(const void* c, bool all) {
  for (int i = 0; i < g_nthr; ++i) {
    if (g_thr[i].st == St::Cond && g_thr[i].obj == c) {
      g_thr[i].st = St::Run;
      g_thr[i].deadline = kNever;
      g_thr[i].timed_out = false;
      if (!all) break;
    }
  }
  Resched(true, 5, ObjId(c));
}

void StackBounds(Thr& t) {
  NoSim n;
  pthread_attr_t a;
  if (pthread_getattr_np(pthread_self(), &a) == 0) {
    void* addr;
    size_t sz;
    pthread_attr_getstack(&a, &addr, &sz);
    t.stack_lo = reinterpret_cast<uintptr_t>(addr);
    t.stack_hi = t.stack_lo + sz;
    pthread_attr_destroy(&a);
  }
}
void* ThreadMain(void* p) {
  auto* t = static_cast<Thr*>(p);
  const int id = static_cast<int>(t - g_thr);
  t->sem.Wait();
  t_id = id;
  StackBounds(*t);
  t->in_lib = t->lib_thread;
  void* r = t->fn(t->arg);
  // finished: wake joiners, hand over and leave without touching the scheduler again
  t->st = St::Done;
  t->in_lib = false;
  for (int i = 0; i < g_nthr; ++i) {
    if (g_thr[i].st == St::Join && g_thr[i].obj == t) g_thr[i].st = St::Run;
  }
  ++g_stats.steps;
  g_now += g_cfg.tick_ns;
  WakeTimers();
  HashIn((static_cast<uint64_t>(id) << 48) ^ (9ull << 40));
  const int next = Decide(false, 's', g_stats.steps, g_dev_sync, g_dev_s);
  g_cur = next;
  ++g_stats.switches;
  t_id = -1;
  g_thr[next].sem.Post();
  return r;
}

// ---------------------------------------------------------------- heap
constexpr uintptr_t kArena = 0x200000000000ull;
constexpr size_t kArenaSize = 6ull << 30;
uintptr_t g_bump = 0;
struct FreeNode { FreeNode* next; };
FreeNode* g_free[4096];
struct Hdr { uint64_t cls_size; uint64_t req; };
struct QEnt { uintptr_t p; };
std::deque<uintptr_t>* g_quar = nullptr;
size_t g_quar_bytes = 0;

struct Cell { uint32_t w, r0, r1, r2; uint32_t wpc, rpc; uint8_t wm, m0, m1, m2; };  // m: bytes touched
Cell* g_shadow = nullptr;
bool g_race_on = false;
constexpr uint32_t kFreed = 0xFFFFFFFFu, kRed = 0xFFFFFFFEu;

size_t ClassSize(size_t n, int* cls) {
  if (n <= 2048) {
    size_t k = (n + 15) / 16;
    if (k == 0) k = 1;
    *cls = static_cast<int>(k);
    return k * 16;
  }
  int lg = 63 - __builtin_clzll(n);
  size_t base = 1ull << lg, step = base / 4;
  size_t k = (n - base + step - 1) / step;
  *cls = 200 + lg * 5 + static_cast<int>(k);
  return base + k * step;
}
void ShadowFill(uintptr_t p, size_t n, uint32_t w) {
  if (!g_shadow) return;
  size_t i = (p - kArena) / 8, e = (p + n + 7 - kArena) / 8;
  if (w == 0) {
    memset(g_shadow + i, 0, (e - i) * sizeof(Cell));
  } else {
    for (; i < e; ++i) g_shadow[i] = Cell{w, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  }
}
static uint64_t g_live = 0;
void* ArenaAlloc(size_t n) {
  int cls;
  const size_t sz = ClassSize(n, &cls);
  uintptr_t p;
  if (g_free[cls]) {
    p = reinterpret_cast<uintptr_t>(g_free[cls]);
    g_free[cls] = g_free[cls]->next;
  } else {
    if (n > (1ull << 31) || g_bump + sz + 16 > kArena + kArenaSize) return nullptr;  // std::bad_alloc, as on a small machine
    p = g_bump + 16;
    g_bump += sz + 16;
  }
  auto* h = reinterpret_cast<Hdr*>(p - 16);
  h->cls_size = static_cast<uint64_t>(cls) << 40 | sz;
  h->req = n;
  g_live += n;
  memset(reinterpret_cast<void*>(p), 0xCD, sz > 65536 ? 65536 : sz);
  if (g_shadow) {
    ShadowFill(p - 16, 16, kRed);
    ShadowFill(p, n, 0);
    const size_t used = (n + 7) / 8 * 8;
    if (used < sz) ShadowFill(p + used, sz - used, kRed);
  }
  return reinterpret_cast<void*>(p);
}
void ArenaFree(void* vp) {
  const auto p = reinterpret_cast<uintptr_t>(vp);
  auto* h = reinterpret_cast<Hdr*>(p - 16);
  if (h->req == ~0ull || (h->cls_size >> 40) == 0 || (h->cls_size >> 40) >= 4096) {
    Fail("MEMORY", "double or invalid free");
  }
  const size_t sz = h->cls_size & ((1ull << 40) - 1);
  g_live -= h->req;
  memset(vp, 0xDD, sz > 4096 ? 4096 : sz);
  if (g_shadow) ShadowFill(p, h->req, kFreed);
  h->req = ~0ull;
  NoSim n;
  g_quar->push_back(p);
  g_quar_bytes += sz;
  while (g_quar_bytes > (24u << 20) || g_quar->size() > 20000) {
    const uintptr_t q = g_quar->front();
    g_quar->pop_front();
    auto* qh = reinterpret_cast<Hdr*>(q - 16);
    g_quar_bytes -= qh->cls_size & ((1ull << 40) - 1);
    const auto cls = qh->cls_size >> 40;
    auto* f = reinterpret_cast<FreeNode*>(q);
    f->next = g_free[cls];
    g_free[cls] = f;
  }
}
bool IsArena(const void* p) {
  const auto a = reinterpret_cast<uintptr_t>(p);
  return a >= kArena && a < kArena + kArenaSize;
}
void ArenaInit() {
  void* r = mmap(reinterpret_cast<void*>(kArena), kArenaSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != reinterpret_cast<void*>(kArena)) {
    fprintf(stderr, "sim: cannot map arena\n");
    _exit(3);
  }
  g_bump = kArena;
  g_quar = new std::deque<uintptr_t>();
  if (g_race_on) {
    void* s = mmap(nullptr, kArenaSize / 8 * sizeof(Cell), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED) {
      fprintf(stderr, "sim: cannot map shadow\n");
      _exit(3);
    }
    g_shadow = static_cast<Cell*>(s);
  }
}

std::string Sym(uint32_t pc) {
  NoSim n;
  const auto full = reinterpret_cast<uintptr_t>(&Sym) - (static_cast<uint32_t>(reinterpret_cast<uintptr_t>(&Sym)) - pc);
  Dl_info info;
  if (dladdr(reinterpret_cast<void*>(full), &info) != 0 && info.dli_sname != nullptr) {
    return info.dli_sname;
  }
  return "?";
}

// ---------------------------------------------------------------- storage
std::string* g_scratch = nullptr;
struct FdInfo { int file = -1; bool wr = false; };
FdInfo g_fd[1024];
std::vector<std::string>* g_files = nullptr;
std::vector<JournalOp>* g_journal = nullptr;
bool g_journal_on = false;
std::vector<Fault>* g_faults = nullptr;
bool g_armed = false;
IoCounts g_cnt;

bool Tracked(const char* path) {
  return path != nullptr && g_scratch != nullptr && !g_scratch->empty() &&
         strncmp(path, g_scratch->c_str(), g_scratch->size()) == 0;
}
int FileId(const char* path) {
  NoSim n;
  for (size_t i = 0; i < g_files->size(); ++i) if ((*g_files)[i] == path) return static_cast<int>(i);
  g_files->push_back(path);
  return static_cast<int>(g_files->size() - 1);
}
void Log(char type, int file, uint64_t off, const void* d = nullptr, size_t len = 0) {
  if (!g_journal_on) return;
  NoSim n;
  g_journal->push_back({type, file, off, g_now, g_stats.steps, std::string()});
  if (len > 0) g_journal->back().data.assign(static_cast<const char*>(d), len);
}
// returns fault kind for this op or nullptr
const Fault* Hit(char op, uint64_t idx) {
  if (!g_armed) return nullptr;
  for (const auto& f : *g_faults) {
    if (f.op == op && idx >= f.nth && (f.count == 0 || idx < f.nth + f.count)) return &f;
  }
  return nullptr;
}
void Fired(const std::string& k) {
  NoSim n;
  ++g_stats.faults[k];
}
const Fault* CapFault() {
  if (!g_armed) return nullptr;
  for (const auto& f : *g_faults) if (f.op == 'c') return &f;
  return nullptr;
}
int ErrOf(const std::string& k) {
  if (k == "eio") return EIO;
  if (k == "enospc") return ENOSPC;
  if (k == "eacces") return EACCES;
  if (k == "emfile") return EMFILE;
  if (k == "eintr") return EINTR;
  return EIO;
}
void Note2(uint64_t k, uint64_t v) {
  HashIn(Mix(k, v));
}
}  // namespace

// ---------------------------------------------------------------- public API
bool Active() { return g_active; }
const Stats& GetStats() {
  g_stats.sim_ns = g_now - g_t0;
  g_stats.threads = static_cast<uint64_t>(g_nthr);
  return g_stats;
}
const std::vector<Deviation>& Recorded() {
  static std::vector<Deviation> none;
  return g_rec ? *g_rec : none;
}
uint64_t Now() { return g_now; }
uint64_t RealNow() {
  int64_t off = 0;
  for (const auto& j : g_cfg.jumps) if (g_now - g_t0 >= j.at_ns) off += j.delta_ns;
  return g_cfg.real_base + (g_now - g_t0) + static_cast<uint64_t>(off);
}
void SetStage(const char* text) {
  strncpy(g_stage, text, sizeof(g_stage) - 1);
}
const char* Stage() { return g_stage; }
void Note(uint64_t v) { HashIn(v); }

void Start(const SchedConfig& cfg, const std::string& scratch) {
  g_cfg = cfg;
  g_rng = Rng(cfg.seed);
  g_stats = Stats();
  g_stats.hash = 0xcbf29ce484222325ull;
  g_rec = new std::vector<Deviation>();
  g_dev_sync = new std::vector<Deviation>();
  g_dev_mem = new std::vector<Deviation>();
  for (const auto& d : cfg.devs) (d.kind == 'm' ? g_dev_mem : g_dev_sync)->push_back(d);
  g_mutex = new std::unordered_map<const void*, MutexS>();
  g_sync_vc = new std::unordered_map<const void*, VC>();
  g_obj_id = new std::unordered_map<const void*, uint64_t>();
  g_scratch = new std::string(scratch);
  g_files = new std::vector<std::string>();
  g_journal = new std::vector<JournalOp>();
  g_faults = new std::vector<Fault>();
  g_t0 = 1'000'000'000'000ull;
  g_now = g_t0;
  if (cfg.replay) {
    g_next_mem = g_dev_mem->empty() ? kNever : g_dev_mem->front().at;
  } else if (cfg.mem_gap > 0) {
    g_next_mem = 1 + g_rng.Below(2 * cfg.mem_gap);
  }
  ArenaInit();
  g_nthr = 1;
  g_thr[0].st = St::Run;
  g_thr[0].vc[0] = 1;
  g_thr[0].real = pthread_self();
  StackBounds(g_thr[0]);
  t_id = 0;
  g_active = true;
}
void Stop() {
  for (int i = 1; i < g_nthr; ++i) {
    if (g_thr[i].st != St::Done) {
      Fail("LEAK", std::string("a library thread is still alive after its owner was destroyed (") + StName(g_thr[i].st) + ")");
    }
  }
}
void Sleep(uint64_t ns) {
  BlockOn(St::Sleep, nullptr, g_now + ns, 6);
}
void Yield(int kind, uint64_t obj) {
  if (InSim() && t_nosim == 0) Resched(true, kind, obj);
}
Api::Api() : old_(g_thr[t_id < 0 ? 0 : t_id].in_lib) {
  if (t_id >= 0) g_thr[t_id].in_lib = true;
}
Api::~Api() {
  if (t_id >= 0) g_thr[t_id].in_lib = old_;
}
void Fail(const std::string& cls, const std::string& msg) {
  ++t_nosim;
  if (g_fail_hook) g_fail_hook(cls, msg);
  _exit(4);
}
void ArmFaults(const std::vector<Fault>& faults) {
  NoSim n;
  *g_faults = faults;
  g_cnt = IoCounts();
  g_armed = true;
}
void DisarmFaults() { g_armed = false; }
IoCounts Counts() { return g_cnt; }
bool AnyFaultFired() { return !g_stats.faults.empty(); }
void JournalOn(bool on) { g_journal_on = on; }
const std::vector<JournalOp>& Journal() { return *g_journal; }
const std::vector<std::string>& JournalFiles() { return *g_files; }
uint64_t HeapLive() { return g_live; }
int OpenFileCount() {
  int n = 0;
  for (auto& f : g_fd) if (f.file >= 0) ++n;
  return n;
}
bool RaceOracle() { return g_race_on; }
void EnableRaceOracle(bool on) { g_race_on = on && Instrumented(); }

// ---------------------------------------------------------------- memory hooks (instrumented build)
namespace {
inline uint32_t Epoch(int tid, uint32_t clk) { return (static_cast<uint32_t>(tid) + 1) << 26 | (clk & 0x3FFFFFF); }
inline bool Ordered(uint32_t e, const Thr& t) {
  if (e == 0) return true;
  const int tid = static_cast<int>(e >> 26) - 1;
  return (e & 0x3FFFFFF) <= t.vc[tid];
}
__attribute__((noinline)) void RaceFail(const char* what, uint32_t pc1, uint32_t pc2) {
  std::string m;
  {
    NoSim n;
    m = std::string(what) + ": " + Sym(pc1) + " against earlier " + Sym(pc2);
  }
  Fail(strncmp(what, "data", 4) == 0 ? "RACE" : "MEMORY", m);
}
__attribute__((noinline)) void MemPreempt() {
  if (g_cfg.replay) {
    while (g_dev_m < g_dev_mem->size() && (*g_dev_mem)[g_dev_m].at < g_stats.mem_steps) ++g_dev_m;
  } else {
    g_next_mem = g_stats.mem_steps + 1 + g_rng.Below(2 * g_cfg.mem_gap);
  }
  const uint64_t at = g_stats.mem_steps;
  const int next = Decide(true, 'm', at, g_dev_mem, g_dev_m);
  if (g_cfg.replay) g_next_mem = g_dev_m < g_dev_mem->size() ? (*g_dev_mem)[g_dev_m].at : kNever;
  if (next != t_id) {
    HashIn(Mix(at, static_cast<uint64_t>(next)));
    SwitchTo(next);
  }
}
}  // namespace
void MemAccess(uintptr_t a, size_t n, bool write, void* pc) {
  const int id = t_id;
  if (!g_active || id < 0 || t_nosim > 0) return;
  auto& t = g_thr[id];
  if (!t.in_lib) return;
  if (a - kArena >= kArenaSize) return;
  ++g_stats.mem_steps;
  if (g_shadow) {
    const uint32_t me = Epoch(id, t.vc[id]);
    const auto pc32 = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc));
    for (size_t i = (a - kArena) / 8, e = (a + n - 1 - kArena) / 8; i <= e; ++i) {
      Cell& c = g_shadow[i];
      if (c.w >= kRed) {
        RaceFail(c.w == kFreed ? "use of freed memory" : "heap access outside an allocation", pc32, 0);
      }
      const uintptr_t base = kArena + i * 8;
      const unsigned lo = a > base ? static_cast<unsigned>(a - base) : 0;
      const unsigned hi = a + n < base + 8 ? static_cast<unsigned>(a + n - base) : 8;
      const auto m = static_cast<uint8_t>((0xFFu << lo) & (0xFFu >> (8 - hi)));
      if ((c.wm & m) && !Ordered(c.w, t)) RaceFail("data race", pc32, c.wpc);
      if (write) {
        if (((c.m0 & m) && !Ordered(c.r0, t)) || ((c.m1 & m) && !Ordered(c.r1, t)) || ((c.m2 & m) && !Ordered(c.r2, t))) {
          RaceFail("data race", pc32, c.rpc);
        }
        c.w = me;
        c.wm = m;
        c.wpc = pc32;
        c.m0 &= static_cast<uint8_t>(~m);
        c.m1 &= static_cast<uint8_t>(~m);
        c.m2 &= static_cast<uint8_t>(~m);
      } else {
        if (c.m0 == 0 || c.r0 == me) { c.m0 = c.r0 == me ? c.m0 | m : m; c.r0 = me; }
        else if (c.m1 == 0 || c.r1 == me) { c.m1 = c.r1 == me ? c.m1 | m : m; c.r1 = me; }
        else if ((c.r0 >> 26) == (me >> 26)) { c.r0 = me; c.m0 = m; }
        else { c.r2 = me; c.m2 = m; }
        c.rpc = pc32;
      }
    }
  }
  if (g_stats.mem_steps >= g_next_mem) MemPreempt();
}
void AtomicPoint(const volatile void* a, int mode) {
  if (!InSim() || t_nosim > 0 || !g_thr[t_id].in_lib) return;
  Resched(true, 7, ObjId(const_cast<const void*>(a)));
  if (g_shadow) {
    if (mode & 1) VcAcquire(const_cast<const void*>(a));
    if (mode & 2) VcRelease(const_cast<const void*>(a));
  }
}
}  // namespace sim

using namespace sim;

// ================================================================ interposed functions
extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!InSim() || t_nosim > 0) return real_pthread_create(th, attr, fn, arg);
  if (g_nthr >= kMaxThreads) Fail("LIMIT", "too many threads");
  auto& t = g_thr[g_nthr];
  t.fn = fn;
  t.arg = arg;
  t.lib_thread = g_thr[t_id].in_lib;
  for (int i = 0; i < kMaxThreads; ++i) t.vc[i] = g_thr[t_id].vc[i];
  t.vc[g_nthr] = 1;
  ++g_thr[t_id].vc[t_id];
  int r;
  {
    NoSim n;
    r = real_pthread_create(th, attr, ThreadMain, &t);
  }
  if (r != 0) Fail("LIMIT", "pthread_create failed");
  t.real = *th;
  t.st = St::Run;
  ++g_nthr;
  Resched(true, 8, static_cast<uint64_t>(g_nthr));
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  REAL(int, pthread_join, pthread_t, void**);
  if (!InSim()) return real_pthread_join(th, ret);
  for (int i = 0; i < g_nthr; ++i) {
    if (g_thr[i].st != St::Free && pthread_equal(g_thr[i].real, th)) {
      if (g_thr[i].st == St::Done && g_thr[i].fn == nullptr) continue;
      Resched(true, 10, static_cast<uint64_t>(i));
      while (g_thr[i].st != St::Done) BlockOn(St::Join, &g_thr[i], kNever, 11);
      for (int k = 0; k < g_nthr; ++k) {
        if (g_thr[i].vc[k] > g_thr[t_id].vc[k]) g_thr[t_id].vc[k] = g_thr[i].vc[k];
      }
      g_thr[i].fn = nullptr;  // joined
      NoSim n;
      return real_pthread_join(th, ret);
    }
  }
  return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) {
  REAL(int, pthread_detach, pthread_t);
  return real_pthread_detach(th);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (InSim() && t_nosim == 0) return MutexLock(m);
  REAL(int, pthread_mutex_lock, pthread_mutex_t*);
  return real_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (InSim() && t_nosim == 0) {
    Resched(true, 1, ObjId(m));
    NoSim n;
    auto& s = (*g_mutex)[m];
    if (s.owner >= 0) return EBUSY;
    s.owner = t_id;
    VcAcquire(m);
    return 0;
  }
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
  return real_pthread_mutex_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (InSim() && t_nosim == 0) return MutexUnlock(m);
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
  return real_pthread_mutex_unlock(m);
}
// shared mutexes / rwlocks: treated as exclusive locks
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (InSim() && t_nosim == 0) return MutexLock(m);
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
  return real_pthread_rwlock_rdlock(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (InSim() && t_nosim == 0) return MutexLock(m);
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
  return real_pthread_rwlock_wrlock(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (InSim() && t_nosim == 0) return MutexUnlock(m);
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
  return real_pthread_rwlock_unlock(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (InSim() && t_nosim == 0) return CondWait(c, m, kNever);
  REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
  return real_pthread_cond_wait(c, m);
}
static uint64_t AbsToMono(clockid_t clk, const struct timespec* ts) {
  const int64_t t = static_cast<int64_t>(ts->tv_sec) * 1'000'000'000 + ts->tv_nsec;
  if (clk == CLOCK_REALTIME) {
    const int64_t d = t - static_cast<int64_t>(RealNow());
    return d <= 0 ? g_now : g_now + static_cast<uint64_t>(d);
  }
  return t < 0 ? 0 : static_cast<uint64_t>(t);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (InSim() && t_nosim == 0) return CondWait(c, m, AbsToMono(CLOCK_REALTIME, ts));
  REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  return real_pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  if (InSim() && t_nosim == 0) return CondWait(c, m, AbsToMono(clk, ts));
  REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  return real_pthread_cond_clockwait(c, m, clk, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (InSim() && t_nosim == 0) { CondSignal(c, false); return 0; }
  REAL(int, pthread_cond_signal, pthread_cond_t*);
  return real_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (InSim() && t_nosim == 0) { CondSignal(c, true); return 0; }
  REAL(int, pthread_cond_broadcast, pthread_cond_t*);
  return real_pthread_cond_broadcast(c);
}
// Function-local statics: no preemption while one is being initialised.
int __cxa_guard_acquire(long long int* g) {
  if (InSim()) {
    if (*reinterpret_cast<volatile char*>(g) != 0) {
      VcAcquire(g);
      return 0;
    }
    ++t_noswitch;
    return 1;
  }
  REAL(int, __cxa_guard_acquire, long long int*);
  return real___cxa_guard_acquire(g);
}
void __cxa_guard_release(long long int* g) {
  if (InSim()) {
    VcRelease(g);
    *reinterpret_cast<volatile char*>(g) = 1;
    --t_noswitch;
    return;
  }
  REAL(void, __cxa_guard_release, long long int*);
  real___cxa_guard_release(g);
}
void __cxa_guard_abort(long long int* g) {
  if (InSim()) {
    --t_noswitch;
    return;
  }
  REAL(void, __cxa_guard_abort, long long int*);
  real___cxa_guard_abort(g);
}
int sched_yield(void) {
  if (InSim() && t_nosim == 0) { Resched(true, 12, 0); return 0; }
  REAL(int, sched_yield, void);
  return real_sched_yield();
}

// ---------------------------------------------------------------- clock
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (InSim() && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_REALTIME_COARSE ||
                  id == CLOCK_MONOTONIC_COARSE || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME)) {
    const uint64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? RealNow() : g_now;
    ts->tv_sec = static_cast<time_t>(t / 1'000'000'000ull);
    ts->tv_nsec = static_cast<long>(t % 1'000'000'000ull);
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
int gettimeofday(struct timeval* tv, void* tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (InSim()) {
    sim::Sleep(static_cast<uint64_t>(a->tv_sec) * 1'000'000'000ull + static_cast<uint64_t>(a->tv_nsec));
    if (b) b->tv_sec = b->tv_nsec = 0;
    return 0;
  }
  return static_cast<int>(syscall(SYS_nanosleep, a, b));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b) {
  if (InSim()) {
    if (flags & TIMER_ABSTIME) {
      const uint64_t d = AbsToMono(c, a);
      sim::Sleep(d > g_now ? d - g_now : 0);
    } else {
      sim::Sleep(static_cast<uint64_t>(a->tv_sec) * 1'000'000'000ull + static_cast<uint64_t>(a->tv_nsec));
    }
    if (b) b->tv_sec = b->tv_nsec = 0;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_nanosleep, c, flags, a, b)) == 0 ? 0 : errno;
}
int usleep(useconds_t us) {
  struct timespec ts{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}

// ---------------------------------------------------------------- storage
static bool OpenFault(bool wr) {
  const Fault* f = wr ? Hit('o', g_cnt.o) : Hit('i', g_cnt.i);
  if (g_armed) ++(wr ? g_cnt.o : g_cnt.i);
  ++(wr ? g_stats.opens : g_stats.iopens);
  if (f != nullptr) {
    Fired(std::string(wr ? "open_w:" : "open_r:") + f->kind);
    errno = ErrOf(f->kind);
    return true;
  }
  return false;
}
static void Register(int fd, const char* path, bool wr, bool trunc) {
  if (fd < 0 || fd >= 1024) return;
  g_fd[fd].file = FileId(path);
  g_fd[fd].wr = wr;
  Log('O', g_fd[fd].file, 0);
  if (trunc) Log('T', g_fd[fd].file, 0);
}
static FILE* DoFopen(const char* path, const char* mode, FILE* (*real)(const char*, const char*)) {
  if (!InSim() || t_nosim > 0 || !Tracked(path)) return real(path, mode);
  const bool wr = strpbrk(mode, "wa+") != nullptr;
  Resched(true, 20, static_cast<uint64_t>(FileId(path)));
  if (OpenFault(wr)) return nullptr;
  FILE* f;
  {
    NoSim n;
    f = real(path, mode);
  }
  if (f != nullptr) Register(fileno(f), path, wr, mode[0] == 'w');
  return f;
}
FILE* fopen(const char* path, const char* mode) {
  REAL(FILE*, fopen, const char*, const char*);
  return DoFopen(path, mode, real_fopen);
}
FILE* fopen64(const char* path, const char* mode) {
  REAL(FILE*, fopen64, const char*, const char*);
  return DoFopen(path, mode, real_fopen64);
}
int fclose(FILE* f) {
  REAL(int, fclose, FILE*);
  if (InSim() && t_nosim == 0 && f != nullptr) {
    const int fd = fileno(f);
    if (fd >= 0 && fd < 1024 && g_fd[fd].file >= 0) {
      const int file = g_fd[fd].file;
      const bool wr = g_fd[fd].wr;
      Resched(true, 21, static_cast<uint64_t>(file));
      g_fd[fd].file = -1;
      int r;
      {
        NoSim n;
        r = real_fclose(f);
      }
      Log(wr ? 'C' : 'c', file, 0);
      return r;
    }
  }
  return real_fclose(f);
}
static int DoOpen(const char* path, int flags, mode_t mode) {
  if (!InSim() || t_nosim > 0 || !Tracked(path)) {
    return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
  }
  const bool wr = (flags & O_ACCMODE) != O_RDONLY;
  Resched(true, 20, static_cast<uint64_t>(FileId(path)));
  if (OpenFault(wr)) return -1;
  const int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
  if (fd >= 0) Register(fd, path, wr, (flags & O_TRUNC) != 0);
  return fd;
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return DoOpen(path, flags, m);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return DoOpen(path, flags, m);
}
int close(int fd) {
  if (InSim() && t_nosim == 0 && fd >= 0 && fd < 1024 && g_fd[fd].file >= 0) {
    Log(g_fd[fd].wr ? 'C' : 'c', g_fd[fd].file, 0);
    g_fd[fd].file = -1;
  }
  return static_cast<int>(syscall(SYS_close, fd));
}
static bool IsTrackedFd(int fd) { return InSim() && t_nosim == 0 && fd >= 0 && fd < 1024 && g_fd[fd].file >= 0; }

ssize_t read(int fd, void* buf, size_t n) {
  if (!IsTrackedFd(fd)) return syscall(SYS_read, fd, buf, n);
  Resched(true, 22, static_cast<uint64_t>(g_fd[fd].file));
  ++g_stats.reads;
  struct stat st {};
  // There is nothing to fail on in an empty file (and std::filesystem::copy_file of libstdc++ cannot take an error there).
  const bool empty = fstat(fd, &st) == 0 && st.st_size == 0;
  const Fault* f = empty ? nullptr : Hit('r', g_cnt.r);
  if (g_armed) ++g_cnt.r;
  if (f != nullptr) {
    if (f->kind == "short") {
      if (n > 1) {
        Fired("read:short");
        n = 1 + Mix(g_cnt.r, n) % (n - 1);
      }
    } else {
      Fired("read:" + f->kind);
      errno = ErrOf(f->kind);
      return -1;
    }
  }
  return syscall(SYS_read, fd, buf, n);
}
static ssize_t DoWrite(int fd, const char* buf, size_t n) {
  Resched(true, 23, static_cast<uint64_t>(g_fd[fd].file));
  ++g_stats.writes;
  const Fault* f = Hit('w', g_cnt.w);
  if (g_armed) ++g_cnt.w;
  if (f != nullptr) {
    if (f->kind == "short") {
      if (n > 1) {
        Fired("write:short");
        n = 1 + Mix(g_cnt.w, n) % (n - 1);
      }
    } else {
      Fired("write:" + f->kind);
      errno = ErrOf(f->kind);
      return -1;
    }
  }
  const auto off = static_cast<uint64_t>(syscall(SYS_lseek, fd, 0, SEEK_CUR));
  if (const Fault* c = CapFault(); c != nullptr && n > 0 && off + n > c->nth &&
      (c->count == 0 || g_stats.faults["write:full"] < c->count)) {
    Fired("write:full");
    if (off >= c->nth) {
      errno = ENOSPC;
      return -1;
    }
    n = c->nth - off;  // torn at the end of the device
  }
  const ssize_t r = syscall(SYS_write, fd, buf, n);
  if (r > 0) {
    Log('W', g_fd[fd].file, off, buf, static_cast<size_t>(r));
    Note2(off, static_cast<uint64_t>(r));
  }
  return r;
}
ssize_t write(int fd, const void* buf, size_t n) {
  if (!IsTrackedFd(fd)) return syscall(SYS_write, fd, buf, n);
  return DoWrite(fd, static_cast<const char*>(buf), n);
}
ssize_t writev(int fd, const struct iovec* iov, int cnt) {
  if (!IsTrackedFd(fd)) return syscall(SYS_writev, fd, iov, cnt);
  std::string all;
  {
    NoSim ns;
    for (int i = 0; i < cnt; ++i) all.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
  }
  const ssize_t r = DoWrite(fd, all.data(), all.size());
  NoSim ns;
  { std::string tmp; tmp.swap(all); }
  return r;
}
static ssize_t DoSendfile(int out, int in, off_t* off, size_t n) {
  if (!IsTrackedFd(out) && !IsTrackedFd(in)) return syscall(SYS_sendfile, out, in, off, n);
  Resched(true, 24, 0);
  if (IsTrackedFd(in)) {
    const Fault* f = Hit('r', g_cnt.r);
    if (g_armed) ++g_cnt.r;
    ++g_stats.reads;
    if (f != nullptr && f->kind == "short" && n > 1) {
      Fired("read:short");
      n = 1 + Mix(g_cnt.r, n) % (n - 1);
    } else if (f != nullptr && f->kind == "eio") {
      Fired("read:eio");
      errno = EIO;
      return -1;
    }
  }
  uint64_t woff = 0;
  if (IsTrackedFd(out)) {
    woff = static_cast<uint64_t>(syscall(SYS_lseek, out, 0, SEEK_CUR));
    const Fault* f = Hit('w', g_cnt.w);
    if (g_armed) ++g_cnt.w;
    ++g_stats.writes;
    if (f != nullptr) {
      if (f->kind == "short") {
        if (n > 1) {
          Fired("write:short");
          n = 1 + Mix(g_cnt.w, n) % (n - 1);
        }
      } else if (f->kind != "eintr") {
        Fired("write:" + f->kind);
        errno = ErrOf(f->kind);
        return -1;
      }
    }
    if (const Fault* c = CapFault(); c != nullptr && n > 0 && woff + n > c->nth &&
        (c->count == 0 || g_stats.faults["write:full"] < c->count)) {
      // n is an upper bound here; only refuse what does not fit
      struct stat st;
      fstat(in, &st);
      if (static_cast<uint64_t>(st.st_size) > c->nth || woff >= c->nth) {
        Fired("write:full");
        if (woff >= c->nth) {
          errno = ENOSPC;
          return -1;
        }
        n = c->nth - woff;
      }
    }
  }
  const ssize_t r = syscall(SYS_sendfile, out, in, off, n);
  if (r > 0 && IsTrackedFd(out) && g_journal_on) {
    NoSim ns;
    std::string d(static_cast<size_t>(r), '\0');
    char link[64];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", out);
    const int rd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, link, O_RDONLY, 0));
    if (rd >= 0) {
      (void)!pread(rd, d.data(), d.size(), static_cast<off_t>(woff));
      syscall(SYS_close, rd);
    }
    Log('W', g_fd[out].file, woff, d.data(), d.size());
  }
  return r;
}
ssize_t sendfile(int out, int in, off_t* off, size_t n) { return DoSendfile(out, in, off, n); }
ssize_t sendfile64(int out, int in, off_t* off, size_t n) { return DoSendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t* ioff, int out, off64_t* ooff, size_t n, unsigned flags) {
  if (IsTrackedFd(out) || IsTrackedFd(in)) {
    errno = ENOSYS;  // callers fall back to sendfile / read+write, which are simulated
    return -1;
  }
  return syscall(SYS_copy_file_range, in, ioff, out, ooff, n, flags);
}
// Operations on names: real, but points where the scheduler may switch, and where faults may hit.
static bool NameFault(const char* path, const char* what) {
  Resched(true, 20, static_cast<uint64_t>(FileId(path)));
  const Fault* f = Hit('n', g_cnt.n);
  if (g_armed) ++g_cnt.n;
  if (f == nullptr) return false;
  Fired(std::string(what) + ":" + f->kind);
  errno = ErrOf(f->kind);
  return true;
}
int rename(const char* from, const char* to) {
  if (InSim() && t_nosim == 0 && (Tracked(from) || Tracked(to)) && NameFault(from, "rename")) return -1;
  return static_cast<int>(syscall(SYS_rename, from, to));
}
int mkdir(const char* path, mode_t mode) {
  if (InSim() && t_nosim == 0 && Tracked(path) && NameFault(path, "mkdir")) return -1;
  return static_cast<int>(syscall(SYS_mkdir, path, mode));
}
int unlink(const char* path) {
  if (InSim() && t_nosim == 0 && Tracked(path)) Resched(true, 20, static_cast<uint64_t>(FileId(path)));
  return static_cast<int>(syscall(SYS_unlink, path));
}
size_t fread(void* p, size_t sz, size_t cnt, FILE* f) {
  REAL(size_t, fread, void*, size_t, size_t, FILE*);
  if (InSim() && t_nosim == 0 && IsTrackedFd(fileno(f))) {
    Resched(true, 25, 0);
    ++g_stats.reads;
    const Fault* ft = Hit('r', g_cnt.r);
    if (g_armed) ++g_cnt.r;
    if (ft != nullptr && ft->kind == "eio") {
      Fired("read:eio");
      f->_flags |= 0x20;  // what ferror() reports (_IO_ERR_SEEN)
      errno = EIO;
      return 0;
    }
    if (ft != nullptr && ft->kind == "short" && sz * cnt > 1) {
      // The file's first part can be read, the next one cannot.
      Fired("read:part");
      NoSim n;
      const size_t k = real_fread(p, 1, sz * cnt / 2, f);
      f->_flags |= 0x20;
      errno = EIO;
      return k / sz;
    }
    NoSim n;
    return real_fread(p, sz, cnt, f);
  }
  return real_fread(p, sz, cnt, f);
}
}  // extern "C"

// ================================================================ heap
static void* SimNew(size_t n) {
  if (InSim() && t_nosim == 0) return ArenaAlloc(n);
  return malloc(n ? n : 1);
}
static void SimDelete(void* p) {
  if (p == nullptr) return;
  if (IsArena(p)) {
    ArenaFree(p);
    return;
  }
  free(p);
}
void* operator new(size_t n) {
  void* p = SimNew(n);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return SimNew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return SimNew(n); }
void operator delete(void* p) noexcept { SimDelete(p); }
void operator delete[](void* p) noexcept { SimDelete(p); }
void operator delete(void* p, size_t) noexcept { SimDelete(p); }
void operator delete[](void* p, size_t) noexcept { SimDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { SimDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { SimDelete(p); }
