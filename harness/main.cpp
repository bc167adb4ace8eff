// Worker process: forks one child per simulated run and reports one JSON line per run.
#include <dirent.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>

#include "h.h"
#include "mdf/mdflogstream.h"

using namespace h;

namespace {
int g_pipe = -1;
Ctx* g_ctx = nullptr;
bool g_done = false;

std::string Esc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
    else if (ch < 32 || ch > 126) o += Fmt("\\u%04x", ch);
    else o += static_cast<char>(ch);
  }
  return o + "\"";
}
void Report(const std::string& cls, const std::string& msg) {
  if (g_done) return;
  g_done = true;
  auto& c = *g_ctx;
  const auto& st = sim::GetStats();
  const auto io = sim::Counts();
  std::ostringstream o;
  o << "{\"seed\":" << c.seed << ",\"wseed\":" << c.wseed << ",\"cls\":" << Esc(cls) << ",\"hash\":\"" << std::hex << st.hash
    << std::dec << "\",\"steps\":" << st.steps << ",\"mem\":" << st.mem_steps << ",\"sw\":" << st.switches << ",\"pre\":"
    << st.preempt << ",\"mpre\":" << st.mem_preempt << ",\"tj\":" << st.timer_jumps << ",\"sp\":" << st.spurious
    << ",\"thr\":" << st.threads << ",\"ns\":" << st.sim_ns << ",\"op\":" << st.opens << ",\"io\":" << st.iopens << ",\"rd\":"
    << st.reads << ",\"wr\":" << st.writes << ",\"chk\":" << c.checked_samples << ",\"ev\":" << c.evals << ",\"cnt\":[" << io.w
    << "," << io.r << "," << io.o << "," << io.i << "," << io.n << "],\"f\":{";
  bool first = true;
  for (const auto& [k, v] : st.faults) {
    o << (first ? "" : ",") << Esc(k) << ":" << v;
    first = false;
  }
  o << "},\"c\":{";
  first = true;
  for (const auto& [k, v] : c.count) {
    o << (first ? "" : ",") << Esc(k) << ":" << v;
    first = false;
  }
  o << "},\"s\":[";
  first = true;
  for (auto s : c.states) {
    o << (first ? "" : ",") << (s & 0xFFFFFFFFFFFFull);
    first = false;
  }
  o << "]";
  if (!cls.empty()) {
    o << ",\"msg\":" << Esc(msg) << ",\"stage\":" << Esc(sim::Stage()) << ",\"knobs\":[";
    first = true;
    for (const auto& k : c.used) {
      o << (first ? "" : ",") << "[" << Esc(k.name) << "," << k.val << "," << k.lo << "]";
      first = false;
    }
    o << "],\"faults\":[";
    first = true;
    for (const auto& f : c.faults) {
      o << (first ? "" : ",") << "[\"" << f.op << "\"," << f.nth << "," << Esc(f.kind) << "," << f.count << "]";
      first = false;
    }
    o << "],\"devs\":[";
    first = true;
    for (const auto& d : sim::Recorded()) {
      o << (first ? "" : ",") << "[\"" << d.kind << "\"," << d.at << "," << d.arg << "]";
      first = false;
    }
    o << "]";
  }
  o << "}\n";
  const auto s = o.str();
  size_t off = 0;
  while (off < s.size()) {
    const auto n = write(g_pipe, s.data() + off, s.size() - off);
    if (n <= 0) break;
    off += static_cast<size_t>(n);
  }
}
void OnFail(const std::string& cls, const std::string& msg) {
  Report(cls, msg);
  _exit(0);
}
void OnSignal(int sig) {
  signal(sig, SIG_DFL);
  alarm(5);
  if (sig == SIGXCPU) sim::Fail("HANG", "processor time limit reached");
  sim::Fail("CRASH", std::string("signal ") + strsignal(sig));
}
void OnTerminate() {
  std::string what = "std::terminate";
  if (auto e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    } catch (const std::exception& x) {
      what = std::string("uncaught exception: ") + x.what();
    } catch (...) {
      what = "uncaught exception";
    }
  }
  sim::Fail("CRASH", what);
}
std::string g_base;
void RemoveTree(const std::string& p) {
  if (p.find("/vsim_") == std::string::npos) return;
  DIR* d = opendir(p.c_str());
  if (d != nullptr) {
    while (auto* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      const auto q = p + "/" + n;
      struct stat st;
      if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) RemoveTree(q);
      else unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}

std::string RunChild(Ctx& c, const PropDef& def) {
  RemoveTree(g_base + "/w");
  mkdir((g_base + "/w").c_str(), 0755);
  mkdir((g_base + "/w/tmp").c_str(), 0755);
  int fd[2];
  if (pipe(fd) != 0) _exit(3);
  std::cout.flush();
  const pid_t pid = getenv("SIM_NOFORK") ? 0 : fork();  // debugging aid
  if (pid == 0) {
    close(fd[0]);
    g_pipe = fd[1];
    g_ctx = &c;
    if (chdir(g_base.c_str()) != 0) _exit(3);
    const char* cpu = getenv("SIM_CPU");
    struct rlimit rl{static_cast<rlim_t>(cpu ? atoi(cpu) : 60), 120};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    static char alt[1 << 16];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof(alt);
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = OnSignal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
    std::set_terminate(OnTerminate);
    sim::g_fail_hook = OnFail;
    def.drive(c);
    sim::Stop();
    Report("", "");
    _exit(0);
  }
  close(fd[1]);
  std::string out;
  char b[65536];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof(b))) > 0) out.append(b, static_cast<size_t>(n));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (out.empty() || out.back() != '\n') {
    out = Fmt("{\"seed\":%llu,\"wseed\":%llu,\"cls\":\"CRASH\",\"hash\":\"dead\",\"steps\":0,\"msg\":\"process ended without a report (status %d)\","
              "\"stage\":\"\",\"knobs\":[],\"faults\":[],\"devs\":[]}\n",
              static_cast<unsigned long long>(c.seed), static_cast<unsigned long long>(c.wseed), st);
  }
  return out;
}
uint64_t JsonCnt(const std::string& js, int ix) {
  auto p = js.find("\"cnt\":[");
  if (p == std::string::npos) return 0;
  p += 7;
  for (int i = 0; i < ix; ++i) p = js.find(',', p) + 1;
  return strtoull(js.c_str() + p, nullptr, 10);
}
void ChooseFaults(Ctx& c, const uint64_t* cnt) {
  // cnt: write, read, open-write, open-read, name operations of the fault-free run
  sim::Rng r(sim::Mix(c.seed, 0xFA));
  const bool rd_only = c.range.count("fault_reads") != 0;
  const int n = r.Chance(0.75) ? 1 : static_cast<int>(2 + r.Below(3));
  for (int i = 0; i < n; ++i) {
    sim::Fault f;
    uint64_t k = r.Below(100);
    if (c.range.count("more_reads") != 0 && r.Chance(0.4)) k = 80 + r.Below(16);
    if (cnt[4] != 0 && r.Chance(0.08)) {
      f.op = 'n';
      f.nth = r.Below(cnt[4]);
      static const char* kinds[] = {"eacces", "eio", "enospc"};
      f.kind = kinds[r.Below(3)];
    } else if (rd_only) {
      if (k < 80 || cnt[3] == 0) {
        f.op = 'r';
        f.nth = r.Below(std::max<uint64_t>(1, cnt[1]));
        static const char* kinds[] = {"eio", "eio", "short", "eintr"};
        f.kind = kinds[r.Below(4)];
      } else {
        f.op = 'i';
        f.nth = r.Below(cnt[3]);
        f.kind = r.Chance(0.5) ? "eacces" : "emfile";
      }
    } else if (k < 50) {
      f.op = 'w';
      f.nth = r.Below(std::max<uint64_t>(1, cnt[0]));
      static const char* kinds[] = {"eio", "enospc", "eio", "enospc", "short", "eintr"};
      f.kind = kinds[r.Below(6)];
    } else if (k < 68) {
      f.op = 'o';
      f.nth = r.Below(std::max<uint64_t>(1, cnt[2]));
      static const char* kinds[] = {"eacces", "emfile", "eio", "enospc"};
      f.kind = kinds[r.Below(4)];
    } else if (k < 78) {
      f.op = 'c';
      f.nth = r.Below(1 + cnt[0] * 2000);
      f.kind = "enospc";
    } else if (k < 92) {
      f.op = 'r';
      f.nth = r.Below(std::max<uint64_t>(1, cnt[1]));
      static const char* kinds[] = {"eio", "eio", "short", "eintr"};
      f.kind = kinds[r.Below(4)];
    } else {
      f.op = 'i';
      f.nth = r.Below(std::max<uint64_t>(1, cnt[3]));
      f.kind = r.Chance(0.5) ? "eacces" : "emfile";
    }
    static const uint64_t counts[] = {1, 1, 1, 2, 5, 30, 0};
    f.count = counts[r.Below(7)];
    if (f.kind == "short" || f.kind == "eintr") f.count = 1 + r.Below(3);
    c.faults.push_back(f);
  }
}
void Init(Ctx& c, const PropDef& def) {
  c.prop = def.id;
  c.range = def.range;
}
}  // namespace

int main(int argc, char** argv) {
  if (getenv("SIM_NOASLR") == nullptr) {
    setenv("SIM_NOASLR", "1", 1);
    setenv("TZ", "UTC", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  signal(SIGPIPE, SIG_IGN);
  struct stat st;
  const char* root = getenv("SIM_SCRATCH");
  std::string base = root ? root : (stat("/dev/shm", &st) == 0 && access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
  g_base = base + Fmt("/vsim_%07d", getpid());
  mkdir(g_base.c_str(), 0755);
  setenv("TMPDIR", "w/tmp", 1);
  mdf::MdfLogStream::SetLogFunction1([](const MdfLocation&, mdf::MdfLogSeverity, const std::string& t) {
    static const bool show = getenv("SIM_LOG") != nullptr;
    if (show) fprintf(stderr, "LOG %s\n", t.c_str());
  });

  if (a.count("--replay")) {
    Ctx c;
    std::ifstream in(a["--replay"]);
    std::string line, kind;
    const PropDef* def = nullptr;
    while (std::getline(in, line)) {
      std::istringstream ls(line);
      ls >> kind;
      if (kind == "prop") { ls >> c.prop; def = FindProp(c.prop); if (def) Init(c, *def); }
      else if (kind == "seed") ls >> c.seed;
      else if (kind == "wseed") ls >> c.wseed;
      else if (kind == "thorough") c.thorough = true;
      else if (kind == "set") { std::string n; int64_t v; ls >> n >> v; c.set[n] = v; }
      else if (kind == "fault") { sim::Fault f; ls >> f.op >> f.nth >> f.kind >> f.count; c.faults.push_back(f); c.faults_given = true; }
      else if (kind == "dev") { sim::Deviation d; ls >> d.kind >> d.at >> d.arg; c.devs.push_back(d); }
      else if (kind == "explicit") c.devs_given = true;
    }
    if (def == nullptr) return 2;
    std::cout << RunChild(c, *def);
    std::cout.flush();
    RemoveTree(g_base);
    return 0;
  }
  const auto* def = FindProp(a["--prop"]);
  if (def == nullptr) {
    fprintf(stderr, "unknown property\n");
    return 2;
  }
  const uint64_t from = strtoull(a["--from"].c_str(), nullptr, 10), to = strtoull(a["--to"].c_str(), nullptr, 10);
  const uint64_t step = a.count("--step") ? strtoull(a["--step"].c_str(), nullptr, 10) : 1;
  const double limit = a.count("--time") ? atof(a["--time"].c_str()) : 1e9;
  struct timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  uint64_t have = ~0ull, cnt[5] = {};
  const bool two = def->range.count("two_phase") != 0;
  for (uint64_t seed = from; seed < to; seed += step) {
    struct timespec t1;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (static_cast<double>(t1.tv_sec - t0.tv_sec) + 1e-9 * static_cast<double>(t1.tv_nsec - t0.tv_nsec) > limit) break;
    const uint64_t reps = two ? 8 : 1;
    for (uint64_t k = 0; k < reps; ++k) {
      Ctx c;
      Init(c, *def);
      c.thorough = a.count("--thorough") != 0;
      c.wseed = seed;
      c.seed = two ? seed * 8 + k : seed;
      if (two) {
        if (have != seed) {
          Ctx d = c;
          d.dry = true;
          const auto r = RunChild(d, *def);
          for (int i = 0; i < 5; ++i) cnt[i] = JsonCnt(r, i);
          have = seed;
          std::cout << r;
        }
        ChooseFaults(c, cnt);
      }
      std::cout << RunChild(c, *def);
    }
    std::cout.flush();
  }
  RemoveTree(g_base);
  return 0;
}
