// Shared definitions of the simulation harness.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

#include "mdf/canmessage.h"
#include "mdf/ichannelgroup.h"
#include "mdf/idatagroup.h"
#include "mdf/iheader.h"
#include "mdf/mdffactory.h"
#include "mdf/mdfreader.h"
#include "mdf/mdfwriter.h"
#include "sim.h"

namespace h {

struct Knob {
  std::string name;
  int64_t val, lo;
};

// Everything that decides one simulated run.
// A finished file and how to judge a copy of it; what the checks of tasks need.
struct TaskFile {
  std::string bytes, ext;
  bool m4 = true, all_valid = true;
  std::function<bool(const std::string& path, const char* who)> check;  // compares with the model; true if no sample is invalid
  std::function<void(const std::string& bytes, const char* who)> structure;
};

struct Ctx {
  std::string prop;
  uint64_t seed = 1;   // schedule, fault positions
  uint64_t wseed = 1;  // workload
  std::map<std::string, int64_t> set;                           // explicit knob values (replay, minimise)
  std::map<std::string, std::pair<int64_t, int64_t>> range;     // per property, by last name part
  std::vector<Knob> used;
  std::map<std::string, size_t> used_ix;
  std::vector<sim::Fault> faults;  // explicit or chosen
  bool faults_given = false;
  bool dry = false;
  std::vector<sim::Deviation> devs;
  bool devs_given = false;
  bool sort = false;  // DriveBus sorts the file
  std::function<void(const TaskFile&)> task;  // what DriveBus does with the file at the end
  bool thorough = false;
  std::map<std::string, uint64_t> count;  // coverage counters
  std::set<uint64_t> states;              // distinct states seen by this run
  uint64_t checked_samples = 0;
  uint64_t evals = 0;  // oracle evaluations (crash points, truncations, read operations, ...)

  int64_t K(const std::string& name, int64_t lo, int64_t hi);
  bool B(const std::string& name, int pct);
  uint64_t H(const std::string& name) const;
};

// A caller supplied stream buffer: a file in memory with one common position, as std::filebuf has. Every call is a
// point where the scheduler may switch threads.
class MemBuf : public std::streambuf {
 public:
  std::string data;
  uint64_t syncs = 0, writes = 0, reads = 0;
  size_t limit = SIZE_MAX;  // bytes it can hold, as a full device
  explicit MemBuf(std::string d = {}) : data(std::move(d)) {}

 protected:
  std::streamsize xsputn(const char* s, std::streamsize n) override;
  std::streamsize xsgetn(char* s, std::streamsize n) override;
  int_type overflow(int_type ch) override;
  int_type underflow() override;
  int_type uflow() override;
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override;
  pos_type seekpos(pos_type p, std::ios_base::openmode) override;
  int sync() override;

 private:
  size_t pos_ = 0;
};

// ------------------------------------------------------------------ model
struct ChSpec {
  std::string name, unit, desc;
  mdf::ChannelType type = mdf::ChannelType::FixedLength;
  mdf::ChannelDataType dt = mdf::ChannelDataType::UnsignedIntegerLe;
  uint32_t bytes = 8;
  bool inv = false;
  uint32_t array = 1;
  std::vector<uint64_t> shape;
  uint32_t vmax = 0;      // variable length: maximum payload
  int vmode = 0;          // distribution of payload lengths
  bool low_entropy = false;
  int conv = 0;           // 0 none, 1 linear, 2 value to text
  double cc_a = 0, cc_b = 1;
  bool big_limit = false;
};
struct CgSpec {
  std::string name, desc;
  int master = 0;  // 0 f64le 1 f64be 2 f32le 3 s64le*1e-9 4 s32le*1e-3 5 none 6 s64be 7 f32be 8 s32be 9 u64le 10 u64be 11 u32le 12 set by the user 13 virtual 14 not time, set by the user
  std::vector<ChSpec> ch;  // without master; ch[0] is the Id channel
  bool direct = false;     // saved through IDataWriter/AddSample, shared between producers
  bool source = false;
};
struct DgSpec {
  std::vector<CgSpec> cg;
  std::string desc;
};
struct ProdOp {
  int dg, cg;
  uint64_t n, gap, pause;
};
struct ProdScript {
  uint64_t skew = 0;  // its clock is ahead of the one that gives the start and stop times
  std::vector<ProdOp> pre, post;
};
struct SessionSpec {
  bool reuse = false;      // same writer object as the previous session
  bool compress = false, periodic = true;
  uint64_t pretrig_ns = 0;
  int prestart = 0;        // 0 none, 1 barrier, 2 producers run through the start call
  uint64_t start_delay = 0, idle_before_stop = 0, idle_before_start = 0;
  bool stop_call = true;   // call StopMeasurement before FinalizeMeasurement
  int align = 0;           // stop at a wake-up of the background thread
  uint64_t align_off = 0;
  bool ts_start = false;   // ITimestamp overload
  int save_api = 0;        // 0 SaveSample(cg) 1 SaveSample(dg,cg)
  std::vector<DgSpec> dg;
  std::vector<ProdScript> prod;
  bool meta = false;       // extra configuration blocks
  int attach = 0;
  bool soak = false;       // long phase before the start
};
struct Saved {
  uint64_t id = 0, ts = 0;
  uint64_t b = 0, e = 0;  // scheduler steps at begin/end of the save call
  uint64_t vt = 0;        // virtual time when the call returned
  int phase = 2;          // 0 before start, 1 overlapping, 2 after start
  int req = 1;            // 1 required, 0 optional, -1 must not be there
};
struct CgLog {
  std::vector<Saved> s;
  std::map<uint64_t, size_t> by_id;
  uint64_t first_id_max = 0;
};
struct SessionLog {
  std::vector<std::vector<CgLog>> cg;  // [dg][cg]
  uint64_t start_ts = 0, stop_ts = 0;
  uint64_t t_init = 0, t_im_e = 0, t_start_b = 0, t_start_e = 0, t_stop = 0, t_fin_b = 0, t_fin_e = 0;  // virtual times
  bool compress = false;   // in effect after InitMeasurement
  size_t active_dg = 0;    // data groups the library records into
  bool init_ok = true, im_ok = true, fin_ok = true;
  bool started = false, stopped = false, finalized = false;
  std::string attach_name;
};
struct World {
  Ctx* c = nullptr;
  int wtype = 1;
  bool stream = false;
  bool small_base = false;
  uint64_t heap_peak = 0;
  std::string path = "w/m.mf4";
  std::shared_ptr<std::streambuf> buf;
  std::vector<SessionSpec> ses;
  std::vector<SessionLog> log;
  std::unique_ptr<mdf::MdfWriter> writer;
  uint64_t first_start = 0;
  bool have_first = false;
  std::map<std::string, uint64_t> api_ns;   // longest virtual duration per API
  bool faults_allowed = false;
  // hooks
  std::function<void(World&, int)> config;  // adds to the configuration of a session
  std::function<void(World&)> prior;  // uses a new writer before its first Init
  std::function<void(int, const char*)> phase_hook;  // session, phase name
  bool stop_after_start_only = false;
  uint64_t meta_salt = 0;
  std::set<std::tuple<int, int, int>> gone;  // channel groups that are not in the file to check (sorted files)
};

uint64_t Key(int s, int d, int c, uint64_t id);
struct Val {
  bool valid = true;
  uint64_t u = 0;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<uint8_t> b;
};
Val MakeVal(const ChSpec& ch, uint64_t key, size_t ix, uint64_t arr);
std::string RandText(uint64_t r, size_t len);
bool IsUInt(mdf::ChannelDataType t);
bool IsSInt(mdf::ChannelDataType t);
bool IsFloat(mdf::ChannelDataType t);
bool IsText(mdf::ChannelDataType t);
bool IsUtf16(mdf::ChannelDataType t);
std::vector<uint8_t> Encoded(mdf::ChannelDataType t, const std::string& s);
bool IsBytes(mdf::ChannelDataType t);

void GenPlan(Ctx& c, World& w);                 // fills w.ses
void BuildConfig(World& w, int s);              // creates DG/CG/CN of a session in w.writer
void RunSession(World& w, int s);               // one full session
bool RunSessionUntil(World& w, int s, const std::string& phase);
void RunAll(World& w);
void ClassifyRequired(World& w, int s);         // fills Saved::req

enum CheckFlag : unsigned {
  kAllowMissing = 1,      // required samples may be missing (crash, fault)
  kAllowInvalid = 2,      // samples may be marked invalid
  kNoTime = 4,
  kNoVlsd = 8,            // skip variable length content
  kAllowMissingDg = 16,
  kNoMeta = 32,
  kSorted = 64,           // every CG in its own DG
  kNoStartTime = 128,
};
struct ReadReport {
  bool open_ok = false, info_ok = false;
  std::vector<bool> data_ok;
  uint64_t rows = 0, invalid_rows = 0;
  std::set<std::tuple<int, int, int, uint64_t>> present;  // valid samples
};
// Reads the file through the library and compares it with the model.
ReadReport ReadAndCheck(World& w, int nof_sessions, unsigned flags, const std::string& path,
                        std::shared_ptr<std::streambuf> buf = nullptr, const char* who = "");
// Compares the content of already read observers of one CG.
struct CgView {
  const mdf::IDataGroup* dg = nullptr;
  const mdf::IChannelGroup* cg = nullptr;
  std::map<std::string, mdf::IChannelObserver*> obs;
};
void CheckCg(World& w, int s, int d, int ci, const CgView& v, unsigned flags, ReadReport& rep, const std::string& where);
// Value of one channel of one sample against the model; returns empty string if right.
std::string CheckRecord(const ChSpec& ch, uint64_t key, size_t ix, const mdf::ISampleObserver& o, const mdf::IChannel& cn,
                        uint64_t sample, const std::vector<uint8_t>& rec);
std::string CheckValue(const ChSpec& ch, uint64_t key, size_t ix, const mdf::IChannelObserver& o, uint64_t sample,
                       bool allow_invalid, bool* was_valid);
bool TimeMatches(const CgSpec& cg, uint64_t ts, uint64_t start, uint64_t sample, double got, double* want);
double UserTime(uint64_t ts);  // what the user sets as time where the library does not
bool CheckTime(const CgSpec& cg, uint64_t ts, uint64_t start, const mdf::IChannelObserver& o, uint64_t sample,
               double* got, double* want, bool* valid);
void CheckMeta(World& w, int nof_sessions, const mdf::MdfFile& file, unsigned flags, const std::string& where);

// Independent structural check of an MDF file image.
struct StructOpt {
  bool unfinished = false;  // crash image: counters may lag
};
std::string CheckStructure(const std::string& bytes, const StructOpt& opt);  // empty: fine
uint64_t StructBlocks();
std::string CheckStructure3(const std::string& bytes, uint64_t* blocks);

std::string ReadBytes(const std::string& path);
void WriteBytes(const std::string& path, const std::string& data);
// The same measurement with its data blocks cut and stored differently.
std::string Reshape(Ctx& c, const std::string& prefix, std::string bytes);
// A further measurement in a file of its own: the plan is drawn at once, the call logs and reads it back.
std::function<void()> SideLog(Ctx& c);
// Reads everything but the data, in one of the ways there are.
bool ReadInfo(Ctx& c, const std::string& prefix, mdf::MdfReader& rd);
std::string BufBytes(std::streambuf& b);
[[noreturn]] void Bad(const std::string& cls, const std::string& msg);
std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

std::unique_ptr<mdf::MdfWriter> NewWriter(int wtype);
struct Image {  // of a file, rebuilt from the journal
  std::string bytes;
  bool exists = false;
};
void Apply(Image& im, const sim::JournalOp& op, size_t len);
void DriveBusFault(Ctx& c);
void DriveBusDamage(Ctx& c);
void DriveBusCrash(Ctx& c);
template <typename F>
auto Timed(World& w, const char* name, F f) -> decltype(f()) {
  sim::SetStage(name);
  const uint64_t t = sim::Now();
  struct End {
    World& w;
    const char* n;
    uint64_t t;
    ~End() {
      auto& m = w.api_ns[n];
      const uint64_t d = sim::Now() - t;
      if (d > m) m = d;
    }
  } end{w, name, t};
  sim::Api api;
  return f();
}

using Driver = void (*)(Ctx&);
void DriveWrite(Ctx& c);
void DriveCrash(Ctx& c);
void DriveFault(Ctx& c);
void DriveReadFault(Ctx& c);
void DriveReadHistory(Ctx& c);
void DriveTime(Ctx& c);
void DriveBus(Ctx& c);
void DriveSort(Ctx& c);
void DriveAttach(Ctx& c);
void DriveStream(Ctx& c);
void DriveMeta(Ctx& c);
void DriveValidate(Ctx& c);
void DriveCsv(Ctx& c);
void DriveCompress(Ctx& c);
void TaskDirs();  // w/tmp (TMPDIR), w/a, w/b, w/out
bool FileThere(const std::string& path);
std::vector<std::string> DirEntries(const std::string& path);
void BeginRun(Ctx& c);
void CountRun(Ctx& c, World& w);
void StructCheckFile(World& w, const std::string& bytes, const char* who);
void TouchRead(const std::string& path);  // reads everything, checks nothing but termination

struct PropDef {
  const char* id;
  Driver drive;
  std::set<std::string> classes;
  std::map<std::string, std::pair<int64_t, int64_t>> range;
  bool instrumented = false;
};
const PropDef* FindProp(const std::string& id);
}  // namespace h
