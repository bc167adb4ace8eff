// C18: validating a file tells the truth and never harms it. C14: see drv_sort.cpp.
#include <dirent.h>
#include <sys/stat.h>

#include <cstdlib>
#include <cstring>
#include <thread>

#include "h.h"
#include "mdf/fhcomment.h"
#include "mdf/ifilehistory.h"
#include "validatingtask.h"

using namespace mdf;
namespace h {
bool FileThere(const std::string& path) {
  struct stat st {};
  return stat(("./" + path).c_str(), &st) == 0;
}
std::vector<std::string> DirEntries(const std::string& path) {
  std::vector<std::string> out;
  DIR* d = opendir(("./" + path).c_str());
  if (d == nullptr) return out;
  while (const auto* e = readdir(d)) {
    const std::string n = e->d_name;
    if (n != "." && n != "..") out.push_back(n);
  }
  closedir(d);
  return out;
}
void TaskDirs() {
  for (const char* d : {"w/tmp", "w/a", "w/b", "w/out"}) mkdir((std::string("./") + d).c_str(), 0777);
  setenv("TMPDIR", "w/tmp", 1);
}
// True if every sample in the file was saved as valid.
static bool AllValid(World& w, const ReadReport& rep) {
  for (const auto& [s, d, g, id] : rep.present) {
    const auto& cs = w.ses[static_cast<size_t>(s)].dg[static_cast<size_t>(d)].cg[static_cast<size_t>(g)];
    for (size_t k = 1; k < cs.ch.size(); ++k) {
      for (uint64_t a = 0; cs.ch[k].inv && a < cs.ch[k].array; ++a) {
        if (!MakeVal(cs.ch[k], Key(s, d, g, id), k, a).valid) return false;
      }
    }
  }
  return true;
}
static std::vector<std::string> Histories(const std::string& path) {
  sim::Api api;
  MdfReader rd(path);
  std::vector<std::string> out;
  if (!rd.IsOk() || !rd.ReadEverythingButData() || rd.GetHeader() == nullptr) return out;
  for (const auto* fh : rd.GetHeader()->FileHistories()) out.push_back(fh->Description());
  return out;
}

namespace {
struct Job {
  std::string source, dest;
  bool overwrite = false, old_dest = false;
  std::string src_bytes, dst_bytes;  // before the run
  bool cut = false;
  bool model_valid = true;
  std::unique_ptr<ValidatingTask> task;
};
}  // namespace

static void Validate(Ctx& c, const TaskFile& tf) {
  const bool two = c.B("v.two", 30);
  const int runs = static_cast<int>(c.K("v.runs", 1, 2));
  const auto arm_at = c.K("v.arm", 0, 1);
  const auto& recorded = tf.bytes;
  const auto& ext = tf.ext;
  TaskDirs();

  std::vector<Job> jobs(two ? 2 : 1);
  for (size_t i = 0; i < jobs.size(); ++i) {
    auto& j = jobs[i];
    const auto p = "v" + std::to_string(i) + ".";
    j.source = (i == 0 ? "w/a/m" : "w/b/m") + ext;
    j.src_bytes = recorded;
    j.model_valid = tf.all_valid;
    if (c.B(p + "cut", i == 0 ? 25 : 50)) {
      sim::Rng r(sim::Mix(c.wseed, 0xC18, i));
      const auto at = static_cast<size_t>(c.set.count(p + "at") ? c.K(p + "at", 0, 1) : static_cast<int64_t>(r.Below(recorded.size())));
      j.src_bytes = recorded.substr(0, at);
      j.cut = true;
    }
    if (c.B(p + "dst", 60)) {
      j.dest = (i == 0 ? "w/out/a" : "w/out/b") + ext;
      if (c.B(p + "old", 50)) {
        j.old_dest = true;
        j.dst_bytes = std::string(recorded.size() + 777, 'o');
        WriteBytes(j.dest, j.dst_bytes);
      }
    }
    j.overwrite = c.B(p + "over", 60);
    WriteBytes(j.source, j.src_bytes);
    sim::Api api;
    j.task = std::make_unique<ValidatingTask>();
    j.task->SourceFile(j.source);
    j.task->DestinationFile(j.dest);
    j.task->OverwriteFile(j.overwrite);
  }
  for (int run = 0; run < runs; ++run) {
    sim::SetStage("validate");
    const bool armed = run == (runs == 1 ? 0 : arm_at);
    if (armed) sim::ArmFaults(c.faults);
    std::vector<std::thread> th;
    for (size_t i = 1; i < jobs.size(); ++i) {
      th.emplace_back([&jobs, i] {
        sim::Api api;
        jobs[i].task->Run();
      });
    }
    {
      sim::Api api;
      jobs[0].task->Run();
    }
    for (auto& t : th) t.join();
    const bool fired = sim::AnyFaultFired();
    if (armed) sim::DisarmFaults();
    sim::SetStage("check");
    for (auto& j : jobs) {
      const auto who = Fmt("validation %d of %s%s%s%s", run, j.source.c_str(), j.dest.empty() ? "" : (" to " + j.dest).c_str(),
                           j.overwrite ? " with overwrite" : "", j.cut ? " (truncated)" : "");
      const bool err = j.task->Error();
      const bool res = j.task->Result();
      ++c.evals;
      c.count[err ? "task_error" : res ? "task_valid" : "task_invalid"]++;
      if (err && res) Bad("SILENT", who + ": reports an error and a valid file at the same time");
      if (!fired && !j.cut) {
        if (err) Bad("APIFAIL", who + ": failed without any fault: " + (j.task->MessageList().empty() ? "" : j.task->MessageList().back()));
        if (res != j.model_valid) Bad("SILENT", who + (res ? ": valid, but samples were saved as invalid" : ": not valid, but all samples were saved as valid"));
      }
      if (res && !j.model_valid && !j.cut) Bad("SILENT", who + ": valid, but samples were saved as invalid");
      const bool m4 = tf.m4;
      const bool to_dest = !j.dest.empty();
      const bool write = m4 && res && !err && (to_dest ? !j.old_dest || j.overwrite : j.overwrite);
      const bool may = m4 && (to_dest ? !j.old_dest || j.overwrite : j.overwrite);
      const auto src_now = ReadBytes(j.source);
      const auto dst_now = to_dest ? ReadBytes(j.dest) : std::string();
      auto updated = [&](const std::string& path, const std::string& from_path) {
        // everything of the source and one more history record
        const auto hs = Histories(path);
        WriteBytes(from_path, j.src_bytes);
        auto want = Histories(from_path);
        want.push_back("Valid");
        if (hs != want) Bad("HISTORY", who + Fmt(": the file history has %zu records, %zu expected, or they differ", hs.size(), want.size()));
        if (!j.cut) {
          tf.check(path, "after validation");
          tf.structure(ReadBytes(path), "validated file");
        }
      };
      if (j.cut && res) {
        WriteBytes("w/cut" + ext, j.src_bytes);
        if (!tf.check("w/cut" + ext, "truncated, but said to be valid")) Bad("SILENT", who + ": valid, but samples were saved as invalid");
        c.count["cut_still_valid"]++;
      }
      if (src_now != j.src_bytes) {
        if (to_dest || !may) Bad("VALUE", who + ": the source file was changed");
        if (err || !res) Bad("VALUE", who + ": the source file was changed although the task failed");
        updated(j.source, "w/ref" + ext);
        c.count["source_updated"]++;
      } else if (write && !to_dest) {
        Bad("HISTORY", who + ": succeeded, but the validation is not recorded in the file");
      }
      if (to_dest) {
        const bool there = FileThere(j.dest);
        if (write) {
          if (!there) Bad("HISTORY", who + ": succeeded without a destination file");
          updated(j.dest, "w/ref" + ext);
          c.count["dest_written"]++;
        } else if (j.old_dest ? !there || dst_now != j.dst_bytes : there) {
          if (!may || !err) Bad("VALUE", who + ": the destination file was touched");
          Bad("VALUE", who + ": the task failed, but left something in the destination file");
        }
      }
      // state for the next run
      j.src_bytes = src_now;
      if (to_dest && FileThere(j.dest)) {
        j.old_dest = true;
        j.dst_bytes = dst_now;
      }
      for (const char* d : {"w/a", "w/b", "w/out"}) {
        for (const auto& n : DirEntries(d)) {
          if (n != "m" + ext && n != "a" + ext && n != "b" + ext) Bad("LEAK", who + ": left the file " + d + "/" + n);
        }
      }
    }
    if (fired) c.count["fault_runs"]++;
  }
  {
    sim::Api api;
    jobs.clear();
  }
  const auto left = DirEntries("w/tmp");
  if (!left.empty()) Bad("LEAK", "a temporary file is left after the task was destroyed: " + left[0]);
  if (sim::OpenFileCount() != 0) Bad("LEAK", "files are still open after the task was destroyed");
}

void DriveValidate(Ctx& c) {
  if (c.B("v.bus", 20)) {
    c.task = [&c](const TaskFile& tf) { Validate(c, tf); };
    c.count["bus_files"]++;
    return DriveBus(c);
  }
  World w;
  GenPlan(c, w);
  w.faults_allowed = true;
  BeginRun(c);
  for (size_t s = 0; s < w.ses.size(); ++s) RunSession(w, static_cast<int>(s));
  Timed(w, "destroy", [&] { w.writer.reset(); });
  const int nses = static_cast<int>(w.ses.size());
  TaskFile tf;
  tf.bytes = ReadBytes(w.path);
  tf.m4 = w.wtype != 0;
  tf.ext = tf.m4 ? ".mf4" : ".mdf";
  sim::SetStage("read back");
  tf.all_valid = AllValid(w, ReadAndCheck(w, nses, 0, w.path));
  tf.check = [&](const std::string& path, const char* who) { return AllValid(w, ReadAndCheck(w, nses, 0, path, nullptr, who)); };
  tf.structure = [&](const std::string& b, const char* who) { StructCheckFile(w, b, who); };
  Validate(c, tf);
  CountRun(c, w);
}
}  // namespace h
