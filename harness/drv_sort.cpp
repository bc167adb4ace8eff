// C14: sorting a file preserves all its data and reports every failure.
#include <sys/stat.h>

#include <cstring>
#include <thread>

#include "h.h"
#include "mdf/iattachment.h"
#include "sortingtask.h"

using namespace mdf;
namespace h {
namespace {
struct Job {
  std::string source, dest;
  bool overwrite = false, old_dest = false, cut = false, skip = false;
  std::string src_bytes, dst_bytes;
  std::unique_ptr<SortingTask> task;
};
struct At {
  std::string name, type, desc, bytes;
  bool zip = false;
};
}  // namespace

void DriveSort(Ctx& c) {
  if (c.B("v.bus", 25)) {
    c.sort = true;
    return DriveBus(c);
  }
  World w;
  GenPlan(c, w);
  w.faults_allowed = true;
  const bool m4 = w.wtype != 0;
  std::vector<At> ats;
  const auto nat = m4 ? c.K("at.n", -1, 3) : 0;
  for (int64_t i = 0; i < nat; ++i) {
    const auto q = "at" + std::to_string(i) + ".";
    static const size_t sizes[] = {0, 1, 99, 4096, 16384, 16385, 70001};
    At a;
    a.name = Fmt("w/at%lld.bin", static_cast<long long>(i));
    a.type = "text/" + RandText(c.H(q + "t"), 3);
    a.desc = "AT" + RandText(c.H(q + "d"), 8);
    a.bytes = RandText(c.H(q + "b"), sizes[c.K(q + "size", 0, 6)]);
    a.zip = c.B(q + "zip", 50);
    ats.push_back(a);
  }
  const bool two = c.B("v.two", 20);
  const int runs = static_cast<int>(c.K("v.runs", 1, 2));
  const auto arm_at = c.K("v.arm", 0, 1);
  BeginRun(c);
  for (const auto& a : ats) WriteBytes(a.name, a.bytes);
  w.config = [&](World& x, int s) {
    if (s != 0) return;
    for (const auto& a : ats) {
      auto* at = x.writer->Header()->CreateAttachment();
      at->FileName(a.name);
      at->FileType(a.type);
      at->IsEmbedded(true);
      at->IsCompressed(a.zip);
      AtComment cm(a.desc);
      at->SetAtComment(cm);
    }
  };
  for (size_t s = 0; s < w.ses.size(); ++s) RunSession(w, static_cast<int>(s));
  Timed(w, "destroy", [&] { w.writer.reset(); });
  const auto recorded = ReadBytes(w.path);
  const int nses = static_cast<int>(w.ses.size());
  sim::SetStage("read back");
  const auto base = ReadAndCheck(w, nses, 0, w.path);
  std::set<std::tuple<int, int, int>> filled;
  for (const auto& [s, d, g, id] : base.present) filled.insert({s, d, g});
  TaskDirs();
  const std::string ext = m4 ? ".mf4" : ".mdf";

  std::vector<Job> jobs(two ? 2 : 1);
  for (size_t i = 0; i < jobs.size(); ++i) {
    auto& j = jobs[i];
    const auto p = "v" + std::to_string(i) + ".";
    j.source = (i == 0 ? "w/a/m" : "w/b/m") + ext;
    j.src_bytes = recorded;
    if (m4 && c.B(p + "reshape", 25)) j.src_bytes = Reshape(c, p, recorded);
    if (c.B(p + "cut", 20)) {
      sim::Rng r(sim::Mix(c.wseed, 0xC14, i));
      j.src_bytes.resize(static_cast<size_t>(c.set.count(p + "at") ? c.K(p + "at", 0, 1) : static_cast<int64_t>(r.Below(recorded.size()))));
      j.cut = true;
    }
    // the same file name in different directories
    j.dest = (i == 0 ? "w/out/" : "w/out/b/") + std::string("s.mf4");
    if (c.B(p + "old", 30)) {
      j.old_dest = true;
      j.dst_bytes = std::string(recorded.size() + 777, 'o');
      mkdir("./w/out/b", 0777);
      WriteBytes(j.dest, j.dst_bytes);
    }
    j.overwrite = c.B(p + "over", 60);
    j.skip = c.B(p + "skip", 30);
    WriteBytes(j.source, j.src_bytes);
    sim::Api api;
    j.task = std::make_unique<SortingTask>();
    j.task->SourceFile(j.source);
    j.task->DestinationFile(j.dest);
    j.task->OverwriteFile(j.overwrite);
    j.task->CompressData(c.B(p + "zip", 40));
    j.task->SkipIfNoSamples(j.skip);
  }
  for (int run = 0; run < runs; ++run) {
    sim::SetStage("sort");
    const bool armed = run == (runs == 1 ? 0 : arm_at);
    if (armed) sim::ArmFaults(c.faults);
    std::vector<std::thread> th;
    for (size_t i = 1; i < jobs.size(); ++i) {
      th.emplace_back([&jobs, i] {
        sim::Api api;
        jobs[i].task->Run();
      });
    }
    {
      sim::Api api;
      jobs[0].task->Run();
    }
    for (auto& t : th) t.join();
    const bool fired = sim::AnyFaultFired();
    if (armed) sim::DisarmFaults();
    sim::SetStage("check");
    for (auto& j : jobs) {
      const auto who = Fmt("sorting run %d of %s%s%s", run, j.source.c_str(), j.overwrite ? " with overwrite" : "", j.cut ? " (truncated)" : "");
      const bool err = j.task->Error();
      const bool res = j.task->Result();
      ++c.evals;
      c.count[err ? "task_error" : "task_ok"]++;
      if (err == res) Bad("SILENT", who + Fmt(": error %d and result %d contradict each other", err, res));
      const bool refused = j.old_dest && !j.overwrite;
      if (res && refused) Bad("SILENT", who + ": succeeded although the destination exists and must not be overwritten");
      if (!fired && !j.cut && err && !refused && m4) {
        Bad("APIFAIL", who + ": failed without any fault: " + (j.task->MessageList().empty() ? "" : j.task->MessageList().back()));
      }
      if (ReadBytes(j.source) != j.src_bytes) Bad("VALUE", who + ": the source file was changed");
      const bool there = FileThere(j.dest);
      const auto dst_now = ReadBytes(j.dest);
      if (err) {
        if (j.old_dest ? !there || dst_now != j.dst_bytes : there) Bad("SILENT", who + ": failed, but left something in the destination file");
      } else {
        if (!there) Bad("LOST", who + ": succeeded without a destination file");
        w.gone.clear();
        if (j.skip) {
          for (int s = 0; s < nses; ++s) {
            for (size_t d = 0; d < w.ses[static_cast<size_t>(s)].dg.size(); ++d) {
              for (size_t g = 0; g < w.ses[static_cast<size_t>(s)].dg[d].cg.size(); ++g) {
                if (!filled.count({s, static_cast<int>(d), static_cast<int>(g)})) w.gone.insert({s, static_cast<int>(d), static_cast<int>(g)});
              }
            }
          }
        }
        const auto rep = ReadAndCheck(w, nses, kSorted, j.dest, nullptr, j.cut ? "sorted truncated source" : "sorted");
        w.gone.clear();
        if (rep.present != base.present) Bad("LOST", who + Fmt(": the sorted file has %zu samples, the source %zu", rep.present.size(), base.present.size()));
        StructCheckFile(w, dst_now, "sorted file");
        sim::Api api;
        MdfReader rd(j.dest);
        if (!rd.IsOk() || !rd.ReadEverythingButData()) Bad("READFAIL", who + ": sorted file cannot be read");
        const auto list = rd.GetHeader()->Attachments();
        if (list.size() != ats.size()) Bad("ATTACH", who + Fmt(": %zu attachments, %zu in the source", list.size(), ats.size()));
        for (size_t k = 0; k < ats.size(); ++k) {
          const auto& a = ats[k];
          AtComment cm;
          list[k]->GetAtComment(cm);
          if (list[k]->FileName() != a.name || list[k]->FileType() != a.type || cm.Comment().Text() != a.desc || !list[k]->IsEmbedded() ||
              list[k]->IsCompressed() != a.zip) {
            Bad("ATTACH", who + Fmt(": description of attachment %zu differs", k));
          }
          MemBuf out;
          if (!rd.ExportAttachmentData(*list[k], out) || out.data != a.bytes) Bad("ATTACH", who + Fmt(": attachment %zu (%zu bytes) is not in the sorted file", k, a.bytes.size()));
        }
        c.count["sorted"]++;
      }
      if (there) {
        j.old_dest = true;
        j.dst_bytes = dst_now;
      }
      for (const char* d : {"w/a", "w/b", "w/out", "w/out/b"}) {
        for (const auto& n : DirEntries(d)) {
          if (n != "m" + ext && n != "s.mf4" && n != "b") Bad("LEAK", who + ": left the file " + d + "/" + n);
        }
      }
    }
    if (fired) c.count["fault_runs"]++;
  }
  {
    sim::Api api;
    jobs.clear();
  }
  const auto left = DirEntries("w/tmp");
  if (!left.empty()) Bad("LEAK", "a temporary file is left after the task was destroyed: " + left[0]);
  if (sim::OpenFileCount() != 0) Bad("LEAK", "files are still open after the task was destroyed");
  CountRun(c, w);
}
}  // namespace h
