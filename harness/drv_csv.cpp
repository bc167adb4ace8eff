// C20: the CSV export (mdf2csv) writes every sample of every group once, or no file that looks complete.
#include <sys/stat.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <thread>

#include "createfilelist.h"
#include "h.h"
#include "programargument.h"

using namespace mdf;
namespace h {
std::vector<std::string> DirEntries(const std::string& path);
void TaskDirs();
namespace {
using Row = std::vector<std::string>;
using Table = std::vector<Row>;

// What the file holds, read without faults: one table per group with samples.
std::vector<Table> Tables(const std::string& path) {
  sim::Api api;
  std::vector<Table> out;
  MdfReader rd(path);
  if (!rd.IsOk() || !rd.ReadEverythingButData()) Bad("READFAIL", "reading for the reference failed");
  for (auto* dg : rd.GetHeader()->DataGroups()) {
    std::vector<ChannelObserverList> lists;
    const auto cgs = dg->ChannelGroups();
    for (auto* cg : cgs) {
      lists.emplace_back();
      if ((cg->Flags() & CgFlag::VlsdChannel) != 0 || cg->NofSamples() == 0) continue;
      CreateChannelObserverForChannelGroup(*dg, *cg, lists.back());
    }
    if (!rd.ReadData(*dg)) Bad("READFAIL", "reading for the reference failed");
    for (size_t g = 0; g < cgs.size(); ++g) {
      if (lists[g].empty()) continue;
      Table t(1 + static_cast<size_t>(cgs[g]->NofSamples()));
      for (int pass = 0; pass < 2; ++pass) {  // masters first
        for (const auto& o : lists[g]) {
          if (o->IsMaster() != (pass == 0)) continue;
          const auto& cn = o->Channel();
          static const std::set<std::string> kFrames = {"CAN_DataFrame", "CAN_RemoteFrame", "CAN_ErrorFrame", "CAN_OverloadFrame"};
          if ((cgs[g]->Flags() & CgFlag::BusEvent) != 0 && kFrames.count(cn.Name()) != 0) continue;  // only their members are exported
          t[0].push_back(cn.Name() + (cn.Unit().empty() ? "" : " [" + cn.Unit() + "]"));
          for (size_t i = 1; i < t.size(); ++i) {
            std::string v;
            const bool ok = o->GetEngValue(i - 1, v);
            t[i].push_back(ok ? v : "");
          }
        }
      }
      out.push_back(std::move(t));
    }
  }
  return out;
}
// Parses the text; false if it is not a complete CSV text.
bool Parse(const std::string& text, Table& t) {
  t.clear();
  size_t p = 0;
  while (p < text.size()) {
    Row r;
    for (;;) {
      std::string f;
      if (p < text.size() && text[p] == '"') {
        for (++p;; ++p) {
          if (p >= text.size()) return false;
          if (text[p] != '"') f += text[p];
          else if (p + 1 < text.size() && text[p + 1] == '"') f += text[p++];
          else break;
        }
        ++p;
      } else {
        while (p < text.size() && text[p] != ';' && text[p] != '\n') f += text[p++];
      }
      r.push_back(f);
      if (p >= text.size()) return false;  // the last line is not ended
      if (text[p] == ';') {
        ++p;
        continue;
      }
      if (text[p] != '\n') return false;
      ++p;
      break;
    }
    t.push_back(std::move(r));
  }
  return true;
}
std::string Diff(const Table& got, const Table& want, bool lenient) {
  if (got.empty() || got[0] != want[0]) return "other columns";
  if (got.size() != want.size()) return Fmt("%zu samples instead of %zu", got.size() - 1, want.size() - 1);
  for (size_t i = 1; i < got.size(); ++i) {
    if (got[i].size() != want[i].size()) return Fmt("sample %zu has %zu fields instead of %zu", i - 1, got[i].size(), want[i].size());
    for (size_t k = 0; k < got[i].size(); ++k) {
      if (got[i][k] != want[i][k] && !(lenient && got[i][k].empty())) {
        return Fmt("sample %zu, '%s': '%s' instead of '%s'", i - 1, want[0][k].c_str(), got[i][k].substr(0, 40).c_str(), want[i][k].substr(0, 40).c_str());
      }
    }
  }
  return {};
}
struct Export {
  std::string source, out, bytes;
  bool cut = false;
  std::map<std::string, std::string> old;  // CSV files before the run
};
}  // namespace

static void Csv(Ctx& c, const TaskFile& tf) {
  const bool two = c.B("x.two", 30);
  const bool one = c.B("x.one", 35);       // one conversion of all files, CSV files beside them
  const bool dir = one && c.B("x.dir", 40);  // the directories are given
  const int runs = static_cast<int>(c.K("x.runs", 1, 3));
  const auto arm_at = c.K("x.arm", 0, 2) % runs;
  const auto& recorded = tf.bytes;
  const auto& ext = tf.ext;
  WriteBytes("w/ref" + ext, recorded);
  const auto want = Tables("w/ref" + ext);
  TaskDirs();
  std::vector<Export> jobs(two ? 2 : 1);
  for (size_t i = 0; i < jobs.size(); ++i) {
    auto& j = jobs[i];
    const auto p = "x" + std::to_string(i) + ".";
    j.source = (i == 0 ? "w/a/m" : "w/b/m") + ext;
    j.out = i == 0 ? "w/out" : c.B(p + "new", 50) ? "w/new/dir" : "w/b";
    if (one) j.out = i == 0 ? "w/a" : "w/b";
    j.bytes = recorded;
    if (c.B(p + "cut", 15)) {
      sim::Rng r(sim::Mix(c.wseed, 0xC20, i));
      j.bytes = recorded.substr(0, static_cast<size_t>(r.Below(recorded.size())));
      j.cut = true;
    }
    WriteBytes(j.source, j.bytes);
  }
  for (int run = 0; run < runs; ++run) {
    const bool force = c.B(Fmt("x.force%d", run), 50);
    const bool spoil = run > 0 && c.B(Fmt("x.spoil%d", run), 60);
    {
      sim::Api api;
      ProgramArgument::Instance().ForceOverwrite(force);
    }
    for (auto& j : jobs) {
      j.old.clear();
      for (const auto& n : DirEntries(j.out)) {
        if (n.size() < 4 || n.compare(n.size() - 4, 4, ".csv") != 0) continue;
        if (spoil) WriteBytes(j.out + "/" + n, "old;text\n1;" + std::string(recorded.size() % 997, 'o') + "\n");
        j.old[n] = ReadBytes(j.out + "/" + n);
      }
    }
    const bool armed = run == arm_at;
    sim::SetStage("export");
    if (armed) sim::ArmFaults(c.faults);
    auto work = [&](const Export& j) {
      sim::Api api;
      CreateFileList list;
      if (!one) list.OutputPath(j.out);
      std::vector<std::string> in;
      for (const auto& k : jobs) if (one || &k == &j) in.push_back(dir ? k.out : k.source);
      list.MakeFileList(in);
      for (const auto& f : list.Files()) list.ConvertMdfFile(f);
    };
    std::thread other;
    if (two && !one) other = std::thread([&] { work(jobs[1]); });
    work(jobs[0]);
    if (other.joinable()) other.join();
    const bool fired = sim::AnyFaultFired();
    if (armed) sim::DisarmFaults();
    sim::SetStage("check");
    for (auto& j : jobs) {
      const auto who = Fmt("export %d of %s%s%s", run, j.source.c_str(), force ? " with overwrite" : "", j.cut ? " (truncated)" : "");
      ++c.evals;
      if (ReadBytes(j.source) != j.bytes) Bad("VALUE", who + ": the source file was changed");
      std::vector<bool> taken(want.size(), false);
      size_t found = 0;
      for (const auto& n : DirEntries(j.out)) {
        if (n == "m" + ext) continue;
        if (n.size() < 4 || n.compare(n.size() - 4, 4, ".csv") != 0) {
          if (!fired) Bad("LEAK", who + ": left the file " + n);
          continue;
        }
        const auto text = ReadBytes(j.out + "/" + n);
        const auto it = j.old.find(n);
        if (it != j.old.end() && text == it->second && (!force || fired || j.cut)) {
          c.count["csv_kept"]++;
          ++found;
          continue;
        }
        if (it != j.old.end() && !force) Bad("VALUE", who + ": the existing file " + n + " was changed");
        Table t;
        std::string e = "the text ends within a line";
        if (Parse(text, t)) {
          e = "no such group";
          size_t k = want.size();
          for (size_t i = 0; i < want.size(); ++i) {
            if (taken[i] || t.empty() || t[0] != want[i][0]) continue;
            e = Diff(t, want[i], fired || j.cut);
            if (e.empty()) {
              k = i;
              break;
            }
          }
          if (k < want.size()) taken[k] = true;
        }
        if (!e.empty()) Bad(fired || j.cut ? "SILENT" : "VALUE", who + ": " + n + ": " + e);
        ++found;
        c.count["csv_complete"]++;
      }
      for (const auto& [n, b] : j.old) {
        if (ReadBytes(j.out + "/" + n).empty()) Bad("VALUE", who + ": the existing file " + n + " is gone");
      }
      if (!fired && !j.cut && found != want.size()) Bad("LOST", who + Fmt(": %zu files for %zu groups with samples", found, want.size()));
      if (found < want.size()) c.count["csv_missing"]++;
    }
    if (!fired) {
      for (const auto& n : DirEntries("w/tmp")) Bad("LEAK", "export left the temporary file " + n);
    }
  }
}

void DriveCsv(Ctx& c) {
  if (c.B("x.bus", 15)) {
    c.task = [&c](const TaskFile& tf) { Csv(c, tf); };
    c.count["bus_files"]++;
    return DriveBus(c);
  }
  World w;
  GenPlan(c, w);
  w.faults_allowed = true;
  BeginRun(c);
  for (size_t s = 0; s < w.ses.size(); ++s) RunSession(w, static_cast<int>(s));
  Timed(w, "destroy", [&] { w.writer.reset(); });
  TaskFile tf;
  tf.bytes = ReadBytes(w.path);
  tf.m4 = w.wtype != 0;
  tf.ext = tf.m4 ? ".mf4" : ".mdf";
  sim::SetStage("read back");
  ReadAndCheck(w, static_cast<int>(w.ses.size()), 0, w.path);
  Csv(c, tf);
  CountRun(c, w);
}
}  // namespace h
