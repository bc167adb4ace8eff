// Drivers: one simulated run per call.
#include <cmath>
#include <cstring>
#include <thread>

#include "h.h"

using namespace mdf;
namespace h {

static sim::SchedConfig MakeSched(Ctx& c) {
  sim::SchedConfig s;
  s.seed = sim::Mix(c.seed, 0x5C4ED);
  static const double ps[] = {0.0, 0.01, 0.05, 0.2, 0.5};
  static const double pp[] = {0.0, 0.3, 0.5, 0.5, 0.5};
  const auto k = c.K("sch.style", 0, 4);
  s.p_switch = ps[k];
  s.p_pick = pp[k];
  static const double pt[] = {0.0, 0.0, 0.002, 0.02};
  s.p_timer = pt[c.K("sch.timer", 0, 3)];
  static const double psu[] = {0.0, 0.0, 0.01};
  s.p_spurious = psu[c.K("sch.spur", 0, 2)];
  static const uint64_t ticks[] = {1, 1000, 200'000};
  s.tick_ns = ticks[c.K("sch.tick", 0, 2)];
  if (c.count.count("flood")) s.time_cap_ns *= 400;
  if (sim::Instrumented()) {
    static const uint64_t gaps[] = {0, 30, 300, 3000};
    s.mem_gap = gaps[c.K("sch.mem", 0, 3)];
  }
  if (c.B("sch.jump", 20)) {
    s.jumps.push_back({static_cast<uint64_t>(c.K("sch.jump_at", 1, 30)) * 1'000'000'000ull,
                       (c.K("sch.jump_d", 0, 4) - 2) * 3'600'000'000'000ll});
  }
  if (c.devs_given) {
    s.replay = true;
    s.devs = c.devs;
  }
  return s;
}
void BeginRun(Ctx& c) {
  sim::EnableRaceOracle(c.B("sch.race", 100));
  sim::Start(MakeSched(c), "w/");
}
void CountRun(Ctx& c, World& w) {
  c.count["wtype" + std::to_string(w.wtype)]++;
  for (auto& s : w.ses) {
    c.count[s.compress ? "compressed" : "uncompressed"]++;
    c.count[s.periodic ? "periodic" : "at_stop"]++;
    c.count["prestart" + std::to_string(s.prestart)]++;
  }
  uint64_t n = 0;
  for (auto& l : w.log) for (auto& d : l.cg) for (auto& g : d) n += g.s.size();
  c.count["samples_saved"] += n;
}
void StructCheckFile(World& w, const std::string& bytes, const char* who) {
  const auto e = CheckStructure(bytes, StructOpt{});
  if (!e.empty()) Bad("STRUCT", std::string(who) + ": " + e);
  w.c->count["blocks_checked"] += StructBlocks();
  ++w.c->evals;
}

// C01, C02, C03, C05, C06, C08, C16: record, then compare everything with the model.
void DriveWrite(Ctx& c) {
  if (c.B("busfile", 0)) {
    c.count["bus_files"]++;
    return DriveBus(c);
  }
  World w;
  GenPlan(c, w);
  std::function<void()> side;  // another writer that works at the same time
  if (c.B("second", 0)) side = SideLog(c);
  BeginRun(c);
  std::thread other;
  if (side) other = std::thread(side);
  for (size_t s = 0; s < w.ses.size(); ++s) {
    RunSession(w, static_cast<int>(s));
    sim::SetStage("read back");
    if (w.stream) {
      ReadAndCheck(w, static_cast<int>(s) + 1, 0, "", w.buf);
      StructCheckFile(w, BufBytes(*w.buf), "stream");
    } else {
      ReadAndCheck(w, static_cast<int>(s) + 1, 0, w.path);
      StructCheckFile(w, ReadBytes(w.path), "file");
    }
  }
  Timed(w, "destroy", [&] { w.writer.reset(); });
  if (other.joinable()) other.join();
  CountRun(c, w);
}

void DriveCompress(Ctx& c) {
  if (c.B("busfile", 0)) {
    c.count["bus_files"]++;
    DriveBus(c);
  } else {
    DriveReadHistory(c);
  }
}

// C12: files of channel groups, or files of bus messages with their payloads in other records
void DriveHistory(Ctx& c) {
  if (c.B("busfile", 15)) {
    c.count["bus_files"]++;
    DriveBus(c);
  } else {
    DriveReadHistory(c);
  }
}

const PropDef* FindProp(const std::string& id) {
  static const std::set<std::string> kAll = {};
  static const std::vector<PropDef> defs = {
      {"C01", DriveWrite, kAll, {{"flood", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"second", {3, 0}}, {"busfile", {8, 0}}, {"nses", {1, 2}}, {"nostop", {10, 0}}, {"manycg", {2, 0}}, {"skew", {15, 0}}}},
      {"C02", DriveWrite, kAll, {{"second", {12, 0}}, {"busfile", {15, 0}}, {"nprod", {2, 4}}, {"skew", {10, 0}}, {"direct", {50, 0}}, {"bigrec", {10, 0}}, {"bigsize", {300000, 700000}}, {"biglow", {85, 0}}}, true},
      {"C03", DriveWrite, kAll, {{"flood", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"bigv", {2, 0}}, {"storage", {0, 1}}, {"busfile", {25, 0}}, {"nses", {1, 2}}, {"wtype", {1, 3}}, {"kind", {22, 27}}, {"nch", {1, 3}}, {"direct", {0, 0}}}},
      {"C04", DriveBus, kAll, {{"bses", {1, 2}}}},
      {"C05", DriveWrite, kAll, {{"flood", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"busfile", {10, 0}}, {"prestart", {1, 2}}, {"nch", {0, 1}}, {"nses", {1, 3}}}},
      {"C06", DriveWrite, kAll, {{"flood", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"busfile", {8, 0}}, {"nses", {1, 2}}, {"prestart", {1, 2}}, {"nch", {0, 1}}, {"smallbase", {15, 0}}, {"soak", {4, 0}}}},
      {"C07", DriveCompress, kAll, {{"flood", {2, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"busfile", {15, 0}}, {"wtype", {1, 3}}, {"compress", {85, 0}}, {"bigrec", {50, 0}}, {"bigv", {50, 0}}, {"kind", {10, 27}}, {"biglow", {65, 0}}, {"ndg", {1, 2}}, {"nch", {0, 2}}, {"ops", {2, 5}}, {"reshape", {60, 0}}, {"jump", {0, 0}}}},
      {"C08", DriveWrite, kAll, {{"manyses", {2, 0}}, {"flood", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"bses", {2, 3}}, {"busfile", {12, 0}}, {"nses", {2, 4}}, {"manycg", {1, 0}}, {"nch", {0, 3}}, {"ncg", {1, 2}}, {"ndg", {1, 2}}}},
      {"C09", DriveCrash, kAll, {{"flood", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"nses", {1, 2}}, {"nch", {0, 3}}, {"ndg", {1, 2}}, {"compress", {20, 0}}, {"atstop", {10, 0}}, {"pause", {2, 4}}}},
      {"C10", DriveFault, kAll, {{"two_phase", {1, 1}}, {"nses", {1, 2}}, {"nch", {0, 3}}}},
      {"C11", DriveReadFault, kAll, {{"two_phase", {1, 1}}, {"fault_reads", {1, 1}}, {"nses", {1, 2}}, {"nch", {0, 3}}}},
      {"C12", DriveHistory, kAll, {{"flood", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"more", {1, 5}}, {"reshape", {30, 0}}, {"manycg", {1, 0}}, {"nses", {1, 2}}, {"nch", {0, 4}}, {"ndg", {1, 2}}}},
      {"C13", DriveTime, kAll, {{"nostop", {10, 0}}, {"align", {0, 1}}, {"timer", {0, 0}}, {"tick", {0, 1}}, {"jump", {0, 0}}, {"nch", {0, 1}}, {"nses", {1, 2}}}},
      {"C17", DriveStream, kAll, {{"flood", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"stream", {100, 0}}, {"nses", {1, 2}}, {"nch", {0, 4}}, {"ndg", {1, 2}}}},
      {"C15", DriveAttach, kAll, {{"manyses", {1, 0}}, {"two_phase", {1, 1}}, {"more_reads", {1, 1}}, {"wtype", {1, 3}}, {"nses", {1, 3}}, {"nch", {0, 1}}, {"ndg", {1, 1}}, {"ncg", {1, 1}}, {"nprod", {1, 1}}}},
      {"C18", DriveValidate, kAll, {{"flood", {2, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"two_phase", {1, 1}}, {"more_reads", {1, 1}}, {"nses", {1, 3}}, {"nch", {0, 3}}, {"ndg", {1, 2}}, {"ncg", {1, 2}}, {"inv", {6, 0}}}},
      {"C20", DriveCsv, kAll, {{"flood", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"same", {20, 0}}, {"two_phase", {1, 1}}, {"more_reads", {1, 1}}, {"nses", {1, 3}}, {"nch", {0, 5}}, {"ndg", {1, 2}}, {"ncg", {1, 3}}, {"kind", {0, 31}}}},
      {"C14", DriveSort, kAll, {{"flood", {2, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"two_phase", {1, 1}}, {"more_reads", {1, 1}}, {"nses", {1, 3}}, {"nch", {0, 4}}, {"ndg", {1, 2}}, {"ncg", {1, 3}}, {"kind", {0, 31}}}},
      {"C16", DriveMeta, kAll, {{"manyses", {1, 0}}, {"wide", {2, 0}}, {"manydg", {1, 0}}, {"nses", {1, 3}}, {"meta", {80, 0}}, {"source", {60, 0}}}},
  };
  for (const auto& d : defs) if (id == d.id) return &d;
  return nullptr;
}
}  // namespace h
