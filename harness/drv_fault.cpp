// C09 crash points, C10 storage faults while writing, C11 damaged files and read faults, C13 bounded time.
#include <algorithm>
#include <cstring>

#include "h.h"

using namespace mdf;
namespace h {

// Reads everything there is; only termination and memory safety matter.
void TouchRead(const std::string& path) {
  sim::Api api;
  MdfReader rd(path);
  if (!rd.IsOk()) return;
  rd.ReadEverythingButData();
  const auto* hd = rd.GetHeader();
  if (hd == nullptr) return;
  for (auto* dg : hd->DataGroups()) {
    uint64_t n = 0;
    for (auto* cg : dg->ChannelGroups()) n += cg->NofSamples();
    if (n > 1'000'000) continue;
    ChannelObserverList ol;
    CreateChannelObserverForDataGroup(*dg, ol);
    rd.ReadData(*dg);
    for (auto& o : ol) {
      for (uint64_t i = 0; i < o->NofSamples() && i < 200; ++i) {
        std::string t;
        o->GetChannelValue(i, t);
        double v = 0;
        o->GetEngValue(i, v);
      }
    }
    dg->ClearData();
  }
}

// ------------------------------------------------------------------ C09
void Apply(Image& im, const sim::JournalOp& op, size_t len) {
  if (op.type == 'O') im.exists = true;
  if (op.type == 'T') im.bytes.clear();
  if (op.type == 'X') im = Image{};
  if (op.type == 'W') {
    if (im.bytes.size() < op.off + len) im.bytes.resize(op.off + len, '\0');
    memcpy(&im.bytes[op.off], op.data.data(), len);
  }
}

void DriveCrash(Ctx& c) {
  if (c.B("busfile", 20)) return DriveBusCrash(c);
  World w;
  GenPlan(c, w);
  BeginRun(c);
  sim::JournalOn(true);
  std::vector<uint64_t> done_op;  // journal length when session s had been finalized
  for (size_t s = 0; s < w.ses.size(); ++s) {
    RunSession(w, static_cast<int>(s));
    done_op.push_back(sim::Journal().size());
  }
  Timed(w, "destroy", [&] { w.writer.reset(); });
  sim::JournalOn(false);
  CountRun(c, w);

  sim::SetStage("crash");
  const auto& names = sim::JournalFiles();
  int file = -1;
  for (size_t i = 0; i < names.size(); ++i) if (names[i] == w.path) file = static_cast<int>(i);
  if (file < 0) Bad("HARNESS", "output file is not in the journal");
  std::vector<const sim::JournalOp*> ops;
  std::vector<size_t> ses_of;  // session an operation belongs to
  {
    size_t s = 0;
    for (size_t i = 0; i < sim::Journal().size(); ++i) {
      while (s + 1 < done_op.size() && i >= done_op[s]) ++s;
      if (sim::Journal()[i].file == file) {
        ops.push_back(&sim::Journal()[i]);
        ses_of.push_back(s);
      }
    }
  }
  // crash points: after k operations, the (k+1)th possibly torn
  sim::Rng r(sim::Mix(c.seed, 0xC4A5));
  std::set<std::pair<size_t, uint64_t>> points;
  const int np = static_cast<int>(c.K("cr.n", 3, c.thorough ? 16 : 8));
  for (int i = 0; i < np; ++i) {
    const auto p = "cr." + std::to_string(i) + ".";
    size_t k = static_cast<size_t>(c.K(p + "at", 0, 1'000'000)) % ops.size();
    const auto mode = c.K(p + "mode", 0, 3);
    if (mode == 0) {  // just before an open: as long as possible after the last save
      while (k > 0 && ops[k]->type != 'O') --k;
    } else if (mode == 1) {  // right at a close
      while (k + 1 < ops.size() && ops[k]->type != 'C') ++k;
    }
    uint64_t torn = 0;
    if (mode == 3 && ops[k]->type == 'W' && ops[k]->data.size() > 1) {
      // a dying process leaves whole pages of an interrupted write behind
      const uint64_t first = 4096 - ops[k]->off % 4096;
      if (first < ops[k]->data.size()) {
        const uint64_t cuts = 1 + (ops[k]->data.size() - 1 - first) / 4096;
        torn = first + 4096 * (static_cast<uint64_t>(c.K(p + "torn", 0, 1'000'000)) % cuts);
      }
    }
    points.insert({k, torn});
  }
  const unsigned lenient = kAllowMissing | kAllowInvalid | kAllowMissingDg | kNoMeta | kNoStartTime;
  using Set = std::set<std::tuple<int, int, int, uint64_t>>;
  Image im;
  size_t pos = 0;
  size_t last_close = 0;  // operations up to the last close of the output
  Image closed;
  size_t closed_for = ~size_t{0};
  Set closed_set;
  const std::string path = w.wtype == 0 ? "w/crash.mdf" : "w/crash.mf4";
  for (const auto& [k, torn] : points) {
    for (; pos < k; ++pos) {
      Apply(im, *ops[pos], ops[pos]->data.size());
      if (ops[pos]->type == 'C') {
        last_close = pos + 1;
        closed = im;
      }
    }
    if (!im.exists) continue;
    Image x = im;
    if (torn != 0) Apply(x, *ops[k], static_cast<size_t>(torn));
    const int s = static_cast<int>(ses_of[std::min(k, ops.size() - 1)]);
    // completed saves
    if (last_close != 0 && closed_for != last_close) {
      WriteBytes(path, closed.bytes);
      closed_for = last_close;
      const int cs = static_cast<int>(ses_of[last_close - 1]);
      const auto rep = ReadAndCheck(w, cs + 1, lenient, path, nullptr, "after a completed save");
      if (!rep.open_ok || !rep.info_ok) Bad("READFAIL", "the file of a completed save cannot be opened");
      if (rep.invalid_rows) Bad("CRASHLOSS", "the file of a completed save counts samples that it does not hold");
      closed_set = rep.present;
      // everything of earlier sessions, and of this one what was saved two periods before the crash
      for (int q = 0; q <= cs; ++q) {
        const auto& ss = w.ses[static_cast<size_t>(q)];
        const auto& lg = w.log[static_cast<size_t>(q)];
        const bool fin = q < cs || (last_close >= done_op[static_cast<size_t>(q)]);
        const bool per = ss.periodic && !lg.compress && lg.active_dg == 1 && w.wtype != 3 &&
                         sim::GetStats().timer_jumps == 0;  // a clock jump means that the saver was not run in time
        if (!fin && !per) continue;
        for (size_t d = 0; d < lg.cg.size(); ++d) {
          for (size_t g = 0; g < lg.cg[d].size(); ++g) {
            for (const auto& sv : lg.cg[d][g].s) {
              if (sv.req != 1) continue;
              const uint64_t since = std::max(sv.vt, lg.t_start_e);
              const bool old = since + 20'500'000'000ull < ops[k]->time && ops[k]->time <= lg.t_stop;
              if (!fin && !old) continue;
              if (!closed_set.count({q, static_cast<int>(d), static_cast<int>(g), sv.id})) {
                Bad("CRASHLOSS", Fmt("crash at %.3f s: sample id %llx of session %d saved at %.3f s is not in the file",
                                     (static_cast<double>(ops[k]->time) - 1e12) / 1e9, static_cast<unsigned long long>(sv.id), q,
                                     (static_cast<double>(sv.vt) - 1e12) / 1e9));
              }
            }
          }
        }
      }
      ++c.evals;
      c.count["saves_checked"]++;
    }
    // the image of the crash itself
    WriteBytes(path, x.bytes);
    const auto rep = ReadAndCheck(w, s + 1, lenient, path, nullptr, torn ? "torn write" : "crash");
    for (const auto& t : closed_set) {
      if (!rep.present.count(t)) {
        Bad("CRASHLOSS", Fmt("crash after file operation %zu of %zu%s: sample id %llx of session %d, saved by a completed save, is lost",
                             k, ops.size(), torn ? " (torn write)" : "", static_cast<unsigned long long>(std::get<3>(t)), std::get<0>(t)));
      }
    }
    c.count[torn ? "torn_points" : "crash_points"]++;
    c.states.insert(sim::Mix(x.bytes.size(), k, torn, rep.present.size()));
    ++c.evals;
    // the file marked as unfinished by the application: counters are to be recounted from the data
    if (w.wtype != 0 && last_close != 0 && x.bytes.size() > 64 && !w.log[static_cast<size_t>(s)].compress &&
        w.log[static_cast<size_t>(s)].active_dg == 1 && ops[last_close - 1]->time > w.log[static_cast<size_t>(s)].t_im_e &&
        ops[k]->time < w.log[static_cast<size_t>(s)].t_fin_b && c.B("cr.flag", 40)) {
      Image u = x;
      memcpy(&u.bytes[0], "UnFinMF ", 8);
      u.bytes[60] = 0x05;
      u.bytes[61] = 0;
      WriteBytes(path, u.bytes);
      const auto rep2 = ReadAndCheck(w, s + 1, lenient, path, nullptr, "unfinished");
      for (const auto& t : rep.present) {
        if (!rep2.present.count(t)) Bad("CRASHLOSS", Fmt("repair of the unfinished file lost sample id %llx", static_cast<unsigned long long>(std::get<3>(t))));
      }
      if (rep2.invalid_rows > rep.invalid_rows + 2) {
        Bad("CRASHLOSS", Fmt("repair of the unfinished file counts %llu samples that it does not hold (%llu before the repair)",
                             static_cast<unsigned long long>(rep2.invalid_rows), static_cast<unsigned long long>(rep.invalid_rows)));
      }
      c.count["unfinished_repairs"]++;
    }
    // recording goes on in the same file
    if (last_close != 0 && c.B("cr.append", 40)) {
      WriteBytes(path, x.bytes);
      {
        sim::Api api;
        auto wr = MdfFactory::CreateMdfWriter(static_cast<MdfWriterType>(w.wtype));
        if (!wr->Init(path)) Bad("APIFAIL", "Init of the file left by a crash failed");
        auto* dg = wr->CreateDataGroup();
        auto* cg = MdfWriter::CreateChannelGroup(dg);
        cg->Name("After");
        auto* t = MdfWriter::CreateChannel(cg);
        t->Name("Time");
        t->Type(ChannelType::Master);
        t->Sync(ChannelSyncType::Time);
        t->DataType(ChannelDataType::FloatLe);
        t->DataBytes(8);
        auto* v = MdfWriter::CreateChannel(cg);
        v->Name("V");
        v->DataType(ChannelDataType::UnsignedIntegerLe);
        v->DataBytes(8);
        if (!wr->InitMeasurement()) Bad("APIFAIL", "InitMeasurement on the file left by a crash failed");
        const uint64_t t0 = 1'800'000'000'000'000'000ull;
        wr->StartMeasurement(t0);
        for (uint64_t i = 0; i < 5; ++i) {
          v->SetChannelValue(i + 7);
          wr->SaveSample(*dg, *cg, t0 + i);
        }
        wr->StopMeasurement(t0 + 10);
        if (!wr->FinalizeMeasurement()) Bad("APIFAIL", "FinalizeMeasurement on the file left by a crash failed");
      }
      const auto rep3 = ReadAndCheck(w, s + 1, lenient, path, nullptr, "after the restart");
      for (const auto& t : closed_set) {
        if (!rep3.present.count(t)) {
          Bad("CRASHLOSS", Fmt("recording after the restart lost sample id %llx of session %d", static_cast<unsigned long long>(std::get<3>(t)), std::get<0>(t)));
        }
      }
      sim::Api api;
      MdfReader rd(path);
      rd.ReadEverythingButData();
      auto dgs = rd.GetHeader() ? rd.GetHeader()->DataGroups() : std::vector<IDataGroup*>{};
      if (dgs.empty()) Bad("CRASHLOSS", "no data group after the restart");
      ChannelObserverList ol;
      CreateChannelObserverForDataGroup(*dgs.back(), ol);
      if (!rd.ReadData(*dgs.back())) Bad("READFAIL", "data recorded after the restart cannot be read");
      bool good = false;
      for (auto& o : ol) {
        if (o->Name() != "V") continue;
        good = o->NofSamples() == 5;
        for (uint64_t i = 0; i < 5 && good; ++i) {
          uint64_t g = 0;
          good = o->GetChannelValue(i, g) && g == i + 7;
        }
      }
      if (!good) Bad("CRASHLOSS", "data recorded after the restart is wrong");
      c.count["restarts"]++;
    }
  }
}

// ------------------------------------------------------------------ C10
void DriveFault(Ctx& c) {
  if (c.B("busfile", 15)) return DriveBusFault(c);
  World w;
  GenPlan(c, w);
  w.faults_allowed = true;
  BeginRun(c);
  const auto arm_at = static_cast<size_t>(c.K("f.arm", 0, 3)) % w.ses.size();
  bool reported = false;
  size_t last = 0;
  for (size_t s = 0; s < w.ses.size(); ++s) {
    if (s == arm_at) sim::ArmFaults(c.faults);
    last = s;
    const bool ok = RunSessionUntil(w, static_cast<int>(s), "");
    ClassifyRequired(w, static_cast<int>(s));
    if (!ok) {
      reported = true;
      break;
    }
  }
  const bool fired = sim::AnyFaultFired();
  c.count[!fired ? "no_fault" : reported ? "failure_reported" : "fault_survived"]++;
  if (!reported && c.B("f.destroy_first", 30)) Timed(w, "destroy", [&] { w.writer.reset(); });
  sim::DisarmFaults();
  if (!reported) {
    sim::SetStage("read back");
    ReadAndCheck(w, static_cast<int>(w.ses.size()), 0, w.path, nullptr, fired ? "all calls had reported success despite storage faults" : "");
    StructCheckFile(w, ReadBytes(w.path), "file");
    if (w.writer) Timed(w, "destroy", [&] { w.writer.reset(); });
  } else {
    if (!fired) Bad("APIFAIL", Fmt("session %zu reports failure without any fault", last));
    const auto mode = c.K("f.after", 0, 3);
    if (mode == 1 || mode == 2) {
      Timed(w, "FinalizeMeasurement", [&] { return w.writer->FinalizeMeasurement(); });
    }
    if (mode >= 2) {
      // the same writer records a new file
      World w2;
      w2.c = &c;
      w2.wtype = w.wtype;
      w2.path = w.wtype == 0 ? "w/n.mdf" : "w/n.mf4";
      w2.ses.push_back(w.ses[0]);
      w2.ses[0].reuse = false;
      w2.writer = std::move(w.writer);
      const bool ok = Timed(w2, "Init", [&] { return w2.writer->Init(w2.path); });
      if (!ok) Bad("APIFAIL", "a writer cannot be initialised again after a storage failure");
      w2.ses[0].reuse = true;
      RunSession(w2, 0);
      sim::SetStage("read back");
      ReadAndCheck(w2, 1, 0, w2.path, nullptr, "file recorded after the storage failure");
      c.count["reused"]++;
      Timed(w2, "destroy", [&] { w2.writer.reset(); });
    } else {
      Timed(w, "destroy", [&] { w.writer.reset(); });
    }
  }
  if (sim::OpenFileCount() != 0) Bad("LEAK", "files are still open after the writer was destroyed");
  CountRun(c, w);
}

// ------------------------------------------------------------------ C11
// Everything reported as successful and valid must be what was written.
static void CheckDamaged(World& w, const std::string& path, const std::string& what) {
  const unsigned f = kAllowMissing | kAllowInvalid | kAllowMissingDg | kNoMeta | kNoStartTime;
  const auto rep = ReadAndCheck(w, static_cast<int>(w.ses.size()), f, path, nullptr, what.c_str());
  ++w.c->evals;
  if (!rep.open_ok || !rep.info_ok) {
    w.c->count["open_or_info_failed"]++;
    return;
  }
  bool all_ok = true;
  for (bool b : rep.data_ok) all_ok = all_ok && b;
  if (!all_ok) {
    w.c->count["read_failed"]++;
    return;
  }
  // every call succeeded: nothing may be missing
  uint64_t required = 0;
  size_t groups = 0;
  for (size_t s = 0; s < w.ses.size(); ++s) {
    groups += w.ses[s].dg.size();
    for (auto& d : w.log[s].cg) for (auto& g : d) for (auto& x : g.s) required += x.req == 1 ? 1 : 0;
  }
  w.c->count[rep.invalid_rows ? "marked_invalid" : "complete"]++;
  if (rep.present.size() + rep.invalid_rows < required || rep.data_ok.size() < groups) {
    Bad("SILENT", Fmt("%s: all read calls succeed but %llu of %llu samples are returned (%llu of them marked invalid, %zu of %zu data groups)",
                      what.c_str(), static_cast<unsigned long long>(rep.present.size() + rep.invalid_rows),
                      static_cast<unsigned long long>(required), static_cast<unsigned long long>(rep.invalid_rows), rep.data_ok.size(), groups));
  }
}
void DriveReadFault(Ctx& c) {
  if (c.B("busfile", 20)) return DriveBusDamage(c);
  World w;
  GenPlan(c, w);
  BeginRun(c);
  RunAll(w);
  CountRun(c, w);
  sim::SetStage("read with faults");
  sim::ArmFaults(c.faults);
  CheckDamaged(w, w.path, "read faults");
  sim::DisarmFaults();
  c.count[sim::AnyFaultFired() ? "read_fault_runs" : "no_fault"]++;
  if (c.dry || c.B("t.cut", 100)) {
    const auto bytes = ReadBytes(w.path);
    const auto path = w.wtype == 0 ? std::string("w/cut.mdf") : std::string("w/cut.mf4");
    const int n = static_cast<int>(c.K("t.n", 1, c.thorough ? 12 : 4));
    sim::Rng r(sim::Mix(c.seed, 0x7C));
    for (int i = 0; i < n; ++i) {
      const uint64_t at = static_cast<uint64_t>(c.set.count("t.at") ? c.K("t.at", 0, 1) : static_cast<int64_t>(
          r.Chance(0.3) ? bytes.size() - 1 - r.Below(std::min<uint64_t>(bytes.size() - 1, 400)) : r.Below(bytes.size())));
      WriteBytes(path, bytes.substr(0, at));
      sim::SetStage("read truncated");
      CheckDamaged(w, path, Fmt("file truncated to %llu of %zu bytes", static_cast<unsigned long long>(at), bytes.size()));
      c.count["truncations"]++;
    }
  }
  if (sim::OpenFileCount() != 0) Bad("LEAK", "files are still open after the reader was destroyed");
}

// ------------------------------------------------------------------ C13
void DriveTime(Ctx& c) {
  World w;
  GenPlan(c, w);
  w.faults_allowed = true;
  BeginRun(c);
  // one open that cannot succeed takes at most this long
  constexpr uint64_t kOpen = 6'500'000'000ull, kBase = 1'500'000'000ull;
  const auto mode = c.K("f.mode", 0, 3);  // 0,1 none; 2 transient; 3 permanent
  const auto arm_at = static_cast<size_t>(c.K("f.arm", 0, 3)) % w.ses.size();
  const auto fail_n = static_cast<uint64_t>(c.K("f.count", 1, 50));
  const auto fail_at = static_cast<uint64_t>(c.K("f.at", 0, 12));
  bool armed = false, reported = false;
  uint64_t ndg = 0;
  // the last session may be ended early: never started, never stopped, never finalised, or the writer pointed elsewhere
  static const char* const kCut[] = {"", "", "init", "prestart", "saved", "idle", "stopped"};
  const std::string cut = kCut[c.K("cut", 0, 6)];
  const auto cut_how = c.K("cut.how", 0, 4);  // 0 finalise 1 destroy 2 stop, finalise 3 Init of another file 4 InitMeasurement again
  const auto cut_wait = static_cast<uint64_t>(c.K("cut.wait", 0, 30)) * 400'000'000ull;
  bool was_cut = false;
  for (size_t s = 0; s < w.ses.size(); ++s) {
    ndg += w.ses[s].dg.size();
    if (s == arm_at && mode >= 2) {
      sim::Fault f;
      f.op = 'o';
      f.nth = fail_at;
      f.kind = c.B("f.acc", 50) ? "eacces" : "emfile";
      f.count = mode == 2 ? fail_n : 0;
      sim::ArmFaults({f});
      armed = true;
    }
    w.api_ns.clear();
    const bool last = s + 1 == w.ses.size();
    bool ok = RunSessionUntil(w, static_cast<int>(s), last ? cut : "");
    if (ok && last && !cut.empty()) {
      was_cut = true;
      c.count["cut_" + cut]++;
      if (cut_wait) sim::Sleep(cut_wait);
      switch (cut_how) {
        case 1: break;
        case 2:
          Timed(w, "StopMeasurement", [&] { w.writer->StopMeasurement(w.log[s].start_ts + 1'000'000'000'000ull); });
          [[fallthrough]];
        case 0: ok = Timed(w, "FinalizeMeasurement", [&] { return w.writer->FinalizeMeasurement(); }); break;
        case 3: Timed(w, "Init", [&] { return w.writer->Init(std::string("w/other.mf4")); }); break;
        default: Timed(w, "InitMeasurement", [&] { return w.writer->InitMeasurement(); }); break;
      }
    }
    ClassifyRequired(w, static_cast<int>(s));
    // a stop may have to wait for a save in progress and then saves every data group once
    const uint64_t per_open = armed ? (mode == 2 ? fail_n * 110'000'000ull + 100'000'000ull : kOpen) : 0;
    std::map<std::string, uint64_t> lim = {{"Init", kBase + per_open},
                                           {"InitMeasurement", kBase + per_open},
                                           {"StartMeasurement", kBase},
                                           {"StopMeasurement", kBase + per_open * (mode == 2 ? 2 : 2 * ndg)},
                                           {"FinalizeMeasurement", kBase + per_open},
                                           {"destroy", kBase + per_open * 2 * ndg}};
    if (!w.ses[s].stop_call || was_cut) {
      for (const char* n : {"FinalizeMeasurement", "Init", "InitMeasurement", "destroy"}) lim[n] += lim["StopMeasurement"];
    }
    for (const auto& [n, d] : w.api_ns) {
      if (lim.count(n) && d > lim[n]) {
        Bad("TIMEOUT", Fmt("session %zu: %s took %.3f s of simulated time, allowed %.3f s", s, n.c_str(), static_cast<double>(d) / 1e9,
                           static_cast<double>(lim[n]) / 1e9));
      }
    }
    ++c.evals;
    if (!ok) {
      reported = true;
      break;
    }
  }
  if (armed) sim::DisarmFaults();
  const bool fired = sim::AnyFaultFired();
  w.api_ns.clear();
  Timed(w, "destroy", [&] { w.writer.reset(); });
  if (w.api_ns["destroy"] > kBase + (fired ? 2 * ndg * kOpen : 0)) {
    Bad("TIMEOUT", Fmt("destroying the writer took %.3f s of simulated time", static_cast<double>(w.api_ns["destroy"]) / 1e9));
  }
  if (was_cut) {  // how much of it is in the file is not stated
    if (!fired) {
      w.have_first = true;
      ReadAndCheck(w, static_cast<int>(w.ses.size()),
                   kAllowMissing | kAllowInvalid | kAllowMissingDg | kNoTime | kNoVlsd | kNoStartTime | kNoMeta, w.path, nullptr, "the last session was ended early");
    }
  } else if (!reported) {
    ReadAndCheck(w, static_cast<int>(w.ses.size()), 0, w.path, nullptr, fired ? "the file had been locked for a while" : "");
  } else if (!fired) {
    Bad("APIFAIL", "a call reports failure without any fault");
  } else if (mode == 2 && !(fail_at == 0 && arm_at == 0)) {  // a missing file is not waited for
    Bad("APIFAIL", Fmt("a call reports failure although the file became available after %llu attempts", static_cast<unsigned long long>(fail_n)));
  }
  c.count[mode < 2 ? "no_lock" : mode == 2 ? "transient_lock" : "permanent_lock"]++;
  CountRun(c, w);
}
}  // namespace h
