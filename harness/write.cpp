// Executes recording sessions against the real writers.
#include <cstring>
#include <thread>

#include "h.h"
#include "mdf/iattachment.h"
#include "mdf/idatawriter.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/itimestamp.h"

using namespace mdf;
namespace h {

struct Built {
  IDataGroup* dg = nullptr;
  struct G {
    IChannelGroup* cg = nullptr;
    std::vector<IChannel*> ch;
    IChannel* tm = nullptr;  // time channel that the user sets
  };
  std::vector<G> g;
};
static std::vector<std::vector<Built>>* g_built = nullptr;  // [session][dg]

std::unique_ptr<MdfWriter> NewWriter(int wtype) {
  sim::Api api;
  return MdfFactory::CreateMdfWriter(static_cast<MdfWriterType>(wtype));
}
static uint64_t AbsNow(const World& w) {
  const uint64_t base = w.small_base ? 5'000'000'000ull : 1'700'000'000'000'000'000ull;
  return base + (sim::Now() - 1'000'000'000'000ull);
}

static void SetCh(IChannel& cn, const ChSpec& cs, uint64_t key, size_t ix) {
  if (cs.type == ChannelType::VirtualData) return;
  for (uint64_t a = 0; a < cs.array; ++a) {
    const Val v = MakeVal(cs, key, ix, a);
    if (cs.type == ChannelType::VariableLength) {
      if (IsText(cs.dt)) cn.SetChannelValue(v.s, v.valid);
      else cn.SetChannelValue(v.b, v.valid);
    } else if ((IsUInt(cs.dt) || IsSInt(cs.dt)) && sim::Mix(key, ix, 83) % 8 == 0) {
      cn.SetChannelValue(IsUInt(cs.dt) ? std::to_string(v.u) : std::to_string(v.i), v.valid, a);  // numbers may be given as text
    } else if (IsUInt(cs.dt)) cn.SetChannelValue(v.u, v.valid, a);
    else if (IsSInt(cs.dt)) cn.SetChannelValue(v.i, v.valid, a);
    else if (IsFloat(cs.dt)) cn.SetChannelValue(v.d, v.valid, a);
    else if (IsText(cs.dt)) cn.SetChannelValue(v.s, v.valid);
    else if (IsBytes(cs.dt)) cn.SetChannelValue(v.b, v.valid);
    else cn.SetChannelValue(v.u, v.valid, a);
  }
}
static void SetDirect(IDataWriter& dw, const std::vector<ChSpec>& cs, uint64_t id, uint64_t key) {
  const auto& lay = dw.ChannelLayouts();
  for (const auto& l : lay) {
    for (size_t k = 0; k < cs.size(); ++k) {
      if (cs[k].name != l.name) continue;
      if (k == 0) {
        dw.SetValue<uint64_t>(l, id);
        break;
      }
      const Val v = MakeVal(cs[k], key, k, 0);
      if (IsUInt(cs[k].dt)) {
        switch (cs[k].bytes) {
          case 1: dw.SetValue<uint8_t>(l, static_cast<uint8_t>(v.u)); break;
          case 2: dw.SetValue<uint16_t>(l, static_cast<uint16_t>(v.u)); break;
          case 4: dw.SetValue<uint32_t>(l, static_cast<uint32_t>(v.u)); break;
          default: dw.SetValue<uint64_t>(l, v.u); break;
        }
      } else if (IsSInt(cs[k].dt)) {
        switch (cs[k].bytes) {
          case 1: dw.SetValue<int8_t>(l, static_cast<int8_t>(v.i)); break;
          case 2: dw.SetValue<int16_t>(l, static_cast<int16_t>(v.i)); break;
          case 4: dw.SetValue<int32_t>(l, static_cast<int32_t>(v.i)); break;
          default: dw.SetValue<int64_t>(l, v.i); break;
        }
      } else if (cs[k].bytes == 4) {
        dw.SetValue<float>(l, static_cast<float>(v.d));
      } else {
        dw.SetValue<double>(l, v.d);
      }
      break;
    }
  }
}

void BuildConfig(World& w, int s) {
  if (g_built == nullptr) g_built = new std::vector<std::vector<Built>>();
  const auto& ss = w.ses[static_cast<size_t>(s)];
  auto& wr = *w.writer;
  std::vector<Built> built;
  sim::Api api;
  const uint64_t ms = sim::Mix(w.c->wseed, 4242, static_cast<uint64_t>(s));
  auto* hd = wr.Header();
  if (hd == nullptr) Bad("APIFAIL", "writer has no header after Init");
  if (s == 0 || !w.have_first) {
    hd->Author("A" + RandText(ms, 6));
    hd->Department("D" + RandText(ms + 1, 6));
    hd->Project("P" + RandText(ms + 2, 6));
    hd->Subject("S" + RandText(ms + 3, 6));
    hd->Description("H" + RandText(ms + 4, 12));
    if (w.wtype != 0 && w.ses[0].meta) hd->MeasurementId("M" + RandText(ms + 5, 9));
  }
  if (w.wtype != 0) {
    auto* fh = hd->CreateFileHistory();
    if (fh != nullptr) {
      fh->Time(1'600'000'000'000'000'000ull + ms % 1'000'000'000ull);
      fh->Description("FH" + RandText(ms + 6, 8));
      fh->ToolName("Tool" + RandText(ms + 7, 4));
      fh->ToolVendor("Vend" + RandText(ms + 8, 4));
      fh->ToolVersion("1." + std::to_string(ms % 100));
      fh->UserName("U" + RandText(ms + 9, 3));
    }
  }
  if (ss.meta && w.wtype != 0) {
    auto* ev = hd->CreateEvent();
    if (ev != nullptr) {
      ev->Name("EV" + RandText(ms + 10, 7));
      ev->Type(static_cast<EventType>(ms % 7));
      ev->Sync(SyncType::SyncTime);
      ev->Range(RangeType::RangePoint);
      ev->Cause(static_cast<EventCause>(ms % 5));
      ev->SyncValue(static_cast<int64_t>(ms % 1000000));
      ev->SyncFactor(0.001);
      ev->Description("EVD" + RandText(ms + 11, 9));
    }
  }
  for (size_t d = 0; d < ss.dg.size(); ++d) {
    Built b;
    b.dg = wr.CreateDataGroup();
    if (b.dg == nullptr) Bad("APIFAIL", "CreateDataGroup returned null");
    if (w.wtype != 0) b.dg->Description(ss.dg[d].desc);
    for (const auto& cs : ss.dg[d].cg) {
      Built::G g;
      g.cg = MdfWriter::CreateChannelGroup(b.dg);
      if (g.cg == nullptr) Bad("APIFAIL", "CreateChannelGroup returned null");
      g.cg->Name(cs.name);
      g.cg->Description(cs.desc);
      if (cs.source) {
        auto* si = g.cg->CreateSourceInformation();
        if (si != nullptr) {
          si->Name("SI" + cs.name);
          si->Path("Path" + cs.name);
          si->Type(SourceType::Ecu);
          si->Bus(BusType::Can);
        }
      }
      if (cs.master != 5) {
        auto* m = MdfWriter::CreateChannel(g.cg);
        m->Name("Time");
        m->Unit("s");
        m->Type(cs.master == 13 ? ChannelType::VirtualMaster : ChannelType::Master);
        static const ChannelSyncType kSync[] = {ChannelSyncType::Angle, ChannelSyncType::Distance, ChannelSyncType::Index};
        m->Sync(cs.master == 14 ? kSync[cs.desc.size() % 3] : ChannelSyncType::Time);
        switch (cs.master) {
          case 1: m->DataType(ChannelDataType::FloatBe); m->DataBytes(8); break;
          case 2: m->DataType(ChannelDataType::FloatLe); m->DataBytes(4); break;
          case 3: m->DataType(ChannelDataType::SignedIntegerLe); m->DataBytes(8); break;
          case 4: m->DataType(ChannelDataType::SignedIntegerLe); m->DataBytes(4); break;
          case 6: m->DataType(ChannelDataType::SignedIntegerBe); m->DataBytes(8); break;
          case 7: m->DataType(ChannelDataType::FloatBe); m->DataBytes(4); break;
          case 8: m->DataType(ChannelDataType::SignedIntegerBe); m->DataBytes(4); break;
          case 9: m->DataType(ChannelDataType::UnsignedIntegerLe); m->DataBytes(8); break;
          case 10: m->DataType(ChannelDataType::UnsignedIntegerBe); m->DataBytes(8); break;
          case 11: m->DataType(ChannelDataType::UnsignedIntegerLe); m->DataBytes(4); break;
          case 13: m->DataType(ChannelDataType::UnsignedIntegerLe); m->DataBytes(0); break;
          default: m->DataType(ChannelDataType::FloatLe); m->DataBytes(8); break;
        }
        if (cs.master == 12) m->CalculateMasterTime(false);
        if (cs.master == 12 || cs.master == 14) g.tm = m;
        if (cs.master == 13) {
          auto* cc = m->CreateChannelConversion();
          cc->Type(ConversionType::Linear);
          cc->Parameter(0, 0);
          cc->Parameter(1, 0.25);
        }
        const bool ns = cs.master == 3 || cs.master == 6 || cs.master == 9 || cs.master == 10;
        if (ns || cs.master == 4 || cs.master == 8 || cs.master == 11) {
          auto* cc = m->CreateChannelConversion();
          cc->Type(ConversionType::Linear);
          cc->Parameter(0, 0);
          cc->Parameter(1, ns ? 1e-9 : 1e-3);
        }
      }
      for (const auto& ch : cs.ch) {
        auto* n = MdfWriter::CreateChannel(g.cg);
        n->Name(ch.name);
        n->Description(ch.desc);
        n->Type(ch.type);
        n->Sync(ChannelSyncType::None);
        n->DataType(ch.dt);
        n->DataBytes(ch.bytes);
        if (ch.inv) n->Flags(CnFlag::InvalidValid);
        if (ch.array > 1) {
          auto* ca = n->CreateChannelArray();
          ca->Type(ArrayType::Array);
          ca->Storage(ArrayStorage::CnTemplate);
          ca->Shape(ch.shape);
        }
        if (ch.conv == 1) {
          auto* cc = n->CreateChannelConversion();
          cc->Type(ConversionType::Linear);
          cc->Parameter(0, ch.cc_a);
          cc->Parameter(1, ch.cc_b);
        }
        if (ch.conv == 2) {
          auto* cc = n->CreateChannelConversion();
          cc->Type(ConversionType::ValueToText);
          cc->Parameter(0, ch.cc_a);
          cc->Parameter(1, ch.cc_b);
          for (uint16_t r = 0; r < 3; ++r) cc->Reference(r, ch.name + Fmt("=%u", r));
        }
        n->Unit(ch.unit);
        g.ch.push_back(n);
      }
      b.g.push_back(g);
    }
    built.push_back(b);
  }
  if (w.config) w.config(w, s);
  if (g_built->size() <= static_cast<size_t>(s)) g_built->resize(static_cast<size_t>(s) + 1);
  (*g_built)[static_cast<size_t>(s)] = built;
}

static void Produce(World& w, int s, int p, const std::vector<ProdOp>& ops, uint64_t& serial, uint64_t& last_ts,
                    const bool* started) {
  auto& lg = w.log[static_cast<size_t>(s)];
  const auto& ss = w.ses[static_cast<size_t>(s)];
  std::map<std::pair<int, int>, std::unique_ptr<IDataWriter>> dws;
  for (const auto& op : ops) {
    const auto& cs = ss.dg[static_cast<size_t>(op.dg)].cg[static_cast<size_t>(op.cg)];
    auto& b = (*g_built)[static_cast<size_t>(s)][static_cast<size_t>(op.dg)];
    auto& g = b.g[static_cast<size_t>(op.cg)];
    for (uint64_t n = 0; n < op.n; ++n) {
      Saved sv;
      sv.id = (static_cast<uint64_t>(p + 1) << 32) | serial++;
      const uint64_t key = Key(s, op.dg, op.cg, sv.id);
      sv.phase = *started ? 2 : 0;
      IDataWriter* dw = nullptr;
      if (cs.direct) {
        auto& slot = dws[{op.dg, op.cg}];
        sim::Api api;
        if (!slot) slot = MdfFactory::CreateDataWriter(*g.cg);
        dw = slot.get();
        SetDirect(*dw, cs.ch, sv.id, key);
      } else {
        sim::Api api;
        g.ch[0]->SetChannelValue(sv.id);
        for (size_t k = 1; k < cs.ch.size(); ++k) SetCh(*g.ch[k], cs.ch[k], key, k);
      }
      sv.ts = AbsNow(w);
      if (sv.ts <= last_ts) sv.ts = last_ts + 1;
      last_ts = sv.ts;
      if (*started) sv.ts += ss.prod[static_cast<size_t>(p)].skew;
      sv.b = sim::GetStats().steps;
      {
        sim::Api api;
        if (g.tm != nullptr) g.tm->SetChannelValue(UserTime(sv.ts));
        if (cs.direct) {
          auto rec = dw->Commit();
          w.writer->AddSample(*b.dg, *g.cg, sv.ts, std::move(rec));
        } else if (ss.save_api == 1) {
          w.writer->SaveSample(*b.dg, *g.cg, sv.ts);
        } else {
          w.writer->SaveSample(*g.cg, sv.ts);
        }
      }
      sv.e = sim::GetStats().steps;
      sv.vt = sim::Now();
      if (sv.phase == 0 && *started) sv.phase = 1;
      auto& cl = lg.cg[static_cast<size_t>(op.dg)][static_cast<size_t>(op.cg)];
      cl.by_id[sv.id] = cl.s.size();
      cl.s.push_back(sv);
      if (ss.soak) w.heap_peak = std::max(w.heap_peak, sim::HeapLive());
      if (op.gap) sim::Sleep(op.gap);
    }
    if (op.pause) sim::Sleep(op.pause);
  }
}

bool RunSessionUntil(World& w, int s, const std::string& until) {
  const auto& ss = w.ses[static_cast<size_t>(s)];
  if (w.log.size() <= static_cast<size_t>(s)) w.log.resize(static_cast<size_t>(s) + 1);
  auto& lg = w.log[static_cast<size_t>(s)];
  lg.cg.clear();
  for (const auto& d : ss.dg) lg.cg.emplace_back(d.cg.size());
  auto phase = [&](const char* n) {
    if (w.phase_hook) w.phase_hook(s, n);
    return until == n;
  };
  const bool fresh = !(ss.reuse && w.writer);
  if (fresh) {
    if (w.writer) {
      Timed(w, "destroy", [&] { w.writer.reset(); });
    }
    w.writer = NewWriter(w.wtype);
    if (w.prior) w.prior(w);
    if (w.stream) {
      if (!w.buf) w.buf = std::make_shared<MemBuf>();
      lg.init_ok = Timed(w, "Init", [&] { return w.writer->Init(w.buf); });
    } else {
      lg.init_ok = Timed(w, "Init", [&] { return w.writer->Init(w.path); });
    }
    if (!lg.init_ok && !w.faults_allowed) Bad("APIFAIL", Fmt("session %d: Init failed", s));
    if (!lg.init_ok) return false;
  }
  w.writer->CompressData(ss.compress);
  w.writer->SavePeriodic(ss.periodic);
  w.writer->PreTrigTime(static_cast<double>(ss.pretrig_ns) / 1e9);
  BuildConfig(w, s);
  lg.t_init = sim::Now();
  lg.im_ok = Timed(w, "InitMeasurement", [&] { return w.writer->InitMeasurement(); });
  if (!lg.im_ok && !w.faults_allowed) Bad("APIFAIL", Fmt("session %d: InitMeasurement failed", s));
  lg.t_im_e = sim::Now();
  lg.compress = w.writer->CompressData();
  lg.active_dg = 0;
  for (auto* dg : w.writer->Header()->DataGroups()) {
    for (auto* cg : dg->ChannelGroups()) {
      if ((cg->Flags() & CgFlag::VlsdChannel) == 0 && cg->NofSamples() == 0) {
        ++lg.active_dg;
        break;
      }
    }
  }
  if (!lg.im_ok) return false;
  if (phase("init")) return true;

  bool started = false;
  const size_t np = ss.prod.size();
  std::vector<uint64_t> serial(np, 0), last(np, 0);
  uint64_t glast = 0;
  if (ss.prestart == 1) {
    std::vector<std::thread> th;
    const uint64_t heap0 = w.heap_peak = sim::HeapLive();
    for (size_t p = 0; p < np; ++p) {
      if (ss.prod[p].pre.empty()) continue;
      th.emplace_back([&, p] { Produce(w, s, static_cast<int>(p), ss.prod[p].pre, serial[p], last[p], &started); });
    }
    for (auto& t : th) t.join();
    for (auto l : last) glast = std::max(glast, l);
    // 240 samples in 120 s; the window, two periods of the background thread and some more are 60 s at most.
    if (ss.soak && w.heap_peak - heap0 > 240 * 2000 * 3 / 5) {
      Bad("BOUND", Fmt("session %d: %llu bytes held before the start of a measurement with a pre-trigger time of %.2f s after 240 samples of 2000 bytes in 120 s",
                       s, static_cast<unsigned long long>(w.heap_peak - heap0), static_cast<double>(ss.pretrig_ns) / 1e9));
    }
    if (ss.soak) ++w.c->count["soak"];
    if (ss.idle_before_start) sim::Sleep(ss.idle_before_start);
  }
  if (phase("prestart")) return true;
  std::vector<std::thread> th;
  auto launch = [&] {
    for (size_t p = 0; p < np; ++p) {
      if (ss.prod[p].post.empty()) continue;
      th.emplace_back([&, p] { Produce(w, s, static_cast<int>(p), ss.prod[p].post, serial[p], last[p], &started); });
    }
  };
  if (ss.prestart == 2) {
    launch();
    if (ss.start_delay) sim::Sleep(ss.start_delay);
  }
  lg.t_start_b = sim::Now();
  lg.start_ts = std::max(AbsNow(w), glast + 1);
  if (ss.ts_start) {
    UtcTimestamp ts(lg.start_ts);
    Timed(w, "StartMeasurement", [&] { w.writer->StartMeasurement(ts); });
  } else {
    Timed(w, "StartMeasurement", [&] { w.writer->StartMeasurement(lg.start_ts); });
  }
  started = true;
  lg.started = true;
  lg.t_start_e = sim::Now();
  if (ss.prestart != 2) {
    for (auto& l : last) l = std::max(l, lg.start_ts);
    launch();
  }
  for (auto& t : th) t.join();
  if (phase("saved")) return true;
  if (ss.idle_before_stop) sim::Sleep(ss.idle_before_stop);
  if (ss.align != 0) {  // stop right when the background thread wakes up
    const uint64_t period = 10'000'000'000ull;
    const uint64_t gone = sim::Now() - lg.t_im_e;
    sim::Sleep((gone / period + 1) * period - gone + ss.align_off);
  }
  if (phase("idle")) return true;
  lg.stop_ts = AbsNow(w);
  for (auto l : last) lg.stop_ts = std::max(lg.stop_ts, l + 1);
  lg.t_stop = sim::Now();
  if (ss.stop_call) Timed(w, "StopMeasurement", [&] { w.writer->StopMeasurement(lg.stop_ts); });
  lg.stopped = true;
  if (phase("stopped")) return true;
  lg.t_fin_b = sim::Now();
  lg.fin_ok = Timed(w, "FinalizeMeasurement", [&] { return w.writer->FinalizeMeasurement(); });
  lg.t_fin_e = sim::Now();
  lg.finalized = true;
  if (!lg.fin_ok && !w.faults_allowed) Bad("APIFAIL", Fmt("session %d: FinalizeMeasurement failed", s));
  if (!w.have_first) {
    for (auto& d : lg.cg) for (auto& g : d) if (!g.s.empty()) w.have_first = true;
    w.first_start = lg.start_ts;
  }
  if (phase("final")) return true;
  return lg.fin_ok;
}
void RunSession(World& w, int s) {
  RunSessionUntil(w, s, "");
  ClassifyRequired(w, s);
}
void RunAll(World& w) {
  for (size_t s = 0; s < w.ses.size(); ++s) RunSession(w, static_cast<int>(s));
  if (w.writer) Timed(w, "destroy", [&] { w.writer.reset(); });
}

void ClassifyRequired(World& w, int s) {
  const auto& ss = w.ses[static_cast<size_t>(s)];
  auto& lg = w.log[static_cast<size_t>(s)];
  const auto S = static_cast<int64_t>(lg.start_ts);
  const auto P = static_cast<int64_t>(ss.pretrig_ns);
  for (auto& d : lg.cg) {
    if (!lg.started) {
      for (auto& g : d) for (auto& x : g.s) x.req = 0;
      continue;
    }
    if (w.wtype == 3 || ss.prestart == 2) {
      int64_t top = S;
      for (auto& g : d) for (auto& x : g.s) if (x.phase < 2) top = std::max(top, static_cast<int64_t>(x.ts));
      for (auto& g : d) {
        for (auto& x : g.s) {
          x.req = 1;
          if (x.phase < 2 && static_cast<int64_t>(x.ts) < top - P) x.req = 0;
          if (w.wtype == 3 && x.phase < 2) x.req = static_cast<int64_t>(x.ts) >= top - P ? 1 : 0;
        }
      }
      continue;
    }
    // barrier: exact
    std::vector<Saved*> pre;
    for (auto& g : d) for (auto& x : g.s) if (x.phase == 0) pre.push_back(&x); else x.req = 1;
    std::sort(pre.begin(), pre.end(), [](const Saved* a, const Saved* b) { return a->b < b->b; });
    size_t keep = 0;
    for (size_t k = 0; k < pre.size(); ++k) if (static_cast<int64_t>(pre[k]->ts) < S - P) keep = k;
    for (size_t k = 0; k < pre.size(); ++k) pre[k]->req = k < keep ? -1 : 1;
  }
  if (ss.stop_call && lg.started) {  // samples later than the stop time need not be there
    for (auto& d : lg.cg) for (auto& g : d) for (auto& x : g.s) if (x.phase == 2 && x.ts > lg.stop_ts) x.req = 0;
  }
}
}  // namespace h
