// Reads files through the library and compares them with the model.
#include <cmath>
#include <cstring>

#include "h.h"
#include "mdf/ichannelarray.h"
#include "mdf/iattachment.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"

using namespace mdf;
namespace h {

static std::string Hex(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < 24; ++i) o += Fmt("%02x", static_cast<uint8_t>(s[i]));
  return o + Fmt("(%zu)", s.size());
}
template <class G>
static std::string CheckVal(const ChSpec& ch, uint64_t key, size_t ix, const G& get, bool allow_invalid, bool* was_valid) {
  if (was_valid) *was_valid = true;
  for (uint64_t a = 0; a < ch.array; ++a) {
    const Val v = MakeVal(ch, key, ix, a);
    bool valid = false, same = false;
    std::string got, want;
    if (ch.type == ChannelType::VariableLength) {
      if (IsText(ch.dt)) {
        std::string t;
        valid = get(t, uint64_t{0});
        same = t == v.s;
        if (!same) { got = Hex(t); want = Hex(v.s); }
      } else {
        std::vector<uint8_t> t;
        valid = get(t, uint64_t{0});
        same = t == v.b;
        if (!same) { got = Hex({t.begin(), t.end()}); want = Hex({v.b.begin(), v.b.end()}); }
      }
    } else if (IsUInt(ch.dt)) {
      uint64_t t = 0;
      valid = get(t, a);
      same = t == v.u;
      if (!same) { got = std::to_string(t); want = std::to_string(v.u); }
    } else if (IsSInt(ch.dt)) {
      int64_t t = 0;
      valid = get(t, a);
      same = t == v.i;
      if (!same) { got = std::to_string(t); want = std::to_string(v.i); }
    } else if (IsFloat(ch.dt)) {
      double t = 0;
      valid = get(t, a);
      same = t == v.d;
      if (!same) { got = Fmt("%.17g", t); want = Fmt("%.17g", v.d); }
    } else if (IsText(ch.dt)) {
      std::string t;
      valid = get(t, a);
      same = t == v.s;
      if (!same) { got = Hex(t); want = Hex(v.s); }
    } else if (IsBytes(ch.dt)) {
      std::vector<uint8_t> t;
      valid = get(t, uint64_t{0});
      same = t == v.b;
      if (!same) { got = Hex({t.begin(), t.end()}); want = Hex({v.b.begin(), v.b.end()}); }
    } else {
      uint64_t t = 0;
      valid = get(t, a);
      same = t == v.u;
      if (!same) { got = std::to_string(t); want = std::to_string(v.u); }
    }
    if (!valid) {
      if (was_valid) *was_valid = false;
      if (v.valid && !allow_invalid) return Fmt("value[%d] is marked invalid but was saved as valid", static_cast<int>(a));
      continue;
    }
    if (!v.valid) return Fmt("value[%d] is marked valid but was saved as invalid", static_cast<int>(a));
    if (!same) return Fmt("value[%d] is %s, saved as %s", static_cast<int>(a), got.c_str(), want.c_str());
  }
  return {};
}

std::string CheckValue(const ChSpec& ch, uint64_t key, size_t ix, const IChannelObserver& o, uint64_t sample,
                       bool allow_invalid, bool* was_valid) {
  if (ch.type == ChannelType::VirtualData) {
    uint64_t t = 0;
    const bool ok = o.GetChannelValue(sample, t);
    if (was_valid) *was_valid = ok;
    if (!ok) return allow_invalid ? "" : "virtual value is marked invalid";
    return t == sample ? "" : Fmt("virtual value is %llu", static_cast<unsigned long long>(t));
  }
  bool valid = true;
  auto e = CheckVal(ch, key, ix, [&](auto& t, uint64_t a) { return o.GetChannelValue(sample, t, a); }, allow_invalid, &valid);
  if (was_valid) *was_valid = valid;
  if (!e.empty() || !valid || sim::Mix(key, ix, 77) % 4 != 0) return e;
  // the same value in the other forms that the observer offers
  const bool raw = o.Channel().ChannelConversion() == nullptr;
  std::string all;
  for (uint64_t a = 0; a < ch.array; ++a) {
    const Val v = MakeVal(ch, key, ix, a);
    std::string want, t;
    if (IsUInt(ch.dt)) want = std::to_string(v.u);
    else if (IsSInt(ch.dt)) want = std::to_string(v.i);
    else if (IsText(ch.dt)) want = v.s;
    else return {};
    if (!o.GetChannelValue(sample, t, a) || t != want) return Fmt("value[%d] as text is '%s', saved as '%s'", static_cast<int>(a), t.c_str(), want.c_str());
    if (IsText(ch.dt)) return {};
    double x = 0;
    const double xw = IsUInt(ch.dt) ? static_cast<double>(v.u) : static_cast<double>(v.i);
    if (!o.GetChannelValue(sample, x, a) || x != xw) return Fmt("value[%d] as a float is %.17g, saved as %s", static_cast<int>(a), x, want.c_str());
    if (raw && (!o.GetEngValue(sample, x, a) || x != xw)) return Fmt("scaled value[%d] is %.17g, saved as %s without scaling", static_cast<int>(a), x, want.c_str());
    all += (a ? ";" : "") + want;
  }
  if (raw) {
    const auto t = o.EngValueToString(sample);
    if (t != all) return "the value as text is '" + t + "', saved as '" + all + "'";
    std::vector<double> list;
    const auto ok = o.GetChannelValues(sample, list);
    if (list.size() != ch.array || ok.size() != ch.array) return "the list of values of the sample has another size";
  }
  return {};
}

std::string CheckRecord(const ChSpec& ch, uint64_t key, size_t ix, const ISampleObserver& o, const IChannel& cn, uint64_t sample,
                        const std::vector<uint8_t>& rec) {
  if (ch.type == ChannelType::VirtualData) {
    uint64_t t = 0;
    return o.GetChannelValue(cn, sample, rec, t) && t == sample ? "" : Fmt("virtual value is %llu", static_cast<unsigned long long>(t));
  }
  return CheckVal(ch, key, ix, [&](auto& t, uint64_t a) { return o.GetChannelValue(cn, sample, rec, t, a); }, false, nullptr);
}

double UserTime(uint64_t ts) { return static_cast<double>(ts % 1'000'000'007ull) * 0.5; }

bool TimeMatches(const CgSpec& cg, uint64_t ts, uint64_t start, uint64_t sample, double got, double* want) {
  if (cg.master >= 12) {
    *want = cg.master != 13 ? UserTime(ts) : static_cast<double>(sample) * 0.25;
    return got == *want;
  }
  const int64_t rel = static_cast<int64_t>(ts) - static_cast<int64_t>(start);
  *want = static_cast<double>(rel) / 1e9;
  double tol = 1.5e-9 + std::fabs(*want) * 1e-14;
  switch (cg.master) {
    case 2: case 7: tol = 1e-9 + std::fabs(*want) * 2e-7; break;
    case 3: case 6: case 9: case 10: tol = 2.5e-9 + std::fabs(*want) * 1e-14; break;
    case 4: case 8: case 11: tol = 1.1e-3; break;
    default: break;
  }
  if (cg.master >= 9 && *want < 0) *want = 0;  // an unsigned channel cannot hold a time before the start
  return std::fabs(got - *want) <= tol;
}

bool CheckTime(const CgSpec& cg, uint64_t ts, uint64_t start, const IChannelObserver& o, uint64_t sample, double* got,
               double* want, bool* valid) {
  *valid = o.GetEngValue(sample, *got);
  return TimeMatches(cg, ts, start, sample, *got, want);
}

void CheckCg(World& w, int s, int d, int ci, const CgView& v, unsigned flags, ReadReport& rep, const std::string& where) {
  const auto& spec = w.ses[static_cast<size_t>(s)].dg[static_cast<size_t>(d)].cg[static_cast<size_t>(ci)];
  auto& lg = w.log[static_cast<size_t>(s)];
  const auto& cl = lg.cg[static_cast<size_t>(d)][static_cast<size_t>(ci)];
  const auto wh = where + Fmt(" session %d dg %d cg %d", s, d, ci);
  auto obs = [&](const std::string& n) -> IChannelObserver* {
    const auto it = v.obs.find(n);
    if (it == v.obs.end()) Bad("META", wh + ": channel '" + n + "' is missing");
    return it->second;
  };
  auto* id_obs = obs("Id");
  const uint64_t n = v.cg->NofSamples();
  if (id_obs->NofSamples() != n) {
    Bad("STRUCT", wh + Fmt(": observer holds %llu samples, group states %llu",
                           static_cast<unsigned long long>(id_obs->NofSamples()), static_cast<unsigned long long>(n)));
  }
  if (n > 10'000'000) Bad("VALUE", wh + ": absurd sample count " + std::to_string(n));
  std::vector<const Saved*> seq;
  std::set<uint64_t> seen;
  const bool inv_ok = (flags & kAllowInvalid) != 0;
  IChannelObserver* tm = spec.master != 5 ? obs("Time") : nullptr;
  std::vector<IChannelObserver*> cho;
  for (const auto& ch : spec.ch) cho.push_back(obs(ch.name));
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t id = 0;
    ++rep.rows;
    if (!id_obs->GetChannelValue(i, id)) {
      ++rep.invalid_rows;
      if (!inv_ok) Bad("READFAIL", wh + Fmt(": sample %d of %d is not readable", static_cast<int>(i), static_cast<int>(n)));
      // no channel of an unreadable record may claim to be valid with a wrong value; nothing to compare with
      continue;
    }
    const auto it = cl.by_id.find(id);
    if (it == cl.by_id.end()) {
      Bad("VALUE", wh + Fmt(": sample %d carries id %llx that was never saved", static_cast<int>(i),
                            static_cast<unsigned long long>(id)));
    }
    const Saved& sv = cl.s[it->second];
    if (!seen.insert(id).second) Bad("DUP", wh + Fmt(": sample %d repeats id %llx", static_cast<int>(i), static_cast<unsigned long long>(id)));
    if (sv.req < 0) {
      Bad("WINDOW", wh + Fmt(": sample id %llx is older than the pre-trigger window (%.3f s before start, window %.3f s)",
                             static_cast<unsigned long long>(id), (static_cast<double>(lg.start_ts) - static_cast<double>(sv.ts)) / 1e9,
                             static_cast<double>(w.ses[static_cast<size_t>(s)].pretrig_ns) / 1e9));
    }
    seq.push_back(&sv);
    if (tm != nullptr && !(flags & kNoTime)) {
      double got = 0, want = 0;
      bool valid = false;
      if (!CheckTime(spec, sv.ts, lg.start_ts, *tm, i, &got, &want, &valid)) {
        if (valid || !inv_ok) {
          Bad("TIME", wh + Fmt(": sample %d (phase %d) has time %.9f, expected %.9f", static_cast<int>(i), sv.phase, got, want));
        }
      } else if (!valid && !inv_ok) {
        Bad("TIME", wh + Fmt(": time of sample %d is marked invalid", static_cast<int>(i)));
      }
    }
    const uint64_t key = Key(s, d, ci, id);
    bool all_valid = true;
    for (size_t k = 1; k < spec.ch.size(); ++k) {
      const bool vl = spec.ch[k].type == ChannelType::VariableLength;
      if (vl && (flags & kNoVlsd)) continue;
      bool wv = true;
      const auto e = CheckValue(spec.ch[k], key, k, *cho[k], i, inv_ok, &wv);
      all_valid = all_valid && wv;
      if (!e.empty()) {
        Bad(vl ? "VLSD" : "VALUE", wh + Fmt(": sample %d id %llx channel %s: ", static_cast<int>(i),
                                            static_cast<unsigned long long>(id), spec.ch[k].name.c_str()) + e);
      }
      ++w.c->checked_samples;
    }
    rep.present.insert({s, d, ci, id});
  }
  // order: per producer, and real-time order of non-overlapping calls
  std::map<uint64_t, uint64_t> lastp;
  uint64_t min_end = ~0ull;
  for (size_t i = seq.size(); i-- > 0;) {
    if (seq[i]->b > min_end) {
      Bad("ORDER", wh + Fmt(": id %llx is in the file before a sample whose save had returned earlier",
                            static_cast<unsigned long long>(seq[i]->id)));
    }
    min_end = std::min(min_end, seq[i]->e);
  }
  for (const auto* x : seq) {
    auto& l = lastp[x->id >> 32];
    if (l != 0 && (x->id & 0xFFFFFFFF) < l - 1) Bad("ORDER", wh + Fmt(": id %llx out of order", static_cast<unsigned long long>(x->id)));
    l = (x->id & 0xFFFFFFFF) + 1;
  }
  if (!(flags & kAllowMissing)) {
    for (const auto& x : cl.s) {
      if (x.req == 1 && !seen.count(x.id)) {
        Bad(x.phase < 2 ? "LOSTPRE" : "LOST",
            wh + Fmt(": sample id %llx (phase %d, %.3f s after start) is missing; %d of %d in the file",
                     static_cast<unsigned long long>(x.id), x.phase,
                     (static_cast<double>(x.ts) - static_cast<double>(lg.start_ts)) / 1e9, static_cast<int>(n),
                     static_cast<int>(cl.s.size())));
      }
    }
  }
  ++w.c->evals;
}

static void CheckEmpty(World& w, int s, int d, int ci, unsigned flags, const std::string& where) {
  auto& lg = w.log[static_cast<size_t>(s)];
  if (flags & kAllowMissing) return;
  for (const auto& x : lg.cg[static_cast<size_t>(d)][static_cast<size_t>(ci)].s) {
    if (x.req == 1) {
      Bad(x.phase < 2 ? "LOSTPRE" : "LOST", where + Fmt(" session %d dg %d cg %d: no sample in the file, id %llx (phase %d) was saved", s, d, ci,
                                                        static_cast<unsigned long long>(x.id), x.phase));
    }
  }
  ++w.c->evals;
}
static void EqS(const std::string& what, const std::string& got, const std::string& want) {
  if (got != want) Bad("META", what + " is '" + got + "', configured as '" + want + "'");
}
void CheckMeta(World& w, int nses, const MdfFile& file, unsigned flags, const std::string& where) {
  const auto* hd = file.Header();
  if (hd == nullptr) Bad("META", where + ": no header");
  const uint64_t ms0 = sim::Mix(w.c->wseed, 4242, 0);
  const auto p = where + ": header ";
  // the header texts are set again by the first session that records anything
  uint64_t ms = ms0;
  for (int s = 0; s < nses; ++s) {
    ms = sim::Mix(w.c->wseed, 4242, static_cast<uint64_t>(s));
    bool any = false;
    for (auto& d : w.log[static_cast<size_t>(s)].cg) for (auto& g : d) any = any || !g.s.empty();
    if (any) break;
  }
  EqS(p + "author", hd->Author(), "A" + RandText(ms, 6));
  EqS(p + "department", hd->Department(), "D" + RandText(ms + 1, 6));
  EqS(p + "project", hd->Project(), "P" + RandText(ms + 2, 6));
  EqS(p + "subject", hd->Subject(), "S" + RandText(ms + 3, 6));
  EqS(p + "description", hd->Description(), "H" + RandText(ms + 4, 12));
  if (w.wtype != 0) {
    if (w.ses[0].meta && ms == ms0) EqS(p + "measurement id", hd->MeasurementId(), "M" + RandText(ms + 5, 9));
    const auto fhs = hd->FileHistories();
    if (fhs.size() < static_cast<size_t>(nses)) Bad("META", where + Fmt(": %zu file histories, %d written", fhs.size(), nses));
    size_t ev_ix = 0;
    const auto evs = hd->Events();
    for (int s = 0; s < nses; ++s) {
      const uint64_t m = sim::Mix(w.c->wseed, 4242, static_cast<uint64_t>(s));
      const auto q = where + Fmt(": history %d ", s);
      const auto* fh = fhs[static_cast<size_t>(s)];
      EqS(q + "text", fh->Description(), "FH" + RandText(m + 6, 8));
      EqS(q + "tool", fh->ToolName(), "Tool" + RandText(m + 7, 4));
      EqS(q + "vendor", fh->ToolVendor(), "Vend" + RandText(m + 8, 4));
      EqS(q + "version", fh->ToolVersion(), "1." + std::to_string(m % 100));
      EqS(q + "user", fh->UserName(), "U" + RandText(m + 9, 3));
      if (fh->Time() != 1'600'000'000'000'000'000ull + m % 1'000'000'000ull) Bad("META", q + "time differs");
      if (w.ses[static_cast<size_t>(s)].meta && !(flags & kSorted)) {  // sorting does not keep events
        if (ev_ix >= evs.size()) Bad("META", where + ": event is missing");
        const auto* ev = evs[ev_ix++];
        const auto e = where + Fmt(": event of session %d ", s);
        EqS(e + "name", ev->Name(), "EV" + RandText(m + 10, 7));
        EqS(e + "text", ev->Description(), "EVD" + RandText(m + 11, 9));
        if (static_cast<int>(ev->Type()) != static_cast<int>(m % 7)) Bad("META", e + "type differs");
        if (static_cast<int>(ev->Cause()) != static_cast<int>(m % 5)) Bad("META", e + "cause differs");
        if (ev->SyncValue() != static_cast<int64_t>(m % 1000000) || ev->SyncFactor() != 0.001) Bad("META", e + "value differs");
      }
    }
  }
  if (!(flags & kNoStartTime) && w.have_first && hd->StartTime() != w.first_start) {
    Bad("HDRTIME", where + Fmt(": file start time %llu, first measurement started at %llu",
                               static_cast<unsigned long long>(hd->StartTime()), static_cast<unsigned long long>(w.first_start)));
  }
}
static void CheckCgMeta(World& w, const CgSpec& cs, const IChannelGroup& cg, const std::string& wh) {
  const bool m3 = w.wtype == 0;
  if (!m3) {
    EqS(wh + " name", cg.Name(), cs.name);
    EqS(wh + " description", cg.Description(), cs.desc);
    const auto* si = cg.SourceInformation();
    if (cs.source) {
      if (si == nullptr) Bad("META", wh + ": source information is missing");
      EqS(wh + " source name", si->Name(), "SI" + cs.name);
      EqS(wh + " source path", si->Path(), "Path" + cs.name);
      if (si->Type() != SourceType::Ecu || si->Bus() != BusType::Can) Bad("META", wh + ": source type differs");
    } else if (si != nullptr) {
      Bad("META", wh + ": source information appeared from nowhere");
    }
  }
  const auto list = cg.Channels();
  size_t i = 0;
  if (cs.master != 5) {
    if (list.empty() || list[0]->Name() != "Time" || list[0]->Type() != (cs.master == 13 ? ChannelType::VirtualMaster : ChannelType::Master)) Bad("META", wh + ": master channel is wrong");
    i = 1;
  }
  if (list.size() != cs.ch.size() + i) Bad("META", wh + Fmt(": %zu channels, %zu configured", list.size(), cs.ch.size() + i));
  for (const auto& ch : cs.ch) {
    const auto* cn = list[i++];
    EqS(wh + " channel name", cn->Name(), ch.name);
    EqS(wh + " channel " + ch.name + " description", cn->Description(), ch.desc);
    if (!m3 || ch.conv) EqS(wh + " channel " + ch.name + " unit", cn->Unit(), ch.unit);
    if (cn->DataType() != ch.dt || cn->Type() != ch.type) Bad("META", wh + ": channel " + ch.name + " type differs");
    if (ch.type == ChannelType::FixedLength && cn->DataBytes() != ch.bytes) Bad("META", wh + ": channel " + ch.name + " size differs");
    if (!ch.shape.empty() && (cn->ChannelArray(0) == nullptr || cn->ChannelArray(0)->Shape() != ch.shape)) Bad("META", wh + ": channel " + ch.name + " array shape differs");
    if (cn->ArraySize() != ch.array) Bad("META", wh + ": channel " + ch.name + " array size differs");
    const auto* cc = cn->ChannelConversion();
    if (ch.conv == 1) {
      if (cc == nullptr || cc->Type() != ConversionType::Linear || cc->Parameter(0) != ch.cc_a || cc->Parameter(1) != ch.cc_b) {
        Bad("META", wh + ": channel " + ch.name + " conversion differs");
      }
    } else if (ch.conv == 2) {
      if (cc == nullptr || cc->Type() != ConversionType::ValueToText || cc->Parameter(0) != ch.cc_a || cc->Parameter(1) != ch.cc_b || cc->NofReferences() != 3) {
        Bad("META", wh + ": channel " + ch.name + " text conversion differs");
      }
      for (uint16_t r = 0; r < 3; ++r) EqS(wh + " channel " + ch.name + " text of the conversion", cc->Reference(r), ch.name + Fmt("=%u", r));
    } else if (cc != nullptr && cc->Type() != ConversionType::NoConversion) {
      Bad("META", wh + ": channel " + ch.name + " got a conversion");
    }
  }
}

ReadReport ReadAndCheck(World& w, int nses, unsigned flags, const std::string& path, std::shared_ptr<std::streambuf> buf,
                        const char* who) {
  ReadReport rep;
  const std::string where = std::string("read") + (who[0] ? std::string(" (") + who + ")" : "");
  std::unique_ptr<MdfReader> rd;
  {
    sim::Api api;
    if (buf) rd = std::make_unique<MdfReader>(buf);
    else rd = std::make_unique<MdfReader>(path);
    rep.open_ok = rd->IsOk();
    if (rep.open_ok) rep.info_ok = rd->ReadEverythingButData();
  }
  const bool lenient = (flags & kAllowMissingDg) != 0;
  if (!rep.open_ok || !rep.info_ok) {
    if (!lenient) Bad("READFAIL", where + ": file cannot be opened or its blocks cannot be read");
    return rep;
  }
  const auto* hd = rd->GetHeader();
  if (hd == nullptr) {
    if (!lenient) Bad("READFAIL", where + ": no header");
    return rep;
  }
  if (!(flags & kNoMeta)) CheckMeta(w, nses, *rd->GetFile(), flags, where);
  const auto dgs = hd->DataGroups();
  size_t ix = 0;
  for (int s = 0; s < nses; ++s) {
    const auto& ss = w.ses[static_cast<size_t>(s)];
    for (size_t d = 0; d < ss.dg.size(); ++d) {
      const bool sorted = (flags & kSorted) != 0;
      for (size_t g0 = 0; g0 < (sorted ? ss.dg[d].cg.size() : 1); ++g0, ++ix) {
        if (sorted && w.gone.count({s, static_cast<int>(d), static_cast<int>(g0)})) {
          --ix;
          continue;
        }
        if (ix >= dgs.size()) {
          if (!lenient) Bad("META", where + Fmt(": data group %zu is missing", ix));
          return rep;
        }
        auto* dg = dgs[ix];
        const auto cgs = dg->ChannelGroups();
        const size_t want = sorted ? 1 : ss.dg[d].cg.size();
        if (cgs.size() != want) {
          if (lenient) continue;
          Bad("META", where + Fmt(": data group %zu has %zu channel groups, %zu configured", ix, cgs.size(), want));
        }
        if (!(flags & kNoMeta)) {
          if (w.wtype != 0) EqS(where + Fmt(": data group %zu description", ix), dg->Description(), ss.dg[d].desc);
          for (size_t g = 0; g < cgs.size(); ++g) {
            CheckCgMeta(w, ss.dg[d].cg[sorted ? g0 : g], *cgs[g], where + Fmt(": session %d dg %zu cg %zu", s, d, g));
          }
        }
        ChannelObserverList ol;
        bool ok;
        {
          sim::Api api;
          CreateChannelObserverForDataGroup(*dg, ol);
          ok = rd->ReadData(*dg);
        }
        rep.data_ok.push_back(ok);
        if (!ok && !lenient) Bad("READFAIL", where + Fmt(": ReadData of data group %zu failed", ix));
        for (size_t g = 0; g < cgs.size(); ++g) {
          CgView v;
          v.dg = dg;
          v.cg = cgs[g];
          for (auto* cn : cgs[g]->Channels()) {
            for (auto& o : ol) if (&o->Channel() == cn) v.obs[cn->Name()] = o.get();
          }
          if (cgs[g]->NofSamples() == 0) {  // the library creates no observers for an empty group
            CheckEmpty(w, s, static_cast<int>(d), static_cast<int>(sorted ? g0 : g), ok ? flags : flags | kAllowMissing, where);
            continue;
          }
          if (lenient) {
            bool complete = v.obs.count("Id") != 0;
            for (const auto& ch : ss.dg[d].cg[sorted ? g0 : g].ch) complete = complete && v.obs.count(ch.name);
            if (ss.dg[d].cg[sorted ? g0 : g].master != 5) complete = complete && v.obs.count("Time");
            if (!complete) continue;
          }
          CheckCg(w, s, static_cast<int>(d), static_cast<int>(sorted ? g0 : g), v,
                  ok ? flags : flags | kAllowInvalid | kAllowMissing, rep, where);
        }
        sim::Api api;
        ol.clear();
        dg->ClearData();
      }
    }
  }
  if (ix != dgs.size() && !lenient) Bad("META", where + Fmt(": %zu data groups, %zu configured", dgs.size(), ix));
  sim::Api api;
  rd.reset();
  return rep;
}
}  // namespace h
