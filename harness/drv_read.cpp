// C12: every way and history of reading gives the same values.
#include <strings.h>

#include <algorithm>
#include <thread>

#include "h.h"

using namespace mdf;
namespace h {
bool ReadInfo(Ctx& c, const std::string& prefix, MdfReader& rd) {
  bool ok = true;
  switch (c.K(prefix + "info", 0, 5)) {
    case 3: ok = rd.ReadHeader(); break;
    case 4: ok = rd.ReadMeasurementInfo(); break;
    case 5: ok = rd.ReadEverythingButData(); break;
    default: break;
  }
  return ok && rd.ReadEverythingButData();
}

namespace {

struct Where {
  int s, d;
};
struct Obs {
  int cg = 0;
  int ch = -1;  // -1 time, 0 id, >0 other channels
  std::unique_ptr<IChannelObserver> o;
  bool offsets = false;               // payloads are not read
  std::vector<bool> filled;           // samples that a read has delivered
};
struct Ref {
  std::vector<Where> where;                              // per data group of the file
  std::vector<std::vector<std::vector<uint64_t>>> ids;   // [dg][cg][sample]
};

void CheckObs(World& w, const Ref& ref, size_t dgi, const Obs& ob, const std::string& what) {
  const auto& wh = ref.where[dgi];
  const auto& spec = w.ses[static_cast<size_t>(wh.s)].dg[static_cast<size_t>(wh.d)].cg[static_cast<size_t>(ob.cg)];
  const auto& lg = w.log[static_cast<size_t>(wh.s)];
  const auto& cl = lg.cg[static_cast<size_t>(wh.d)][static_cast<size_t>(ob.cg)];
  const auto& ids = ref.ids[dgi][static_cast<size_t>(ob.cg)];
  const std::string at = what + Fmt(": session %d dg %d cg %d channel %s", wh.s, wh.d, ob.cg, ob.o->Name().c_str());
  if (ob.o->NofSamples() != ids.size()) Bad("HISTORY", at + ": number of samples differs");
  if (ob.offsets) return;
  for (size_t i = 0; i < ids.size(); ++i) {
    const bool must = ob.filled[i];
    std::string e;
    bool valid = true;
    if (ob.ch < 0) {
      double got = 0, want = 0;
      const auto& sv = cl.s[cl.by_id.at(ids[i])];
      const bool good = CheckTime(spec, sv.ts, lg.start_ts, *ob.o, i, &got, &want, &valid);
      if (valid && !good) e = Fmt("time %.9f, expected %.9f", got, want);
      if (!valid && must) e = "time is marked invalid";
    } else if (ob.ch == 0) {
      uint64_t id = 0;
      valid = ob.o->GetChannelValue(i, id);
      if (valid && id != ids[i]) e = Fmt("id %llx, expected %llx", static_cast<unsigned long long>(id), static_cast<unsigned long long>(ids[i]));
      if (!valid && must) e = "marked invalid";
    } else {
      e = CheckValue(spec.ch[static_cast<size_t>(ob.ch)], Key(wh.s, wh.d, ob.cg, ids[i]), static_cast<size_t>(ob.ch), *ob.o, i, !must, &valid);
    }
    if (!e.empty()) Bad("HISTORY", at + Fmt(" sample %zu of %zu%s: ", i, ids.size(), must ? "" : " (outside the range)") + e);
    ++w.c->checked_samples;
  }
  ++w.c->evals;
}

// Fetches payloads by offset and compares them with the model.
void FetchPayloads(World& w, const Ref& ref, size_t dgi, MdfReader& rd, IDataGroup& dg, const Obs& ob, uint64_t pick, const std::string& what) {
  const auto& wh = ref.where[dgi];
  const auto& spec = w.ses[static_cast<size_t>(wh.s)].dg[static_cast<size_t>(wh.d)].cg[static_cast<size_t>(ob.cg)];
  const auto& ch = spec.ch[static_cast<size_t>(ob.ch)];
  const auto& ids = ref.ids[dgi][static_cast<size_t>(ob.cg)];
  const auto& off = ob.o->GetOffsetList();
  const auto& ok = ob.o->GetValidList();
  std::vector<size_t> rows;
  for (size_t i = 0; i < ids.size(); ++i) {
    if (!ob.filled[i]) continue;
    const Val v = MakeVal(ch, Key(wh.s, wh.d, ob.cg, ids[i]), static_cast<size_t>(ob.ch), 0);
    if (i >= ok.size() || ok[i] != v.valid) {
      Bad("HISTORY", what + Fmt(": offset of sample %zu is marked %s, written as %s", i, i < ok.size() && ok[i] ? "valid" : "invalid", v.valid ? "valid" : "invalid"));
    }
    if (!v.valid) continue;
    if (pick == 0 || sim::Mix(pick, i) % 3 != 0) rows.push_back(i);
  }
  if (rows.empty()) return;
  std::vector<uint64_t> list;
  for (auto i : rows) list.push_back(off[i]);
  if (pick % 2 == 1) std::reverse(list.begin(), list.end());
  const std::set<uint64_t> asked(list.begin(), list.end());
  std::map<uint64_t, std::vector<uint8_t>> got;
  bool extra = false;
  std::function<void(uint64_t, const std::vector<uint8_t>&)> cb = [&](uint64_t o, const std::vector<uint8_t>& b) {
    got[o] = b;
    if (!asked.count(o)) extra = true;
  };
  bool res;
  {
    sim::Api api;
    auto& cn = const_cast<IChannel&>(ob.o->Channel());
    res = rd.ReadVlsdData(dg, cn, pick == 0 ? std::vector<uint64_t>{} : list, cb);
  }
  if (!res) Bad("READFAIL", what + ": ReadVlsdData failed");
  if (extra && pick != 0) Bad("HISTORY", what + ": ReadVlsdData returned an offset that was not asked for");
  for (auto i : rows) {
    const Val v = MakeVal(ch, Key(wh.s, wh.d, ob.cg, ids[i]), static_cast<size_t>(ob.ch), 0);
    std::vector<uint8_t> want = v.b;
    const auto it = got.find(off[i]);
    if (it == got.end()) Bad("HISTORY", what + Fmt(": payload of sample %zu was not returned", i));
    auto have = it->second;
    if (IsText(ch.dt)) {
      want = Encoded(ch.dt, v.s);
      if (IsUtf16(ch.dt)) while (have.size() >= 2 && have.back() == 0 && have[have.size() - 2] == 0) have.resize(have.size() - 2);
      else while (!have.empty() && have.back() == 0) have.pop_back();  // strings are stored terminated
    }
    if (have != want) {
      Bad("HISTORY", what + Fmt(": payload of sample %zu fetched by offset differs from what was saved (%zu, %zu bytes)", i, have.size(), want.size()));
    }
    ++w.c->checked_samples;
  }
  ++w.c->evals;
  w.c->count["payload_fetches"]++;
}

// Reads with an observer of whole records, which may stop the read early.
void RecordRead(World& w, const Ref& ref, size_t dgi, MdfReader& rd, IDataGroup& dg, const std::string& q, std::vector<Obs>& ob, std::string& hist) {
  auto& c = *w.c;
  const auto& wh = ref.where[dgi];
  const auto& dspec = w.ses[static_cast<size_t>(wh.s)].dg[static_cast<size_t>(wh.d)];
  const auto& lg = w.log[static_cast<size_t>(wh.s)];
  const auto cgs = dg.ChannelGroups();
  size_t n = 0, total = 0;
  for (const auto& v : ref.ids[dgi]) {
    n = std::max(n, v.size());
    total += v.size();
  }
  const bool range = c.B(q + "recrange", 40);
  uint64_t a = static_cast<uint64_t>(c.K(q + "a", 0, 1'000'000)) % (n + 2);
  uint64_t b = a + static_cast<uint64_t>(c.K(q + "b", 0, 1'000'000)) % (n + 2);
  const bool stops = c.B(q + "stop", 35) && total > 0;
  const uint64_t stop_at = stops ? static_cast<uint64_t>(c.K(q + "stopat", 0, 1'000'000)) % total : UINT64_MAX;
  const bool eng = c.B(q + "receng", 50);
  hist += range ? Fmt(" records(%d:%llu..%llu", static_cast<int>(dgi), static_cast<unsigned long long>(a), static_cast<unsigned long long>(b)) : Fmt(" records(%d", static_cast<int>(dgi));
  hist += stops ? Fmt(" stop after %llu)", static_cast<unsigned long long>(stop_at)) : ")";
  const auto what = "history" + hist;
  std::vector<std::vector<int>> got(cgs.size());
  for (size_t g = 0; g < cgs.size(); ++g) got[g].assign(ref.ids[dgi][g].size(), 0);
  std::string bad;
  uint64_t calls = 0;
  bool stopped = false, ok;
  {
    sim::Api api;
    ISampleObserver so(dg);
    so.DoOnSample = [&](uint64_t sample, uint64_t rid, const std::vector<uint8_t>& rec) {
      ++calls;
      if (stopped && bad.empty()) bad = "a record is delivered after the observer has stopped the read";
      size_t g = 0;
      while (g < cgs.size() && cgs[g]->RecordId() != rid) ++g;
      if (g >= cgs.size() || sample >= got[g].size()) {
        if (bad.empty()) bad = Fmt("record of id %llu, sample %llu does not exist", static_cast<unsigned long long>(rid), static_cast<unsigned long long>(sample));
        return true;
      }
      const uint64_t id = ref.ids[dgi][g][sample];
      ++got[g][sample];
      const auto& spec = dspec.cg[g];
      const auto& cl = lg.cg[static_cast<size_t>(wh.d)][g];
      for (auto* cn : cgs[g]->Channels()) {
        if (!bad.empty()) break;
        std::string e;
        if (cn->Name() == "Time") {
          if (!eng) continue;
          const auto& sv = cl.s[cl.by_id.at(id)];
          double have = 0, want = 0;
          const bool valid = so.GetEngValue(*cn, sample, rec, have);
          const bool good = TimeMatches(spec, sv.ts, lg.start_ts, sample, have, &want);
          if (!valid || !good) e = Fmt("time %.9f%s, expected %.9f", have, valid ? "" : " (invalid)", want);
        } else if (cn->Name() == "Id") {
          uint64_t have = 0;
          if (!so.GetChannelValue(*cn, sample, rec, have) || have != id) e = Fmt("id %llx, expected %llx", static_cast<unsigned long long>(have), static_cast<unsigned long long>(id));
        } else {
          for (size_t i = 1; i < spec.ch.size(); ++i) {
            if (spec.ch[i].name != cn->Name()) continue;
            e = CheckRecord(spec.ch[i], Key(wh.s, wh.d, static_cast<int>(g), id), i, so, *cn, sample, rec);
          }
        }
        if (!e.empty()) bad = Fmt("group %zu sample %llu channel %s: ", g, static_cast<unsigned long long>(sample), cn->Name().c_str()) + e;
        ++c.checked_samples;
      }
      if (calls > stop_at) stopped = true;
      return !stopped;
    };
    ok = range ? rd.ReadPartialData(dg, static_cast<size_t>(a), static_cast<size_t>(b)) : rd.ReadData(dg);
    so.DetachObserver();
  }
  if (!bad.empty()) Bad("HISTORY", what + ": " + bad);
  if (!ok && !stopped) Bad("READFAIL", what + ": read failed");
  if (!stopped) {
    for (size_t g = 0; g < cgs.size(); ++g) {
      for (size_t i = 0; i < got[g].size(); ++i) {
        const bool in = !range || (i >= a && i <= b);
        if (got[g][i] > 1 || (in && got[g][i] != 1)) {
          Bad("HISTORY", what + Fmt(": record of group %zu sample %zu was delivered %d times", g, i, got[g][i]));
        }
      }
    }
    for (auto& x : ob) {
      for (size_t i = 0; i < x.filled.size(); ++i) if (!range || (i >= a && i <= b)) x.filled[i] = true;
    }
  }
  for (const auto& x : ob) CheckObs(w, ref, dgi, x, what);
  c.count[stopped ? "op_records_stopped" : "op_records"]++;
  ++c.evals;
}

void Reader(World& w, const Ref& ref, const std::string& p, const std::string& path, std::shared_ptr<std::streambuf> buf) {
  auto& c = *w.c;
  std::unique_ptr<MdfReader> rd;
  std::map<size_t, std::vector<Obs>> held;  // by data group
  auto open = [&] {
    sim::Api api;
    held.clear();
    rd = buf ? std::make_unique<MdfReader>(buf) : std::make_unique<MdfReader>(path);
    if (!rd->IsOk() || !ReadInfo(c, p, *rd)) Bad("READFAIL", "the file cannot be opened");
  };
  open();
  const int nops = static_cast<int>(c.K(p + "ops", 2, c.thorough ? 14 : 8));
  std::string hist;
  for (int k = 0; k < nops; ++k) {
    const auto q = p + std::to_string(k) + ".";
    const int op = static_cast<int>(c.K(q + "op", 0, 12));
    const size_t dgi = static_cast<size_t>(c.K(q + "dg", 0, 1000)) % ref.where.size();
    auto* dg = rd->GetHeader()->DataGroups()[dgi];
    const auto& wh = ref.where[dgi];
    const auto& dspec = w.ses[static_cast<size_t>(wh.s)].dg[static_cast<size_t>(wh.d)];
    if (op == 0) {
      sim::Api api;
      rd->Close();
      hist += " close";
      c.count["op_close"]++;
      continue;
    }
    if (op == 1) {
      sim::Api api;
      if (!rd->Open()) Bad("READFAIL", "reopening failed after" + hist);
      hist += " open";
      c.count["op_open"]++;
      continue;
    }
    if (op == 2) {
      hist += " new";
      open();
      c.count["op_new"]++;
      continue;
    }
    auto& ob = held[dgi];
    if (op >= 10) {  // the records themselves, with the observers that are attached now
      RecordRead(w, ref, dgi, *rd, *dg, q, ob, hist);
      c.states.insert(sim::Mix(std::hash<std::string>{}(hist), 3));
      continue;
    }
    if (!c.B(q + "keep", 40) || ob.empty()) {  // another set of observers
      sim::Api api;
      ob.clear();
      const uint64_t mask = c.H(q + "mask");
      const bool all = c.B(q + "all", 40);
      const bool offs = c.B(q + "offs", 35);
      const auto cgs = dg->ChannelGroups();
      const bool one = cgs.size() > 1 && c.B(q + "onecg", 30);
      const size_t only = static_cast<size_t>(mask >> 20) % cgs.size();
      for (size_t g = 0; g < cgs.size(); ++g) {
        if (ref.ids[dgi][g].empty() || (one && g != only)) continue;
        for (auto* cn : cgs[g]->Channels()) {
          Obs x;
          x.cg = static_cast<int>(g);
          if (cn->Name() == "Time") x.ch = -1;
          else {
            for (size_t i = 0; i < dspec.cg[g].ch.size(); ++i) if (dspec.cg[g].ch[i].name == cn->Name()) x.ch = static_cast<int>(i);
          }
          if (!all && sim::Mix(mask, g, static_cast<uint64_t>(x.ch + 5)) % 2 == 0) continue;
          // by name, if the name says it: the name is taken from the group with most samples
          bool by_name = c.B(q + "byname", 25);
          for (size_t g2 = 0; g2 < cgs.size(); ++g2) {
            for (auto* cn2 : cgs[g2]->Channels()) if (cn2 != cn && strcasecmp(cn2->Name().c_str(), cn->Name().c_str()) == 0 && cgs[g2]->NofSamples() >= cgs[g]->NofSamples()) by_name = false;
          }
          x.o = by_name ? CreateChannelObserver(*dg, cn->Name()) : CreateChannelObserver(*dg, *cgs[g], *cn);
          if (by_name) c.count["observers_by_name"]++;
          if (!x.o || &x.o->Channel() != cn) Bad("HISTORY", "an observer of channel " + cn->Name() + " is of another channel");
          if (offs && cn->Type() == ChannelType::VariableLength) {
            x.o->ReadVlsdData(false);
            x.offsets = true;
          }
          x.filled.assign(ref.ids[dgi][g].size(), false);
          ob.push_back(std::move(x));
        }
      }
      hist += all ? " obs(all)" : Fmt(" obs(%zu)", ob.size());
      if (offs) hist += "offsets";
    }
    bool ok;
    if (op <= 5) {
      size_t n = 0;
      for (const auto& x : ob) n = std::max(n, x.filled.size());
      uint64_t a = static_cast<uint64_t>(c.K(q + "a", 0, 1'000'000)) % (n + 2);
      uint64_t b = a + static_cast<uint64_t>(c.K(q + "b", 0, 1'000'000)) % (n + 2);
      if (c.B(q + "one", 20)) b = a;
      hist += Fmt(" range(%d:%llu..%llu)", static_cast<int>(dgi), static_cast<unsigned long long>(a), static_cast<unsigned long long>(b));
      {
        sim::Api api;
        ok = rd->ReadPartialData(*dg, static_cast<size_t>(a), static_cast<size_t>(b));
      }
      for (auto& x : ob) for (size_t i = a; i <= b && i < x.filled.size(); ++i) x.filled[i] = true;
      c.count["op_range"]++;
    } else {
      hist += Fmt(" full(%d)", static_cast<int>(dgi));
      {
        sim::Api api;
        ok = rd->ReadData(*dg);
      }
      for (auto& x : ob) x.filled.assign(x.filled.size(), true);
      c.count["op_full"]++;
    }
    const auto what = "history" + hist;
    if (!ok) Bad("READFAIL", what + ": read failed");
    for (const auto& x : ob) {
      CheckObs(w, ref, dgi, x, what);
      if (x.offsets) FetchPayloads(w, ref, dgi, *rd, *dg, x, c.B(q + "fetchall", 20) ? 0 : c.H(q + "pick") | 2, what);
    }
    if (c.B(q + "clear", 30)) {
      sim::Api api;
      dg->ClearData();
      hist += " clear";
      if (c.B(q + "clearobs", 50)) ob.clear();
    }
    c.states.insert(sim::Mix(std::hash<std::string>{}(hist), 3));
  }
  sim::Api api;
  held.clear();
  rd.reset();
}
}  // namespace

void DriveReadHistory(Ctx& c) {
  World w;
  GenPlan(c, w);
  BeginRun(c);
  RunAll(w);
  CountRun(c, w);
  sim::SetStage("read back");
  ReadAndCheck(w, static_cast<int>(w.ses.size()), 0, w.path);
  StructCheckFile(w, ReadBytes(w.path), "file");
  // reference order of the samples: one fresh full read
  Ref ref;
  {
    sim::Api api;
    MdfReader rd(w.path);
    if (!rd.ReadEverythingButData()) Bad("READFAIL", "the file cannot be opened");
    const auto dgs = rd.GetHeader()->DataGroups();
    size_t ix = 0;
    for (size_t s = 0; s < w.ses.size(); ++s) {
      for (size_t d = 0; d < w.ses[s].dg.size(); ++d, ++ix) {
        ref.where.push_back({static_cast<int>(s), static_cast<int>(d)});
        std::vector<std::vector<uint64_t>> per;
        ChannelObserverList ol;
        CreateChannelObserverForDataGroup(*dgs[ix], ol);
        if (!rd.ReadData(*dgs[ix])) Bad("READFAIL", "ReadData failed");
        for (auto* cg : dgs[ix]->ChannelGroups()) {
          std::vector<uint64_t> v(cg->NofSamples());
          for (auto& o : ol) {
            bool mine = false;
            for (auto* cn : cg->Channels()) mine = mine || (cn == &o->Channel() && cn->Name() == "Id");
            if (mine) for (size_t i = 0; i < v.size(); ++i) o->GetChannelValue(i, v[i]);
          }
          per.push_back(v);
        }
        ref.ids.push_back(per);
        dgs[ix]->ClearData();
      }
    }
  }
  sim::SetStage("histories");
  if (c.B("rd.two", 30)) {
    std::thread t([&] { Reader(w, ref, "rd.b.", w.path, nullptr); });
    Reader(w, ref, "rd.a.", w.path, nullptr);
    t.join();
  } else if (c.B("rd.stream", 20)) {
    auto sb = std::make_shared<MemBuf>(ReadBytes(w.path));
    Reader(w, ref, "rd.a.", "", sb);
  } else {
    Reader(w, ref, "rd.a.", w.path, nullptr);
  }
  if (w.wtype != 0 && c.B("rd.reshape", 0)) {
    sim::SetStage("other block borders");
    const auto before = c.count["data_value_lists"];
    const auto img = Reshape(c, "rs.", ReadBytes(w.path));
    if (c.count["data_value_lists"] == before) StructCheckFile(w, img, "reshaped");  // it knows no LD blocks
    WriteBytes("w/r.mf4", img);
    ReadAndCheck(w, static_cast<int>(w.ses.size()), 0, "w/r.mf4", nullptr, "other block borders");
    Reader(w, ref, "rd.r.", "w/r.mf4", nullptr);
    c.count["reshaped_files"]++;
  }
  if (sim::OpenFileCount() != 0) Bad("LEAK", "files are still open after the readers were destroyed");
}
}  // namespace h
