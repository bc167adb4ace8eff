// Workload model: knobs, plan generation, pure value functions.
#include <cstdarg>
#include <cstring>
#include <fstream>

#include "h.h"

using namespace mdf;
namespace h {

std::string Fmt(const char* f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof(b), f, ap);
  va_end(ap);
  return b;
}
void Bad(const std::string& cls, const std::string& msg) { sim::Fail(cls, msg); }

static uint64_t HashStr(const std::string& s) {
  uint64_t x = 1469598103934665603ull;
  for (char ch : s) x = (x ^ static_cast<uint8_t>(ch)) * 1099511628211ull;
  return x;
}
uint64_t Ctx::H(const std::string& name) const { return sim::Mix(wseed, HashStr(name)); }
static std::string Last(const std::string& n) {
  const auto p = n.rfind('.');
  return p == std::string::npos ? n : n.substr(p + 1);
}
int64_t Ctx::K(const std::string& name, int64_t lo, int64_t hi) {
  if (const auto it = used_ix.find(name); it != used_ix.end()) return used[it->second].val;
  if (const auto it = range.find(Last(name)); it != range.end()) {
    lo = it->second.first;
    hi = it->second.second;
  }
  int64_t v = lo + static_cast<int64_t>(H(name) % static_cast<uint64_t>(hi - lo + 1));
  if (const auto it = set.find(name); it != set.end()) v = it->second;
  used_ix[name] = used.size();
  used.push_back({name, v, lo});
  return v;
}
bool Ctx::B(const std::string& name, int pct) {
  if (const auto it = used_ix.find(name); it != used_ix.end()) return used[it->second].val != 0;
  if (const auto it = range.find(Last(name)); it != range.end()) pct = static_cast<int>(it->second.first);
  int64_t v = static_cast<int>(H(name) % 100) < pct ? 1 : 0;
  if (const auto it = set.find(name); it != set.end()) v = it->second;
  used_ix[name] = used.size();
  used.push_back({name, v, 0});
  return v != 0;
}

// ------------------------------------------------------------------ values
bool IsUInt(ChannelDataType t) { return t == ChannelDataType::UnsignedIntegerLe || t == ChannelDataType::UnsignedIntegerBe; }
bool IsSInt(ChannelDataType t) { return t == ChannelDataType::SignedIntegerLe || t == ChannelDataType::SignedIntegerBe; }
bool IsFloat(ChannelDataType t) { return t == ChannelDataType::FloatLe || t == ChannelDataType::FloatBe; }
bool IsUtf16(ChannelDataType t) { return t == ChannelDataType::StringUTF16Le || t == ChannelDataType::StringUTF16Be; }
bool IsText(ChannelDataType t) { return t == ChannelDataType::StringAscii || t == ChannelDataType::StringUTF8 || IsUtf16(t); }
bool IsBytes(ChannelDataType t) { return t == ChannelDataType::ByteArray || t == ChannelDataType::MimeSample || t == ChannelDataType::MimeStream; }
// what a payload of this text holds in the file, without the terminator
std::vector<uint8_t> Encoded(ChannelDataType t, const std::string& s) {
  if (!IsUtf16(t)) return {s.begin(), s.end()};
  std::vector<uint8_t> out;
  auto put = [&](uint32_t u) {
    const auto hi = static_cast<uint8_t>(u >> 8), lo = static_cast<uint8_t>(u & 0xFF);
    out.push_back(t == ChannelDataType::StringUTF16Be ? hi : lo);
    out.push_back(t == ChannelDataType::StringUTF16Be ? lo : hi);
  };
  for (size_t i = 0; i < s.size();) {
    const auto b = static_cast<uint8_t>(s[i]);
    const size_t n = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
    uint32_t u = n == 1 ? b : b & (0x7Fu >> n);
    for (size_t k = 1; k < n && i + k < s.size(); ++k) u = (u << 6) | (static_cast<uint8_t>(s[i + k]) & 0x3F);
    if (u > 0xFFFF) {
      put(0xD800 + ((u - 0x10000) >> 10));
      put(0xDC00 + ((u - 0x10000) & 0x3FF));
    } else {
      put(u);
    }
    i += n;
  }
  return out;
}
// some characters outside ASCII; n is the number of 16 bit units
static std::string RandWide(uint64_t r, size_t n) {
  static const char* k[] = {"\xC3\xA5", "\xCE\xA9", "\xE4\xB8\xAD", "\xEF\xBF\xBD", "\xD7\x90", "\xC2\x80"};
  std::string t;
  for (size_t i = 0; i < n; ++i) {
    r = sim::Mix(r, i);
    if (r % 16 == 0 && i + 1 < n) {
      t += "\xF0\x9F\x98\x80";  // two units
      ++i;
    } else if (r % 3 == 0) t += k[(r >> 8) % 6];
    else t += static_cast<char>('0' + (r >> 8) % 75);
  }
  return t;
}

uint64_t Key(int s, int d, int c, uint64_t id) {
  return sim::Mix(id, static_cast<uint64_t>(s) * 10000 + static_cast<uint64_t>(d) * 100 + static_cast<uint64_t>(c), 77);
}
std::string RandText(uint64_t r, size_t len) {
  static const char k[] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-_";
  std::string t(len, ' ');
  for (size_t i = 0; i < len; ++i) {
    t[i] = k[r & 63];
    r = (r >> 6) ^ (r * 0x9E3779B97F4A7C15ull) ^ (i * 0x1234567);
  }
  return t;
}
static void FillBytes(std::vector<uint8_t>& b, uint64_t r, bool low) {
  uint64_t x = r | 1;
  for (size_t i = 0; i < b.size(); i += 8) {
    if (!low || (i & 1023) == 0) {
      x ^= x << 13;
      x ^= x >> 7;
      x ^= x << 17;
    }
    const size_t n = std::min<size_t>(8, b.size() - i);
    memcpy(b.data() + i, &x, n);
  }
}
Val MakeVal(const ChSpec& ch, uint64_t key, size_t ix, uint64_t arr) {
  Val v;
  uint64_t r = sim::Mix(key, ix + 1, arr + 1, 5);
  if (ch.low_entropy) r = sim::Mix(r % 3, ix + 1);
  if (ch.inv) v.valid = sim::Mix(key, ix + 1, arr + 1, 6) % 4 != 0;
  if (ch.type == ChannelType::VariableLength) {
    size_t len = 0;
    const uint64_t q = sim::Mix(r, 9);
    switch (ch.vmode) {
      case 0: len = q % (ch.vmax + 1); break;
      case 1: len = q % 3 == 0 ? 0 : q % (ch.vmax + 1); break;   // many empty
      case 2: len = ch.vmax; break;                              // constant
      case 3: len = q % 7 == 0 ? ch.vmax * 20 : q % 8; break;    // mostly small, some large
      case 4: len = 1 + q % 2; r = q % 2; break;                 // repeated values
      default: {                                                 // pieces of one text: tails, heads, one byte changed, zeros
        std::vector<uint8_t> base(ch.vmax + 3);
        FillBytes(base, sim::Mix(ix, ch.vmax, 55), false);
        if (IsText(ch.dt)) {
          static const char k[] = "abc ABC,.<>&\"'0\t";
          for (auto& x : base) x = static_cast<uint8_t>(k[x % 16]);
        } else if (ch.vmode == 6) {
          for (auto& x : base) x = x % 3 ? 0 : 0xFF;
        }
        const size_t cutn = sim::Mix(q, 1) % (base.size() + 1);
        if (q % 3 == 0) base.erase(base.begin(), base.begin() + static_cast<int64_t>(cutn));
        else if (q % 3 == 1) base.resize(cutn);
        else if (cutn < base.size()) base[cutn] ^= IsText(ch.dt) ? 1 : 0x80;
        if (IsText(ch.dt)) v.s.assign(base.begin(), base.end());
        else v.b = base;
        return v;
      }
    }
    if (IsUtf16(ch.dt)) {
      v.s = RandWide(r, len);
    } else if (IsText(ch.dt)) {
      v.s = RandText(r, len);
      if (ch.dt == ChannelDataType::StringUTF8 && len > 2 && q % 5 == 0) v.s.replace(0, 2, "\xC3\xA5");
    } else {
      v.b.resize(len);
      FillBytes(v.b, r, ch.low_entropy);
    }
    return v;
  }
  const unsigned bits = ch.bytes >= 8 ? 64 : ch.bytes * 8;
  if (IsUInt(ch.dt)) {
    if (r % 16 == 0) r = ~0ull;
    if (r % 16 == 1) r = 0;
    v.u = bits == 64 ? r : r & ((1ull << bits) - 1);
  } else if (IsSInt(ch.dt)) {
    if (r % 16 == 0) r = 1ull << (bits - 1);
    if (r % 16 == 1) r = ~0ull;
    v.i = static_cast<int64_t>(r << (64 - bits)) >> (64 - bits);
  } else if (IsFloat(ch.dt)) {
    if (ch.bytes == 4) {
      v.d = static_cast<double>(static_cast<float>(static_cast<int32_t>(r)) * 0.03125F);
    } else {
      v.d = static_cast<double>(static_cast<int64_t>(r) >> 8) * 0.0009765625;
    }
    if (r % 32 == 0) v.d = 0;
  } else if (IsUtf16(ch.dt)) {
    v.s = RandWide(r, sim::Mix(r, 3) % (ch.bytes / 2));
  } else if (IsText(ch.dt)) {
    v.s = RandText(r, sim::Mix(r, 3) % ch.bytes);
  } else if (IsBytes(ch.dt)) {
    v.b.resize(ch.bytes);
    FillBytes(v.b, r, ch.low_entropy);
  } else {  // CANopen date / time: ns since 1970, whole ms
    v.u = (1'500'000'000'000ull + r % 200'000'000'000ull) * 1'000'000ull;
  }
  return v;
}

// ------------------------------------------------------------------ plan
static ChSpec GenCh(Ctx& c, const std::string& p, int wtype, int ix, uint64_t salt) {
  ChSpec s;
  int kind = static_cast<int>(c.K(p + "kind", 0, 31));
  const bool m3 = wtype == 0;
  using T = ChannelDataType;
  if (m3) {
    // the types an MDF 3 channel can hold
    static const int map3[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 19, 20, 20, 9, 19, 20, 20, 3, 5, 17, 20, 19, 0};
    kind = map3[kind];
  }
  s.name = "Ch" + std::to_string(ix) + "_" + RandText(salt, 1 + salt % 12);
  s.unit = RandText(salt * 3, salt % 6);
  s.desc = salt % 3 == 0 ? "" : "Desc " + RandText(salt * 5, 1 + salt % 20);
  static const uint32_t isz[] = {1, 2, 4, 8};
  if (kind <= 3) { s.dt = T::UnsignedIntegerLe; s.bytes = isz[kind]; }
  else if (kind <= 7) { s.dt = T::SignedIntegerLe; s.bytes = isz[kind - 4]; }
  else if (kind <= 9) { s.dt = T::FloatLe; s.bytes = kind == 8 ? 4 : 8; }
  else if (kind <= 12) { s.dt = T::UnsignedIntegerBe; s.bytes = isz[kind - 9]; }
  else if (kind <= 15) { s.dt = T::SignedIntegerBe; s.bytes = isz[kind - 12]; }
  else if (kind <= 17) { s.dt = T::FloatBe; s.bytes = kind == 16 ? 4 : 8; }
  else if (kind <= 19) { s.dt = kind == 18 ? T::StringUTF8 : T::StringAscii; s.bytes = static_cast<uint32_t>(2 + salt % 20 + (salt / 64 % 16 == 0 ? 400 : 0)); }
  else if (kind == 20) { s.dt = m3 || salt % 3 ? T::ByteArray : salt % 2 ? T::MimeSample : T::MimeStream; s.bytes = static_cast<uint32_t>(1 + salt % 40 + (salt / 64 % 16 == 0 ? 400 : 0)); }
  else if (kind == 21) { s.dt = T::CanOpenDate; s.bytes = 7; }
  else if (kind == 22) { s.dt = T::CanOpenTime; s.bytes = 6; }
  else if (kind <= 27) {
    s.type = ChannelType::VariableLength;
    s.dt = kind == 23 ? T::StringUTF8 : kind == 24 ? T::ByteArray
         : kind == 25 ? (salt % 2 ? T::StringUTF16Le : T::StringUTF16Be)
         : kind == 26 ? T::StringAscii : (salt % 2 ? T::MimeSample : T::MimeStream);
    s.bytes = 8;
    s.vmode = static_cast<int>(c.K(p + "vmode", 0, 6));
    s.vmax = static_cast<uint32_t>(c.K(p + "vmax", 1, 60));
    if (c.B(p + "bigv", 0)) {
      s.vmax = static_cast<uint32_t>(c.K(p + "bigvmax", 2'000, 120'000));
      s.vmode = s.vmode == 2 ? 2 : 0;
    }
  } else if (kind >= 29) {
    s.dt = kind == 29 ? T::StringUTF16Le : T::StringUTF16Be;
    s.bytes = static_cast<uint32_t>(4 + 2 * (salt % 12));
  } else {
    static const T at[] = {T::UnsignedIntegerLe, T::FloatLe, T::UnsignedIntegerBe, T::SignedIntegerLe, T::SignedIntegerBe, T::FloatBe};
    s.dt = at[salt % 6];
    s.bytes = IsFloat(s.dt) ? (salt % 4 < 2 ? 8 : 4) : isz[salt / 8 % 4];
    const auto dims = c.K(p + "dims", 1, 3);
    s.array = 1;
    for (int64_t d = 0; d < dims; ++d) {
      s.shape.push_back(2 + (salt >> (8 + 3 * d)) % (dims == 1 ? (salt / 64 % 8 == 0 ? 60 : 5) : 2));
      s.array *= static_cast<uint32_t>(s.shape.back());
    }
  }
  if (kind == 31) {
    s.array = 1;
    s.shape.clear();
    s.type = ChannelType::VirtualData;
    s.dt = T::UnsignedIntegerLe;
    s.bytes = 0;
    s.low_entropy = false;
    return s;
  }
  if (!m3 && kind != 21 && kind != 22) s.inv = c.B(p + "inv", 30);
  s.low_entropy = c.B(p + "low", 30);
  if (kind <= 17 && salt % 4 == 0) {
    s.conv = 1;
    s.cc_a = static_cast<double>(salt % 17) - 8;
    s.cc_b = 0.25 * static_cast<double>(1 + salt % 9);
  } else if (kind <= 15 && !m3 && salt % 4 == 1) {
    s.conv = 2;
    s.cc_a = static_cast<double>(salt % 5);
    s.cc_b = s.cc_a + 1 + static_cast<double>(salt % 3);
  }
  return s;
}
static void GenOps(Ctx& c, const std::string& p, std::vector<ProdOp>& ops, const std::vector<std::pair<int, int>>& mine,
                   bool big) {
  const int nb = static_cast<int>(c.K(p + "bursts", 1, 4));
  for (int b = 0; b < nb; ++b) {
    const auto q = p + std::to_string(b) + ".";
    ProdOp op{};
    const auto& m = mine[static_cast<size_t>(c.K(q + "cg", 0, 1000)) % mine.size()];
    op.dg = m.first;
    op.cg = m.second;
    op.n = static_cast<uint64_t>(c.K(q + "n", 1, 12));
    if (big && c.range.count("bigsize") == 0) op.n = op.n * 5;
    if (!big && c.B(q + "flood", 0)) {  // more samples than one or two bytes can count
      op.n *= static_cast<uint64_t>(c.B(q + "floodall", 6) ? c.K(q + "floodmax", 6'000, 9'000) : c.K(q + "floodx", 20, 300));
      c.count["flood"]++;
    }
    static const uint64_t gaps[] = {0, 1'000'000, 100'000'000, 2'000'000'000};
    static const uint64_t pauses[] = {0, 1'000'000'000, 4'000'000'000, 12'000'000'000, 25'000'000'000};
    op.gap = gaps[c.K(q + "gap", 0, 3)];
    if (op.n > 60) op.gap = std::min<uint64_t>(op.gap, 20'000);
    op.pause = pauses[c.K(q + "pause", 0, 4)];
    ops.push_back(op);
  }
}
void GenPlan(Ctx& c, World& w) {
  w.c = &c;
  w.wtype = static_cast<int>(c.K("wtype", 0, 3));
  static const char* kNames[] = {"w/m", "w/M\xc3\xa4tning \xe6\xb8\xac\xe9\x87\x8f", "w/run.1,2;(3) #", "w/\xf0\x9f\x9a\x97"};
  w.path = std::string(c.B("name", 15) ? kNames[c.H("name") % 4] : "w/m") + (w.wtype == 0 ? ".mdf" : ".mf4");
  w.stream = c.B("stream", 0);
  w.small_base = c.B("smallbase", 0);
  const int nses = static_cast<int>(c.B("manyses", 0) ? c.K("manysesn", 6, 11) : c.K("nses", 1, 1));
  for (int s = 0; s < nses; ++s) {
    SessionSpec ss;
    const auto p = "s" + std::to_string(s) + ".";
    ss.reuse = s > 0 && (w.stream || c.B(p + "reuse", 40));  // a stream is only extended by its writer
    ss.compress = w.wtype != 0 && c.B(p + "compress", 30);
    ss.periodic = !c.B(p + "atstop", 30);
    ss.prestart = static_cast<int>(c.K(p + "prestart", 0, 2));
    static const uint64_t pres[] = {0, 500'000'000, 3'000'000'000, 20'000'000'000, 100'000'000'000, 1'750'000'000};
    ss.pretrig_ns = pres[c.K(p + "pretrig", 0, 5)];
    ss.idle_before_start = static_cast<uint64_t>(c.K(p + "idle0", 0, 25)) * 1'000'000'000ull;
    ss.idle_before_stop = static_cast<uint64_t>(c.K(p + "idle1", 0, 15)) * 1'000'000'000ull;
    ss.start_delay = static_cast<uint64_t>(c.K(p + "sdelay", 0, 12000)) * 1'000'000ull;
    ss.stop_call = !c.B(p + "nostop", 0);
    ss.align = static_cast<int>(c.K(p + "align", 0, 0));
    if (ss.align) ss.align_off = static_cast<uint64_t>(c.K(p + "aoff", 0, 40)) * (c.K("sch.tick", 0, 2) == 0 ? 1 : 1000);
    ss.ts_start = c.B(p + "tsstart", 20);
    ss.save_api = c.B(p + "dgapi", 50) ? 1 : 0;
    ss.meta = w.wtype != 0 && c.B(p + "meta", 30);
    ss.attach = w.wtype != 0 ? static_cast<int>(c.K(p + "attach", 0, 0)) : 0;
    ss.soak = w.wtype != 3 && c.B(p + "soak", 0);
    if (ss.soak) {
      ss.prestart = 1;
      if (ss.pretrig_ns > 20'000'000'000) ss.pretrig_ns = 0;
    }
    const bool big = w.wtype != 0 && c.B(p + "bigrec", 0);
    if (big && !ss.compress) ss.compress = c.B(p + "bigcompress", 80);
    const int ndg = ss.soak ? 1 : static_cast<int>(!big && c.B(p + "manydg", 0) ? c.K(p + "manydgn", 6, 16) : c.K(p + "ndg", 1, 3));
    for (int d = 0; d < ndg; ++d) {
      DgSpec ds;
      const auto pd = p + "d" + std::to_string(d) + ".";
      ds.desc = "DG " + RandText(c.H(pd + "desc"), 5);
      const bool many = d == 0 && c.B(p + "manycg", 0);  // more groups than one byte of record id can tell apart
      const int ncg = static_cast<int>(many ? c.K(pd + "manyn", 249, w.wtype == 0 ? 255 : 264) : c.K(pd + "ncg", 1, 3));
      for (int g = 0; g < ncg; ++g) {
        CgSpec cs;
        const auto pg = pd + "g" + std::to_string(g) + ".";
        cs.name = Fmt("S%d_D%d_G%d_", s, d, g) + RandText(c.H(pg + "name"), 3);
        if (c.B(pg + "same", 0)) cs.name = g % 2 ? "Same name" : "Same.name";
        cs.desc = "CG " + RandText(c.H(pg + "desc"), 1 + c.H(pg + "dl") % 15);
        cs.master = w.wtype == 0 ? 0 : static_cast<int>(c.K(pg + "master", 0, 14));
        cs.direct = w.wtype != 0 && c.B(pg + "direct", 25);
        if (cs.direct && cs.master >= 12) cs.master = 0;
        cs.source = w.wtype != 0 && c.B(pg + "source", 30);
        ChSpec id;
        id.name = "Id";
        id.unit = "n";
        cs.ch.push_back(id);
        const bool wide = !many && !ss.soak && c.B(pg + "wide", 0);  // many channels
        if (wide) c.count["wide"]++;
        const int nch = many || ss.soak ? 0 : static_cast<int>(wide ? c.K(pg + "widen", 18, 60) : c.K(pg + "nch", 0, 5));
        for (int k = 0; k < nch; ++k) {
          auto ch = GenCh(c, pg + "c" + std::to_string(k) + ".", w.wtype, k, c.H(pg + "c" + std::to_string(k)));
          if (cs.direct && (ch.type != ChannelType::FixedLength || ch.array > 1 ||
                            !(IsUInt(ch.dt) || IsSInt(ch.dt) || IsFloat(ch.dt)))) {
            ch.type = ChannelType::FixedLength;
            ch.dt = ChannelDataType::UnsignedIntegerLe;
            ch.bytes = 4;
            ch.array = 1;
            ch.shape.clear();
          }
          if (cs.direct) ch.inv = false;
          cs.ch.push_back(ch);
        }
        if (ss.soak) {
          cs.direct = false;
          ChSpec b;
          b.name = "Big";
          b.dt = ChannelDataType::ByteArray;
          b.bytes = 2000;
          cs.ch.push_back(b);
        } else if (big) {
          ChSpec b;
          b.name = "Big";
          b.dt = ChannelDataType::ByteArray;
          b.bytes = static_cast<uint32_t>(c.K(pg + "bigsize", 1'000, 110'000));
          b.low_entropy = c.B(pg + "biglow", 70);
          cs.direct = false;
          cs.ch.push_back(b);
        }
        ds.cg.push_back(cs);
      }
      ss.dg.push_back(ds);
    }
    const int np = static_cast<int>(c.K(p + "nprod", 1, 3));
    for (int k = 0; k < np; ++k) {
      ProdScript ps;
      std::vector<std::pair<int, int>> post, pre;
      int n = 0;
      for (int d = 0; d < ndg; ++d) {
        const int ng = static_cast<int>(ss.dg[d].cg.size());
        for (int g = 0; g < ng; ++g, ++n) {
          if (ng > 100 && g > 3 && g < ng - 12) continue;
          if (ss.dg[d].cg[g].direct || n % np == k) post.emplace_back(d, g);
          if (d % np == k) pre.emplace_back(d, g);
        }
      }
      const auto pp = p + "p" + std::to_string(k) + ".";
      if (ss.prestart == 0 && c.B(pp + "skew", 0)) ps.skew = static_cast<uint64_t>(c.K(pp + "skewms", 1, 9000)) * 1'000'000;
      if (ss.soak) {
        ProdOp op{};
        for (const auto& m : pre) {
          op.dg = m.first;
          op.cg = m.second;
          op.n = 240 / pre.size();
          op.gap = 500'000'000;
          ps.pre.push_back(op);
        }
      } else if (ss.prestart == 1 && !pre.empty()) {
        GenOps(c, pp + "pre.", ps.pre, pre, false);
      }
      if (!post.empty()) GenOps(c, pp, ps.post, post, big);
      ss.prod.push_back(ps);
    }
    w.ses.push_back(ss);
  }
  if (c.count.count("flood")) {  // keep the amount of data within bounds
    uint64_t budget = 4'000'000;
    for (auto& ss : w.ses) {
      for (auto& ps : ss.prod) {
        for (auto* ops : {&ps.pre, &ps.post}) {
          for (auto& op : *ops) {
            if (op.n <= 60) continue;
            uint64_t cost = 8;
            for (const auto& ch : ss.dg[static_cast<size_t>(op.dg)].cg[static_cast<size_t>(op.cg)].ch) cost += ch.bytes * std::max<uint64_t>(1, ch.array) + ch.vmax;
            op.n = std::min(op.n, std::max<uint64_t>(60, budget / cost));
            budget -= std::min(budget, op.n * cost);
            if (op.n > 65'535) c.count["flood_2_bytes"]++;
          }
        }
      }
    }
  }
}

std::streamsize MemBuf::xsputn(const char* s, std::streamsize n) {
  sim::Yield(20);
  ++writes;
  auto k = static_cast<size_t>(n);
  if (pos_ + k > limit) k = limit > pos_ ? limit - pos_ : 0;
  if (data.size() < pos_ + k) data.resize(pos_ + k, '\0');
  memcpy(&data[pos_], s, k);
  pos_ += k;
  return static_cast<std::streamsize>(k);
}
std::streamsize MemBuf::xsgetn(char* s, std::streamsize n) {
  sim::Yield(20);
  ++reads;
  const size_t k = pos_ >= data.size() ? 0 : std::min(static_cast<size_t>(n), data.size() - pos_);
  memcpy(s, data.data() + pos_, k);
  pos_ += k;
  return static_cast<std::streamsize>(k);
}
MemBuf::int_type MemBuf::overflow(int_type ch) {
  if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
  const char b = traits_type::to_char_type(ch);
  return xsputn(&b, 1) == 1 ? ch : traits_type::eof();
}
MemBuf::int_type MemBuf::underflow() {
  return pos_ < data.size() ? traits_type::to_int_type(data[pos_]) : traits_type::eof();
}
MemBuf::int_type MemBuf::uflow() {
  return pos_ < data.size() ? traits_type::to_int_type(data[pos_++]) : traits_type::eof();
}
MemBuf::pos_type MemBuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) {
  sim::Yield(20);
  const auto base = static_cast<off_type>(dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? pos_ : data.size());
  if (base + off < 0) return pos_type(off_type(-1));
  pos_ = static_cast<size_t>(base + off);
  return pos_type(base + off);
}
MemBuf::pos_type MemBuf::seekpos(pos_type p, std::ios_base::openmode m) { return seekoff(off_type(p), std::ios_base::beg, m); }
int MemBuf::sync() {
  sim::Yield(20);
  ++syncs;
  return 0;
}

std::string ReadBytes(const std::string& path) {
  std::string out;
  const auto p = path.rfind("w/", 0) == 0 ? "./" + path : path;  // not a simulated file
  FILE* f = fopen(p.c_str(), "rb");
  if (f == nullptr) return out;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof(b), f)) > 0) out.append(b, n);
  fclose(f);
  return out;
}
void WriteBytes(const std::string& path, const std::string& data) {
  const auto p = path.rfind("w/", 0) == 0 ? "./" + path : path;
  FILE* f = fopen(p.c_str(), "wb");
  if (f == nullptr) Bad("HARNESS", "cannot create " + path);
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
}
std::string BufBytes(std::streambuf& b) {
  b.pubseekpos(0, std::ios_base::in);
  std::string out;
  char t[65536];
  std::streamsize n;
  while ((n = b.sgetn(t, sizeof(t))) > 0) out.append(t, static_cast<size_t>(n));
  return out;
}
}  // namespace h
