// C15: attachments are exported as they were stored, or failure is reported.
#include <unistd.h>

#include <cstring>

#include "h.h"
#include "mdf/iattachment.h"

using namespace mdf;
namespace h {
namespace {
std::string Md5Hex(const std::string& in) {  // RFC 1321
  static const uint32_t r[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20,
                                 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
  static uint32_t k[64];
  if (k[0] == 0) {
    for (int i = 0; i < 64; ++i) k[i] = static_cast<uint32_t>(static_cast<uint64_t>(__builtin_fabs(__builtin_sin(i + 1)) * 4294967296.0));
  }
  uint32_t h0 = 0x67452301, h1 = 0xefcdab89, h2 = 0x98badcfe, h3 = 0x10325476;
  std::string m = in;
  m.push_back('\x80');
  while (m.size() % 64 != 56) m.push_back('\0');
  const uint64_t bits = static_cast<uint64_t>(in.size()) * 8;
  for (int i = 0; i < 8; ++i) m.push_back(static_cast<char>(bits >> (8 * i)));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16];
    memcpy(w, m.data() + o, 64);
    uint32_t a = h0, b = h1, c = h2, d = h3;
    for (uint32_t i = 0; i < 64; ++i) {
      uint32_t f, g;
      if (i < 16) { f = (b & c) | (~b & d); g = i; }
      else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
      else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
      else { f = c ^ (b | ~d); g = (7 * i) % 16; }
      const uint32_t t = d;
      d = c;
      c = b;
      const uint32_t x = a + f + k[i] + w[g];
      b = b + ((x << r[i]) | (x >> (32 - r[i])));
      a = t;
    }
    h0 += a; h1 += b; h2 += c; h3 += d;
  }
  std::string out;
  for (uint32_t v : {h0, h1, h2, h3}) for (int i = 0; i < 4; ++i) out += Fmt("%02X", (v >> (8 * i)) & 0xFF);
  return out;
}

struct At {
  int ses = 0;
  bool embed = true, compress = false;
  int change = 0;  // of the attached file after it was stored: 0 none, 1 removed, 2 other bytes, 3 other length
  std::string name, type, desc, bytes;
};
std::string Content(uint64_t r, size_t n, int style) {
  std::string s(n, '\0');
  for (size_t i = 0; i < n; ++i) {
    switch (style) {
      case 0: s[i] = static_cast<char>(sim::Mix(r, i / 8) >> (8 * (i % 8))); break;
      case 1: s[i] = static_cast<char>('a' + (i / 97 + r) % 7); break;
      case 2: s[i] = '\xFF'; break;
      default: s[i] = static_cast<char>(i % 4096 < 3000 ? 0 : sim::Mix(r, i)); break;
    }
  }
  return s;
}
}  // namespace

void DriveAttach(Ctx& c) {
  World w;
  GenPlan(c, w);
  w.faults_allowed = true;
  std::vector<At> list;
  for (size_t s = 0; s < w.ses.size(); ++s) {
    const auto p = "a" + std::to_string(s) + ".";
    const auto n = c.K(p + "n", 0, 3);
    for (int64_t i = 0; i < n; ++i) {
      const auto q = p + std::to_string(i) + ".";
      At a;
      a.ses = static_cast<int>(s);
      a.embed = c.B(q + "embed", 75);
      a.compress = c.B(q + "zip", 50);
      static const size_t sizes[] = {0, 1, 64, 99, 100, 1000, 4096, 8191, 8192, 16383, 16384, 16385, 32768, 40000, 70001, 300000};
      const size_t size = sizes[c.K(q + "size", 0, 15)] + static_cast<size_t>(c.K(q + "more", 0, 3) == 0 ? c.K(q + "plus", 0, 200) : 0);
      a.bytes = Content(c.H(q + "r"), size, static_cast<int>(c.K(q + "style", 0, 3)));
      a.name = Fmt("w/at%zu_%lld%s.bin", s, static_cast<long long>(i), c.B(q + "utf", 20) ? "\xc3\xa5 \xe6\x96\x87" : "");
      a.type = "application/x" + RandText(c.H(q + "t"), 4);
      a.desc = "AT" + RandText(c.H(q + "d"), 10);
      a.change = static_cast<int>(c.K(q + "change", 0, 3));
      list.push_back(a);
    }
  }
  const auto where = c.K("f.where", 0, 2);  // 0 while recording, 1, 2 while exporting
  const auto arm_at = static_cast<size_t>(c.K("f.arm", 0, 3)) % w.ses.size();
  const bool from_stream = c.B("x.stream", 25);
  const bool twice = c.B("x.twice", 50);
  BeginRun(c);
  w.config = [&](World& x, int s) {
    for (const auto& a : list) {
      if (a.ses != s) continue;
      auto* at = x.writer->Header()->CreateAttachment();
      if (at == nullptr) Bad("APIFAIL", "CreateAttachment returned null");
      at->FileName(a.name);
      at->FileType(a.type);
      at->IsEmbedded(a.embed);
      at->IsCompressed(a.compress);
      AtComment cm(a.desc);
      at->SetAtComment(cm);
    }
  };
  bool reported = false;
  for (size_t s = 0; s < w.ses.size(); ++s) {
    for (const auto& a : list) if (a.ses == static_cast<int>(s)) WriteBytes(a.name, a.bytes);
    if (where == 0 && s == arm_at) sim::ArmFaults(c.faults);
    const bool ok = RunSessionUntil(w, static_cast<int>(s), "");
    ClassifyRequired(w, static_cast<int>(s));
    for (const auto& a : list) {
      if (a.ses != static_cast<int>(s)) continue;
      const auto real = "./" + a.name;
      if (a.change == 1) unlink(real.c_str());
      else if (a.change == 2 && !a.bytes.empty()) {
        auto b = a.bytes;
        b[b.size() / 2] = static_cast<char>(b[b.size() / 2] ^ 1);
        WriteBytes(a.name, b);
      } else if (a.change == 3) WriteBytes(a.name, a.bytes + "x");
    }
    if (!ok) {
      reported = true;
      break;
    }
  }
  Timed(w, "destroy", [&] { w.writer.reset(); });
  const bool rec_fired = sim::AnyFaultFired();
  if (where == 0) sim::DisarmFaults();
  if (reported) {
    if (!rec_fired) Bad("APIFAIL", "recording with attachments reports failure without any fault");
    c.count["record_failure_reported"]++;
    if (sim::OpenFileCount() != 0) Bad("LEAK", "files are still open after the writer was destroyed");
    return;
  }
  if (rec_fired && where == 0) c.count["record_fault_survived"]++;

  auto export_all = [&](const std::string& path, std::shared_ptr<std::streambuf> buf, bool faults, bool damaged, const std::string& who) {
    sim::Api api;
    std::unique_ptr<MdfReader> rd = buf ? std::make_unique<MdfReader>(buf) : std::make_unique<MdfReader>(path);
    const bool lenient = faults || damaged;
    if (!rd->IsOk() || !rd->ReadEverythingButData()) {
      if (!lenient) Bad("READFAIL", who + ": the file cannot be read");
      c.count["export_open_failed"]++;
      return;
    }
    const auto* hd = rd->GetHeader();
    const auto ats = hd == nullptr ? std::vector<IAttachment*>{} : hd->Attachments();
    if (ats.size() != list.size()) {
      if (!lenient) Bad("ATTACH", Fmt("%s: the file has %zu attachments, %zu were stored", who.c_str(), ats.size(), list.size()));
      if (ats.size() > list.size()) Bad("ATTACH", who + ": too many attachments");
      return;
    }
    for (size_t i = 0; i < ats.size(); ++i) {
      const auto& a = list[i];
      const auto id = Fmt("%s: attachment %zu (%zu bytes%s%s)", who.c_str(), i, a.bytes.size(), a.embed ? ", embedded" : "", a.compress ? ", compressed" : "");
      const auto* at = ats[i];
      if (!lenient) {
        AtComment cm;
        at->GetAtComment(cm);
        std::string want_md5 = Md5Hex(a.bytes);
        if (at->FileName() != a.name || at->FileType() != a.type || at->IsEmbedded() != a.embed || at->IsCompressed() != a.compress ||
            cm.Comment().Text() != a.desc) {
          Bad("ATTACH", id + ": name, type, flags or comment differ");
        }
        if (at->OriginalSize() != a.bytes.size()) Bad("ATTACH", Fmt("%s: original size %llu", id.c_str(), static_cast<unsigned long long>(at->OriginalSize())));
        const auto md5 = at->Md5();
        if (md5 && *md5 != want_md5) Bad("ATTACH", id + ": MD5 checksum " + *md5 + " instead of " + want_md5);
      }
      const bool to_stream = c.B(Fmt("x%zu.st", i), 40);
      const bool full = to_stream && !a.bytes.empty() && c.B(Fmt("x%zu.full", i), 20);
      const std::string out = Fmt("w/out%zu.bin", i);
      bool ok;
      std::string got;
      if (to_stream) {
        MemBuf dest;
        if (full) {
          dest.limit = static_cast<size_t>(c.K(Fmt("x%zu.lim", i), 0, 1000000)) % a.bytes.size();
          c.count["full_streams"]++;
        }
        ok = rd->ExportAttachmentData(*at, dest);
        got = dest.data;
      } else {
        if (c.B(Fmt("x%zu.old", i), 50)) WriteBytes(out, std::string(a.bytes.size() + 5000, 'o'));
        ok = rd->ExportAttachmentData(*at, out);
        got = ReadBytes(out);
      }
      ++c.evals;
      c.count[ok ? "exported" : "export_failed"]++;
      if (ok && got != a.bytes) {
        size_t k = 0;
        while (k < got.size() && k < a.bytes.size() && got[k] == a.bytes[k]) ++k;
        Bad("ATTACH", Fmt("%s: exported as success%s with %zu bytes, different from byte %zu on", id.c_str(), to_stream ? " to a stream" : "", got.size(), k));
      }
      const bool must = a.embed || a.change == 0 || (a.change == 2 && a.bytes.empty());
      if (!lenient && must && !full && !ok) Bad("ATTACH", id + (to_stream ? ": export to a stream failed" : ": export failed"));
    }
  };
  std::shared_ptr<std::streambuf> buf;
  if (from_stream) buf = std::make_shared<MemBuf>(ReadBytes(w.path));
  sim::SetStage("export");
  if (where != 0) {
    sim::ArmFaults(c.faults);
    export_all(w.path, buf, true, false, "export with storage faults");
    c.count[sim::AnyFaultFired() ? "export_fault_runs" : "no_fault"]++;
    sim::DisarmFaults();
  }
  export_all(w.path, buf, false, false, rec_fired ? "recorded with success despite storage faults" : "export");
  if (twice) export_all(w.path, buf, false, false, "second export");
  if (c.B("x.cut", 40)) {
    const auto bytes = ReadBytes(w.path);
    sim::Rng r(sim::Mix(c.seed, 0xC7));
    const auto at = static_cast<size_t>(c.set.count("x.at") ? c.K("x.at", 0, 1) : static_cast<int64_t>(r.Below(bytes.size())));
    WriteBytes("w/cut.mf4", bytes.substr(0, at));
    sim::SetStage("export truncated");
    export_all("w/cut.mf4", nullptr, false, true, Fmt("file truncated to %zu of %zu bytes", at, bytes.size()));
    c.count["truncations"]++;
  }
  sim::SetStage("read back");
  ReadAndCheck(w, static_cast<int>(w.ses.size()), 0, w.path);
  StructCheckFile(w, ReadBytes(w.path), "file");
  if (sim::OpenFileCount() != 0) Bad("LEAK", "files are still open after the reader and the writer were destroyed");
  CountRun(c, w);
}
}  // namespace h
