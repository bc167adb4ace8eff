// Independent structural check of an MDF 3 file image (no library code).
#include <cstring>
#include <functional>

#include "h.h"

namespace h {
namespace {
using ull = unsigned long long;
struct Walker3 {
  const std::string& f;
  std::string err;
  struct Blk {
    uint64_t pos = 0, len = 0;
    std::string id;
  };
  std::map<uint64_t, Blk> seen;
  explicit Walker3(const std::string& b) : f(b) {}
  template <typename T>
  T Get(uint64_t pos) const {
    T v{};
    if (pos + sizeof(T) <= f.size()) memcpy(&v, f.data() + pos, sizeof(T));
    return v;
  }
  bool Err(const std::string& e) {
    if (err.empty()) err = e;
    return false;
  }
  bool Block(uint64_t pos, const char* id, uint64_t min, const std::string& from, Blk* out = nullptr) {
    if (pos + 4 > f.size()) return Err(from + Fmt(": link %llx leads outside the file (%llx)", (ull)pos, (ull)f.size()));
    Blk b;
    b.pos = pos;
    b.id = f.substr(pos, 2);
    b.len = Get<uint16_t>(pos + 2);
    if (b.id != id) return Err(from + Fmt(": link %llx does not lead to a %s block", (ull)pos, id));
    if (b.len < min || pos + b.len > f.size()) {
      return Err(from + Fmt(": block %s at %llx has length %llu, file ends at %llx", id, (ull)pos, (ull)b.len, (ull)f.size()));
    }
    seen[pos] = b;
    if (out) *out = b;
    return true;
  }
  bool Text(uint64_t pos, const std::string& from) {
    if (pos == 0) return true;
    Blk b;
    if (!Block(pos, "TX", 5, from + " text", &b)) return false;
    return f[b.pos + b.len - 1] == 0 || Err(from + " text is not terminated");
  }
  bool Cc(uint64_t pos, const std::string& from) {
    if (pos == 0) return true;
    Blk b;
    if (!Block(pos, "CC", 44, from + " conversion", &b)) return false;
    const auto type = Get<uint16_t>(pos + 42);
    const uint64_t n = b.len >= 46 ? Get<uint16_t>(pos + 44) : 0;
    uint64_t need = 46;
    switch (type) {
      case 0: case 6: case 7: case 8: case 9: need += 8 * n; break;
      case 1: case 2: need += 16 * n; break;
      case 10: need += n; break;
      case 11: need += 40 * n; break;
      case 12: need += 20 * n; break;
      default: need = 44; break;
    }
    if (b.len < need) return Err(from + Fmt(": conversion of type %u with %llu values has only %llu bytes", type, (ull)n, (ull)b.len));
    if (type == 12) {
      for (uint64_t i = 0; i < n; ++i) {
        if (!Text(Get<uint32_t>(pos + 46 + 20 * i + 16), from + " CC")) return false;
      }
    }
    return true;
  }
  bool List(uint64_t pos, const char* id, uint64_t min, const std::string& from, uint64_t count,
            const std::function<bool(const Blk&, const std::string&)>& each) {
    std::set<uint64_t> visited;
    uint64_t n = 0;
    while (pos != 0) {
      if (!visited.insert(pos).second) return Err(from + ": " + id + " list is endless");
      const auto me = from + " " + id + std::to_string(n++);
      Blk b;
      if (!Block(pos, id, min, me, &b) || !each(b, me)) return false;
      pos = Get<uint32_t>(pos + 4);
    }
    return n == count || Err(from + Fmt(": counts %llu %s blocks, the list has %llu", (ull)count, id, (ull)n));
  }
  bool Cn(const Blk& b, const std::string& me, uint64_t rec) {
    if (!Cc(Get<uint32_t>(b.pos + 8), me)) return false;
    if (const auto l = Get<uint32_t>(b.pos + 12); l != 0 && !Block(l, "CE", 6, me)) return false;
    if (const auto l = Get<uint32_t>(b.pos + 16); l != 0 && !Block(l, "CD", 8, me)) return false;
    if (!Text(Get<uint32_t>(b.pos + 20), me)) return false;
    const uint64_t bits = Get<uint16_t>(b.pos + 188);
    uint64_t start = Get<uint16_t>(b.pos + 186);
    const unsigned type = Get<uint16_t>(b.pos + 190);
    if (type > 16) return Err(me + Fmt(": no such signal type %u", type));
    if (((type == 2 || type == 11 || type == 15) && bits != 32) || ((type == 3 || type == 12 || type == 16) && bits != 64)) {
      return Err(me + Fmt(": signal type %u with %llu bits", type, (ull)bits));
    }
    if (b.len >= 222 && !Text(Get<uint32_t>(b.pos + 218), me)) return false;
    if (b.len >= 226 && !Text(Get<uint32_t>(b.pos + 222), me)) return false;
    if (b.len >= 228) start += 8ull * Get<uint16_t>(b.pos + 226);
    if (start + bits > 8 * rec) {
      return Err(me + Fmt(": value lies outside the record (bit %llu, %llu bits, record %llu bytes)", (ull)start, (ull)bits, (ull)rec));
    }
    return true;
  }
  bool Dg(const Blk& b, const std::string& from) {
    if (const auto l = Get<uint32_t>(b.pos + 12); l != 0) {
      Blk t;
      if (!Block(l, "TR", 10, from, &t) || !Text(Get<uint32_t>(l + 4), from + " TR")) return false;
      if (t.len < 10 + 24ull * Get<uint16_t>(l + 8)) return Err(from + ": trigger events do not fit in the block");
    }
    const auto id_size = Get<uint16_t>(b.pos + 22);
    const auto ncg = Get<uint16_t>(b.pos + 20);
    if (id_size > 2) return Err(from + ": bad number of record ids");
    if (id_size == 0 && ncg > 1) return Err(from + ": several groups without record id");
    struct G {
      uint64_t rec = 0, count = 0, found = 0;
      std::string where;
    };
    std::map<uint64_t, G> groups;
    uint64_t bytes = 0;
    if (!List(Get<uint32_t>(b.pos + 8), "CG", 26, from, ncg, [&](const Blk& c, const std::string& me) {
          G g;
          g.where = me;
          g.rec = Get<uint16_t>(c.pos + 20);
          g.count = Get<uint32_t>(c.pos + 22);
          bytes += g.count * (g.rec + id_size);
          if (!groups.emplace(Get<uint16_t>(c.pos + 16), g).second) return Err(me + ": record id used twice");
          if (!Text(Get<uint32_t>(c.pos + 12), me)) return false;
          if (const auto l = c.len >= 30 ? Get<uint32_t>(c.pos + 26) : 0; l != 0 && !Block(l, "SR", 24, me)) return false;
          return List(Get<uint32_t>(c.pos + 8), "CN", 218, me, Get<uint16_t>(c.pos + 18),
                      [&](const Blk& n, const std::string& w) { return Cn(n, w, g.rec); });
        })) {
      return false;
    }
    if (bytes == 0) return true;
    uint64_t p = Get<uint32_t>(b.pos + 16);
    if (p == 0) return Err(from + ": samples are counted but there is no data");
    if (p + bytes > f.size()) return Err(from + Fmt(": %llu bytes of samples at %llx, file ends at %llx", (ull)bytes, (ull)p, (ull)f.size()));
    if (seen.count(p)) return Err(from + ": data starts at a block");
    Blk d;
    d.pos = p;
    d.len = bytes;
    d.id = "data";
    seen[p] = d;
    for (const uint64_t end = p + bytes; p < end;) {
      const uint64_t id = id_size ? Get<uint8_t>(p) : groups.begin()->first;
      const auto it = groups.find(id);
      if (it == groups.end()) return Err(from + Fmt(": record with unknown id %llu", (ull)id));
      ++it->second.found;
      p += it->second.rec + id_size;
    }
    for (const auto& [id, g] : groups) {
      if (g.found != g.count) return Err(g.where + Fmt(": counter says %llu, data holds %llu records", (ull)g.count, (ull)g.found));
    }
    return true;
  }
  bool Run() {
    if (f.size() < 64 + 164) return Err("file is too short");
    if (f.compare(0, 8, "MDF     ") != 0) return Err("file is not marked as finished MDF");
    Blk hd;
    if (!Block(64, "HD", 164, "HD", &hd)) return false;
    if (!Text(Get<uint32_t>(72), "HD")) return false;
    if (const auto l = Get<uint32_t>(76); l != 0 && !Block(l, "PR", 4, "HD")) return false;
    if (!List(Get<uint32_t>(68), "DG", 24, "HD", Get<uint16_t>(80), [&](const Blk& b, const std::string& m) { return Dg(b, m); })) return false;
    uint64_t end = 0, last = 0;
    for (const auto& [p, b] : seen) {
      if (p < end) return Err(Fmt("%s at %llx and %s at %llx overlap", seen[last].id.c_str(), (ull)last, b.id.c_str(), (ull)p));
      end = p + b.len;
      last = p;
    }
    return true;
  }
};
}  // namespace
std::string CheckStructure3(const std::string& bytes, uint64_t* blocks) {
  Walker3 w(bytes);
  w.Run();
  *blocks = w.seen.size();
  return w.err;
}
}  // namespace h
