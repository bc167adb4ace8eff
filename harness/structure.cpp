// Independent structural check of an MDF 4 file image (no library code).
#include <zlib.h>

#include <algorithm>
#include <cstring>

#include "h.h"

namespace h {
namespace {
struct Blk {
  uint64_t pos = 0, len = 0, links = 0;
  std::string id;
};
struct Walker {
  const std::string& f;
  StructOpt opt;
  std::string err;
  std::map<uint64_t, Blk> seen;
  explicit Walker(const std::string& b, const StructOpt& o) : f(b), opt(o) {}

  template <typename T>
  T Get(uint64_t pos) const {
    T v{};
    if (pos + sizeof(T) <= f.size()) memcpy(&v, f.data() + pos, sizeof(T));
    return v;
  }
  bool Err(const std::string& e) {
    if (err.empty()) err = e;
    return false;
  }
  // Checks the block a link leads to.
  bool Block(uint64_t pos, const char* ids, const std::string& from, Blk* out) {
    if (pos + 24 > f.size()) return Err(from + Fmt(": link %llx leads outside the file (%llx)", (unsigned long long)pos, (unsigned long long)f.size()));
    Blk b;
    b.pos = pos;
    b.id = f.substr(pos, 4);
    b.len = Get<uint64_t>(pos + 8);
    b.links = Get<uint64_t>(pos + 16);
    if (b.id.substr(0, 2) != "##" || strstr(ids, b.id.c_str() + 2) == nullptr) {
      std::string shown;
      for (unsigned char ch : b.id) shown += ch >= 32 && ch < 127 ? static_cast<char>(ch) : '?';
      return Err(from + Fmt(": link %llx leads to '%s', expected %s", (unsigned long long)pos, shown.c_str(), ids));
    }
    if (pos % 8 != 0) return Err(from + Fmt(": block at %llx is not aligned", (unsigned long long)pos));
    if (b.len < 24 || b.links > (1u << 28) || b.len < 24 + 8 * b.links || pos + b.len > f.size()) {
      return Err(from + Fmt(": block %s at %llx has length %llu, links %llu, file ends at %llx", b.id.c_str(), (unsigned long long)pos,
                            (unsigned long long)b.len, (unsigned long long)b.links, (unsigned long long)f.size()));
    }
    seen[pos] = b;
    if (out) *out = b;
    return true;
  }
  uint64_t Link(const Blk& b, unsigned ix) const { return ix < b.links ? Get<uint64_t>(b.pos + 24 + 8 * ix) : 0; }
  uint64_t Data(const Blk& b) const { return b.pos + 24 + 8 * b.links; }
  bool Text(const Blk& b, unsigned ix, const std::string& from) {
    const auto l = Link(b, ix);
    if (l == 0) return true;
    Blk t;
    if (!Block(l, "TX MD", from + " text", &t)) return false;
    if (t.len == 24 || f[t.pos + t.len - 1] != 0) return Err(from + " text is not terminated");
    return true;
  }
  bool Si(uint64_t pos, const std::string& from) {
    if (pos == 0) return true;
    Blk b;
    if (!Block(pos, "SI", from + " source", &b)) return false;
    return Text(b, 0, from + " SI") && Text(b, 1, from + " SI") && Text(b, 2, from + " SI");
  }
  bool Cc(uint64_t pos, const std::string& from, int depth = 0) {
    if (pos == 0) return true;
    if (depth > 8) return Err(from + ": conversions are nested endlessly");
    Blk b;
    if (!Block(pos, "CC", from + " conversion", &b)) return false;
    if (!Text(b, 0, from + " CC") || !Text(b, 1, from + " CC") || !Text(b, 2, from + " CC")) return false;
    if (b.links < 4) return Err(from + ": CC has too few links");
    for (unsigned i = 4; i < b.links; ++i) {
      const auto l = Link(b, i);
      if (l == 0) continue;
      if (f.compare(l, 4, "##CC") == 0) {
        if (!Cc(l, from, depth + 1)) return false;
      } else if (!Text(b, i, from + " CC ref")) {
        return false;
      }
    }
    return true;
  }
  // Collects a data stream (DT/DZ/DL/HL or SD variants).
  bool Stream(uint64_t pos, const char* raw, const std::string& from, std::string* out, int depth = 0) {
    if (pos == 0) return true;
    const std::string ids = std::string(raw) + " DZ DL HL";
    Blk b;
    if (!Block(pos, ids.c_str(), from + " data", &b)) return false;
    if (b.id == "##HL") {
      Blk d;
      if (Link(b, 0) == 0) return true;
      if (f.compare(Link(b, 0), 4, "##DL") != 0) return Err(from + ": HL does not lead to DL");
      return Stream(Link(b, 0), raw, from, out, depth + 1);
    }
    if (b.id == "##DL") {
      std::set<uint64_t> visited;
      for (uint64_t p = pos; p != 0;) {
        if (!visited.insert(p).second) return Err(from + ": DL chain is endless");
        if (!Block(p, "DL", from + " DL", &b)) return false;
        const auto dp = Data(b);
        const auto flags = Get<uint8_t>(dp);
        const auto count = Get<uint32_t>(dp + 4);
        if (count + 1 != b.links) return Err(from + Fmt(": DL at %llx counts %u blocks, %llu links", (unsigned long long)p, count, (unsigned long long)b.links));
        for (uint32_t i = 0; i < count; ++i) {
          const auto at = out->size();
          if (!(flags & 1)) {
            if (dp + 8 + 8 * i + 8 > b.pos + b.len) return Err(from + ": DL offsets do not fit in the block");
            const auto off = Get<uint64_t>(dp + 8 + 8 * i);
            if (off != at) return Err(from + Fmt(": DL at %llx offset[%u] is %llu, data before it is %llu bytes", (unsigned long long)p, i, (unsigned long long)off, (unsigned long long)at));
          }
          const auto l = Link(b, 1 + i);
          if (l == 0) return Err(from + ": DL has an empty link");
          if (!Stream(l, raw, from, out, depth + 1)) return false;
          if ((flags & 1) && i + 1 < count && out->size() - at != Get<uint64_t>(dp + 8)) return Err(from + ": DL equal length is wrong");
        }
        p = Link(b, 0);
      }
      return true;
    }
    if (b.id == "##DZ") {
      const auto dp = Data(b);
      const std::string org = f.substr(dp, 2);
      if (strstr(raw, org.c_str()) == nullptr) return Err(from + Fmt(": DZ at %llx holds '%s'", (unsigned long long)pos, org.c_str()));
      const auto type = Get<uint8_t>(dp + 2);
      const auto par = Get<uint32_t>(dp + 4);
      const auto olen = Get<uint64_t>(dp + 8), dlen = Get<uint64_t>(dp + 16);
      if (dp + 24 + dlen > b.pos + b.len || olen > (1ull << 31)) return Err(from + Fmt(": DZ at %llx has wrong lengths", (unsigned long long)pos));
      std::string plain(olen, '\0');
      uLongf n = olen;
      if (uncompress(reinterpret_cast<Bytef*>(plain.data()), &n, reinterpret_cast<const Bytef*>(f.data() + dp + 24), dlen) != Z_OK || n != olen) {
        return Err(from + Fmt(": DZ at %llx cannot be inflated to %llu bytes", (unsigned long long)pos, (unsigned long long)olen));
      }
      if (type == 1 && par > 1) {
        const uint64_t rows = olen / par;
        std::string t = plain;
        for (uint64_t r = 0; r < rows; ++r) for (uint64_t c = 0; c < par; ++c) t[r * par + c] = plain[c * rows + r];
        plain = t;
      } else if (type > 1) {
        return Err(from + ": unknown DZ type");
      }
      *out += plain;
      return true;
    }
    out->append(f, b.pos + 24 + 8 * b.links, b.len - 24 - 8 * b.links);
    return true;
  }
  struct Ref {
    uint64_t pos;
    const char* ids;
    std::string from;
  };
  std::vector<Ref> later;  // references to blocks of a list elsewhere in the file
  void Refer(const Blk& b, unsigned ix, const char* ids, const std::string& from) {
    if (Link(b, ix) != 0) later.push_back({Link(b, ix), ids, from + Fmt(" link %u", ix)});
  }
  void Triple(const Blk& b, unsigned ix, const std::string& from) {
    Refer(b, ix, "DG", from);
    Refer(b, ix + 1, "CG", from);
    Refer(b, ix + 2, "CN", from);
  }
  bool Ca(const Blk& b, const std::string& from) {
    const auto dp = Data(b);
    const auto storage = Get<uint8_t>(dp + 1);
    const auto dims = Get<uint16_t>(dp + 2);
    const auto flags = Get<uint32_t>(dp + 4);
    if (dp + 16 + 8ull * dims > b.pos + b.len) return Err(from + ": the array sizes do not fit in the block");
    uint64_t prod = 1, sum = 0;
    for (unsigned i = 0; i < dims; ++i) {
      prod *= Get<uint64_t>(dp + 16 + 8 * i);
      sum += Get<uint64_t>(dp + 16 + 8 * i);
    }
    uint64_t need = 1, bytes = 16 + 8ull * dims;
    if (storage == 2) need += prod;
    const unsigned refs = static_cast<unsigned>(need);
    uint64_t triples = 0;
    for (unsigned bit = 0; bit < 4; ++bit) {
      if (flags & (1u << bit)) triples += bit < 2 ? dims : 1;
    }
    need += 3 * triples;
    const unsigned axes = static_cast<unsigned>(need);
    if (flags & 0x10) need += dims;
    const bool axis_refs = (flags & 0x10) && !(flags & 0x20);
    if (axis_refs) need += 3ull * dims;
    if (flags & 0x20) bytes += 8 * sum;
    if (storage != 0) bytes += 8 * prod;
    if (b.links != need) return Err(from + Fmt(": CA has %llu links, its flags ask for %llu", (unsigned long long)b.links, (unsigned long long)need));
    if (dp + bytes > b.pos + b.len) return Err(from + ": CA values do not fit in the block");
    for (unsigned i = 0; i < triples; ++i) Triple(b, refs + 3 * i, from + " CA");
    if (flags & 0x10) {
      for (unsigned i = 0; i < dims; ++i) {
        if (!Cc(Link(b, axes + i), from + " CA axis")) return false;
        if (axis_refs) Triple(b, axes + dims + 3 * i, from + " CA axis");
      }
    }
    return true;
  }
  bool Ch(uint64_t pos, const std::string& from, int depth = 0) {
    std::set<uint64_t> visited;
    int n = 0;
    while (pos != 0) {
      if (!visited.insert(pos).second || depth > 20) return Err(from + ": hierarchy is endless");
      const auto me = from + Fmt(" CH%d", n++);
      Blk b;
      if (!Block(pos, "CH", me, &b)) return false;
      const auto cnt = Get<uint32_t>(Data(b));
      if (b.links != 4 + 3ull * cnt) return Err(me + Fmt(": %u elements, %llu links", cnt, (unsigned long long)b.links));
      if (!Text(b, 2, me) || !Text(b, 3, me)) return false;
      for (unsigned i = 0; i < cnt; ++i) Triple(b, 4 + 3 * i, me);
      if (!Ch(Link(b, 1), me, depth + 1)) return false;
      pos = Link(b, 0);
    }
    return true;
  }
  bool Ev(const Blk& b, const std::string& m) {
    if (!Text(b, 3, m) || !Text(b, 4, m)) return false;
    Refer(b, 1, "EV", m);
    Refer(b, 2, "EV", m);
    const auto dp = Data(b);
    const auto flags = Get<uint8_t>(dp + 4);
    const auto scopes = Get<uint32_t>(dp + 8);
    const auto att = Get<uint16_t>(dp + 12);
    const uint64_t need = 5 + static_cast<uint64_t>(scopes) + att;
    if (b.links < need || b.links > need + 1) return Err(m + Fmt(": %u scopes, %u attachments, %llu links", scopes, att, (unsigned long long)b.links));
    for (unsigned i = 0; i < scopes; ++i) Refer(b, 5 + i, "CN CG", m);
    for (unsigned i = 0; i < att; ++i) Refer(b, 5 + scopes + i, "AT", m);
    if ((flags & 2) && b.links > need && !Text(b, static_cast<unsigned>(need), m)) return false;
    return true;
  }
  struct Cn {
    uint64_t pos;
    uint8_t type;
    uint32_t byte_off;
    uint64_t data;
    std::string where;
  };
  bool CnList(uint64_t pos, const std::string& from, std::vector<Cn>& list, uint64_t data_bytes, uint32_t inval, int depth = 0) {
    std::set<uint64_t> visited;
    int n = 0;
    while (pos != 0) {
      if (!visited.insert(pos).second || depth > 8) return Err(from + ": channel list is endless");
      const auto me = from + Fmt(" CN%d", n++);
      Blk b;
      if (!Block(pos, depth ? "CN CA" : "CN", me, &b)) return false;
      if (b.id == "##CA") return Ca(b, me) && (Link(b, 0) == 0 || CnList(Link(b, 0), me, list, data_bytes, inval, depth + 1));
      if (b.links < 8) return Err(me + ": too few links");
      if (!Text(b, 2, me) || !Si(Link(b, 3), me) || !Cc(Link(b, 4), me) || !Text(b, 6, me) || !Text(b, 7, me)) return false;
      if (Link(b, 2) == 0) return Err(me + ": no name");
      const auto dp = Data(b);
      Cn cn{pos, Get<uint8_t>(dp), Get<uint32_t>(dp + 4), Link(b, 5), me};
      const auto bits = Get<uint32_t>(dp + 8);
      if (cn.type != 3 && cn.type != 6 && bits != 0 && static_cast<uint64_t>(cn.byte_off) + (Get<uint8_t>(dp + 3) + bits + 7) / 8 > data_bytes) {
        return Err(me + Fmt(": value lies outside the record (offset %u, %u bits, record %llu bytes)", cn.byte_off, bits, (unsigned long long)data_bytes));
      }
      list.push_back(cn);
      const auto flags = Get<uint32_t>(dp + 12);
      const auto dt = Get<uint8_t>(dp + 2);
      if (cn.type > 7 || dt > 16) return Err(me + Fmt(": no such channel type %u or data type %u", cn.type, dt));
      if ((dt == 4 || dt == 5) && bits != 16 && bits != 32 && bits != 64) return Err(me + Fmt(": float of %u bits", bits));
      if ((flags & 2) && Get<uint32_t>(dp + 16) >= 8ull * inval) {
        return Err(me + Fmt(": invalidation bit %u, the record has %u invalidation bytes", Get<uint32_t>(dp + 16), inval));
      }
      const auto att = Get<uint16_t>(dp + 22);
      if (b.links < 8ull + att) return Err(me + ": links of attachments are missing");
      for (unsigned i = 0; i < att; ++i) Refer(b, 8 + i, "AT", me);
      if ((flags & 0x1000) && b.links < 11ull + att) return Err(me + ": links of the default x channel are missing");
      if (b.links >= 11ull + att) Triple(b, 8 + att, me);
      if (Link(b, 1) != 0 && !CnList(Link(b, 1), me, list, data_bytes, inval, depth + 1)) return false;
      pos = Link(b, 0);
    }
    return true;
  }
  struct Cg {
    uint64_t pos = 0, id = 0, cycles = 0, rec = 0, found = 0, stream = 0;
    uint32_t data_bytes = 0, inval = 0;
    bool vlsd = false;
    std::vector<Cn> cn;
    std::set<uint64_t> starts;  // VLSD entry starts
    std::vector<std::pair<uint64_t, uint64_t>> recs;  // start in data, unused
    std::string where;
  };
  bool Dg(const Blk& b, const std::string& from) {
    if (!Text(b, 3, from)) return false;
    const auto id_size = Get<uint8_t>(Data(b));
    if (id_size != 0 && id_size != 1 && id_size != 2 && id_size != 4 && id_size != 8) return Err(from + ": bad record id size");
    std::vector<Cg> cgs;
    std::set<uint64_t> visited;
    std::map<uint64_t, size_t> by_id, by_pos;
    for (uint64_t p = Link(b, 1); p != 0;) {
      if (!visited.insert(p).second) return Err(from + ": channel group list is endless");
      Cg g;
      g.where = from + Fmt(" CG%zu", cgs.size());
      Blk c;
      if (!Block(p, "CG", g.where, &c)) return false;
      if (c.links < 6) return Err(g.where + ": too few links");
      if (!Text(c, 2, g.where) || !Si(Link(c, 3), g.where) || !Text(c, 5, g.where)) return false;
      if (Link(c, 4) != 0 && !Block(Link(c, 4), "SR", g.where, nullptr)) return false;
      const auto dp = Data(c);
      g.pos = p;
      g.id = Get<uint64_t>(dp);
      g.cycles = Get<uint64_t>(dp + 8);
      g.vlsd = (Get<uint16_t>(dp + 16) & 1) != 0;
      g.data_bytes = Get<uint32_t>(dp + 24);
      g.inval = Get<uint32_t>(dp + 28);
      g.rec = static_cast<uint64_t>(g.data_bytes) + g.inval;
      if (g.vlsd && Link(c, 1) != 0) return Err(g.where + ": VLSD group has channels");
      if (!g.vlsd && !CnList(Link(c, 1), g.where, g.cn, g.data_bytes, g.inval)) return false;
      if (id_size != 0 && id_size < 8 && g.id >> (8 * id_size)) return Err(g.where + ": record id does not fit");
      if (!by_id.emplace(g.id, cgs.size()).second) return Err(g.where + ": record id used twice");
      by_pos[p] = cgs.size();
      cgs.push_back(g);
      p = Link(c, 0);
    }
    if (id_size == 0 && cgs.size() > 1) return Err(from + ": several groups without record id");
    std::string data;
    if (!Stream(Link(b, 2), "DT", from, &data)) return false;
    struct Ref { size_t cg; size_t cn; uint64_t off; };
    std::vector<Ref> refs;
    uint64_t p = 0;
    while (p < data.size()) {
      if (opt.unfinished && id_size == 0 && cgs.size() == 1 && cgs[0].found == cgs[0].cycles) break;
      uint64_t id = 0;
      if (id_size == 0) {
        if (cgs.empty()) return Err(from + ": data without a channel group");
        id = cgs[0].id;
      } else {
        if (p + id_size > data.size()) return Err(from + ": record id is cut off");
        memcpy(&id, data.data() + p, id_size);
        p += id_size;
      }
      const auto it = by_id.find(id);
      if (it == by_id.end()) return Err(from + Fmt(": record with unknown id %llu at %llu of %zu", (unsigned long long)id, (unsigned long long)p, data.size()));
      auto& g = cgs[it->second];
      if (g.vlsd) {
        uint32_t len = 0;
        if (p + 4 > data.size()) return Err(g.where + ": record is cut off");
        memcpy(&len, data.data() + p, 4);
        if (p + 4 + len > data.size()) return Err(g.where + ": record is cut off");
        g.starts.insert(g.stream);
        g.stream += 4 + static_cast<uint64_t>(len);
        p += 4 + static_cast<uint64_t>(len);
      } else {
        if (g.rec == 0) return Err(g.where + ": record size is zero");
        if (p + g.rec > data.size()) return Err(g.where + Fmt(": record %llu is cut off", (unsigned long long)g.found));
        for (size_t k = 0; k < g.cn.size(); ++k) {
          if (g.cn[k].type == 1 && g.cn[k].data != 0) {
            uint64_t off = 0;
            memcpy(&off, data.data() + p + g.cn[k].byte_off, 8);
            refs.push_back({it->second, k, off});
          }
        }
        p += g.rec;
      }
      ++g.found;
    }
    for (const auto& g : cgs) {
      if (g.found != g.cycles && !opt.unfinished) {
        return Err(g.where + Fmt(": counter says %llu, data holds %llu records", (unsigned long long)g.cycles, (unsigned long long)g.found));
      }
    }
    std::map<uint64_t, std::set<uint64_t>> sd;
    for (auto& g : cgs) {
      for (auto& cn : g.cn) {
        if (cn.data == 0 || cn.type != 1) continue;
        if (by_pos.count(cn.data)) {
          if (!cgs[by_pos[cn.data]].vlsd) return Err(cn.where + ": data link leads to a group without VLSD flag");
          continue;
        }
        std::string s;
        if (!Stream(cn.data, "SD", cn.where, &s)) return false;
        auto& st = sd[cn.pos];
        uint64_t q = 0;
        while (q < s.size()) {
          uint32_t len = 0;
          if (q + 4 > s.size()) return Err(cn.where + ": signal data is cut off");
          memcpy(&len, s.data() + q, 4);
          if (q + 4 + len > s.size()) return Err(cn.where + ": signal data is cut off");
          st.insert(q);
          q += 4 + static_cast<uint64_t>(len);
        }
      }
    }
    if (!opt.unfinished) {
      for (const auto& r : refs) {
        const auto& cn = cgs[r.cg].cn[r.cn];
        const auto& st = by_pos.count(cn.data) ? cgs[by_pos[cn.data]].starts : sd[cn.pos];
        if (!st.count(r.off)) return Err(cn.where + Fmt(": offset %llu is not the start of a value", (unsigned long long)r.off));
      }
    }
    return true;
  }
  bool List(uint64_t pos, const char* id, const char* name, const std::function<bool(const Blk&, const std::string&)>& each) {
    std::set<uint64_t> visited;
    int n = 0;
    while (pos != 0) {
      if (!visited.insert(pos).second) return Err(std::string(name) + " list is endless");
      Blk b;
      const auto me = std::string(name) + std::to_string(n++);
      if (!Block(pos, id, me, &b)) return false;
      if (!each(b, me)) return false;
      pos = Link(b, 0);
    }
    return true;
  }
  bool Run() {
    if (f.size() < 64 + 104) return Err("file is too short");
    if (f.compare(0, 8, "MDF     ") != 0) {
      if (!opt.unfinished || f.compare(0, 8, "UnFinMF ") != 0) return Err("file is not marked as finished MDF");
    } else if (Get<uint16_t>(60) != 0 || Get<uint16_t>(62) != 0) {
      return Err("finished file has unfinished flags set");
    }
    Blk hd;
    if (!Block(64, "HD", "HD", &hd)) return false;
    if (hd.links < 6) return Err("HD has too few links");
    if (!Text(hd, 5, "HD")) return false;
    if (!List(Link(hd, 0), "DG", "DG", [&](const Blk& b, const std::string& m) { return Dg(b, m); })) return false;
    if (!List(Link(hd, 1), "FH", "FH", [&](const Blk& b, const std::string& m) { return Text(b, 1, m); })) return false;
    if (!List(Link(hd, 3), "AT", "AT", [&](const Blk& b, const std::string& m) {
          if (!Text(b, 1, m) || !Text(b, 2, m) || !Text(b, 3, m)) return false;
          const auto dp = Data(b);
          const auto emb = Get<uint64_t>(dp + 32);
          if ((Get<uint16_t>(dp) & 1) && dp + 40 + emb > b.pos + b.len) return Err(m + ": embedded data does not fit in the block");
          return true;
        })) return false;
    if (!List(Link(hd, 4), "EV", "EV", [&](const Blk& b, const std::string& m) { return Ev(b, m); })) return false;
    if (!Ch(Link(hd, 2), "HD")) return false;
    for (const auto& r : later) {
      const auto it = seen.find(r.pos);
      if (it == seen.end() || strstr(r.ids, it->second.id.c_str() + 2) == nullptr) {
        return Err(r.from + Fmt(": %llx is not a %s block of the file", (unsigned long long)r.pos, r.ids));
      }
    }
    uint64_t end = 0, last = 0;
    for (const auto& [p, b] : seen) {
      if (p < end) return Err(Fmt("blocks %s at %llx and %s at %llx overlap", seen[last].id.c_str(), (unsigned long long)last, b.id.c_str(), (unsigned long long)p));
      end = p + b.len;
      last = p;
    }
    return true;
  }
};
uint64_t g_blocks = 0;
}  // namespace
std::string CheckStructure(const std::string& bytes, const StructOpt& opt) {
  uint16_t version = 0;
  if (bytes.size() >= 30) memcpy(&version, bytes.data() + 28, 2);
  if (version != 0 && version < 400) return CheckStructure3(bytes, &g_blocks);
  Walker w(bytes, opt);
  w.Run();
  g_blocks = w.seen.size();
  return w.err;
}
uint64_t StructBlocks() { return g_blocks; }
}  // namespace h
