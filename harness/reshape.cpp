// Rewrites the data blocks of a finished MDF 4 file the way another tool may have stored them: the same bytes, cut
// into blocks at arbitrary positions, plain, deflated or transposed and deflated, in one or several DL blocks.
#include <zlib.h>

#include <cstring>

#include "h.h"

namespace h {
namespace {
uint64_t U64(const std::string& b, size_t p) {
  uint64_t v = 0;
  if (p + 8 <= b.size()) memcpy(&v, b.data() + p, 8);
  return v;
}
uint32_t U32(const std::string& b, size_t p) {
  uint32_t v = 0;
  if (p + 4 <= b.size()) memcpy(&v, b.data() + p, 4);
  return v;
}
void P64(std::string& b, size_t p, uint64_t v) { memcpy(&b[p], &v, 8); }
std::string Id(const std::string& b, size_t p) { return p + 4 <= b.size() ? b.substr(p + 2, 2) : ""; }
uint64_t Link(const std::string& b, size_t p, size_t ix) { return U64(b, p + 24 + 8 * ix); }
size_t Data(const std::string& b, size_t p) { return p + 24 + 8 * static_cast<size_t>(U64(b, p + 16)); }

// The data bytes behind a link (DT, SD, DZ, DL, HL).
bool Collect(const std::string& b, uint64_t p, std::string& out) {
  const auto id = Id(b, p);
  if (id == "DT" || id == "SD") {
    const size_t d = Data(b, p);
    out += b.substr(d, static_cast<size_t>(p + U64(b, p + 8)) - d);
    return true;
  }
  if (id == "DZ") {
    const size_t d = Data(b, p);
    if (b[d + 2] != 0) return false;
    const uint64_t orig = U64(b, d + 8), len = U64(b, d + 16);
    std::string t(orig, '\0');
    uLongf n = orig;
    if (uncompress(reinterpret_cast<Bytef*>(&t[0]), &n, reinterpret_cast<const Bytef*>(b.data() + d + 24), len) != Z_OK || n != orig) return false;
    out += t;
    return true;
  }
  if (id == "HL") return Link(b, p, 0) == 0 || Collect(b, Link(b, p, 0), out);
  if (id == "DL") {
    for (; p != 0; p = Link(b, p, 0)) {
      const uint64_t n = U32(b, Data(b, p) + 4);
      for (uint64_t i = 0; i < n; ++i) if (!Collect(b, Link(b, p, 1 + i), out)) return false;
    }
    return true;
  }
  return false;
}
uint64_t Block(std::string& b, const char* id, const std::vector<uint64_t>& links, const std::string& data) {
  while (b.size() % 8) b.push_back('\0');
  const uint64_t pos = b.size();
  b += std::string("##") + id + std::string(4, '\0');
  std::string h(16 + 8 * links.size(), '\0');
  P64(h, 0, 24 + 8 * links.size() + data.size());
  P64(h, 8, links.size());
  for (size_t i = 0; i < links.size(); ++i) P64(h, 16 + 8 * i, links[i]);
  b += h + data;
  return pos;
}
uint64_t Store(std::string& b, const char* id, const std::string& part, int mode, uint32_t cols) {
  if (mode == 0 || part.empty()) return Block(b, id, {}, part);
  std::string src = part;
  if (mode == 2) {  // rows of `cols` bytes are stored column by column, the rest follows
    const size_t rows = part.size() / cols;
    for (size_t r = 0; r < rows; ++r) for (size_t k = 0; k < cols; ++k) src[k * rows + r] = part[r * cols + k];
  }
  uLongf n = compressBound(src.size());
  std::string z(n, '\0');
  compress(reinterpret_cast<Bytef*>(&z[0]), &n, reinterpret_cast<const Bytef*>(src.data()), src.size());
  z.resize(n);
  std::string d = std::string(id) + static_cast<char>(mode - 1) + '\0' + std::string(20, '\0');
  const uint32_t par = mode == 2 ? cols : 0;
  memcpy(&d[4], &par, 4);
  P64(d, 8, part.size());
  P64(d, 16, z.size());
  return Block(b, "DZ", {}, d + z);
}
// `rec` != 0: records of that size without ids, which may be stored as data values (DV, LD) cut between records
uint64_t List(Ctx& c, const std::string& p, std::string& b, const char* id, const std::string& data, uint64_t rec = 0) {
  const bool values = rec != 0 && c.B(p + "values", 50);
  if (values) id = "DV";
  // cuts
  std::vector<size_t> cut = {0};
  const int n = static_cast<int>(c.K(p + "cuts", 0, 6));
  for (int i = 0; i < n; ++i) cut.push_back(static_cast<size_t>(c.H(p + "cut" + std::to_string(i)) % data.size()));
  const uint64_t equal = !values && c.B(p + "equal", 20) ? std::max<uint64_t>(1 + data.size() / 12, 1 + c.H(p + "eqlen") % data.size()) : 0;
  if (equal != 0) {
    cut = {0};
    for (size_t i = equal; i < data.size(); i += equal) cut.push_back(i);
  } else if (c.B(p + "tiny", 30)) {  // several blocks inside one record
    const size_t at = static_cast<size_t>(c.H(p + "tinyat") % data.size());
    for (size_t i = 0; i < 5; ++i) if (at + i < data.size()) cut.push_back(at + i);
  }
  if (values) {
    for (auto& x : cut) x -= x % rec;
    c.count["data_value_lists"]++;
  }
  cut.push_back(data.size());
  std::sort(cut.begin(), cut.end());
  cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
  const auto style = c.K(p + "style", 0, 3);  // 3: mixed
  const size_t per = static_cast<size_t>(c.K(p + "perdl", 1, 8));
  struct Part {
    uint64_t link, off;
  };
  std::vector<Part> parts;
  for (size_t i = 0; i + 1 < cut.size(); ++i) {
    const auto part = data.substr(cut[i], cut[i + 1] - cut[i]);
    const int mode = style == 3 ? static_cast<int>(c.H(p + "m" + std::to_string(i)) % 3) : static_cast<int>(style);
    const auto cols = static_cast<uint32_t>(1 + c.H(p + "cols" + std::to_string(i)) % 40);
    parts.push_back({Store(b, id, part, cols > part.size() ? std::min(mode, 1) : mode, cols), cut[i]});
    c.count[mode == 0 ? "plain_blocks" : mode == 1 ? "deflated_blocks" : "transposed_blocks"]++;
  }
  if (parts.size() == 1 && c.B(p + "bare", 50)) return parts[0].link;
  // the chain of DL blocks is written last to first
  uint64_t next = 0;
  for (size_t i = (parts.size() + per - 1) / per; i-- > 0;) {
    std::vector<uint64_t> links = {next};
    std::string d(8, '\0');
    const size_t e = std::min(parts.size(), (i + 1) * per);
    const auto cnt = static_cast<uint32_t>(e - i * per);
    memcpy(&d[4], &cnt, 4);
    if (equal != 0) {
      d[0] = 1;
      d += std::string(8, '\0');
      P64(d, 8, equal);
      c.count["equal_length_lists"]++;
    }
    for (size_t k = i * per; k < e; ++k) {
      links.push_back(parts[k].link);
      if (equal != 0) continue;
      std::string o(8, '\0');
      P64(o, 0, values ? parts[k].off / rec : parts[k].off);
      d += o;
    }
    next = Block(b, values ? "LD" : "DL", links, d);
  }
  if (!values && style != 0 && c.B(p + "hl", 70)) {
    std::string d(8, '\0');
    d[2] = style == 2 ? 1 : 0;
    next = Block(b, "HL", {next}, d);
  }
  return next;
}
// Other record ids, in fields of another size, and another mix of the records of the groups.
struct Group {
  uint64_t cg, id, count, bytes;
  std::vector<std::string> rec;
};
bool Records(Ctx& c, const std::string& p, std::string& b, uint64_t dg, std::string& data, uint64_t& rec) {
  const size_t dd = Data(b, dg);
  const auto size = static_cast<size_t>(static_cast<unsigned char>(b[dd]));
  std::vector<Group> gs;
  for (uint64_t cg = Link(b, dg, 1); cg != 0; cg = Link(b, cg, 0)) {
    const size_t d = Data(b, cg);
    if (b[d + 16] & 1) return false;  // payload records
    gs.push_back({cg, U64(b, d), U64(b, d + 8), static_cast<uint64_t>(U32(b, d + 24)) + U32(b, d + 28), {}});
  }
  if (gs.size() > 200 || (size == 0 && gs.size() != 1)) return false;
  std::vector<size_t> order;
  for (size_t at = 0; at < data.size();) {
    uint64_t id = size == 0 ? gs[0].id : 0;
    if (at + size > data.size()) return false;
    memcpy(&id, data.data() + at, size);
    at += size;
    size_t g = 0;
    while (g < gs.size() && gs[g].id != id) ++g;
    if (g == gs.size() || gs[g].bytes == 0 || at + gs[g].bytes > data.size()) return false;
    gs[g].rec.push_back(data.substr(at, gs[g].bytes));
    at += gs[g].bytes;
    order.push_back(g);
  }
  static const size_t kSize[] = {1, 2, 4, 8};
  size_t ns = kSize[c.K(p + "idsize", 0, 3)];
  if (gs.size() == 1 && c.B(p + "noid", 30)) ns = 0;
  if (gs.size() > 1 && ns == 1) ns = gs.size() > 100 ? 2 : 1;
  const uint64_t top = ns >= 8 ? UINT64_MAX : (1ull << (8 * ns)) - 1;
  std::set<uint64_t> used;
  for (auto& g : gs) {
    if (ns == 0) break;
    uint64_t id = c.H(p + "id" + std::to_string(&g - &gs[0])) & top;
    if (c.B(p + "plainid", 40)) id = g.id & top;
    while (id == 0 || !used.insert(id).second) id = (id + 1) & top;
    g.id = id;
    P64(b, Data(b, g.cg), id);
  }
  b[dd] = static_cast<char>(ns);
  if (gs.size() > 1) {
    const auto mix = c.K(p + "mix", 0, 2);
    if (mix == 1) std::sort(order.begin(), order.end());
    if (mix == 2) {
      uint64_t r = c.H(p + "mixseed");
      for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[static_cast<size_t>((r = sim::Mix(r, i)) % i)]);
    }
  }
  std::vector<size_t> next(gs.size(), 0);
  data.clear();
  for (size_t g : order) {
    data.append(reinterpret_cast<const char*>(&gs[g].id), ns);
    data += gs[g].rec[next[g]++];
  }
  if (ns == 0 && U32(b, Data(b, gs[0].cg) + 28) == 0) rec = gs[0].bytes;
  c.count["idsize" + std::to_string(ns)]++;
  return true;
}
// A sample reduction beside the data: reading the channels must not notice.
void Reduction(Ctx& c, const std::string& p, std::string& b, uint64_t cg) {
  const size_t d = Data(b, cg);
  const uint64_t rec = static_cast<uint64_t>(U32(b, d + 24)) * 3 + U32(b, d + 28);
  const uint64_t n = static_cast<uint64_t>(c.K(p + "srn", 1, 5));
  std::string data;
  for (uint64_t i = 0; i < n * rec; ++i) data.push_back(static_cast<char>(sim::Mix(c.H(p + "sr"), i)));
  const uint64_t rd = Store(b, "RD", data, static_cast<int>(c.K(p + "srmode", 0, 1)), 1);
  std::string h(24, '\0');
  P64(h, 0, n);
  const double iv = 1.0;
  memcpy(&h[8], &iv, 8);
  h[16] = 1;
  P64(b, cg + 24 + 32, Block(b, "SR", {0, rd}, h));
  c.count["sample_reductions"]++;
}
}  // namespace

std::string Reshape(Ctx& c, const std::string& prefix, std::string b) {
  const uint64_t hd = 64;
  int d = 0;
  for (uint64_t dg = Link(b, hd, 0); dg != 0; dg = Link(b, dg, 0), ++d) {
    const auto p = prefix + "d" + std::to_string(d) + ".";
    std::string data;
    uint64_t rec = 0;
    if (Link(b, dg, 2) != 0 && Collect(b, Link(b, dg, 2), data) && !data.empty()) {
      if (c.B(p + "records", 50)) {
        const auto keep_b = b, keep_data = data;
        if (!Records(c, p, b, dg, data, rec)) b = keep_b, data = keep_data;
      }
      P64(b, dg + 24 + 16, List(c, p, b, "DT", data, rec));
    }
    int g = 0;
    for (uint64_t cg = Link(b, dg, 1); cg != 0; cg = Link(b, cg, 0), ++g) {
      if (Link(b, cg, 4) == 0 && c.B(p + "red" + std::to_string(g), 15)) Reduction(c, p + "g" + std::to_string(g) + ".", b, cg);
      int k = 0;
      for (uint64_t cn = Link(b, cg, 1); cn != 0; cn = Link(b, cn, 0), ++k) {
        const uint64_t l = Link(b, cn, 5);
        std::string sd;
        if (l == 0 || Id(b, l) == "CG" || !Collect(b, l, sd) || sd.empty()) continue;
        P64(b, cn + 24 + 40, List(c, p + "g" + std::to_string(g) + "c" + std::to_string(k) + ".", b, "SD", sd));
      }
    }
  }
  return b;
}
}  // namespace h
