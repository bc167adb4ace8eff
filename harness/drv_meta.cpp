// C16: everything that describes the measurement comes back as it was set.
#include <algorithm>
#include <cmath>

#include "h.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/isourceinformation.h"

using namespace mdf;
namespace h {

namespace {
struct Exp {
  std::string what;
  std::function<std::string(const IHeader&)> get;
  std::string want;
  bool head = false;  // about the file header itself
};
struct Meta {
  World* w = nullptr;
  sim::Rng r{1};
  std::vector<Exp> ex;
  std::vector<size_t> dgs;  // global data group index per (session, dg) in order
  int session = 0;
};

std::string N(double v) { return Fmt("%.17g", v); }
std::string I(int64_t v) { return std::to_string(v); }
std::string Hex(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch >= 32 && ch < 127) o += static_cast<char>(ch);
    else o += Fmt("\\x%02x", ch);
  }
  return o;
}

// Texts with markup characters, several scripts and inner white space; never empty, never white space at the ends.
bool g_long = false;  // some texts are long
std::string Text(sim::Rng& r, size_t max = 40, bool lines = false) {
  if (g_long && max >= 30 && r.Below(60) == 0) max = r.Below(8) == 0 ? 70'000 : 3'000;
  static const char* const kPiece[] = {"<", ">", "&", "\"", "'", "&amp;", "]]>", "<TX>", "</TX>", "%s", "\xc3\xa5", "\xe6\xb8\xac",
                                       "\xf0\x9f\x9a\x97", " ", "\\", "/", ":", ";", "#", "=", "-->", "0", "\xc2\xb0""C"};
  std::string s(1, static_cast<char>('a' + r.Below(26)));
  const size_t n = 1 + r.Below(max);
  while (s.size() + 6 < n) {
    if (r.Below(3) == 0) s += kPiece[r.Below(sizeof(kPiece) / sizeof(kPiece[0]))];
    else if (lines && r.Below(12) == 0) s += "\n";
    else s += static_cast<char>('a' + r.Below(26));
  }
  s += static_cast<char>('A' + r.Below(26));
  return s;
}
double Num(sim::Rng& r) {
  switch (r.Below(5)) {
    case 0: return static_cast<double>(r.Below(2000)) - 1000.0;
    case 1: return (static_cast<double>(r.Below(2000001)) - 1e6) / 1024.0;
    case 2: return std::ldexp(static_cast<double>(r.Below(1u << 20)) + 1.0, static_cast<int>(r.Below(100)) - 50);
    case 3: return -std::ldexp(static_cast<double>(r.Below(1u << 20)) + 1.0, static_cast<int>(r.Below(60)) - 30);
    default: return static_cast<double>(r.Below(1000000));
  }
}

using DgGet = std::function<const IDataGroup*(const IHeader&)>;
using CgGet = std::function<const IChannelGroup*(const IHeader&)>;
using CnGet = std::function<IChannel*(const IHeader&)>;
using EvGet = std::function<const IEvent*(const IHeader&)>;

template <typename G, typename F>
void Want(Meta& m, const std::string& what, const G& obj, F f, const std::string& want) {
  Exp e;
  e.what = Fmt("session %d %s", m.session, what.c_str());
  e.want = want;
  e.get = [obj, f](const IHeader& h) -> std::string {
    auto* o = obj(h);
    if (o == nullptr) return "(object missing)";
    return f(*o);
  };
  m.ex.push_back(std::move(e));
}
template <typename F>
void WantH(Meta& m, const std::string& what, F f, const std::string& want) {
  Exp e;
  e.what = Fmt("session %d %s", m.session, what.c_str());
  e.want = want;
  e.head = true;
  e.get = [f](const IHeader& h) -> std::string { return f(h); };
  m.ex.push_back(std::move(e));
}

// A text of a comment with its attributes.
std::string AttrText(const MdStandardAttribute& a) {
  std::string o = std::to_string(a.HistoryIndex()) + "," + a.Language();
  for (const auto& [k, v] : a.CustomAttributes()) {
    if (k.compare(0, 4, "cust") == 0) o += "," + k + "=" + v;  // others repeat the members of the class
  }
  return o;
}
void AddAttr(sim::Rng& r, MdStandardAttribute& a) {
  if (r.Below(4) == 0) a.HistoryIndex(1 + r.Below(300));
  if (r.Below(4) == 0) a.Language(r.Below(2) ? "en" : "sv-SE");
  if (r.Below(4) == 0) a.AddCustomAttribute("cust" + std::to_string(r.Below(3)), Text(r, 30));
}
MdString Str(sim::Rng& r, std::string t) {
  MdString s(std::move(t));
  AddAttr(r, s);
  return s;
}
std::string StrText(const MdString& s) { return s.Text() + "(" + AttrText(s) + ")"; }

std::string NumText(const MdNumber& n) {
  auto opt = [](const std::optional<double>& v) { return v ? N(*v) : std::string("-"); };
  return N(n.Number<double>()) + "," + opt(n.Min()) + "," + opt(n.Max()) + "," + opt(n.Average()) + "," + n.Unit();
}

// Common properties of a comment.
struct Props {
  std::vector<std::string> keys;
  std::string want;
};
std::string OneProp(const MdProperty* p) {
  if (p == nullptr) return "missing";
  return p->Name() + "=" + p->Value<std::string>() + "," + p->Description() + "," + p->Unit() + "," + p->UnitReference() + "," + I(static_cast<int>(p->DataType())) + "," +
         (p->ReadOnly() ? "ro" : "rw") + "(" + AttrText(*p) + ")|";
}
std::string NameText(const MdAlternativeName& n) {
  std::string o;
  for (const auto* l : {&n.AlternativeNames(), &n.DisplayNames(), &n.Vendors(), &n.Descriptions()}) {
    for (const auto& x : *l) o += StrText(x) + ",";
    o += ";";
  }
  return o;
}
template <typename C>
Props AddProps(Meta& m, C& c) {
  auto& r = m.r;
  Props p;
  const size_t n = r.Below(4);
  for (size_t k = 0; k < n; ++k) {
    std::string key = "k" + std::to_string(k) + Text(r, 14), val = Text(r, 30);
    std::replace(key.begin(), key.end(), '/', '-');  // a slash separates levels
    MdProperty x(key, val);
    if (r.Below(2)) {
      if (r.Below(2)) x.Description(Text(r, 30));
      if (r.Below(2)) x.Unit(Text(r, 10));
      if (r.Below(4) == 0) x.UnitReference(Text(r, 10));
      if (r.Below(2)) x.DataType(static_cast<MdDataType>(r.Below(7)));
      if (r.Below(2)) x.ReadOnly(true);
      AddAttr(r, x);
    }
    p.want += OneProp(&x);
    c.AddProperty(x);
    p.keys.push_back(key);
  }
  constexpr bool names = !std::is_same_v<C, HdComment> && !std::is_same_v<C, EvComment>;  // not part of these comments
  if (names && r.Below(4) == 0) {
    auto& a = c.Names();
    const auto k = r.Below(4);
    if (r.Below(2)) a.AddAlternativeName(Str(r, Text(r, 30)));
    if (k > 0) a.AddDisplayName(Str(r, Text(r, 30)));
    if (k > 1) a.AddVendor(Str(r, Text(r, 30)));
    if (k > 2) a.AddDescription(Str(r, Text(r, 30)));
  }
  p.want += NameText(c.Names());
  return p;
}
template <typename C>
std::string PropText(const C& c, const Props& p) {
  std::string o;
  for (const auto& k : p.keys) o += OneProp(c.GetProperty(k));
  return o + NameText(c.Names());
}
std::string PropWant(const Props& p) { return p.want; }

template <typename G>
void Source(Meta& m, const std::string& what, ISourceInformation* si, const G& get) {
  if (si == nullptr) Bad("APIFAIL", what + ": no source information");
  auto& r = m.r;
  const auto t = static_cast<SourceType>(r.Below(6));
  const auto b = static_cast<BusType>(r.Below(9));
  const std::string name = Text(r), path = Text(r);
  si->Type(t);
  si->Bus(b);
  si->Name(name);
  si->Path(path);
  const uint8_t fl = static_cast<uint8_t>(r.Below(2));
  si->Flags(fl);
  Want(m, what + " source name", get, [](const ISourceInformation& s) { return s.Name(); }, name);
  Want(m, what + " source path", get, [](const ISourceInformation& s) { return s.Path(); }, path);
  Want(m, what + " source type", get, [](const ISourceInformation& s) { return I(static_cast<int>(s.Type())); }, I(static_cast<int>(t)));
  Want(m, what + " source bus", get, [](const ISourceInformation& s) { return I(static_cast<int>(s.Bus())); }, I(static_cast<int>(b)));
  Want(m, what + " source flags", get, [](const ISourceInformation& s) { return I(s.Flags()); }, I(fl));
  if (r.Below(2) == 0) {
    const std::string d = Text(r, 60, true);
    si->Description(d);
    Want(m, what + " source description", get, [](const ISourceInformation& s) { return s.Description(); }, d);
  } else if (r.Below(2) == 0) {
    const std::string d = Text(r, 60, true), proto = Text(r);
    SiComment c(d);
    const MdString pr = Str(r, proto);
    c.Protocol(pr);
    const Props p = AddProps(m, c);
    si->SetSiComment(c);
    Want(m, what + " source comment", get, [p](const ISourceInformation& s) {
      SiComment g;
      s.GetSiComment(g);
      return g.Comment().Text() + "|" + StrText(g.Protocol()) + "|" + PropText(g, p);
    }, d + "|" + StrText(pr) + "|" + PropWant(p));
  }
}

void Conversion(Meta& m, const std::string& what, IChannelConversion* cc, const std::function<IChannelConversion*(const IHeader&)>& get,
                bool plain, int depth) {
  auto& r = m.r;
  if (cc == nullptr) Bad("APIFAIL", what + ": no conversion");
  const bool mdf4 = m.w->wtype != 0;
  if (!plain) {
    // The values are not read through this one: any type will do.
    static const ConversionType k4[] = {ConversionType::Linear, ConversionType::Rational, ConversionType::Algebraic,
                                        ConversionType::ValueToValueInterpolation, ConversionType::ValueToValue,
                                        ConversionType::ValueRangeToValue, ConversionType::ValueToText,
                                        ConversionType::ValueRangeToText, ConversionType::TextToValue,
                                        ConversionType::TextToTranslation};
    static const ConversionType k3[] = {ConversionType::Linear, ConversionType::Rational, ConversionType::Algebraic,
                                        ConversionType::ValueToValueInterpolation, ConversionType::ValueToValue,
                                        ConversionType::Polynomial, ConversionType::Exponential, ConversionType::Logarithmic};
    const ConversionType t = mdf4 ? k4[r.Below(10)] : k3[r.Below(8)];
    cc->Type(t);
    uint16_t np = 0, nr = 0;
    const uint16_t k = static_cast<uint16_t>(1 + r.Below(5));
    switch (t) {
      case ConversionType::Linear: np = 2; break;
      case ConversionType::Rational: np = 6; break;
      case ConversionType::Polynomial: np = 6; break;
      case ConversionType::Exponential:
      case ConversionType::Logarithmic: np = 7; break;
      case ConversionType::ValueToValueInterpolation:
      case ConversionType::ValueToValue: np = static_cast<uint16_t>(2 * k); break;
      case ConversionType::ValueRangeToValue: np = static_cast<uint16_t>(3 * k + 1); break;
      case ConversionType::ValueToText: np = k; nr = static_cast<uint16_t>(k + 1); break;
      case ConversionType::ValueRangeToText: np = static_cast<uint16_t>(2 * k); nr = static_cast<uint16_t>(k + 1); break;
      case ConversionType::TextToValue: nr = k; np = static_cast<uint16_t>(k + 1); break;
      case ConversionType::TextToTranslation: nr = static_cast<uint16_t>(2 * k + 1); break;
      default: break;
    }
    ++m.w->c->count[Fmt("conv%d_%d", mdf4 ? 4 : 3, static_cast<int>(t))];
    std::string want = I(static_cast<int>(t)) + ":";
    for (uint16_t i = 0; i < np; ++i) {
      const double v = Num(r);
      cc->Parameter(i, v);
      want += N(v) + ",";
    }
    for (uint16_t i = 0; i < nr; ++i) {
      const std::string v = Text(r, 30);
      cc->Reference(i, v);
      want += v + "|";
    }
    if (t == ConversionType::Algebraic) {
      const std::string v = Text(r, 50);
      cc->Formula(v);
      want += v;
    }
    Want(m, what + " conversion rule", get, [np, nr, t](const IChannelConversion& c) {
      std::string o = I(static_cast<int>(c.Type())) + ":";
      for (uint16_t i = 0; i < np; ++i) o += N(c.Parameter(i)) + ",";
      for (uint16_t i = 0; i < nr; ++i) o += c.Reference(i) + "|";
      if (t == ConversionType::Algebraic) o += c.Formula();
      return o;
    }, want);
  }
  if (!mdf4) return;
  if (r.Below(2)) {
    const std::string v = Text(r);
    cc->Name(v);
    Want(m, what + " conversion name", get, [](const IChannelConversion& c) { return c.Name(); }, v);
  }
  if (r.Below(2)) {
    const std::string v = Text(r, 20);
    cc->Unit(v);
    Want(m, what + " conversion unit", get, [](const IChannelConversion& c) { return c.Unit(); }, v);
  }
  if (r.Below(2)) {
    const std::string v = Text(r, 60, true);
    cc->Description(v);
    Want(m, what + " conversion description", get, [](const IChannelConversion& c) { return c.Description(); }, v);
  } else if (r.Below(2)) {
    const std::string v = Text(r, 60, true);
    CcComment c(v);
    const Props p = AddProps(m, c);
    cc->SetCcComment(c);
    Want(m, what + " conversion comment", get, [p](const IChannelConversion& x) {
      CcComment g;
      x.GetCcComment(g);
      return g.Comment().Text() + "|" + PropText(g, p);
    }, v + "|" + PropWant(p));
  }
  std::string decimals = "none", crange = "none";
  if (r.Below(2)) {
    const uint8_t v = static_cast<uint8_t>(r.Below(15));
    cc->Decimals(v);
    decimals = I(v);
  }
  Want(m, what + " conversion decimals", get, [](const IChannelConversion& c) { return c.IsDecimalUsed() ? I(c.Decimals()) : "none"; }, decimals);
  if (r.Below(2)) {
    const double a = Num(r), b = a + 1 + std::fabs(a);
    cc->Range(a, b);
    crange = N(a) + ".." + N(b);
  }
  Want(m, what + " conversion range", get, [](const IChannelConversion& c) {
    const auto x = c.Range();
    return x ? N(x->first) + ".." + N(x->second) : "none";
  }, crange);
  if (depth == 0 && r.Below(4) == 0) {
    Conversion(m, what + " inverse", cc->CreateInverse(), [get](const IHeader& h) -> IChannelConversion* {
      auto* c = get(h);
      return c == nullptr ? nullptr : c->Inverse();
    }, false, 1);
  }
}

void Channel(Meta& m, const std::string& what, IChannel* cn, const CnGet& get, const ChSpec* cs, bool master) {
  auto& r = m.r;
  const bool mdf4 = m.w->wtype != 0;
  auto range = [&](const char* nm, void (IChannel::*set)(double, double), std::optional<std::pair<double, double>> (IChannel::*g)() const) {
    std::string want = "none";
    if (r.Below(3) == 0) {
      const double a = Num(r), b = a + 1 + std::fabs(a);
      (cn->*set)(a, b);
      want = N(a) + ".." + N(b);
    }
    Want(m, what + " " + nm, get, [g](const IChannel& c) {
      const auto x = (c.*g)();
      return x ? N(x->first) + ".." + N(x->second) : std::string("none");
    }, want);
  };
  if (mdf4) range("range", static_cast<void (IChannel::*)(double, double)>(&IChannel::Range), static_cast<std::optional<std::pair<double, double>> (IChannel::*)() const>(&IChannel::Range));
  if (!mdf4 && r.Below(3) == 0) {  // no display names in MDF 4
    const std::string v = Text(r, 60);
    cn->DisplayName(v);
    Want(m, what + " display name", get, [](const IChannel& c) { return c.DisplayName(); }, v);
  }
  if (!mdf4) {
    if (r.Below(3) == 0 && !master) {
      const double v = std::ldexp(1.0, static_cast<int>(r.Below(20)) - 10);
      cn->SamplingRate(v);
      Want(m, what + " sampling rate", get, [](const IChannel& c) { return N(c.SamplingRate()); }, N(v));
    }
  } else {
    range("limit", static_cast<void (IChannel::*)(double, double)>(&IChannel::Limit), static_cast<std::optional<std::pair<double, double>> (IChannel::*)() const>(&IChannel::Limit));
    range("extended limit", static_cast<void (IChannel::*)(double, double)>(&IChannel::ExtLimit), static_cast<std::optional<std::pair<double, double>> (IChannel::*)() const>(&IChannel::ExtLimit));
    if (r.Below(3) == 0) {
      const uint8_t v = static_cast<uint8_t>(r.Below(20));
      cn->Decimals(v);
      Want(m, what + " decimals", get, [](const IChannel& c) { return c.IsDecimalUsed() ? I(c.Decimals()) : "none"; }, I(v));
    }
    if (r.Below(3) == 0) {
      Source(m, what, cn->CreateSourceInformation(), [get](const IHeader& h) -> const ISourceInformation* {
        auto* c = get(h);
        return c == nullptr ? nullptr : c->SourceInformation();
      });
    }
    if (r.Below(3) == 0) {
      const std::string u = Text(r, 20);
      CnUnit cu(u);
      cn->SetCnUnit(cu);
      Want(m, what + " unit", get, [](const IChannel& c) { return c.Unit(); }, u);
    }
    if (r.Below(2) == 0) {
      const std::string d = Text(r, 80, true), ln = Text(r);
      CnComment c(d);
      const MdString lk = Str(r, ln);
      c.LinkerName(lk);
      const uint64_t adr = r.Below(1ull << 40);
      c.Address(MdNumber(adr, MdDataType::MdInteger));
      std::string raster;
      if (r.Below(2)) {
        MdNumber ra(static_cast<double>(r.Below(1000)) / 8.0);
        if (r.Below(2)) ra.Min(static_cast<double>(r.Below(100)) / 4.0);
        if (r.Below(2)) ra.Max(static_cast<double>(r.Below(1000)) / 4.0);
        if (r.Below(2)) ra.Average(static_cast<double>(r.Below(1000)) / 16.0);
        if (r.Below(2)) ra.Unit(Text(r, 10));
        raster = NumText(ra);
        c.Raster(ra);
      }
      const auto mono = static_cast<MdMonotony>(r.Below(7));
      c.AxisMonotony(mono);
      const Props p = AddProps(m, c);
      cn->SetCnComment(c);
      Want(m, what + " comment", get, [p](const IChannel& x) {
        CnComment g;
        x.GetCnComment(g);
        return g.Comment().Text() + "|" + StrText(g.LinkerName()) + "|" + std::to_string(g.Address().Number<uint64_t>()) + "|" + (g.Raster().IsActive() ? NumText(g.Raster()) : "") + "|" + I(static_cast<int>(g.AxisMonotony())) + "|" + PropText(g, p);
      }, d + "|" + StrText(lk) + "|" + std::to_string(adr) + "|" + raster + "|" + I(static_cast<int>(mono)) + "|" + PropWant(p));
      Want(m, what + " description", get, [](const IChannel& c) { return c.Description(); }, d);
    }
    if (cs != nullptr && r.Below(8) == 0) {
      const uint32_t extra = (r.Below(2) ? CnFlag::Discrete : 0) | (r.Below(2) ? CnFlag::Calibration : 0) | (r.Below(2) ? CnFlag::Calculated : 0);
      cn->Flags(cn->Flags() | extra);
      Want(m, what + " flags", get, [extra](const IChannel& c) { return I(c.Flags() & extra); }, I(extra));
    }
  }
  if (!master && cs != nullptr) {
    auto cget = [get](const IHeader& h) -> IChannelConversion* {
      auto* c = get(h);
      return c == nullptr ? nullptr : c->ChannelConversion();
    };
    // Byte arrays are read without conversion whatever the rule says.
    if (cs->conv == 1 && r.Below(2)) Conversion(m, what, cn->ChannelConversion(), cget, true, 0);
    else if (cs->conv == 0 && (mdf4 ? IsBytes(cs->dt) : IsBytes(cs->dt) || IsText(cs->dt)) && r.Below(2)) Conversion(m, what, cn->CreateChannelConversion(), cget, false, 0);
  }
}

void Config(Meta& m, World& w, int s) {
  m.session = s;
  m.r = sim::Rng(sim::Mix(w.c->wseed, 1616, static_cast<uint64_t>(s)));
  auto& r = m.r;
  auto* hd = w.writer->Header();
  const bool mdf4 = w.wtype != 0;
  const auto dgl = hd->DataGroups();
  const size_t ndg = w.ses[static_cast<size_t>(s)].dg.size();
  const size_t base = dgl.size() - ndg;
  struct Ref {
    size_t d, g, n;
    IDataGroup* dg;
    IChannelGroup* cg;
    IChannel* cn;
  };
  std::vector<Ref> refs;
  if (mdf4 && (s == 0 || !w.have_first)) {
    // set again as long as nothing is recorded
    m.ex.erase(std::remove_if(m.ex.begin(), m.ex.end(), [](const Exp& e) { return e.head; }), m.ex.end());
    const std::string au = hd->Author();
    WantH(m, "author", [](const IHeader& h) { return h.Author(); }, au);
    if (r.Below(2)) {
      const double v = Num(r);
      hd->StartAngle(v);
      WantH(m, "start angle", [](const IHeader& h) { return h.StartAngle() ? N(*h.StartAngle()) : "none"; }, N(v));
    }
    if (r.Below(2)) {
      const double v = Num(r);
      hd->StartDistance(v);
      WantH(m, "start distance", [](const IHeader& h) { return h.StartDistance() ? N(*h.StartDistance()) : "none"; }, N(v));
    }
    if (r.Below(2)) {
      const int64_t v = static_cast<int64_t>(r.Below(1000000));
      const std::string u = Text(r);
      hd->RecorderId(u);
      hd->RecorderIndex(v);
      WantH(m, "recorder", [](const IHeader& h) { return h.RecorderId() + "|" + I(h.RecorderIndex()); }, u + "|" + I(v));
    }
    if (r.Below(2)) {
      HdComment c;
      hd->GetHdComment(c);
      const std::string ts = Text(r), cn = Text(r, 10), ce = Text(r);
      const MdString tsrc = Str(r, ts);
      c.TimeSource(tsrc);
      c.AddConstant(MdString(cn), ce);
      const Props p = AddProps(m, c);
      hd->SetHdComment(c);
      WantH(m, "header comment", [p, cn](const IHeader& h) {
        HdComment g;
        h.GetHdComment(g);
        std::string o = StrText(g.TimeSource()) + "|";
        for (const auto& k : g.Constants()) o += k.first.Text() + "=" + k.second + "|";
        return o + PropText(g, p);
      }, StrText(tsrc) + "|" + cn + "=" + ce + "|" + PropWant(p));
    }
  }
  for (size_t d = 0; d < ndg; ++d) {
    const size_t gd = base + d;
    auto* dg = dgl[gd];
    DgGet dget = [gd](const IHeader& h) -> const IDataGroup* {
      const auto l = h.DataGroups();
      return gd < l.size() ? l[gd] : nullptr;
    };
    const std::string wd = Fmt("DG%zu", d);
    if (mdf4 && r.Below(3) == 0) {
      const std::string t = w.ses[static_cast<size_t>(s)].dg[d].desc;
      DgComment c(t);
      const Props p = AddProps(m, c);
      dg->SetDgComment(c);
      Want(m, wd + " comment", dget, [p](const IDataGroup& x) {
        DgComment g;
        x.GetDgComment(g);
        return g.Comment().Text() + "|" + PropText(g, p);
      }, t + "|" + PropWant(p));
    }
    const auto cgl = dg->ChannelGroups();
    for (size_t g = 0; g < cgl.size(); ++g) {
      auto* cg = cgl[g];
      CgGet gget = [dget, g](const IHeader& h) -> const IChannelGroup* {
        const auto* x = dget(h);
        if (x == nullptr) return nullptr;
        const auto l = x->ChannelGroups();
        return g < l.size() ? l[g] : nullptr;
      };
      const std::string wg = wd + Fmt(" CG%zu", g);
      if (mdf4) {
        if (r.Below(3) == 0) {
          const char16_t sep = static_cast<char16_t>(r.Below(2) ? '.' : '\\');
          cg->PathSeparator(sep);
          Want(m, wg + " path separator", gget, [](const IChannelGroup& x) { return I(x.PathSeparator()); }, I(sep));
        }
        if (r.Below(3) == 0) {
          const std::string t = w.ses[static_cast<size_t>(s)].dg[d].cg[g].desc;
          CgComment c;
          c.Comment(t);
          const Props p = AddProps(m, c);
          cg->SetCgComment(c);
          Want(m, wg + " comment", gget, [p](const IChannelGroup& x) {
            CgComment cc;
            x.GetCgComment(cc);
            return cc.Comment().Text() + "|" + PropText(cc, p);
          }, t + "|" + PropWant(p));
        }
        if (r.Below(3) == 0 && !w.ses[static_cast<size_t>(s)].dg[d].cg[g].source) {
          Source(m, wg, cg->CreateSourceInformation(), [gget](const IHeader& h) -> const ISourceInformation* {
            const auto* x = gget(h);
            return x == nullptr ? nullptr : x->SourceInformation();
          });
        }
      }
      const auto cnl = cg->Channels();
      const auto& cs = w.ses[static_cast<size_t>(s)].dg[d].cg[g];
      const size_t m0 = cs.master != 5 ? 1 : 0;
      for (size_t n = 0; n < cnl.size(); ++n) {
        CnGet nget = [gget, n](const IHeader& h) -> IChannel* {
          const auto* x = gget(h);
          if (x == nullptr) return nullptr;
          const auto l = x->Channels();
          return n < l.size() ? l[n] : nullptr;
        };
        const ChSpec* sp = n >= m0 && n - m0 < cs.ch.size() ? &cs.ch[n - m0] : nullptr;
        Channel(m, wg + Fmt(" CN%zu(%s)", n, cnl[n]->Name().c_str()), cnl[n], nget, sp, n < m0);
        refs.push_back({gd, g, n, dg, cg, cnl[n]});
      }
    }
  }
  if (!mdf4) return;
  auto where = [](const IHeader& h, const void* p) -> std::string {
    const auto dl = h.DataGroups();
    for (size_t d = 0; d < dl.size(); ++d) {
      if (static_cast<const void*>(dl[d]) == p) return Fmt("D%zu", d);
      const auto gl = dl[d]->ChannelGroups();
      for (size_t g = 0; g < gl.size(); ++g) {
        if (static_cast<const void*>(gl[g]) == p) return Fmt("D%zuG%zu", d, g);
        const auto nl = gl[g]->Channels();
        for (size_t n = 0; n < nl.size(); ++n) if (static_cast<const void*>(nl[n]) == p) return Fmt("D%zuG%zuN%zu", d, g, n);
      }
    }
    return p == nullptr ? "null" : "unknown";
  };
  auto pick = [&]() -> Ref& { return refs[r.Below(refs.size())]; };
  // default x axis of a channel
  for (auto& x : refs) {
    if (r.Below(6)) continue;
    Ref& y = pick();
    if (y.cn == x.cn) continue;
    ElementLink l;
    l.data_group = y.dg;
    l.channel_group = y.cg;
    l.channel = y.cn;
    x.cn->DefaultX(l);
    const Ref xc = x;
    Want(m, Fmt("DG%zu CG%zu CN%zu default x", x.d - base, x.g, x.n), CnGet([xc](const IHeader& h) -> IChannel* {
      const auto dl = h.DataGroups();
      return xc.d < dl.size() && xc.g < dl[xc.d]->ChannelGroups().size() && xc.n < dl[xc.d]->ChannelGroups()[xc.g]->Channels().size()
                 ? dl[xc.d]->ChannelGroups()[xc.g]->Channels()[xc.n] : nullptr;
    }), [](const IChannel& c) {
      const auto e = c.DefaultX();
      return e.channel == nullptr ? std::string("null") : e.channel->ChannelGroup()->Name() + "/" + e.channel->Name();
    }, y.cg->Name() + "/" + y.cn->Name());
  }
  // arrays: axis values and references to other channels
  for (auto& x : refs) {
    const auto cal = x.cn->ChannelArrays();
    if (cal.empty() || r.Below(3) == 0) continue;
    auto* ca = cal[0];
    const Ref xc = x;
    auto aget = [xc](const IHeader& h) -> IChannelArray* {
      const auto dl = h.DataGroups();
      if (xc.d >= dl.size() || xc.g >= dl[xc.d]->ChannelGroups().size()) return nullptr;
      const auto nl = dl[xc.d]->ChannelGroups()[xc.g]->Channels();
      if (xc.n >= nl.size()) return nullptr;
      const auto al = nl[xc.n]->ChannelArrays();
      return al.empty() ? nullptr : al[0];
    };
    const std::string wa = Fmt("DG%zu CG%zu CN%zu array", x.d - base, x.g, x.n);
    uint32_t fl = 0;
    for (const uint32_t f : {CaFlag::InputQuantity, CaFlag::OutputQuantity, CaFlag::ComparisonQuantity, CaFlag::Axis, CaFlag::FixedAxis,
                             CaFlag::InverseLayout, CaFlag::LeftOpenInterval, CaFlag::DynamicSize}) {
      if (r.Below(3) == 0) fl |= f;
    }
    ca->Flags(fl);
    ca->ResizeArrays();
    Want(m, wa + " flags", aget, [](const IChannelArray& a) { return I(a.Flags()) + "/" + I(static_cast<int>(a.Dimensions())) + "/" + I(static_cast<int64_t>(a.DimensionSize(0))); },
         I(fl) + "/" + I(static_cast<int>(ca->Shape().size())) + "/" + I(static_cast<int64_t>(ca->Shape()[0])));
    const size_t dims = ca->Shape().size();
    if (fl & CaFlag::FixedAxis) {
      std::string want;
      for (auto& v : ca->AxisValues()) {
        v = Num(r);
        want += N(v) + ",";
      }
      Want(m, wa + " axis values", aget, [](const IChannelArray& a) {
        std::string o;
        for (const double v : a.AxisValues()) o += N(v) + ",";
        return o;
      }, want);
    }
    auto ref = [&](const char* nm, CaTripleReference& t, std::function<const CaTripleReference*(const IChannelArray&)> g) {
      Ref& y = pick();
      t.DataGroup = y.dg;
      t.ChannelGroup = y.cg;
      t.Channel = y.cn;
      Exp ex;
      ex.what = Fmt("session %d %s %s", s, wa.c_str(), nm);
      ex.want = Fmt("D%zu,D%zuG%zu,D%zuG%zuN%zu", y.d, y.d, y.g, y.d, y.g, y.n);
      ex.get = [aget, g, where](const IHeader& h) {
        const IChannelArray* a = aget(h);
        const auto* q = a == nullptr ? nullptr : g(*a);
        if (q == nullptr) return std::string("(missing)");
        return where(h, q->DataGroup) + "," + where(h, q->ChannelGroup) + "," + where(h, q->Channel);
      };
      m.ex.push_back(ex);
    };
    if (fl & CaFlag::DynamicSize) for (size_t j = 0; j < dims; ++j) ref("dynamic size", ca->DynamicSizeList().at(j), [j](const IChannelArray& a) { return a.DynamicSizeList().size() <= j ? nullptr : &a.DynamicSizeList()[j]; });
    if (fl & CaFlag::InputQuantity) for (size_t j = 0; j < dims; ++j) ref("input quantity", ca->InputQuantityList().at(j), [j](const IChannelArray& a) { return a.InputQuantityList().size() <= j ? nullptr : &a.InputQuantityList()[j]; });
    if (fl & CaFlag::OutputQuantity) ref("output quantity", ca->OutputQuantity(), [](const IChannelArray& a) { return &a.OutputQuantity(); });
    if (fl & CaFlag::ComparisonQuantity) ref("comparison quantity", ca->ComparisonQuantity(), [](const IChannelArray& a) { return &a.ComparisonQuantity(); });
    if ((fl & CaFlag::Axis) && !(fl & CaFlag::FixedAxis)) for (size_t j = 0; j < dims; ++j) ref("axis", ca->AxisList().at(j), [j](const IChannelArray& a) { return a.AxisList().size() <= j ? nullptr : &a.AxisList()[j]; });
    for (size_t j = 0; j < dims && (fl & CaFlag::Axis) != 0; ++j) {
      Ref& y = pick();
      const auto* cc = y.cn->ChannelConversion();
      if (cc != nullptr) {
        auto& l = ca->AxisConversionList();
        if (l.size() != dims) Bad("META", wa + ": no room for the axis conversion");
        l[j] = cc;
        const Ref yc = y;
        Exp ex;
        ex.what = Fmt("session %d %s axis conversion", s, wa.c_str());
        ex.want = "same";
        ex.get = [aget, yc, dims, j](const IHeader& h) -> std::string {
          const IChannelArray* a = aget(h);
          if (a == nullptr || a->AxisConversionList().size() != dims) return "(missing)";
          const auto* want = h.DataGroups()[yc.d]->ChannelGroups()[yc.g]->Channels()[yc.n]->ChannelConversion();
          return a->AxisConversionList()[j] == want ? "same" : a->AxisConversionList()[j] == nullptr ? "null" : "other";
        };
        m.ex.push_back(ex);
      }
    }
  }
  // attachment metadata (the content is C15)
  const size_t at0 = hd->Attachments().size();
  std::vector<IAttachment*> ats;
  for (size_t k = 0, n = r.Below(3); k < n; ++k) {
    auto* at = hd->CreateAttachment();
    if (at == nullptr) Bad("APIFAIL", "CreateAttachment returned null");
    const std::string fn = Fmt("w/none_%d_%zu.bin", s, k), ft = Text(r), d = Text(r, 60, true);
    at->FileName(fn);
    at->FileType(ft);
    at->IsEmbedded(false);
    AtComment c(d);
    const Props p = AddProps(m, c);
    at->SetAtComment(c);
    ats.push_back(at);
    const size_t ix = at0 + k;
    auto aget = [ix](const IHeader& h) -> const IAttachment* {
      const auto l = h.Attachments();
      return ix < l.size() ? l[ix] : nullptr;
    };
    Want(m, Fmt("attachment %zu", k), aget, [p](const IAttachment& a) {
      AtComment g;
      a.GetAtComment(g);
      return a.FileName() + "|" + a.FileType() + "|" + g.Comment().Text() + "|" + PropText(g, p);
    }, fn + "|" + ft + "|" + d + "|" + PropWant(p));
  }
  for (auto& x : refs) {
    if (ats.empty() || r.Below(6)) continue;
    const size_t k = r.Below(ats.size());
    x.cn->AddAttachmentReference(ats[k]);
    const Ref xc = x;
    Want(m, Fmt("DG%zu CG%zu CN%zu attachment", x.d - base, x.g, x.n), CnGet([xc](const IHeader& h) -> IChannel* {
      const auto dl = h.DataGroups();
      return xc.d < dl.size() && xc.g < dl[xc.d]->ChannelGroups().size() && xc.n < dl[xc.d]->ChannelGroups()[xc.g]->Channels().size()
                 ? dl[xc.d]->ChannelGroups()[xc.g]->Channels()[xc.n] : nullptr;
    }), [](const IChannel& c) {
      std::string o;
      for (const auto* a : c.AttachmentList()) o += a == nullptr ? "null" : a->FileName();
      return o;
    }, Fmt("w/none_%d_%zu.bin", s, k));
  }
  // hierarchies
  const size_t ch0 = hd->ChannelHierarchies().size();
  for (size_t k = 0, n = r.Below(3); k < n; ++k) {
    std::vector<size_t> path{ch0 + k};
    IChannelHierarchy* ch = hd->CreateChannelHierarchy();
    for (size_t depth = 0;; ++depth) {
      if (ch == nullptr) Bad("APIFAIL", "CreateChannelHierarchy returned null");
      auto cget = [path](const IHeader& h) -> const IChannelHierarchy* {
        auto l = h.ChannelHierarchies();
        const IChannelHierarchy* x = nullptr;
        for (const size_t i : path) {
          if (i >= l.size()) return nullptr;
          x = l[i];
          l = x->ChannelHierarchies();
        }
        return x;
      };
      const std::string nm = Text(r), d = Text(r, 60, true);
      const auto t = static_cast<ChType>(r.Below(9));
      ch->Name(nm);
      ch->Type(t);
      if (r.Below(2)) {
        ch->Description(d);
        Want(m, Fmt("hierarchy %zu description", k), cget, [](const IChannelHierarchy& x) { return x.Description(); }, d);
      }
      Want(m, Fmt("hierarchy %zu depth %zu", k, depth), cget, [](const IChannelHierarchy& x) { return x.Name() + "|" + I(static_cast<int>(x.Type())); },
           nm + "|" + I(static_cast<int>(t)));
      std::string want;
      for (size_t e = 0, ne = r.Below(4); e < ne; ++e) {
        Ref& y = pick();
        ElementLink l;
        l.data_group = y.dg;
        l.channel_group = y.cg;
        l.channel = y.cn;
        ch->AddElementLink(l);
        want += Fmt("D%zu,D%zuG%zu,D%zuG%zuN%zu;", y.d, y.d, y.g, y.d, y.g, y.n);
      }
      Exp ex;
      ex.what = Fmt("session %d hierarchy %zu depth %zu elements", s, k, depth);
      ex.want = want;
      ex.get = [cget, where](const IHeader& h) {
        const auto* x = cget(h);
        if (x == nullptr) return std::string("(missing)");
        std::string o;
        for (const auto& l : x->ElementLinks()) {
          o += where(h, l.data_group) + "," + where(h, l.channel_group) + "," + where(h, l.channel) + ";";
        }
        return o;
      };
      m.ex.push_back(ex);
      if (depth >= 2 || r.Below(2)) break;
      if (r.Below(3) == 0) {
        auto* sib = ch->CreateChannelHierarchy();
        sib->Name(Text(r));
        path.push_back(1);
      } else {
        path.push_back(0);
      }
      ch = ch->CreateChannelHierarchy();
    }
  }
  // events
  const size_t ev0 = hd->Events().size();
  std::vector<IEvent*> evs;
  const size_t nev = r.Below(4);
  for (size_t k = 0; k < nev; ++k) {
    evs.push_back(hd->CreateEvent());
    if (evs.back() == nullptr) Bad("APIFAIL", "CreateEvent returned null");
  }
  for (size_t k = 0; k < nev; ++k) {
    auto* ev = evs[k];
    const size_t ix = ev0 + k;
    EvGet eget = [ix](const IHeader& h) -> const IEvent* {
      const auto l = h.Events();
      return ix < l.size() ? l[ix] : nullptr;
    };
    const std::string we = Fmt("event %zu", k);
    const std::string nm = Text(r);
    const auto t = static_cast<EventType>(r.Below(7));
    const auto sy = static_cast<SyncType>(1 + r.Below(4));
    const auto ra = static_cast<RangeType>(r.Below(3));
    const auto ca = static_cast<EventCause>(r.Below(5));
    const size_t cr = r.Below(100);
    const int64_t sv = static_cast<int64_t>(r.Below(1ull << 40)) - (1ll << 39);
    const double sf = std::ldexp(1.0, static_cast<int>(r.Below(40)) - 20);
    ev->Name(nm);
    ev->Type(t);
    ev->Sync(sy);
    ev->Range(ra);
    ev->Cause(ca);
    ev->CreatorIndex(cr);
    ev->SyncValue(sv);
    ev->SyncFactor(sf);
    Want(m, we, eget, [](const IEvent& e) {
      return e.Name() + "|" + I(static_cast<int>(e.Type())) + "|" + I(static_cast<int>(e.Sync())) + "|" + I(static_cast<int>(e.Range())) + "|" +
             I(static_cast<int>(e.Cause())) + "|" + I(static_cast<int64_t>(e.CreatorIndex())) + "|" + I(e.SyncValue()) + "|" + N(e.SyncFactor());
    }, nm + "|" + I(static_cast<int>(t)) + "|" + I(static_cast<int>(sy)) + "|" + I(static_cast<int>(ra)) + "|" + I(static_cast<int>(ca)) + "|" +
           I(static_cast<int64_t>(cr)) + "|" + I(sv) + "|" + N(sf));
    if (r.Below(3) == 0) {
      const std::string gn = Text(r);
      ev->GroupName(gn);
      Want(m, we + " group", eget, [](const IEvent& e) { return e.GroupName(); }, gn);
    }
    if (r.Below(2)) {
      const std::string d = Text(r, 60, true);
      const double pre = std::ldexp(static_cast<double>(1 + r.Below(1000)), -4), post = std::ldexp(static_cast<double>(1 + r.Below(1000)), -4);
      EvComment c(d);
      c.PreTriggerInterval(MdNumber(pre));
      c.PostTriggerInterval(MdNumber(post));
      const Props p = AddProps(m, c);
      ev->SetEvComment(c);
      Want(m, we + " comment", eget, [p](const IEvent& e) {
        EvComment g;
        e.GetEvComment(g);
        return g.Comment().Text() + "|" + N(g.PreTriggerInterval().Number<double>()) + "|" + N(g.PostTriggerInterval().Number<double>()) + "|" + PropText(g, p);
      }, d + "|" + N(pre) + "|" + N(post) + "|" + PropWant(p));
    } else if (r.Below(2)) {
      const std::string d = Text(r, 60, true);
      const double pre = std::ldexp(static_cast<double>(1 + r.Below(1000)), -4), post = std::ldexp(static_cast<double>(1 + r.Below(1000)), -4);
      ev->Description(d);
      ev->PreTrig(pre);
      ev->PostTrig(post);
      Want(m, we + " description", eget, [](const IEvent& e) { return e.Description() + "|" + N(e.PreTrig()) + "|" + N(e.PostTrig()); },
           d + "|" + N(pre) + "|" + N(post));
    }
    auto evix = [](const IHeader& h, const IEvent* e) {
      const auto l = h.Events();
      for (size_t i = 0; i < l.size(); ++i) if (l[i] == e) return I(static_cast<int64_t>(i));
      return std::string(e == nullptr ? "null" : "unknown");
    };
    auto rel = [&](const char* nm2, size_t target, const IEvent* (IEvent::*g)() const) {
      Exp ex;
      ex.what = Fmt("session %d event %zu %s", s, k, nm2);
      ex.want = I(static_cast<int64_t>(target));
      ex.get = [eget, g, evix](const IHeader& h) {
        const auto* e = eget(h);
        return e == nullptr ? std::string("(missing)") : evix(h, (e->*g)());
      };
      m.ex.push_back(ex);
    };
    if (nev > 1 && r.Below(2)) {
      const size_t o = (k + 1 + r.Below(nev - 1)) % nev;
      ev->ParentEvent(evs[o]);
      rel("parent", ev0 + o, static_cast<const IEvent* (IEvent::*)() const>(&IEvent::ParentEvent));
    }
    if (nev > 1 && r.Below(2)) {
      const size_t o = (k + 1 + r.Below(nev - 1)) % nev;
      ev->RangeEvent(evs[o]);
      rel("range begin", ev0 + o, static_cast<const IEvent* (IEvent::*)() const>(&IEvent::RangeEvent));
    }
    if (r.Below(3) == 0) {
      std::string want;
      for (size_t e = 0, ne = 1 + r.Below(3); e < ne; ++e) {
        Ref& y = pick();
        if (r.Below(2)) {
          ev->AddScope(y.cn);
          want += Fmt("D%zuG%zuN%zu;", y.d, y.g, y.n);
        } else {
          ev->AddScope(y.cg);
          want += Fmt("D%zuG%zu;", y.d, y.g);
        }
      }
      Exp ex;
      ex.what = Fmt("session %d event %zu scopes", s, k);
      ex.want = want;
      ex.get = [eget, where](const IHeader& h) {
        const auto* x = eget(h);
        if (x == nullptr) return std::string("(missing)");
        std::string o;
        for (const void* p : x->Scopes()) o += where(h, p) + ";";
        return o;
      };
      m.ex.push_back(ex);
    }
    if (!ats.empty() && r.Below(2)) {
      const size_t o = r.Below(ats.size());
      ev->AddAttachment(ats[o]);
      Want(m, we + " attachments", eget, [](const IEvent& e) {
        std::string x;
        for (const auto* a : e.Attachments()) x += a == nullptr ? "null" : a->FileName();
        return x;
      }, Fmt("w/none_%d_%zu.bin", s, o));
    }
  }
  w.c->count["meta_settings"] += m.ex.size();
}

void CheckAll(Meta& m, const std::string& path, std::shared_ptr<std::streambuf> buf, bool stream) {
  sim::Api api;
  std::unique_ptr<MdfReader> rd = stream ? std::make_unique<MdfReader>(buf) : std::make_unique<MdfReader>(path);
  if (!rd->IsOk() || !ReadInfo(*m.w->c, "", *rd)) Bad("READFAIL", "a finalized file cannot be read");
  const auto* hd = rd->GetHeader();
  if (hd == nullptr) Bad("READFAIL", "a finalized file has no header");
  for (const auto& e : m.ex) {
    const std::string got = e.get(*hd);
    ++m.w->c->evals;
    if (got != e.want) Bad("META", Fmt("%s: set '%s' read '%s'", e.what.c_str(), Hex(e.want).c_str(), Hex(got).c_str()));
  }
}
}  // namespace

void DriveMeta(Ctx& c) {
  World w;
  GenPlan(c, w);
  g_long = w.wtype != 0 && c.B("longtext", 30);
  Meta m;
  m.w = &w;
  const bool rich = c.B("rich", 80);
  if (rich) w.config = [&m](World& ww, int s) { Config(m, ww, s); };
  BeginRun(c);
  for (size_t s = 0; s < w.ses.size(); ++s) {
    RunSession(w, static_cast<int>(s));
    sim::SetStage("read back");
    ReadAndCheck(w, static_cast<int>(s) + 1, kNoMeta * rich, w.stream ? "" : w.path, w.stream ? w.buf : nullptr);
    StructCheckFile(w, w.stream ? BufBytes(*w.buf) : ReadBytes(w.path), "file");
    CheckAll(m, w.path, w.buf, w.stream);
  }
  Timed(w, "destroy", [&] { w.writer.reset(); });
  CountRun(c, w);
}
}  // namespace h
