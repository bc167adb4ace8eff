// C04: bus messages are read back as they were logged.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <thread>

#include "h.h"
#include "sortingtask.h"
#include "mdf/canbusobserver.h"
#include "mdf/canconfigadapter.h"
#include "mdf/ethconfigadapter.h"
#include "mdf/ethmessage.h"
#include "mdf/flexrayconfigadapter.h"
#include "mdf/flexraymessage.h"
#include "mdf/linconfigadapter.h"
#include "mdf/linmessage.h"
#include "mdf/mostconfigadapter.h"
#include "mdf/mostmessage.h"

using namespace mdf;
namespace h {
namespace {
enum Bus { kCan, kLin, kEth, kMost, kFlx };
const char* const kBusName[] = {"CAN", "LIN", "ETH", "MOST", "FLX"};
const std::vector<std::vector<const char*>> kFrames = {
    {"DataFrame", "RemoteFrame", "ErrorFrame", "OverloadFrame"},
    {"Frame", "ChecksumError", "ReceiveError", "SyncError", "TransmissionError", "WakeUp", "Spike", "LongDom"},
    {"Frame", "ChecksumError", "LengthError", "ReceiveError"},
    {"Message", "Packet", "EthernetPacket", "SignalState", "MaxPosInfo", "BoundDesc", "AllocTable", "SysLockState", "ShutdownFlag"},
    {"Frame", "Pdu", "FrameHeader", "NullFrame", "ErrorFrame", "Symbol"}};

struct Field {
  std::string name;
  int kind = 0;  // 0 unsigned, 1 float, 2 bytes, 3 bytes of a fixed size area, 4 signed
  uint64_t u = 0;
  double d = 0;
  std::vector<uint8_t> b;
  bool mand = false;
};
struct Msg {
  int bus = 0, frame = 0, prod = 0;
  uint64_t seq = 0, ts = 0, vt = 0;
  std::vector<Field> f;
  CanMessage can;
};
struct Gen {
  uint64_t s, n = 0;
  uint64_t Raw() { return sim::Mix(s, ++n); }
  uint64_t U(int bits) {
    const uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    const uint64_t r = Raw();
    switch (r % 8) {
      case 0: return m;
      case 1: return 0;
      case 2: return (r >> 8) & m & 0xFF;
      case 3: return (1ull << ((r >> 8) % static_cast<uint64_t>(bits))) & m;
      default: return sim::Mix(r, 7) & m;
    }
  }
  bool B() { return (Raw() >> 20) & 1; }
  std::vector<uint8_t> Bytes(size_t n0) {
    std::vector<uint8_t> v(n0);
    const uint64_t k = Raw();
    for (size_t i = 0; i < n0; ++i) v[i] = k % 5 == 0 ? static_cast<uint8_t>(0xFF) : static_cast<uint8_t>(sim::Mix(k, i / 8) >> (8 * (i % 8)));
    if (k % 7 == 0) for (size_t i = n0 / 2; i < n0; ++i) v[i] = 0;
    return v;
  }
  float F() {
    const uint64_t r = Raw();
    return r % 4 == 0 ? 19200.0f : static_cast<float>(static_cast<double>(r >> 24) / 1048576.0);
  }
};
struct BusCfg {
  int bus = 0;
  MdfStorageType st = MdfStorageType::FixedLengthStorage;
  uint32_t maxlen = 8;
  bool mand = false;
  uint64_t plen = 8;
  IDataGroup* dg = nullptr;
  // options of the configuration adapter
  int filter = 0;
  uint8_t chan = 0;
  uint64_t mid = 0;
  std::string network, device, proto, mname;
  bool join = false;  // in the data group of the bus before
  struct Info {
    std::string name, si;  // of the group, its source information
    std::string cn;        // its channels
  };
  std::map<int, Info> info;  // by frame
};
struct Lay {  // a frame's members
  std::vector<Field>& f;
  void U(const char* n, uint64_t v, bool m = false) { f.push_back({n, 0, v, 0, {}, m}); }
  void S(const char* n, int64_t v) { f.push_back({n, 4, static_cast<uint64_t>(v), 0, {}, false}); }
  void D(const char* n, float v) { f.push_back({n, 1, 0, static_cast<double>(v), {}, false}); }
  void P(const char* n, const std::vector<uint8_t>& v, int kind, bool m = false) { f.push_back({n, kind, 0, 0, v, m}); }
};

template <typename M>
void FillFlx(M& m, Gen& g, Lay& l, const char* len_name, const char* bytes_name, uint64_t cap, bool mpay, bool mdata) {
  const auto vPayloadLength = static_cast<uint8_t>(g.U(8));
  m.PayloadLength(vPayloadLength);
  l.U("PayloadLength", vPayloadLength, mpay);
  const auto pay = g.Bytes(static_cast<size_t>(g.Raw() % (std::min<uint64_t>(cap, 255) + 1)));
  m.FlexRayFrame::DataBytes(pay);
  l.U(len_name, pay.size(), mdata);
  l.P(bytes_name, pay, 2, mdata);
  const auto vCrc = static_cast<uint32_t>(g.U(24));
  m.Crc(vCrc);
  const auto vHeaderCrc = static_cast<uint16_t>(g.U(16));
  m.HeaderCrc(vHeaderCrc);
  const auto vReserved = g.B();
  m.Reserved(vReserved);
  const auto vPayloadPreamble = g.B();
  m.PayloadPreamble(vPayloadPreamble);
  const auto vNullFrame = static_cast<FlexRayNullFlag>(g.B());
  m.NullFrame(vNullFrame);
  const auto vSyncFrame = g.B();
  m.SyncFrame(vSyncFrame);
  const auto vStartupFrame = g.B();
  m.StartupFrame(vStartupFrame);
  const auto vFrameLength = static_cast<uint32_t>(g.U(32));
  m.FrameLength(vFrameLength);
  l.U("CRC", vCrc);
  l.U("HeaderCRC", vHeaderCrc);
  l.U("ReservedBitFlag", vReserved);
  l.U("PayloadPreambleFlag", vPayloadPreamble);
  l.U("NullFrameFlag", static_cast<uint64_t>(vNullFrame));
  l.U("SyncFrameFlag", vSyncFrame);
  l.U("StartUpFrameFlag", vStartupFrame);
  l.U("FrameLength", vFrameLength);
}
void FillFlxId(IFlexRayEvent& m, Gen& g, Lay& l, bool dir) {
  const auto vFrameId = static_cast<uint16_t>(g.U(11));
  m.FrameId(vFrameId);
  const auto vCycleCount = static_cast<uint8_t>(g.U(6));
  m.CycleCount(vCycleCount);
  const auto vChannel = static_cast<FlexRayChannel>(g.B());
  m.Channel(vChannel);
  const auto vDirection = static_cast<FlexRayDirection>(g.B());
  m.Direction(vDirection);
  l.U("ID", vFrameId, true);
  l.U("Cycle", vCycleCount, true);
  l.U("FlxChannel", static_cast<uint64_t>(vChannel), true);
  if (dir) l.U("Dir", static_cast<uint64_t>(vDirection), true);
}

// Builds a message and saves it. The expected members go to `out`.
std::function<void(MdfWriter&, IChannelGroup&)> Make(const BusCfg& b, int frame, uint64_t seed, int api, Msg& out) {
  Gen g{seed};
  Lay l{out.f};
  const auto dg = b.dg;
  const uint64_t ts = out.ts;
  const auto ch = static_cast<uint8_t>(g.U(8));
  l.U("BusChannel", ch, true);
  switch (b.bus) {
    case kCan: {
      CanMessage m;
      m.BusChannel(ch);
      const auto id = static_cast<uint32_t>(g.U(g.B() ? 29 : 11));
      bool ide = id > 0x7FF;
      m.MessageId(id);
      if (g.Raw() % 4 == 0) {
        ide = g.B() || id > 0x7FF;
        m.ExtendedId(ide);
      }
      uint8_t dlc = 0, dlen = 0;
      const auto code = [](uint64_t n) {
        uint8_t c = 0;
        for (const uint64_t k : {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 32, 48}) c += n > k;
        return c;
      };
      uint64_t cap = b.plen;
      if (b.st == MdfStorageType::MlsdStorage) cap = std::min<uint64_t>(cap, std::max<uint32_t>(8, b.maxlen));
      cap = std::min<uint64_t>(cap, 64);
      std::vector<uint8_t> pay;
      if (frame == 0 || frame == 2) {
        uint64_t n = g.Raw() % (cap + 1);
        if (g.B()) n = CanMessage::DlcToLength(static_cast<uint8_t>(g.U(4)));
        if (n > cap) n = cap;
        pay = g.Bytes(static_cast<size_t>(n));
        m.DataBytes(pay);
        dlen = static_cast<uint8_t>(pay.size());
        dlc = code(dlen);
        if (g.Raw() % 8 == 0) m.Dlc(dlc = static_cast<uint8_t>(g.U(4)));  // a classic frame may state 9 to 15 for 8 bytes
      } else if (frame == 1) {
        m.Dlc(dlc = static_cast<uint8_t>(g.U(4)));  // the requested length; a remote frame holds no data
        if (g.B()) {
          m.DataLength(dlen = static_cast<uint8_t>(g.Raw() % 9));
          dlc = code(dlen);
        }
      }
      const auto vDir = g.B();
      m.Dir(vDir);
      const auto vSrr = g.B();
      m.Srr(vSrr);
      const auto vEdl = g.B();
      m.Edl(vEdl);
      const auto vBrs = g.B();
      m.Brs(vBrs);
      const auto vEsi = g.B();
      m.Esi(vEsi);
      const auto vWakeUp = g.B();
      m.WakeUp(vWakeUp);
      const auto vSingleWire = g.B();
      m.SingleWire(vSingleWire);
      const auto vR0 = g.B();
      m.R0(vR0);
      const auto vR1 = g.B();
      m.R1(vR1);
      const auto vFrameDuration = static_cast<uint32_t>(g.U(32));
      m.FrameDuration(vFrameDuration);
      const auto vCrc = static_cast<uint32_t>(g.U(32));
      m.Crc(vCrc);
      const auto vBitPosition = static_cast<uint16_t>(g.U(16));
      m.BitPosition(vBitPosition);
      const auto vErrorType = static_cast<CanErrorType>(g.Raw() % 6);
      m.ErrorType(vErrorType);
      if (frame == 3) {
        l.U("Dir", vDir);
      } else {
        l.U("ID", id, true);
        l.U("IDE", ide, true);
        l.U("DLC", dlc, true);
        l.U("DataLength", dlen, true);
        l.U("Dir", vDir);
        l.U("SRR", vSrr);
        l.U("WakeUp", vWakeUp);
        l.U("SingleWire", vSingleWire);
        l.U("R0", vR0);
        l.U("R1", vR1);
        l.U("FrameDuration", vFrameDuration);
        l.U("CRC", vCrc);
        if (frame != 1) {
          l.U("EDL", vEdl);
          l.U("BRS", vBrs);
          l.U("ESI", vEsi);
          l.P("DataBytes", pay, b.st == MdfStorageType::MlsdStorage ? 3 : 2, true);
        }
        if (frame == 2) {
          l.U("BitPosition", vBitPosition);
          l.U("ErrorType", static_cast<uint64_t>(vErrorType));
        }
      }
      out.can = m;
      return [=](MdfWriter& w, IChannelGroup& cg) {
        if (api == 0) w.SaveCanMessage(cg, ts, m);
        else w.SaveCanMessage(*dg, cg, ts, m);
      };
    }
    case kLin: {
      LinMessage m;
      m.BusChannel(ch);
      const auto vLinId = static_cast<uint8_t>(g.U(6));
      m.LinId(vLinId);
      const auto vDir = g.B();
      m.Dir(vDir);
      const auto pay = g.Bytes(static_cast<size_t>(g.Raw() % 9));
      m.DataBytes(pay);
      const auto vReceivedDataByteCount = static_cast<uint8_t>(g.U(4));
      m.ReceivedDataByteCount(vReceivedDataByteCount);
      const auto vExpectedDataByteCount = static_cast<uint8_t>(g.U(4));
      m.ExpectedDataByteCount(vExpectedDataByteCount);
      const auto vChecksum = static_cast<uint8_t>(g.U(8));
      m.Checksum(vChecksum);
      const auto vChecksumModel = static_cast<LinChecksumModel>(static_cast<int8_t>(static_cast<int>(g.Raw() % 3) - 1));
      m.ChecksumModel(vChecksumModel);
      const auto vStartOfFrame = g.U(64);
      m.StartOfFrame(vStartOfFrame);
      const auto vBaudrate = g.F();
      m.Baudrate(vBaudrate);
      const auto vResponseBaudrate = g.F();
      m.ResponseBaudrate(vResponseBaudrate);
      const auto vBreakLength = static_cast<uint32_t>(g.U(32));
      m.BreakLength(vBreakLength);
      const auto vDelimiterBreakLength = static_cast<uint32_t>(g.U(32));
      m.DelimiterBreakLength(vDelimiterBreakLength);
      const auto vTypeOfLongDominantSignal = static_cast<LinTypeOfLongDominantSignal>(g.Raw() % 3);
      m.TypeOfLongDominantSignal(vTypeOfLongDominantSignal);
      const auto vTotalSignalLength = static_cast<uint32_t>(g.U(32));
      m.TotalSignalLength(vTotalSignalLength);
      switch (frame) {
        case 0:
        case 1:
          l.U("ID", vLinId, true);
          l.U("Dir", vDir, frame == 0);
          l.U("ReceivedDataByteCount", vReceivedDataByteCount, frame == 0);
          l.U("DataLength", pay.size(), frame == 0);
          l.P("DataBytes", pay, 3, frame == 0);
          l.U("Checksum", vChecksum);
          l.S("ChecksumModel", static_cast<int8_t>(vChecksumModel));
          l.U("SOF", vStartOfFrame);
          l.D("Baudrate", vBaudrate);
          l.D("ResponseBaudrate", vResponseBaudrate);
          l.U("BreakLength", vBreakLength);
          l.U("BreakDelimiterLength", vDelimiterBreakLength);
          break;
        case 2:
          l.U("ID", vLinId);
          l.U("ReceivedDataByteCount", vReceivedDataByteCount);
          l.U("SpecifiedDataByteCount", vExpectedDataByteCount);
          l.U("DataLength", pay.size());
          l.P("DataBytes", pay, 3);
          l.S("ChecksumModel", static_cast<int8_t>(vChecksumModel));
          l.U("SOF", vStartOfFrame);
          l.D("Baudrate", vBaudrate);
          l.D("ResponseBaudrate", vResponseBaudrate);
          l.U("BreakLength", vBreakLength);
          l.U("BreakDelimiterLength", vDelimiterBreakLength);
          break;
        case 3:
          l.U("SOF", vStartOfFrame);
          l.D("Baudrate", vBaudrate);
          l.U("BreakLength", vBreakLength);
          l.U("BreakDelimiterLength", vDelimiterBreakLength);
          break;
        case 4:
          l.U("ID", vLinId, true);
          l.U("SpecifiedDataByteCount", vExpectedDataByteCount);
          l.S("ChecksumModel", static_cast<int8_t>(vChecksumModel));
          l.U("SOF", vStartOfFrame);
          l.D("Baudrate", vBaudrate);
          l.U("BreakLength", vBreakLength);
          l.U("BreakDelimiterLength", vDelimiterBreakLength);
          break;
        case 5:
        case 6:
          l.D("Baudrate", vBaudrate);
          l.U("SOF", vStartOfFrame);
          break;
        default:
          l.D("Baudrate", vBaudrate);
          l.U("SOF", vStartOfFrame);
          l.U("Length", vTotalSignalLength);
          l.U("Type", static_cast<uint64_t>(vTypeOfLongDominantSignal));
          break;
      }
      return [=](MdfWriter& w, IChannelGroup& cg) {
        if (api == 0) w.SaveLinMessage(cg, ts, m);
        else w.SaveLinMessage(*dg, cg, ts, m);
      };
    }
    case kEth: {
      EthMessage m;
      m.BusChannel(ch);
      const auto vDir = g.B();
      m.Dir(vDir);
      const auto vErrorType = static_cast<EthErrorType>(g.Raw() % 2);
      m.ErrorType(vErrorType);
      std::array<uint8_t, 6> src{}, dst{};
      const auto s = g.Bytes(6), d = g.Bytes(6);
      std::copy(s.begin(), s.end(), src.begin());
      std::copy(d.begin(), d.end(), dst.begin());
      m.Source(src);
      m.Destination(dst);
      const auto vEthType = static_cast<uint16_t>(g.U(16));
      m.EthType(vEthType);
      const auto pay = g.Bytes(static_cast<size_t>(g.Raw() % (std::min<uint64_t>(b.plen, 65535) + 1)));
      m.DataBytes(pay);
      const auto vReceivedDataByteCount = static_cast<uint16_t>(g.U(16));
      m.ReceivedDataByteCount(vReceivedDataByteCount);
      const auto vCrc = static_cast<uint32_t>(g.U(32));
      m.Crc(vCrc);
      const auto vExpectedCrc = static_cast<uint32_t>(g.U(32));
      m.ExpectedCrc(vExpectedCrc);
      const auto vPaddingByteCount = static_cast<uint16_t>(g.U(16));
      m.PaddingByteCount(vPaddingByteCount);
      l.P("Source", s, 2, true);
      l.P("Destination", d, 2, true);
      l.U("EtherType", vEthType, true);
      l.U("Dir", vDir);
      l.U("PadByteCount", vPaddingByteCount);
      l.U("DataLength", pay.size(), frame < 2);
      l.P("DataBytes", pay, 2, frame == 0);
      l.U("ReceivedDataByteCount", vReceivedDataByteCount, frame != 1);
      if (frame == 1) {
        l.U("ReceivedCRC", vCrc, true);
        l.U("ExpectedCRC", vExpectedCrc, true);
      } else {
        l.U("CRC", vCrc);
      }
      if (frame == 3) l.U("ErrorType", static_cast<uint64_t>(vErrorType));
      return [=](MdfWriter& w, IChannelGroup& cg) {
        if (api == 0) w.SaveEthMessage(cg, ts, m);
        else w.SaveEthMessage(*dg, cg, ts, m);
      };
    }
    case kMost: {
      std::shared_ptr<IMostEvent> ev;
      if (frame <= 2) {
        std::shared_ptr<MostEthernetPacket> m;
        if (frame == 0) {
          auto p = std::make_shared<MostMessage>();
          const auto vTxFailed = g.B();
          p->TxFailed(vTxFailed);
          const auto vControlMessageType = static_cast<MostControlMessageType>(g.Raw() % 6);
          p->ControlMessageType(vControlMessageType);
          l.U("TxFailed", vTxFailed);
          l.U("RType", static_cast<uint64_t>(vControlMessageType));
          const auto vPacketIndex = static_cast<uint8_t>(g.U(8));
          p->PacketIndex(vPacketIndex);
          l.U("PIndex", vPacketIndex);
          m = p;
        } else if (frame == 1) {
          auto p = std::make_shared<MostPacket>();
          const auto vPacketIndex = static_cast<uint8_t>(g.U(8));
          p->PacketIndex(vPacketIndex);
          l.U("PIndex", vPacketIndex);
          m = p;
        } else {
          m = std::make_shared<MostEthernetPacket>();
        }
        const auto vSpeed = static_cast<MostSpeed>(g.Raw() % 3);
        m->Speed(vSpeed);
        const auto vTransferType = static_cast<MostTransferType>(g.B());
        m->TransferType(vTransferType);
        const auto vDirection = static_cast<MostDirection>(g.B());
        m->Direction(vDirection);
        const auto vSource = g.U(frame == 2 ? 48 : 16);
        m->Source(vSource);
        const auto vDestination = g.U(frame == 2 ? 48 : 16);
        m->Destination(vDestination);
        const auto pay = g.Bytes(static_cast<size_t>(g.Raw() % (std::min<uint64_t>(b.plen, 65535) + 1)));
        m->DataBytes(pay);  // states both byte counts too
        const auto vSpecifiedNofBytes = static_cast<uint16_t>(g.U(16));
        m->SpecifiedNofBytes(vSpecifiedNofBytes);
        const auto vReceivedNofBytes = static_cast<uint16_t>(g.U(16));
        m->ReceivedNofBytes(vReceivedNofBytes);
        const auto vCrc = static_cast<uint32_t>(g.U(32));
        m->Crc(vCrc);
        const auto vCompleteAck = static_cast<MostCompleteAck>(g.Raw() % 3 == 0 ? 4 : g.Raw() % 2);
        m->CompleteAck(vCompleteAck);
        const auto vPreemptiveAck = static_cast<MostPreemptiveAck>(g.Raw() % 3 == 0 ? 4 : g.Raw() % 2);
        m->PreemptiveAck(vPreemptiveAck);
        const auto vTxAck = static_cast<uint8_t>(g.U(4));
        m->TxAck(vTxAck);
        l.U("Speed", static_cast<uint64_t>(vSpeed), true);
        l.U("TransferType", static_cast<uint64_t>(vTransferType), true);
        l.U("Dir", static_cast<uint64_t>(vDirection), true);
        l.U("Source", vSource, true);
        l.U("Destination", vDestination, true);
        l.U("SpecifiedDataByteCount", vSpecifiedNofBytes, true);
        l.U("ReceivedDataByteCount", vReceivedNofBytes, true);
        l.U("DataLength", pay.size(), true);
        l.P("DataBytes", pay, 2, true);
        l.U("CRC", vCrc);
        l.U("CAck", static_cast<uint64_t>(vCompleteAck));
        l.U("PAck", static_cast<uint64_t>(vPreemptiveAck));
        l.U("AckNAck", static_cast<uint64_t>(vTxAck));
        ev = m;
      } else if (frame == 3) {
        auto m = std::make_shared<MostSignalState>();
        static const int st[] = {0, 1, 2, 3, 16, 32};
        const auto vSignalState = static_cast<MostStateOfSignal>(st[g.Raw() % 6]);
        m->SignalState(vSignalState);
        l.U("State", static_cast<uint64_t>(vSignalState), true);
        ev = m;
      } else if (frame == 4) {
        auto m = std::make_shared<MostMaxPosInfo>();
        const auto vDeviceCount = static_cast<uint8_t>(g.U(8));
        m->DeviceCount(vDeviceCount);
        l.U("DeviceCount", vDeviceCount, true);
        ev = m;
      } else if (frame == 5) {
        auto m = std::make_shared<MostBoundDesc>();
        const auto vBoundaryCount = static_cast<uint16_t>(g.U(16));
        m->BoundaryCount(vBoundaryCount);
        l.U("SBC", vBoundaryCount, true);
        ev = m;
      } else if (frame == 6) {
        auto m = std::make_shared<MostAllocTable>();
        const auto pay = g.Bytes(static_cast<size_t>(g.Raw() % (std::min<uint64_t>(b.plen, 65535) + 1)));
        const auto vFreeByteCount = static_cast<uint16_t>(g.U(16));
        m->FreeByteCount(vFreeByteCount);
        const auto vTableLayout = static_cast<MostTableLayout>(g.B());
        m->TableLayout(vTableLayout);
        m->TableData(pay);
        l.U("FreeByteCount", vFreeByteCount, true);
        l.U("TableLayout", static_cast<uint64_t>(vTableLayout), true);
        l.U("TableLength", pay.size(), true);
        l.P("TableData", pay, 2, true);
        ev = m;
      } else if (frame == 7) {
        auto m = std::make_shared<MostSysLockState>();
        const auto vRingIsClosed = g.B();
        m->RingIsClosed(vRingIsClosed);
        l.U("SysLockState", vRingIsClosed, true);
        ev = m;
      } else {
        auto m = std::make_shared<MostShutdownFlag>();
        const auto vShutdownFlag = g.B();
        m->ShutdownFlag(vShutdownFlag);
        l.U("ShutdownFlag", vShutdownFlag, true);
        ev = m;
      }
      ev->BusChannel(ch);
      return [=](MdfWriter& w, IChannelGroup& cg) { w.SaveMostMessage(*dg, cg, ts, *ev); };
    }
    default: {
      std::shared_ptr<IFlexRayEvent> ev;
      if (frame == 0) {
        auto m = std::make_shared<FlexRayFrame>();
        FillFlxId(*m, g, l, true);
        FillFlx(*m, g, l, "DataLength", "DataBytes", b.plen, true, true);
        ev = m;
      } else if (frame == 1) {
        auto m = std::make_shared<FlexRayPdu>();
        FillFlxId(*m, g, l, false);
        const auto pay = g.Bytes(static_cast<size_t>(g.Raw() % (std::min<uint64_t>(b.plen, 255) + 1)));
        const auto vLength = static_cast<uint8_t>(g.U(8));
        m->Length(vLength);
        m->DataBytes(pay);
        const auto vMultiplexed = g.B();
        m->Multiplexed(vMultiplexed);
        const auto vSwitch = static_cast<uint16_t>(g.U(16));
        m->Switch(vSwitch);
        const auto vValid = g.B();
        m->Valid(vValid);
        const auto vUpdateBitPos = static_cast<uint16_t>(g.U(12));
        m->UpdateBitPos(vUpdateBitPos);
        const auto vByteOffset = static_cast<uint8_t>(g.U(8));
        m->ByteOffset(vByteOffset);
        const auto vBitOffset = static_cast<uint8_t>(g.U(3));
        m->BitOffset(vBitOffset);
        l.U("PduLength", vLength, true);
        l.U("DataLength", pay.size(), true);
        l.P("DataBytes", pay, 2, true);
        l.U("IsMultiplexed", vMultiplexed);
        l.U("Switch", vSwitch);
        l.U("ValidFlag", vValid);
        l.U("UpdateBitPos", vUpdateBitPos);
        l.U("PduByteOffset", vByteOffset);
        l.U("PduBitOffset", vBitOffset);
        ev = m;
      } else if (frame == 2) {
        auto m = std::make_shared<FlexRayFrameHeader>();
        FillFlxId(*m, g, l, true);
        FillFlx(*m, g, l, "FillDataLength", "FillDataBytes", b.plen, true, false);
        ev = m;
      } else if (frame == 3) {
        auto m = std::make_shared<FlexRayNullFrame>();
        FillFlxId(*m, g, l, true);
        FillFlx(*m, g, l, "DataLength", "DataBytes", b.plen, false, false);
        ev = m;
      } else if (frame == 4) {
        auto m = std::make_shared<FlexRayErrorFrame>();
        FillFlxId(*m, g, l, true);
        FillFlx(*m, g, l, "DataLength", "DataBytes", b.plen, false, false);
        const auto vSyntax = g.B();
        m->Syntax(vSyntax);
        const auto vContent = g.B();
        m->Content(vContent);
        const auto vBoundary = g.B();
        m->Boundary(vBoundary);
        const auto vTxConflict = g.B();
        m->TxConflict(vTxConflict);
        const auto vValid = g.B();
        m->Valid(vValid);
        l.U("IsSyntaxError", vSyntax);
        l.U("IsContentError", vContent);
        l.U("IsSlotBndViolation", vBoundary);
        l.U("IsTxConflict", vTxConflict);
        l.U("IsValidFrame", vValid);
        ev = m;
      } else {
        auto m = std::make_shared<FlexRaySymbol>();
        const auto vCycleCount = static_cast<uint8_t>(g.U(6));
        m->CycleCount(vCycleCount);
        const auto vChannelMask = static_cast<FlexRayChannelMask>(1 + g.Raw() % 3);
        m->ChannelMask(vChannelMask);
        const auto vLength = static_cast<uint8_t>(g.U(8));
        m->Length(vLength);
        const auto vType = static_cast<FlexRaySymbolType>(g.Raw() % 4);
        m->Type(vType);
        l.U("Cycle", vCycleCount, true);
        l.U("FlxChannelMask", static_cast<uint64_t>(vChannelMask), true);
        l.U("SymbolLength", vLength);
        l.U("SymbolType", static_cast<uint64_t>(vType));
        ev = m;
      }
      ev->BusChannel(ch);
      return [=](MdfWriter& w, IChannelGroup& cg) { w.SaveFlexRayMessage(*dg, cg, ts, *ev); };
    }
  }
}

std::string FrameName(int bus, int frame) { return std::string(kBusName[bus]) + "_" + kFrames[static_cast<size_t>(bus)][static_cast<size_t>(frame)]; }
std::string Source(const IChannelGroup& cg) {
  const auto* si = cg.SourceInformation();
  if (si == nullptr) return "none";
  SiComment sc;
  si->GetSiComment(sc);
  std::string r = si->Name() + "|" + si->Path() + Fmt("|%d|%d|", static_cast<int>(si->Type()), static_cast<int>(si->Bus())) + sc.Comment().Text() + "|" + sc.Protocol().Text();
  for (const auto& [key, pr] : sc.Properties()) r += "|" + key + "=" + pr.Value<std::string>();
  return r;
}
std::string Chans(const IChannelGroup& cg) {
  std::string r;
  for (const auto* cn : cg.Channels()) {
    r += "|" + cn->Name() + "," + cn->Unit() + "," + cn->Description() + Fmt(",%d,%d", static_cast<int>(cn->Sync()), static_cast<int>(cn->DataType()));
    if (const auto rg = cn->Range()) r += Fmt(",%g,%g", rg->first, rg->second);
  }
  return r;
}
IChannelGroup* FindGroup(IDataGroup& dg, const BusCfg& b, int frame) {
  const std::string ch = FrameName(b.bus, frame);
  const auto info = b.info.find(frame);
  for (auto* cg : dg.ChannelGroups()) {
    if ((cg->Flags() & CgFlag::VlsdChannel) != 0) continue;
    if (info != b.info.end() && cg->Name() != info->second.name) continue;
    for (auto* cn : cg->Channels()) if (cn->Name() == ch) return cg;
  }
  return nullptr;
}
std::string Diff(const Field& f, const IChannelObserver& o, uint64_t i) {
  bool valid = false;
  if (f.kind == 0) {
    uint64_t t = 0;
    valid = o.GetChannelValue(i, t);
    if (valid && t != f.u) return Fmt("%llu, logged %llu", static_cast<unsigned long long>(t), static_cast<unsigned long long>(f.u));
  } else if (f.kind == 4) {
    int64_t t = 0;
    valid = o.GetChannelValue(i, t);
    if (valid && t != static_cast<int64_t>(f.u)) return Fmt("%lld, logged %lld", static_cast<long long>(t), static_cast<long long>(f.u));
  } else if (f.kind == 1) {
    double t = 0;
    valid = o.GetChannelValue(i, t);
    if (valid && t != f.d) return Fmt("%.17g, logged %.17g", t, f.d);
  } else {
    std::vector<uint8_t> t;
    valid = o.GetChannelValue(i, t);
    if (valid && f.kind == 3 && t.size() > f.b.size()) t.resize(f.b.size());  // the rest of the area is not part of the payload
    if (valid && t != f.b) return Fmt("%zu bytes, logged %zu bytes%s", t.size(), f.b.size(), t.size() == f.b.size() ? ", other content" : "");
  }
  return valid ? "" : "not valid";
}
std::string DiffCan(const CanMessage& a, const CanMessage& b, int frame, bool mand, double t) {
  if (std::fabs(a.Timestamp() - t) > 1.5e-9) return Fmt("Timestamp %.9f, logged %.9f", a.Timestamp(), t);
  if (static_cast<int>(a.TypeOfMessage()) != frame) return Fmt("TypeOfMessage %d, logged %d", static_cast<int>(a.TypeOfMessage()), frame);
#define CMP(M) if (a.M() != b.M()) return Fmt(#M " %llu, logged %llu", static_cast<unsigned long long>(a.M()), static_cast<unsigned long long>(b.M()))
  CMP(BusChannel);
  if (frame == 3) {
    CMP(Dir);
    return "";
  }
  CMP(CanId);
  CMP(ExtendedId);
  CMP(MessageId);
  CMP(Dlc);
  CMP(DataLength);
  if (frame != 1 && a.DataBytes() != b.DataBytes()) return Fmt("DataBytes %zu, logged %zu bytes", a.DataBytes().size(), b.DataBytes().size());
  if (mand && frame != 2) return "";
  CMP(Dir);
  CMP(Srr);
  CMP(WakeUp);
  CMP(SingleWire);
  CMP(R0);
  CMP(R1);
  CMP(FrameDuration);
  CMP(Crc);
  if (frame == 1) return "";
  CMP(Edl);
  CMP(Brs);
  CMP(Esi);
  if (frame == 0) return "";
  CMP(BitPosition);
  CMP(ErrorType);
#undef CMP
  return "";
}

struct Plan {
  std::vector<BusCfg> bus;
  std::map<int64_t, Msg> by_ts;  // by the time relative to the start
  std::vector<std::vector<std::vector<uint64_t>>> saved;  // [bus][frame] time stamps
  uint64_t start = 0;
  size_t dg_from = 0, dg_to = 0;  // its data groups
  bool own = false, reuse = false, compress = false, periodic = true;
  int nprod = 1;
  std::vector<uint64_t> nmsg, pause;
  uint64_t npre = 0;  // messages logged before the start
  uint64_t t_init_e = 0, t_start_e = 0, t_stop = 0;
};
double Rel(uint64_t ts, uint64_t start) { return static_cast<double>(static_cast<int64_t>(ts - start)) / 1e9; }

void ReadBack(Ctx& c, Plan& p, const std::string& path, std::shared_ptr<std::streambuf> buf, const std::string& q, const char* who, bool sorted = false) {
  std::unique_ptr<MdfReader> rd;
  bool ok;
  {
    sim::Api api;
    rd = buf ? std::make_unique<MdfReader>(buf) : std::make_unique<MdfReader>(path);
    ok = rd->IsOk() && rd->ReadEverythingButData();
  }
  if (!ok) Bad("READFAIL", std::string(who) + ": the file cannot be read");
  auto dgs = rd->GetHeader()->DataGroups();
  if (!sorted) {
    if (dgs.size() < p.dg_to) Bad("META", std::string(who) + ": data groups are missing");
    dgs = {dgs.begin() + static_cast<long>(p.dg_from), dgs.begin() + static_cast<long>(p.dg_to)};
  }
  // a sorted file has one data group per group
  std::vector<std::pair<size_t, int>> parts;
  for (size_t bi = 0; bi < p.bus.size(); ++bi) {
    const auto nf = static_cast<int>(kFrames[static_cast<size_t>(p.bus[bi].bus)].size());
    for (int f = sorted ? 0 : -1; f < (sorted ? nf : 0); ++f) parts.emplace_back(bi, f);
  }
  for (const auto& [bi, only] : parts) {
    const auto& b = p.bus[bi];
    IDataGroup* dg = nullptr;
    for (auto* d : dgs) if (FindGroup(*d, b, only < 0 ? 0 : only) != nullptr) dg = d;
    if (dg == nullptr && only >= 0 && p.saved[bi][static_cast<size_t>(only)].empty()) continue;
    if (dg != nullptr && only >= 0 && dg->ChannelGroups().size() != 1) Bad("META", std::string(who) + ": a data group has several groups");
    if (dg == nullptr) Bad("META", std::string(who) + ": no data group of bus " + kBusName[b.bus]);
    struct View {
      int frame = 0;
      IChannelGroup* cg = nullptr;
      std::unique_ptr<IChannelObserver> t;
      std::map<std::string, std::unique_ptr<IChannelObserver>> obs;
      std::unique_ptr<CanBusObserver> can;
      std::vector<std::pair<uint64_t, CanMessage>> got;
      bool callback = false;
      std::string off;  // payload channel read by offset
      std::vector<const Msg*> rows;
      std::vector<bool> filled;
    };
    std::vector<View> views(kFrames[static_cast<size_t>(b.bus)].size());
    const bool by_offset = c.B(q + "offsets", 25);
    for (size_t f = 0; f < views.size(); ++f) {
      auto& v = views[f];
      v.frame = static_cast<int>(f);
      if (only >= 0 && v.frame != only) continue;
      v.cg = FindGroup(*dg, b, v.frame);
      if (v.cg == nullptr) continue;
      auto* tm = v.cg->GetMasterChannel();
      if (tm == nullptr) Bad("META", std::string(who) + ": no time channel in " + v.cg->Name());
      {
        const std::string at = std::string(who) + " " + v.cg->Name() + ": ";
        if (tm->Sync() != ChannelSyncType::Time || tm->Unit() != "s") Bad("META", at + "the master is no time channel in seconds");
        if ((v.cg->Flags() & CgFlag::BusEvent) == 0 || (v.cg->Flags() & CgFlag::PlainBusEvent) == 0) Bad("META", at + "group is not marked as bus event group");
        if (v.cg->PathSeparator() != '.') Bad("META", at + "wrong path separator");
        bool event = false;
        for (auto* cn : v.cg->Channels()) event |= cn->Name() == FrameName(b.bus, v.frame) && (cn->Flags() & CnFlag::BusEvent) != 0;
        if (!event) Bad("META", at + "frame is not marked as bus event");
        for (auto* cn : v.cg->Channels()) {
          if (cn->Name().compare(0, FrameName(b.bus, v.frame).size() + 1, FrameName(b.bus, v.frame) + ".") == 0 && (cn->Flags() & CnFlag::BusEvent) == 0) Bad("META", at + cn->Name() + " is not marked as bus event");
        }
        const auto* si = v.cg->SourceInformation();
        static const BusType kind[] = {BusType::Can, BusType::Lin, BusType::Ethernet, BusType::Most, BusType::FlexRay};
        static const char* const kName[] = {"CAN", "LIN", "ETH", "MOST", "FlexRay"};
        if (si == nullptr || si->Type() != SourceType::Bus || si->Bus() != kind[b.bus]) Bad("META", at + "source is not stated as this bus");
        const bool ad = b.info.count(v.frame) != 0;  // own adapter, options as set
        const std::string sn = ad && !b.network.empty() ? b.network : ad && !b.device.empty() ? b.device : kName[b.bus];
        if (si->Name() != sn) Bad("META", at + "source is named " + si->Name() + " instead of " + sn);
        if (b.bus != kEth && (!ad || b.filter == 0) && v.cg->Name() != FrameName(b.bus, v.frame)) Bad("META", at + "group name is not " + FrameName(b.bus, v.frame));
      }
      if (const auto in = b.info.find(v.frame); in != b.info.end()) {
        if (Source(*v.cg) != in->second.si) Bad("META", std::string(who) + " " + v.cg->Name() + ": source " + Source(*v.cg) + ", configured " + in->second.si);
        if (Chans(*v.cg) != in->second.cn) Bad("META", std::string(who) + " " + v.cg->Name() + ": channels " + Chans(*v.cg) + ", configured " + in->second.cn);
      }
      const std::string base = FrameName(b.bus, v.frame) + ".";
      {
        sim::Api api;
        v.t = CreateChannelObserver(*dg, *v.cg, *tm);
        for (auto* cn : v.cg->Channels()) {
          if (cn->Name().compare(0, base.size(), base) != 0) continue;
          auto o = CreateChannelObserver(*dg, *v.cg, *cn);
          if (by_offset && cn->Type() == ChannelType::VariableLength) {
            o->ReadVlsdData(false);
            v.off = cn->Name().substr(base.size());
          }
          v.obs[cn->Name().substr(base.size())] = std::move(o);
        }
        if (b.bus == kCan && c.B(q + "can", 60)) {
          v.can = std::make_unique<CanBusObserver>(*dg, *v.cg);
          v.callback = c.B(q + "cb", 50);
          if (v.callback) {
            v.can->OnCanMessage = [&v](uint64_t s, const CanMessage& m) {
              v.got.emplace_back(s, m);
              return true;
            };
          }
        }
      }
    }
    {
      sim::Api api;
      ok = rd->ReadData(*dg);
    }
    if (!ok) Bad("READFAIL", std::string(who) + ": ReadData failed");
    for (auto& v : views) {
      if (only >= 0 && v.frame != only) continue;
      const std::string name = FrameName(b.bus, v.frame);
      const auto& want = p.saved[bi][static_cast<size_t>(v.frame)];
      if (v.cg == nullptr) {
        if (!want.empty()) Bad("META", std::string(who) + ": group " + name + " is missing");
        continue;
      }
      const std::string at = std::string(who) + " " + name;
      const uint64_t n = v.cg->NofSamples();
      if (n != want.size()) Bad("LOST", at + Fmt(": %llu messages in the file, %zu logged", static_cast<unsigned long long>(n), want.size()));
      std::map<int, uint64_t> last;
      std::set<int64_t> seen;
      auto& rows = v.rows;
      for (uint64_t i = 0; i < n; ++i) {
        double t = 0;
        if (!v.t->GetChannelValue(i, t)) Bad("READFAIL", at + Fmt(": message %d is not readable", static_cast<int>(i)));
        const auto key = static_cast<int64_t>(std::llround(t * 1e9));
        const auto it = p.by_ts.find(key);
        if (it == p.by_ts.end() || it->second.bus != b.bus || it->second.frame != v.frame) Bad("TIME", at + Fmt(": message %d has time %.9f that was not logged here", static_cast<int>(i), t));
        const Msg& m = it->second;
        rows.push_back(&m);
        if (!seen.insert(key).second) Bad("DUP", at + Fmt(": message at %.9f twice", t));
        if (last.count(m.prod) && last[m.prod] >= m.seq) Bad("ORDER", at + ": messages of one producer in another order");
        last[m.prod] = m.seq;
        for (const auto& f : m.f) {
          const auto o = v.obs.find(f.name);
          if (o == v.obs.end()) {
            if (!b.mand || f.mand) Bad("META", at + ": channel " + f.name + " is missing");
            continue;
          }
          if (f.name == v.off) continue;
          const auto e = Diff(f, *o->second, i);
          if (!e.empty()) Bad("VALUE", at + "." + f.name + Fmt(" of message %d of %d: ", static_cast<int>(i), static_cast<int>(n)) + e);
          ++c.checked_samples;
        }
      }
      if (!v.off.empty()) {
        auto& o = *v.obs[v.off];
        const auto& offs = o.GetOffsetList();
        std::map<uint64_t, std::vector<uint8_t>> got;
        std::function<void(uint64_t, const std::vector<uint8_t>&)> cb = [&](uint64_t of, const std::vector<uint8_t>& d) { got[of] = d; };
        bool res;
        const bool all = c.B(q + "all", 40);
        const int every = static_cast<int>(c.K(q + "every", 1, 3));
        auto wanted = [&](size_t i) { return all || every == 1 || sim::Mix(i, 5) % static_cast<uint64_t>(every) == 0; };
        std::vector<uint64_t> asked;
        for (size_t i = 0; i < offs.size(); ++i) if (wanted(i)) asked.push_back(offs[i]);
        if (asked.empty()) continue;
        if (c.B(q + "backwards", 30)) std::reverse(asked.begin(), asked.end());
        {
          sim::Api api;
          res = rd->ReadVlsdData(*dg, const_cast<IChannel&>(o.Channel()), all ? std::vector<uint64_t>{} : asked, cb);
        }
        for (const auto& g : got) {
          if (!all && std::find(asked.begin(), asked.end(), g.first) == asked.end()) Bad("VALUE", at + ": a payload is returned that was not asked for");
        }
        if (!res) Bad("READFAIL", at + ": ReadVlsdData failed");
        for (size_t i = 0; i < rows.size(); ++i) {
          for (const auto& f : rows[i]->f) {
            if (f.name != v.off || !wanted(i)) continue;
            const auto it = i < offs.size() ? got.find(offs[i]) : got.end();
            if (it == got.end()) Bad("VALUE", at + "." + f.name + Fmt(": payload %zu is not returned by its offset", i));
            if (it->second != f.b) Bad("VALUE", at + "." + f.name + Fmt(": payload %zu fetched by offset is %zu bytes, logged %zu", i, it->second.size(), f.b.size()));
          }
        }
        c.count["payload_fetches"]++;
      }
      if (v.can) {
        if (!v.callback) {
          if (v.can->NofSamples() != n) Bad("LOST", at + ": message view has another number of messages");
          for (uint64_t i = 0; i < n; ++i) {
            auto* m = v.can->GetCanMessage(i);
            if (m == nullptr) Bad("LOST", at + Fmt(": message view misses message %d of %d", static_cast<int>(i), static_cast<int>(n)));
            v.got.emplace_back(i, *m);
          }
        }
        if (v.got.size() != n) Bad("LOST", at + Fmt(": message view returned %zu of %d messages", v.got.size(), static_cast<int>(n)));
        for (uint64_t i = 0; i < n; ++i) {
          if (v.got[i].first != i) Bad("ORDER", at + ": message view out of order");
          const auto e = DiffCan(v.got[i].second, rows[i]->can, v.frame, b.mand, Rel(rows[i]->ts, p.start));
          if (!e.empty()) Bad("VALUE", at + Fmt(": message view, message %d of %d: ", static_cast<int>(i), static_cast<int>(n)) + e);
        }
        c.count[v.callback ? "view_callback" : "view_queue"]++;
      }
      ++c.evals;
    }
    // more reads of the same data group, with new or the same observers
    const int more = static_cast<int>(c.K(q + "more", 0, 3));
    std::string hist;
    for (int k = 0; k < more; ++k) {
      const std::string qk = q + "h" + std::to_string(k) + ".";
      uint64_t most = 0;
      const bool keep = c.B(qk + "keep", 40);
      for (size_t f = 0; f < views.size(); ++f) {
        auto& v = views[f];
        v.got.clear();
        most = std::max<uint64_t>(most, v.rows.size());
        if (k == 0) v.filled.assign(v.rows.size(), true);
        if (!keep) v.filled.assign(v.rows.size(), false);
        if (keep || v.cg == nullptr) continue;
        sim::Api api;
        v.off.clear();
        v.t.reset();
        v.obs.clear();
        v.can.reset();
        if (c.B(qk + "skip" + std::to_string(f), 30)) continue;
        v.t = CreateChannelObserver(*dg, *v.cg, *v.cg->GetMasterChannel());
        const std::string base = FrameName(b.bus, v.frame) + ".";
        const uint64_t mask = c.H(qk + "mask");
        for (auto* cn : v.cg->Channels()) {
          if (cn->Name().compare(0, base.size(), base) != 0 || sim::Mix(mask, std::hash<std::string>{}(cn->Name())) % 3 == 0) continue;
          v.obs[cn->Name().substr(base.size())] = CreateChannelObserver(*dg, *v.cg, *cn);
        }
        if (b.bus == kCan && c.B(qk + "can", 40)) {
          v.can = std::make_unique<CanBusObserver>(*dg, *v.cg);
          v.callback = c.B(qk + "cb", 50);
          if (v.callback) {
            v.can->OnCanMessage = [&v](uint64_t s, const CanMessage& m) {
              v.got.emplace_back(s, m);
              return true;
            };
          }
        }
      }
      uint64_t a = 0, z = most;
      const bool range = c.B(qk + "range", 65);
      hist += keep ? "same " : "new ";
      if (range) {
        a = static_cast<uint64_t>(c.K(qk + "a", 0, 1'000'000)) % (most + 2);
        z = c.B(qk + "one", 20) ? a : a + static_cast<uint64_t>(c.K(qk + "b", 0, 1'000'000)) % (most + 2);
        hist += Fmt("range(%llu..%llu) ", static_cast<unsigned long long>(a), static_cast<unsigned long long>(z));
        sim::Api api;
        ok = rd->ReadPartialData(*dg, static_cast<size_t>(a), static_cast<size_t>(z));
      } else {
        hist += "full ";
        sim::Api api;
        ok = rd->ReadData(*dg);
      }
      if (!ok) Bad("READFAIL", std::string(who) + ": read failed after " + hist);
      c.count[range ? "bus_range_reads" : "bus_repeated_reads"]++;
      for (auto& v : views) {
        if (v.cg == nullptr) continue;
        const std::string at = std::string(who) + " " + FrameName(b.bus, v.frame) + ", history full " + hist;
        std::map<uint64_t, std::vector<const CanMessage*>> can;
        for (const auto& g : v.got) can[g.first].push_back(&g.second);
        for (uint64_t i = 0; i < v.rows.size(); ++i) {
          const Msg& m = *v.rows[i];
          if (i >= a && i <= z) v.filled[i] = true;
          const bool must = v.filled[i];
          const double want = Rel(m.ts, p.start);
          double t = 0;
          if (v.t) {
            const bool valid = v.t->GetChannelValue(i, t);
            if (must && !valid) Bad("HISTORY", at + Fmt(": message %d is not readable", static_cast<int>(i)));
            if (valid && std::fabs(t - want) > 1.5e-9) Bad("HISTORY", at + Fmt(": message %d has another time", static_cast<int>(i)));
          }
          for (const auto& f : m.f) {
            const auto o = v.obs.find(f.name);
            if (o == v.obs.end() || f.name == v.off) continue;
            const auto e = Diff(f, *o->second, i);
            if (!e.empty() && (must || e != "not valid")) Bad("HISTORY", at + ": " + f.name + Fmt(" of message %d of %zu%s: ", static_cast<int>(i), v.rows.size(), must ? "" : " (outside the range)") + e);
            ++c.checked_samples;
          }
          if (!v.can) continue;
          std::vector<const CanMessage*> got = can.count(i) ? can[i] : std::vector<const CanMessage*>{};
          const bool now = i >= a && i <= z;  // delivered by this read
          if (!v.callback) {
            got.clear();
            if (auto* x = v.can->GetCanMessage(i)) got.push_back(x);
          }
          if (got.empty() && (v.callback ? now : must)) Bad("HISTORY", at + Fmt(": message view misses message %d of %zu", static_cast<int>(i), v.rows.size()));
          if (got.size() > 1) Bad("HISTORY", at + Fmt(": message view has message %d %zu times", static_cast<int>(i), got.size()));
          for (auto* x : got) {
            const auto e = DiffCan(*x, m.can, v.frame, b.mand, want);
            if (!e.empty()) Bad("HISTORY", at + Fmt(": message view, message %d of %zu: ", static_cast<int>(i), v.rows.size()) + e);
          }
          if (v.callback && !got.empty() && (i + 1 < a || i > z + 1)) Bad("HISTORY", at + Fmt(": message view has message %d far outside the range", static_cast<int>(i)));
        }
        if (v.can && v.callback) {
          for (size_t i = 1; i < v.got.size(); ++i) if (v.got[i].first <= v.got[i - 1].first) Bad("HISTORY", at + ": message view out of order");
        }
        ++c.evals;
      }
    }
    sim::Api api;
    views.clear();
    dg->ClearData();
  }
}
void GenBus(Ctx& c, const std::string& ps, Plan& p) {
  const int nbus = c.B(ps + "two", 20) ? 2 : 1;
  p.own = c.B(ps + "adapter", 60);  // configuration through the adapters, one data group per bus
  for (int i = 0; i < nbus; ++i) {
    const std::string q = ps + "b" + std::to_string(i) + ".";
    BusCfg b;
    b.bus = static_cast<int>(c.K(q + "bus", 0, 4));
    b.filter = static_cast<int>(c.K(q + "filter", 0, 2));
    b.chan = static_cast<uint8_t>(c.K(q + "chan", 0, 60));
    b.mid = static_cast<uint64_t>(c.K(q + "mid", 0, 2000));
    if (c.B(q + "names", 30)) {
      b.network = "Net";
      b.device = c.B(q + "device", 50) ? "Dev <1>" : "";
      b.proto = c.B(q + "proto", 50) ? "J1939" : "";
      b.mname = c.B(q + "mname", 50) ? "Msg" : "";
    }
    // two channels of one bus, or several buses, in one data group
    b.join = i == 1 && p.own && c.B(q + "join", 50);
    if (i == 1 && b.join && b.bus == p.bus[0].bus && b.bus != kEth) {
      p.bus[0].filter = b.filter = 1;
      b.chan = static_cast<uint8_t>(p.bus[0].chan + 1);
    } else if (i == 1 && b.bus == p.bus[0].bus) {
      b.bus = (b.bus + 1) % 5;
    }
    static const MdfStorageType st[] = {MdfStorageType::FixedLengthStorage, MdfStorageType::VlsdStorage, MdfStorageType::MlsdStorage};
    b.st = st[c.K(ps + "storage", 0, 2)];
    b.mand = c.B(ps + "mandatory", 35);
    static const uint32_t ml[] = {8, 0, 64, 20, 12, 3};
    b.maxlen = ml[c.K(ps + "maxlen", 0, 5)];
    static const uint64_t pl[] = {8, 64, 300, 1500, 0, 65535};
    const int64_t k = c.K(q + "plen", 0, 23);
    b.plen = pl[k >= 20 ? (k < 23 ? 4 : 5) : k / 5];
    p.bus.push_back(b);
  }
  p.nprod = static_cast<int>(c.K(ps + "nprod", 1, 3));
  for (int i = 0; i < p.nprod; ++i) {
    const std::string q = ps + "p" + std::to_string(i) + ".";
    p.nmsg.push_back(static_cast<uint64_t>(c.K(q + "n", 0, c.B(q + "many", 20) ? 400 : 40)));
    static const uint64_t pauses[] = {0, 0, 3'000'000'000ull, 700'000'000ull, 11'000'000'000ull};
    p.pause.push_back(pauses[c.K(q + "pause", 0, 4)]);
  }
  p.npre = c.B(ps + "pre", 25) ? static_cast<uint64_t>(c.K(ps + "npre", 1, 20)) : 0;
  p.compress = c.B(ps + "compress", 30);
  p.periodic = !c.B(ps + "atstop", 20);
  p.saved.resize(p.bus.size());
  for (size_t i = 0; i < p.bus.size(); ++i) p.saved[i].resize(kFrames[static_cast<size_t>(p.bus[i].bus)].size());
}

// Logs one measurement; false if a call reports failure.
bool LogBus(Ctx& c, const std::string& ps, Plan& p, MdfWriter& w) {
  {
    sim::SetStage("configure");
    sim::Api api;
    w.CompressData(p.compress);
    w.SavePeriodic(p.periodic);
    w.PreTrigTime(p.npre > 0 ? 100.0 : 0.0);
    w.StorageType(p.bus[0].st);
    w.MaxLength(p.bus[0].maxlen);
    w.MandatoryMembersOnly(p.bus[0].mand);
    auto* hd = w.Header();
    p.dg_from = hd->DataGroups().size();
    uint16_t mask = 0;
    static const uint16_t bits[] = {MdfBusType::CAN, MdfBusType::LIN, MdfBusType::Ethernet, MdfBusType::MOST, MdfBusType::FlexRay};
    for (auto& b : p.bus) mask = static_cast<uint16_t>(mask | bits[b.bus]);
    w.BusType(mask);
    bool any_flx = false;
    for (auto& b : p.bus) any_flx |= b.bus == kFlx;
    if (!p.own && !any_flx) {
      if (!w.CreateBusLogConfiguration()) Bad("APIFAIL", "CreateBusLogConfiguration failed");
      for (auto& b : p.bus) b.dg = hd->LastDataGroup();
    } else {
      for (auto& b : p.bus) {
        b.dg = b.join ? p.bus[0].dg : hd->CreateDataGroup();
        const size_t first = b.dg->ChannelGroups().size();
        auto config = [&](auto&& ad) {
          static const MessageFilter kFilters[] = {MessageFilter::NoFilter, MessageFilter::ChannelFilter, MessageFilter::MessageIdFilter};
          ad.FilterType(kFilters[b.filter]);
          ad.ChannelFilter(b.chan);
          ad.IdFilter(b.mid);
          ad.NetworkName(b.network);
          ad.DeviceName(b.device);
          ad.Protocol(b.proto);
          ad.MessageName(b.mname);
          ad.CreateConfig(*b.dg);
        };
        switch (b.bus) {
          case kCan: config(CanConfigAdapter(w)); break;
          case kLin: config(LinConfigAdapter(w)); break;
          case kEth: config(EthConfigAdapter(w)); break;
          case kMost: config(MostConfigAdapter(w)); break;
          default: config(FlexRayConfigAdapter(w)); break;
        }
        const auto cgs = b.dg->ChannelGroups();
        const auto nf = static_cast<int>(kFrames[static_cast<size_t>(b.bus)].size());
        b.info.clear();
        for (size_t i = first; i < cgs.size(); ++i) {
          if ((cgs[i]->Flags() & CgFlag::VlsdChannel) != 0) continue;
          for (int f = 0; f < nf; ++f) {
            bool mine = false;
            for (auto* cn : cgs[i]->Channels()) mine |= cn->Name() == FrameName(b.bus, f);
            if (mine) b.info[f] = {cgs[i]->Name(), Source(*cgs[i]), Chans(*cgs[i])};
          }
        }
      }
    }
    p.dg_to = hd->DataGroups().size();
    sim::SetStage("InitMeasurement");
    if (!w.InitMeasurement()) return false;
    p.t_init_e = sim::Now();
  }
  p.start = 1'700'000'000'000'000'000ull + static_cast<uint64_t>(c.K(ps + "frac", 0, 999'999'999));
  static const int64_t units[] = {1'000, 1'000'000, 1'000'000'000};
  const int64_t unit = units[c.K(ps + "unit", 0, 2)];
  auto produce = [&](int pr, uint64_t from, uint64_t to) {
    for (uint64_t i = from; i < to; ++i) {
      Gen pick{sim::Mix(c.wseed, static_cast<uint64_t>(pr) * 1'000'000 + i)};
      if (!ps.empty()) pick.s = sim::Mix(pick.s, 77);
      const auto bi = static_cast<size_t>(pick.Raw() % p.bus.size());
      auto& b = p.bus[bi];
      const int nf = static_cast<int>(kFrames[static_cast<size_t>(b.bus)].size());
      int fr = static_cast<int>(pick.Raw() % static_cast<uint64_t>(nf));
      auto* cg = FindGroup(*b.dg, b, fr);
      if (cg == nullptr) {  // the mandatory configuration leaves some frames out
        if (!b.mand) Bad("META", "no group for " + FrameName(b.bus, fr));
        fr = 0;
        cg = FindGroup(*b.dg, b, 0);
        if (cg == nullptr) Bad("META", "no group for " + FrameName(b.bus, 0));
      }
      Msg m;
      m.bus = b.bus;
      m.frame = fr;
      m.prod = pr;
      m.seq = i;
      // the first messages of producer 0 may lie before the start
      const int64_t rel = (static_cast<int64_t>(i) * p.nprod + pr + 1 - static_cast<int64_t>(p.npre) * p.nprod) * unit + static_cast<int64_t>(sim::Mix(c.wseed, i) % 1000);
      m.ts = p.start + static_cast<uint64_t>(rel);
      const auto save = Make(b, fr, pick.Raw(), static_cast<int>(pick.Raw() % 2), m);
      p.saved[bi][static_cast<size_t>(fr)].push_back(m.ts);
      {
        sim::Api api;
        save(w, *cg);
      }
      m.vt = sim::Now();
      p.by_ts[rel] = m;
      if (p.pause[static_cast<size_t>(pr)] != 0 && pick.Raw() % 8 == 0) sim::Sleep(p.pause[static_cast<size_t>(pr)]);
    }
  };
  sim::SetStage("log before the start");
  produce(0, 0, p.npre);
  {
    sim::SetStage("StartMeasurement");
    sim::Api api;
    w.StartMeasurement(p.start);
  }
  p.t_start_e = sim::Now();
  sim::SetStage("log");
  if (p.nprod == 1) {
    produce(0, p.npre, p.npre + p.nmsg[0]);
  } else {
    std::vector<std::thread> th;
    for (int i = 0; i < p.nprod; ++i) th.emplace_back(produce, i, p.npre, p.npre + p.nmsg[static_cast<size_t>(i)]);
    for (auto& t : th) t.join();
  }
  if (c.B(ps + "idle", 40)) sim::Sleep(static_cast<uint64_t>(c.K(ps + "idle_s", 1, 25)) * 1'000'000'000ull);
  p.t_stop = sim::Now();
  {
    sim::SetStage("StopMeasurement");
    sim::Api api;
    w.StopMeasurement(p.start + 3'000'000'000'000ull);
  }
  sim::SetStage("FinalizeMeasurement");
  sim::Api api;
  return w.FinalizeMeasurement();
}

// What can be read from a file that may be damaged. Whatever is returned as valid must be right.
struct Found {
  bool open = false, all_ok = true;
  std::set<int64_t> present;
  uint64_t invalid = 0;
};
Found ReadSome(Ctx& c, Plan& p, const std::string& path, const std::string& who, bool sd_may_miss) {
  Found r;
  std::unique_ptr<MdfReader> rd;
  {
    sim::Api api;
    rd = std::make_unique<MdfReader>(path);
    r.open = rd->IsOk() && rd->ReadEverythingButData();
  }
  ++c.evals;
  if (!r.open || rd->GetHeader() == nullptr) {
    r.open = false;
    return r;
  }
  const auto dgs = rd->GetHeader()->DataGroups();
  std::set<IDataGroup*> done;
  for (size_t bi = 0; bi < p.bus.size(); ++bi) {
    const auto& b = p.bus[bi];
    IDataGroup* dg = nullptr;
    for (size_t k = p.dg_from; k < dgs.size() && k < p.dg_to; ++k) if (FindGroup(*dgs[k], b, 0) != nullptr) dg = dgs[k];
    if (dg == nullptr) {
      r.all_ok = false;
      continue;
    }
    const auto nf = kFrames[static_cast<size_t>(b.bus)].size();
    std::vector<std::unique_ptr<IChannelObserver>> tm(nf);
    std::vector<std::map<std::string, std::unique_ptr<IChannelObserver>>> obs(nf);
    std::vector<IChannelGroup*> cgs(nf);
    bool ok;
    {
      sim::Api api;
      for (size_t f = 0; f < nf; ++f) {
        auto* cg = cgs[f] = FindGroup(*dg, b, static_cast<int>(f));
        if (cg == nullptr || cg->GetMasterChannel() == nullptr || cg->NofSamples() > 100'000) {
          if (cg != nullptr) r.all_ok = false;
          cgs[f] = nullptr;
          continue;
        }
        const std::string base = FrameName(b.bus, static_cast<int>(f)) + ".";
        tm[f] = CreateChannelObserver(*dg, *cg, *cg->GetMasterChannel());
        for (auto* cn : cg->Channels()) {
          if (cn->Name().compare(0, base.size(), base) == 0) obs[f][cn->Name().substr(base.size())] = CreateChannelObserver(*dg, *cg, *cn);
        }
      }
      ok = rd->ReadData(*dg);
    }
    r.all_ok = r.all_ok && ok;
    for (size_t f = 0; f < nf; ++f) {
      if (cgs[f] == nullptr) continue;
      const std::string at = who + " " + FrameName(b.bus, static_cast<int>(f));
      std::map<int, uint64_t> last;
      for (uint64_t i = 0; i < cgs[f]->NofSamples(); ++i) {
        double t = 0;
        if (!tm[f]->GetChannelValue(i, t)) {
          ++r.invalid;
          continue;
        }
        const auto it = p.by_ts.find(static_cast<int64_t>(std::llround(t * 1e9)));
        if (it == p.by_ts.end() || it->second.bus != b.bus || it->second.frame != static_cast<int>(f)) {
          Bad("TIME", at + Fmt(": message %d has time %.9f that was not logged here", static_cast<int>(i), t));
        }
        const Msg& m = it->second;
        if (last.count(m.prod) && last[m.prod] >= m.seq) Bad("ORDER", at + ": messages of one producer in another order or twice");
        last[m.prod] = m.seq;
        bool whole = true;
        for (const auto& x : m.f) {
          const auto o = obs[f].find(x.name);
          if (o == obs[f].end()) continue;
          const auto e = Diff(x, *o->second, i);
          if (e.empty()) continue;
          if (e != "not valid") Bad("VALUE", at + "." + x.name + Fmt(" of message %d of %d: ", static_cast<int>(i), static_cast<int>(cgs[f]->NofSamples())) + e);
          if (!(sd_may_miss && x.kind == 2)) whole = false;
        }
        if (whole) r.present.insert(it->first);
        else ++r.invalid;
        ++c.checked_samples;
      }
    }
    sim::Api api;
    tm.clear();
    obs.clear();
    dg->ClearData();
  }
  return r;
}
void CountBus(Ctx& c, const Plan& p) {
  for (const auto& b : p.bus) {
    c.count[std::string("bus_") + kBusName[b.bus]]++;
    c.count[b.st == MdfStorageType::MlsdStorage ? "mlsd" : b.st == MdfStorageType::VlsdStorage ? "vlsd" : "sd"]++;
  }
  c.count["messages"] += p.by_ts.size();
  if (p.npre > 0) c.count["messages_before_start"] += p.npre;
}
// True if no channel has an invalid value.
bool AllValuesValid(const std::string& path) {
  sim::Api api;
  MdfReader rd(path);
  if (!rd.IsOk() || !rd.ReadEverythingButData()) Bad("READFAIL", "reading failed");
  for (auto* dg : rd.GetHeader()->DataGroups()) {
    ChannelObserverList list;
    for (auto* cg : dg->ChannelGroups()) {
      if ((cg->Flags() & CgFlag::VlsdChannel) == 0) CreateChannelObserverForChannelGroup(*dg, *cg, list);
    }
    if (!rd.ReadData(*dg)) Bad("READFAIL", "reading failed");
    for (const auto& o : list) {
      for (size_t i = 0; i < o->NofSamples(); ++i) {
        std::string v;
        if (!o->GetEngValue(i, v)) return false;
      }
    }
    list.clear();
    dg->ClearData();
  }
  return true;
}
void MustInit(MdfWriter& w, const std::string& path) {
  sim::Api api;
  if (!w.Init(path)) Bad("APIFAIL", "Init failed");
}
}  // namespace

void DriveBus(Ctx& c) {
  static const int kTypes[] = {2, 2, 2, 1, 3};
  const int wt = kTypes[c.K("wt", 0, 4)];
  const bool stream = c.B("stream", 20);
  const int nses = static_cast<int>(c.K("bses", 1, 1));
  std::vector<Plan> ses(static_cast<size_t>(nses));
  for (size_t i = 0; i < ses.size(); ++i) {
    const std::string ps = i == 0 ? "" : "S" + std::to_string(i) + ".";
    GenBus(c, ps, ses[i]);
    ses[i].reuse = i > 0 && (stream || c.B(ps + "reuse", 40));
    if (i > 0 && c.B(ps + "same", 35)) {  // the same configuration again
      ses[i].bus = ses[i - 1].bus;
      ses[i].own = ses[i - 1].own;
      ses[i].saved = ses[i - 1].saved;
    }
    if (i + 1 < ses.size() && c.B(ps + "none", 25)) {
      std::fill(ses[i].nmsg.begin(), ses[i].nmsg.end(), 0);
      ses[i].npre = 0;
    }
  }
  BeginRun(c);
  std::unique_ptr<MdfWriter> writer;
  auto buf = std::make_shared<MemBuf>();
  const std::string path = "w/bus.mf4";
  for (size_t i = 0; i < ses.size(); ++i) {
    const std::string ps = i == 0 ? "" : "S" + std::to_string(i) + ".";
    if (!ses[i].reuse) {
      {
        sim::Api api;
        writer = NewWriter(wt);
        if (stream && !writer->Init(buf)) Bad("APIFAIL", "Init failed");
      }
      if (!stream) MustInit(*writer, path);
    }
    if (!LogBus(c, ps, ses[i], *writer)) Bad("APIFAIL", "a measurement reports failure");
  }
  {
    sim::Api api;
    writer.reset();
  }
  sim::SetStage("read back");
  const std::string bytes = stream ? BufBytes(*buf) : ReadBytes(path);
  for (size_t i = 0; i < ses.size(); ++i) ReadBack(c, ses[i], path, stream ? buf : nullptr, Fmt("r%zu0.", i), nses == 1 ? "file" : i == 0 ? "first measurement" : "further measurement");
  const auto e = CheckStructure(bytes, StructOpt{});
  if (!e.empty()) Bad("STRUCT", e);
  if (c.B("reshape", 40)) {
    sim::SetStage("read reshaped");
    WriteBytes("w/re.mf4", Reshape(c, "re.", bytes));
    for (size_t i = 0; i < ses.size(); ++i) ReadBack(c, ses[i], "w/re.mf4", nullptr, Fmt("r%zu1.", i), "reshaped file");
    c.count["reshaped"]++;
  }
  if (c.sort && nses == 1) {
    sim::SetStage("sort");
    TaskDirs();
    std::string src = bytes;
    if (c.B("so.reshape", 30)) src = Reshape(c, "so.", bytes);
    WriteBytes("w/a/m.mf4", src);
    SortingTask task;
    task.SourceFile("w/a/m.mf4");
    task.DestinationFile("w/out/s.mf4");
    task.CompressData(c.B("so.zip", 40));
    sim::ArmFaults(c.faults);
    {
      sim::Api api;
      task.Run();
    }
    const bool fired = sim::AnyFaultFired();
    sim::DisarmFaults();
    sim::SetStage("check");
    ++c.evals;
    c.count[task.Error() ? "task_error" : "task_ok"]++;
    if (task.Error() == task.Result()) Bad("SILENT", "error and result of the task contradict each other");
    if (task.Error() && !fired) Bad("APIFAIL", "sorting failed without any fault: " + (task.MessageList().empty() ? "" : task.MessageList().back()));
    if (ReadBytes("w/a/m.mf4") != src) Bad("VALUE", "the source file was changed");
    if (task.Error()) {
      if (FileThere("w/out/s.mf4")) Bad("SILENT", "sorting failed, but left a destination file");
    } else {
      ReadBack(c, ses[0], "w/out/s.mf4", nullptr, "r2.", "sorted", true);
      const auto se = CheckStructure(ReadBytes("w/out/s.mf4"), StructOpt{});
      if (!se.empty()) Bad("STRUCT", "sorted file: " + se);
      c.count["sorted_bus"]++;
    }
  }
  if (c.task) {
    TaskFile tf;
    tf.bytes = c.B("so.reshape", 30) ? Reshape(c, "so.", bytes) : bytes;
    tf.ext = ".mf4";
    int again = 0;
    tf.check = [&](const std::string& p, const char* who) {
      for (size_t i = 0; i < ses.size(); ++i) ReadBack(c, ses[i], p, nullptr, Fmt("t%d.%zu.", again++, i), who);
      return AllValuesValid(p);
    };
    tf.structure = [&](const std::string& b, const char* who) {
      const auto se = CheckStructure(b, StructOpt{});
      if (!se.empty()) Bad("STRUCT", std::string(who) + ": " + se);
    };
    WriteBytes("w/task.mf4", tf.bytes);
    tf.all_valid = tf.check("w/task.mf4", "file of the task");
    c.task(tf);
  }
  for (const auto& p : ses) CountBus(c, p);
  c.count["bus_wtype" + std::to_string(wt)]++;
}

std::function<void()> SideLog(Ctx& c) {
  auto p = std::make_shared<Plan>();
  GenBus(c, "X.", *p);
  static const int kTypes[] = {2, 2, 1, 3};
  const int wt = kTypes[c.K("X.wt", 0, 3)];
  return [&c, p, wt] {
    std::unique_ptr<MdfWriter> writer;
    {
      sim::Api api;
      writer = NewWriter(wt);
    }
    MustInit(*writer, "w/side.mf4");
    if (!LogBus(c, "X.", *p, *writer)) Bad("APIFAIL", "a measurement reports failure");
    {
      sim::Api api;
      writer.reset();
    }
    ReadBack(c, *p, "w/side.mf4", nullptr, "Xr.", "file of the second writer");
    c.count["second_writer"]++;
  };
}

// C10: a storage failure while messages are logged
void DriveBusFault(Ctx& c) {
  Plan p;
  GenBus(c, "", p);
  const int wt = c.B("wt1", 25) ? 1 : c.B("wt3", 20) ? 3 : 2;
  BeginRun(c);
  bool ok;
  {
    auto writer = NewWriter(wt);
    MustInit(*writer, "w/bus.mf4");
    sim::ArmFaults(c.faults);
    ok = LogBus(c, "", p, *writer);
    if (!ok && c.B("again", 40)) {
      sim::Api api;
      writer->FinalizeMeasurement();
    }
    sim::SetStage("destroy");
    sim::Api api;
    writer.reset();
  }
  const bool fired = sim::AnyFaultFired();
  sim::DisarmFaults();
  c.count[!fired ? "no_fault" : !ok ? "failure_reported" : "fault_survived"]++;
  c.count["bus_fault_runs"]++;
  if (!ok && !fired) Bad("APIFAIL", "a measurement of messages reports failure without any fault");
  if (ok) {
    sim::SetStage("read back");
    ReadBack(c, p, "w/bus.mf4", nullptr, "r0.", fired ? "all calls had reported success despite storage faults:" : "file");
    const auto e = CheckStructure(ReadBytes("w/bus.mf4"), StructOpt{});
    if (!e.empty()) Bad("STRUCT", e);
  }
  if (sim::OpenFileCount() != 0) Bad("LEAK", "files are still open after the writer was destroyed");
  CountBus(c, p);
}

// C11: a damaged or failing file of messages
void DriveBusDamage(Ctx& c) {
  Plan p;
  GenBus(c, "", p);
  BeginRun(c);
  {
    auto writer = NewWriter(2);
    MustInit(*writer, "w/bus.mf4");
    if (!LogBus(c, "", p, *writer)) Bad("APIFAIL", "a measurement reports failure");
    sim::Api api;
    writer.reset();
  }
  auto bytes = ReadBytes("w/bus.mf4");
  std::string path = "w/bus.mf4";
  if (c.B("reshape", 25)) {
    bytes = Reshape(c, "re.", bytes);
    path = "w/re.mf4";
    WriteBytes(path, bytes);
  }
  auto check = [&](const std::string& file, const std::string& who) {
    const auto r = ReadSome(c, p, file, who, false);
    if (!r.open || !r.all_ok) {
      c.count[r.open ? "read_failed" : "open_or_info_failed"]++;
      return;
    }
    c.count[r.invalid ? "marked_invalid" : "complete"]++;
    if (r.present.size() + r.invalid < p.by_ts.size()) {
      Bad("SILENT", Fmt("%s: all read calls succeed but %zu of %zu messages are returned (%llu marked invalid)", who.c_str(), r.present.size() + static_cast<size_t>(r.invalid), p.by_ts.size(),
                        static_cast<unsigned long long>(r.invalid)));
    }
  };
  sim::SetStage("read with faults");
  sim::ArmFaults(c.faults);
  check(path, "read faults");
  sim::DisarmFaults();
  c.count[sim::AnyFaultFired() ? "read_fault_runs" : "no_fault"]++;
  const int n = static_cast<int>(c.K("t.n", 1, c.thorough ? 12 : 4));
  sim::Rng r(sim::Mix(c.seed, 0x7C));
  for (int i = 0; i < n; ++i) {
    const uint64_t at = static_cast<uint64_t>(c.set.count("t.at") ? c.K("t.at", 0, 1) : static_cast<int64_t>(
        r.Chance(0.3) ? bytes.size() - 1 - r.Below(std::min<uint64_t>(bytes.size() - 1, 400)) : r.Below(bytes.size())));
    WriteBytes("w/cut.mf4", bytes.substr(0, at));
    sim::SetStage("read truncated");
    check("w/cut.mf4", Fmt("file truncated to %llu of %zu bytes:", static_cast<unsigned long long>(at), bytes.size()));
    c.count["truncations"]++;
  }
  c.count["bus_files"]++;
  if (sim::OpenFileCount() != 0) Bad("LEAK", "files are still open after the reader was destroyed");
  CountBus(c, p);
}

// C09: the process dies while messages are logged
void DriveBusCrash(Ctx& c) {
  Plan p;
  GenBus(c, "", p);
  const int wt = c.B("wt1", 25) ? 1 : 2;
  BeginRun(c);
  sim::JournalOn(true);
  uint64_t fin_op = 0;
  {
    auto writer = NewWriter(wt);
    MustInit(*writer, "w/bus.mf4");
    if (!LogBus(c, "", p, *writer)) Bad("APIFAIL", "a measurement reports failure");
    fin_op = sim::Journal().size();
    sim::Api api;
    writer.reset();
  }
  sim::JournalOn(false);
  const auto& names = sim::JournalFiles();
  int file = -1;
  for (size_t i = 0; i < names.size(); ++i) if (names[i] == "w/bus.mf4") file = static_cast<int>(i);
  if (file < 0) Bad("HARNESS", "output file is not in the journal");
  std::vector<const sim::JournalOp*> ops;
  for (const auto& o : sim::Journal()) if (o.file == file) ops.push_back(&o);
  std::set<size_t> points;
  const int np = static_cast<int>(c.K("cr.n", 3, c.thorough ? 16 : 8));
  for (int i = 0; i < np; ++i) {
    size_t k = static_cast<size_t>(c.K(Fmt("cr.%d.at", i), 0, 1'000'000)) % (ops.size() + 1);
    if (c.B(Fmt("cr.%d.open", i), 40)) while (k > 0 && (k == ops.size() || ops[k]->type != 'O')) --k;
    points.insert(k);
  }
  const bool sd = p.bus[0].st == MdfStorageType::FixedLengthStorage;  // payloads are written when the file is finalized
  const bool timely = p.periodic && !p.compress && p.dg_to - p.dg_from == 1 && sim::GetStats().timer_jumps == 0;
  (void)fin_op;
  Image im, closed;
  size_t pos = 0, last_close = 0, closed_for = ~size_t{0};
  std::set<int64_t> kept;
  sim::SetStage("crash");
  for (const auto k : points) {
    for (; pos < k; ++pos) {
      Apply(im, *ops[pos], ops[pos]->data.size());
      if (ops[pos]->type == 'C') {
        last_close = pos + 1;
        closed = im;
      }
    }
    if (!im.exists) continue;
    const uint64_t now = k < ops.size() ? ops[k]->time : sim::Now();
    if (last_close != 0 && closed_for != last_close) {
      closed_for = last_close;
      WriteBytes("w/crash.mf4", closed.bytes);
      const auto r = ReadSome(c, p, "w/crash.mf4", "after a completed save:", sd);
      if (!r.open) Bad("READFAIL", "the file of a completed save cannot be opened");
      if (r.invalid) Bad("CRASHLOSS", Fmt("the file of a completed save counts %llu messages that it does not hold", static_cast<unsigned long long>(r.invalid)));
      kept = r.present;
      for (const auto& [rel, m] : p.by_ts) {
        const bool old = timely && std::max(m.vt, p.t_start_e) + 20'500'000'000ull < now && now <= p.t_stop;
        const bool fin = last_close == ops.size();
        if ((old || fin) && !kept.count(rel)) {
          Bad("CRASHLOSS", Fmt("crash at %.3f s: message %lld ns after the start, logged at %.3f s, is not in the file", (static_cast<double>(now) - 1e12) / 1e9,
                               static_cast<long long>(rel), (static_cast<double>(m.vt) - 1e12) / 1e9));
        }
      }
      c.count["saves_checked"]++;
    }
    WriteBytes("w/crash.mf4", im.bytes);
    const auto r = ReadSome(c, p, "w/crash.mf4", "crash:", sd);
    for (const auto rel : kept) {
      if (!r.present.count(rel)) Bad("CRASHLOSS", Fmt("crash after file operation %zu of %zu: message %lld ns after the start, saved by a completed save, is lost", k, ops.size(), static_cast<long long>(rel)));
    }
    c.count["bus_crash_points"]++;
    // marked as unfinished: the counters are to be taken from the data
    if (last_close != 0 && im.bytes.size() > 64 && !p.compress && p.dg_to - p.dg_from == 1 && ops[last_close - 1]->time > p.t_init_e && now < p.t_stop && c.B("cr.flag", 40)) {
      auto u = im.bytes;
      memcpy(&u[0], "UnFinMF ", 8);
      u[60] = c.B("cr.vflag", 50) ? 0x25 : 0x05;
      u[61] = 0;
      WriteBytes("w/crash.mf4", u);
      const auto ru = ReadSome(c, p, "w/crash.mf4", "unfinished:", sd);
      for (const auto rel : r.present) {
        if (!ru.present.count(rel)) Bad("CRASHLOSS", Fmt("repair of the unfinished file lost message %lld ns after the start", static_cast<long long>(rel)));
      }
      if (ru.invalid > r.invalid + 2) Bad("CRASHLOSS", Fmt("repair of the unfinished file counts %llu messages that it does not hold", static_cast<unsigned long long>(ru.invalid)));
      c.count["bus_unfinished_repairs"]++;
      WriteBytes("w/crash.mf4", im.bytes);
    }
    c.states.insert(sim::Mix(im.bytes.size(), k, 3, r.present.size()));
    if (last_close != 0 && c.B("cr.append", 40)) {
      Plan q;
      q.bus = p.bus;
      q.saved.resize(q.bus.size());
      for (size_t i = 0; i < q.bus.size(); ++i) q.saved[i].resize(kFrames[static_cast<size_t>(q.bus[i].bus)].size());
      q.own = p.own;
      q.nmsg = {5};
      q.pause = {0};
      {
        auto writer = NewWriter(wt);
        MustInit(*writer, "w/crash.mf4");
        if (!LogBus(c, "A.", q, *writer)) Bad("APIFAIL", "recording in the file left by a crash reports failure");
        sim::Api api;
        writer.reset();
      }
      sim::SetStage("crash");
      const auto r2 = ReadSome(c, p, "w/crash.mf4", "after the restart:", sd);
      for (const auto rel : kept) {
        if (!r2.present.count(rel)) Bad("CRASHLOSS", Fmt("recording after the restart lost message %lld ns after the start", static_cast<long long>(rel)));
      }
      ReadBack(c, q, "w/crash.mf4", nullptr, "rA.", "recorded after the restart");
      c.count["restarts"]++;
    }
  }
  CountBus(c, p);
}
}  // namespace h
