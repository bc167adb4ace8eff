// C17: recording to and reading from caller supplied stream buffers.
#include <fstream>

#include "h.h"

using namespace mdf;
namespace h {
namespace {
// The user's own file buffer: the library must never close it or treat it as its own file.
class UserFile : public std::filebuf {};

IChannelGroup* SmallConfig(MdfWriter& w) {
  auto* dg = w.CreateDataGroup();
  auto* cg = MdfWriter::CreateChannelGroup(dg);
  cg->Name("Prior");
  auto* cn = MdfWriter::CreateChannel(cg);
  cn->Name("V");
  cn->Type(ChannelType::FixedLength);
  cn->DataType(ChannelDataType::UnsignedIntegerLe);
  cn->DataBytes(4);
  return cg;
}
}  // namespace

void DriveStream(Ctx& c) {
  if (c.B("busfile", 12)) return DriveBus(c);
  World w;
  GenPlan(c, w);
  const auto kind = c.K("st.kind", 0, 2);  // 0, 1: in memory, 2: the user's file buffer
  const auto prior = c.K("st.prior", 0, 3);  // what the writer was used for before
  World f;  // the same measurement into a file
  f.c = &c;
  f.wtype = w.wtype;
  f.small_base = w.small_base;
  f.ses = w.ses;
  f.path = w.wtype == 0 ? "w/twin.mdf" : "w/twin.mf4";
  BeginRun(c);
  std::shared_ptr<UserFile> user;
  if (kind == 2) {
    user = std::make_shared<UserFile>();
    if (user->open("w/user.bin", std::ios_base::in | std::ios_base::out | std::ios_base::trunc | std::ios_base::binary) == nullptr) {
      Bad("HARNESS", "cannot open the user's file");
    }
    w.buf = user;
  } else {
    w.buf = std::make_shared<MemBuf>();
  }
  std::shared_ptr<MemBuf> old;
  std::string prior_file;
  if (prior == 1) {
    w.prior = [&](World& x) {
      sim::Api api;
      x.writer->Init(prior_file = "w/prior.mf4");
    };
  } else if (prior == 2) {
    w.prior = [&](World& x) {
      sim::Api api;
      x.writer->Init(prior_file = "w/prior.mf4");
      auto* cg = SmallConfig(*x.writer);
      x.writer->InitMeasurement();
      x.writer->StartMeasurement(1'000'000'000);
      x.writer->SaveSample(*cg, 2'000'000'000);
      x.writer->StopMeasurement(3'000'000'000);
      if (!x.writer->FinalizeMeasurement()) Bad("APIFAIL", "FinalizeMeasurement of the earlier file failed");
    };
  } else if (prior == 3) {
    w.prior = [&](World& x) {
      sim::Api api;
      old = std::make_shared<MemBuf>();
      x.writer->Init(old);
      SmallConfig(*x.writer);
      x.writer->InitMeasurement();
    };
  }
  c.count["target_" + std::string(kind == 2 ? "filebuf" : "memory")]++;
  c.count["prior" + std::to_string(prior)]++;
  const int n = static_cast<int>(w.ses.size());
  std::string prior_bytes;
  for (int s = 0; s < n; ++s) {
    RunSession(w, s);
    w.prior = nullptr;
    sim::SetStage("read stream");
    if (user && !user->is_open()) Bad("HISTORY", "the writer closed the caller's stream buffer");
    if (user) {  // a finalized measurement is handed over to the file below
      const auto disk = ReadBytes("w/user.bin");
      if (disk != BufBytes(*w.buf)) Bad("LOST", "the finalized measurement is not flushed to the file below the stream");
      ++c.evals;
    }
    ReadAndCheck(w, s + 1, 0, "", w.buf, "stream ");
    if (s == 0 && prior == 2) prior_bytes = ReadBytes(prior_file);
  }
  Timed(w, "destroy", [&] { w.writer.reset(); });
  if (user && !user->is_open()) Bad("HISTORY", "the writer closed the caller's stream buffer");
  if (prior == 2 && ReadBytes(prior_file) != prior_bytes) Bad("HISTORY", "recording to a stream changed the file of the writer's earlier measurement");
  w.buf->pubsync();
  const auto bytes = BufBytes(*w.buf);
  StructCheckFile(w, bytes, "stream");

  RunAll(f);
  sim::SetStage("read file");
  ReadAndCheck(f, n, 0, f.path, nullptr, "file ");
  // Crosswise: what was recorded to a stream as a file, and a file as a stream.
  sim::SetStage("read across");
  WriteBytes("w/across.mf4", bytes);
  ReadAndCheck(w, n, 0, "w/across.mf4", nullptr, "stream read as file ");
  ReadAndCheck(f, n, 0, "", std::make_shared<MemBuf>(ReadBytes(f.path)), "file read as stream ");
  StructCheckFile(f, ReadBytes(f.path), "file");
  c.evals += 4;
  CountRun(c, w);
  CountRun(c, f);
}
}  // namespace h
