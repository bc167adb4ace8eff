#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because jsonl is awkward to edit)."""
import json, os
S='mdflib/src/'
def m(*a): return [{"name":n,"where":w} for n,w in a]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
       "why_tests_cant":why,"anchors":{"files":files,"mechanism":mech,"observe_at":observe,"hook_needed":hook}}
    if state: d["anchors"]["state"]=state
    P.append(d)

p("C01","Every saved sample is in the finalized file exactly once, in order",
  "After a measurement is stopped and finalized successfully, reading the file returns, for every channel group, exactly the samples saved for it after the start, each once, in the order they were saved, with every channel value and validity as set. This holds for every file format, record layout, number of data groups and channel groups, saving mode (periodic or at stop) and timing of the background writer relative to the callers.",
  ["schedules","inputs","configurations","histories"],
  "all writer types, DG/CG/CN layouts, sample sequences, and interleavings of producers with the background saver's wake-ups",
  "The tests save a few fixed sequences at full speed, so the 10 s background save almost never runs concurrently with producers, and most write tests are not among the stable ones.",
  [S+"writecache.cpp",S+"samplequeue.cpp",S+"writer4samplequeue.cpp",S+"convertersamplequeue.cpp",S+"mdfwriter.cpp",S+"mdf3writer.cpp",S+"mdf4writer.cpp",S+"cg4block.cpp",S+"cg3block.cpp",S+"dg4block.cpp",S+"dg3block.cpp",S+"channelobserver.cpp",S+"readcache.cpp",S+"cg4datawriter.cpp"],
  m(("per-DG sample queue drained by one worker thread",S+"writecache.cpp WorkThread"),("append to DT/HL-DL-DZ and update of sample counters",S+"writer4samplequeue.cpp SaveQueue/CleanQueue"),("final drain on stop",S+"writecache.cpp StopWorkThread")),
  ["MdfWriter::SaveSample/AddSample/StopMeasurement/FinalizeMeasurement","MdfReader::ReadData + IChannelObserver"])

p("C02","Concurrent producers and the background saver never interfere",
  "Any number of threads may save samples or bus messages while the measurement is running; no interleaving with each other or with the background saver loses, duplicates, mixes or corrupts a sample, breaks one producer's own order, crashes, or lets two threads touch the same memory without ordering.",
  ["schedules","inputs","configurations"],
  "all interleavings of several producer threads, the worker thread and the controlling thread at lock, atomic, I/O and memory-access granularity",
  "No test runs more than one producer thread, and the real scheduler would practically never hit the windows between unlocking for I/O and re-locking.",
  [S+"writecache.cpp",S+"writecache.h",S+"samplequeue.cpp",S+"writer4samplequeue.cpp",S+"convertersamplequeue.cpp"],
  m(("one mutex per write cache, released around file I/O",S+"writecache.cpp, "+S+"*samplequeue.cpp"),("atomic writer state, start, stop and pre-trigger times","include/mdf/mdfwriter.h")),
  ["SaveSample/SaveCanMessage/AddSample from several threads","file content","happens-before order of memory accesses"])

p("C03","Variable-length values stay with their own sample",
  "Every variable-length string or byte payload saved with a sample is read back with that same sample, byte for byte and length for length, whether stored as signal data or as variable-length records, compressed or not, saved periodically or at stop. Reading only the offsets and fetching selected payloads afterwards yields the same bytes as reading them directly.",
  ["schedules","inputs","configurations","histories"],
  "all payload length sequences (including empty, repeated and larger than one data block), storage types, and moments at which the background saver splits the stream",
  "The tests use a handful of short strings saved in one piece; offset bookkeeping across several periodic saves or blocks is not reached.",
  [S+"cn4block.cpp",S+"cg4block.cpp",S+"dg4block.cpp",S+"readcache.cpp",S+"channelobserver.cpp",S+"writer4samplequeue.cpp",S+"convertersamplequeue.cpp",S+"sd4block.cpp"],
  m(("offset counter for VLSD records",S+"cg4block.cpp WriteVlsdSample"),("signal data buffer and flush at finalize",S+"cn4block.cpp WriteSignalData"),("offset based fetch",S+"readcache.cpp, mdfreader.cpp ReadVlsdData")),
  ["IChannelObserver values","MdfReader::ReadVlsdData"])

p("C04","Bus messages are read back exactly as they were logged",
  "Every CAN, LIN, Ethernet, MOST and FlexRay message logged into its channel group is read back with all the fields and payload bytes it was logged with, for every storage type and maximum length that can hold it, in the order logged. The CAN message view of a file returns the same messages as the channels do.",
  ["inputs","configurations","schedules"],
  "all message contents allowed by the message classes, all adapter configurations (storage type, maximum length, mandatory members only), and save timings",
  "Bus logger tests write a few constant messages and are not in the stable set; field packing is only sampled.",
  [S+"canmessage.cpp",S+"linmessage.cpp",S+"ethmessage.cpp",S+"mostmessage.cpp",S+"flexraymessage.cpp",S+"canconfigadapter.cpp",S+"linconfigadapter.cpp",S+"ethconfigadapter.cpp",S+"mostconfigadapter.cpp",S+"flexrayconfigadapter.cpp",S+"canbusobserver.cpp",S+"samplequeue.cpp"],
  m(("raw frame packing",S+"*message.cpp ToRaw"),("matching channel layout",S+"*configadapter.cpp"),("CAN frame parsing",S+"canbusobserver.cpp")),
  ["SaveXxxMessage","channel values of the frame members","CanBusObserver"])

p("C05","Sample times are relative to the start time that the file states",
  "In the finalized file the master time of every sample plus the start time passed when the measurement was started equals the absolute time the sample was saved with, also for samples saved before the start and samples saved while the start call is in progress. The file's start time is the start time of the first measurement in it.",
  ["schedules","inputs","histories"],
  "all interleavings of the start call, producers and the background saver, all clock jumps, all sequences of sessions",
  "Needs the background tick to fall inside the start call or producers to race with it; tests are single threaded and never reach that.",
  [S+"mdfwriter.cpp",S+"samplequeue.cpp",S+"writecache.cpp",S+"ichannel.cpp",S+"hd4block.cpp",S+"hd3block.cpp"],
  m(("recalculation of queued samples at start",S+"samplequeue.cpp RecalculateTimeMaster"),("relative time at save",S+"samplequeue.cpp RecalculateTime"),("header start time",S+"mdfwriter.cpp StartMeasurement")),
  ["master channel values","IHeader::StartTime"])

p("C06","The pre-trigger window is kept, no more and no less",
  "Samples saved before the start are kept exactly when they lie within the configured pre-trigger time before the start, plus the one sample just before that window in each data group; all older ones are dropped by the file and bus loggers (the converter keeps every sample) and none saved after the start is dropped. The result does not depend on when the background trimming runs, and the memory held before the start stays bounded by the window.",
  ["schedules","inputs","configurations"],
  "all pre-trigger times, sample times and numbers of background trims before the start",
  "Tests use one pre-trigger configuration and never run long enough for trims to happen before the start.",
  [S+"samplequeue.cpp",S+"writecache.cpp",S+"mdfwriter.cpp"],
  m(("queue trimming",S+"samplequeue.cpp TrimQueue"),("trim on every tick before the start",S+"writecache.cpp WorkThread")),
  ["samples read back","NofSamples"])

p("C07","Compression never changes what is read back",
  "A file written with compression enabled gives, when read in any way, exactly the samples, variable-length payloads, order and metadata that the same measurement written without compression gives. This holds for any number and size of compressed blocks and wherever their borders fall in the record stream.",
  ["inputs","configurations","schedules"],
  "all record sizes and counts up to several compressed blocks per data group, saved periodically or at stop, all block border positions",
  "Block borders relative to records, several data groups and periodic partial blocks are not covered by the tests.",
  [S+"writer4samplequeue.cpp",S+"convertersamplequeue.cpp",S+"hl4block.cpp",S+"dl4block.cpp",S+"dz4block.cpp",S+"datablock.cpp",S+"datalistblock.cpp",S+"readcache.cpp",S+"zlibutil.cpp",S+"cn4block.cpp"],
  m(("DZ block building",S+"writer4samplequeue.cpp CleanQueueCompressed"),("inflate and block walking",S+"dz4block.cpp, "+S+"readcache.cpp")),
  ["MdfReader::ReadData/ReadPartialData","IChannelObserver"])

p("C08","Appending a session leaves earlier measurements untouched",
  "Opening an existing file and recording further measurements into it keeps every earlier measurement readable with unchanged samples, times, names, attachments and metadata, and adds exactly the new ones. Any number of sessions, with any mix of layouts and settings, may follow each other, in the same or a new writer.",
  ["histories","inputs","configurations"],
  "all sequences of sessions over one file",
  "Tests append once or twice with a fixed layout and mostly check the newest data only.",
  [S+"mdfwriter.cpp",S+"mdf4writer.cpp",S+"mdf4file.cpp",S+"mdf3file.cpp",S+"mdfblock.cpp",S+"dg4block.cpp",S+"hd4block.cpp",S+"cg4block.cpp",S+"cn4block.cpp",S+"writecache.cpp"],
  m(("re-read of the existing blocks",S+"mdfwriter.cpp Init"),("update-in-place of already written blocks",S+"mdfblock.cpp"),("data groups with samples are inactive",S+"writecache.cpp Init")),
  ["full read of every data group after each session"])

p("C09","A crash never loses or falsifies what a completed background save wrote",
  "If the process dies at any moment, the file can be opened afterwards and every sample that a completed background save had put into it is read back correctly and in order; nothing that was not saved is ever returned as a valid sample. Opening such a file for writing again keeps the same samples, and samples older than two save periods are always among them when a file or bus logger saves one data group periodically without compression.",
  ["crash_points","schedules","configurations","histories"],
  "every point in the sequence of writes issued to the file, including torn writes, and any later reopening",
  "No test kills the writer; there is no crash or partial-write testing at all.",
  [S+"writer4samplequeue.cpp",S+"samplequeue.cpp",S+"mdf4file.cpp",S+"mdf3file.cpp",S+"idblock.cpp",S+"dg4block.cpp",S+"dt4block.cpp",S+"cg4block.cpp",S+"cg3block.cpp"],
  m(("append-only periodic save then counter update",S+"writer4samplequeue.cpp SaveQueue"),("finalization of unfinalized files",S+"idblock.cpp, "+S+"dg4block.cpp")),
  ["MdfReader on the surviving bytes","MdfWriter::Init + FinalizeMeasurement on them"])

p("C10","A storage failure is never silent and never fatal",
  "When opening, writing or flushing the output file fails at any point, the application keeps running, and either the finished file still holds everything, or at least one of the initialise and finalise calls reports failure. Once the storage works again, the writer can be finalised, destroyed or initialised again without crash or hang.",
  ["fault_sequences","schedules","configurations"],
  "all single and repeated I/O failures (no space, I/O error, failing open, failing close) at every operation, transient or permanent",
  "No test injects an I/O error.",
  [S+"mdfwriter.cpp",S+"mdfblock.cpp",S+"writecache.cpp",S+"samplequeue.cpp",S+"writer4samplequeue.cpp",S+"convertersamplequeue.cpp",S+"mdfconverter.cpp",S+"mdf3file.cpp",S+"mdf4file.cpp"],
  m(("result of InitMeasurement/FinalizeMeasurement",S+"mdfwriter.cpp"),("exception handling in the worker",S+"writecache.cpp WorkThread"),("open retry",S+"mdfblock.cpp OpenMdfFile")),
  ["InitMeasurement/FinalizeMeasurement return values","file content","process survival"])

p("C11","Reading a damaged or failing file never returns wrong data as valid",
  "When the file is truncated at any length or reads fail at any point, reading either reports failure, or marks the affected samples invalid, or returns exactly the samples that were written; a successful read of all data never contains a wrong or missing value marked valid. Reading always terminates and never crashes.",
  ["fault_sequences","inputs","crash_points"],
  "every truncation length and every failing or short read, for every kind of file the writers produce",
  "No test reads truncated files or injects read errors.",
  [S+"mdfreader.cpp",S+"mdfblock.cpp",S+"readcache.cpp",S+"datablock.cpp",S+"dz4block.cpp",S+"channelobserver.cpp",S+"dg4block.cpp",S+"dg3block.cpp",S+"mdf4file.cpp",S+"mdf3file.cpp"],
  m(("read result and exception handling",S+"mdfreader.cpp"),("record parsing over data blocks",S+"readcache.cpp"),("per sample valid flags",S+"channelobserver.cpp")),
  ["MdfReader return values","IChannelObserver validity"])

p("C12","Every way and every history of reading gives the same values",
  "For any sequence of full reads, range reads, offset-only reads, repeated reads, reads with some or all channels observed and close/reopen, each observed channel ends up with the same value and validity for a sample as one fresh full read gives. A range read delivers all samples of the range, at most a sample next to it more, and never a wrong value.",
  ["histories","inputs","configurations"],
  "all sequences of reader operations over one open file and all sample ranges",
  "Tests do one full read per file, and a few range reads of fixed ranges.",
  [S+"mdfreader.cpp",S+"readcache.cpp",S+"channelobserver.cpp",S+"dg4block.cpp",S+"dg3block.cpp",S+"cgrange.cpp",S+"dgrange.cpp",S+"samplerecordobserver.cpp"],
  m(("observers rebuilt per read",S+"channelobserver.cpp"),("range selection",S+"dgrange.cpp, "+S+"cgrange.cpp"),("read cache over data blocks",S+"readcache.cpp")),
  ["IChannelObserver values after each operation"])

p("C13","Every writer call returns within bounded time and always makes progress",
  "Stopping, finalising, initialising and destroying a writer, with or without a measurement in progress, returns within a bounded time for every schedule, and stopping does not wait for the background period. Retries of an existing file that cannot be opened end after a bounded time, and continue successfully if it becomes available in between.",
  ["schedules","fault_sequences","histories"],
  "all schedules, lost-wake-up windows, and durations for which the file cannot be opened",
  "Lost wake-ups and deadlocks need specific interleavings; a delay of one period is invisible to value assertions.",
  [S+"writecache.cpp",S+"mdfwriter.cpp",S+"mdfblock.cpp",S+"mdfconverter.cpp",S+"samplequeue.cpp",S+"writer4samplequeue.cpp"],
  m(("stop flag and notification",S+"writecache.cpp StopWorkThread"),("bounded open retry",S+"mdfblock.cpp OpenMdfFile")),
  ["simulated time spent in each API call","deadlock/livelock detection"])

p("C14","Sorting a file preserves all its data and reports every failure",
  "Sorting an MDF 4 measurement file produces a file in which every channel group has its own data group and every sample, variable-length payload, name, time and attachment equals the source; the source file is never changed. Events are not kept. If any step fails, or the file is not an MDF 4 file or is incomplete, the task reports an error and leaves no destination that looks complete.",
  ["inputs","fault_sequences","configurations"],
  "all source layouts the writers can produce, storage and compression options, and I/O failures at every operation",
  "The task tests sort a few fixed files without any failure.",
  [S+"sortingtask.cpp",S+"mdftask.cpp",S+"copysampleobserver.cpp",S+"mdfconverter.cpp",S+"convertersamplequeue.cpp"],
  m(("copy observer feeding a converter writer",S+"copysampleobserver.cpp"),("temporary file then copy",S+"mdftask.cpp CopyTempFile")),
  ["MdfTask::Error/Result","destination file","source bytes"])

p("C15","Attachments are stored and exported byte for byte or failure is reported",
  "An attached file that exists when it is stored, embedded or not, compressed or not, is exported later with exactly the bytes it had when it was stored, through any number of later sessions in the same file. If its bytes cannot be read, stored or written out completely, the operation reports failure and a damaged attachment is never exported as success.",
  ["inputs","fault_sequences","histories"],
  "all attachment sizes and contents, compression settings, later append sessions, and I/O failures",
  "Tests attach one small file and export it once.",
  [S+"at4block.cpp",S+"mdf4file.cpp",S+"mdfreader.cpp",S+"hd4block.cpp",S+"zlibutil.cpp",S+"cryptoutil.cpp"],
  m(("deflate/inflate of the embedded data",S+"at4block.cpp"),("MD5 check on export",S+"at4block.cpp")),
  ["MdfReader::ExportAttachmentData result and output bytes"])

p("C16","Configuration written before the measurement survives in the file",
  "Names, units, limits, descriptions and comments with their properties, conversions, source information, channel arrays, channel hierarchies, events, attachment descriptions, file history and header texts that were set before the measurement was initialised are read back unchanged after it, with every reference from one object to another leading to the same object, for every number of periodic saves and sessions in between, and changing the data never changes them. A file closed by the library is always structurally valid: every link leads to a block of the right kind inside the file and every counter agrees with the data.",
  ["configurations","histories","schedules"],
  "all generated configurations, save timings and session sequences",
  "Tests check single attributes of fixed configurations directly after one session, and references only where the target happens to be written first.",
  [S+"mdf4file.cpp",S+"mdf3file.cpp",S+"hd4block.cpp",S+"dg4block.cpp",S+"cg4block.cpp",S+"cn4block.cpp",S+"cc4block.cpp",S+"si4block.cpp",S+"ev4block.cpp",S+"ch4block.cpp",S+"ca4block.cpp",S+"fh4block.cpp",S+"tx4block.cpp",S+"md4block.cpp",S+"mdfblock.cpp"],
  m(("block write and update-in-place",S+"mdfblock.cpp"),("link lists",S+"mdfblock.cpp WriteLink4List")),
  ["MdfReader::ReadEverythingButData","independent structural check of the bytes"])

p("C17","Recording to a user stream equals recording to a file",
  "A measurement recorded into a caller supplied stream buffer (with one common position for reading and writing, as a file buffer has) contains the same measurement data and configuration as the same measurement recorded into a file, for every writer type and save timing, and can be read from a stream buffer with the same result as from a file.",
  ["configurations","schedules","inputs"],
  "all measurements of C01 with both kinds of targets",
  "One test writes one fixed measurement through a stream.",
  [S+"mdfwriter.cpp",S+"mdfreader.cpp",S+"mdfblock.cpp",S+"mdfconverter.cpp",S+"dg4block.cpp"],
  m(("stream kept open, positions by seek",S+"mdfwriter.cpp Open/Close")),
  ["bytes in the stream buffer","MdfReader on both"])

p("C18","Validating a file tells the truth and never harms it",
  "Validating a measurement file reports it valid only if all its data can be read, records the result in the file history when asked to, and keeps all measurement data unchanged. If a step fails, the source file is still intact and the task reports an error.",
  ["inputs","fault_sequences"],
  "all files the writers produce, truncations of them, and I/O failures at every operation of the task",
  "Task tests validate a few intact files.",
  [S+"validatingtask.cpp",S+"mdftask.cpp"],
  m(("work on a temporary copy",S+"mdftask.cpp CreateSourceTempFile"),("history entry",S+"mdftask.cpp AddValidationResult")),
  ["MdfTask::Error/Result","source and destination bytes"])

p("C19","Engineering values follow the conversion rules of the standard",
  "For every conversion type and parameter set, the engineering value of a channel value is the one defined by the ASAM MDF standard, and text and metadata survive XML escaping.",
  ["inputs"],"all channel values and conversion parameters",
  "Tests sample single values per conversion type.",
  [S+"ichannelconversion.cpp",S+"cc4block.cpp",S+"cc3block.cpp",S+"expatxml.cpp",S+"mdfhelper.cpp"],
  m(("conversion evaluation",S+"ichannelconversion.cpp")),["IChannelConversion::Convert"])

p("C20","The CSV export is complete or absent",
  "Converting measurement files with mdf2csv (CreateFileList) gives, for every channel group that has samples, one CSV file with a heading line and one line per sample in order: the master channels first, each valid value as its engineering text and each invalid one empty, quoted where needed so that every field can be read back (of logged CAN frames the members are exported, not the frame channel itself). Existing CSV files are kept unless overwriting was requested, the MDF file is never changed, and conversions running at the same time do not disturb each other. If the source cannot be read or the text cannot be written completely, no CSV file with missing lines or a wrong value appears, and an existing one is kept.",
  ["inputs","fault_sequences","schedules"],
  "all files the writers produce, truncations of them, one or several files or directories per conversion, two conversions at a time, and I/O failures at every operation of the conversion",
  "The tests convert files that exist on the author's machine only.",
  ["mdf2csv/src/createfilelist.cpp","mdf2csv/src/csvwriter.cpp"],
  m(("temporary file, then rename","mdf2csv/src/csvwriter.cpp Convert"),("one file per group","mdf2csv/src/createfilelist.cpp ConvertMdfFile")),
  ["bytes of the CSV files","bytes of the MDF file"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
