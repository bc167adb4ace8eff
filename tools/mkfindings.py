#!/usr/bin/env python3
"""Writes /verif/known_findings.json (edited here, never at run time)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, subject of the commit in /repo, what failed
    ("C16", "fix: write MDF 3 conversion parameters as plain doubles", "MDF 3 conversion parameters were stored as raw std::variant bytes, so linear conversions were read back with other parameters"),
    ("C03", "fix: keep the validity of variable length values", "a variable length value saved as invalid was read back as valid"),
    ("C05", "fix: start the measurement state last in StartMeasurement", "a background save during the start call wrote samples with absolute times and left the file start time unset"),
    ("C06", "fix: trim the pre-trigger queue without unsigned underflow or order assumptions", "samples inside the pre-trigger window were dropped when times were out of order or younger than the window"),
    ("C02", "fix: do not use a queued sample after it has been removed", "PopSample read the size of a sample after destroying it"),
    ("C02", "fix: make CANopen date values safe to set from several threads", "CANopen date values set by two threads at the same time were mixed through localtime's static buffer"),
    ("C08", "fix: lock the sample queue again on every return of SaveQueue", "early returns of SaveQueue left the lock released; the worker then unlocked it again and the process ended"),
    ("C08", "fix: do not extend data blocks of earlier measurements", "stopping a later session stretched the data block of an earlier one to the end of the file"),
    ("C11", "fix: report a too short file instead of throwing from the reader's constructor", "opening a file shorter than its ID block threw out of MdfReader's constructor"),
    ("C09", "fix: recount the samples of an unfinished file instead of adding to them", "the counters of a file marked unfinished were added to what the file already stated, so reading it counted samples twice"),
    ("C11", "fix: report data that cannot be read instead of returning it as valid", "truncated files and failing reads gave zeros or 0xFF bytes as valid values, with success"),
    ("C10", "fix: report a failed write of an MDF 3 file", "Mdf3File::Write reported success after a write had failed"),
    ("C10", "fix: report and survive failed writes", "failed writes, flushes and closes were not reported, and an exception in the final flush ended the process"),
    ("C10", "fix: stop the background thread before the writer gets another file", "initialising a writer again after InitMeasurement had failed freed the data groups the background thread was using"),
    ("C13", "fix: do not miss the notification that stops the background thread", "a stop while the background thread was about to wait was missed, so stopping took a full ten second period"),
    ("C13", "fix: stop the background thread in FinalizeMeasurement as documented", "finalising without stopping first left the background thread running and lost the queued samples"),
    ("C12", "fix: deliver the last sample of a range read", "ReadPartialData(min, max) never delivered sample max"),
    ("C12", "fix: keep the validity of variable length values when only offsets are read", "the offset of a variable length value saved as invalid was marked valid"),
    ("C07", "fix: compress data blocks that do not get smaller", "blocks of more than about 300 kB that cannot be compressed were cut off when compressed"),
    ("C07", "fix: fetch variable length values from compressed block lists", "ReadVlsdData returned nothing, with success, for signal data of more than 4 MB written with compression"),
    ("C02", "fix: read the size of the sample queue while it is locked", "the background saver read the queue size without the lock while producers changed it"),
    ("C04", "fix: describe LIN bus channels where the messages are stored", "members of LIN messages were described at other bits than the messages store them in"),
    ("C04", "fix: store the FlexRay channel and the payload index where they are read", "FlexRay channel, channel mask and payload index were stored at other places than described"),
    ("C04", "fix: return all the members of a CAN message from the bus observer", "the CAN bus observer left out R0, BitPosition and ErrorType and changed the DLC"),
    ("C04", "fix: size the CAN payload channels as the messages are stored", "CAN logs with MLSD storage and a writer length below 8 bytes could not be read"),
    ("C04", "fix: count the skipped bytes of every data block", "skipping over a border between data blocks lost count of the bytes, so reading the rest failed"),
    ("C17", "fix: do not close a stream buffer after the writer has been used with a file", "a writer that had written a file closed the user's file buffer it was given later"),
    ("C15", "fix: report a file that cannot be read completely", "the checksum and the compression of a file took a read failure as the end of the file"),
    ("C15", "fix: store and export attachments completely or report it", "attachments that could not be read, and empty compressed ones, were left out with success together with those after them; the attached file was never closed; export did not see the end of the file"),
    ("C09", "fix: link compressed data when it has been written", "the data link of a compressed measurement was stored before the block it points to, so a crash in between could make the whole file unreadable"),
    ("C18", "fix: give each task its own temporary files", "two tasks on files with the same name in different directories used the same temporary file, and a failed task left it behind"),
    ("C18", "fix: keep the destination file of a task if it cannot be replaced", "the destination was removed before the new file was copied, so a failing copy lost the original file"),
    ("C18", "fix: reset the result when a validation task is run again", "a validation task that failed in its second run still had the result of the first one"),
    ("C14", "fix: keep the texts of a conversion when it is copied", "text references of conversions were not copied when a file was sorted"),
    ("C14", "fix: report attachments that cannot be copied", "an attachment that could not be read was stored as zeros in the sorted file, with success"),
    ("C14", "fix: keep the times of the samples when a file is sorted", "sorting recalculated the time of every sample and changed it by up to the rounding of the start time"),
    ("C14", "fix: report that only MDF 4 files can be sorted", "sorting an MDF 3 file gave an MDF 4 file with unreadable content, with success"),
    ("C14", "fix: keep the data of variable length channels when a file is sorted", "the values of variable length channels were missing in the sorted file, with success"),
    ("C14", "fix: report samples that cannot be read when a file is sorted", "samples that could not be read from the source were left out of the sorted file, with success"),
    ("C16", "fix: read the element links of a channel hierarchy from the right position", "the elements of a channel hierarchy were read one link too late, so group, channel group and channel were mixed up"),
    ("C16", "fix: keep references to blocks that are written later", "hierarchy elements, default x channels and parent events were lost when the object they refer to is written later in the file, which is always so for hierarchies"),
    ("C16", "fix: save and read the scopes of an event", "the scopes of an event were taken as another type than the one users have, so a random number was stored as link"),
    ("C16", "fix: keep references of a channel array to blocks that are written later", "the data group of every array reference, and every channel after the array, was lost"),
    ("C16", "fix: count the formula in the size of an MDF 3 conversion block", "the size of an MDF 3 formula conversion did not include the formula, so its text lay outside of every block"),
    ("C04", "fix: BigBuffer::value() used a temporary after its lifetime", "big endian values were read through a pointer into a temporary that was gone"),
    ("C03", "fix: convert UTF-16 surrogate pairs to one character", "characters outside the basic plane of UTF-16 channels were read as two broken ones"),
    ("C01", "fix: store the text of UTF-16 channels in UTF-16", "the text of UTF-16 channels was stored as UTF-8, so it was read back as other characters"),
    ("C04", "fix: CAN message view gave wrong messages when the data is read more than once", "a second or partial read with the CAN observer lost messages or paired them with other payloads"),
    ("C15", "fix: exporting a referenced attachment to a stream hid a changed file and a failing stream", "a referenced attachment was exported to a stream with success although the file had changed or the stream failed"),
    ("C08", "fix: bus messages logged into the empty data group of an earlier measurement were lost", "all messages of a bus measurement appended to a file whose last measurement recorded nothing were lost, with success"),
    ("C04", "fix: the bus channel was stored as a control character in the group name", "the group name of a bus channel held its number as a control character: the text of its time channel was invalid XML, and channel 0 cut the name"),
    ("C20", "fix: write the temporary CSV file in the destination directory", "two conversions at a time shared a temporary CSV file, and a destination on another file system or without a directory name failed"),
    ("C20", "fix: an incompletely written CSV file replaced the destination file", "a failing write left a CSV file with missing lines in place of the destination file"),
    ("C20", "fix: quotes in texts broke the fields of a CSV line", "texts with quotes, delimiters or line ends could not be read back from the CSV file"),
    ("C20", "fix: CSV files of all MDF files were stored beside the first one", "without an output path, the CSV files of all MDF files went to the directory of the first one, where they overwrote each other"),
    ("C20", "fix: groups with the same name were exported to the same CSV file", "of groups with the same name only one was found in the CSV files"),
]
KNOWN = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
sha = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
out = list(KNOWN)
for p, subj, what in FIXED:
    out.append({"status": "fixed", "property": p, "commit": sha[subj], "what": what, "line": "fixed: property=%s %s %s" % (p, sha[subj], what)})
json.dump({"findings": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
