#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None,
         note=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, note=note, tech=tech))


prop("C01", "Stored-file edits behave like edits of a list, whatever I/O does",
     "Adding, removing and renaming stored files changes an SRR file exactly like the same edits on an ordered list of (name, content) pairs, while the RAR meta data, the application name and every other file stay byte-identical. An edit that reports failure leaves the SRR with its old (or complete new) content, never missing or partial, and leaves no temporary files behind; an edit that reports success has been applied completely. Adding a name that is already stored, renaming a missing file or renaming to an invalid name is refused without change.",
     ["histories", "fault_sequences", "inputs"],
     "all histories of add/remove/rename operations (API and command line) over all SRR layouts, with I/O errors, full disks and short reads/writes at any system call",
     "The tests run single edits on a handful of files on a healthy disk; histories and I/O errors in the middle of an edit are not reachable there.",
     ["rescene/main.py", "rescene/rar.py", "rescene/srr.py"],
     [("temporary file next to the SRR, then replace", "rescene/main.py add_stored_files/remove_stored_files"),
      ("rename through a temporary file", "rescene/rar.py SrrStoredFileBlock.renameto")],
     ["SRR bytes on disk after each operation", "exit status / exception", "directory listing"])

prop("C02", "A process death while replacing an SRR leaves the old or the new one",
     "When the process dies or is interrupted at any instant while an existing SRR file is being edited or re-created, the file afterwards holds either its complete old or its complete new content. It never disappears, is never truncated or mixed, and after a restart every later operation on it works normally; an interrupt (Ctrl+C) additionally leaves no temporary file.",
     ["crash_points", "histories"],
     "every system call boundary (and torn write) of every replacing operation, in any history of such operations, followed by a restart",
     "No existing test kills the program or interrupts it inside an operation.",
     ["rescene/main.py", "rescene/rar.py", "rescene/utility.py", "rescene/srr.py"],
     [("write to temporary file, replace in one step", "rescene/utility.py create_temp_file_name/replace_result/move_over"),
      ("edit via temporary file", "rescene/main.py add_stored_files, remove_stored_files; rescene/rar.py renameto")],
     ["SRR bytes after restart"])

prop("C03", "SRR creation is all or nothing",
     "Creating an SRR from SFV/RAR input either reports success and leaves an SRR that contains, in order, every stored file with its exact bytes and exactly the meta data of every RAR volume, or reports failure and leaves the target path as it was (absent, or the earlier SRR unchanged) with no temporary file. An I/O error on any input or on the output never yields a successful but incomplete SRR. Declining the overwrite question changes nothing.",
     ["fault_sequences", "inputs", "histories"],
     "all volume layouts (naming styles, recovery records, comments, padding, multiple discs), stored-file sets and option combinations, with missing/short/unreadable inputs, write errors, full disks and interrupts at any system call",
     "Tests create SRRs from a few fixture sets on a healthy disk and never see an input or the output fail half way.",
     ["rescene/main.py", "rescene/srr.py", "rescene/utility.py", "rescene/rar.py"],
     [("temporary output and replace", "rescene/srr.py create_srr"), ("block copy loop", "rescene/main.py create_srr")],
     ["exit status", "SRR bytes", "directory listing"])

prop("C04", "SRS creation is all or nothing",
     "Creating an SRS from a sample either reports success and leaves a loadable SRS that records the sample's exact name, size and checksum and every track, or reports failure and leaves the target path as it was (absent, or the earlier SRS unchanged) without temporary files. Errors reading the sample or writing the result never produce a successful but wrong or truncated SRS, and the sample itself is never modified.",
     ["fault_sequences", "crash_points", "inputs"],
     "all sample container types and contents, existing/absent targets and option combinations, with read/write errors, truncated samples, interrupts and process death at any system call",
     "There are no media fixtures in the test suite at all; SRS creation is only tested through small parsers.",
     ["resample/srs.py", "resample/main.py", "rescene/utility.py"],
     [("profile, temporary file, replace", "resample/srs.py main"), ("per container *_create_srs", "resample/main.py")],
     ["exit status", "SRS bytes", "directory listing"])

prop("C05", "RAR volumes are rebuilt bit for bit or the failure is reported",
     "Reconstructing from an SRR and the right extracted files yields every RAR volume and stored file bit-identical to the originals, including recovery records, comments, padding, multi-volume splits, renamed sources and recreated paths. When any read, write or directory operation fails during reconstruction the command reports an error; success is reported only when every requested volume is exact. Reconstruction never modifies the SRR or the source files and never replaces an existing file unless overwriting was allowed.",
     ["inputs", "configurations", "fault_sequences"],
     "all volume layouts and file sets, all reconstruction options (paths, hints, auto locate, single volume, subset), with I/O errors, short reads/writes and full disks at any system call",
     "Tests rebuild a few fixture sets on a healthy file system.",
     ["rescene/main.py", "rescene/srr.py", "rescene/rar.py"],
     [("reconstruct loop", "rescene/main.py reconstruct"), ("recovery record computation", "rescene/main.py _write_recovery_record"), ("copying with CRC", "rescene/main.py _repack")],
     ["volume bytes", "exit status", "messages"])

prop("C06", "A wrong or damaged source file never yields a silent bad rebuild",
     "When the extracted file offered for reconstruction has the wrong size, or its content changed (before or while it is read), the user is told: a size mismatch is an error and no exact volume is claimed, and a content mismatch produces a CRC mismatch message for the affected volume or file. With an intact source no such message appears. Only the documented switch that disables checking suppresses the message.",
     ["inputs", "fault_sequences"],
     "all positions and kinds of source damage (flipped bits, truncation, growth, swapped files, content changing between reads) over all volume layouts",
     "Tests contain one or two hand made mismatches; where in the file and in which volume the damage sits is a quantifier over all offsets.",
     ["rescene/main.py", "rescene/srr.py"],
     [("size check", "rescene/main.py _locate_file"), ("running and per volume CRC", "rescene/main.py _repack"), ("message output", "rescene/srr.py MessageThread")],
     ["printed messages", "exit status", "volume bytes"])

prop("C07", "Samples are rebuilt bit for bit or the failure is reported",
     "Rebuilding a sample from its SRS and the main file the sample was cut from yields the original sample bit for bit, whether the main file is plain or inside (multi-volume) RARs and wherever the match starts. If the main file is wrong or damaged, or any I/O step fails, the command exits with an error and no file with the sample's name is left that differs from the original, unless keeping failures was requested. A success message is only ever printed for an exact result.",
     ["inputs", "fault_sequences", "configurations"],
     "all sample cuts, track layouts and container types (AVI, MKV, MP4, WMV, FLAC, MP3, VOB/TS streams), main files plain or in RAR sets, with damage, I/O errors and short reads",
     "The suite has no media files; only parts of the parsers are exercised.",
     ["resample/main.py", "resample/srs.py", "rescene/rarstream.py"],
     [("find/extract/rebuild per container", "resample/main.py"), ("final CRC comparison", "resample/srs.py main")],
     ["result bytes", "exit status", "stdout"])

prop("C08", "A sample or track rebuild never destroys a file the user already had",
     "Rebuilding from an SRS never changes, deletes or truncates the SRS, the main movie or music source, or any other existing file, except that an existing file with the result's name is replaced after permission was given and the rebuild was exact. If the rebuild fails (and keeping failed results was not requested), is declined, is interrupted or hits an I/O error, the existing file with that name is still there with its old content and no temporary file stays behind.",
     ["fault_sequences", "histories", "configurations"],
     "all container types, answers, options, existing targets (including rebuilding a music track over its own source), damage and I/O errors or interrupts at any system call",
     "Tests do not run rebuilds with existing targets or failing disks.",
     ["resample/srs.py", "resample/main.py", "rescene/utility.py"],
     [("overwrite question", "resample/srs.py can_overwrite"), ("temporary result and replace", "resample/srs.py main, rescene/utility.py replace_result"), ("music source protection", "resample/srs.py main")],
     ["directory tree before/after", "exit status"])

prop("C09", "Reading a file through its RAR volumes equals reading the file",
     "A file opened through its (multi-volume, stored) RAR set behaves like the packed file itself for every history of seek, read and tell calls: same bytes, same positions, same end of file, also when the underlying volume reads are short. If a volume is missing or unreadable an error is raised instead of wrong or silently shortened data.",
     ["histories", "inputs", "fault_sequences"],
     "all volume sets (naming styles, split points, several packed files) and all call histories, with short reads and read errors",
     "Tests use a few fixed seeks on fixture sets.",
     ["rescene/rarstream.py", "rescene/rar.py", "rescene/osohash.py"],
     [("volume switching", "rescene/rarstream.py RarStream.read/seek")],
     ["returned bytes and positions"])

prop("C10", "Extracting stored files is exact and stays inside the output folder",
     "Extracting stored files from an SRR, whatever names it contains, creates or overwrites only files inside the chosen output folder. Every file reported as extracted holds exactly the stored bytes, files that exist are only replaced when that was allowed, and a failure to read or write is reported for the command instead of a silently short file. Only the requested files are extracted.",
     ["inputs", "fault_sequences", "configurations"],
     "all stored names (absolute, parent references, separators, drive letters, unicode), contents, options and overwrite answers, with I/O errors at any system call",
     "Tests extract a few well-behaved names.",
     ["rescene/main.py", "rescene/rar.py", "rescene/utility.py", "rescene/srr.py"],
     [("output path construction", "rescene/main.py _opath, rescene/rar.py os_file_name, rescene/utility.py joinpath"), ("overwrite question", "rescene/main.py can_overwrite")],
     ["set of paths written", "bytes", "exit status"])

prop("C11", "An SRR made from Usenet holds exactly what was posted",
     "For a completely posted release on reachable servers an SRR is made from the NZB, whatever the segment sizes, line lengths, article spread over the servers, options, duplicate posts and file order, and it holds exactly the meta data of the RAR volumes and the files to store that were posted. When data is missing, corrupt or keeps failing, either no SRR is left or one that holds all RAR meta data and no wrong bytes (a file to store that cannot be fetched may be left out, which is reported); an SRR of an earlier run is only replaced by a complete one. Corrupt RAR articles are only recognised with CRC checking and full segments requested (-c -a).",
     ["fault_sequences", "inputs", "configurations"],
     "all splits into articles, all sequences of connection drops, timeouts, temporary errors, missing and corrupt articles, and server sets",
     "The tests never talk to a server; network faults do not exist there.",
     ["usenet/srr_usenet.py", "usenet/yenc.py", "rescene/main.py"],
     [("segment wise file access with retries", "usenet/srr_usenet.py NNTPFile"), ("retry on parse failure", "rescene/main.py _rarreader_usenet, create_srr_fh")],
     ["SRR bytes", "result files"])

prop("C12", "A Usenet batch loses no NZB and terminates",
     "Processing a set of NZB files under network faults and disk errors ends after a bounded number of requests, and every NZB ends in exactly one place with its content intact: left in place or moved to exactly one result folder that matches its outcome; an equally named NZB of an earlier run is never overwritten. An NZB is only filed as a success when its SRR exists and is complete, and a network failure is never filed as an unknown error; one failing NZB does not prevent the others from being processed with their own outcome, and a dry run changes nothing.",
     ["fault_sequences", "histories"],
     "all NZB sets, network fault sequences (refused connections, drops, timeouts, permanent and temporary errors) and file system errors while moving",
     "There is no test for the batch front end.",
     ["usenet/srr_usenet.py"],
     [("outcome classification and moving", "usenet/srr_usenet.py create_srr_nzbmove")],
     ["directory tree", "simulated time", "request count"])

prop("C13", "Every message is printed exactly once and in order",
     "For every interleaving of the working thread and the message printing thread, each reported message of the selected kinds is printed exactly once, in the order reported, and the program neither hangs nor ends before the messages reported so far are printed. Messages of kinds that are not selected are not printed.",
     ["schedules"],
     "all interleavings of the producer and the printing thread at line and bytecode granularity, and all message sequences",
     "The race window between taking and clearing the message list is microseconds; a unit test does not hit it.",
     ["rescene/srr.py", "rescene/main.py", "bin/pyrescene.py"],
     [("polling thread over a shared list", "rescene/srr.py MessageThread.run/wait_for_output"), ("observer", "rescene/main.py Observer")],
     ["stdout/stderr"])

prop("C14", "Automatic processing leaves releases untouched and isolates failures",
     "Running the automatic tool over release folders never modifies, moves or deletes anything in a release (only the requested result files appear), leaves nothing in the temporary folder when it ends, and writes each result SRR completely (RAR meta data, all NFO, SFV, playlist, proof and log files, and an SRS or an error text per sample) or not at all. A release that fails (bad archive, bad sample, I/O error) is reported and does not stop or alter the processing of the others. Interrupting it leaves finished results intact and no partial result.",
     ["fault_sequences", "histories", "configurations", "crash_points"],
     "all sets of release folders (good, bad, music, with samples, subs and extras), option sets, and I/O errors or interrupts at any system call",
     "The tests cover helper functions of the tool only.",
     ["bin/pyrescene.py", "rescene/main.py", "resample/srs.py"],
     [("per release working folder and cleanup", "bin/pyrescene.py generate_srr, main"), ("temporary SRR and replace", "bin/pyrescene.py generate_srr")],
     ["release tree before/after", "temporary folder", "result SRR", "exit status"])

prop("C15", "Compressed archives are rebuilt exactly or reported as failing",
     "Reconstructing compressed RARs with a set of RAR executables yields bit-identical volumes whenever one of the executables in the folder, packing the files in archive order with one thread setting, reproduces the original stream, whichever executable it is and whatever the others do. If none does, an error is reported and no wrong volume is claimed to be good. Temporary working data is gone afterwards and the source files are unchanged.",
     ["fault_sequences", "inputs", "configurations"],
     "all sets of executables (good, wrong, failing, missing), settings, file orders and volume splits, with process failures and I/O errors",
     "RAR executables are not available to the tests.",
     ["rescene/main.py"],
     [("search over executables and arguments", "rescene/main.py CompressedRarFile, CompressedRarFileAll, RarRepository")],
     ["volume bytes", "exit status", "temporary folder"])

prop("C16", "Verification reports OK exactly when every archived file is intact",
     "Verifying extracted files against an SRR reports success exactly when every archived (non-empty) file is present with matching content; any missing, truncated, altered or unreadable file gives a failing exit status. Verification reads only and changes nothing.",
     ["inputs", "fault_sequences"],
     "all file sets, damage positions, renamed files and read errors at any system call",
     "Tests do not cover the verification command with failing reads or damage at arbitrary positions.",
     ["rescene/srr.py", "rescene/utility.py", "rescene/main.py"],
     [("CRC comparison", "rescene/srr.py verify_extracted_files"), ("archived file listing", "rescene/main.py info")],
     ["exit status", "stdout"])

prop("C17", "Damaged SRR, SRS and RAR input ends in an error, never in a hang",
     "For every damaged, truncated or hostile SRR, SRS or RAR file each command ends after work proportional to the input, with success or a reported error and a non-zero exit status for fatal problems, without running away in time or memory. It never modifies its input or leaves output of unrelated files behind.",
     ["inputs", "fault_sequences"],
     "all byte flips, truncations, insertions and field overwrites of valid files, for every reading command",
     "Tests use a few hand-made broken files.",
     ["rescene/rar.py", "rescene/main.py", "resample/main.py", "resample/ebml.py", "resample/riff.py", "resample/mov.py", "resample/asf.py", "resample/flac.py", "resample/mp3.py"],
     [("block length checks", "rescene/rar.py RarReader"), ("container readers", "resample/*.py")],
     ["termination", "exit status", "memory and system call count"])

prop("C18", "Merging SRRs keeps every stored file and every volume",
     "Merging SRR files yields one SRR that contains every stored file and all RAR meta data of all inputs in input order, and rebuilding from it yields the same volumes. If reading or writing fails, an error is reported and neither an incomplete merge result nor a damaged earlier output is left. The inputs are never modified.",
     ["inputs", "fault_sequences", "crash_points"],
     "all sets of SRR files with any stored files and layouts, with I/O errors or process death at any system call",
     "One or two merges of fixture files on a healthy disk are tested.",
     ["rescene/main.py", "bin/srr_merge.py"],
     [("collect then write", "rescene/main.py merge_srrs")],
     ["merged SRR bytes", "exit status"])

prop("C19", "Retagging music never loses the user's tracks",
     "Restoring original music tracks (or samples) in place from an SRR either ends with the exact original file or leaves the user's existing file unchanged. This holds for wrong tracks, damaged SRS data, I/O errors and interrupts at any point, and no temporary files stay behind after the command ends normally. Files of a release that are already correct or not part of it are not touched.",
     ["fault_sequences", "crash_points", "inputs"],
     "all track sets, tag layouts, damage and I/O errors or interrupts at any system call",
     "The retag tool has no test.",
     ["bin/retag.py", "resample/srs.py", "resample/main.py"],
     [("rebuild to temporary file then replace", "bin/retag.py, resample/srs.py")],
     ["track bytes", "directory tree", "exit status"])

prop("C20", "Results do not depend on what the process did before",
     "Within one process, the result of any operation (files written, outcome and messages) depends only on its input files and arguments, not on operations that ran or failed before it. The same sequence of operations gives the same results as running each in a fresh process.",
     ["histories", "fault_sequences"],
     "all sequences of library operations (creation, reconstruction, edits, info, sample creation and rebuild), with earlier operations succeeding, failing on bad input or aborted by I/O errors",
     "Tests run operations in isolation or in one fixed order.",
     ["rescene/main.py", "rescene/rar.py", "resample/main.py", "rescene/__init__.py"],
     [("module level state", "rescene/main.py (caches, repository, temp folders), rescene/__init__.py")],
     ["outcome and bytes compared with a fresh process"])

prop("C21", "Tools that sort NZB and SRR collections lose and overwrite nothing",
     "The tools that split, merge, rename, sort or filter NZB and SRR files lose nothing: whatever fails or is interrupted, every file entry (poster, date, subject, groups, articles) of every input NZB and every input SRR is afterwards still in the original or completely in a result, and no file is moved or written over another one (only the sample filter replaces its own earlier results). Without faults each entry is found exactly once in the NZB of its release (split), in the merged NZB (merge) or, when it belongs to a sample, in the sample NZB, a file is moved exactly when its content matches what was asked for, the SRS files of an SRR are extracted exactly, and each video of a batch gets a correct SRS or a text with the reason. A result is complete or not there, and input that cannot be read is left alone.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "all sequences of uses of these tools over all collections (equal names, empty, broken and differently encoded NZB files, entries with missing or unordered articles, results of earlier runs), with I/O errors, full disks, interrupts and process death at any system call",
     "Apart from a few regular expressions these tools have no test, let alone one with an existing result or a failing disk.",
     ["usenet/nzb_split.py", "usenet/nzb_merge.py", "usenet/nzb_rename.py", "usenet/nzb_age.py", "usenet/nzb_sample_extract.py", "usenet/nzb_utils.py", "bin/srr_sort.py", "bin/srs_batch.py", "bin/srr_extract_srs.py"],
     [("read and write NZB files", "usenet/nzb_utils.py read_nzb, add_file, write_nzb"), ("move after a match", "bin/srr_sort.py check, usenet/nzb_age.py, usenet/nzb_rename.py"), ("SRS or error text", "bin/srs_batch.py create_srs")],
     ["NZB entries", "directory tree before/after", "exit status"])

prop("C22", "Rerar writes exactly the volumes that were asked for or fails",
     "From a good first volume as reference, or from the same settings given as options, and the packed file rerar makes the volumes of the set again byte for byte (both ways of naming, RAR 2 and 3, recovery records, dates with fractions, attributes, end blocks) together with an SFV that matches them, and nothing else. A damaged reference, a missing source file or an I/O error ends in a failure status, never in an endless loop or a false success. Without the overwrite option no existing file is changed, the reference itself included, and a dry run writes nothing.",
     ["inputs", "fault_sequences", "histories", "crash_points"],
     "all volume sets with all settings, all damages of the reference, all earlier files in the way, and I/O errors, interrupts and process death at any system call",
     "Rerar has no test.",
     ["rerar/rerar.py", "rerar/rar.py"],
     [("reference parser", "rerar/rerar.py parse_ref, Parser"), ("volume writers", "rerar/rerar.py main, RlsWriter, VolWriter; rerar/rar.py write_file, write_rr, write_end")],
     ["volumes", "SFV", "exit status"])

prop("N01", "Parsing and formatting helpers are correct for every input",
     "SFV parsing and ordering, yEnc decoding, CRC combination, EBML/ASF/RIFF integer coding, OSO hashing, release and file-type detection return the documented value for every input.",
     ["inputs"], "all inputs of the pure helper functions",
     "Tests sample a few inputs.",
     ["rescene/utility.py", "rescene/crc32combine.py", "usenet/yenc.py", "rescene/osohash.py"],
     [("pure functions", "rescene/utility.py, rescene/crc32combine.py")])
NA = {"N01": "pure functions of their input: no schedule, clock, I/O fault, crash or history for a simulator to vary; input generation dressed up as simulation would be a different technique"}

TECH = "deterministic simulation with fault injection (seeded search)"
NOTES = {}
try:
    exec(open(os.path.join(V, "tools", "notes.py")).read(), NOTES)
except IOError:
    pass
LN = NOTES.get("LEVEL_NOTES", {})
DEFNOTE = ("Seeded exploration of the real code inside an in-memory world: a "
           "clean batch is evidence, not proof. Trusts the simulated file "
           "system/clock/streams and the independent fixture builders.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"],
                 "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": a}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            n = len(re.findall(r"[.!?](\s|$)", p["statement"]))
            assert n <= 3, (p["id"], n)
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check %s quick" % p["id"],
                "thorough_cmd": "./check %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["tech"] or TECH,
                "level": "exploration",
                "level_note": LN.get(p["id"], DEFNOTE)})
        else:
            na.append({"property": p["id"], "reason": NA.get(
                p["id"], "simulated check not built yet (work in progress)")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
         "hooks": {"guard": "none", "enable": "no hooks: every seam is patched "
                   "from /verif (builtins.open, os, time, subprocess, socket, "
                   "threading); the checks import /repo's working tree "
                   "directly", "source_commits": []},
         "not_applicable": na,
         "notes": "Checks import the code from /repo's working tree at start; "
                  "nothing is built. Replays: ./check <id> quick --replay "
                  "<file>."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
