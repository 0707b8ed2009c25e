#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (only properties that `dst list` implements)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(l.split()[0] for l in subprocess.check_output([V + "/target/release/dst", "list"], text=True).splitlines() if l.strip())
LIB = "bin/dnglab/dnglab-lib/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, note=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook), note=note))

p("C01", "A successful conversion is a complete, lossless and faithful DNG",
  "Whenever `dnglab convert` reports success for a file, the DNG at the output path is complete and carries every raw sample of the source bit for bit, with the requested compression, predictor, crop, previews and artist, and with the source's colour pattern, black and white levels, active area, colour matrices, orientation, Exif and GPS data. If embedding of the original is on, the embedded original decompresses to exactly the source file's bytes and its digest and file name match. On valid sources with no failing I/O the conversion succeeds and terminates, however threads are scheduled and however reads and writes are split.",
  ["schedules", "inputs", "configurations", "fault_sequences"], "every interleaving of the conversion's threads, every splitting of reads/writes (short I/O, EINTR), every valid source and option combination",
  "The tests decode a handful of samples single-threaded; none converts under adversarial thread schedules, small thread pools, short writes or interrupted calls.",
  ["rawler/src/dng/convert.rs", "rawler/src/dng/writer.rs", "rawler/src/dng/original.rs", "rawler/src/ljpeg92.rs", "rawler/src/formats/tiff/writer.rs", "rawler/src/decoders/dng.rs", "rawler/src/exif.rs", "rawler/src/decompressors/packed.rs", LIB + "jobs/raw2dng.rs"],
  [("parallel tile compression and in-order tile writing", "rawler/src/dng/writer.rs"), ("parallel compression of the original", "rawler/src/dng/original.rs"), ("job dispatch on the rayon pool, result via oneshot", LIB + "jobs/raw2dng.rs")],
  ["output file bytes", "exit status", "stderr summary"])
p("C02", "A failed conversion leaves nothing behind and is reported",
  "If converting a file fails for any reason (unreadable or undecodable source, failing write, full disk, failing lock or timestamp update), the process exits with a non-zero status and no new file is left at or near the output path for that source. A zero exit status means every requested source has a complete DNG.",
  ["fault_sequences", "inputs", "schedules"], "every I/O operation on source and output failing once or for good with a plausible errno, every disk-full point, every kind of broken source",
  "No test makes an I/O operation fail; partial files only show when a specific late operation (final flush, timestamp) fails.",
  [LIB + "jobs/raw2dng.rs", "rawler/src/dng/convert.rs", "rawler/src/rawsource.rs"],
  [("removal of the output on error", LIB + "jobs/raw2dng.rs"), ("error propagation from buffered writes", LIB + "jobs/raw2dng.rs")], ["file system after the run", "exit status"])
p("C03", "Existing files are never overwritten without --override",
  "Without --override, no subcommand that creates files (convert, process-raw, extract, makedng) changes, truncates, replaces or removes a file that already existed when its output was created, including a file another program creates at that moment; it reports the conflict as a failure. A failing run does not remove such files either.",
  ["schedules", "histories", "inputs"], "every instant at which another program may create the output path, every command and path mapping, every later failure",
  "Tests never run another writer against the output path; check-then-create races need an interleaving between two system calls.",
  [LIB + "jobs/raw2dng.rs", LIB + "jobs/process_raw.rs", LIB + "jobs/extractraw.rs", LIB + "jobs/mod.rs", LIB + "makedng.rs"],
  [("exclusive creation of the output", LIB + "jobs/raw2dng.rs"), ("exclusive creation helper", LIB + "jobs/mod.rs"), ("exclusive creation", LIB + "makedng.rs")], ["contents of pre-existing files", "exit status"])
p("C04", "Source files are never modified or removed",
  "No subcommand (convert, process-raw, extract, makedng, analyze) changes the contents, name or modification time of any input file or creates anything in the input tree outside the requested output location, whatever fails and whatever paths are given. This includes outputs that name the input itself or lie in the input directory, with and without --override.",
  ["inputs", "fault_sequences", "schedules", "configurations"], "every command, every aliasing of input and output paths (same file, same directory, links), every failing operation",
  "Tests use separate directories and no failing I/O; aliasing plus --override destroys the only copy of a photograph.",
  [LIB + "jobs/raw2dng.rs", LIB + "jobs/process_raw.rs", LIB + "jobs/extractraw.rs", LIB + "makedng.rs", LIB + "filemap.rs"],
  [("same-file check before replacing", LIB + "jobs/mod.rs"), ("read-only source mapping", "rawler/src/rawsource.rs")], ["log of file mutations during the run", "file system after the run"])
p("C05", "One bad file never stops or taints a batch",
  "In a directory run of `dnglab convert`, every valid source not itself touched by an I/O error is converted correctly even if other sources are corrupt, damaged on the disk, make the decoder crash or hit I/O errors; a damaged source is refused or converted, but never hangs or ends the run, and an unreadable subdirectory or a link that leads in circles costs nothing but what lies in it. The printed totals and the list of failed inputs match exactly what happened, and the exit status is zero only if nothing failed.",
  ["inputs", "fault_sequences", "schedules"], "every mix of valid and broken files, every placement of an I/O error on one file or directory, every interleaving of concurrent conversions",
  "Tests convert no batches at all; a failing neighbour matters only in combination with concurrency and the place of the failure.",
  [LIB + "convert.rs", LIB + "jobs/raw2dng.rs", LIB + "filemap.rs"],
  [("per-job error results", LIB + "jobs/raw2dng.rs"), ("panic isolation of a job", LIB + "jobs/raw2dng.rs"), ("summary and exit status", LIB + "convert.rs")], ["output tree", "stderr summary", "exit status"])
p("C06", "Every source of a batch gets its own output exactly once",
  "A directory run of `dnglab convert` produces for every supported source exactly one DNG, in the mirrored place of the output tree, and no two sources ever share or overwrite one output even if they differ only in extension. Files with other extensions, and subdirectories unless recursion is on, produce nothing; the order in which the file system lists entries does not change this.",
  ["inputs", "schedules", "configurations"], "every tree of names with colliding stems, every directory listing order, every -j value and interleaving",
  "Tests have no directory trees; collisions depend on names and listing order.",
  [LIB + "convert.rs", LIB + "filemap.rs"],
  [("claimed output set and suffixes", LIB + "convert.rs"), ("source/destination mapping", LIB + "filemap.rs")], ["output tree", "pixel contents per output"])
p("C07", "Output does not depend on scheduling or I/O chunking",
  "Converting the same sources with the same options always yields byte-identical DNG files apart from the conversion time stamp, whatever the number of CPUs and parallel jobs, thread interleaving, hash randomisation, read/write chunking or verbosity. The same holds for the files of process-raw, extract and makedng.",
  ["schedules", "configurations", "fault_sequences"], "every pair of schedules, CPU counts, job counts, random seeds and I/O splittings",
  "A test runs once per input; differences appear only between runs with different interleavings or hash seeds.",
  ["rawler/src/dng/writer.rs", "rawler/src/dng/convert.rs", "rawler/src/dng/original.rs", LIB + "jobs/raw2dng.rs"],
  [("ordered collection of parallel tiles", "rawler/src/dng/writer.rs"), ("stable choice of colour matrices", "rawler/src/dng/writer.rs")], ["output bytes of several runs"])
p("C08", "A killed conversion never leaves a file that passes as finished",
  "If the process dies at any instant during `dnglab convert`, every file at an output path either is a complete, correct DNG or is recognisably unfinished: its TIFF header does not lead to a readable main directory. A file that existed before is either still intact or (only with --override) replaced under the same rule.",
  ["crash_points", "schedules"], "every system call as crash point, including inside a large write, under every interleaving",
  "No test kills the process; the property depends on the header being written last.",
  ["rawler/src/formats/tiff/writer.rs", "rawler/src/dng/writer.rs", LIB + "jobs/raw2dng.rs"],
  [("header offset patched as last step of closing", "rawler/src/formats/tiff/writer.rs")], ["file system after the kill"])
p("C09", "Repeating an interrupted run restores the exact result",
  "After `dnglab convert` was killed at any instant, any number of times, running it again with --override ends successfully with exactly the files an undisturbed run produces, and nothing left over from the interrupted runs. The same holds for process-raw, extract and makedng.",
  ["crash_points", "histories"], "every crash point, repeated crashes, every mix of finished and unfinished outputs",
  "No test resumes after a crash.",
  [LIB + "jobs/raw2dng.rs", LIB + "convert.rs"],
  [("replace on --override", LIB + "jobs/raw2dng.rs"), ("advisory lock on the output", LIB + "jobs/raw2dng.rs")], ["file system after recovery"])
p("C10", "Extraction restores the original exactly or fails cleanly",
  "Whenever `dnglab extract` reports success without --skipchecks, the written file is byte for byte the embedded original, whose stored digest it matches. If the embedded data, its digest or any I/O operation is bad, the run fails with a non-zero status and leaves no output file for it; in a directory run the other DNGs are still extracted, no original replaces another one extracted by the same run, and the totals are truthful.",
  ["inputs", "fault_sequences", "schedules"], "every corrupted byte of the embedded data or digest, every failing I/O operation, every batch mix",
  "Unit tests round-trip five bytes in memory; none corrupts stored data or fails a write.",
  [LIB + "extract.rs", LIB + "jobs/extractraw.rs", "rawler/src/dng/original.rs"],
  [("digest verification", "rawler/src/dng/original.rs"), ("removal on error", LIB + "jobs/extractraw.rs")], ["output files", "exit status", "summary"])
p("C11", "Extraction writes only inside the requested output location",
  "`dnglab extract` creates or changes files only at the output path given, or inside the output directory given, whatever original file name a DNG carries. Path separators, parent references or absolute paths in that name never make it write, replace or delete anything elsewhere, with or without --override. (Symbolic links the user has placed in the output directory are followed under --override.)",
  ["inputs", "configurations"], "every stored original name (relative, absolute, parent references, terminators) times every output mapping and listing order",
  "No test extracts from a hostile DNG.",
  [LIB + "extract.rs"], [("reduction of the stored name to its last component", LIB + "extract.rs")], ["log of file mutations"])
p("C12", "--keep-mtime restores the capture time whatever the clock does",
  "With --keep-mtime every converted DNG and every image rendered by process-raw has the modification time recorded in the source's metadata, taking its time zone offset (or else the machine's time zone) into account, or the source file's own modification time if the metadata has no usable one; if the time cannot be set, the run fails. A DNG made from an FTP upload with --keep-mtime gets the metadata's time too. Without it the modification time is the time of conversion; a wrong or jumping system clock never changes the kept time.",
  ["inputs", "fault_sequences", "configurations"], "every source date, offset and missing or invalid date, every clock jump at any operation",
  "No test sets timestamps or moves the clock.",
  [LIB + "jobs/raw2dng.rs", "rawler/src/dng/convert.rs", "rawler/src/decoders/mod.rs"],
  [("last_modified from EXIF, fallback to file time", "rawler/src/decoders/mod.rs"), ("timestamp set on the open file after the last write", LIB + "jobs/raw2dng.rs")], ["mtime of outputs"])
p("C13", "makedng produces a complete DNG or fails cleanly",
  "Whenever `dnglab makedng` exits with status zero, the output is a complete DNG whose raw image carries the mapped input's samples exactly and which has the requested parts and tags. If an input mapped as raw, preview or thumbnail image is unusable or any I/O operation fails, it exits non-zero and leaves no partial output.",
  ["fault_sequences", "inputs", "configurations"], "every failing I/O operation and disk-full point, every usable or unusable input per role",
  "There is no test of makedng at all.",
  [LIB + "makedng.rs", "rawler/src/dng/writer.rs"], [("removal on error", LIB + "makedng.rs"), ("flush before success", LIB + "makedng.rs")], ["output file", "exit status"])
p("C14", "process-raw writes complete, distinct images or nothing",
  "Whenever `dnglab process-raw` reports success for a source, its TIFF is complete and identical to the one an undisturbed run of that source alone produces; every source of a batch gets its own output file. A source that fails leaves no output, does not affect the others, and makes the exit status non-zero with truthful totals.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of concurrent developments, every failing I/O operation, colliding names",
  "No test runs process-raw batches or fails its I/O.",
  [LIB + "process_raw.rs", LIB + "jobs/process_raw.rs", "rawler/src/imgop/develop.rs"],
  [("distinct outputs per run", LIB + "process_raw.rs"), ("removal on error", LIB + "jobs/process_raw.rs")], ["output tree", "exit status", "summary"])
p("C15", "analyze prints the complete, true answer or fails",
  "Whenever `dnglab analyze` exits with status zero, everything it had to print reached standard output and is identical to what an undisturbed run prints, however the output is chunked. For an intact file the answer is true: size, name and digest of the file, the samples and their checksum, the Exif and GPS values and the directories of a DNG, the stored thumbnail, and checksums that belong to the pictures the other modes print. If reading the input or writing standard output fails, the exit status is non-zero.",
  ["fault_sequences", "schedules", "inputs"], "every failing or partial read of the input and write of the output (full disk, closed pipe), every mode",
  "No test lets standard output fail or split.",
  [LIB + "analyze.rs", "rawler/src/analyze.rs"], [("flush of the buffered writer", LIB + "analyze.rs")], ["stdout bytes", "exit status"])
p("C20", "The FTP server never reaches outside its root directory",
  "Whatever sequence of commands clients send, the FTP server reads, lists, creates, changes or removes files only inside the served directory. This holds for absolute paths, parent references, odd encodings and symbolic links inside the root that lead outside.",
  ["inputs", "histories", "schedules"], "every command sequence and path spelling from any number of clients, every tree with links",
  "There are no FTP session tests with hostile paths or links.",
  ["embedftp/src/client.rs", "embedftp/src/server.rs"], [("path completion and prefix check", "embedftp/src/client.rs")], ["log of file system mutations", "bytes sent on data connections", "files opened"])
p("C21", "Nothing works before a valid login",
  "If the FTP server is configured with accounts, a client that has not logged in with a configured name and its password can neither transfer, list, create, delete nor navigate, and each such attempt is refused. A failed or partial login attempt never grants access, never takes over another session's login and does not survive a change of user.",
  ["histories", "inputs", "schedules"], "every order of login and other commands across sessions, every account configuration",
  "No test drives the login state machine.",
  ["embedftp/src/client.rs", "embedftp/src/config.rs"], [("logged-in check before dispatch", "embedftp/src/client.rs")], ["FTP replies", "file system effects"])
p("C22", "Transfers are byte-exact and only acknowledged when true",
  "A completion reply to an upload means that the file under that name holds exactly the uploaded bytes, and a completion reply to a download means that exactly the file's bytes were sent; bytes of different transfers are never mixed, even for concurrent uploads to one name. If storing fails, the client gets an error reply and no truncated file takes the place of a complete one or is left behind under another name.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of concurrent transfers, every segmentation and delay of data, connection resets, failing and full disks",
  "No test transfers files over several connections or with faults.",
  ["embedftp/src/client.rs", "embedftp/src/ftp.rs"], [("data connection loops", "embedftp/src/client.rs"), ("publication of the stored file", "embedftp/src/client.rs")], ["client-side bytes and replies", "file system"])
p("C23", "Every command gets exactly one final reply, in order",
  "On an FTP control connection every command line is answered by exactly one final reply (with at most preliminary 1xx replies before it), in the order of the commands, also for unknown, malformed or failing commands and pipelined or split lines. The session ends only on QUIT, when the client goes away or when the connection is no longer a usable command stream.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every command sequence, segmentation and pipelining, failing paths and data connections",
  "Reply counting needs whole sessions under segmentation and failures; tests only parse single commands.",
  ["embedftp/src/client.rs", "embedftp/src/codec.rs"], [("line codec", "embedftp/src/codec.rs"), ("command dispatch", "embedftp/src/client.rs")], ["reply stream per client"])
p("C24", "One client can never take the server down or disturb others",
  "Whatever one client does (resets, garbage, stalls, abandoned data connections, oversized lines) and whatever transient errors accepting connections meets, the server keeps running, other sessions get their correct replies and data within bounded time, and new clients can connect and work.",
  ["schedules", "fault_sequences", "histories"], "every behaviour of a misbehaving client interleaved with well-behaved ones, accept and socket errors",
  "Tests have one client and no faults.",
  ["embedftp/src/server.rs", "embedftp/src/client.rs"], [("task per client", "embedftp/src/server.rs"), ("accept loop", "embedftp/src/server.rs")], ["replies of other sessions", "server liveness"])
p("C25", "An acknowledged raw upload is a finished DNG",
  "When `dnglab ftpserver` acknowledges the upload of a raw file, a complete lossless DNG of exactly the uploaded bytes exists next to where the file was stored, and the original is stored if and only if --keep-original is on; other files are stored unchanged. If the conversion or any write fails, the client gets an error reply and no incomplete DNG is left under the final or any other name; an earlier DNG of that name is not damaged.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of concurrent uploads, including equal stems, every failing write and disk-full point, valid and broken raws",
  "No test runs the conversion server.",
  [LIB + "ftpconv.rs", "embedftp/src/client.rs", "rawler/src/dng/convert.rs"], [("conversion in the upload callback", LIB + "ftpconv.rs"), ("publication of the DNG", LIB + "ftpconv.rs")], ["replies", "served directory"])
p("C26", "FTP directory operations follow one consistent model",
  "For a single session without faults, CWD, CDUP, PWD, MKD, RMD (which removes a directory with everything in it), DELE, uploads, downloads and listings behave like operations on one directory tree with a current directory: each succeeds or fails exactly as the model says and later commands and listings reflect it. A failed operation changes nothing.",
  ["histories", "inputs"], "every sequence of navigation and file management commands over relative, absolute and nested paths",
  "Unit tests check no sequences.",
  ["embedftp/src/client.rs"], [("current directory and path completion", "embedftp/src/client.rs")], ["replies", "listings", "file system"])
p("C27", "Acknowledged uploads survive a server crash",
  "If the server process dies at any instant, every upload whose completion was acknowledged before is still there with its exact bytes (or as its complete DNG), and a file under an upload's final name is never a truncated mixture. After a restart the served directory works as before.",
  ["crash_points", "schedules"], "every crash point during any number of concurrent uploads",
  "No test kills the server.",
  ["embedftp/src/client.rs", LIB + "ftpconv.rs"], [("acknowledge after storing", "embedftp/src/client.rs")], ["file system after the kill", "replies received before"])
p("C28", "Sessions release their resources when the client is gone",
  "Once a client has disconnected or been reset, at any point of its session including one where a data connection was announced and never opened or used, everything its session held (control and data sockets, listening ports, open files) is released within bounded time, so any number of broken sessions never exhausts the server.",
  ["histories", "fault_sequences", "schedules"], "every point of a session at which the client disappears",
  "Leaks need many abandoned sessions in every state; tests have none.",
  ["embedftp/src/client.rs", "embedftp/src/server.rs"], [("session task ends on EOF or error", "embedftp/src/client.rs"), ("time limit for data connections", "embedftp/src/client.rs")], ["open descriptors of the server after clients left"])

NA = []
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        if x["id"] in have:
            y = {k: v for k, v in x.items() if k != "note"}
            if not y["anchors"]["state"]:
                del y["anchors"]["state"]
            f.write(json.dumps(y, ensure_ascii=False) + "\n")
            assert len(y["title"]) <= 80, y["title"]
NOTE = "seeded search over schedules, faults and inputs of the unmodified program on a simulated operating system; a clean run is evidence, not proof"
extra = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else []
with open(V + "/properties.jsonl", "a") as f:
    for e in extra:
        f.write(json.dumps(e["record"], ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash ./build.sh",
         checks=[dict(property=x["id"], quick_cmd="./check.sh " + x["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + x["id"],
                      technique="deterministic simulation with fault injection (seeded search)", level="exploration", level_note=x["note"] or NOTE) for x in P if x["id"] in have],
         not_applicable=[dict(property=e["record"]["id"], reason=e["reason"]) for e in extra])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
