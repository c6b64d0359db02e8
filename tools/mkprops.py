#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
M, L, PA, T, F, PR, LIB, TOK = ("src/main.rs", "src/parser/lexing.rs", "src/parser/parsing.rs", "src/parser/tree.rs",
    "src/formatter/formatting.rs", "src/formatter/printing.rs", "src/lib.rs", "src/parser/tokens.rs")
NOCLI = "No existing test runs the command-line program at all: the 16 tests call library functions on a handful of strings and one sample file, never touch the disk, never fail an operation and never run twice."

prop("C01", "Check mode never changes anything on disk",
 "A run with --check leaves every file, directory, symbolic link, permission bit and file content exactly as it was, and creates or removes nothing. This holds whatever the files contain, whichever operations fail, and wherever the run is interrupted.",
 ["inputs", "fault_sequences", "crash_points", "histories"],
 "for all file trees, contents, arguments, I/O faults at any operation and kill points during a --check run",
 NOCLI, [M], [("check branch compares in memory and never writes", M + ": format_files")],
 ["the whole file system before and after (and after every operation of) a --check run"])
prop("C02", "Files that cannot be formatted are left untouched",
 "A file that is not well-formed Modelica, is not valid UTF-8, cannot be read completely, or does not have the .mo extension is never modified by any run, and naming it makes the run fail with a non-zero exit status. Only well-formed files are ever rewritten.",
 ["inputs", "fault_sequences", "histories"],
 "for all stored contents (valid sources damaged by truncation, bit rot, lost or duplicated blocks, deleted or inserted tokens), read faults, names and batches",
 NOCLI + " They contain three malformed snippets, none of them on disk.", [M, L, PA], [("errors non-empty => report, do not write", M + ": format_files"), ("extension filter", M + ": is_modelica/read_file"), ("error recovery that records every deviation", PA + ": expect/advance_with_error")],
 ["bytes of every ineligible file before and after a run", "exit status"])
prop("C03", "A source file is always wholly old or wholly new",
 "At every instant of a run, and after the run is killed, the machine loses power, the disk fills up or any operation fails, each source file holds either its complete previous contents or the complete formatted contents, never a truncated, empty or mixed version. A run that could not store the formatted text leaves the previous contents in place and reports failure.",
 ["crash_points", "fault_sequences", "inputs"],
 "for all operations of a run at which a kill, power loss, short write, disk-full, quota, or I/O error can occur, and every readable intermediate state",
 NOCLI + " Crash points and failing writes cannot be reached from a unit test.", [M], [("writing the formatted text", M + ": write_file")],
 ["contents visible to any reader after every operation", "contents surviving a power loss", "exit status and contents after a failed write"])
prop("C04", "The exit status tells the truth",
 "A run exits with status 0 if and only if every input it was asked to process was read, is well-formed, and (formatting) now holds its formatted text or (--check) was already formatted; otherwise, and for an invalid command line, the status is non-zero. Harmless conditions (interrupted calls, partial reads or writes, enumeration order) never change the status.",
 ["inputs", "fault_sequences", "configurations", "histories"],
 "for all argument lists, file trees, contents and fault sequences",
 NOCLI, [M], [("exit code accumulation", M + ": format_files"), ("argument handling", M + ": main")],
 ["process exit status against a reference model of the run"])
prop("C05", "Each file's outcome depends on its own bytes alone",
 "The formatted text, the check verdict and the accept/reject decision of a file are a function of that file's bytes only: not of the other files in the batch, its position, name, directory, earlier runs, argument or enumeration order, environment, time, or how reads are split. In particular a file that is malformed, unreadable, vanished or unwritable, or an argument or directory that fails, never stops or alters the processing of the others.",
 ["inputs", "fault_sequences", "schedules", "configurations"],
 "for all batches, argument orders, directory enumeration orders, read chunkings and per-file faults",
 NOCLI + " A batch of two files is never exercised.", [M, LIB], [("per-file loop", M + ": format_files"), ("parse and print state is per call", LIB + ": pretty_print")],
 ["each file's bytes and verdict in a batch against the same file processed alone"])
prop("C06", "A directory argument covers exactly the Modelica files below it",
 "Given a directory, a run processes every file with the .mo extension at any depth below it exactly once and no other file, in whatever order the file system enumerates entries; hidden files, odd names, empty directories and directories named like Modelica files are handled the same way. The walk ends even when symbolic links form cycles, and an unreadable or vanishing entry is reported without hiding the rest.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "for all directory trees (depth, names, links, permissions), enumeration orders, and faults or concurrent removals during the walk",
 NOCLI + " No test walks a directory.", [M], [("recursive walk", M + ": get_files_from_dir"), ("extension filter", M + ": is_modelica")],
 ["set and multiplicity of files processed, against a reference walk"])
prop("C07", "No run ever changes the code",
 "Formatting preserves the program: after any sequence of runs, completed, failed or interrupted at any point, every source file contains exactly the same sequence of code tokens, with the same text, as its author wrote. Only whitespace between tokens may differ.",
 ["inputs", "histories", "crash_points", "fault_sequences"],
 "for all well-formed sources and all histories of format/check runs, edits, crashes and I/O faults",
 "test_formatting compares one sample file with its expected output; it says nothing about other constructs, layouts or combinations, about repeated runs, or about runs that are cut short.", [L, PA, T, F, PR, M],
 [("every token is emitted once and in order", F + ": Formatter::handle_token"), ("tree keeps all tokens", T + ": build_tree"), ("storing the result", M + ": write_file")],
 ["token sequence of each file (own reference lexer) before and after every step of a history"])
prop("C08", "No run ever loses or moves a comment",
 "After any sequence of runs, completed, failed or interrupted, every comment of a source file is still there, with its text intact (up to the indentation around it), in the original order and between the same two code tokens as before. This includes comments before the first and after the last token and files that contain nothing but comments.",
 ["inputs", "histories", "crash_points", "fault_sequences"],
 "for all well-formed sources with comments in any position where whitespace is allowed, and all histories of runs, crashes and I/O faults",
 "The one sample file has a few comments, all in positions where the formatter breaks lines anyway; no test has a comment elsewhere, at the end of a file, or repeats a run.", [F, L, M],
 [("comments collected by the lexer", L + ": generate_token"), ("comments re-inserted before tokens and breaks", F + ": comments_before/handle_break/handle_token")],
 ["interleaved token and comment sequence of each file before and after every step"])
prop("C09", "Formatting settles and check agrees with it",
 "A file that a run has formatted passes every later --check and is left byte-for-byte unchanged by every later formatting run, until someone edits it; and --check passes exactly when formatting would leave the file unchanged. After any history of crashes and faults, once faults stop, a single formatting run brings every well-formed file to this state.",
 ["histories", "inputs", "crash_points", "fault_sequences"],
 "for all well-formed sources and all histories of format/check runs, edits, crashes and faults, followed by a fault-free run",
 "No test formats anything twice, and check mode is not tested.", [F, PR, M, LIB],
 [("formatting decisions depend only on layout that formatting preserves", F), ("output compared with source", M + ": format_files")],
 ["bytes and exit status of consecutive format and check runs over the same disk"])
prop("C10", "Damaged input is diagnosed, never fatal",
 "Whatever bytes the storage returns (truncated, empty, bit-flipped, zero-filled, spliced from two versions, not UTF-8, with non-ASCII text anywhere), a run finishes in a bounded amount of work without crashing, with exit status 0 or 1, and reports every file it refuses by name. Files that hold only legal text in unusual shapes, such as non-ASCII comments, long flat lists or deep but reasonable nesting, are processed normally.",
 ["inputs", "fault_sequences"],
 "for all byte contents obtained from valid sources by storage damage at any offset, and all read faults",
 "Tests feed five malformed snippets to the parser; none is truncated in the middle of a construct, has non-ASCII text outside a string, or nests deeply.", [L, PA, T, M],
 [("error recovery", PA + ": error/advance_with_error/expect"), ("progress guard", PA + ": nth/blowup"), ("byte positions of tokens", L + ": next/generate_token")],
 ["termination status, CPU and operation budget, and diagnostics of a run over damaged files"])
prop("C11", "Every input gets exactly one accurate verdict",
 "In check mode each well-formed input gets exactly one line on standard output naming it and saying truthfully whether its formatting passed or failed; a malformed input gets diagnostics of the form path:line:column, the first of which points at the offending place for a stray character, and none of which lies outside the file; an input or directory that cannot be read, or a file that cannot be written, is named in the output with an error. In formatting mode nothing is printed about inputs that were formatted successfully.",
 ["inputs", "fault_sequences", "configurations"],
 "for all batches of formatted, unformatted, damaged and unreadable inputs, damage positions, and faults",
 NOCLI + " One test checks the position of one lexer error on line 1.", [M, L, PA],
 [("verdict lines", M + ": format_files"), ("positions in diagnostics", L + ": generate_error, " + PA + ": error")],
 ["standard output and standard error of each run, parsed and compared with a reference model"])
prop("C12", "Concurrent runs do not disturb each other",
 "When several runs, formatting or checking, overlap on the same files, each of them behaves as if the others had happened entirely before or after its access to each file: no run reports a syntax error or failure caused by another run's work in progress, every check verdict is right for the old or the new contents, and afterwards every well-formed file holds its formatted text.",
 ["schedules", "histories", "crash_points"],
 "for all interleavings of the file operations of two or three runs over a shared tree, including one of them being killed",
 NOCLI + " Concurrency between processes is never exercised, although pre-commit runs the hook in parallel processes and editors format on save.", [M], [("reading and replacing files", M + ": read_file/write_file"), ("directory walk", M + ": get_files_from_dir")],
 ["exit status, verdict lines and file contents of overlapping runs under every sampled interleaving"])
prop("C13", "A run changes file contents only and leaves nothing behind",
 "Formatting changes nothing but the contents of the .mo files it was asked to format: names, directory structure, permission bits, symbolic links (which keep pointing where they did) and all other files stay as they were, and once a run has ended by itself, successfully or not, no auxiliary file remains. Whatever a killed run leaves behind is never picked up or disturbed as a Modelica source by later runs and does not stop them from succeeding.",
 ["inputs", "fault_sequences", "crash_points", "histories"],
 "for all file trees with varied permission bits and links, faults at any operation, kill points and subsequent runs",
 NOCLI, [M], [("writing the formatted text", M + ": write_file"), ("extension filter", M + ": is_modelica")],
 ["full directory tree (names, types, modes, link targets) before and after each run"])
prop("N01", "Output follows the documented code style",
 "Formatted output obeys the spacing, indentation, wrapping and blank-line rules of code-style.md for every well-formed source.",
 ["inputs"], "for all well-formed sources",
 "One sample file is compared with its expected output.", [F, PR, "code-style.md"], [("style rules", F)], ["formatted text of one file"])
prop("N02", "The parse tree is lossless and positions are exact",
 "For every source the library's token list, event list and tree contain each token once, in order, with the exact byte range, line and column it has in the source.",
 ["inputs"], "for all strings and entry productions of the library API",
 "Tests check a few token counts and positions.", [L, PA, T, TOK], [("positions", L + ": next"), ("tree building", T + ": build_tree")], ["values returned by parse and build_tree"])
prop("N03", "Formatting cost grows in proportion to the input",
 "Time and memory used by a run grow roughly linearly with the size of the files processed.",
 ["inputs"], "for all well-formed sources of growing size",
 "No test measures cost.", [L, PA, T, F], [("single pass over tokens", F)], ["CPU time of a run"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
