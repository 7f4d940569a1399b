#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

NOTE = {
 "C01": ("reference representation compared symbol by symbol, in checked and unchecked builds",
         "Grids of small and boundary terms are enumerated, the rest is sampled. Trusts the reference arithmetic of the harness."),
 "C02": ("exact rational oracle watching every head and symbol delivered",
         "Sampled programs of up to four operations. A panic counts as permitted only for a zero denominator or when a reference run of the algorithm needs 2^60 or more."),
 "C03": ("exact rational oracle watching every head and symbol delivered",
         "Sampled programs of up to four operations. A panic counts as permitted only for a zero denominator or when a reference run of the algorithm needs 2^60 or more."),
 "C04": ("exact rational oracle on the outcome of comparisons, both ways round",
         "All pairs of 61 values are enumerated, the rest is sampled with long common prefixes and with operands that cannot be read."),
 "C05": ("exact reconstruction from returned coefficients and remainder; read recording operands",
         "Sampled operands, endless ones included. Trusts the reference arithmetic of the harness."),
 "C06": ("panic monitor against the exact value of the denominator",
         "Sampled denominators, most of them zero, nearly zero or cancelling."),
 "C07": ("exact rational oracle at the limits of the integer range, with and without overflow checks",
         "Sampled coefficients and operands of extreme size. Any panic is permitted here, wrong output is not."),
 "C08": ("panic monitor inside the stated envelope; reference run of the algorithm decides what must work",
         "Sampled from the envelope and beyond it. The general clause is judged against a reference run of the algorithm on canonical symbols."),
 "C09": ("pairs of programs with known relation, representations compared symbol by symbol",
         "Sampled pairs of histories, both builds."),
 "C10": ("reads past the end and uses of the unread rest, against exact values",
         "Sampled histories, both builds."),
 "C11": ("standard streams, system calls and results watched in several process configurations",
         "Output capture, full, closed and broken streams, another environment, four threads, and a system call trace between marks. System calls are watched for the traced cases only."),
 "C12": ("operands that record reads, against the exact image of all continuations",
         "Sampled transformations and operands, endless ones included. Uses the hook; without it only operands of the public interface are watched."),
 "C13": ("operands that record reads, against the exact image of all continuations",
         "Sampled transformations and operands, endless ones included. Uses the hook; without it only rational operands are judged."),
 "C14": ("counting allocator, address sanitizer, interpreter for undefined behaviour (thorough)",
         "Sampled programs and long streams. Heap balance is judged per thread over repeated runs of the same program."),
 "C15": ("output of the real program parsed and compared with exact representations",
         "All lines of the program's output, both profiles, written to a file and to a pipe."),
 "C16": ("many live numbers interleaved in eight threads, each watched by its own oracle; interpreter for data races (thorough)",
         "Sampled interleavings; real thread schedules."),
 "C17": ("numbers are read on after caught failures, against the exact rest",
         "Sampled programs that exhaust the integer range while being read, and operands with a read that fails (hook)."),
 "C18": ("stack painted before each operation and inspected afterwards, with and without optimisation",
         "Sampled operations over operands of 2000 to 8000 symbols (200000 in the thorough tier). Stack used by panics is not judged."),
 "C19": ("processor and elapsed time of early and late symbols and of short and long operands compared",
         "Sampled streams of 64000 symbols and more. A growth of less than about six times the proportional cost is not seen."),
 "C20": ("panic monitor and exact rational oracle around unwrapping",
         "Sampled numbers of all kinds and origins."),
 "C21": ("transcripts of the same operations from four runs of three builds compared",
         "Sampled operations. Builds differ in optimisation, overflow checks and debug assertions; other compilers and targets are not tried."),
}

checks = []
for p, (technique, note) in sorted(NOTE.items()):
    cmd = "python3 check.py " + p
    checks.append({"property": p, "quick_cmd": cmd, "thorough_cmd": cmd, "technique": "runtime monitoring: " + technique,
                   "level": "exploration", "level_note": note, "evidence_file": "evidence/%s.json" % p})
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "hooks": {"guard": "clarith_verif", "enable": "RUSTFLAGS=\"--cfg clarith_verif\" (set by check.py)",
           "source_commits": ["93c415d7b5d86dd13f0fdfc570562bf44ce3d79f"]},
 "checks": checks,
 "not_applicable": [],
 "notes": "check.py --replay FILE repeats the case of a replay file. Exit 3: undecided, exit 4: error of the check.",
}
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
