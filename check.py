#!/usr/bin/env python3
"""Runs the monitors of one property against the code in /repo.

  check.py C01            check one property (VERIF_SEED, VERIF_TIER from the environment)
  check.py --setup        build everything once
  check.py --replay FILE  run the case of a replay file again

Exit 0: the property held on everything explored. Exit 1: violated, with a line
`VIOLATION property=<id> replay=<path>`. Anything else: the check could not decide.
"""

import collections
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")
GIB = 1 << 30
STREAMS, BLOCK = 8, 64  # as in the monitor program


class Undecided(Exception):
    """An error of the check, never a violation."""


class Violation(Exception):
    def __init__(self, detail, replay):
        super().__init__(detail)
        self.detail, self.replay = detail, replay


def tool_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI"))}
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    return e


# ------------------------------------------------------------------ building

def digest():
    """Content of everything a build depends on."""
    h = hashlib.sha256()
    files = []
    for top in (REPO, HARNESS):
        for d, sub, names in os.walk(top):
            sub[:] = sorted(s for s in sub if s not in ("target", ".git"))
            files += [os.path.join(d, n) for n in sorted(names) if n.endswith((".rs", ".toml"))]
    for f in sorted(files):
        with open(f, "rb") as g:
            h.update(f.encode() + b"\0" + g.read() + b"\0")
    return h.hexdigest()[:16]


class Builder:
    """Builds into a directory named after the content, so that nothing stale is ever run."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.dir = os.path.join(BUILD, digest())
        for n in os.listdir(BUILD):
            p = os.path.join(BUILD, n)
            if p != self.dir and os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.hook = not os.path.exists(os.path.join(self.dir, "nohook"))
        self.notes = []
        self.work = os.path.join(self.dir, "work-%d" % os.getpid())
        os.makedirs(self.work)

    def scratch(self, name):
        p = os.path.join(self.work, name)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def cargo(self, args, flags, target, cwd=HARNESS, limit=600):
        env = tool_env()
        if flags:
            env["RUSTFLAGS"] = flags
        env["CARGO_TARGET_DIR"] = target
        p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, text=True)
        return p.returncode, p.stdout

    def monitor(self, profile, sanitize=False):
        """Path of the monitor program in the given profile."""
        while True:
            target = os.path.join(self.dir, ("hook" if self.hook else "plain") + ("-asan" if sanitize else ""))
            triple = "x86_64-unknown-linux-gnu"
            exe = os.path.join(target, *([triple] if sanitize else []), profile, "monitor")
            if os.path.exists(exe) and os.path.exists(exe + ".ok"):
                return exe
            flags = "--cfg clarith_verif" if self.hook else ""
            args = ["build", "--offline", "--profile", profile]
            if sanitize:
                args = ["+nightly"] + args + ["--target", triple]
                flags += " -Zsanitizer=address"
            rc, text = self.cargo(args, flags.strip(), target)
            if rc == 0:
                open(exe + ".ok", "w").close()
                return exe
            if sanitize:
                self.notes.append("address sanitizer build not available")
                return None
            if not self.hook:
                raise Undecided("build failed\n" + text[-6000:])
            # a changed interior can break the hook without breaking the library
            print("note: build with cfg(clarith_verif) failed, falling back to the public interface", file=sys.stderr)
            print(text[-3000:], file=sys.stderr)
            self.hook = False
            self.notes.append("hook did not build: only operands made through the public interface were watched")
            open(os.path.join(self.dir, "nohook"), "w").close()


# ------------------------------------------------------------------ running

def limits(cpu=None, space=None, stack=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        if stack:
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            resource.setrlimit(resource.RLIMIT_STACK, (stack if hard < 0 else min(stack, hard), hard))
        if space:
            resource.setrlimit(resource.RLIMIT_AS, (space, space))
    return f


def launch(cmd, limit, out=None, err=None, cpu=None, space=None, env=None, cwd=None, stack=None):
    """(exit status, timed out)."""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out or subprocess.DEVNULL,
                         stderr=err or subprocess.DEVNULL, preexec_fn=limits(cpu, space, stack), env=env or tool_env(),
                         cwd=cwd, start_new_session=True)
    try:
        return p.wait(limit), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return p.returncode, True


def alone(exe, prop, seed, stream, index, tier, work, big=False):
    """Runs a single case by itself: 'fail', 'crash', 'hang', 'pass' or 'error', and its output."""
    log = os.path.join(work, "alone.txt")
    with open(log, "w") as f:
        rc, late = launch([exe, "case", prop, str(seed), str(stream), str(index), tier], 120, f, subprocess.STDOUT,
                          cpu=30, space=None if big else 4 * GIB)
    with open(log, errors="replace") as f:
        text = f.read()
    if rc == 0:
        return "pass", text
    if rc == 1:
        return "fail", text
    if late or rc in (-signal.SIGXCPU, -signal.SIGKILL):
        return ("hang" if not late else "error"), text
    if rc < 0:
        return "crash", text
    return "error", text


def run_monitor(b, prop, profile, seed, count, secs, tier, sanitize=False, env=None):
    """One run of the monitor program. Returns its result or raises."""
    exe = b.monitor(profile, sanitize)
    if exe is None:
        return None
    work = b.scratch("run")
    with open(os.path.join(work, "stdout"), "wb") as so, open(os.path.join(work, "stderr"), "wb") as se:
        cmd = [exe, "run", prop, "--seed", str(seed), "--count", str(count), "--secs", str(secs),
               "--tier", tier, "--patience", "20", "--out", work]
        rc, late = launch(cmd, secs + 90, so, se, space=None if sanitize else 24 * GIB, env=env)
    with open(os.path.join(work, "stderr"), errors="replace") as f:
        said = f.read()
    with open(os.path.join(work, "stdout"), errors="replace") as f:
        printed = f.read()
    name = profile + (" with address sanitizer" if sanitize else "")
    base = {"property": prop, "tier": tier, "seed": seed, "profile": profile, "sanitize": sanitize}
    if late:
        raise Undecided("the run did not return within %d s" % (secs + 90))
    if rc in (0, 1):
        with open(os.path.join(work, "result.json")) as f:
            res = json.load(f)
        res["stdout"], res["stderr"] = printed, said
        res["outcomes"] = {}
        for s in range(STREAMS):
            if os.path.exists(os.path.join(work, "outcomes-%d" % s)):
                with open(os.path.join(work, "outcomes-%d" % s), "rb") as f:
                    res["outcomes"][s] = f.read()
        if rc == 1:
            x = res["fails"][0]
            base.update(stream=x["stream"], index=x["index"], detail=x["detail"])
            kind, text = alone(exe, prop, seed, x["stream"], x["index"], tier, work, sanitize)
            base["alone"] = kind
            if kind == "pass":
                base["count"], base["secs"] = count, secs
                base["note"] = "seen in a run of many cases, not when the case is run by itself"
            raise Violation("[%s] %s" % (name, x["detail"]), base)
        return res
    if rc == 4:
        raise Undecided("monitor error\n" + said[-3000:])
    # crashed, or a case did not return: which one, and does it do so by itself?
    if rc == 42:
        with open(os.path.join(work, "stuck")) as f:
            todo = [tuple(map(int, f.read().split()))]
    elif rc < 0 or sanitize:
        with open(os.path.join(work, "progress"), "rb") as f:
            raw = f.read()
        todo = [(i // 8, int.from_bytes(raw[i:i + 8], "little")) for i in range(0, len(raw) - 7, 8)]
        todo = [(s, i) for s, i in todo if i != (1 << 64) - 1]
    else:
        raise Undecided("monitor exit status %s\n%s" % (rc, said[-3000:]))
    for stream, index in todo:
        kind, text = alone(exe, prop, seed, stream, index, tier, work, sanitize)
        if kind in ("crash", "hang", "fail") or kind == "error" and "AddressSanitizer" in text:
            again, _ = alone(exe, prop, seed, stream, index, tier, work, sanitize)
            if again == kind:
                what = {"crash": "the process dies", "hang": "does not return within 30 s of CPU time"}.get(kind, kind)
                base.update(stream=stream, index=index, alone=kind, detail=what, output=text[-4000:])
                raise Violation("[%s] case (%d, %d): %s; %s" % (name, stream, index, what, text.strip()[-600:]), base)
    if "AddressSanitizer" in said:
        base.update(count=count, secs=secs, detail=said[-4000:])
        raise Violation("[%s] %s" % (name, said.strip()[:600]), base)
    if prop in ("C14", "C16") and rc < 0:
        # state that builds up over many cases is what these properties are about
        again, _ = launch([exe] + cmd[1:], secs + 90, space=None if sanitize else 24 * GIB)
        if again == rc:
            base.update(count=count, secs=secs, detail="dies with signal %d over many cases, twice" % -rc)
            raise Violation("[%s] the process dies with signal %d over many cases" % (name, -rc), base)
    raise Undecided("exit status %s, no single case repeats it\n%s" % (rc, said[-3000:]))


class Tally:
    def __init__(self):
        self.evaluations = self.distinct = 0
        self.counters, self.maxima, self.samples = collections.Counter(), {}, []
        self.extra = {}

    def take(self, res, label):
        self.evaluations += res["evaluations"]
        # runs may share cases, so only the largest of them is counted
        self.distinct = max(self.distinct, res["distinct"])
        for k, v in res["counters"].items():
            self.counters[label + ": " + k] += v
        for k, v in res["maxima"].items():
            self.maxima[k] = max(v, self.maxima.get(k, 0))
        self.samples += [s for s in res["samples"] if s not in self.samples][:6]


# ------------------------------------------------------------------ the checks

RULES = {
    "C01": "ratios from a grid of small terms, grids of boundary terms (signed and unsigned) and random terms of all sizes; non-trivial: at least 3 symbols follow the head",
    "C02": "a homographic transformation of a ratio or of a program of up to 3 operations, coefficients random or aimed at the poles, -1, 0, 1, 1/2; non-trivial: read to its end, at least 2 symbols",
    "C03": "a combination of two ratios or programs of up to 3 operations, coefficients random, degenerate or aimed at poles and special results; non-trivial: read to its end, at least 2 symbols",
    "C04": "pairs with long common symbol prefixes, equal values by different programs, neighbours, specials, unreadable operands, both ways round; non-trivial: same primer, so that symbols decide",
    "C05": "ratios of all sizes, programs and endless instrumented operands; non-trivial: the operand is not special and has been checked against coefficients and remainder",
    "C06": "zero, nearly zero and cancelling denominators of ratios, transformations and combinations; non-trivial: the exact denominator is zero",
    "C07": "coefficients and terms up to the extremes of the machine integers; non-trivial: the range was exhausted or at least 2 symbols were read to the end",
    "C08": "operands and coefficients over the whole envelope, +-1 transformations of all machine ratios, and programs whose reference run stays below 2^60; non-trivial: read to its end, at least 2 symbols",
    "C09": "pairs of programs with equal or slightly different values; non-trivial: the values are equal and the representations were compared to the end",
    "C10": "numbers read past their end, and programs that use the unread rest of partly read numbers; non-trivial: at least one symbol had been read before",
    "C11": "mixed operations; one evaluation is one case run in one process configuration; non-trivial: see the counters of the mixed workload (C02-C05)",
    "C12": "operations on instrumented operands (finite, periodic, aperiodic), read a random number of times, plus operands of the public interface that cannot be read further; non-trivial: something was read and something delivered",
    "C13": "single operations, programs of several operations and long streams over instrumented operands; non-trivial: something was read and something delivered",
    "C14": "programs built, read (partly or to the end or failure) and dropped three times under a counting allocator, and long streams; non-trivial: at least 2 symbols were read or the program failed",
    "C15": "lines printed by the program, built in both profiles; non-trivial: at least one symbol besides the head or end mark",
    "C17": "programs at the limits of the integer range, and operands one read of which fails; non-trivial: a read failed and the number was used further",
    "C18": "operations on operands with thousands of symbols, most of them read before the first delivery; non-trivial: completed, and the stack it touched was measured",
    "C19": "streams, comparisons, quotients of tiny numbers and stacked operations in two sizes; non-trivial: both sizes were measured",
    "C20": "ratios and programs with special and other results; non-trivial: both ways of unwrapping were tried and the content compared",
    "C21": "programs of all kinds up to the extremes of the machine integers, read, compared, consumed or taken apart, the same ones in every build; non-trivial: at least 5 characters of transcript",
    "C16": "200 to 600 steps that build, read, drop and abandon up to 24 live numbers in random order, in 8 threads; non-trivial: at least 3 numbers were read to their end",
}

ASSUME = {
    "*": ["the reference arithmetic of the harness (rationals of up to 1024 bits) is right",
          "the meaning of heads and symbols is the one documented in clarith::protocol"],
    "C02": ["a panic counts as exhausted integer range unless a reference run of Gosper's algorithm stays below 2^60"],
    "C03": ["a panic counts as exhausted integer range unless a reference run of Gosper's algorithm stays below 2^60"],
    "C12": ["operands made by the hook clarith::verif::clog_from are treated by operations like any other number"],
    "C13": ["operands made by the hook clarith::verif::clog_from are treated by operations like any other number"],
}

# cases per profile, and the least number of distinct non-trivial cases that decides
QUICK = {"C16": (240_000, 300), "C18": (1_000_000, 300), "C19": (1_000_000, 300), "C13": (8_000_000, 5_000), "C12": (12_000_000, 5_000)}
NORMAL = (14_000_000, 20_000)
RELEASE = 1_000_003


def generic(b, prop, seed, tier, t):
    count, least = QUICK.get(prop, NORMAL)
    secs = 20
    if tier == "thorough":
        count, secs = count * 40, 200
    # other cases in the other build
    first = "plain" if prop == "C18" else "checked"
    for profile, s in ((first, seed), ("release", seed + RELEASE)):
        t.take(run_monitor(b, prop, profile, s, count, secs, tier), profile)
    if t.distinct < least:
        raise Undecided("only %d distinct non-trivial cases, %d needed" % (t.distinct, least))


QUIET_CALLS = re.compile(r"^(futex|mmap|munmap|mremap|mprotect|madvise|brk|sigaltstack|gettid|getpid|sched_\w+|rt_sig\w+|rseq|"
                         r"set_robust_list|getrandom|clock_\w+|gettimeofday|nanosleep|restart_syscall|membarrier|exit|prctl|"
                         r"set_tid_address|arch_prctl|getcpu|getrusage|sysinfo|prlimit64|clone3?|times|time)$")


def check_effects(b, prop, seed, tier, t):
    generic_part = Tally()
    secs, count = (12, 10_000_000) if tier == "quick" else (60, 60_000_000)
    for profile in ("checked", "release"):
        res = run_monitor(b, prop, profile, seed + (RELEASE if profile == "release" else 0), count, secs, tier)
        generic_part.take(res, profile)
        for stream in ("stdout", "stderr"):
            if res[stream]:
                raise Violation("[%s] something was written to %s: %r" % (profile, stream, res[stream][:300]),
                                {"property": prop, "tier": tier, "seed": seed, "profile": profile, "count": count,
                                 "secs": secs, "detail": "written to " + stream + ": " + res[stream][:2000]})
    t.evaluations, t.distinct = generic_part.evaluations, generic_part.distinct
    t.counters, t.maxima, t.samples = generic_part.counters, generic_part.maxima, generic_part.samples
    n = 150_000 if tier == "quick" else 1_000_000
    seen = {}
    calls = collections.Counter()
    for profile in ("checked", "release"):
        exe = b.monitor(profile)
        for config in ("files", "full", "closed", "broken pipe", "other environment", "all settings", "traced"):
            work = b.scratch("effects")
            so, se = open(os.path.join(work, "stdout"), "wb"), open(os.path.join(work, "stderr"), "wb")
            cmd = [exe, "effects", str(seed), str(n), work]
            env, cwd, pipe = tool_env(), work, None
            if config == "full":
                so.close(), se.close()
                so = se = open("/dev/full", "wb")
            elif config == "closed":
                cmd.append("close")
            elif config == "broken pipe":
                r, w = os.pipe()
                os.close(r)
                so.close(), se.close()
                so = se = os.fdopen(w, "wb")
            elif config == "other environment":
                env.update(RUST_BACKTRACE="full", RUST_LOG="trace", LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", TZ="Asia/Kolkata",
                           DEBUG="1", VERBOSE="1", HOME="/nonexistent", TMPDIR="/nonexistent", RUST_MIN_STACK="16777216")
                cwd = "/"
            elif config == "all settings":
                cmd.append("settings")
            elif config == "traced":
                if not shutil.which("strace"):
                    b.notes.append("strace not available, system calls were not watched")
                    continue
                cmd = ["strace", "-f", "-qq", "-o", os.path.join(work, "calls")] + cmd
            rc, late = launch(cmd, 300, so, se, space=None if config == "traced" else 24 * GIB, env=env, cwd=cwd, stack=GIB // 4)
            so.close(), se.close()
            where = "%s, %s" % (profile, config)
            replay = {"property": prop, "tier": tier, "seed": seed, "profile": profile, "config": config, "effects": n}
            if late or not os.path.exists(os.path.join(work, "digest")):
                if config == "traced":
                    b.notes.append("strace did not work, system calls were not watched")
                    continue
                if late or config == "files":
                    raise Undecided("%s: exit status %s" % (where, rc))
                replay["detail"] = "exit status %s, while it works with plain files as standard streams" % rc
                raise Violation(where + ": " + replay["detail"], replay)
            if config in ("files", "other environment", "all settings", "traced"):
                for s in ("stdout", "stderr"):
                    with open(os.path.join(work, s), "rb") as f:
                        text = f.read()
                    if text:
                        replay["detail"] = "written to %s: %r" % (s, text[:500])
                        raise Violation(where + ": " + replay["detail"], replay)
            with open(os.path.join(work, "digest")) as f:
                d = f.read().split()
            t.evaluations += n * len(d)
            if len(set(d)) != 1:
                replay["detail"] = "threads saw different results: %s" % d
                raise Violation(where + ": " + replay["detail"], replay)
            seen[where] = d[0]
            first = seen[profile + ", files"]
            if d[0] != first:
                replay["detail"] = "results differ from those of a process with plain files as standard streams"
                raise Violation(where + ": " + replay["detail"], replay)
            if os.path.exists(os.path.join(work, "changed")):
                with open(os.path.join(work, "changed")) as f:
                    replay["detail"] = "operations changed the process: " + f.read()[:1000]
                raise Violation(where + ": " + replay["detail"], replay)
            stray = [x for x in os.listdir(work) if x not in ("stdout", "stderr", "digest", "lookups", "calls")]
            if stray:
                replay["detail"] = "files appeared: %s" % stray
                raise Violation(where + ": " + replay["detail"], replay)
            if config == "all settings":
                with open(os.path.join(work, "lookups")) as f:
                    t.extra["environment lookups by operations"] = t.extra.get("environment lookups by operations", 0) + int(f.read())
            if config == "traced":
                on = done = False
                with open(os.path.join(work, "calls"), errors="replace") as f:
                    for line in f:
                        if "mark-begin" in line:
                            on = True
                            continue
                        if "mark-end" in line:
                            on, done = False, True
                        m = re.match(r"\d+\s+(\w+)\(", line)
                        if not on or not m:
                            continue
                        calls[m.group(1)] += 1
                        if not QUIET_CALLS.match(m.group(1)):
                            replay["detail"] = "system call during operations: " + line.strip()[:300]
                            raise Violation(where + ": " + replay["detail"], replay)
                if not done:
                    b.notes.append("marks missing in the system call trace")
    t.extra["process configurations with equal results"] = len(seen)
    t.extra["system calls seen while operations ran"] = dict(calls)
    if t.distinct < 20_000:
        raise Undecided("only %d distinct non-trivial cases" % t.distinct)


def check_memory(b, prop, seed, tier, t):
    generic(b, prop, seed, tier, t)
    res = run_monitor(b, prop, "checked", seed + 1, 10_000_000, 8 if tier == "quick" else 60, tier, sanitize=True)
    if res:
        t.evaluations += res["evaluations"]
        t.extra["cases under the address sanitizer"] = res["evaluations"]
    if tier == "thorough":
        n = miri(b, prop, seed, 150, t)
        t.extra["cases under the interpreter for undefined behaviour"] = n


def check_independence(b, prop, seed, tier, t):
    generic(b, prop, seed, tier, t)
    if tier == "thorough":
        n = miri(b, prop, seed, 120, t, threads=True)
        t.extra["cases under the interpreter for data races"] = n


def miri(b, prop, seed, secs, t, threads=False):
    """Runs cases in Miri; an undefined-behaviour report is a violation."""
    target = os.path.join(b.dir, "miri")
    env = tool_env()
    env.update(CARGO_TARGET_DIR=target, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks")
    if b.hook:
        env["RUSTFLAGS"] = "--cfg clarith_verif"
    end, n, i = time.time() + secs, 0, 0
    while time.time() < end:
        work = b.scratch("miri")
        log = os.path.join(work, "log")
        if threads:
            # eight threads, one case each
            args = ["run", prop, "--seed", str(seed + i), "--count", "8", "--secs", "600", "--patience", "600", "--out", work]
        else:
            args = ["case", prop, str(seed), str(i % 8), str(i // 8), "quick"]
        with open(log, "w") as f:
            rc, late = launch(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--"] + args, 280, f, subprocess.STDOUT, env=env, cwd=HARNESS)
        with open(log, errors="replace") as f:
            text = f.read()
        if "Undefined Behavior" in text:
            raise Violation("undefined behaviour: " + text[text.index("Undefined Behavior"):][:600],
                            {"property": prop, "seed": seed, "miri": args, "detail": text[-6000:]})
        if late:
            break
        if rc not in (0, 1):
            b.notes.append("the interpreter (miri) could not be used: " + text[-300:])
            break
        n += 8 if threads else 1
        i += 1
    t.evaluations += n
    return n


def symbols_of(num, den):
    """Documented representation of num/den, worked out with python integers."""
    from fractions import Fraction
    v = Fraction(num, den)
    if v in (0, 1, -1):
        return {0: "Z", 1: "P", -1: "N"}[int(v)]
    out = ""
    if v > 1:
        out, v = "T", 1 / v
    elif -1 < v < 0:
        out, v = "R", -v
    elif v < -1:
        out, v = "G", -1 / v
    while v != Fraction(1, 2):
        if v < Fraction(1, 2):
            out, v = out + "A", 2 * v
        else:
            out, v = out + "U", (1 - v) / v
    return out + "H"


def check_program(b, prop, seed, tier, t):
    big = (1 << 63) - 1
    want = {}
    for n in range(17):
        want["%d.0" % n] = (n, 1)
        want["%d.5" % n] = (10 * n + 5, 10)
    want[str(big)], want["1/%d" % big], want["-2"] = (big, 1), (1, big), (-2, 1)
    src = os.path.join(b.dir, "program")
    if not os.path.isdir(src):
        tmp = b.scratch("copy")
        for n in os.listdir(REPO):
            if n in ("target", ".git"):
                continue
            p = os.path.join(REPO, n)
            (shutil.copytree if os.path.isdir(p) else shutil.copy2)(p, os.path.join(tmp, n))
        os.rename(tmp, src)
    lines_seen, configs = set(), 0
    for profile, flag in (("debug", []), ("release", ["--release"])):
        target = os.path.join(b.dir, "program-target")
        rc, text = b.cargo(["build", "--offline", "--bin", "clarith"] + flag, "", target, cwd=src)
        if rc != 0:
            raise Undecided("the program does not build\n" + text[-4000:])
        exe = os.path.join(target, profile, "clarith")
        for mode in ("file", "pipe", "arguments", "bare environment", "other environment", "again"):
            configs += 1
            work = b.scratch("program")
            replay = {"property": prop, "tier": tier, "seed": seed, "profile": profile, "program": True}
            where = "[%s, %s] " % (profile, mode)
            if mode == "file":
                with open(os.path.join(work, "out"), "wb") as f, open(os.path.join(work, "err"), "wb") as g:
                    rc, late = launch([exe], 200, f, g, cpu=60, cwd=work)
                with open(os.path.join(work, "out"), errors="replace") as f:
                    out = f.read()
                with open(os.path.join(work, "err"), errors="replace") as f:
                    err = f.read()
            else:
                cmd, env = [exe], tool_env()
                if mode == "arguments":
                    cmd += ["--help", "3/4", "-2", ""]
                elif mode == "bare environment":
                    env = {}
                elif mode == "other environment":
                    env = dict(env, LANG="de_DE.UTF-8", LC_ALL="de_DE.UTF-8", RUST_BACKTRACE="full", TERM="dumb", NO_COLOR="1", COLUMNS="20")
                try:
                    p = subprocess.run(cmd, input="7\n" if mode == "again" else "", stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work,
                                       env=env, timeout=300, text=True, errors="replace", preexec_fn=limits(cpu=60))
                except subprocess.TimeoutExpired:
                    raise Undecided("the program did not return in time")
                rc, late, out, err = p.returncode, False, p.stdout, p.stderr
            if late:
                raise Undecided("the program did not return in time")
            if rc != 0:
                replay["detail"] = "exit status %d%s; %s" % (rc, " (endless)" if rc == -signal.SIGXCPU else "", err[-400:])
                raise Violation(where + replay["detail"], replay)
            got = []
            for line in out.split("\n"):
                if not line.strip():
                    continue
                label, sep, rest = line.partition(":")
                label, rest = label.strip(), rest.strip()
                t.evaluations += 1
                if not sep or label not in want:
                    replay["detail"] = "unexpected line %r" % line[:200]
                    raise Violation(where + replay["detail"], replay)
                e = symbols_of(*want[label])
                if rest != e:
                    replay["detail"] = "line %r: the representation of %s is %s" % (line[:2200], label, e)
                    raise Violation(where + replay["detail"], replay)
                got.append(label)
                if len(rest) > 2:
                    lines_seen.add(line)
            if sorted(got) != sorted(want):
                missing = sorted(set(want) - set(got)) or sorted(x for x in set(got) if got.count(x) > 1)
                replay["detail"] = "lines missing or repeated: %s" % missing[:10]
                raise Violation(where + replay["detail"], replay)
    t.distinct = len(lines_seen)
    t.samples = sorted(lines_seen)[:8]
    t.extra["runs of the program"] = configs
    t.extra["exhaustive"] = True


def differing_case(b, prop, seed, tier, builds, stream, indices):
    """The first case whose transcript, made by the case alone, differs between two builds."""
    for i in indices:
        seen = [alone(b.monitor(x), prop, seed, stream, i, tier, b.work) for x in builds]
        if seen[0] != seen[1]:
            if any(k == "error" for k, _ in seen):
                continue
            again = [alone(b.monitor(x), prop, seed, stream, i, tier, b.work) for x in builds]
            return i, seen, again == seen
    return None


def check_builds(b, prop, seed, tier, t):
    """Runs the same cases in builds with and without overflow checks and optimisation."""
    k = 1 if tier == "quick" else 10
    runs, names = {}, ("checked", "release", "plain", "release again")
    for name, secs in zip(names, (14 * k, 10 * k, 14 * k, 4 * k)):
        profile = name.split()[0]
        env = dict(tool_env(), LANG="C", VERIF_AGAIN="1") if name != profile else None
        try:
            res = run_monitor(b, prop, profile, seed, 1 << 40, secs, tier, env=env)
        except Violation as v:
            # dies or does not return: alike if the other builds do the same
            if "stream" not in v.replay:
                raise Undecided(v.detail)
            other = "release" if profile != "release" else "checked"
            d = differing_case(b, prop, seed, tier, (profile, other), v.replay["stream"], [v.replay["index"]])
            if d is None or not d[2]:
                raise Undecided(v.detail)
            v.replay.update(builds=[profile, other], detail="%s: %s, %s: %s" % (profile, d[1][0][0], other, d[1][1][0]))
            raise
        t.take(res, name)
        runs[name] = res["outcomes"]
    compared = 0
    for i, first in enumerate(names):
        for second in names[i + 1:]:
            for s in range(STREAMS):
                x, y = runs[first].get(s, b""), runs[second].get(s, b"")
                n = min(len(x), len(y))
                compared += n // 8 * BLOCK
                if x[:n] == y[:n]:
                    continue
                block = next(j for j in range(0, n, 8) if x[j:j + 8] != y[j:j + 8]) // 8
                builds = [first.split()[0], second.split()[0]]
                replay = {"property": prop, "tier": tier, "seed": seed, "stream": s, "builds": builds}
                d = differing_case(b, prop, seed, tier, builds, s, range(block * BLOCK, block * BLOCK + BLOCK))
                if d is None:
                    replay["block"] = block
                    replay["detail"] = "results of %s and %s differ in cases (%d, %d..%d), not when they are run by themselves" % (
                        first, second, s, block * BLOCK, block * BLOCK + BLOCK - 1)
                    raise Violation(replay["detail"], replay)
                replay.update(index=d[0], detail="case (%d, %d): %s" % (s, d[0], "; ".join(
                    "%s build: %s %s" % (n, k, " ".join(x.split())[-700:]) for n, (k, x) in zip(builds, d[1]))))
                raise Violation(replay["detail"], replay)
    t.extra["cases compared between two builds or runs"] = compared
    if compared < 100_000 or t.distinct < 20_000:
        raise Undecided("only %d cases compared, %d distinct" % (compared, t.distinct))


SPECIAL = {"C21": check_builds, "C11": check_effects, "C14": check_memory, "C15": check_program, "C16": check_independence}


def known_open(prop):
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r"open: property=(\w+) (.*)", line)
                if m and m.group(1) == prop:
                    print("KNOWN-FINDING: property=%s %s" % (prop, m.group(2)))


def check(prop):
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") % (1 << 62)
    tier = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
    if prop not in RULES:
        raise Undecided("unknown property " + prop)
    b = Builder()
    t = Tally()
    bad = None
    try:
        known_open(prop)
        try:
            SPECIAL.get(prop, generic)(b, prop, seed, tier, t)
        except Violation as v:
            bad = v
    finally:
        b.close()
    exhaustive = t.extra.pop("exhaustive", False)
    cover = {"evaluations": t.evaluations, "distinct_nontrivial": t.distinct, "rule": RULES[prop],
             "samples": t.samples[:12] or ([bad.detail] if bad else []),
             "observed": dict(t.counters), "largest": t.maxima, "hook": b.hook}
    cover.update(t.extra)
    if exhaustive:
        cover["exhaustive"] = True
    if b.notes:
        cover["notes"] = b.notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cover,
          "assumptions": ASSUME["*"] + ASSUME.get(prop, []), "wall_s": round(time.time() - start, 2),
          "violations": 1 if bad else 0}
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path + ".new", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".new", path)
    if bad:
        os.makedirs(REPLAYS, exist_ok=True)
        h = hashlib.sha256(json.dumps(bad.replay, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(bad.replay, f, indent=1)
        print(bad.detail[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d evaluations, %d distinct and non-trivial, %.1f s" % (prop, t.evaluations, t.distinct, time.time() - start))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    print(json.dumps(r, indent=1))
    prop, seed, tier = r["property"], r["seed"], r.get("tier", "quick")
    b = Builder()
    try:
        if "builds" in r and "index" in r:
            d = differing_case(b, prop, seed, tier, r["builds"], r["stream"], [r["index"]])
            for n, (k, x) in zip(r["builds"], d[1] if d else []):
                print("%s build: %s\n%s" % (n, k, x))
            return 1 if d else 0
        if "stream" in r and "index" in r and r.get("alone") != "pass":
            exe = b.monitor(r["profile"], r.get("sanitize", False))
            kind, text = alone(exe, prop, seed, r["stream"], r["index"], tier, b.work, r.get("sanitize", False))
            print(text)
            print("outcome: " + kind)
            return 0 if kind == "pass" else 1
        if "count" in r:
            try:
                run_monitor(b, prop, r["profile"], seed, r["count"], r["secs"], tier, r.get("sanitize", False))
            except Violation as v:
                print(v.detail)
                return 1
            return 0
    finally:
        b.close()
    # the others are cheap: run the check again
    del b
    os.environ.update(VERIF_SEED=str(seed), VERIF_TIER=tier)
    return check(prop)


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            b = Builder()
            try:
                for profile in ("checked", "release", "plain"):
                    print(b.monitor(profile))
            finally:
                b.close()
            return 0
        if len(a) == 2 and a[0] == "--replay":
            return replay(a[1])
        if len(a) == 1:
            return check(a[0])
        print(__doc__)
        return 2
    except Undecided as e:
        print("UNDECIDED: %s" % e)
        return 3


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # an error of the check is never a violation
        import traceback
        traceback.print_exc()
        sys.exit(4)
