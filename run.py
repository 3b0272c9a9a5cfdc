#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

usage: run.py <ID> quick|thorough          the registered commands
       run.py <ID> replay <file>           re-runs one saved case and prints what it does

Exit 0: the property held on everything generated. Exit 1 and a VIOLATION line: it does not hold.
Exit 3: no answer (does not build, or the run was incomplete).
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # development only; the registered commands use /repo
sys.path.insert(0, VERIF)
from checks import CHECKS, LEVEL  # noqa: E402

JOBS = min(8, os.cpu_count() or 8)
SAN = ["-fsanitize=address,bounds,null,integer-divide-by-zero,return,unreachable,object-size,vptr",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++20", "-O1", "-g1", "-w", "-pthread", "-DVERIF_HARNESS"]
SHIM = ["shim/json.cpp", "shim/wblib.cpp", "shim/gurux/dlms_stub.cpp"]
EXCLUDE = {"src/main.cpp", "src/devices/dlms_device.cpp"}


def all_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".cpp") and p not in EXCLUDE:
                r.append(p)
    return sorted(r)


def headers_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "shim"), os.path.join(VERIF, "harness")):
        for d, ds, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, work, flags):
        self.work = work
        self.flags = flags
        self.inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "shim"),
                    "-I" + os.path.join(VERIF, "shim/gurux"), "-I" + os.path.join(VERIF, "harness")]
        # development only: objects kept between runs, by content of the source, all headers and flags
        self.cache = os.environ.get("VERIF_OBJ_CACHE")
        self.hdr = headers_digest() if self.cache else ""

    def obj(self, src, extra=()):
        out = os.path.join(self.work, hashlib.sha256((src + repr(extra)).encode()).hexdigest()[:16] + ".o")
        cmd = ["g++"] + BASE + self.flags + list(extra) + self.inc + ["-c", src, "-o", out]
        if self.cache:
            k = hashlib.sha256((self.hdr + " ".join(cmd[:-3]) + src).encode() + open(src, "rb").read()).hexdigest()
            c = os.path.join(self.cache, k + ".o")
            if os.path.exists(c):
                return c
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError("%s\n%s" % (src, p.stdout.decode(errors="replace")[:3000]))
        if self.cache:
            os.makedirs(self.cache, exist_ok=True)
            t = c + ".%d.tmp" % os.getpid()
            shutil.copy(out, t)
            os.replace(t, c)
        return out

    def link(self, objs, libs, exe):
        cmd = ["g++"] + BASE + self.flags + ["-o", exe] + objs + libs
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError("link\n" + p.stdout.decode(errors="replace")[:3000])
        return exe


def build(c, work):
    flags = SAN if c.get("sanitize", True) else []
    flags = flags + c.get("flags", [])
    b = Builder(work, flags)
    own = [os.path.join(VERIF, "harness", s) for s in c["src"]] + [os.path.join(VERIF, "harness/pbt.cpp")]

    def attempt(repo_srcs, shim, libs):
        files = [os.path.join(REPO, s) for s in repo_srcs] + own
        if shim:
            files += [os.path.join(VERIF, s) for s in SHIM]
        # big files first
        files.sort(key=lambda f: -os.path.getsize(f))
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(b.obj, files))
        return b.link(objs, libs + c.get("ldflags", []), os.path.join(work, "check"))

    if c["repo"] != "all":
        try:
            return attempt(c["repo"], c.get("shim", False), ["-lpthread"])
        except (BuildError, FileNotFoundError) as e:
            # the code may have been moved to other files: take everything
            print("note: narrow build failed, building all sources (%s)" % str(e).splitlines()[0], file=sys.stderr)
    return attempt(all_sources(), True, ["-lcurl", "-lpthread"])


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    c = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048"
    os.environ["UBSAN_OPTIONS"] = "print_stacktrace=1"
    os.environ["VERIF_REPO_DIR"] = REPO
    os.environ["VERIF_DIR"] = VERIF
    os.environ["LC_ALL"] = "C.UTF-8"
    os.environ["TZ"] = "UTC"
    try:
        try:
            exe = build(c, work)
        except BuildError as e:
            print("check %s does not build: %s" % (pid, e), file=sys.stderr)
            return 3
        tb = time.time() - t0
        scratch = os.path.join(work, "scratch")
        os.mkdir(scratch)
        if tier == "replay":
            p = subprocess.run([exe, "--scratch", scratch, "--replay", sys.argv[3]])
            return p.returncode
        cases, secs = c[tier]
        rep_dir = os.path.join(VERIF, "replays")
        os.makedirs(rep_dir, exist_ok=True)
        rep = os.path.join(rep_dir, pid + ".json")
        if os.path.exists(rep):
            os.remove(rep)
        out = os.path.join(work, "out.json")
        p = subprocess.run([exe, "--seed", str(seed), "--cases", str(cases), "--seconds", str(secs),
                            "--jobs", str(JOBS), "--scratch", scratch, "--out", out, "--replay-out", rep,
                            "--cpu-limit", str(c.get("cpu_limit", 20))],
                           timeout=880 if tier == "quick" else None)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("check %s ended with %s" % (pid, p.returncode), file=sys.stderr)
            return 3
        r = json.load(open(out))
        viol = p.returncode == 1
        known = [k for k in known_findings() if k["property"] == pid]
        if viol:
            with open(rep) as f:
                d = json.load(f)
            d["tier"] = tier
            d["reproduce"] = "cd /verif && ./run.py %s replay %s" % (pid, rep)
            json.dump(d, open(rep, "w"), indent=1)
            print("case:\n%s\n%s" % (d["case"][:6000], d["message"][:4000]))
            print("VIOLATION property=%s replay=%s" % (pid, rep))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": LEVEL,
            "coverage": {
                "evaluations": r["evaluations"],
                "distinct_nontrivial": r["distinct_nontrivial"],
                "rule": r["rule"],
                "samples": r["samples"] or ["(no case completed)"],
                "cases": r["cases"],
                "nontrivial_cases": r["nontrivial"],
                "classes": r["labels"],
                "whole_budget_used": r["finished"],
                "unreproduced_failures": r["unreproduced"],
                "search_s": round(r["search_s"], 2),
                "build_s": round(tb, 2),
            },
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if viol else 0,
            "assumptions": c.get("assumptions", []),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, build %.1fs, search %.1fs -> %s" % (
            pid, tier, seed, r["cases"], r["evaluations"], r["distinct_nontrivial"], tb, r["search_s"],
            "VIOLATION" if viol else "held"))
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known"]


if __name__ == "__main__":
    sys.exit(main())
