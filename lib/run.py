#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree and runs it.

    run.py PROPERTY [quick|thorough] [harness arguments]

A harness is checks/<PROPERTY>_*.cpp. Lines in it that start with //@ say how it is built:
    //@src GLOB...     files below /repo/src that are compiled and linked (default: none)
    //@flags FLAG...   extra compiler flags, for the harness and those files
    //@with FILE...    further files of checks/ that are compiled and linked
    //@variant NAME FLAG...  the same sources are also built with these flags instead; the harness finds that
                      executable by the environment variable VERIF_NAME
    //@variant? NAME FLAG...  likewise, but when only these flags make the compilation fail, the harness is run
                      without that executable (and has to report it)
    //@fallback FLAG... flags added for a second attempt if the harness itself does not compile (each
                       omits a use that some tree may not support, so that the rest is still decided)
"""

import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SLEIPNIR_REPO", "/repo")
CXX = "g++-14"
BASE = ["-std=c++23", "-O1", "-w", "-fno-diagnostics-color", "-I" + VERIF + "/shim", "-I" + VERIF + "/lib",
        "-I" + VERIF + "/checks", "-include", VERIF + "/shim/eigen_compat.hpp",
        "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3"]


def compile_one(job):
    src, obj, flags = job
    p = subprocess.run([CXX, *BASE, *flags, "-c", src, "-o", obj], capture_output=True, text=True)
    return src, p.returncode, p.stderr


def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest.pop(0)
    harness = glob.glob(f"{VERIF}/checks/{prop}_*.cpp")
    if len(harness) != 1:
        print(f"no single harness for {prop}: {harness}")
        return 2
    harness = harness[0]
    srcs, flags, extra, fallback, variants, optional = [], [], [], [], {}, set()
    with open(harness) as f:
        for line in f:
            if line.startswith("//@src"):
                for g in line.split()[1:]:
                    found = sorted(glob.glob(f"{REPO}/src/{g}", recursive=True))
                    srcs += found
            elif line.startswith("//@flags"):
                flags += line.split()[1:]
            elif line.startswith("//@variant"):
                variants[line.split()[1]] = line.split()[2:]
                if line.startswith("//@variant?"):
                    optional.add(line.split()[1])
            elif line.startswith("//@fallback"):
                fallback += line.split()[1:]
            elif line.startswith("//@with"):
                extra += [f"{VERIF}/checks/{g}" for g in line.split()[1:]]
    tmp = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        jobs, parts = [], {}
        for name, f in {"": flags, **variants}.items():
            parts[name] = [(s, f"{tmp}/{name}{i}.o", f) for i, s in enumerate([harness, *extra, *srcs])]
            jobs += parts[name]
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            results = list(ex.map(compile_one, jobs))
        if results[0][1] and fallback:
            print("retrying with", *fallback)
            for i, job in enumerate(jobs):
                if job[0] == harness:
                    results[i] = compile_one((harness, job[1], job[2] + fallback))
        failed = {j[1] for j, r in zip(jobs, results) if r[1]}
        for name in optional:
            if any(j[1] in failed for j in parts[name]):
                print(f"the build {name} does not compile:", *[r[2][-1500:] for j, r in zip(jobs, results) if r[1] and j in parts[name]][:1])
                results = [r for j, r in zip(jobs, results) if j not in parts[name]]
                jobs = [j for j in jobs if j not in parts[name]]
                del variants[name]
        bad = [r for r in results if r[1]]
        if bad:
            for src, _, err in bad:
                lines = [l for l in err.splitlines() if "error" in l][:10]
                print(f"{src} does not compile:", *lines, err[-1500:] if not lines else "", sep="\n  ")
            return 2
        exe = f"{tmp}/{prop}"
        for name, f in {"": flags, **variants}.items():
            p = subprocess.run([CXX, *[x for x in f if x.startswith(("-fsan", "-g", "-O", "-pthread", "-l", "-r"))],
                                *[j[1] for j in parts[name]], "-o", exe + ("-" + name if name else ""), "-lstdc++exp",
                                "-pthread"], capture_output=True, text=True)
            if p.returncode:
                print(p.stderr[-3000:])
                return 2
        env = dict(os.environ, VERIF_DIR=VERIF, VERIF_TIER=tier, REPO_DIR=REPO, WORK_DIR=tmp)
        for name in variants:
            env["VERIF_" + name] = f"{exe}-{name}"
        env.setdefault("VERIF_SEED", "1")
        env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1")
        env.setdefault("UBSAN_OPTIONS", "halt_on_error=1:abort_on_error=1:print_stacktrace=0")
        return subprocess.run([exe, "--tier", tier, *rest], env=env, cwd=tmp).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
