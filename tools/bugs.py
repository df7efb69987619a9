#!/usr/bin/env python3
"""Planted-bug tool (not used by any check).
bugs.py make             (re)write seeded/<id>/ from tools/bugspec*.py
bugs.py verify [ids]     build, stable tests, demo on the clean and the patched copy
bugs.py catch [ids] [--all] [--props C01,C02] run the checks against each patched copy
Everything happens in scratch copies under /tmp that are removed afterwards."""
import concurrent.futures as cf
import glob, importlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")
sys.path.insert(0, os.path.join(VERIF, "tools"))

PRE = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include "argtable3.h"
#define MUST(c) do { if (!(c)) { fprintf(stderr, "line %d: %s does not hold\n", __LINE__, #c); return 1; } } while (0)
#define ARGV(...) char *argv[] = {"prog", __VA_ARGS__, NULL}; int argc = (int)(sizeof(argv) / sizeof(argv[0])) - 1
'''
DEMO = r'''#!/bin/bash
# cwd: the repository. Exit 0 when the property's demonstration holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 2
export ASAN_OPTIONS=detect_leaks=0 LC_ALL=C TZ=UTC
unset POSIXLY_CORRECT EF_DUMPCORE
%s
'''
STD = r'''gcc -g -O1 -w %s -I"$repo/src" -o demo "$here/demo.c" "$repo"/src/*.c -lm || exit 2
timeout 60 ./demo'''
SANFLAGS = "-fsanitize=address,undefined -fno-sanitize-recover=all"


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "bugspec*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def make(only):
    head = tempfile.mkdtemp(prefix="bugs-head-")
    try:
        run("git -C /repo archive HEAD | tar x -C %s" % head, shell=True)
        run(["git", "init", "-q"], cwd=head); run(["git", "add", "-A"], cwd=head)
        run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"], cwd=head)
        for i, b in specs().items():
            if only and i not in only:
                continue
            for f, old, new in b["edits"]:
                p = os.path.join(head, f)
                s = open(p).read()
                if s.count(old) != 1:
                    sys.exit("%s: %d matches in %s for %r" % (i, s.count(old), f, old))
                open(p, "w").write(s.replace(old, new))
            d = os.path.join(SEED, i)
            os.makedirs(d, exist_ok=True)
            diff = run(["git", "diff"], cwd=head).stdout
            run(["git", "checkout", "-q", "--", "."], cwd=head)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.c"), "w").write(PRE + b["demo"].strip("\n") + "\n")
            body = b.get("sh") or STD % (b.get("cflags", SANFLAGS))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % body)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(head)


def copy(tag):
    d = tempfile.mkdtemp(prefix="bugs-%s-" % tag)
    r = os.path.join(d, "repo")
    run("mkdir %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q" % (r, r, r), shell=True)
    return d, r


def apply(i, r):
    p = run(["git", "apply", os.path.join(SEED, i, "patch.diff")], cwd=r)
    if p.returncode:
        raise RuntimeError("%s: patch does not apply: %s" % (i, p.stdout))


def demo(i, r):
    p = run(["bash", os.path.join(SEED, i, "demo.sh")], cwd=r)
    return p.returncode, p.stdout


def stable(r, d):
    """build and run the stable tests in copy r"""
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", os.path.join(d, "build.sh")).replace("/repo", r)
        open(os.path.join(d, n), "w").write(s)
    b = run(["bash", os.path.join(d, "build.sh")])
    if b.returncode:
        return "BUILD FAILED " + b.stdout[-1500:]
    out = os.path.join(d, "out.json")
    t = run(["bash", os.path.join(d, "test.sh"), out])
    res = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("passed") or base.get("pass") or base["stable"])
    got = set(res.get("passed") or res.get("pass") or [])
    bad = sorted(want - got)
    return "" if not bad else "%d TESTS FAIL %s" % (len(bad), bad[:4])


def verify1(i):
    d, r = copy(i)
    try:
        c0, o0 = demo(i, r)
        apply(i, r)
        c1, o1 = demo(i, r)
        t = stable(r, d)
        ok = c0 == 0 and c1 != 0 and not t
        return i, ok, "demo clean=%d patched=%d %s%s" % (c0, c1, t, "" if ok else "\n" + o0[-500:] + "\n--\n" + o1[-600:])
    except Exception as e:
        return i, False, repr(e)
    finally:
        shutil.rmtree(d)


def catch1(i, props, tier="quick"):
    d, r = copy(i)
    res = {}
    try:
        if not i.startswith("clean"):
            apply(i, r)
        env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=os.path.join(d, "build"), VERIF_EVIDENCE=os.path.join(d, "ev"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        for p in props:
            t = time.time()
            x = run(["python3", os.path.join(VERIF, "check.py"), p, "--tier", tier], env=env)
            ok = x.returncode == 1 and "VIOLATION property=%s " % p in x.stdout
            res[p] = ("CAUGHT" if ok else "quiet" if x.returncode == 0 else "RC%d" % x.returncode, time.time() - t, x.stdout)
    finally:
        shutil.rmtree(d)
    return res


def main():
    a = sys.argv[1:]
    cmd, a = a[0], a[1:]
    allp = "--all" in a
    props = None
    if "--props" in a:
        k = a.index("--props"); props = a[k + 1].split(","); del a[k:k + 2]
    jobs = 4
    if "-j" in a:
        k = a.index("-j"); jobs = int(a[k + 1]); del a[k:k + 2]
    verbose = "-v" in a
    ids = [x for x in a if not x.startswith("-")]
    if cmd == "make":
        make(ids)
        return
    ids = ids or sorted(os.listdir(SEED))
    if cmd == "verify":
        with cf.ThreadPoolExecutor(jobs) as ex:
            for i, ok, msg in ex.map(verify1, ids):
                print("ok  " if ok else "BAD ", i, msg, flush=True)
    if cmd == "catch":
        from registry import CHECKS
        def one(i):
            pr = json.load(open(os.path.join(SEED, i, "meta.json")))["property"]
            ps = props or ([pr] + [p for p in sorted(CHECKS) if p != pr] if allp else [pr])
            return i, pr, catch1(i, ps)
        with cf.ThreadPoolExecutor(1 if allp else min(jobs, 2)) as ex:
            for i, pr, res in ex.map(one, ids):
                own = res.get(pr, ("-", 0, ""))
                print("%-34s %s %-7s %5.1fs  others: %s" % (i, pr, own[0], own[1], " ".join(p for p in sorted(res) if p != pr and res[p][0] != "quiet")), flush=True)
                if own[0] != "CAUGHT" and own[2] or verbose:
                    print(own[2][-1500:])


main()
