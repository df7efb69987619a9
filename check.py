#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [--only TEST] [--scale X]
check.py --setup        build everything once

Builds the library from /repo's current working tree together with the property's
generator/oracle harness, runs the search and writes evidence/<id>.json.
Exit 0: held on everything explored; 1: violation (VIOLATION line); 3: error of the check."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")      # overridden only by the self-test tools
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import CHECKS  # noqa: E402

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all"]
LIBBASE = ["-std=gnu89", "-w", "-Wno-int-conversion", "-Wno-implicit-function-declaration", "-Wno-incompatible-function-pointer-types", "-Wno-return-type", "-D_XOPEN_SOURCE=700", "-g1"]
LIBFLAGS = {
    # sanitized multi-file build, as CMake compiles it (asserts active), uninitialised autos poisoned
    "asan": ["clang"] + LIBBASE + ["-O1", "-ftrivial-auto-var-init=pattern"] + SAN,
    "fuzz": ["clang"] + LIBBASE + ["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=fuzzer-no-link"] + SAN,
    "msan": ["clang"] + LIBBASE + ["-O1", "-fsanitize=memory", "-fno-omit-frame-pointer"],
    "plain": ["clang"] + LIBBASE + ["-O1", "-ftrivial-auto-var-init=pattern"],
}
CXX = ["clang++", "-std=c++17", "-O1", "-g1", "-w", "-I", SRC, "-I", HARN]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def read(p):
    with open(p, "rb") as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def headers_hash(dirs):
    parts = []
    for d in dirs:
        for n in sorted(os.listdir(d)):
            if n.endswith((".h", ".hpp", ".inc")):
                parts += [n, read(os.path.join(d, n))]
    return digest(*parts)


def cached(key, suffix, make):
    """content-addressed build product"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, key + suffix)
    if not os.path.exists(out):
        fd, tmp = tempfile.mkstemp(suffix=suffix, dir=BUILD)
        os.close(fd)
        try:
            make(tmp)
            os.chmod(tmp, 0o755)
            os.replace(tmp, out)
        finally:
            if os.path.exists(tmp):
                os.unlink(tmp)
    return out


def compile_c(src, flags, hh, incl=SRC):
    key = digest(read(src), os.path.basename(src), hh, *flags)
    return cached(key, ".o", lambda o: sh(flags + ["-I", incl, "-c", src, "-o", o]))


def lib_objects(variant, pool):
    hh = headers_hash([SRC])
    srcs = sorted(os.path.join(SRC, n) for n in os.listdir(SRC) if n.endswith(".c"))
    return list(pool.map(lambda s: compile_c(s, LIBFLAGS[variant], hh), srcs))


def compile_harness(src, extra, hh):
    flags = CXX + extra
    key = digest(read(src), hh, *[f for f in flags if f != SRC])      # hh covers what lies there
    return cached(key, ".o", lambda o: sh(flags + ["-c", src, "-o", o]))


def shared_lib(name, pool):
    """whole-library shared objects for the configuration differential (C21)"""
    hh = headers_hash([SRC])
    srcs = sorted(os.path.join(SRC, n) for n in os.listdir(SRC) if n.endswith(".c"))
    if name == "multi":        # separate sources, sanitized
        flags = ["clang"] + LIBBASE + ["-O1", "-fPIC", "-ftrivial-auto-var-init=pattern"] + SAN
        objs = list(pool.map(lambda s: compile_c(s, flags, hh), srcs))
        key = digest("multi", *objs)
        return cached(key, ".so", lambda o: sh(["clang", "-shared", "-Wl,-Bsymbolic", "-o", o] + objs + ["-lm"]))
    if name == "sysgetopt":    # separate sources, the system's getopt
        flags = ["gcc"] + LIBBASE + ["-std=gnu99", "-O2", "-fPIC", "-DARG_REPLACE_GETOPT=0"]
        objs = list(pool.map(lambda s: compile_c(s, flags, hh), srcs))
        key = digest("sysgetopt", *objs)
        return cached(key, ".so", lambda o: sh(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", o] + objs + ["-lm"]))
    if name in ("longonly", "syslongonly"):    # one-dash long names, bundled and system scanner
        if name == "longonly":
            flags = ["clang"] + LIBBASE + ["-O1", "-fPIC", "-DARG_LONG_ONLY", "-ftrivial-auto-var-init=pattern"] + SAN
        else:
            flags = ["gcc"] + LIBBASE + ["-std=gnu99", "-O2", "-fPIC", "-DARG_LONG_ONLY", "-DARG_REPLACE_GETOPT=0"]
        objs = list(pool.map(lambda s: compile_c(s, flags, hh), srcs))
        key = digest(name, *objs)
        return cached(key, ".so", lambda o: sh([flags[0], "-shared", "-Wl,-Bsymbolic", "-o", o] + objs + ["-lm"]))
    if name == "release":      # separate sources, -O2 NDEBUG
        flags = ["gcc"] + LIBBASE + ["-O2", "-fPIC", "-DNDEBUG"]
        objs = list(pool.map(lambda s: compile_c(s, flags, hh), srcs))
        key = digest("release", *objs)
        return cached(key, ".so", lambda o: sh(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", o] + objs + ["-lm"]))
    if name == "o3":           # separate sources, clang -O3, a newer language standard
        flags = ["clang"] + LIBBASE + ["-std=gnu17", "-O3", "-fPIC", "-DNDEBUG"]
        objs = list(pool.map(lambda s: compile_c(s, flags, hh), srcs))
        key = digest("o3", *objs)
        return cached(key, ".so", lambda o: sh(["clang", "-shared", "-Wl,-Bsymbolic", "-o", o] + objs + ["-lm"]))
    if name in ("amalg", "amalg0"):        # the distributed single file, made with the project's own script
        tools = os.path.join(REPO, "tools")
        parts = [hh]
        for d in (SRC, tools):
            for n in sorted(os.listdir(d)):
                p = os.path.join(d, n)
                if os.path.isfile(p) and n != "argtable3.c" or d == SRC and os.path.isfile(p):
                    parts += [n, read(p)]
        comp = ["gcc"] + LIBBASE + ["-O2"] if name == "amalg" else ["clang"] + LIBBASE + ["-std=gnu11", "-O0", "-DNDEBUG"]
        key = digest("amalg2", *(parts + comp))

        def make(o):
            tmp = tempfile.mkdtemp(prefix="verif-amalg-")
            try:
                os.makedirs(os.path.join(tmp, "tools"))
                shutil.copytree(SRC, os.path.join(tmp, "src"))
                for n in os.listdir(tools):
                    if os.path.isfile(os.path.join(tools, n)) and n != "argtable3.c":
                        shutil.copy(os.path.join(tools, n), os.path.join(tmp, "tools", n))
                for extra in ("LICENSE", "README.md"):
                    if os.path.exists(os.path.join(REPO, extra)):
                        shutil.copy(os.path.join(REPO, extra), tmp)
                sh(["bash", "./build", "dist"], cwd=os.path.join(tmp, "tools"))
                dist = os.path.join(tmp, "dist")
                sh(comp + ["-fPIC", "-shared", "-Wl,-Bsymbolic", "-I", dist, os.path.join(dist, "argtable3.c"), "-o", o, "-lm"])
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return cached(key, ".so", make)
    raise KeyError(name)


def build(cfg, fuzz_test=None, variant=None):
    with cf.ThreadPoolExecutor(8) as pool:
        hh = headers_hash([HARN, SRC])
        variant = "fuzz" if fuzz_test else variant or cfg.get("lib", "asan")
        extra = list(cfg.get("cxxflags", []))
        san = [] if variant == "plain" else SAN
        if variant == "msan":
            san = ["-fsanitize=memory"]
            extra += ["-DPBT_MSAN", "-include", os.path.join(HARN, "msan_prefix.hpp")]
        if fuzz_test:
            extra += ["-DPBT_FUZZ=\"%s\"" % fuzz_test, "-fsanitize=fuzzer-no-link"]
        extra += san
        hf = pool.submit(compile_harness, os.path.join(HARN, cfg["src"]), extra, hh)
        objs = [] if cfg.get("nolib") else lib_objects(variant, pool)
        sos = [shared_lib(n, pool) for n in cfg.get("shared", [])]
        ho = hf.result()
        link = ["clang" if variant == "msan" else "clang++"] + san + (["-fsanitize=fuzzer"] if fuzz_test else []) + cfg.get("ldflags", [])
        key = digest("link", ho, *objs, *link)
        exe = cached(key, ".exe", lambda o: sh(link + ["-o", o, ho] + objs + (["-lstdc++"] if variant == "msan" else []) + ["-lm", "-ldl", "-lpthread"]))
        return exe, sos


def trim_cache(limit=1500 << 20):
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in (os.path.join(BUILD, n) for n in os.listdir(BUILD)) if os.path.isfile(p)]
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot < limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


def fuzz_stage(cfg, prop, seed, secs_runs, replay_dir, exe_pbt, env):
    """coverage-guided stage: libFuzzer over the same test function, artifacts are shrunk and replayed by the engine"""
    viol, info = [], {}
    for test, runs in cfg.get("fuzz", []):
        exe, _ = build(cfg, fuzz_test=test)
        n = max(1, int(runs * secs_runs))
        tmp = tempfile.mkdtemp(prefix="verif-fuzz-")
        try:
            procs = []
            for j in range(8):
                d = os.path.join(tmp, "c%d" % j)
                os.makedirs(d)
                # a few seeds so that the mutation engine does not start from nothing
                for k in range(6):
                    with open(os.path.join(d, "s%d" % k), "wb") as f:
                        f.write(hashlib.sha512(("%s-%d-%d-%d" % (test, seed, j, k)).encode()).digest() * (1 + k))
                cmd = [exe, "-runs=%d" % (n // 8), "-seed=%d" % (seed * 8 + j + 1), "-max_len=2048", "-timeout=60", "-rss_limit_mb=3500", "-detect_leaks=0",
                       "-artifact_prefix=%s/" % d, "-print_final_stats=1", "-max_total_time=%d" % cfg.get("fuzz_time", 600), d]
                procs.append((d, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "log%d" % j), "w"), env=env)))
            total = 0
            cov = 0
            for j, (d, p) in enumerate(procs):
                p.wait()
                log = open(os.path.join(tmp, "log%d" % j), errors="replace").read()
                m = re.search(r"stat::number_of_executed_units: (\d+)", log)
                if m:
                    total += int(m.group(1))
                for m in re.finditer(r"cov: (\d+)", log):
                    cov = max(cov, int(m.group(1)))
                for a in sorted(os.listdir(d)):
                    if a.startswith(("crash-", "timeout-", "oom-")) and not viol:
                        r = subprocess.run([exe_pbt, "--replay-dir", replay_dir, "--convert", test, os.path.join(d, a)],
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
                        sys.stdout.write(r.stdout)
                        for l in r.stdout.splitlines():
                            if l.startswith("VIOLATION "):
                                viol.append({"replay": l.split("replay=")[1], "what": r.stdout[:2000]})
            info[test] = {"executions": total, "edge_coverage": cov}
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if viol:
            break
    return viol, info


def known_findings(prop, exe, env, replay_dir):
    """listed findings (known_findings.json): each has a committed replay file, identified by that input alone"""
    out = []
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        for k in json.load(f)["findings"]:
            if k["property"] != prop:
                continue
            r = subprocess.run([exe, "--replay-dir", replay_dir, "--replay", os.path.join(VERIF, k["replay"])], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.stdout.startswith("FAILED"):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                out.append({"what": k["what"], "replay": k["replay"]})
    return out


def run(prop, tier, seed, opts):
    cfg = CHECKS[prop]
    t0 = time.time()
    exe, sos = build(cfg)
    os.makedirs(EVID, exist_ok=True)
    replay_dir = os.path.join(EVID, "replays")
    env = dict(os.environ)
    for k in ("POSIXLY_CORRECT", "EF_DUMPCORE", "ASAN_OPTIONS", "UBSAN_OPTIONS", "LD_PRELOAD", "MALLOC_PERTURB_", "GLIBC_TUNABLES"):
        env.pop(k, None)
    env.update(LC_ALL="C", TZ="UTC")
    for n, p in zip(cfg.get("shared", []), sos):
        env["VERIF_SO_" + n.upper()] = p
    if opts.get("replay"):
        variant = None
        with open(opts["replay"]) as f:
            for line in f:
                if line.startswith("variant "):
                    variant = line.split()[1]
        if variant:
            exe, _ = build(cfg, variant=variant)
        return subprocess.run([exe, "--replay-dir", replay_dir, "--replay", opts["replay"]], env=env).returncode
    tmp = tempfile.mkdtemp(prefix="verif-run-")
    try:
        st = None
        for variant in [None] + cfg.get("variants", []):
            if variant:
                exe_v, _ = build(cfg, variant=variant)
            else:
                exe_v = exe
            stats = os.path.join(tmp, "stats%s.json" % (variant or ""))
            cmd = [exe_v, "--seed", str(seed), "--out", stats, "--replay-dir", replay_dir, "--wall-cap", str(420 if tier == "quick" else cfg.get("thorough_cap", 1500))]
            if tier == "thorough":
                cmd.append("--thorough")
            if opts.get("only"):
                cmd += ["--only", opts["only"]]
            scale = opts.get("scale") or (str(cfg.get("scale", 1)) if tier == "quick" else None)
            if scale:
                cmd += ["--scale", scale]
            r = subprocess.run(cmd, env=env, cwd=tmp)
            if r.returncode not in (0, 1) or not os.path.exists(stats):
                print("error: harness of %s ended with status %s" % (prop, r.returncode))
                return 3
            with open(stats) as f:
                one = json.load(f)
            if st is None:
                st = one
            else:
                for k in ("evaluations", "nontrivial", "discarded"):
                    st[k] += one[k]          # distinct_nontrivial: the first build's only (a lower bound)
                for k in ("tests", "labels"):
                    for n, v in one[k].items():
                        st[k][variant + "/" + n] = v
                for k in ("samples", "notes", "violations"):
                    st[k] += one[k]
            if st["violations"]:
                break
        viol = list(st["violations"])
        fz = {}
        if not viol and tier == "thorough" and cfg.get("fuzz") and not opts.get("only"):
            v, fz = fuzz_stage(cfg, prop, seed, 1.0, replay_dir, exe, env)
            viol += v
        known = known_findings(prop, exe, env, replay_dir)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov = {
        "evaluations": st["evaluations"] + sum(f["executions"] for f in fz.values()),
        "distinct_nontrivial": st["distinct_nontrivial"],
        "rule": cfg["rule"],
        "samples": st["samples"][:24],
        "nontrivial": st["nontrivial"],
        "discarded": st["discarded"],
        "cases_per_test": st["tests"],
        "distribution": st["labels"],
        "notes": st["notes"],
        "known_findings": known,
    }
    if fz:
        cov["coverage_guided"] = fz
    if st["violations"] or viol:
        cov["counterexamples"] = viol
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
        "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    tmpf = os.path.join(EVID, prop + ".json.tmp")
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmpf, os.path.join(EVID, prop + ".json"))
    trim_cache()
    return 1 if viol else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        def one(p):
            try:
                build(CHECKS[p])
                for v in CHECKS[p].get("variants", []):
                    build(CHECKS[p], variant=v)
                return None
            except BuildError as e:
                return "%s: %s" % (p, e)
        with cf.ThreadPoolExecutor(4) as pool:
            errs = [e for e in pool.map(one, sorted(CHECKS)) if e]
        for e in errs:
            print(e)
        return 3 if errs else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    opts = {}
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i].startswith("--"):
            opts[a[i][2:]] = a[i + 1]
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        return run(prop, tier, seed, opts)
    except BuildError as e:
        print("error: %s" % e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
