#!/usr/bin/env python3
"""Build one property's harness from /repo's working tree, search, report.

  run.py C01                 run the check (tier and seed from VERIF_TIER / VERIF_SEED)
  run.py C01 --replay FILE   rebuild and replay one recorded failure
  run.py C01 --cases N --suite NAME --variant V ...   (development)

exit 0: held on everything explored; 1: VIOLATION printed; 2: the check could not decide.
"""
import sys, os, json, hashlib, subprocess, time, shutil, glob, tempfile, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
CACHE = os.path.join(HERE, ".cache")
sys.path.insert(0, HERE)
from checks import CHECKS, COMMON

GXX = "g++"
# memory that was never written holds a pattern, not what happened to be there (see also env_for)
BASE = ["-std=c++14", "-w", "-pthread", "-ftrivial-auto-var-init=pattern", "-I", REPO + "/src", "-I", "/usr/include/eigen3", "-I", H]
SHIM = ["-I", os.path.join(H, "shim")]
FLAV = {
    "fast": (["-O1"], []),
    "noshim": (["-O1", "-DPBT_NO_SHIM"], []),
    "tbb": (["-O1", "-DUSE_TBB", "-DUSE_TBB_ONEAPI"], ["-ltbb"]),
    "tbbnoshim": (["-O1", "-DUSE_TBB", "-DUSE_TBB_ONEAPI", "-DPBT_NO_SHIM"], ["-ltbb"]),
    "san": (["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-DVERIF_SAN"],
            ["-fsanitize=address,undefined"]),
    "tsan": (["-O1", "-g1", "-fsanitize=thread", "-DVERIF_SAN"], ["-fsanitize=thread"]),
    "o3": (["-O3"], []),
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src", d) for d in ("limbo", "external", "hv", "ehvi")]
    fs = []
    for r in roots:
        for d, _, names in os.walk(r):
            fs += [os.path.join(d, n) for n in names if n.endswith((".hpp", ".h", ".cpp", ".c", ".cc"))]
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    for f in sorted(glob.glob(H + "/*.[ch]pp") + glob.glob(H + "/shim/external/*") + glob.glob(H + "/sferes/*/*.hpp") + glob.glob(H + "/sferes/*.hpp") + glob.glob(H + "/libcmaes/*")):
        if f.endswith(".cpp"):
            continue
        h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_one(job):
    src, obj, flags, key = job
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = [GXX] + flags + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        return "compilation failed: %s\n%s" % (" ".join(cmd), p.stdout[:6000])
    os.replace(tmp, obj)
    with open(stamp, "w") as f:
        f.write(key)
    return None


def build(pid, variants, pool):
    """returns {variant: binary}, or raises RuntimeError"""
    c = CHECKS[pid]
    th = tree_hash()
    os.makedirs(CACHE, exist_ok=True)
    jobs, links = [], {}
    for v in variants:
        cf, lf = FLAV[v]
        noshim = "-DPBT_NO_SHIM" in cf
        flags = list(cf) + ([] if noshim else SHIM) + BASE + c.get("cflags", [])
        objs = []
        srcs = [(os.path.join(H, x), [], x) for x in COMMON]
        if "src" in c:
            n = c.get("parts", 1)
            for k in range(n):
                srcs.append((os.path.join(H, c["src"]), ["-DPART=%d" % k], "%s.%d" % (c["src"], k)))
        for x in c.get("extra", []):
            p = x.replace("@REPO@", REPO)
            srcs.append((p if os.path.isabs(p) else os.path.join(H, p), [], os.path.basename(p)))
        for s, d, nm in srcs:
            fl = flags + d
            if s.endswith(".c"):
                fl = [f for f in fl if not f.startswith("-std")] + ["-x", "c"]
            obj = os.path.join(CACHE, "%s-%s-%s.o" % (pid, v, nm))
            key = hashlib.sha256((th + " ".join(fl) + hashlib.sha256(open(s, "rb").read()).hexdigest()).encode()).hexdigest()
            jobs.append((s, obj, fl, key))
            objs.append((obj, key))
        links[v] = (objs, lf + c.get("libs", []))
    # biggest first is unknown; just run them all
    errs = [e for e in pool.map(compile_one, jobs) if e]
    if errs:
        raise RuntimeError(errs[0])
    out = {}
    for v, (objs, lf) in links.items():
        b = os.path.join(CACHE, "%s-%s.bin" % (pid, v))
        key = hashlib.sha256("".join(k for _, k in objs).encode() + " ".join(lf).encode()).hexdigest()
        if not (os.path.exists(b) and os.path.exists(b + ".key") and open(b + ".key").read() == key):
            tmp = b + ".%d.tmp" % os.getpid()
            cmd = [GXX] + [o for o, _ in objs] + ["-o", tmp, "-pthread"] + lf
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode != 0:
                raise RuntimeError("link failed: %s\n%s" % (" ".join(cmd), p.stdout[:6000]))
            os.replace(tmp, b)
            open(b + ".key", "w").write(key)
        out[v] = b
    return out


def env_for():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=1000000:malloc_fill_byte=127"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    e["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1"
    e["MALLOC_PERTURB_"] = "128"  # allocated: 0x7f, released: 0x80
    e["OMP_NUM_THREADS"] = "1"
    return e


def load_known(pid):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k.get("property") == pid]


def main():
    a = sys.argv[1:]
    pid = a[0]
    opts = dict(zip([x.lstrip("-") for x in a[1::2]], a[2::2]))
    tier = opts.get("tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opts.get("seed", os.environ.get("VERIF_SEED", "1") or "1"))
    c = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    pool = ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
    try:
        if "replay" in opts:
            return replay(pid, opts["replay"], pool, scratch)
        plan = c["quick"] if tier == "quick" else c.get("thorough", c["quick"])
        if "variant" in opts:
            plan = [x for x in c["quick"] + c.get("thorough", []) if x[0] == opts["variant"]][:1] or [(opts["variant"], 1000, 60)]
        try:
            bins = build(pid, [x[0] for x in plan], pool)
        except RuntimeError as e:
            log(str(e))
            log("%s: the harness could not be built from the current tree" % pid)
            return 2
        tb = time.time() - t0
        env = env_for()
        known = load_known(pid)
        env["VERIF_KNOWN"] = "\n".join("%s|%s" % (k["suite"], k["signature"]) for k in known)
        results, viol = [], None
        for (v, cases, tmax) in plan:
            out = os.path.join(scratch, "out-%s.json" % v)
            cmd = [bins[v], "--seed", str(seed), "--variant", v, "--cases", opts.get("cases", str(cases)), "--time", opts.get("time", str(tmax)),
                   "--workers", opts.get("workers", str(c.get("workers", os.cpu_count() or 8))), "--out", out, "--scratch", scratch, "--hang", str(c.get("hang", 120))]
            if "suite" in opts:
                cmd += ["--suite", opts["suite"]]
            if "shrink" in opts:
                cmd += ["--shrink", opts["shrink"]]
            if v == "tsan":
                # ThreadSanitizer cannot map its shadow memory under every kernel configuration
                pre = None
                for w in ([], ["setarch", "-R"]):
                    try:
                        q = subprocess.run(w + [bins[v], "--list", "1"], env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    except OSError:
                        continue
                    if q.returncode == 0:
                        pre = w
                        break
                if pre is None:
                    log("%s: ThreadSanitizer does not start here, the %s search is left out" % (pid, v))
                    continue
                cmd = pre + cmd
            for trial in range(2):
                p = subprocess.run(cmd, env=env, cwd=scratch)
                r = json.load(open(out)) if os.path.exists(out) else None
                if r is not None and (r["failure"] or not r["infra"]):
                    break
            if r is None:
                log("%s: the %s search ended without a result (status %d)" % (pid, v, p.returncode))
                return 2
            results.append(r)
            if r["failure"]:
                if r["reproduced"] == 0:
                    log("%s: a failure was observed but did not reproduce in %d replays: %s" % (pid, r["replays"], json.dumps(r["failure"])[:1500]))
                    if r["failure"]["signature"] in ("hang", "crash") and not c.get("trust_unreproduced"):
                        continue
                viol = r
                break
        write_evidence(pid, tier, seed, c, results, time.time() - t0, tb)
        for k in known:
            hit = any(("%s|%s" % (k["suite"], k["signature"])) in r["known"] for r in results)
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if viol:
            f = viol["failure"]
            rd = os.path.join(HERE, "replays")
            os.makedirs(rd, exist_ok=True)
            hh = hashlib.sha256((f["suite"] + f["signature"] + str(f["choices"])).encode()).hexdigest()[:10]
            path = os.path.join(rd, "%s-%s.json" % (pid, hh))
            json.dump(dict(property=pid, **f), open(path, "w"), indent=1)
            print("suite: %s\nsignature: %s\nmessage: %s\ncase: %s" % (f["suite"], f["signature"], f["message"], f["case"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            return 1
        tot = sum(r["distinct_nontrivial"] for r in results)
        ev = sum(r["evaluations"] for r in results)
        if tot == 0:
            log("%s: nothing was explored" % pid)
            return 2
        print("%s: held on %d cases (%d distinct non-trivial), %.0f s (%.0f s build), tier %s seed %d" % (pid, ev, tot, time.time() - t0, tb, tier, seed))
        if "verbose" in opts or os.environ.get("VERIF_VERBOSE"):
            for r in results:
                print(json.dumps({k: r[k] for k in ("variant", "evaluations", "discarded", "search_s", "suites", "suites_discarded", "suites_nontrivial", "labels")}, indent=1))
        return 0
    finally:
        pool.shutdown()
        if os.path.basename(scratch).startswith("verif-"):
            shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(pid, tier, seed, c, results, wall, tb):
    rules, labels, suites, samples = {}, {}, {}, []
    for r in results:
        for k, v in r["rules"].items():
            rules[k.split("#")[0]] = v
        for k, v in r["labels"].items():
            labels[r["variant"] + "/" + k] = v
        for k, v in r["suites"].items():
            suites[r["variant"] + "/" + k] = dict(cases=v, nontrivial=r["suites_nontrivial"].get(k, 0), discarded=r["suites_discarded"].get(k, 0))
        samples += [r["variant"] + "/" + s for s in r["samples"]]
        if r["failure"]:
            samples.append("FAILED " + r["variant"] + "/" + r["failure"]["suite"] + ": " + r["failure"]["case"])
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=sum(max(r["evaluations"], r["executed"] if r["failure"] else 0) for r in results),
                  distinct_nontrivial=sum(r["distinct_nontrivial"] for r in results),
                  rule="Each case is a list of bounded random choices derived from (VERIF_SEED, build variant, case index); distinct = different choice lists. Non-trivial, per suite: "
                       + "; ".join("%s: %s" % kv for kv in sorted(rules.items())),
                  samples=samples[:12],
                  discarded=sum(r["discarded"] for r in results),
                  suites=suites, classes=labels, build_s=round(tb, 1),
                  search_s=round(sum(r["search_s"] for r in results), 1),
                  violations=[r["failure"] for r in results if r["failure"]]),
              wall_s=round(wall, 1))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))


def replay(pid, path, pool, scratch):
    f = json.load(open(path))
    bins = build(pid, [f["variant"]], pool)
    rf = os.path.join(scratch, "case.txt")
    with open(rf, "w") as o:
        o.write("%s\n%s\n%s\n" % (f["suite"], f["seed"], " ".join(str(x) for x in f["choices"])))
    p = subprocess.run([bins[f["variant"]], "--replay", rf, "--scratch", scratch], env=env_for(), cwd=scratch)
    return p.returncode


if __name__ == "__main__":
    sys.exit(main())
