#!/usr/bin/env python3
"""Builds one property's monitor against /repo's working tree, runs its workload and gives the verdict.

  check.py C01                  quick or thorough, by VERIF_TIER (default quick); seed from VERIF_SEED
  check.py C01 --tier thorough
  check.py --replay FILE        re-runs the case recorded in a replay file
  check.py --setup              toolchain check (setup_cmd)

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer (build or harness failure).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
REPLAY = os.path.join(VERIF, "replay")
NCPU = min(8, os.cpu_count() or 1)
sys.path.insert(0, VERIF)
from harness.config import PROPS, VARIANTS  # noqa: E402


class CheckError(Exception):
    pass


# ----------------------------------------------------------------------------------------------- building
def headers_digest():
    h = hashlib.sha256()
    for base in (SRC, os.path.join(VERIF, "harness")):
        for p in sorted(glob.glob(base + "/**/*", recursive=True)):
            if p.endswith((".h", ".hpp", ".inc", ".hh")):
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def lib_sources(with_examples):
    out = []
    for p in sorted(glob.glob(SRC + "/**/*.cpp", recursive=True)):
        rel = os.path.relpath(p, SRC)
        if rel == "main.cpp":
            continue
        if rel.startswith("example/") and not with_examples:
            continue
        out.append(p)
    return out


def compile_one(args):
    cmd, key, obj, src = args
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), r.stdout[-6000:])
    os.rename(tmp, obj)
    return None


def build(prop, variants):
    """Returns {variant: executable}."""
    cfg = PROPS[prop]
    hd = headers_digest()
    os.makedirs(BUILD, exist_ok=True)
    jobs, exes, links = {}, {}, []
    for v in variants:
        var = VARIANTS[v]
        objs = []
        todo = [(p, var["lib"], var["cxx"]) for p in lib_sources(cfg.get("examples", False))] if not cfg.get("nolib") else []
        todo += [(os.path.join(VERIF, "harness", s), var["harness"], var["cxx"]) for s in [cfg["src"]] + cfg.get("extra_src", {}).get(v, [])]
        # further copies of the library in the same executable, compiled differently under another namespace
        for cp in var.get("copies", []):
            todo += [(p, cp["lib"], var["cxx"]) for p in lib_sources(cfg.get("examples", False))]
            todo += [(os.path.join(VERIF, "harness", s), cp["harness"], var["cxx"]) for s in cfg["copy_src"]]
        for p, flags, cxx in todo:
            cmd = [cxx] + flags + cfg.get("defs", []) + ["-w", "-I" + SRC, "-I" + os.path.join(VERIF, "harness"), "-c", p]
            key = hashlib.sha256((" ".join(cmd) + hd).encode() + open(p, "rb").read()).hexdigest()[:24]
            obj = os.path.join(BUILD, "%s-%s.o" % (os.path.splitext(os.path.basename(p))[0], key))
            jobs[obj] = (cmd, key, obj, p)
            objs.append(obj)
        exe = os.path.join(BUILD, "%s-%s-%s" % (prop, v, hashlib.sha256((" ".join(objs) + str(var)).encode()).hexdigest()[:20]))
        exes[v] = exe
        links.append((var, objs, exe))
    # biggest (harness) first for a shorter critical path
    order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[3]) - (10**9 if "/harness/" in j[3] else 0))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(compile_one, order) if e]
    if errs:
        raise CheckError("build failed:\n" + errs[0])
    def link(x):
        var, objs, exe = x
        if os.path.exists(exe):
            return None
        cmd = [var["cxx"]] + var["link"] + objs + ["-o", exe + ".tmp"] + var.get("libs", []) + ["-lpthread"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return "link: " + r.stdout[-4000:]
        os.rename(exe + ".tmp", exe)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(link, links) if e]
    if errs:
        raise CheckError("build failed:\n" + errs[0])
    return exes


# ----------------------------------------------------------------------------------------------- running
def san_env(variant):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1:max_malloc_fill_size=268435456:malloc_fill_byte=171:strict_string_checks=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0"
    e["LC_ALL"] = "C"
    e.update(VARIANTS[variant].get("env", {}))
    return e


def exec_shard(exe, variant, seed, lo, hi, scratch, tag, thorough, timeout, verbose=False):
    out = os.path.join(scratch, tag + ".json"); st = os.path.join(scratch, tag + ".st"); err = os.path.join(scratch, tag + ".err")
    sc = os.path.join(scratch, tag + ".d"); os.makedirs(sc, exist_ok=True)
    for f in (out, st):
        if os.path.exists(f):
            os.unlink(f)
    cmd = VARIANTS[variant].get("wrap", []) + [exe, "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--out", out, "--status", st, "--scratch", sc]
    if thorough:
        cmd.append("--thorough")
    if verbose:
        cmd.append("--verbose")
    cmd += ["--slow", str(VARIANTS[variant].get("slow", 1) * (4 if thorough else 1))]
    hung = False
    with open(err, "wb") as ef:
        try:
            rc = subprocess.run(cmd, stdout=None if verbose else subprocess.DEVNULL, stderr=ef, env=san_env(variant), timeout=timeout, cwd=sc).returncode
        except subprocess.TimeoutExpired:
            rc, hung = None, True
    if rc == 88:   # the case's own watchdog
        hung = True
    res = None
    if rc in (0, 42, 66) and os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    case = None
    try:
        case = int(open(st).read().split()[0])
    except (OSError, IndexError, ValueError):
        pass
    txt = open(err, "rb").read().decode("utf-8", "replace")
    shutil.rmtree(sc, ignore_errors=True)
    return dict(rc=rc, hung=hung, res=res, case=case, err=txt)


def crash_key(r):
    t = r["err"]
    if r["hung"]:
        return "hang"
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", t)
    if m:
        return "sanitizer:%s" % m.group(2)
    m = re.search(r"runtime error: ([^\n]{0,80})", t)
    if m:
        return "ub:" + re.sub(r"[0-9x]+", "N", m.group(1))[:60]
    m = re.search(r"Assertion '([^']*)' failed", t)
    if m:
        return "assert:" + m.group(1)[:60]
    return "crash:rc%s" % r["rc"]


STOP = threading.Event()   # set once a case is known to hang: the other shards would only hang as well


def run_shard(job):
    prop, exe, variant, seed, lo, hi, scratch, thorough, tmo = job
    if STOP.is_set():
        return dict(res=None, viol=[], problems=[], variant=variant)
    tag = "%s-%d" % (variant, lo)
    r = exec_shard(exe, variant, seed, lo, hi, scratch, tag, thorough, tmo)
    viol, problems = [], []
    if r["res"] is not None:
        for v in r["res"]["violations"]:
            viol.append(dict(case=v["case"], key=v["key"], msg=v["msg"], variant=variant, seed=seed, lo=lo, hi=hi))
        if r["rc"] == 66 or "WARNING: ThreadSanitizer" in r["err"]:
            m = re.findall(r"WARNING: ThreadSanitizer: ([^\n(]*)", r["err"])
            key = "race:" + (m[0].strip().replace(" ", "-") if m else "unknown")
            locs = re.findall(r"#0 ([^\n]*)", r["err"])[:4]
            viol.append(dict(case=-1, key=key, msg="; ".join(locs) + "\n" + r["err"][:4000], variant=variant, seed=seed, lo=lo, hi=hi))
    else:
        # crashed, or hung: confirm on the one case, else on the whole shard
        k = r["case"]
        conf = None
        if k is None:      # never reached a case: a broken harness or environment, not a verdict
            return dict(res=None, viol=[], problems=["%s did not start: rc=%s %s" % (variant, r["rc"], r["err"][-1500:])], variant=variant)
        if k is not None:
            c = exec_shard(exe, variant, seed, k, k + 1, scratch, tag + "-c", thorough, PROPS[prop].get("timeout", 120))
            if c["res"] is None:
                conf = (c, k, k + 1)
            elif c["res"]["violations"]:
                for v in c["res"]["violations"]:
                    viol.append(dict(case=v["case"], key=v["key"], msg=v["msg"], variant=variant, seed=seed, lo=k, hi=k + 1))
        if conf is None and not viol and not r["hung"]:
            c = exec_shard(exe, variant, seed, lo, hi, scratch, tag + "-r", thorough, tmo)
            if c["res"] is None and not c["hung"]:
                conf = (c, lo, hi)
        if conf:
            c, a, b = conf
            if c["hung"]:
                STOP.set()
            viol.append(dict(case=k, key=crash_key(c), msg="%s ended with rc=%s%s\n%s" % (variant, c["rc"], " (no progress)" if c["hung"] else "", c["err"][:6000]), variant=variant, seed=seed, lo=a, hi=b))
        elif not viol:
            problems.append("%s shard [%d,%d) ended with rc=%s hung=%s at case %s and did not repeat: %s" % (variant, lo, hi, r["rc"], r["hung"], k, r["err"][-1500:]))
    return dict(res=r["res"], viol=viol, problems=problems, variant=variant)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def check(prop, tier, seed):
    t0 = time.time()
    cfg = PROPS[prop]
    thorough = tier == "thorough"
    plan = cfg["thorough" if thorough else "quick"]      # list of (variant, cases)
    exes = build(prop, [v for v, _ in plan])
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    results = []
    try:
        jobs = []
        for i, (v, n) in enumerate(plan):
            vseed = seed + 1000003 * i       # every build explores cases of its own
            shards = min(n, cfg.get("shards", 16) * (4 if thorough else 1))
            step = (n + shards - 1) // shards
            for lo in range(0, n, step):
                jobs.append((prop, exes[v], v, vseed, lo, min(n, lo + step), scratch, thorough, 3000 if thorough else cfg.get("timeout", 300)))
        with cf.ThreadPoolExecutor(cfg.get("parallel", NCPU)) as ex:
            results = list(ex.map(run_shard, jobs))
        post_viol = []
        post = cfg.get("post")
        if post:
            post_viol = post([r["res"] for r in results if r["res"]], results)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    viol = [v for r in results for v in r["viol"]] + post_viol
    problems = [p for r in results for p in r["problems"]]
    executed, cov, distinct, samples = 0, {}, set(), []
    per_variant = {}
    for r in results:
        if not r["res"]:
            continue
        executed += r["res"]["executed"]
        per_variant[r["variant"]] = per_variant.get(r["variant"], 0) + r["res"]["executed"]
        for k, n in r["res"]["coverage"].items():
            cov[k] = max(cov.get(k, 0), n) if k.endswith("(max)") else cov.get(k, 0) + n
        distinct.update(r["res"]["distinct"])
        if len(samples) < 6:
            samples += r["res"]["samples"][:1]
    known = known_findings(prop)
    new, listed = [], {}
    for v in viol:
        hit = [d for k, d in known if v["key"] == k]
        if hit:
            listed[v["key"]] = hit[0]
        else:
            new.append(v)
    rc = 0
    for k, d in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, d))
    if new:
        os.makedirs(REPLAY, exist_ok=True)
        for i, v in enumerate(new[:5]):
            p = os.path.join(REPLAY, "%s-%d.json" % (prop, i))
            json.dump(dict(dict(property=prop, seed=seed, tier=tier), **v), open(p, "w"), indent=1)
            print("violation of %s in case %s [%s build] key=%s: %s" % (prop, v["case"], v["variant"], v["key"], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    else:
        missing = [c for c in cfg.get("require", []) if not cov.get(c)]
        if problems or missing or not executed or len(distinct) < 2:
            print("NO ANSWER for %s: executed=%d distinct=%d never observed=%s %s" % (prop, executed, len(distinct), missing, "\n".join(problems)))
            rc = 2
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
              coverage=dict(evaluations=executed, distinct_nontrivial=len(distinct), rule=cfg["rule"], samples=samples,
                            observed=cov, cases_per_build=per_variant, builds={v: " ".join(VARIANTS[v]["lib"]) for v, _ in plan},
                            known_findings_seen=sorted(listed)),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, build %.1fs, total %.1fs -> %s" % (prop, tier, seed, executed, len(distinct), t_build, time.time() - t0, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc]))
    return rc


def replay(path):
    v = json.load(open(path))
    exes = build(v["property"], [v["variant"]])
    scratch = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        lo, hi = (v["case"], v["case"] + 1) if isinstance(v["case"], int) and v["case"] >= 0 else (v["lo"], v["hi"])
        r = exec_shard(exes[v["variant"]], v["variant"], v["seed"], lo, hi, scratch, "replay", v["tier"] == "thorough", 600, verbose=True)
        print(r["err"])
        print("rc", r["rc"])
        return 0 if r["rc"] == 0 else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "python3"):
            if not shutil.which(t):
                print("missing", t); return 2
        return 0
    if a.replay:
        return replay(a.replay)
    try:
        return check(a.prop, a.tier, a.seed)
    except CheckError as e:
        print("NO ANSWER for %s: %s" % (a.prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
