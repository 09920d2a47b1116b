#!/usr/bin/env python3
"""Build and run the runtime monitors of one property against /repo's working tree.

  python3 check.py C05                 quick or thorough by $VERIF_TIER (default quick)
  python3 check.py C05 --thorough
  python3 check.py --setup             prebuild every harness (objects are cached by content hash)
  python3 check.py C05 --replay FILE   re-run one recorded violation

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import argparse, collections, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD") or os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
CXX = "/usr/bin/g++"
COMMON = ["-std=c++14", "-w", "-g1", "-fno-omit-frame-pointer", "-DMODE_TI"]
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
_sha = {}


def sha(path):
    if path not in _sha:
        try:
            with open(path, "rb") as f:
                _sha[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _sha[path] = None
    return _sha[path]


class BuildError(Exception):
    pass


def obj_path(variant, src, defs):
    tag = hashlib.sha256((src + "|" + " ".join(defs)).encode()).hexdigest()[:10]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{os.path.basename(src)}.{tag}.o")


def compile_one(job):
    variant, src, defs = job
    o = obj_path(variant, src, defs)
    flags = COMMON + VARIANTS[variant]["cflags"] + defs + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")]
    keyf = o + ".key"
    try:
        k = json.load(open(keyf))
        if os.path.exists(o) and k["flags"] == flags and all(sha(p) == h for p, h in k["deps"].items()):
            return o
    except (OSError, ValueError, KeyError):
        pass
    for f in (o, keyf):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [CXX] + flags + ["-MMD", "-MF", o + ".d", "-c", src, "-o", o]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        errl = [l for l in r.stderr.splitlines() if "error:" in l][:12]
        raise BuildError(" ".join(cmd) + "\n" + "\n".join(errl) + "\n" + r.stderr[:1500])
    deps = open(o + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [p for p in deps if p.startswith((REPO, HERE)) or not p.startswith("/usr")]
    json.dump({"flags": flags, "deps": {p: sha(p) for p in deps}}, open(keyf, "w"))
    return o


def lib_sources():
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    tmpl = os.path.join(REPO, "lib", "structure_tree.cpp.cmake")
    out = os.path.join(gen, "structure_tree.cpp")
    text = open(tmpl).read().replace("@PROJECT_SOURCE_DIR@", REPO)
    if not os.path.exists(out) or open(out).read() != text:
        open(out, "w").write(text)
    srcs = [s for s in sorted(glob.glob(os.path.join(REPO, "lib", "*.cpp"))) if os.path.basename(s) != "structure_tree.cpp"]
    return srcs + [out]


def bin_jobs(b):
    v = b["variant"]
    # "file.cpp -DX=1" compiles the file with extra defines
    jobs = [(v, os.path.join(HERE, "harness", s.split()[0]), b.get("defs", []) + s.split()[1:]) for s in b["srcs"]]
    jobs.append((v, os.path.join(HERE, "harness", "vf_main.cpp"), []))
    if b.get("lib", True):
        jobs += [(v, s, b.get("lib_defs", [])) for s in lib_sources()]
    return jobs


def build(bins):
    """compile everything the binaries need in one parallel batch, then link"""
    jobs = []
    for b in bins:
        for j in bin_jobs(b):
            if j not in jobs:
                jobs.append(j)
    # large translation units first
    jobs.sort(key=lambda j: (0 if j[1].startswith(os.path.join(HERE, "harness")) else 1))
    objs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut = {ex.submit(compile_one, (j[0], j[1], list(j[2]))): j for j in jobs}
        err = None
        for f in cf.as_completed(fut):
            try:
                j = fut[f]
                objs[(j[0], j[1], tuple(j[2]))] = f.result()
            except BuildError as e:
                err = err or e
        if err:
            raise err
    outs = []

    def link(b):
        out = os.path.join(BUILD, b["variant"], b["name"])
        ol = [objs[(j[0], j[1], tuple(j[2]))] for j in bin_jobs(b)]
        key = hashlib.sha256(json.dumps([[sha_file_fast(x) for x in ol], b.get("ld", []), VARIANTS[b["variant"]]["ldflags"]]).encode()).hexdigest()
        if os.path.exists(out) and os.path.exists(out + ".link") and open(out + ".link").read() == key:
            return out
        cmd = [CXX] + VARIANTS[b["variant"]]["ldflags"] + b.get("ld", []) + ol + ["-ldivsufsort", "-ldivsufsort64", "-lpthread", "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"link {out}\n{r.stderr[-4000:]}")
        open(out + ".link", "w").write(key)
        return out

    with cf.ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(link, bins))
    return outs


def sha_file_fast(o):
    return json.load(open(o + ".key"))["deps"], json.load(open(o + ".key"))["flags"], os.path.basename(o)


ENV_SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:handle_abort=1:detect_stack_use_after_return=0:print_legend=0:quarantine_size_mb=32",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=87",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=88:report_signal_unsafe=0:second_deadlock_stack=1",
}


def crash_key(log):
    """classify a sanitizer report: kind + innermost /repo function and file (no line numbers)"""
    try:
        t = open(log, errors="replace").read()[-60000:]
    except OSError:
        return "crash", ""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", t) or re.search(r"AddressSanitizer: ([\w-]+)", t)
    if m:
        kind = m.group(1)
    m = re.search(r"runtime error: ([^\n]{0,80})", t)
    if m:
        kind = "ub:" + re.sub(r"[-\d]+|0x[0-9a-f]+", "N", m.group(1)).strip()
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", t)
    if m:
        kind = "tsan:" + m.group(1).strip()
    m = re.search(r"Assertion `?([^\n']{0,80})", t)
    if m:
        kind = "assert:" + m.group(1)
    where = ""
    for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):\d+", t):
        if fm.group(2).startswith(REPO + "/"):
            where = os.path.basename(fm.group(2)) + ":" + re.sub(r"<.*", "", re.sub(r"\(.*", "", fm.group(1)))[:60]
            break
    lines = [l for l in t.splitlines() if l.strip()]
    head = ""
    for l in lines:
        if "ERROR:" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l or "Assertion" in l:
            head = l.strip()[:300]
            break
    if not head and lines:
        head = lines[-1][:300]
    return f"{kind}@{where}" if where else kind, head


def load_known(pid):
    known, fixed = {}, []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def run_bin(b, exe, args, outdir, pid, tier, seed, budget):
    d = os.path.join(outdir, b["name"] + "." + b["variant"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    env = dict(os.environ)
    env.update(ENV_SAN)
    env.update(VARIANTS[b["variant"]].get("env", {}))
    env.update(b.get("env", {}))
    env["TMPDIR"] = d
    cmd = VARIANTS[b["variant"]].get("wrap", []) + [exe, "--out", d, "--seed", str(seed), "--tier", tier, "--jobs", str(min(JOBS, b.get("jobs_max", JOBS))), "--budget", str(budget)] + b.get("args", []) + args
    limit = budget + (900 if tier == "thorough" else 120)
    try:
        r = subprocess.run(cmd, env=env, cwd=d, timeout=limit, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "parent.err"), "w"))
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", d], check=False)
        return None, [], [], f"{b['name']}: no end within {limit} s (inconclusive)"
    fails = []
    fp = os.path.join(d, "fails.jsonl")
    if os.path.exists(fp):
        for line in open(fp, errors="replace"):
            try:
                fails.append(json.loads(line))
            except ValueError:
                pass
    err = None
    if r.returncode not in (0,):
        err = f"{b['name']}: harness exit {r.returncode}: {open(os.path.join(d, 'parent.err')).read()[-1500:]}"
    try:
        summary = json.load(open(os.path.join(d, "summary.json")))
    except (OSError, ValueError):
        summary = None
        err = err or f"{b['name']}: no summary"
    samples = []
    if os.path.exists(os.path.join(d, "samples.jsonl")):
        for line in open(os.path.join(d, "samples.jsonl"), errors="replace"):
            try:
                samples.append(json.loads(line))
            except ValueError:
                pass
    for f in fails:
        f["bin"] = b["name"]
        f["variant"] = b["variant"]
        if f["key"] == "crash":
            f["key"], head = crash_key(f["log"])
            f["msg"] += "; " + head
    # scratch data goes; logs of failing workers stay for the reader
    for s in glob.glob(os.path.join(d, "scratch*")) + glob.glob(os.path.join(d, "*.fp")):
        shutil.rmtree(s, ignore_errors=True) if os.path.isdir(s) else os.unlink(s)
    return summary, fails, samples, err


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=int, default=100)
    ap.add_argument("--suite")
    ap.add_argument("--case", type=int)
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.setup:
        allb = []
        for c in CHECKS.values():
            for b in c["bins"]:
                if not b.get("thorough_only"):
                    allb.append(b)
        try:
            build(allb)
        except BuildError as e:
            print(e)
            return 2
        print(f"setup: {len(allb)} harness binaries in {time.time() - t0:.0f} s")
        return 0
    pid = a.property
    c = CHECKS[pid]
    bins = [b for b in c["bins"] if tier == "thorough" or not b.get("thorough_only")]
    if a.replay:
        rp = json.load(open(a.replay))
        bins = [b for b in c["bins"] if b["name"] == rp["bin"] and b["variant"] == rp["variant"]]
        seed, a.suite, a.case, tier = rp["seed"], rp["suite"], rp["case"], rp.get("tier", tier)
    try:
        exes = build(bins)
    except BuildError as e:
        print(f"ERROR property={pid} harness does not build:\n{e}")
        return 2
    t1 = time.time()
    cpu = set(re.findall(r"\w+", next((l for l in open("/proc/cpuinfo") if l.startswith("flags")), "")))
    usable = [(b, e) for b, e in zip(bins, exes) if all(x in cpu for x in VARIANTS[b["variant"]].get("cpu", []))]
    bins, exes = [x[0] for x in usable], [x[1] for x in usable]
    outdir = os.path.join(BUILD, "run", pid)
    known = load_known(pid)
    tot = collections.Counter()
    suites, samples, fails, errs = {}, [], [], []
    extra = []
    if a.suite:
        extra += ["--suite", a.suite]
    if a.case is not None:
        extra += ["--case", str(a.case)]
    if a.scale != 100:
        extra += ["--scale", str(a.scale)]
    # the run ends in time: after its share of the budget a harness begins no case beyond those of the quick tier (thorough), or none (quick)
    whole = int(os.environ.get("VERIF_BUDGET", "840" if tier == "thorough" else "760"))
    for i, (b, exe) in enumerate(zip(bins, exes)):
        left = whole - (time.time() - t0)
        budget = max(20, int(left / (len(bins) - i) if tier == "thorough" else left - 40))
        s, f, sm, err = run_bin(b, exe, extra, outdir, pid, tier, seed, budget)
        if err:
            errs.append(err)
        fails += f
        if s:
            tot["distinct"] += s["distinct"]
            tot["skipped"] += s.get("skipped", 0)
            for name, (n, ch, nt) in s["suites"].items():
                tot["cases"] += n
                tot["checks"] += ch
                tot["nontrivial"] += nt
                suites[f"{b['name']}.{b['variant']}:{name}"] = {"cases": n, "oracle_checks": ch}
                if not f and not a.suite and n and not ch:
                    errs.append(f"{b['name']}: suite {name} observed nothing")
            samples += [dict(x, bin=b["name"]) for x in sm]
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    seen_known, viol = collections.OrderedDict(), collections.OrderedDict()
    for f in fails:
        key = re.sub(r"\s+", "_", f"{f['suite']}/{f['key']}")
        if key in known:
            seen_known.setdefault(key, f)
        else:
            viol.setdefault(key, []).append(f)
    for key in seen_known:
        print(f"KNOWN-FINDING: property={pid} {key} {known[key]}")
    n = 0
    for key, fl in viol.items():
        if n >= 15:
            print(f"... {len(viol) - n} more distinct violations")
            break
        f = fl[0]
        path = os.path.join(rd, f"{pid}-{hashlib.sha256(key.encode()).hexdigest()[:8]}.json")
        json.dump({"property": pid, "key": key, "bin": f["bin"], "variant": f["variant"], "suite": f["suite"], "case": f["case"], "seed": f["seed"],
                   "tier": tier, "msg": f["msg"], "input": f["desc"], "log": f["log"], "repeats": len(fl), "replay_cmd": f"python3 check.py {pid} --replay {path}"}, open(path, "w"), indent=1)
        print(f"  {key} x{len(fl)}: {f['msg']} | input: {f['desc'][:300]}")
        print(f"VIOLATION property={pid} replay={path}")
        n += 1
    step = max(1, len(samples) // 12)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["cases"], "distinct_nontrivial": min(tot["distinct"], tot["nontrivial"]) if tot["nontrivial"] else 0,
            "rule": c["rule"], "samples": samples[::step][:16], "oracle_checks": tot["checks"], "cases_left_out_for_time": tot["skipped"], "suites": suites,
            "sanitizers": sorted({b["variant"] + ": " + " ".join(x for x in VARIANTS[b["variant"]]["cflags"] if x.startswith(("-fsan", "-m", "-O", "-D_"))) for b in bins}),
            "known_findings_reproduced": list(seen_known), "errors": errs,
        },
        "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    if not a.suite and not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {tier} seed={seed}: {tot['cases']} cases, {tot['distinct']} distinct non-trivial, {tot['checks']} oracle checks, {len(viol)} violations, "
          f"{len(seen_known)} known{f", {tot['skipped']} cases left out for time" if tot["skipped"] else ""}; build {t1 - t0:.0f} s, run {time.time() - t1:.0f} s")
    if viol:
        return 1
    if errs:
        for e in errs:
            print("ERROR " + e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
