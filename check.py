#!/usr/bin/env python3
"""check.py PROP quick|thorough [--case V:IDX] [--list] [--keep]
Builds the current /repo tree with the model-checking instrumentation, enumerates the
executions of the property's harness and judges every one of them (see DESIGN.md)."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPMP_REPO", "/repo")
HOOKS = ["-DSPMP_MC"]
SUT_FLAGS = ("-std=c++11 -O1 -g -fno-pie -fopenmp -fsanitize=thread --param tsan-distinguish-volatile=1 "
             "-fno-builtin-memset -fno-builtin-memcpy -fno-builtin-memmove -U_FORTIFY_SOURCE -w").split()
H_FLAGS = "-std=c++17 -O1 -g -fno-pie -w".split()
WRAPS = ("malloc free calloc realloc posix_memalign aligned_alloc memset memcpy memmove exit abort fopen fclose "
         "fread fwrite fgets __stack_chk_fail pthread_mutex_lock pthread_mutex_unlock sched_yield __isoc23_fscanf __isoc99_fscanf fscanf mmap munmap _ZN4synk7Barrier4waitEi _ZN4synk7Barrier11getInstanceEv __isoc23_sscanf __isoc99_sscanf sscanf").split()

# property -> harness source, user-kernel sources, budget quick/thorough (s), variants, assumptions
TABLE = json.load(open(os.path.join(V, "checks.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg, code=3):
    print("CHECK-ERROR: " + msg)
    sys.exit(code)


def build(prop, cfg, d, variants):
    """objects -> {variant: binary}"""
    jobs = []
    srcs = sorted(glob.glob(REPO + "/*.cpp") + glob.glob(REPO + "/reordering/*.cpp") + glob.glob(REPO + "/synk/*.cpp"))
    libs = {v: [] for v in variants}
    kern = {v: [] for v in variants}
    for v in variants:
        nd = ["-DNDEBUG"] if v == 0 else []
        for s in srcs:
            o = f"{d}/sut{v}_" + os.path.relpath(s, REPO).replace("/", "_")[:-4] + ".o"
            libs[v].append(o)
            jobs.append((os.path.getsize(s), ["g++"] + SUT_FLAGS + HOOKS + nd + ["-I" + REPO, "-c", s, "-o", o]))
        for k in cfg.get("kernels", []):
            o = f"{d}/k{v}_{k}.o"
            kern[v].append(o)
            jobs.append((90000, ["g++"] + SUT_FLAGS + HOOKS + nd + ["-I" + REPO, "-I" + V, "-c", f"{V}/harness/{k}", "-o", o]))
    rt = f"{d}/rt.o"
    jobs.append((150000, "g++ -std=c++17 -O2 -g -fno-pie -w -U_FORTIFY_SOURCE".split() + [f"-DMC_MAXT={cfg.get('maxt', 6)}", "-c", V + "/mc/rt.cpp", "-o", rt]))
    hs = []
    for h in cfg["harness"]:
        o = f"{d}/{h}.o"
        hs.append(o)
        jobs.append((100000, ["g++"] + H_FLAGS + HOOKS + ["-I" + REPO, "-I" + V, "-c", f"{V}/harness/{h}", "-o", o]))
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(8) as ex:
        for (sz, cmd), r in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
            if r.returncode:
                print(" ".join(cmd)); print(r.stdout[-4000:])
                die("build failed: " + cmd[-3])
    out = {}
    for v in variants:
        a = f"{d}/libsut{v}.a"
        if os.path.exists(a):
            os.unlink(a)
        r = sh(["ar", "qcs", a] + libs[v])
        b = f"{d}/mc{v}"
        r = sh(["g++", "-no-pie", "-Wl,-u,_ZN4synk7BarrierC1Eii," + ",".join("--wrap=" + w for w in WRAPS), "-o", b] + hs + kern[v] + [a, rt])
        if r.returncode:
            if cfg.get("link_is_property"):
                out[v] = ("LINK", r.stdout)
                continue
            print(r.stdout[-4000:])
            die("link failed")
        out[v] = b
    return out


def symbolise(binary, msg):
    def f(m):
        r = sh(["addr2line", "-e", binary, "-f", "-C", "-s", m.group(1)]).stdout.split("\n")
        fn = (r[0] if r else "?").split("(")[0]
        loc = r[1].split(" ")[0] if len(r) > 1 else "?"
        return f" [{fn} {loc}]"
    return re.sub(r"\s*@pc:(0x[0-9a-f]+)", f, msg)


def norm(msg):  # form used for known findings: no line numbers
    return re.sub(r"(\.[ch]pp?|\.h):\d+", r"\1", msg)


def selftest():
    for t in ("g++", "ar", "addr2line"):
        if not shutil.which(t):
            die("missing tool " + t)
    for p, c in TABLE.items():
        for f in c["harness"] + c.get("kernels", []):
            if not os.path.exists(f"{V}/harness/{f}"):
                die("missing " + f)
    print("ok")
    return 0


def main():
    if sys.argv[1:] == ["--selftest"]:
        return selftest()
    if len(sys.argv) < 3 or sys.argv[1] not in TABLE:
        die("usage: check.py PROP quick|thorough")
    prop, tier = sys.argv[1], sys.argv[2]
    cfg = TABLE[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    args = sys.argv[3:]
    variants = cfg.get("variants", [0, 1])
    only = None
    if "--case" in args:
        v, i = args[args.index("--case") + 1].split(":")
        variants, only = [int(v)], i
    if "--variant" in args:
        variants = [int(args[args.index("--variant") + 1])]
    workers = args[args.index("--workers") + 1] if "--workers" in args else str(os.cpu_count() or 8)
    os.makedirs(V + "/build", exist_ok=True)
    d = tempfile.mkdtemp(prefix=prop + ".", dir=V + "/build")
    try:
        return run(prop, tier, cfg, seed, args, variants, only, workers, d, t0)
    finally:
        if "--keep" in args:
            print("kept", d)
        else:
            shutil.rmtree(d, ignore_errors=True)


def run(prop, tier, cfg, seed, args, variants, only, workers, d, t0):
    bins = build(prop, cfg, d, variants)
    tb = time.time() - t0
    if "--build-only" in args:
        return 0
    budget = cfg["budget"][0 if tier == "quick" else 1]
    if "--budget" in args:
        budget = float(args[args.index("--budget") + 1])
    if "--list" in args:
        subprocess.run([bins[variants[0]], "--prop", prop, "--tier", tier, "--list"])
        return 0
    viols, results = [], {}
    for n, v in enumerate(variants):
        if isinstance(bins[v], tuple):
            viols.append({"variant": v, "idx": -1, "case": "link", "key": "link-failure", "msg": bins[v][1][-800:], "schedule": ""})
            continue
        left = max(5.0, budget - sum(r["wall"] for r in results.values()))
        share = left / (len(variants) - n) if n + 1 < len(variants) else left
        o = f"{d}/out{v}.json"
        cmd = [bins[v], "--prop", prop, "--tier", tier, "--workers", workers, "--variant", str(v), "--budget", f"{share:.1f}", "--out", o]
        if only is not None:
            cmd += ["--case", only]
        if "--max-viol" in args:
            cmd += ["--max-viol", args[args.index("--max-viol") + 1]]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=share + 180, errors="replace")
        except subprocess.TimeoutExpired:
            die("explorer did not stop in time")
        if r.stderr and (only is not None or r.returncode not in (0, 1)):
            print(symbolise(bins[v], r.stderr[-int(os.environ.get("MC_TAIL", "8000")):]))
        if r.returncode not in (0, 1) or not os.path.exists(o):
            die(f"explorer ended with status {r.returncode}")
        res = json.load(open(o))
        results[v] = res
        for x in res["violations"]:
            x["variant"] = v
            x["msg"] = symbolise(bins[v], x["msg"])
            viols.append(x)

    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k.get("property") == prop and k.get("status") == "known"]
    fresh, seen = [], {}
    for x in viols:
        text = f"{x['key']} | {x['case']} | {norm(x['msg'])}"
        for i, k in enumerate(known):
            if re.search(k["match"], text):
                seen.setdefault(i, x)
                break
        else:
            fresh.append(x)

    for i, x in sorted(seen.items()):
        print(f"KNOWN-FINDING: property={prop} {known[i]['what']}")
    tot = lambda k: sum(r[k] for r in results.values())
    samples = [s for r in results.values() for s in r["samples"]][:10]
    cov = {
        "states": tot("nodes") + tot("terminals"), "transitions": max(tot("events"), tot("nodes")),
        "traces_validated_against_impl": tot("schedules"),
        "samples": samples, "cases": tot("cases"), "cases_skipped_for_time": tot("skipped"),
        "cases_truncated": tot("truncated"), "executions_pruned_as_equivalent": tot("pruned"),
        "distinct_outcomes": tot("outcomes"), "inconclusive_executions": tot("inconclusive"),
        "longest_execution_decisions": max([r["maxdepth"] for r in results.values()] or [0]),
        "bounds": next((r["bounds"] for r in results.values()), []),
        "truncated_cases": [s for r in results.values() for s in r["truncated_cases"]],
        "builds": ["release (-DNDEBUG)" if v == 0 else "assertions on" for v in variants],
        "exhaustive": bool(results) and tot("skipped") == 0 and tot("truncated") == 0 and not viols,
        "explanation": "states = scheduling/choice points of all explored executions plus completed executions; transitions = visible (synchronising or racy) "
                       "accesses executed, or data choices taken where the code is sequential; every execution runs the real compiled library (no separate model), so every explored trace is a trace of the implementation.",
        "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + [
              "sequential consistency at the granularity of compiled memory accesses (x86 TSO and compiler reordering beyond -O1 code are not modelled)",
              "the OpenMP runtime is replaced by one with the same semantics; static schedules are computed by the compiler",
              "bounds as listed in coverage.bounds"],
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if only is None:
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {cov['cases']} cases, {cov['traces_validated_against_impl']} executions, {cov['states']} states, {cov['transitions']} transitions, "
          f"skipped {cov['cases_skipped_for_time']}, truncated {cov['cases_truncated']}, exhaustive={cov['exhaustive']}, build {tb:.1f}s, total {time.time()-t0:.1f}s")
    if "--top" in args:
        for v, r in results.items():
            for t in sorted(r["top"], reverse=True)[:12]:
                print("  top", v, t)
    if fresh:
        os.makedirs(V + "/replays", exist_ok=True)
        keys = {}
        for x in fresh:
            keys.setdefault((x["key"], norm(x["msg"]).split("[")[-1][:60]), []).append(x)
        n = 0
        for (k, _), xs in sorted(keys.items(), key=lambda kv: kv[1][0]["idx"])[:10]:
            x = min(xs, key=lambda y: len(y["schedule"]))
            path = f"replays/{prop}-{n}.json"
            n += 1
            json.dump({"property": prop, "tier": tier, "variant": x["variant"], "case_index": x["idx"], "case": x["case"], "key": x["key"], "message": x["msg"],
                       "schedule": x["schedule"], "replay_cmd": f"python3 check.py {prop} {tier} --case {x['variant']}:{x['idx']}",
                       "others": len(xs) - 1}, open(f"{V}/{path}", "w"), indent=1)
            print(f"  {x['key']}: case `{x['case']}' ({'release' if x['variant']==0 else 'assert'} build): {x['msg']}  (+{len(xs)-1} similar)")
            if only is None:
                print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
