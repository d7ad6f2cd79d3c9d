#!/usr/bin/env python3
"""rtsim: deterministic simulation of the generated loader code (properties C01..C10 and C21).

  check.py C04                 run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE       rebuild the configuration of a replay file from the current tree and run it again
  check.py --replay FILE --log the same, printing the event log
"""
import os, sys, json, time, shutil, subprocess, threading, collections
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]
import common, gen
from concurrent.futures import ThreadPoolExecutor

ENV = dict(common.CLEAN_ENV, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
FOCUS = {
    "C01": {"format": ["c", "c++"]},
    "C02": {"format": ["c", "c", "c++", "c++"]},
    "C03": {"format": ["c", "c++"]},
    "C04": {"format": ["c", "c++"]},
    "C05": {"format": ["c", "c", "c++", "c++", "plugin", "minimal", "minimal-c++"], "wrap": ["raw", "raw", "wrap", "wrap", "auto", "lazy"]},
    "C06": {"format": ["c", "c++"], "wrap": ["wrap"]},
    "C07": {"format": ["c", "c++"], "wrap": ["auto", "lazy"]},
    "C08": {"format": ["c", "c++"]},
    "C09": {"format": ["plugin"]},
    "C10": {"format": ["minimal", "minimal-c++"]},
    "C21": {"format": ["c", "c", "c++", "c++", "plugin", "minimal", "minimal-c++"], "second": 1},
}
BUDGET = {"quick": (320, 400, 300), "thorough": (4000, 2500, 780)}      # configurations, histories each, seconds at most
REAL = ["gendlopen generator (built from the working tree, run as is)", "generated header/body compiled by gcc/g++ in the configuration's language, standard and optimisation", "libc/libstdc++ formatted output, strings and FILE parsing"]
STUB = ["dynamic loader: dlopen/dlmopen/dlsym/dlvsym/dlclose/dlerror/dlinfo/dladdr", "/proc/self/maps (generated text behind a FILE stream with short reads and read errors)", "target libraries (recording stubs)", "atexit/exit/abort", "malloc/calloc/realloc/strdup/free of the generated code",
        "other target platforms (about a quarter of the configurations): the Windows loader API, FormatMessage and C library conversions, dlfcn-win32, AIX loadquery(), the PROCMAP_QUERY ioctl; the headers windows.h, tchar.h, sys/ldr.h are stand-ins and the platform macros are set by hand, the generated code is the real one"]


def compile_engine(d):
    f = ["g++", "-std=gnu++20", "-O1", "-w", "-c", os.path.join(HERE, "engine.cpp")]
    return [lambda: common.sh(f + ["-o", os.path.join(d, "engine.o")]), lambda: common.sh(f + ["-DRT_ASAN", "-fsanitize=address", "-g1", "-o", os.path.join(d, "engine_san.o")])]


def prepare(d):
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(j) for j in compile_engine(d)]
        g = common.build_generator(d)
        for f in fs: f.result()
    return g, (os.path.join(d, "engine.o"), os.path.join(d, "engine_san.o"))


def run_rt(d, args, timeout=600):
    p = subprocess.run([os.path.join(d, "rt")] + args, cwd=d, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("latin1")


def run_ops(d, ops, log=False):
    f = os.path.join(d, "ops.txt"); open(f, "w", encoding="latin1").write(ops)
    rc, out = run_rt(d, ["--ops", f] + (["--log"] if log else []), 60)
    last = out.rstrip("\n").rsplit("\n", 1)[-1]
    r = json.loads(last); r["log"] = out
    return r


def reproduces(r, prop, oracle): return bool(r["viol"]) and (prop is None or prop in r["props"].split(",")) and r["oracle"] == oracle


def shrink(d, ops, prop, oracle, budget=400):
    lines = [l for l in ops.split("\n") if l]; head, body = lines[0], lines[1:]; n = 0
    def ok(b):
        nonlocal n
        n += 1
        return n <= budget and reproduces(run_ops(d, "\n".join([head] + b) + "\n"), prop, oracle)
    chunk = max(1, len(body) // 2)
    while True:
        i = 0; removed = False
        while i < len(body):
            c = body[:i] + body[i + chunk:]
            if c and ok(c): body = c; removed = True
            else: i += chunk
        if chunk > 1: chunk //= 2
        elif not removed: break
    for i in range(len(body)):                       # faults, then arguments
        w = body[i].split(" ")
        k = 6
        while k + 5 <= len(w):
            c = w[:k] + w[k + 5:]
            if ok(body[:i] + [" ".join(c)] + body[i + 1:]): w = c; body[i] = " ".join(w)
            else: k += 5
        for j in (2, 3, 4, 5):
            if w[j] == "0": continue
            c = list(w); c[j] = "0"
            if ok(body[:i] + [" ".join(c)] + body[i + 1:]): w = c; body[i] = " ".join(w)
    h = head.split(" ")
    for j in (2, 3, 4, 5):
        if j < len(h) and h[j] != "0":
            c = list(h); c[j] = "0"; old = head; head = " ".join(c)
            if ok(body): h = c
            else: head = old
    return "\n".join([head] + body) + "\n"


def shrink_config(c, d, g, eng, stage):
    n = 0; changed = True
    while changed and n < 24:
        changed = False
        for i in range(len(c["syms"]) - 1, -1, -1):
            if len(c["syms"]) < 2 or n >= 24: break
            t = dict(c); t["syms"] = c["syms"][:i] + c["syms"][i + 1:]; n += 1
            try: gen.build(t, d, g, eng, HERE)
            except gen.BuildError as e:
                if e.stage == stage: c = t; changed = True
            except Exception: pass
    return c


def save_replay(prop, data):
    p = os.path.join(common.replay_dir(), "%s-%d-%s.json" % (prop, common.seed(), data["config"]["seed"]))
    data = dict({"tool": "rtsim", "property": prop, "replay_cmd": "python3 rtsim/check.py --replay " + os.path.relpath(p, common.VERIF)}, **data)
    json.dump(data, open(p, "w"), indent=1); return p


def replay(path, log):
    r = json.load(open(path)); d = common.scratch(); g, eng = prepare(d); cd = os.path.join(d, "c")
    print("seed", r["config"]["seed"])
    try: gen.build(r["config"], cd, g, eng, HERE)
    except gen.BuildError as e:
        print(e.msg[-1500:])
        if r.get("stage") == e.stage: print("VIOLATION property=%s replay=%s" % (r["property"], path)); return 1
        return 2
    if r.get("stage"): print("the configuration builds: not reproduced"); return 0
    a = run_ops(cd, r["ops"], log)
    if log: print(a["log"])
    print(json.dumps({k: a[k] for k in ("viol", "props", "oracle", "text", "hash")}))
    if reproduces(a, r["property"], r["oracle"]):
        print("same event log" if a["hash"] == r["hash"] else "different event log hash")
        print("VIOLATION property=%s replay=%s" % (r["property"], path)); return 1
    print("not reproduced"); return 0


class Stop(Exception): pass


def main(prop):
    t0 = time.time(); d = common.scratch(); n = int(prop[1:]); nconf, nhist, cap = BUDGET[common.tier()]
    if prop in ("C09", "C10"): nconf = nconf * 3 // 4
    nconf = int(os.environ.get("RT_CONFIGS", nconf)); nhist = int(os.environ.get("RT_HISTORIES", nhist))
    print("%s seed %d tier %s" % (prop, common.seed(), common.tier()), flush=True)
    g, eng = prepare(d); tb = time.time() - t0
    tot = collections.Counter(); faults = collections.Counter(); opc = collections.Counter(); probes = collections.Counter(); fmts = collections.Counter(); plats = collections.Counter()
    samples = []; found = []; errors = []; lock = threading.Lock(); stop = threading.Event(); others = collections.Counter()

    def one(i):
        if stop.is_set() or time.time() - t0 > cap: return
        c = gen.make_config(common.seed() * 1000003 + i, FOCUS[prop]); cd = os.path.join(d, "c%d" % i)
        try:
            try: gen.build(c, cd, g, eng, HERE)
            except gen.BuildError as e:
                if e.stage == "harness": raise
                try: gen.build(c, cd, g, eng, HERE)
                except gen.BuildError as e2: e = e2
                else: raise RuntimeError("build of configuration %d failed only once: %s" % (c["seed"], e.msg[-300:]))
                with lock: found.append((c, cd, None, e))
                stop.set(); return
            rc, out = run_rt(cd, ["--seed", str(c["seed"]), "--count", str(nhist), "--prop", str(n), "--maxviol", "1", "--time", str(max(5, cap - (time.time() - t0)))])
            st = None; v = None
            for l in out.split("\n"):
                if not l.startswith("{"): continue
                j = json.loads(l)
                if j["t"] == "stats": st = j
                elif j["t"] == "viol": v = j
                elif j["t"] == "other": others["%s %s" % (j["props"], j["oracle"])] += 1
            if st is None: raise RuntimeError("simulator gave no result (status %s): %s" % (rc, out[-400:]))
            det = None
            if i % 50 == 7:     # determinism: the same seeds in another process give the same event logs
                a = [run_rt(cd, ["--seed", str(c["seed"]), "--count", "40", "--prop", str(n), "--hashes", "--maxviol", "99"])[1] for _ in range(2)]
                det = [[l for l in x.split("\n") if l.startswith("hash")] for x in a]
                if det[0] != det[1] or not det[0]: raise RuntimeError("event logs differ between two runs of configuration %d" % c["seed"])
            with lock:
                tot["configs"] += 1; tot["histories"] += st["histories"]; tot["distinct"] += st["distinct"]; tot["ops"] += st["ops"]; tot["skipped"] += st["skipped"]; tot["dlcalls"] += st["dlcalls"]; tot["other"] += st["other"]
                if det: tot["deterministic_pairs"] += len(det[0])
                faults.update(st["faults"]); opc.update(st["opcount"]); probes.update(st["probes"])
                plats[c.get("plat", "glibc")] += 1
                fmts["%s/%s/%s%s" % (c["format"], c["wrap"], c["lang"], "/san" if c["san"] else "")] += 1
                if len(samples) < 3 and st["sample"]: samples.append({"config_seed": c["seed"], "format": c["format"], "wrap": c["wrap"], "symbols": [s["name"] for s in c["syms"]][:6], "history": st["sample"].split("\n")[:14]})
            if v:
                with lock: found.append((c, cd, v, None))
                stop.set(); return
        except Exception as e:
            with lock: errors.append("configuration %d: %s" % (c["seed"], e))
            stop.set()
        finally:
            with lock: keep = any(f[1] == cd for f in found)
            if not keep: shutil.rmtree(cd, ignore_errors=True)

    with ThreadPoolExecutor(common.NCPU) as ex: list(ex.map(one, range(nconf)))
    rc = 0; known = common.known_findings(prop)
    for c, cd, v, be in found[:1]:
        if be is not None:
            stage = be.stage; c2 = shrink_config(c, os.path.join(d, "shr"), g, eng, stage)
            p = save_replay(prop, {"config": c2, "stage": stage, "text": be.msg[-2000:]})
            print("configuration %d (%s, %s): %s fails:\n%s" % (c["seed"], c["format"], c["wrap"], "generating" if stage == "generator" else "compiling the generated code", be.msg[-800:]))
            print("VIOLATION property=%s replay=%s" % (prop, p)); rc = 1; continue
        a, b = run_ops(cd, v["ops"]), run_ops(cd, v["ops"])
        if not (reproduces(a, prop, v["oracle"]) and a["hash"] == b["hash"] == v["hash"]):
            errors.append("violation did not reproduce: %s / %s" % (v["text"], a["text"])); continue
        s = shrink(cd, v["ops"], prop, v["oracle"]); a, b = run_ops(cd, s), run_ops(cd, s, True)
        if not (reproduces(a, prop, v["oracle"]) and a["hash"] == b["hash"]): errors.append("minimised violation did not reproduce"); continue
        p = save_replay(prop, {"config": c, "ops": s, "oracle": a["oracle"], "text": a["text"], "hash": a["hash"], "history_index": v["index"], "log": b["log"].split("\n")[-60:]})
        print("configuration %d (%s, %s), history %d: %s\n%s" % (c["seed"], c["format"], c["wrap"], v["index"], a["text"], s))
        if v["oracle"] in known: print("KNOWN-FINDING: property=%s %s" % (prop, known[v["oracle"]])); continue
        print("VIOLATION property=%s replay=%s" % (prop, p)); rc = 1
    wall = time.time() - t0; sim = max(wall - tb, 0.1)
    cov = {"evaluations": tot["histories"], "distinct_nontrivial": tot["distinct"],
           "rule": "one evaluation = one seeded history of API calls, environment changes and injected faults against one generated and compiled configuration; distinct and non-trivial = at least two operations took effect and the sequence of (operation, loader calls made, state reached) was not seen before in that configuration",
           "samples": samples, "configurations": tot["configs"], "configuration_mix": dict(fmts.most_common()), "simulated_platforms": dict(plats.most_common()), "operations": dict(opc), "operations_total": tot["ops"], "loader_calls": tot["dlcalls"],
           "faults_fired": dict(faults), "rare_conditions_hit": dict(probes), "runs_per_hour": int(tot["histories"] / sim * 3600), "seeds_per_hour": int(tot["configs"] / sim * 3600),
           "simulated_time": "no clock in this code; %d loader calls and %d API operations simulated" % (tot["dlcalls"], tot["ops"]), "event_logs_compared_twice": tot["deterministic_pairs"],
           "violations_of_other_properties_seen": dict(others), "real_components": REAL, "stubbed_components": STUB}
    common.write_evidence(prop, "exploration", cov, t0)
    print("%d configurations, %d histories (%d distinct), %d operations, faults %s, %.1f s" % (tot["configs"], tot["histories"], tot["distinct"], tot["ops"], dict(faults), wall))
    if others: print("seen, but not this property's: %s" % dict(others))
    if rc: return rc
    if errors:
        for e in errors[:3]: print("ERROR: %s" % e)
        return 2
    if time.time() - t0 > cap and tot["configs"] < nconf: print("note: stopped after %d of %d configurations (time)" % (tot["configs"], nconf))
    return 0


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2], "--log" in sys.argv))
    if len(sys.argv) != 2 or sys.argv[1] not in FOCUS: print(__doc__); sys.exit(2)
    try: sys.exit(main(sys.argv[1]))
    except common.BuildFailed as e: print("ERROR: %s" % e); sys.exit(2)
