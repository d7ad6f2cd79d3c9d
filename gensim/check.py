#!/usr/bin/env python3
"""gensim: deterministic simulation of the gendlopen program and its template packer on a simulated operating system (C11..C17, C22).

  check.py C13                 run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE       rebuild from the current tree and run the scenario of a replay file again
  check.py --replay FILE --log the same, printing every run with its system calls
"""
import os, sys, json, time, random, collections, copy, subprocess, shutil, hashlib, multiprocessing as mp, traceback, errno
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]
import common, simlib, work, oracle

BUDGET = {"quick": (40000, 120), "thorough": (700000, 780)}      # scenarios, seconds of search at most
WEIGHT = {"C11": 1.0, "C12": 1.0, "C13": 1.2, "C14": 1.0, "C15": 1.0, "C16": 0.9, "C17": 0.9, "C22": 0.5}
REAL = ["all of gendlopen's C++ sources and the flex scanner (compiled from the working tree)", "gen_templates_data (the build's template packer) and the templates it packed", "libstdc++ (iostreams, filesystem, regex, locale), glibc stdio, time and allocation"]
STUB = ["kernel: every system call is caught (syscall user dispatch) and served by an in-memory file system, pipes, clock and descriptor table", "heap placement: malloc/mmap come from a private arena"]


def templates(): return {n: open(os.path.join(common.REPO, "src", "templates", n), encoding="latin1", newline="").read() for n in work.TEMPLATE_FILES}


def make(prop, index, W, host):
    r = random.Random(index)
    return oracle.MAKERS[prop](r, W, host)


def host_for(sc, binary, mode):
    """the simulator for a scenario: with the real templates or with mutated ones"""
    if sc["meta"].get("variant") is None: return simlib.Host(binary, mode)
    try: return simlib.Host(simlib.variant(binary, mode, sc["meta"]["variant"])[0], mode)
    except common.BuildFailed:
        if sc["kind"] == "variant": return None
        raise


def attempt(sc, prop, key, host):
    """judge a scenario; the violation of prop with that key, or None"""
    if sc["kind"] == "variant": return {"text": "the build fails with other templates: " + sc["meta"]["error"], "hashes": [], "fired": [], "ends": []} if host is None else None
    try: v, sig, runs, fl = oracle.judge(host, sc)
    except oracle.Skip: return None
    for props, k, text in v:
        if prop in props and k == key: return {"text": text, "hashes": [r.hash for r in runs], "fired": fl, "ends": [r.brief() for r in runs]}
    return None


def worker(prop, binary, mode, seed, start, count, step, stop, deadline, out):
    try:
        W = {"templates": templates()}; vn = None; bad = None
        if prop == "C17" and start % 2:         # half of the workers: the same program, built with other templates
            vn = seed * 64 + start
            try: binary, W["templates"] = simlib.variant(binary, mode, vn)
            except common.BuildFailed as e: bad = str(e)[-300:]; count = 0
        host = simlib.Host(binary, mode); second = None
        st = collections.Counter(); fired = collections.Counter(); kinds = collections.Counter(); sigs = set(); others = collections.Counter(); simns = 0; skips = collections.Counter(); ends = collections.Counter(); modes = collections.Counter(); samples = []; found = []
        if bad: found.append((seed * 1000003 + start, {"kind": "variant", "base": simlib.new_plan(), "delta": {}, "meta": {"mode": "variant", "variant": vn, "error": bad}}, [({"C17"}, "variant-build", bad)])); stop.value = 1
        for n, i in enumerate(range(start, count, step)):
            if stop.value or time.time() > deadline: break
            idx = seed * 1000003 + i
            try:
                sc = make(prop, idx, W, host); v, sig, runs, fl = oracle.judge(host, sc)
                if vn is not None: sc["meta"]["variant"] = vn
            except oracle.Skip as e: skips[str(e)[:60]] += 1; continue
            st["scenarios"] += 1; kinds[sc["kind"]] += 1; modes[sc["meta"]["mode"]] += 1; st["runs"] += len(runs)
            for r in runs: st["steps"] += r.steps; st["turns"] += len(r.sched); simns += max(0, r.simus) * 1000; ends[r.how if r.how != "exit" else "exit %d" % r.code] += 1; st["short_reads"] += r.shorts; st["allocations"] += r.count.get("malloc", 0)
            for l in fl: fired[l] += 1
            sigs.add(int(hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest(), 16))
            if n in (3, 40, 80) and start == 0: samples.append({"seed": idx, "kind": sc["kind"], "args": sc["base"]["args"], "changes": {k: str(x)[:160] for k, x in sc["delta"].items()}, "ends": [r.brief() for r in runs]})
            if n % 211 == 5:       # the same scenario in another process gives the same traces
                if second is None: second = simlib.Host(binary, mode)
                sc2 = make(prop, idx, W, second); v2, sig2, runs2, fl2 = oracle.judge(second, sc2)
                if [r.hash for r in runs] != [r.hash for r in runs2] or sig != sig2: raise RuntimeError("scenario %d is not deterministic" % idx)
                st["compared"] += 1
            mine = [x for x in v if prop in x[0]]
            for p, k, t in v:
                if prop not in p: others["%s %s" % (",".join(sorted(p)), k)] += 1
            if mine:
                found.append((idx, sc, mine)); 
                if len(found) >= 3: break
                if not KNOWN: stop.value = 1
        out.put(("ok", start, st, fired, kinds, modes, sigs, others, simns, skips, ends, samples, found))
    except Exception:
        out.put(("err", start, traceback.format_exc()))


KNOWN = {}


# ------------------------------------------------------------------ minimising
KEEP = ("-out", "-separate", "-format", "-template", "-dump", "-force", "-print", "-line", "-ignore", "-no-date", "-S", "-P", "-ast")


def shrink(sc, prop, key, host, limit=500, seconds=60):
    n = [0]; t0 = time.time()
    def ok(c):
        n[0] += 1
        if n[0] > limit or time.time() - t0 > seconds: return False
        try: return attempt(c, prop, key, host) is not None
        except Exception: return False
    cur = sc
    def drop_list(get, setter, keep=lambda x: False):
        nonlocal cur
        l = list(get(cur)); size = max(1, len(l) // 2)
        while size:
            i = 0
            while i < len(l):
                part = l[i:i + size]
                if any(keep(x) for x in part): i += size if size == 1 else 1; continue
                c = copy.deepcopy(cur); setter(c, l[:i] + l[i + size:])
                if ok(c): cur = c; l = l[:i] + l[i + size:]
                else: i += size
            size //= 2
    for _ in range(2):
        d = cur["delta"]
        for k in list(d):
            if k in ("faults", "events", "add_nodes"): continue
            if k == "knobs":
                for kk in list(d["knobs"]):
                    c = copy.deepcopy(cur); del c["delta"]["knobs"][kk]
                    if ok(c): cur = c
                d = cur["delta"]; continue
            c = copy.deepcopy(cur); del c["delta"][k]
            if ok(c): cur = c
        if cur["delta"].get("faults"):
            drop_list(lambda s: s["delta"]["faults"], lambda s, l: s["delta"].__setitem__("faults", l))
            for i, f in enumerate(cur["delta"]["faults"]):
                for kk, vv in (("sticky", 0), ("nth", 1)):
                    if f.get(kk) == vv: continue
                    c = copy.deepcopy(cur); c["delta"]["faults"][i][kk] = vv
                    if ok(c): cur = c
        base = cur["base"]; inp = cur["meta"].get("input"); fixed = {inp, "-"}
        for i in range(1, len(base["args"])):
            if base["args"][i - 1] == "-out": fixed.add(base["args"][i])
        if cur["kind"] != "dump" and base["prog"] == 0:
            drop_list(lambda s: s["base"]["args"], lambda s, l: s["base"].__setitem__("args", l), keep=lambda a: a == base["args"][0] or a in fixed or a.startswith(KEEP))
        if base["env"]:
            c = copy.deepcopy(cur); c["base"]["env"] = []
            if ok(c): cur = c
        drop_list(lambda s: s["base"]["nodes"], lambda s, l: s["base"].__setitem__("nodes", l), keep=lambda x: x[2] in (cur["meta"].get("inpath"), cur["meta"].get("tplpath"), "/w"))
        if cur["delta"].get("add_nodes"): drop_list(lambda s: s["delta"]["add_nodes"], lambda s, l: s["delta"].__setitem__("add_nodes", l))
        for j, nd in enumerate(cur["base"]["nodes"]):
            if nd[0] == "file" and nd[3].count("\n") > 1 and not nd[2].startswith("/t"):
                drop_list(lambda s: s["base"]["nodes"][j][3].splitlines(True), lambda s, l: s["base"]["nodes"][j].__setitem__(3, "".join(l)), keep=lambda x: "%option" in x)
        o = cur["meta"].get("other")
        if o:
            if "odds" in cur["meta"]["sched"]:      # the turns that were taken, as a list
                pa = oracle.apply(cur["base"], cur["delta"], cur["meta"]); pb = simlib.Plan(o); pb["nodes"] = []
                c = copy.deepcopy(cur); c["meta"]["sched"] = {"first": cur["meta"]["sched"].get("first", 0), "at": host.run2(pa, pb, cur["meta"]["sched"])[0].sched}
                if ok(c): cur = c
            if "at" in cur["meta"]["sched"]: drop_list(lambda s: s["meta"]["sched"]["at"], lambda s, l: s["meta"]["sched"].__setitem__("at", l))
            i = 0
            while i + 1 < len(cur["meta"]["sched"].get("at", [])):       # a turn and the turn back
                c = copy.deepcopy(cur); del c["meta"]["sched"]["at"][i:i + 2]
                if ok(c): cur = c
                else: i += 1
            drop_list(lambda s: s["meta"]["other"]["args"], lambda s, l: s["meta"]["other"].__setitem__("args", l), keep=lambda a: a == o["args"][0] or not a.startswith("-") or a == "-" or a.startswith(KEEP))
            for kk in list(cur["meta"]["other"]["knobs"]) + ["faults"]:
                c = copy.deepcopy(cur); q = c["meta"]["other"]
                if kk == "faults": q["faults"] = []
                else: del q["knobs"][kk]
                if ok(c): cur = c
        g = cur["meta"].get("gen")
        if g: drop_list(lambda s: s["meta"]["gen"]["args"], lambda s, l: s["meta"]["gen"].__setitem__("args", l), keep=lambda a: a == g["args"][0] or a == inp or a == "-" or not a.startswith("-") or a.startswith(KEEP))
    return cur


def nr_name(nr):
    return {0: "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "lstat", 8: "lseek", 9: "mmap", 12: "brk", 16: "ioctl", 19: "readv", 20: "writev", 21: "access", 77: "ftruncate", 79: "getcwd", 82: "rename", 83: "mkdir", 84: "rmdir", 87: "unlink", 89: "readlink", 228: "clock_gettime", 231: "exit_group", 257: "openat", 258: "mkdirat", 262: "newfstatat", 263: "unlinkat", 332: "statx"}.get(nr, "syscall %d" % nr)


def start_host(binary):
    """the simulator, by syscall user dispatch or, where the kernel lacks it, by seccomp"""
    for mode in (None, "seccomp"):
        try:
            h = simlib.Host(binary, mode); r = h.run(simlib.new_plan(args=["gendlopen", "-version"]))
            if r.how == "exit": return h, mode
        except Exception: pass
    raise RuntimeError("the simulator does not run here")


def calibrate(binary, mode, d, W, n):
    """the simulated system against the real one: same command, same files, same outcome"""
    gen = common.build_generator(d); host = simlib.Host(binary, mode); done = 0
    for i in range(n):
        r = random.Random(770001 + i); c = work.make_case(r, W["templates"], mode=r.choice(["gen", "gen", "custom", "tpath", "print", "dump"]), small=True); p = c.plan
        if any(a.startswith("-prefix") for a in p["args"]): continue
        root = os.path.join(d, "cal"); shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
        rel = lambda s: s        # absolute paths are moved below the scratch directory
        def mv(a):
            for pre in ("-out=", "-template=", "-templates-path=", "-dump-templates="):
                if a.startswith(pre): x = a[len(pre):]; return pre + (root + x if x.startswith("/") else x)
            return root + a if a.startswith("/") else a
        for t, m, path, data in p["nodes"]:
            f = root + os.path.normpath(path)
            if t == "dir": os.makedirs(f, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(f), exist_ok=True); open(f, "wb").write(data.encode("latin1"))
        os.makedirs(root + "/w", exist_ok=True)
        args = [mv(a) for a in p["args"][1:]]
        q = subprocess.run([gen] + args, cwd=root + "/w", env={"TZ": "UTC0"}, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        sim = host.run(simlib.Plan(dict(p, env=["TZ=UTC0"])))
        if sim.unknown: continue
        fix = lambda b: oracle.nodate(b.replace(root.encode(), b""))[0]
        real = {}
        for a, _, fs in os.walk(root):
            for f in fs: real[os.path.join(a, f)[len(root):]] = fix(open(os.path.join(a, f), "rb").read())
        simf = {x: oracle.nodate(nd[3])[0] for x, nd in sim.nodes.items() if nd[0] == "file"}
        if "-line" in p["args"]: simf = {k: v for k, v in simf.items()}
        if sim.how != "exit" or sim.code != q.returncode: raise RuntimeError("calibration %d: simulated %s, real exit %d for %s" % (i, sim.brief(), q.returncode, args))
        if fix(q.stdout) != oracle.nodate(sim.stdout)[0]: raise RuntimeError("calibration %d: standard output differs for %s" % (i, args))
        for k in set(real) | set(simf):
            if real.get(k) != simf.get(k): raise RuntimeError("calibration %d: %s differs for %s" % (i, k, args))
        done += 1
    shutil.rmtree(os.path.join(d, "cal"), ignore_errors=True); host.close()
    return done


def save_replay(prop, data):
    p = os.path.join(common.replay_dir(), "%s-%d-%d.json" % (prop, common.seed(), data["scenario_seed"]))
    data = dict({"tool": "gensim", "property": prop, "replay_cmd": "python3 gensim/check.py --replay " + os.path.relpath(p, common.VERIF)}, **data)
    json.dump(data, open(p, "w"), indent=1); return p


def replay(path, log):
    r = json.load(open(path)); d = common.scratch(); b = simlib.build_host(d); host, mode = start_host(b); sc = r["scenario"]; host.close(); host = host_for(sc, b, mode)
    print("seed", r["scenario_seed"])
    if log and host:
        orig = host.run
        def run(plan, fresh=True, log=False):
            x = orig(plan, fresh, True); print("-- run: %s%s: %s" % (" ".join(plan["args"]), "" if fresh else " (same file system)", x.brief()), [f for f in plan["faults"]])
            for nr, ino, ret in x.log[-200:]: print("   %s(inode %d) = %s" % (nr_name(nr), ino, ret if ret >= 0 else "-" + errno.errorcode.get(-ret, str(-ret))))
            return x
        host.run = run; orig2 = host.run2
        def run2(a, b, sched, log=False):
            x, y = orig2(a, b, sched, True); print("-- two runs, run %d first, the turn changed at steps %s" % (sched.get("first", 0) + 1, x.sched))
            who, i, j, n = sched.get("first", 0), 0, 0, 0; sw = set(x.sched)
            while (i < len(x.log) or j < len(y.log)) and n < 400:        # as the scheduler let them go
                n += 1
                if n in sw or (who == 0 and i >= len(x.log)) or (who == 1 and j >= len(y.log)): who = 1 - who
                if who == 0 and i < len(x.log): e = x.log[i]; i += 1
                elif j < len(y.log): e = y.log[j]; j += 1
                else: continue
                print("   %4d run %d: %s(inode %d) = %s" % (n, who + 1, nr_name(e[0]), e[1], e[2] if e[2] >= 0 else "-" + errno.errorcode.get(-e[2], str(-e[2]))))
            for k, z, pl in ((1, x, a), (2, y, b)): print("-- run %d: %s: %s" % (k, " ".join(pl["args"]), z.brief()))
            return x, y
        host.run2 = run2
    a = attempt(sc, r["property"], r["key"], host)
    if a is None: print("not reproduced"); return 0
    print(a["text"]); print("ends:", a["ends"], "fired:", a["fired"])
    print("same traces" if a["hashes"] == r["hashes"] else "different traces (the code under test is not the same)")
    print("VIOLATION property=%s replay=%s" % (r["property"], path)); return 1


def main(prop):
    t0 = time.time(); d = common.scratch(); count, cap = BUDGET[common.tier()]; count = int(count * WEIGHT[prop]); count = int(os.environ.get("GS_SCENARIOS", count))
    print("%s seed %d tier %s" % (prop, common.seed(), common.tier()), flush=True)
    KNOWN.update(common.known_findings(prop))
    b = simlib.build_host(d); host, mode = start_host(b); W = {"templates": templates()}; tb = time.time() - t0
    q = mp.Queue(); stop = mp.Value("i", 0); deadline = time.time() + cap; ps = []
    for w in range(common.NCPU):
        p = mp.Process(target=worker, args=(prop, b, mode, common.seed(), w, count, common.NCPU, stop, deadline, q)); p.daemon = True; p.start(); ps.append(p)
    errors = []; cal = 0
    try: cal = calibrate(b, mode, d, W, 12 if common.tier() == "quick" else 60)
    except RuntimeError as e: errors.append(str(e))
    st = collections.Counter(); fired = collections.Counter(); kinds = collections.Counter(); modes = collections.Counter(); sigs = set(); others = collections.Counter(); simns = 0; skips = collections.Counter(); ends = collections.Counter(); samples = []; found = []
    for _ in ps:
        try: m = q.get(timeout=max(60, deadline - time.time() + 60))
        except Exception: errors.append("a worker gave no result"); break
        if m[0] == "err": errors.append(m[2][-600:]); continue
        _, _, a, f, k, mo, s, o, ns, sk, en, sa, fo = m
        st.update(a); fired.update(f); kinds.update(k); modes.update(mo); sigs |= s; others.update(o); simns += ns; skips.update(sk); ends.update(en); samples += sa; found += fo
    ts = max(0.1, time.time() - t0 - tb)
    rc = 0; seen = set(); shown = set()
    for idx, sc, mine in sorted(found, key=lambda x: x[0]):
        for props, key, text in mine:
            if key in seen: continue
            seen.add(key)
            h1, h2 = host_for(sc, b, mode), host_for(sc, b, mode)
            a1, a2 = attempt(sc, prop, key, h1), attempt(sc, prop, key, h2)
            if not a1 or not a2 or a1["hashes"] != a2["hashes"]: errors.append("violation did not reproduce (seed %d): %s" % (idx, text)); continue
            small = shrink(sc, prop, key, h1) if h1 else sc; a1, a2 = attempt(small, prop, key, h1), attempt(small, prop, key, h2)
            if not a1 or not a2 or a1["hashes"] != a2["hashes"]: small = sc; a1 = attempt(sc, prop, key, h1)
            p = save_replay(prop, {"scenario_seed": idx, "key": key, "text": a1["text"], "hashes": a1["hashes"], "ends": a1["ends"], "fired": a1["fired"], "scenario": small})
            print("scenario %d (%s): %s" % (idx, sc["kind"], a1["text"])); print("  %s" % " ".join(small["base"]["args"])); print("  changes: %s; ends: %s" % (str(small["delta"])[:500], a1["ends"]))
            if key in KNOWN: print("KNOWN-FINDING: property=%s %s" % (prop, KNOWN[key])); continue
            if not rc: print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
            rc = 1
        if rc: break
    unsim = sum(v for k, v in skips.items() if k.startswith("not simulated")); wall = time.time() - t0
    cov = {"evaluations": st["scenarios"], "distinct_nontrivial": len(sigs),
           "rule": "one evaluation = one seeded scenario (a command line, input, file system, environment and faults) run on the simulated system and judged against an undisturbed or otherwise surrounded run of the same code; distinct = the hash over every system call, its arguments, data and result of the deciding runs was not seen before",
           "samples": samples[:3], "simulated_program_runs": st["runs"], "simulated_system_calls": st["steps"], "allocations_seen": st["allocations"], "turns_between_two_runs": st["turns"], "runs_per_hour": int(st["runs"] / ts * 3600), "seeds_per_hour": int(st["scenarios"] / ts * 3600),
           "simulated_time_s": round(simns / 1e9, 3), "faults_fired": dict(fired.most_common()), "short_reads_injected": st["short_reads"], "scenario_kinds": dict(kinds), "program_modes": dict(modes), "how_runs_ended": dict(ends.most_common(12)), "scenarios_not_applicable": dict(skips.most_common(5)),
           "traces_compared_in_two_processes": st["compared"], "commands_compared_with_the_real_system": cal, "interception": mode or "syscall user dispatch", "violations_of_other_properties_seen": dict(others.most_common(10)), "real_components": REAL, "stubbed_components": STUB}
    common.write_evidence(prop, "exploration", cov, t0)
    print("%d scenarios (%d distinct), %d program runs, %d system calls, %d calibrated, %.1f s" % (st["scenarios"], len(sigs), st["runs"], st["steps"], cal, wall))
    print("faults fired: %s" % dict(fired.most_common(30)))
    if others: print("seen, but not this property's: %s" % dict(others))
    if rc: return rc
    if unsim > max(20, st["scenarios"] // 5): errors.append("%d scenarios could not be simulated: %s" % (unsim, skips.most_common(3)))
    if errors:
        for e in errors[:3]: print("ERROR: %s" % e)
        return 2
    return 0


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2], "--log" in sys.argv))
    if len(sys.argv) != 2 or sys.argv[1] not in oracle.MAKERS: print(__doc__); sys.exit(2)
    try: sys.exit(main(sys.argv[1]))
    except common.BuildFailed as e: print("ERROR: %s" % e); sys.exit(2)
