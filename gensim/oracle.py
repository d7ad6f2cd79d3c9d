"""Scenarios of the generator simulation and the rules they are judged by.

A scenario is plain data: {"kind", "base": plan, "delta": changes for the second run, "meta": ...}; judge() runs it and
returns (violations, signature).  A violation is (set of properties, key, text).
"""
import random, os, re, time, posixpath
import work
from simlib import Plan, new_plan

DATE = re.compile(rb" on (\w{3} -?\d{1,11}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d{4})\.\n")
ERR = {"openr": ["EACCES", "EMFILE", "ENFILE", "EIO", "ENOMEM", "EINTR", "ENOENT"], "openw": ["ENOSPC", "EACCES", "EROFS", "EMFILE", "EDQUOT", "EINTR", "EIO"],
       "read": ["EIO", "EIO", "ESTALE", "ENOMEM"], "write": ["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPIPE", "EINTR", "EAGAIN"], "write2": ["EIO", "EPIPE"],
       "closew": ["EIO", "ENOSPC", "EDQUOT", "EINTR"], "closer": ["EIO", "EINTR"], "fstat": ["EIO", "EOVERFLOW", "ENOMEM"], "stat": ["EACCES", "EIO", "ENOMEM"],
       "unlink": ["EACCES", "EPERM", "EBUSY", "EROFS", "EIO"], "mkdir": ["ENOSPC", "EACCES", "EROFS", "EIO"], "rename": ["EACCES", "ENOSPC", "EIO"], "other": ["EIO", "EPERM"], "cwd": ["ENOENT", "EACCES"],
       "malloc": ["ENOMEM"], "bigmalloc": ["ENOMEM"], "mem": ["ENOMEM"]}
WRITE_SIDE = {"openw", "write", "closew", "rename", "mkdir"}
READ_SIDE = {"openr", "read", "fstat"}


class Skip(Exception): pass


def nodate(b):
    head = b[:300]; m = DATE.search(head)
    if not m: return b, None
    return b[:m.start()] + b".\n" + b[m.end():], m.group(1).decode()


def initial(plan):
    """the file system a plan starts from: path -> (type, mode, data)"""
    fs = {"/w": ("dir", 0o755, b"")} if any(n[2] == "/w" or n[2].startswith("/w/") for n in plan["nodes"]) else {}
    for t, mode, path, data in plan["nodes"]:
        parts = path.strip("/").split("/"); p = ""
        for x in parts[:-1]:
            p += "/" + x
            if p not in fs: fs[p] = ("dir", 0o755, b"")
        p = "/" + "/".join(parts)
        if p in fs: fs[p] = (fs[p][0], mode, fs[p][2]); continue
        if t == "hard":
            if data in fs: fs[p] = fs[data]
        else: fs[p] = (t, mode, data.encode("latin1") if t in ("file", "link") else b"")
    return fs


def apply(base, delta, meta):
    p = base.copy() if isinstance(base, Plan) else Plan(base).copy()
    for k, v in delta.items():
        if k == "knobs": p["knobs"].update(v)
        elif k == "via":
            src = [n for n in p["nodes"] if n[2] == meta["inpath"]]
            if not src: continue
            if v == "fifo": src[0][0] = "fifo"
            else: p["stdin"] = [v, src[0][3]]; p["args"] = ["-" if (a == meta["input"] and i) else a for i, a in enumerate(p["args"])]
        elif k == "tvia":
            src = [n for n in p["nodes"] if n[2] == meta["tplpath"]]
            if src: p["stdin"] = [v, src[0][3]]; p["args"] = ["-template=-" if a.startswith("-template=") else a for a in p["args"]]
        elif k == "add_nodes": p["nodes"] = p["nodes"] + v
        elif k == "set_nodes":
            new = {n[2]: n for n in v}; p["nodes"] = [new.pop(n[2], n) for n in p["nodes"]] + list(new.values())
        elif k == "del_args": p["args"] = [a for a in p["args"] if a not in v]
        elif k == "add_args": p["args"] = p["args"][:1] + v + p["args"][1:]
        else: p[k] = v
    return p


def outputs(r, outs):
    o = {p: nodate(r.nodes[p][3])[0] for p in outs if p in r.nodes and r.nodes[p][0] == "file"}
    o["<stdout>"] = nodate(r.stdout)[0]
    return o


def outside(before, after, outs):
    """changes the run made to anything but its outputs"""
    l = []
    for p, b in before.items():
        if p in outs: continue
        a = after.get(p)
        if a is None: l.append("%s %s was removed" % (b[0], p))
        elif (a[0], a[1], a[3]) != b: l.append("%s %s was changed" % (b[0], p))
    for p, a in after.items():
        if p not in before and p not in outs: l.append("%s %s was created" % (a[0], p))
    return l


def run(host, plan, fresh=True):
    r = host.run(plan, fresh)
    if r.unknown or r.how in ("oob", "none"): raise Skip("not simulated: system call %d, %s" % (r.unknown, r.note))
    return r


def orderly(r, what=""):
    if r.how in ("signal", "hang"): return [({"C14"}, "disorderly-end", "%sthe program ended with %s; stderr: %s" % (what, r.brief(), r.stderr[-200:].decode("latin1")))]
    return []


def silent(r, plan):
    if r.how == "exit" and r.code != 0 and not r.stderr and plan["stderr"] == "pipe" and not any(f["cls"] == "write2" for f in plan["faults"]):
        return [({"C14"}, "no-message", "exit status %d without any message on standard error" % r.code)]
    return []


def diff_outputs(a, b):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x != y:
            if x is None: return "%s was not expected" % k
            if y is None: return "%s is missing" % k
            n = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return "%s has %d bytes instead of %d and differs at byte %d" % (k, len(y), len(x), n)
    return None


def fired(plan, r): return [f["cls"] + (":" + f["errno"] if f.get("errno") else ":" + f["kind"]) for f, n in zip(plan["faults"], r.fired) if n]


# ---------------------------------------------------------------- judging
def judge(host, sc):
    return globals()["judge_" + sc["kind"]](host, Plan(sc["base"]), sc["delta"], sc["meta"])


def sig(kind, *rs): return (kind,) + tuple(r.hash for r in rs)


def judge_fault(host, base, delta, meta):
    """undisturbed run against the same run with faults"""
    ref = run(host, base); var_plan = apply(base, delta, meta); r = run(host, var_plan); v = orderly(ref, "(no fault) ") + silent(ref, base)
    fl = fired(var_plan, r); v += orderly(r, "after %s " % fl if fl else "") + silent(r, var_plan); outs = meta["outs"]; pre = "with %s: " % fl
    before = initial(var_plan)
    side = set()
    for f, n in zip(var_plan["faults"], r.fired):
        if n: side |= {"C12"} if f["cls"] in READ_SIDE else set()
    dump = {"C17"} if meta["mode"] == "dump" else set()
    if r.ok():
        if not ref.ok():
            v.append(({"C14", "C11"}, "false-success", pre + "success is reported although the undisturbed run ends with " + ref.brief()))
        else:
            d = diff_outputs(outputs(ref, outs), outputs(r, outs))
            if var_plan["stdout"][0] in ("full", "closed"): d = None if not ref.stdout else "standard output could not be written"
            if d: v.append(({"C11", "C14"} | side | dump, "incomplete-output", pre + "exit status 0 but " + d))
        for f, n in zip(var_plan["faults"], r.fired):
            if meta.get("ast"): break      # reading an AST ends as soon as all symbols asked for were found
            if n and f["cls"] == "read" and f.get("sticky") and f.get("errno") not in (None, "EINTR", "EAGAIN"):
                v.append(({"C12", "C14"}, "read-error-as-eof", pre + "exit status 0 although reading kept failing")); break
    o = outside(before, r.nodes, outs)
    if o: v.append(({"C13"}, "outside-change", pre + o[0]))
    if ref.how == "exit":
        o = outside(initial(base), ref.nodes, outs)
        if o: v.append(({"C13"}, "outside-change", "undisturbed run: " + o[0]))
    return v, sig("fault", r), [ref, r], fl


def judge_must_fail(host, base, delta, meta):
    """the world makes the request impossible: the run has to say so"""
    plan = apply(base, delta, meta); r = run(host, plan); v = orderly(r) + silent(r, plan)
    if r.ok(): v.append((set(meta["props"]), "false-success", "%s: success is reported" % meta["why"]))
    o = outside(initial(plan), r.nodes, meta["outs"])
    if o: v.append(({"C13"}, "outside-change", o[0]))
    return v, sig("must", r), [r], [meta["why"]]


def judge_delivery(host, base, delta, meta):
    """same bytes, delivered differently"""
    ref = run(host, base); plan = apply(base, delta, meta); r = run(host, plan); v = orderly(ref) + orderly(r)
    fl = fired(plan, r)
    if ref.how == "exit" and r.how == "exit":
        eintr = any(f.get("errno") in ("EINTR", "EAGAIN") for f in plan["faults"])
        d = diff_outputs(outputs(ref, meta["outs"]), outputs(r, meta["outs"]))
        if ref.code != r.code and not (eintr and r.code): v.append(({"C12"}, "delivery-status", "the same bytes delivered differently (%s) give exit status %d instead of %d" % (describe(delta), r.code, ref.code)))
        elif ref.code == 0 and r.code == 0 and d: v.append(({"C12"}, "delivery-output", "the same bytes delivered differently (%s): %s" % (describe(delta), d)))
    o = outside(initial(plan), r.nodes, meta["outs"])
    if o: v.append(({"C13"}, "outside-change", o[0]))
    return v, sig("delivery", ref, r), [ref, r], fl + (["short-read"] if r.shorts else [])


def describe(delta): return ", ".join("%s=%s" % (k, v if len(str(v)) < 60 else str(v)[:60]) for k, v in delta.items())


def judge_stdout(host, base, delta, meta):
    """-out=FILE named like the default header against standard output"""
    a = run(host, base); b = run(host, apply(base, delta, meta)); v = orderly(a) + orderly(b)
    if a.how == b.how == "exit":
        if a.code != b.code: v.append(({"C12", "C11"}, "stdout-status", "exit status %d to a file, %d to standard output" % (a.code, b.code)))
        elif a.ok():
            x = nodate(a.nodes.get(meta["outs"][0], ("", 0, 0, b""))[3])[0]; y = nodate(b.stdout)[0]
            d = diff_outputs({"stdout": x}, {"stdout": y})
            if d: v.append(({"C11"}, "stdout-differs", "output to standard output is not what goes to a file: " + d))
    return v, sig("stdout", a, b), [a, b], []


def local_fails(t):
    try: time.localtime(t); return False
    except (OverflowError, OSError): return True


def local(t, env):
    tz = [e[3:] for e in env if e.startswith("TZ=")]; old = os.environ.get("TZ"); os.environ["TZ"] = tz[-1] if tz and not tz[-1].startswith(":") else "UTC0"; time.tzset()
    try: return None if local_fails(t) else time.strftime("%a %Y-%m-%d %H:%M:%S %z", time.localtime(t))
    finally:
        if old is None: del os.environ["TZ"]
        else: os.environ["TZ"] = old
        time.tzset()


def judge_env(host, base, delta, meta):
    """same input and options, different surroundings"""
    ref = run(host, base); plan = apply(base, delta, meta); r = run(host, plan); v = orderly(ref) + orderly(r)
    if ref.how == "exit" and r.how == "exit":
        if ref.code != r.code: v.append(({"C15"}, "env-status", "exit status %d here, %d with %s" % (ref.code, r.code, describe(delta))))
        elif ref.ok():
            if meta["nodate"]:
                a = {p: ref.nodes[p][3] for p in meta["outs"] if p in ref.nodes}; b = {p: r.nodes[p][3] for p in meta["outs"] if p in r.nodes}; a["<stdout>"], b["<stdout>"] = ref.stdout, r.stdout
            else: a, b = outputs(ref, meta["outs"]), outputs(r, meta["outs"])
            d = diff_outputs(a, b)
            if d: v.append(({"C15"}, "env-output", "with %s: %s" % (describe(delta), d)))
            if meta["dated"] is not None:
                for run_, pl in ((ref, base), (r, plan)):
                    for p in [x for x in meta["outs"] if x in run_.nodes] + ["<stdout>"]:
                        txt = run_.stdout if p == "<stdout>" else run_.nodes[p][3]
                        if not txt: continue
                        s = nodate(txt)[1]
                        if meta["dated"] and s is None and not any(local_fails(t) for t in run_.times): v.append(({"C15"}, "no-date-text", "no local time in the note of " + p)); break
                        if not meta["dated"] and s is not None: v.append(({"C15"}, "date-text", "the note of %s has a date in spite of no-date" % p)); break
                        if meta["dated"]:
                            ok = {local(t, pl["env"]) for t in set(run_.times)}
                            if s not in ok: v.append(({"C15"}, "wrong-date", "%s says %s, the local time of the run is %s" % (p, s, sorted(ok)[:3]))); break
    return v, sig("env", ref, r), [ref, r], ["clock+env"]


def judge_crash(host, base, delta, meta):
    """killed somewhere, then run again with -force"""
    forced = apply(base, {"add_args": ["-force"]} if "-force" not in base["args"] and meta["mode"] != "packer" else {}, meta)
    ref = run(host, forced)
    if not ref.ok(): raise Skip("not a successful run")
    plan = apply(base, delta, meta); k = run(host, plan); v = []
    fl = fired(plan, k); outs = meta["outs"]
    o = outside(initial(plan), k.nodes, outs)
    if o: v.append(({"C16", "C13"}, "killed-run-outside", "the killed run (%s): %s" % (fl, o[0])))
    retry = apply(forced, {"faults": [], "knobs": {"clock": [int(k.t1) + meta.get("later", 60), 123456789, 1000]}}, meta); r = run(host, retry, fresh=False); v += orderly(r)
    if r.how == "exit":
        if not r.ok(): v.append(({"C16"}, "retry-failed", "killed (%s), then run again with -force: %s, %s" % (fl, r.brief(), r.stderr[-200:].decode("latin1"))))
        else:
            a = {p: (n[0], n[1], nodate(n[3])[0]) for p, n in ref.nodes.items()}; b = {p: (n[0], n[1], nodate(n[3])[0]) for p, n in r.nodes.items()}
            for p in sorted(set(a) | set(b)):
                if a.get(p) != b.get(p):
                    what = "is left over" if p not in a else "is missing" if p not in b else "differs from that of an undisturbed run"
                    v.append(({"C16"}, "retry-differs", "killed (%s), then run again with -force: %s %s" % (fl, p, what))); break
            else:
                if nodate(ref.stdout)[0] != nodate(r.stdout)[0]: v.append(({"C16"}, "retry-stdout", "killed (%s), then run again with -force: standard output differs" % fl))
    return v, sig("crash", k), [ref, k, r], fl + ["restart"]


def judge_exist(host, base, delta, meta):
    """something is already there (or appears while the program runs)"""
    plan = apply(base, delta, meta); r = run(host, plan); v = orderly(r, "with %s at the output path " % meta["what"]) + silent(r, plan); before = initial(plan); outs = meta["outs"]; force = "-force" in plan["args"]
    fl = fired(plan, r)
    o = outside(before, r.nodes, outs)
    if o: v.append(({"C13"}, "outside-change", "with %s at the output path%s: %s" % (meta["what"], " and -force" if force else "", o[0])))
    there = [p for p in outs if p in before]
    if not force:
        for p in there:
            a, b = r.nodes.get(p), before[p]
            if a is None or (a[0], a[1], a[3]) != b: v.append(({"C13"}, "existing-harmed", "%s %s existed and was %s without -force" % (b[0], p, "removed" if a is None else "changed")))
        if there and r.ok() and not set(meta.get("maybe", [])) >= set(there): v.append(({"C13"}, "existing-ignored", "%s exists, no -force, but success is reported" % there[0]))
    elif not plan["faults"] and meta.get("ref"):
        clean = run(host, Plan(meta["ref"]))
        if clean.ok() and not r.ok(): v.append(({"C13"}, "force-refused", "-force with %s at the output path: the run fails (`%s')" % (meta["what"], r.stderr[-160:].decode("latin1"))))
        elif clean.ok():
            d = diff_outputs(outputs(clean, outs), outputs(r, outs))
            if d: v.append(({"C13", "C11"}, "force-output", "-force with %s at the output path: %s" % (meta["what"], d)))
    for e in plan["events"]:        # created by someone else while we ran: without -force it has to survive
        if e["type"] and not v:
            a = r.nodes.get(e["path"]); tgt = e["data"] if e["type"] == "link" else None
            if r.steps < e["step"]: continue
            if not force and a is not None and e.get("late"): continue
            intact = a is not None and a[0] == e["type"] and (e["type"] == "dir" or a[3] == e["data"].encode("latin1"))
            if not force and not intact: v.append(({"C13"}, "race-harmed", "%s appeared as a %s while the program ran (before it was opened) and was overwritten without -force" % (e["path"], e["type"])))
    return v, sig("exist", r), [r], fl + [meta["what"].split(" ")[0]]


def judge_dump(host, base, delta, meta):
    """dump the templates, then generate from them"""
    d = run(host, base); v = orderly(d)
    if not d.ok() and not meta.get("stale") and d.how == "exit": v.append(({"C17"}, "dump-refused", "dumping the templates into a new directory fails without any fault: " + d.stderr[-150:].decode("latin1")))
    if not d.ok(): return v, sig("dump", d), [d], []
    files = {p[len(meta["ddir"]) + 1:]: n[3] for p, n in d.nodes.items() if p.startswith(meta["ddir"] + "/") and n[0] == "file"}
    for n in work.TEMPLATE_FILES:
        if n not in files: v.append(({"C17"}, "dump-missing", "a successful dump has no " + n)); return v, sig("dump", d), [d], []
    if meta.get("source"):   # the templates of the source tree are what is built in
        for n in work.TEMPLATE_FILES:
            if files[n].decode("latin1") != meta["source"][n]: v.append(({"C17"}, "dump-not-source", "%s was dumped with %d bytes, other than the source template's %d: %s" % (n, len(files[n]), len(meta["source"][n]), diff_outputs({n: meta["source"][n].encode("latin1")}, {n: files[n]}))))
            files[n] = meta["source"][n].encode("latin1")
    g = Plan(meta["gen"]); a = run(host, g)
    nodes = [["file", 0o644, posixpath.join(meta["tdir"], n), files[n].decode("latin1") + meta["edits"].get(n, "")] for n in work.TEMPLATE_FILES]
    b = run(host, apply(g, dict({"add_nodes": nodes, "add_args": ["-templates-path=" + meta["tdir_arg"]]}, **delta), meta)); v += orderly(a) + orderly(b)
    if a.how == b.how == "exit":
        if a.code != b.code: v.append(({"C17"}, "dump-status", "exit status %d with the built-in templates, %d with the dumped ones: %s" % (a.code, b.code, b.stderr[-150:].decode("latin1"))))
        elif a.ok():
            x, y = outputs(a, meta["outs"]), outputs(b, meta["outs"])
            if meta["edits"]:
                for n in meta["used"]:
                    mark = meta["edits"][n].strip().encode("latin1"); seen = sum(t.count(mark) for t in y.values()); want = 2 if n == "license.h" and meta["two"] else 1
                    if seen != want: v.append(({"C17"}, "template-ignored", "%s of the given template directory was used %d times instead of %d" % (n, seen, want))); break
                y = {k: b"".join(l for l in t.splitlines(True) if not l.startswith(b"/* edited ")) for k, t in y.items()}
            if meta["line"]: x = {k: t.replace(b'#line 1 "<built-in>/', b'#line 1 "') for k, t in x.items()}
            if meta["line"] and meta["edits"]: x = {k: re.sub(rb"(?m)^#line .*\n", b"", t) for k, t in x.items()}; y = {k: re.sub(rb"(?m)^#line .*\n", b"", t) for k, t in y.items()}
            df = diff_outputs(x, y)
            if df: v.append(({"C17"}, "dump-differs", "generating from the dumped templates: " + df))
    return v, sig("dump", a, b), [d, a, b], ["short-read"] if b.shorts else []


def judge_pair(host, base, delta, meta):
    """two runs at the same time on the same file system"""
    pa, pb = apply(base, delta, meta), Plan(meta["other"]); pb["nodes"] = []; oa, ob = meta["outs"], meta["outs2"]; alone = []
    for p, fl in ((pa, delta.get("faults")), (pb, pb["faults"])):
        q = p.copy(); q["nodes"] = pa["nodes"]; q["faults"] = []; alone.append(run(host, q))
    a, b = host.run2(pa, pb, meta["sched"])
    for r in (a, b):
        if r.unknown or r.how in ("oob", "none"): raise Skip("not simulated: system call %d, %s" % (r.unknown, r.note))
    v = []; fl = fired(pa, a) + fired(pb, b); before = initial(pa); end = a.nodes; faulty = bool(fl)
    for n, r, p in ((1, a, pa), (2, b, pb)): v += [(ps | {"C22"}, k, t) for ps, k, t in orderly(r, "run %d of two at the same time: " % n) + silent(r, p)]
    o = outside(before, end, set(oa) | set(ob))
    if o: v.append(({"C22", "C13"}, "pair-outside", "two runs at the same time: " + o[0]))
    force = ["-force" in p["args"] for p in (pa, pb)]; outs = (oa, ob); shared = set(oa) & set(ob); rs = (a, b); dump = meta["mode"].startswith("dump")
    want = [outputs(x, y) for x, y in zip(alone, outs)]; have = {p: nodate(n[3])[0] for p, n in end.items() if n[0] == "file"}
    for n in (0, 1):
        r, ref = rs[n], alone[n]; who = "run %d of two at the same time (%s): " % (n + 1, meta["what"])
        if r.ok() and not ref.ok(): v.append(({"C22"}, "pair-false-success", who + "success is reported, alone it ends with " + ref.brief())); continue
        if r.ok() and nodate(r.stdout)[0] != want[n]["<stdout>"]: v.append(({"C22"}, "pair-stdout", who + "standard output is not that of the run alone"))
        if not r.ok() and ref.ok() and (not shared or dump) and not (pa, pb)[n]["faults"]: v.append(({"C22"}, "pair-disturbed", who + "%s: %s; alone it succeeds" % (r.brief(), r.stderr[-150:].decode("latin1"))))
        if r.ok() and (not shared or dump or not any(force)):
            for p in outs[n]:
                if p in want[n] and have.get(p) != want[n][p]: v.append(({"C22"}, "pair-output", who + "success is reported but %s" % diff_outputs({p: want[n][p]}, {p: have[p]} if p in have else {}))); break
    if shared and not dump and alone[0].ok() and alone[1].ok() and not faulty:
        if not a.ok() and not b.ok(): v.append(({"C22"}, "pair-nobody", "two runs at the same time (%s) both fail: %s / %s" % (meta["what"], a.stderr[-120:].decode("latin1"), b.stderr[-120:].decode("latin1"))))
        if a.ok() and b.ok() and not any(force): v.append(({"C22", "C13"}, "pair-both", "two runs at the same time (%s), no -force, both report success for %s" % (meta["what"], sorted(shared)[0])))
        if any(force):
            for p in sorted(set(oa) | set(ob)):
                may = [w[p] for w in want if p in w]; must = any(r.ok() and p in w for r, w in zip(rs, want))
                if (p in have and may and have[p] not in may) or (must and p not in have): v.append(({"C22"}, "pair-mixed", "two runs at the same time (%s) with -force: %s %s" % (meta["what"], p, "is not the complete output of either" if p in have else "is missing"))); break
    return v, sig("pair", a, b), alone + [a, b], fl + ["preempted"] * bool(a.sched)


# ---------------------------------------------------------------- making scenarios
def pick_faults(r, ref, allowed, n=None):
    cand = [k for k in allowed if ref.count.get(k, 0) or r.random() < .05]
    if not cand: return []
    out = []
    for _ in range(n or r.choices([1, 2, 3], [75, 18, 7])[0]):
        k = r.choice(cand); cnt = max(1, ref.count.get(k, 0)); nth = r.randint(1, cnt + 1) if r.random() < .9 else r.choice([1, cnt])
        if k == "malloc" and r.random() < .5: nth = int(cnt ** r.random()) or 1
        e = r.choice(ERR[k])
        out.append({"cls": k, "nth": nth, "kind": "err", "errno": e, "sticky": 0 if e in ("EINTR", "EAGAIN") else r.choice([0, 1, 1, 2]) if k not in ("malloc", "bigmalloc", "mem") else r.choice([0, 0, 1, 2])})
    return out


def meta_of(c):
    a = lambda p: posixpath.normpath(p if p[0] == "/" else "/w/" + p)
    return {"mode": c.mode, "outs": c.outs, "input": c.input, "inpath": [n for n in c.plan["nodes"]][0][2], "tplpath": a(c.template) if c.template else None, "ast": c.inp["ast"]}


def packer_case(r, W):
    d = r.choice(["/src/templates", "t"]); base = d if d[0] == "/" else "/w/" + d
    nodes = [["dir", 0o755, "/w", ""], ["file", 0o644, "/w/keep", "precious\n"]]
    small = r.random() < .5
    for n in work.TEMPLATE_FILES:
        t = W["templates"][n]
        if small: t = "".join(t.splitlines(True)[:r.randint(0, 40)])
        if r.random() < .15: t = t.rstrip("\n")
        if r.random() < .1: t = t.replace("\n", "\r\n")
        nodes.append(["file", 0o644, posixpath.join(base, n), t])
    out = r.choice(["/o/data.cpp", "data.cpp"]); nodes.append(["dir", 0o755, "/o", ""])
    return new_plan(prog=1, args=["gen_templates_data", d, out], nodes=nodes), {"mode": "packer", "outs": [out if out[0] == "/" else "/w/" + out], "input": None, "inpath": base + "/c.h", "tplpath": None}


def sc_fault(r, W, host, classes, modes=None, long=.02):
    if r.random() < .12 and modes is None and not classes == ["stat"]:
        base, meta = packer_case(r, W)
    else:
        c = work.make_case(r, W["templates"], mode=modes and r.choice(modes), small=True, long=long); base, meta = c.plan, meta_of(c)
        if r.random() < .12: base["args"].insert(1, "-force")
        if r.random() < .1 and c.mode != "custom": base["stdin"] = ["pipe", base["nodes"][0][3]]; base["args"] = ["-" if a == c.input else a for a in base["args"]]
        if r.random() < .03: base["args"] = ["gendlopen", r.choice(["-help", "-full-help", "-version"])]; meta["mode"] = "help"; meta["outs"] = []
    ref = host.run(base); delta = {}
    x = r.random(); ws = "write" in classes
    if ws and x < .18: delta["knobs"] = {"disk": r.choice([1, 100, 4096, 8192]) if r.random() < .3 else r.randint(0, 90000)}
    elif ws and x < .26 and meta["mode"] != "packer" and ref.stdout and not meta["outs"]: delta["stdout"] = [r.choice(["full", "closed"]), ""]
    elif "openr" in classes and "openw" in classes and x < .30: delta["knobs"] = {"fdlimit": r.choice([3, 3, 4])}
    elif "malloc" in classes and x < .34: delta["knobs"] = {"memlimit": r.choice([64, 500, 1000, 4000, 9000, 20000, 40000, 80000])}
    else: delta["faults"] = pick_faults(r, ref, classes)
    if "faults" in delta and r.random() < .15 and ref.count["write"]: delta["faults"].append({"cls": "write", "nth": r.randint(1, ref.count["write"]), "kind": "short", "arg": r.choice([1, 7, 100, 4000]), "sticky": r.choice([0, 1])})
    if r.random() < .15: delta.setdefault("knobs", {})["chunk"] = [r.randint(1, 10 ** 6), r.choice([1, 3, 64, 1000])]
    return {"kind": "fault", "base": base, "delta": delta, "meta": meta}


def sc_c11(r, W, host):
    if r.random() < .08: return sc_stdout(r, W, host)
    return sc_fault(r, W, host, ["write", "write", "closew", "openw", "mkdir"] + (["malloc"] if r.random() < .25 else []) + (["unlink", "stat", "rename", "other"] if r.random() < .2 else []))


def sc_stdout(r, W, host):
    c = work.make_case(r, W["templates"], mode="gen", small=True); p = c.plan
    a = []; skip = False
    for x in p["args"]:
        if skip: skip = False; continue
        if x == "-out": skip = True; continue
        if x.startswith("-out=") or x == "-separate" or x.startswith("-prefix") or x == "-line": continue
        a.append(x)
    ef = c.eff
    name = "gdo.hpp" if ef in ("cxx", "minimal-cxx") else "gdo.h"
    p["args"] = a[:1] + ["-no-date"] + a[1:]; b = p.copy(); b["args"] = p["args"] + ["-out=" + name]; m = meta_of(c); m["outs"] = ["/w/" + name]
    return {"kind": "stdout", "base": b, "delta": {"del_args": ["-out=" + name]}, "meta": m}


def sc_c12(r, W, host):
    x = r.random()
    if x < .45:
        if r.random() < .12: base, meta = packer_case(r, W); c = None
        else: c = work.make_case(r, W["templates"], mode=r.choice(["gen", "custom", "tpath", "print", "tpath"]), small=True); base, meta = c.plan, meta_of(c)
        delta = {"knobs": {"chunk": [r.randint(1, 10 ** 6), r.choice([1, 2, 5, 16, 100, 1000, 4096])]}} if r.random() < .75 else {}
        if c and r.random() < .6: delta["via"] = r.choice(["pipe", "pipe", "file", "fifo", "tty", "offset"])
        elif c and c.mode == "custom" and "-line" not in base["args"] and "line" not in c.inp["opts"] and r.random() < .7: delta["tvia"] = r.choice(["pipe", "file", "tty", "offset"])
        if r.random() < .3: delta["faults"] = [{"cls": "read", "nth": r.randint(1, 12), "kind": "short", "arg": r.choice([1, 2, 100]), "sticky": r.choice([0, 2])}]
        elif r.random() < .12: delta["faults"] = [{"cls": "read", "nth": r.randint(1, 6), "kind": "err", "errno": r.choice(["EINTR", "EAGAIN"]), "sticky": 0}]
        return {"kind": "delivery", "base": base, "delta": delta, "meta": meta}
    if x < .88:
        return sc_fault(r, W, host, ["read", "read", "read", "openr"] + (["fstat"] if r.random() < .3 else []), modes=None if r.random() < .3 else ["gen", "custom", "tpath", "tpath", "print"])
    # something that cannot be read
    c = work.make_case(r, W["templates"], mode=r.choice(["custom", "tpath", "gen", "print"]), small=True); meta = meta_of(c); k = r.choice(["dir", "unreadable", "missing", "stdin-closed", "stdin-dir"])
    victim = meta["inpath"]
    if c.mode == "custom" and r.random() < .7: victim = meta["tplpath"]
    if c.mode == "tpath" and r.random() < .8:
        n = r.choice(["license.h", "filename_macros.h"] + work.USED[c.eff])
        td = c.tdir if c.tdir[0] == "/" else "/w/" + c.tdir; victim = posixpath.normpath(posixpath.join(td, n))
    meta.update(props=["C12", "C14"], why="%s: %s" % (victim, k))
    if k == "dir": d = {"set_nodes": [["dir", 0o755, victim, ""]]}
    elif k == "unreadable": d = {"set_nodes": [["file", 0o200, victim, [n for n in c.plan["nodes"] if posixpath.normpath(n[2]) == victim][0][3]]]}
    elif k == "missing": c.plan["nodes"] = [n for n in c.plan["nodes"] if posixpath.normpath(n[2]) != victim]; d = {}
    else: meta["why"] = "standard input cannot be read"; d = {"via": "closed"}
    if k == "stdin-dir": return sc_c12(r, W, host)
    for n in c.plan["nodes"]: n[2] = posixpath.normpath(n[2])
    return {"kind": "must_fail", "base": c.plan, "delta": d, "meta": meta}


THINGS = ["file", "link-to-file", "dangling-link", "dir-empty", "dir-full", "fifo", "hardlink", "readonly-file", "null", "full", "link-to-dir", "empty-file", "link-loop"]
def thing(k, p):
    if k == "file": return [["file", 0o644, p, "old contents of %s\n" % p * 50]]
    if k == "empty-file": return [["file", 0o644, p, ""]]
    if k == "readonly-file": return [["file", 0o444, p, "old contents\n"]]
    if k == "link-to-file": return [["file", 0o644, "/home/u/target", "the target\n" * 30], ["link", 0o777, p, "/home/u/target"]]
    if k == "dangling-link": return [["dir", 0o755, "/home/u", ""], ["link", 0o777, p, "/home/u/not-there"]]
    if k == "link-to-dir": return [["dir", 0o755, "/home/u/dd", ""], ["link", 0o777, p, "/home/u/dd"]]
    if k == "link-loop": return [["link", 0o777, p, p]]
    if k == "dir-empty": return [["dir", 0o755, p, ""]]
    if k == "dir-full": return [["file", 0o644, p + "/inner", "inner\n"]]
    if k == "hardlink": return [["file", 0o644, "/home/u/original", "shared contents\n" * 20], ["hard", 0o644, p, "/home/u/original"]]
    return [[k, 0o666, p, ""]]


def sc_c13(r, W, host):
    x = r.random()
    if x < .12: return sc_fault(r, W, host, ["write", "closew", "openw", "unlink", "stat", "malloc", "read", "openr", "mkdir"])
    c = work.make_case(r, W["templates"], mode=r.choice(["gen", "gen", "gen", "custom", "tpath"]), small=True)
    while not c.outs: c = work.make_case(r, W["templates"], mode=r.choice(["gen", "gen", "gen", "custom", "tpath"]), small=True)
    meta = meta_of(c); base = c.plan; ref = base.copy(); force = r.random() < .5
    if force: base["args"].insert(1, "-force"); ref["args"].insert(1, "-force")
    if x < .30:                                     # a race: it appears while the program runs
        q = host.run(base)
        if not q.ok(): return sc_c13(r, W, host)
        log = host.run(base, log=True).log; p = r.choice(c.outs); pos = []
        # the number of the step that opens each output file for writing
        for i, (nr, ino, ret) in enumerate(log):
            if nr in (257, 2, 85) and ret >= 0: pos.append(i + 1)
        opens = {}
        ino = q.nodes[p][2] if p in q.nodes else None
        first = next((i + 1 for i, (nr, n, ret) in enumerate(log) if n == ino and nr in (1, 20, 3, 18)), None)
        if ino is None or first is None: return sc_c13(r, W, host)
        opn = max([s for s in pos if s < first], default=None)
        if opn is None: return sc_c13(r, W, host)
        t = r.choice(["file", "link", "link"]); step = opn if r.random() < .6 else r.randint(1, opn)
        data = "someone else's data\n" if t == "file" else r.choice(["/home/u/target", "/home/u/nothing"])
        ev = [{"step": step, "type": t, "path": p, "data": data}]
        meta.update(what="race: a %s appearing at step %d" % (t, step))
        nodes = [["file", 0o644, "/home/u/target", "the target\n" * 30]]
        return {"kind": "exist", "base": base, "delta": {"events": ev, "add_nodes": nodes}, "meta": meta}
    add = []; what = []
    targets = [r.choice(c.outs)] if r.random() < .8 else list(c.outs)
    for p in targets:
        k = r.choice(THINGS); what.append(k); add += thing(k, p)
    meta.update(what=" + ".join(what)); delta = {"add_nodes": add}
    if force and not any(k in ("dir-full", "dir-empty") for k in what): meta["ref"] = ref
    if r.random() < .35:
        q = host.run(apply(base, delta, meta)); delta["faults"] = pick_faults(r, q, ["stat", "stat", "unlink", "openw", "write", "closew", "openr", "read", "malloc"])
    return {"kind": "exist", "base": base, "delta": delta, "meta": meta}


def sc_c14(r, W, host):
    x = r.random()
    if x < .12:     # damaged input
        c = work.make_case(r, W["templates"], small=True); n = c.plan["nodes"][0]; t = list(n[3])
        for _ in range(r.choice([1, 2, 5, 30])):
            if not t: break
            i = r.randrange(len(t)); k = r.random()
            if k < .4: t[i] = chr(r.choice([0, 9, 10, 13, 27, 32, 37, 39, 40, 41, 42, 44, 59, 64, 91, 92, 93, 123, 125, 128, 255]))
            elif k < .7: del t[i:i + r.choice([1, 1, 3, 40])]
            else: t[i:i] = t[i:i + r.choice([1, 4, 30])]
        n[3] = "".join(t); m = meta_of(c); q = host.run(c.plan)
        return {"kind": "fault", "base": c.plan, "delta": {"faults": pick_faults(r, q, ["malloc", "write", "read", "openw"])} if r.random() < .3 else {}, "meta": m}
    if x < .5: return sc_fault(r, W, host, ["malloc", "malloc", "bigmalloc", "mem"], long=.2)
    return sc_fault(r, W, host, ["openr", "openw", "read", "write", "closer", "closew", "lseek", "fstat", "stat", "unlink", "mkdir", "malloc", "rename", "other", "cwd", "write2"] if 0 else ["openr", "openw", "read", "write", "closer", "closew", "fstat", "stat", "unlink", "mkdir", "malloc", "rename", "other", "cwd", "write2"])


VALUES = ["1", "yes", "0", "no", "C", "/w", "x y", "", "10", "dumb", "en_US.UTF-8"]
def probe(r, host, base, d, meta):
    """what the program looked for in its surroundings and did not find is there in the other world"""
    q = host.run(base)
    if not q.ok(): return
    names = [a[1:] for a in q.asked if a[0] == "E"]; n = [x for x in names if x != "TZ" and not x.startswith("LC_") and x not in ("LANG", "LANGUAGE", "TZDIR")]
    if n: d["env"] = list(d.get("env", base["env"])) + [x + "=" + r.choice(VALUES) for x in n if r.random() < .8]
    paths = [posixpath.normpath(a[1:] if a[1] == "/" else base["cwd"] + "/" + a[1:]) for a in q.asked if a[0] == "P" and len(a) > 1]
    paths = [p for p in paths if p not in meta["outs"] and not any(o.startswith(p + "/") for o in meta["outs"]) and not p.startswith(("/etc/localtime", "/usr/share/", "/usr/lib"))]
    if paths: d["add_nodes"] = d.get("add_nodes", []) + [["file", r.choice([0o644, 0o600]), p, r.choice(["x\n", "", "1\n", "-prefix=zz\n", "prefix=zz\n", "%option prefix=zz\n"])] if r.random() < .8 else ["dir", 0o755, p, ""] for p in paths if r.random() < .8]


def sc_c15(r, W, host):
    c = work.make_case(r, W["templates"], mode=r.choice(["gen", "gen", "gen", "tpath", "custom", "print", "dump"] if r.random() < .5 else ["gen"]), small=True); base = c.plan; meta = meta_of(c); nd = "-no-date" in base["args"]
    optnd = "no-date" in c.inp["opts"] and not c.inp["ast"] and "-ignore-options" not in base["args"]
    meta["nodate"] = nd or optnd; meta["dated"] = (not meta["nodate"]) if c.mode in ("gen", "tpath") else None
    d = {"knobs": {}}
    if r.random() < .7: d["env"] = list(r.choice(work.ENVS))
    if r.random() < .8: d["knobs"]["clock"] = [r.choice([0, 1, 951782400, 1711846799, 1729990800, 4102444799, 2 ** 31 - 1, 2 ** 31, 5000000000, -1, -2524521600, 253402300799, 253402300800, 2 ** 40, 67767000000000000, 67768100000000000, 2 ** 57, 2 ** 62]) if r.random() < .4 else r.randint(0, 4 * 10 ** 9), r.randint(0, 999999999), r.choice([0, 0, 1000, 10 ** 6, 200 * 10 ** 6])]
    if r.random() < .2: d["knobs"]["jump"] = [r.randint(1, 3), r.choice([-1, -100000, 1, 3600, 86400 * 400])]
    if r.random() < .7: d["knobs"]["poison"] = [r.choice([0, 1, 0x41, 0x7f, 0x80, 0xff, 0x25, 0x0a]), r.choice([0, 0xff, 0x41, 0x0a])]
    if r.random() < .3: d["knobs"]["extrafds"] = r.choice([1, 3, 20, 40])
    if r.random() < .3: d["add_nodes"] = [["file", 0o644, p, "x\n" * r.randint(0, 300)] for p in r.sample(["/w/.gendlopen", "/home/u/.gendlopenrc", "/w/gdo.h.tmp", "/w/core", "/tmp/gdo", "/w/zzz", "/etc/passwd", "/w/common.h", "/w/c.h", "/w/license.h"], 3)]
    if r.random() < .2: d["knobs"]["chunk"] = [r.randint(1, 9999), r.choice([1, 100])]
    if r.random() < .2: base["knobs"]["poison"] = [r.choice([0, 0xaa]), 0x55]
    if r.random() < .15: base["args"][0] = r.choice(["/usr/bin/gendlopen", "./gendlopen", "x"])
    if r.random() < .2: d["stdin"] = [r.choice(["closed", "null", "pipe", "tty"]), ""]
    if r.random() < .1 and c.mode in ("gen", "custom", "tpath"): d["stdout"] = ["tty", ""]
    r2 = random.Random(r.randint(0, 2 ** 60))
    if r2.random() < .6: d["knobs"]["ident"] = [r2.randint(1, 10 ** 6), r2.choice([0, 1, 2, 2, 2])]
    if r2.random() < .3: probe(r2, host, base, d, meta)
    if r2.random() < .25: base["knobs"]["ident"] = [r2.randint(1, 10 ** 6), r2.choice([0, 1, 2])]
    return {"kind": "env", "base": base, "delta": d, "meta": meta}


def sc_c16(r, W, host):
    if r.random() < .1: base, meta = packer_case(r, W)
    else:
        c = work.make_case(r, W["templates"], small=True); base, meta = c.plan, meta_of(c)
        if not c.outs: return sc_c16(r, W, host)
        if r.random() < .4:
            base["args"].insert(1, "-force")
            if c.mode != "dump" and r.random() < .7: base["nodes"] += thing(r.choice(["file", "link-to-file", "dangling-link", "hardlink", "readonly-file", "empty-file"]), r.choice(c.outs))
    q = host.run(base)
    if not q.ok(): raise Skip("not a successful run")
    if r.random() < .6 and q.count["write"]: f = {"cls": "write", "nth": r.randint(1, q.count["write"]), "kind": r.choice(["kill-before", "kill-mid", "kill-after"])}
    else: f = {"cls": "any", "nth": r.randint(1, q.steps), "kind": r.choice(["kill-before", "kill-after", "kill-mid"])}
    f["sticky"] = 0
    return {"kind": "crash", "base": base, "delta": {"faults": [f]}, "meta": meta}


def sc_c17(r, W, host):
    x = r.random()
    if x < .3: return sc_fault(r, W, host, ["write", "write", "openw", "closew", "mkdir", "stat", "malloc"], modes=["dump"])
    c = work.make_case(r, W["templates"], mode="gen", small=True); g = c.plan; meta = meta_of(c)
    ef = c.eff
    d = r.choice(["/dump", "dd", "/o/x/y"]); dd = d if d[0] == "/" else "/w/" + d; t = r.choice(["/t", "tp", "/t/"])
    base = new_plan(args=["gendlopen", "-dump-templates=" + d], nodes=[["dir", 0o755, "/w", ""]])
    edits = {n: "/* edited %s %d */\n" % (n, r.randint(0, 99)) for n in work.TEMPLATE_FILES} if r.random() < .3 else {}
    pfx = any(a.startswith("-prefix") for a in g["args"])
    if pfx: edits = {}
    sep = c.sep and c.out and c.out != "-" and not ef.startswith("minimal")
    meta.update(ddir=dd, gen=g, tdir=posixpath.normpath(t if t[0] == "/" else "/w/" + t), tdir_arg=t, edits=edits, used=["license.h", "filename_macros.h"] + work.USED[ef], two=bool(sep), line="-line" in g["args"] or ("line" in c.inp["opts"] and not c.inp["ast"] and "-ignore-options" not in g["args"]))
    delta = {"knobs": {"chunk": [r.randint(1, 9999), r.choice([1, 50, 1000])]}} if r.random() < .3 else {}
    if r.random() < .2: meta["source"] = dict(W["templates"])
    if r.random() < .3:     # an earlier version was dumped there
        t = W["templates"]; names = r.sample(work.TEMPLATE_FILES, r.choice([1, 3, len(work.TEMPLATE_FILES)])); k = r.random()
        stale = lambda n: t[n] + "/* old tail */\n" * 40 if k < .3 else t[n][:len(t[n]) // 2] if k < .5 else "" if k < .6 else t[n].replace("e", "E") if k < .8 else "/* old version of %s */\n" % n
        meta["stale"] = True; base["nodes"] += [["file", r.choice([0o644, 0o600]), posixpath.normpath(dd) + "/" + n, stale(n)] for n in names]; meta["source"] = dict(t)
    return {"kind": "dump", "base": base, "delta": delta, "meta": meta}


def sc_c22(r, W, host):
    """two generators at once: the same command twice, two commands for one output, or two that only share the directory"""
    if r.random() < .08: c = work.make_case(r, W["templates"], mode="dump", small=True)
    else:
        c = work.make_case(r, W["templates"], mode=r.choice(["gen"] * 8 + ["custom"] * 3 + ["tpath"] * 3 + ["print"]), small=True, long=0)
    meta = meta_of(c); a = c.plan; b = a.copy(); outs2 = list(c.outs); k = r.random()
    what = "the same command twice"
    if c.mode not in ("dump", "print") and k > .3:
        inp2 = work.make_input(r, 0)
        if inp2["ast"] == c.inp["ast"]:
            a["nodes"].append(["file", 0o644, "/w/second.txt", inp2["text"]]); b["args"] = ["second.txt" if x == c.input else x for x in b["args"] if not x.startswith(("-S", "-P"))]; what = "two inputs"
            if not inp2["ast"]: b["args"].append("-ignore-options")
            elif "-ast-all-symbols" not in b["args"]: b["args"].append("-ast-all-symbols")
            if r.random() < .5: b["args"].append(r.choice(["-no-date", "-DSECOND=2", "-no-pragma-once", "-line"]))
        ef2 = work.canon_format(c.fmt) if inp2["ast"] == c.inp["ast"] else c.eff
        if c.outs:
            full = lambda o: posixpath.normpath(o if o[0] == "/" else "/w/" + o)
            out2, sep2 = c.out, c.sep
            if k > .7:
                d, base = os.path.split(c.out); out2 = posixpath.join(d, r.choice(["two.h", "b_" + base, base + "2.x", "a.h"])); what += ", different outputs"
                if not c.sep: what += " in one directory"
            elif r.random() < .3: sep2 = not sep2
            b["args"] = [x for x in b["args"] if x != "-separate"] + (["-separate"] if sep2 else []); b["args"] = ["-out=" + out2 if x == "-out=" + c.out else out2 if (i and b["args"][i - 1] == "-out") else x for i, x in enumerate(b["args"])]
            outs2 = [full(out2)]
            if sep2 and c.mode != "custom" and not ef2.startswith("minimal"): outs2 = [work.lock_ext(full(out2), e) for e in (("hpp", "cpp") if ef2 == "cxx" else ("h", "c"))]
            if set(outs2) & set(c.outs): what = what.split(", ")[0]
    x = r.random()
    if c.mode not in ("dump", "print"):
        if x < .3: a["args"].insert(1, "-force"); b["args"].insert(1, "-force"); what += ", both with -force"
        elif x < .38: r.choice([a, b])["args"].insert(1, "-force"); what += ", one with -force"
        if x < .38 and c.outs and r.random() < .3 and "-force" in a["args"] and "-force" in b["args"]: a["nodes"] += thing(r.choice(["file", "link-to-file", "dangling-link", "hardlink", "readonly-file", "empty-file"]), r.choice(c.outs))
    delta = {}
    for p in (a, b):
        if r.random() < .25: p["knobs"]["chunk"] = [r.randint(1, 10 ** 6), r.choice([5, 100, 1000, 4096])]
        if r.random() < .2: p["knobs"]["ident"] = [r.randint(1, 10 ** 6), 0]
    b["nodes"] = []; qa = host.run(a); qb = b.copy(); qb["nodes"] = a["nodes"]; qb = host.run(qb)
    if "force" not in what and c.mode != "dump" and r.random() < .35:      # one of them is killed or meets errors; the other must not notice
        p, q = r.choice([(a, qa), (b, qb)])
        p["faults"] = pick_faults(r, q, ["write", "closew", "openw", "read", "malloc", "stat", "unlink"]) if r.random() < .5 else [{"cls": "any", "nth": r.randint(1, q.steps), "kind": r.choice(["kill-before", "kill-after", "kill-mid"]), "sticky": 0}]
    tot = qa.steps + qb.steps; sched = {"first": r.randint(0, 1)}
    if r.random() < .45: sched["odds"] = [r.choice([1, 2, 2, 3, 5, 10, 30]), r.randint(1, 10 ** 6)]
    else: sched["at"] = sorted(r.randint(1, tot) for _ in range(r.choice([1, 1, 2, 2, 3, 4])))
    meta["mode"] += ": " + what if c.mode != "dump" else ""; meta.update(other=b, outs2=outs2, what=what, sched=sched)
    return {"kind": "pair", "base": a, "delta": delta, "meta": meta}


MAKERS = {"C22": sc_c22, "C11": sc_c11, "C12": sc_c12, "C13": sc_c13, "C14": sc_c14, "C15": sc_c15, "C16": sc_c16, "C17": sc_c17}
