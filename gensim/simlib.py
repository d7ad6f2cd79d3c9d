"""Driver for the simulated operating system (host.cpp): building it from /repo's working tree, plans, results."""
import os, sys, subprocess, errno, signal, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common as c

HERE = os.path.dirname(os.path.abspath(__file__))
TYPES = {"file": 1, "dir": 2, "link": 3, "fifo": 4, "null": 5, "full": 6, "hard": 100}
CLS = ["openr", "openw", "read", "write", "write2", "closer", "closew", "lseek", "fstat", "stat", "unlink", "mkdir", "rename", "cwd", "other", "malloc", "bigmalloc", "mem", "any"]
KIND = {"err": 0, "short": 1, "kill-before": 2, "kill-mid": 3, "kill-after": 4}
STDK = {"pipe": 0, "file": 1, "closed": 2, "full": 3, "null": 4, "tty": 5, "offset": 1}
BEFORE = b"int read_by_someone_else(int a);\n%option format=minimal\n"     # "offset": standard input is a file that was read up to here


def build_host(d, opt="-O1"):
    """all of src/ (the code under test) + the template packer + the simulated system in one program"""
    t = c.templates_cpp(d); s = os.path.join(d, "src")
    special = {"templates_data.cpp": ["-O0"], "main.cpp": ["-Dmain=gendlopen_main"]}
    jobs = []
    po, ho = os.path.join(d, "packer.o"), os.path.join(d, "host.o")
    jobs.append(lambda: c.sh(["gcc", "-w", "-O1", "-Dmain=packer_main", "-c", os.path.join(s, "gen_templates_data.c"), "-o", po]))
    jobs.append(lambda: c.sh(["g++", "-std=gnu++20", "-O2", "-w", "-fno-builtin-malloc", "-c", os.path.join(HERE, "host.cpp"), "-o", ho]))
    objs = []
    jobs.append(lambda: objs.extend(c.compile_objs(c.gen_sources(d) + [t], os.path.join(d, "simobj"), [opt, "-I" + s], special)))
    c.parallel(jobs)
    b = os.path.join(d, "host")
    c.sh(["g++", "-no-pie", "-Wl,-z,now"] + objs + [po, ho, "-o", b])
    return b


ODD = ['"', "\\", '\\"', "a\tb\t", "%", "%%", "100% \"sure\"", "@", "@@", "x@y", " @ ", "??/", "*/ /*", "\\n\\x41", "\\0", "\xc3\xa9a0", "\xe2\x82\xac5 \xff", "\x01f", "\x7f0", "#line 7 \"x\"", "R\"(", "''", "", " ", "\t", "// end\\", "%%symbol%%", "/* %%type%% %%symbol%% */", "GDO_X gdo_y %d", "{}", "@a", "l" * 3000, "\"" * 300]
def mutate(r, t):
    """another version of a template: lines removed, doubled, moved, odd text added, lines continued with @"""
    l = t.split("\n")[:-1]
    for _ in range(r.choice([3, 10, 40])):
        k = r.random(); i = r.randrange(len(l)) if l else 0
        if k < .2 and len(l) > 3: del l[i]
        elif k < .3 and l: l.insert(i, l[r.randrange(len(l))])
        elif k < .6: l.insert(i, r.choice(ODD))
        elif k < .8 and l: c = r.randrange(len(l[i]) + 1); l[i] = l[i][:c] + r.choice(ODD) + l[i][c:]
        elif k < .9: l.insert(i, "".join(chr(r.choice([9, 34, 37, 64, 92, 39, 63] + list(range(32, 127)) + [128, 200, 255])) for _ in range(r.randint(1, 60))))
        elif l: l[i] += "@"
    l = ["int first;"] + l + ["int last;"]
    return "\n".join(l) + "\n"


def variant(binary, mode, n):
    """the program built with other templates, mutated by seed n: its simulator and its templates"""
    import random
    d = os.path.dirname(binary); v = os.path.join(d, "variant%d" % n); s = os.path.join(d, "src"); td = os.path.join(v, "t"); os.makedirs(td, exist_ok=True); r = random.Random(n); t = {}
    for f in sorted(os.listdir(os.path.join(s, "templates"))):
        x = open(os.path.join(s, "templates", f), encoding="latin1", newline="").read()
        if not f.startswith("."): t[f] = mutate(r, x) if r.random() < .8 else x
    for f, x in t.items():      # some with other line ends, or none at the end of the file; the program has them in its own way
        k = r.random(); x = x.replace("\n", "\r\n") if k < .15 else x
        open(os.path.join(td, f), "w", encoding="latin1", newline="").write(x.removesuffix("\n").removesuffix("\r") if (k < .05 or k > .85) and x.rstrip("\r\n")[-1:] != "@" and not x.endswith(("\n\n", "\n\r\n")) else x)
    b = os.path.join(v, "host")
    if not os.path.exists(b):
        p = os.path.join(v, "templates_data.cpp"); c.sh([os.path.join(d, "gtd"), td, p]); c.sh(["g++", "-std=gnu++23", "-w", "-O0", "-I" + s, "-c", p, "-o", p + ".o"])
        objs = [os.path.join(d, "simobj", f) for f in sorted(os.listdir(os.path.join(d, "simobj"))) if f.endswith(".o") and f != "templates_data.cpp.o"]
        c.sh(["g++", "-no-pie", "-Wl,-z,now"] + objs + [p + ".o", os.path.join(d, "packer.o"), os.path.join(d, "host.o"), "-o", b])
    return b, t


class Result:
    __slots__ = ("how", "code", "steps", "hash", "t0", "t1", "unknown", "shorts", "simus", "note", "count", "fired", "times", "stdout", "stderr", "nodes", "log", "sched", "asked", "raw")
    def ok(self): return self.how == "exit" and self.code == 0
    def brief(self): return "%s %d%s" % (self.how, self.code, (" (" + self.note + ")") if self.note else "")
    def date_free(self): return None


class Plan(dict):
    """one run: prog, args, env, nodes (only if fresh), stdin, stdout, stderr, cwd, faults, events and knobs"""
    def copy(self): return Plan(copy.deepcopy(dict(self)))


def new_plan(**kw):
    p = Plan(prog=0, args=["gendlopen"], env=[], nodes=[], stdin=["pipe", ""], stdout=["pipe", ""], stderr="pipe", cwd="/w", faults=[], events=[], knobs={})
    p.update(kw); return p


def enc(plan, fresh=True, log=False, slot=0, go=True):
    o = []
    def line(*a): o.append((" ".join(str(x) for x in a) + "\n").encode())
    def bl(*bs):
        for b in bs: o.append(b if isinstance(b, bytes) else b.encode("latin1"))
    def B(x): return x if isinstance(x, bytes) else x.encode("latin1")
    if fresh:
        line("fs")
    line("plan", slot)
    if fresh:
        for t, mode, path, data in plan["nodes"]:
            p, dd = B(path), B(data); line("node", TYPES[t], mode, len(p), len(dd)); bl(p, dd)
    line("prog", plan["prog"])
    for a in plan["args"]: a = B(a); line("arg", len(a)); bl(a)
    for a in plan["env"]: a = B(a); line("env", len(a)); bl(a)
    k = plan["stdin"][0]; off = len(BEFORE) if k == "offset" else 0; d = BEFORE[:off] + B(plan["stdin"][1]); line("stdin", STDK[k], len(d), off); bl(d)
    d = B(plan["stdout"][1]); line("stdout", STDK[plan["stdout"][0]], len(d)); bl(d)
    line("stderr", STDK[plan["stderr"]])
    d = B(plan["cwd"]); line("cwd", len(d)); bl(d)
    for f in plan["faults"]:
        line("fault", CLS.index(f["cls"]), f["nth"], KIND[f["kind"]], getattr(errno, f["errno"]) if f.get("errno") else 0, f.get("sticky", 0), f.get("arg", 0))
    for e in plan["events"]:
        p, dd = B(e["path"]), B(e["data"]); line("event", e["step"], TYPES[e["type"]] if e["type"] else 0, len(p), len(dd)); bl(p, dd)
    for k, v in plan["knobs"].items():
        line(k, *(v if isinstance(v, (list, tuple)) else [v]))
    if log: line("log", 1)
    if go: line("run")
    return b"".join(o)


class Host:
    def __init__(self, binary, mode=None):
        self.bin = binary; self.mode = mode; self.p = None; self.start()
    def start(self):
        self.p = subprocess.Popen([self.bin] + ([self.mode] if self.mode else []), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=c.CLEAN_ENV, bufsize=1 << 20)
    def close(self):
        try: self.p.stdin.close(); self.p.wait(5)
        except Exception: self.p.kill()
    def run(self, plan, fresh=True, log=False):
        f = self.p.stdin; f.write(enc(plan, fresh, log)); f.flush()
        return self.answer()
    def run2(self, a, b, sched, log=False):
        """two processes on the file system of the first plan; sched: {"first": 0 or 1, "odds": [n, seed] or "at": [steps at which the turn changes hands]}"""
        t = ["noswitch"] + ["switch %d" % n for n in sched.get("at", [])] + (["odds %d %d" % tuple(sched["odds"])] if "odds" in sched else []) + ["run2 %d" % sched.get("first", 0)]
        f = self.p.stdin; f.write(enc(a, True, log, 0, False) + enc(b, False, log, 1, False) + ("\n".join(t) + "\n").encode()); f.flush()
        x = self.answer(); y = self.answer(); x.nodes = y.nodes; return x, y
    def answer(self):
        r = Result(); o = self.p.stdout
        def ln():
            s = o.readline()
            if not s.endswith(b"\n"): raise RuntimeError("simulator died")
            return s[:-1].decode("latin1")
        w = ln().split()
        if w[0] != "res": raise RuntimeError("simulator protocol: %r" % w)
        r.how, r.code, r.steps, r.hash, r.t0, r.t1, r.unknown, r.shorts, r.simus = w[1], int(w[2]), int(w[3]), w[4], int(w[5]), int(w[6]), int(w[7]), int(w[8]), int(w[9])
        r.note = ln()[5:]; r.count = {k: int(v) for k, v in (x.split("=") for x in ln().split()[1:])}
        r.fired = [int(x) for x in ln().split()[1:]]; r.times = [int(x) for x in ln().split()[1:]]
        r.nodes = {}; r.log = []; r.sched = []; r.asked = []; r.stdout = r.stderr = b""
        while True:
            w = ln().split()
            if w[0] == "end": break
            if w[0] == "out":
                d = o.read(int(w[2]))
                if w[1] == "1": r.stdout = d
                else: r.stderr = d
            elif w[0] == "asked": r.asked.append(o.read(int(w[1])).decode("latin1"))
            elif w[0] == "sched": r.sched = [int(x) for x in w[1:]]
            elif w[0] == "log": r.log.append((int(w[1]), int(w[2]), int(w[3])))
            elif w[0] == "node":
                pl, dl = int(w[4]), int(w[5]); p = o.read(pl).decode("latin1"); d = o.read(dl)
                r.nodes[p] = (w[1], int(w[2]), int(w[3]), d)
        return r
