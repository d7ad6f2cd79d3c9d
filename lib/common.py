"""Shared by all checks: scratch directories, building the code under test from /repo's working tree, reporting."""
import os, sys, json, shutil, subprocess, tempfile, time, hashlib, glob, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 1)
CLEAN_ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "TZ": "UTC", "HOME": "/nonexistent"}


def seed(): return int(os.environ.get("VERIF_SEED", "1") or 1)
def tier(): return "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"


_scratch = None
def scratch():
    """one private directory per process, removed at exit; never inside /repo or /verif"""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vsim-")
        os.chmod(_scratch, 0o755)
        pid = os.getpid()
        def rm():
            if os.getpid() == pid and _scratch and os.path.basename(_scratch).startswith("vsim-"): shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP): signal.signal(s, lambda *a: sys.exit(3))
    return _scratch


class BuildFailed(Exception): pass


def sh(cmd, cwd=None, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    if p.returncode: raise BuildFailed("%s\n%s" % (" ".join(cmd)[:400], p.stdout.decode("latin1")[-3000:]))
    return p.stdout


def parallel(jobs):
    with ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


def copy_sources(d):
    """a private copy of /repo/src, so that a check sees one consistent tree"""
    s = os.path.join(d, "src")
    if not os.path.isdir(s): shutil.copytree(os.path.join(REPO, "src"), s)
    return s


def templates_cpp(d):
    """runs the project's own template packer on the project's own templates"""
    s = copy_sources(d); out = os.path.join(d, "templates_data.cpp")
    sh(["gcc", "-w", os.path.join(s, "gen_templates_data.c"), "-o", os.path.join(d, "gtd")])
    sh([os.path.join(d, "gtd"), os.path.join(s, "templates"), out])
    return out


def gen_sources(d):
    s = copy_sources(d)
    return sorted(glob.glob(os.path.join(s, "*.cpp"))) + [os.path.join(s, "lex.yy.c")]


def compile_objs(srcs, outdir, flags, special=None):
    os.makedirs(outdir, exist_ok=True); objs = []; jobs = []
    for f in srcs:
        o = os.path.join(outdir, os.path.basename(f) + ".o"); objs.append(o)
        fl = (special or {}).get(os.path.basename(f), [])
        c = f.endswith(".c")
        cmd = (["gcc", "-std=gnu11"] if c else ["g++", "-std=gnu++23"]) + ["-w", "-DHAVE_PROGRAM_INVOCATION_SHORT_NAME", "-I" + os.path.dirname(os.path.abspath(f))] + flags + fl + ["-c", f, "-o", o]
        jobs.append(lambda cmd=cmd: sh(cmd))
    parallel(jobs)
    return objs


def build_generator(d):
    """plain build of gendlopen for producing headers; returns the binary"""
    t = templates_cpp(d)
    objs = compile_objs(gen_sources(d) + [t], os.path.join(d, "gobj"), ["-O1", "-I" + os.path.join(d, "src")], {"templates_data.cpp": ["-O0"]})
    b = os.path.join(d, "gendlopen"); sh(["g++"] + objs + ["-o", b])
    return b


def known_findings(prop):
    """committed list of genuine, unrepaired defects: lines `known: property=<id> key=<key> <text>`"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]; key, _, text = rest.partition(" ")
                out[key[4:] if key.startswith("key=") else key] = text
    return out


def replay_dir():
    p = os.path.join(VERIF, "replays"); os.makedirs(p, exist_ok=True); return p


def write_evidence(prop, level, coverage, t0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier(), "seed": seed(), "level": level, "coverage": coverage, "wall_s": round(time.time() - t0, 2)}
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f: json.dump(ev, f, indent=1, sort_keys=False); f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
