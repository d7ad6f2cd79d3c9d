"""Seeded configuration generator for rtsim: one configuration = one input file with prototypes,
one set of generator options, one way of compiling the generated header, plus the adapter code that
lets the simulator drive it.  A configuration is a plain JSON-able dict; emitting and building it is
a pure function of the dict and /repo's generator."""
import os, random, re, subprocess, json

RT_NLIB = 6
FMT = {"c": 0, "c++": 1, "plugin": 2, "minimal": 3, "minimal-c++": 4}
WRAP = {"raw": 0, "wrap": 1, "auto": 2, "lazy": 3}

# type id: (spelling, maker macro body, canonical macro body)
SCALARS = {
    "int": ("int", "(int)(V)", "(uint64_t)(int64_t)(X)"),
    "uint": ("unsigned int", "(unsigned int)(V)", "(uint64_t)(X)"),
    "long": ("long", "(long)(V)", "(uint64_t)(int64_t)(X)"),
    "ulong": ("unsigned long", "(unsigned long)(V)", "(uint64_t)(X)"),
    "llong": ("long long", "(long long)(V)", "(uint64_t)(int64_t)(X)"),
    "short": ("short", "(short)(V)", "(uint64_t)(int64_t)(X)"),
    "uchar": ("unsigned char", "(unsigned char)(V)", "(uint64_t)(X)"),
    "char": ("char", "(char)((V) & 0x7f)", "(uint64_t)(X)"),
    "size": ("size_t", "(size_t)(V)", "(uint64_t)(X)"),
    "i64": ("int64_t", "(int64_t)(V)", "(uint64_t)(X)"),
    "float": ("float", "(float)(int16_t)(V)", "(uint64_t)(int64_t)(X)"),
    "double": ("double", "(double)(int32_t)(V)", "(uint64_t)(int64_t)(X)"),
    "cstr": ("const char *", "(const char *)(uintptr_t)(V)", "(uint64_t)(uintptr_t)(X)"),
    "vptr": ("void *", "(void *)(uintptr_t)(V)", "(uint64_t)(uintptr_t)(X)"),
    "cpp": ("char **", "(char **)(uintptr_t)(V)", "(uint64_t)(uintptr_t)(X)"),
    "ccpp": ("const char *const *", "(const char *const *)(uintptr_t)(V)", "(uint64_t)(uintptr_t)(X)"),
    "pair": ("rt_pair_t", "rt_mk_pair(V)", "rt_can_pair(X)"),
    "pairp": ("const rt_pair_t *", "(const rt_pair_t *)(uintptr_t)(V)", "(uint64_t)(uintptr_t)(X)"),
    "spair": ("const struct rt_pair *", "(const struct rt_pair *)(uintptr_t)(V)", "(uint64_t)(uintptr_t)(X)"),
    "en": ("rt_enum_t", "(rt_enum_t)((V) % 3)", "(uint64_t)(int64_t)(X)"),
    # names that look like the generator's own
    "gpair": ("gdo_pair_t", "rt_mk_pair(V)", "rt_can_pair(X)"),
    "gpairp": ("const struct gdo_pair *", "(const struct gdo_pair *)(uintptr_t)(V)", "(uint64_t)(uintptr_t)(X)"),
    "gen": ("GDO_Kind", "(GDO_Kind)((V) % 3)", "(uint64_t)(int64_t)(X)"),
    "gcstr": ("GDO_STRING", "(GDO_STRING)(uintptr_t)(V)", "(uint64_t)(uintptr_t)(X)"),
    "cb": ("rt_cb_t", "(rt_cb_t)(uintptr_t)(V)", "(uint64_t)(uintptr_t)(X)"),
}
# parameter-only declarators: spelling with @ for the name
DECL = {
    "fptr": ("int (*@)(int, const char *)", "rt_fp_t"),
    "vfptr": ("void (*@)(void)", "rt_vfp_t"),
    "arr": ("char *@[]", "char **"),
    "iarr": ("const int @[4]", "const int *"),
}
OWN = {"pair": "gpair", "pairp": "gpairp", "spair": "gpairp", "en": "gen", "cstr": "gcstr"}
ARGT = [t for t in SCALARS if t not in ("i64",) and t not in OWN.values()]
VAT = ["int", "double", "cstr", "long", "vptr", "ulong"]       # types passed through `...'
OBJT = ["int", "double", "cstr", "pair", "ulong", "iarray", "fpobj", "uchar"]

TYPES_H = """#ifndef RT_TYPES_H
#define RT_TYPES_H
#include <stdint.h>
#include <stddef.h>
typedef struct rt_pair { int a; long long b; } rt_pair_t;
typedef enum { RT_E0, RT_E1, RT_E2 } rt_enum_t;
typedef rt_pair_t gdo_pair_t;
struct gdo_pair;
typedef rt_enum_t GDO_Kind;
typedef const char *GDO_STRING;
typedef int (*rt_cb_t)(int, void *);
typedef int (*rt_fp_t)(int, const char *);
typedef void (*rt_vfp_t)(void);
#endif
"""

VOCAB_STEMS = ["foo", "zl_open", "zl_close", "zl_", "png_read", "png_read_row", "png_read_rows", "XtInit", "xtinit", "Xt_Init_", "load", "handle2", "errbuf", "msg", "sym_load",
               "get_value", "get_value2", "get_values", "_private", "__hidden_fn", "A", "aB", "aBc", "n", "ptr_", "f", "f1", "f12", "f2", "initialize_everything_with_a_really_long_symbol_name_that_goes_on",
               "library_path", "last_error", "free_it", "ret", "arg", "symbols", "loaded", "libpath", "args_", "return_", "type_", "func_symbol", "param_names", "LOAD_x", "PTR_x", "flags2", "num2"]
PFXS = ["", "", "ab_", "zlib", "Q", "x_", "glfw", "u8_"]
# names used by C, C++ or the adapter that must not be chosen
RESERVED = {"ret", "free", "n", "A"} - {"A"} | {"register", "remove", "index", "getc", "time", "y0", "y1", "gamma"}


def rnd_symbols(r, nf, no, min_common=0):
    stem = r.choice(PFXS); names = []
    mode = r.random()
    while len(names) < nf + no:
        if mode < 0.25:   # prefixes of each other
            base = stem + r.choice(["foo", "ab", "get", "q_"])
            nm = base + "".join(r.choice("abc12_") for _ in range(r.randrange(0, 4)))
        elif mode < 0.4:   # equal length, differing in one place
            base = list(stem + "symbol_one"); k = r.randrange(len(stem), len(base)); base[k] = r.choice("abcdxyz"); nm = "".join(base)
        else:
            nm = stem + r.choice(VOCAB_STEMS)
        if nm in RESERVED or nm[0].isdigit() or nm in names or nm in ("int", "char", "if", "do", "for", "n", "ret", "load", "foo_"):
            if mode < 0.4 and r.random() < 0.2: mode = 1.0
            continue
        names.append(nm)
    q = random.Random("own-" + " ".join(names))
    if q.random() < 0.1:        # symbols named like the generator's own
        k = q.choice(["gdo_u_", "GDO_U_", "_gdo_", "Gdo_", "x_gdo_"]); names = [k + n if q.random() < 0.6 else n for n in names]
    return names


# simulated target platforms: preprocessor switches of plat/plat_pre.h, and what the platform offers
PLATS = {
    "glibc": dict(has_ns=1, has_dlinfo=1, has_dladdr=1),
    "pmq": dict(defs=["PMQ"], has_ns=1, has_dlinfo=1, has_dladdr=1, pmq=1),       # Linux with the PROCMAP_QUERY ioctl
    "musl": dict(defs=["MUSL"], has_dladdr=1),
    "android": dict(defs=["ANDROID"], has_dladdr=1, libname=("lib", None, ".so")),
    "bsd": dict(defs=["BSD"], has_dlinfo=1, has_dladdr=1),
    "sun": dict(defs=["SUN"], has_ns=1, has_dlinfo=1, has_dladdr=1),
    "mac": dict(defs=["MAC"], has_dladdr=1, ext=".dylib", libname=("lib", ".", ".dylib")),
    "aix": dict(defs=["AIX"], aix=1, ext=".a", libname=("lib", None, ".a(shr_64.o)")),
    "windl": dict(defs=["WIN"], win=2, has_dladdr=1, ext=".dll", libname=("", "-", ".dll")),          # dlfcn-win32
    "windlw": dict(defs=["WIN", "WIDE"], win=2, has_dladdr=1, ext=".dll", libname=("", "-", ".dll")),
    "win": dict(defs=["WIN", "WINAPI"], win=1, ext=".dll", libname=("", "-", ".dll")),
    "winw": dict(defs=["WIN", "WINAPI", "WIDE"], win=1, wide=1, ext=".dll", libname=("", "-", ".dll")),
}
PLAT_MIX = ["pmq", "pmq", "musl", "musl", "android", "bsd", "bsd", "sun", "mac", "aix", "aix", "windl", "windlw", "win", "win", "win", "winw", "winw", "winw"]


def plat(c): return {**{"defs": [], "has_ns": 0, "has_dlinfo": 0, "has_dladdr": 0, "pmq": 0, "aix": 0, "win": 0, "wide": 0, "ext": ".so", "libname": ("lib", ".so.", "")}, **PLATS[c.get("plat", "glibc")], **c.get("platx", {})}


def choose_plat(c, seed, focus):
    """other target platforms; drawn apart so that the other choices stay what they were"""
    r = random.Random("plat-%d" % seed)
    c["plat"] = r.choice(PLAT_MIX) if r.random() < focus.get("other_plat", 0.28) else "glibc"
    c["platx"] = {}; c["platdefs"] = []
    if "plat" in focus: c["plat"] = r.choice(focus["plat"])
    p = c["plat"]; l, u = names_of(c)
    if p == "musl" and r.random() < 0.4: c["platdefs"].append(u + "_HAVE_DLINFO"); c["platx"]["has_dlinfo"] = 1
    if p.startswith("win"):
        if r.random() < 0.4: c["platx"].update(libname=("lib", "-", ".dll"), defs=PLATS[p]["defs"] + ["MINGW"])
        if r.random() < 0.3: c["platdefs"].append(u + "_USE_MESSAGE_BOX")
        if p in ("windl", "windlw"): c["platdefs"].append(u + "_USE_DLOPEN")
        if p in ("win", "winw") and c["format"] == "c" and r.random() < 0.4: c["platdefs"].append(u + "_CONVERT_FILENAME")
    if p == "aix": c["san"] = False
    P = plat(c); pre, mid, post = P["libname"]
    if P["win"] == 1 and c["flags"]: c["flags"] = r.choice([("LOAD_WITH_ALTERED_SEARCH_PATH", 8), ("RTLD_NOW", 0), ("(RTLD_LAZY|LOAD_LIBRARY_SEARCH_DEFAULT_DIRS)", 0x1000)])
    name = lambda n, api: pre + n + (mid + str(api) if mid is not None else "") + post
    o = c["lib"]
    if o and p != "glibc":
        lo = o.lower()
        if c["lib_via"] in ("macro", "macroA"): pass
        elif lo == "ext:foo": c["default_lib"] = o[4:] + P["ext"]
        elif o.startswith('ext:"q2"'): c["default_lib"] = "q2" + P["ext"]
        elif lo.startswith("api:") and lo[4].isdigit(): c["default_lib"] = name(lo.split(":")[2], lo.split(":")[1])
        elif lo.startswith("nq:") and "LIBNAMEA" in o:
            c["default_lib"] = name("z", 1)
            if P["wide"]: c["lib"] = o.replace("LIBNAMEA", "LIBNAMEW")
        elif lo.startswith("nq:") and P["wide"]: c["lib"] = 'nq:L"q" L"uo.so"'


def make_config(seed, focus=None):
    """focus: dict restricting the choice, e.g. {"format": [...], "wrap": [...]}"""
    r = random.Random("rt-%d" % seed); focus = focus or {}
    c = {"seed": seed}
    c["format"] = r.choice(focus.get("format", ["c", "c", "c", "c++", "c++", "plugin", "minimal", "minimal-c++"]))
    api = c["format"] in ("c", "c++")
    c["wrap"] = r.choice(focus.get("wrap", ["raw", "raw", "wrap", "auto", "lazy"])) if api else "raw"
    wrapped = c["wrap"] != "raw"
    c["param"] = r.choice(["read", "read", "default", "create"] + ([] if wrapped else ["skip", "skip"]))
    # the prototypes arrive as text, or as the syntax tree clang prints for them; some selected by name
    c["ast"] = r.random() < 0.12
    c["select"] = r.choice(["all", "list", "prefix"] if c["ast"] else [None] * 8 + ["list", "prefix"])
    if c["ast"]: c["param"] = "create"
    c["separate"] = api and r.random() < 0.35 or (c["format"] == "plugin" and r.random() < 0.3)
    c["static"] = c["format"] in ("c", "plugin", "minimal") and not c["separate"] and r.random() < 0.3
    c["lang"] = "c++" if c["format"] in ("c++", "minimal-c++") or (r.random() < 0.25 and not (c["format"] == "c" and c["static"])) else "c"
    c["multi_tu"] = bool(c["separate"] and api and r.random() < 0.6)
    c["visible"] = bool(wrapped and not c["separate"] and r.random() < 0.2)
    c["prefix"] = r.choice([None, None, None, "myld", "My_Loader", "zz9"])
    c["line"] = r.random() < 0.15
    c["pragma_once"] = r.random() < 0.7
    c["opt"] = r.choice(["-O0", "-O0", "-O1", "-O2"])
    c["san"] = r.random() < focus.get("san", 0.3)
    if c["lang"] == "c":
        c["std"] = r.choice(["-std=gnu11", "-std=gnu17", "-std=gnu99", "-std=c11 -D_DEFAULT_SOURCE"])
    else:
        c["std"] = r.choice(["-std=gnu++11", "-std=gnu++17", "-std=gnu++20", "-std=c++17"])
    # default library
    libs = [("mylib.so", "mylib.so"), ("/opt/x y/lib.so.3", "/opt/x y/lib.so.3"), ("ext:foo", "foo.so"), ("api:2:foo", "libfoo.so.2"), ("api:0:bar", "libbar.so.0"), ('nq:"q" "uo.so"', "quo.so"),
            ('"quoted.so"', "quoted.so"), ("EXT:Foo", "Foo.so"), ("libm.so.6", "libm.so.6"), ("ext:\"q2\"", "q2.so"), ("NQ:GDO_LIBNAMEA(z,1)", "libz.so.1"),
            ("nss_test.so", "nss_test.so"), ("engine.so", "engine.so"), ("alsa.so", "alsa.so"), ("N.so", "N.so"), ("extra:1.so", "extra:1.so"), ("api.so", "api.so"), ("50%done%s.so", "50%done%s.so")]
    c["lib"] = None; c["default_lib"] = None; c["lib_via"] = None
    if api and (c["wrap"] in ("auto", "lazy") or r.random() < 0.6):
        o, e = r.choice(libs); via = r.choice(["cli", "cli", "option", "macro", "macroA"])
        if " " in o and via == "option": via = "cli"
        if via in ("macro", "macroA"): o = e
        if c["prefix"]: o = o.replace("GDO_", c["prefix"].upper() + "_")
        c["lib"], c["default_lib"], c["lib_via"] = o, e, via
    c["flags"] = r.choice([None, None, ("RTLD_NOW", 2), ("(RTLD_LAZY|RTLD_GLOBAL)", 0x101), ("(RTLD_NOW | RTLD_GLOBAL)", 0x102)]) if c["format"] in ("c", "c++", "plugin") else None
    c["opts_via"] = r.choice(["cli", "cli", "option"])
    if c["ast"]:
        c["opts_via"] = "cli"
        if c["lib_via"] == "option": c["lib_via"] = "cli"
    c["defs_via"] = r.choice(["D", "pre", "pre"]) 
    c["cc"] = "clang" if not c["san"] and r.random() < 0.15 else "gcc"
    c["alias_off"] = (not wrapped) and c["format"] != "plugin" and not c["visible"] and r.random() < 0.08
    nf = r.randrange(1, 7) if r.random() < 0.8 else r.randrange(7, 14); no = r.choice([0, 0, 1, 1, 2, 3])
    if r.random() < 0.05: nf, no = 0, r.randrange(1, 4)
    if wrapped and nf == 0: nf = 2
    names = rnd_symbols(r, nf, no)
    order = list(range(nf + no)); r.shuffle(order)
    syms = []
    for i, nm in enumerate(names):
        if i >= nf:
            t = r.choice(OBJT); syms.append({"name": nm, "obj": True, "t": t, "style": r.randrange(2)}); continue
        s = {"name": nm, "obj": False, "ret": r.choice(["void", "void"] + ARGT), "params": [], "va": None, "hook": 0, "proto": r.choice(["plain", "plain", "plain", "comment", "extern"])}
        n = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 8]); pn = []
        for k in range(n):
            t = r.choice(ARGT + ["fptr", "vfptr", "arr", "iarr"]) if r.random() < 0.9 else "int"
            cand = r.choice(["a", "b", "x", "count", "buf", "p%d" % k, "arg_%d" % k, "a1", "a2", "Val", "_r", "msg", "size_", "load_", "handle_", "fn", "cb"] + ([r.choice(names)] if r.random() < 0.1 and not c["separate"] else []))
            while cand in pn or cand in ("y0", "y1"): cand = cand + "_" + str(k)
            pn.append(cand); s["params"].append([t, cand])
        if c["param"] == "create":
            for q in s["params"]: q[1] = "?"
        if n and r.random() < 0.3: s["va"] = [r.choice(VAT) for _ in range(r.randrange(0, 4))]
        if n == 0: s["void"] = r.random() < 0.6
        if wrapped and r.random() < 0.45:
            s["hook"] = r.choice([1, 1, 1, 2]); s["hook_style"] = r.choice(["args", "names"])
        syms.append(s)
    c["syms"] = [syms[i] for i in order]
    c["pfx"] = None; c["decoys"] = []
    if c["select"] == "prefix":
        c["pfx"] = os.path.commonprefix(names) if r.random() < 0.7 else None
        if not c["pfx"]: c["select"] = "list"
        else: c["pfx"] = c["pfx"][:r.randint(1, len(c["pfx"]))]
    if c["select"] in ("list", "prefix"):
        for _ in range(r.randrange(0, 4)):
            nm = r.choice(names); nm = r.choice([nm + "_x", nm + "0", "zzq_" + nm, nm[:-1] + "q", nm.swapcase(), "_" + nm])
            if nm in names or nm in c["decoys"] or nm in RESERVED or nm[0].isdigit() or not nm[1:] or (c["pfx"] and nm.startswith(c["pfx"])): continue
            c["decoys"].append(nm)
    # qualified objects; drawn apart so that the choices above stay what they were
    r2 = random.Random("rt2-%d" % seed)
    for s in syms:
        if not s["obj"]: continue
        x = r2.random()
        if x < 0.12: s["t"] = "carray"
        elif x < 0.34 and s["t"] != "fpobj": s["cv"] = r2.choice(["const", "const", "volatile", "const volatile"]); s["cvpos"] = r2.randrange(2)
        if s["t"] == "pair" and s.get("cv"): s["style"] = 1
        s["ext"] = s["t"] == "carray" or r2.random() < 0.5
    r3 = random.Random("rt3-%d" % seed)
    if r3.random() < 0.15:
        for s in syms:
            if s["obj"]: continue
            s["ret"] = OWN.get(s["ret"], s["ret"])
            for q in s["params"]:
                q[0] = OWN.get(q[0], q[0])
                if q[1] != "?" and r3.random() < 0.25: q[1] = r3.choice(["gdo_", "GDO_p_", "_GDO_", "gdo"]) + q[1]
    choose_plat(c, seed, focus)
    c["sh"] = None
    if focus.get("second"): choose_second(c, seed)
    return c


def choose_second(c, seed):
    """a second API with another prefix in the same program, in the same source file or in one of its own"""
    r = random.Random("second-%d" % seed)
    main = (c["prefix"] or "gdo").lower(); cpp = ("c++", "minimal-c++")
    same = c["same_tu"] = r.random() < 0.6
    if same and c["format"] == "c" and c["static"]: c["static"] = c["static"] and c["lang"] == "c"
    fm = ["c", "c", "plugin", "minimal"] if same and c["lang"] == "c" else ["c", "c", "c++", "c++", "plugin", "minimal", "minimal-c++"]
    d = make_config(r.randrange(1 << 40), {"format": fm, "plat": [c["plat"]]})
    if d["ast"]: d["ast"] = False
    d["select"] = None; d["pfx"] = None; d["decoys"] = []
    if d["lib_via"] == "option" and d["opts_via"] != "option": pass
    if same: d["lang"], d["std"] = c["lang"], c["std"]
    if same or r.random() < 0.5: d["opt"] = c["opt"]
    d["cc"], d["san"] = c["cc"], c["san"]
    if d["lang"] == "c++" and d["format"] == "c": d["static"] = False
    d["multi_tu"] = False; d["visible"] = False
    cand = [p for p in [None, None, "other", "gdo2", "gd", "gdox", "Sh_Api", "g", main + "x", main + "2", main[:-1], "x" + main, "not_gdo", "gdogdo"] if p != "" and (p or "gdo").lower() != main]
    d["prefix"] = r.choice(cand); p2 = d["prefix"] or "gdo"
    if d["lib"]: d["lib"] = None; d["default_lib"] = None; d["lib_via"] = None      # set anew below, with this prefix
    if d["wrap"] in ("auto", "lazy") or (d["format"] in ("c", "c++") and r.random() < 0.4):
        d["lib"] = d["default_lib"] = r.choice(["second.so", "mylib.so"]); d["lib_via"] = r.choice(["cli", "macro", "macroA"] + (["option"] if d["opts_via"] == "option" else []))
    d["platdefs"] = [n for n in d["platdefs"]]
    old = None
    l, u = names_of(d)
    d["platdefs"] = [u + n[n.index(k):] for n in d["platdefs"] for k in ("_HAVE_DLINFO", "_USE_MESSAGE_BOX", "_USE_DLOPEN", "_CONVERT_FILENAME") if n.endswith(k)]
    d["platx"] = dict(c["platx"])
    if d["plat"] == "musl": d["platx"].pop("has_dlinfo", None)
    # symbols
    keep = [s for s in d["syms"] if not s["obj"]][:r.randrange(1, 4)] + [s for s in d["syms"] if s["obj"]][:r.randrange(0, 2)]
    if not keep: keep = d["syms"][:2]
    r.shuffle(keep); d["syms"] = keep
    for s in keep: s["hook"] = 0
    mains = [s["name"] for s in c["syms"]]
    if same:
        ren = lambda n: "zs1_" + n
        for s in c["syms"]: s["name"] = ren(s["name"])
        if c["pfx"]: c["pfx"] = ren(c["pfx"])
        c["decoys"] = [ren(n) for n in c["decoys"]]
        mains = [ren(n) for n in mains]
    used = set(mains) if same or c["visible"] else set(); names = set()
    for s in keep:
        if not same and not c["visible"] and r.random() < 0.5: n = r.choice(mains)           # the very same name, in another source file
        else: n = r.choice(["zs2_" + s["name"], "zs2_" + s["name"], r.choice(mains) + r.choice(["_", "2", "x", "_zs"])])
        while n in names or n in used: n += "q"
        names.add(n); s["name"] = n
    d["second_first"] = r.random() < 0.4; d["samename"] = r.random() < 0.5
    if same and d["samename"] and r.random() < 0.6: c["pragma_once"] = d["pragma_once"] = False      # told apart by the include guards alone
    c["sh"] = d


def readonly(s): return s["t"] == "carray" or "const" in s.get("cv", "")


def objdecl(s):
    """the declaration of an object, without its storage class"""
    t = s["t"]; n = s["name"]; cv = s.get("cv", "")
    if t == "carray": return "const char %s[]" % n
    if t == "fpobj": return "int (*%s)(int, const char *)" % n
    if t == "iarray": return (cv + " " if cv else "") + "int %s[4]" % n
    if not cv: return declr(t, n)
    sp = SCALARS[t][0]
    if sp.endswith("*"): return "%s %s %s" % (sp, cv, n)
    return "%s %s %s" % ((cv, sp, n) if s["cvpos"] else (sp, cv, n))


# ---------------------------------------------------------------- emission
def pname(c, s, k):
    return "a%d" % (k + 1) if c["param"] == "create" else s["params"][k][1]


def ctype(t):
    if t in SCALARS: return SCALARS[t][0]
    return {"fptr": "rt_fp_t", "vfptr": "rt_vfp_t", "arr": "char **", "iarr": "const int *"}[t]


def declr(t, name):
    if t in DECL: return DECL[t][0].replace("@", name)
    sp = SCALARS[t][0]
    return sp + (name if sp.endswith("*") else " " + name) if name else sp


def ptr_as(ct, e): return "(%s)(uintptr_t)(%s)" % (ct, e)


def mk(t, v):
    if t in SCALARS: return SCALARS[t][1].replace("V", v, 1)
    return ptr_as(ctype(t), v)


def can(t, x):
    if t in SCALARS: return SCALARS[t][2].replace("X", x, 1)
    return "(uint64_t)(uintptr_t)(%s)" % x


def proto(c, s):
    if s["obj"]:
        return ("extern " if s["ext"] else "") + objdecl(s) + ";"
    ps = []
    for k, (t, pn) in enumerate(s["params"]):
        if c["ast"] and (k + c["seed"]) % 2: ps.append(declr(t, "q%d" % k))
        elif c["param"] == "create": ps.append(declr(t, "").strip() if t in SCALARS else DECL[t][0].replace("@", ""))
        elif c["param"] == "skip" and t in SCALARS and k % 2: ps.append(declr(t, ""))
        else: ps.append(declr(t, pn))
    if s["va"] is not None: ps.append("...")
    pl = ", ".join(ps) if ps else ("void" if s.get("void") else "")
    rt = "void" if s["ret"] == "void" else SCALARS[s["ret"]][0]
    n = s["name"]; st = s["proto"]
    if c["ast"] and c["seed"] % 3 == 0: st += "-attr"
    if st.endswith("-attr"): return "/** does\n  * things. @param x y */\n__attribute__((visibility(\"default\"))) %s%s(%s);" % (rt if rt.endswith("*") else rt + " ", n, pl)
    if st == "paren": return "%s (%s) (%s);" % (rt, n, pl)
    if st == "comment": return "/* %s\n; */ %s %s // x ( y\n (%s);" % (n, rt, n, pl)
    if st == "extern": return "extern %s%s\n  (%s)\n;" % (rt if rt.endswith("*") else rt + " ", n, pl)
    return "%s%s(%s);" % (rt if rt.endswith("*") else rt + " ", n, pl)


def names_of(c):
    p = c["prefix"] or "gdo"
    return p.lower(), p.upper()


def input_text(c):
    o = []
    if c["opts_via"] == "option":
        o.append("%%option format=%s no-date" % c["format"])
        if c["param"] != "default": o.append("%%option param=%s" % c["param"])
        if c["prefix"]: o.append("%%option prefix=%s" % c["prefix"])
    if c["lib_via"] == "option": o.append("%%option library=%s" % c["lib"])
    o.append("#include <stdio.h>\n/* types */ typedef int rt_dummy_t; enum rt_dummy_e { RT_D0, RT_D1 };")
    if c["ast"]: o = ["#include \"rt_types.h\"", "static inline int rt_unused_(int a) { return a; }" if c["select"] != "all" else ""]
    for i, s in enumerate(c["syms"]):
        for k, n in enumerate(c["decoys"]):
            if k == i: o.append("int %s(int a, double b);" % n if k % 2 else "extern char *%s;" % n)
        o.append(proto(c, s))
    for n in c["decoys"][len(c["syms"]):]: o.append("void %s(void);" % n)
    return "\n".join(o) + "\n"


def macro_defs(c):
    l, u = names_of(c); d = []
    if c["wrap"] == "wrap": d.append((u + "_WRAP_FUNCTIONS", "1"))
    if c["wrap"] == "auto": d.append((u + "_ENABLE_AUTOLOAD", "1"))
    if c["wrap"] == "lazy": d.append((u + "_ENABLE_AUTOLOAD_LAZY", "1"))
    if c["static"]: d.append((u + "_STATIC", "1"))
    if c["visible"]: d.append((u + "_WRAP_VISIBILITY", "__attribute__((visibility(\"default\")))")); 
    if c["alias_off"]: d.append((u + "_DISABLE_ALIASING", "1"))
    if c["flags"]: d.append((u + "_DEFAULT_FLAGS", c["flags"][0]))
    if c["wrap"] != "raw": d.append((u + "_DISABLE_WARNINGS", "1"))
    w = plat(c)["wide"]
    if c["lib_via"] == "macro": d.append((u + "_DEFAULT_LIB", ('L"%s"' if w else '"%s"') % c["lib"]))
    if c["lib_via"] == "macroA": d.append((u + ("_DEFAULT_LIBW" if w else "_DEFAULT_LIBA"), ('L"%s"' if w else '"%s"') % c["lib"]))
    for n in c.get("platdefs", []): d.append((n, "1"))
    return d


def gen_args(c, inp, out):
    a = ["-include=rt_types.h", "-out=" + out]
    if c["opts_via"] != "option":
        a += ["-format=" + c["format"], "-no-date"]
        if c["param"] != "default": a.append("-param=" + c["param"])
        if c["prefix"]: a.append("-prefix=" + c["prefix"])
    if c["select"] == "all": a.append("-ast-all-symbols")
    if c["select"] == "list": a += ["-S" + s["name"] for i, s in enumerate(c["syms"])]
    if c["select"] == "prefix": a.append("-P" + c["pfx"])
    if c["lib_via"] == "cli": a.append("-library=" + c["lib"])
    if c["separate"]: a.append("-separate")
    if c["line"]: a.append("-line")
    if not c["pragma_once"]: a.append("-no-pragma-once")
    if c["defs_via"] == "D":
        for k, v in macro_defs(c): a.append("-D%s=%s" % (k, v))
    a.append(inp)
    return a


def hook_sig(c, s, i, named=False):
    ps = [declr(t, "rt_h%d" % k) for k, (t, _) in enumerate(s["params"])]
    if s["va"] is not None: ps.append("...")
    return "void rt_hk_%d(%s)" % (i, ", ".join(ps) if ps else "void")


def pre_h(c):
    l, u = names_of(c); o = ["#include \"rt_types.h\"", "#ifdef __cplusplus", "extern \"C\" {", "#endif"]
    for i, s in enumerate(c["syms"]):
        if not s["obj"] and s["hook"] == 1: o.append(hook_sig(c, s, i) + ";")
    o += ["#ifdef __cplusplus", "}", "#endif"]
    if c["defs_via"] == "pre":
        for k, v in macro_defs(c): o.append("#define %s %s" % (k, v))
    for i, s in enumerate(c["syms"]):
        if s["obj"] or not s["hook"]: continue
        n = s["name"]; pn = ", ".join(pname(c, s, k) for k in range(len(s["params"])))
        # in C++ and without inlining in C, variadic wrappers do not have the declared names
        byname = s["hook_style"] == "names" and not (s["va"] is not None and (c["format"] == "c++" or c["opt"] == "-O0" or c["cc"] == "clang"))
        args = pn if byname else "__VA_ARGS__"
        if s["hook"] == 1: o.append("#define %s_HOOK_%s(...) rt_hk_%d(%s)" % (u, n, i, args))
        else: o.append("#define %s_HOOK_%s(...) (void)%s_RAWPTR_%s(%s)" % (u, n, u, n, "__VA_ARGS__" if s["va"] is not None else args))
    return "\n".join(o) + "\n"


def targets_c(c):
    o = ["#include \"rt_abi.h\"", "#include \"rt_types.h\"", "#include <stdarg.h>", "#include <string.h>",
         "static inline rt_pair_t rt_mk_pair(uint64_t v) { rt_pair_t p; memset(&p, 0, sizeof p); p.a = (int)v; p.b = (long long)(v * 31); return p; }",
         "static inline uint64_t rt_can_pair(rt_pair_t p) { return (uint64_t)p.a * 1000003u ^ (uint64_t)p.b; }"]
    aix = plat(c)["aix"]
    for K in range(RT_NLIB):
        sec = '__attribute__((section("rt_%s_%d"))) '
        for i, s in enumerate(c["syms"]):
            if s["obj"]:
                t = s["t"]; n = "rt_o_%d_%d" % (K, i)
                if aix: o.append(sec % ("data", K))
                if t == "iarray": o.append("int %s[4];" % n)
                elif t == "carray": o.append("char %s[16];" % n)
                elif t == "fpobj": o.append("int (*%s)(int, const char *);" % n)
                else: o.append(declr(t, n) + ";")
                continue
            ps = [declr(t, "rt_p%d" % k) for k, (t, _) in enumerate(s["params"])]
            if s["va"] is not None: ps.append("...")
            rt = "void" if s["ret"] == "void" else SCALARS[s["ret"]][0]
            b = "uint64_t v[RT_MAXV]; int n = 0; "
            for k, (t, _) in enumerate(s["params"]): b += "v[n++] = %s; " % can(t, "rt_p%d" % k)
            if s["va"] is not None:
                b += "va_list ap; va_start(ap, rt_p%d); " % (len(s["params"]) - 1)
                for t in s["va"]: b += "{ %s x = va_arg(ap, %s); v[n++] = %s; } " % (declr(t, "").strip(), declr(t, "").strip(), can(t, "x"))
                b += "va_end(ap); "
            b += "rt_target_called(%d, %d, v, n); " % (K, i)
            if rt != "void": b += "return %s; " % mk(s["ret"], "rt_ret_seed()")
            if aix: o.append(sec % ("text", K))
            o.append("%s rt_t_%d_%d(%s) { %s}" % (rt, K, i, ", ".join(ps) if ps else "void", b))
    for i, s in enumerate(c["syms"]):
        if s["obj"] or s["hook"] != 1: continue
        b = "uint64_t v[RT_MAXV]; int n = 0; "
        for k, (t, _) in enumerate(s["params"]): b += "v[n++] = %s; " % can(t, "rt_h%d" % k)
        o.append(hook_sig(c, s, i) + " { " + b + "rt_hook_called(%d, v, n); }" % i)
    # tables
    o.append("static void *tg(int l, int s) { switch (l * 1000 + s) {")
    for K in range(RT_NLIB):
        for i, s in enumerate(c["syms"]): o.append("case %d: return (void *)&%s;" % (K * 1000 + i, "rt_%s_%d_%d" % ("o" if s["obj"] else "t", K, i)))
    o.append("} return 0; }")
    o.append("static void oset(int l, int s, uint64_t v) { switch (l * 1000 + s) {")
    for K in range(RT_NLIB):
        for i, s in enumerate(c["syms"]):
            if not s["obj"]: continue
            n = "rt_o_%d_%d" % (K, i); t = s["t"]
            if t == "iarray": b = "for (int k = 0; k < 4; k++) %s[k] = (int)(v >> (k * 8));" % n
            elif t == "carray": b = "for (int k = 0; k < 4; k++) %s[k] = (char)(v >> (k * 8));" % n
            elif t == "fpobj": b = "%s = (rt_fp_t)(uintptr_t)v;" % n
            else: b = "%s = %s;" % (n, mk(t, "v"))
            o.append("case %d: %s break;" % (K * 1000 + i, b))
    o.append("} }")
    o.append("static uint64_t oget(int l, int s) { switch (l * 1000 + s) {")
    for K in range(RT_NLIB):
        for i, s in enumerate(c["syms"]):
            if s["obj"]: o.append("case %d: return %s;" % (K * 1000 + i, objcan(s["t"], "rt_o_%d_%d" % (K, i))))
    o.append("} return 0; }")
    if aix:
        for K in range(RT_NLIB):
            for q in ("text", "data"): o.append("extern char __start_rt_%s_%d[] __attribute__((weak)), __stop_rt_%s_%d[] __attribute__((weak));" % (q, K, q, K))
        o.append("void rt_aixrange(int l, void **t, void **te, void **d, void **de) { switch (l) { %s } }" % " ".join("case %d: *t = __start_rt_text_%d; *te = __stop_rt_text_%d; *d = __start_rt_data_%d; *de = __stop_rt_data_%d; break;" % (K, K, K, K, K) for K in range(RT_NLIB)))
    o.append("void *(*const rt_tg)(int, int) = tg; void (*const rt_oset)(int, int, uint64_t) = oset; uint64_t (*const rt_oget)(int, int) = oget;")
    return "\n".join(o) + "\n"


def objcan(t, n):
    if t == "carray": return "((uint64_t)(unsigned char)%s[0] | (uint64_t)(unsigned char)%s[1] << 8 | (uint64_t)(unsigned char)%s[2] << 16)" % (n, n, n)
    if t == "iarray": return "((uint64_t)(unsigned)%s[0] ^ (uint64_t)(unsigned)%s[1] * 31u ^ (uint64_t)(unsigned)%s[2] * 1009u ^ (uint64_t)(unsigned)%s[3] * 65537u)" % (n, n, n, n)
    if t == "fpobj": return "(uint64_t)(uintptr_t)%s" % n
    if t == "pair": return "((uint64_t)%s.a * 1000003u ^ (uint64_t)%s.b)" % (n, n)
    return can(t, n)


def objassign(s, n):
    t = s["t"]; st = s["style"]
    if t == "iarray": return "for (int k = 0; k < 4; k++) %s[k] = (int)(rt_v >> (k * 8));" % n
    if t == "fpobj": return "%s = (rt_fp_t)(uintptr_t)rt_v;" % n
    if t == "pair" and st: return "%s.a = (int)rt_v; %s.b = (long long)(rt_v * 31);" % (n, n)
    if t in ("int", "ulong", "uchar") and st: return "%s = %s; %s++;" % (n, mk(t, "(rt_v - 1)"), n)
    return "%s = %s;" % (n, mk(t, "rt_v"))


def calls_src(c, tu, body):
    """functions calling every symbol through its public name"""
    l, u = names_of(c); o = []
    for i, s in enumerate(c["syms"]):
        n = s["name"]; f = "rt_c%d_%d" % (tu, i)
        if s["obj"]:
            if tu: continue
            if c["format"] == "plugin": continue
            nm = n if not c["alias_off"] else "(*%s)" % rawptr(c, n)
            o.append("uint64_t rt_or_%d(void) { return %s; }" % (i, objcan(s["t"], nm)))
            if not readonly(s): o.append("void rt_ow_%d(uint64_t rt_v) { %s }" % (i, objassign(s, nm)))
            continue
        args = []; b = "uint64_t rt_s = rt_r->seed; int rt_n = 0; (void)rt_s; "
        for k, (t, _) in enumerate(s["params"]):
            b += "%s = %s; rt_r->v[rt_n++] = %s; " % (("%s rt_a%d" % (ctype(t), k)), mk(t, "rt_mx(rt_s, %d)" % k), can(t, "rt_a%d" % k)); args.append("rt_a%d" % k)
        for k, t in enumerate(s["va"] or []):
            b += "%s rt_w%d = %s; rt_r->v[rt_n++] = %s; " % (ctype(t), k, mk(t, "rt_mx(rt_s, %d)" % (k + 50)), can(t, "rt_w%d" % k)); args.append("rt_w%d" % k)
        b += "rt_r->n = rt_n; "
        if c["format"] == "plugin": callee = "rt_e->ptr.%s" % n
        elif c["alias_off"]: callee = rawptr(c, n)
        else: callee = n
        call = "%s(%s)" % (callee, ", ".join(args))
        if s["ret"] == "void": b += call + "; rt_r->done = 1; "
        else: b += "rt_r->has_ret = 1; %s rt_want = %s; rt_r->want_ret = %s; %s rt_x = %s; rt_r->got_ret = %s; rt_r->done = 1; " % (
            ctype(s["ret"]), mk(s["ret"], "rt_ret_seed()"), can(s["ret"], "rt_want"), ctype(s["ret"]), call, can(s["ret"], "rt_x"))
        sig = "RtCall *rt_r" if c["format"] != "plugin" else "%s_handle_t *rt_e, RtCall *rt_r" % l
        o.append("%svoid %s(%s) { %s}" % ("static " if c["format"] == "plugin" else "", f, sig, b))
    return "\n".join(o) + "\n"


HELP = """
#include "rt_abi.h"
#include "rt_types.h"
static inline uint64_t rt_mx(uint64_t s, int k) { uint64_t x = s + 0x9e3779b97f4a7c15ull * (uint64_t)(k + 1); x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static inline rt_pair_t rt_mk_pair(uint64_t v) { rt_pair_t p; p.a = (int)v; p.b = (long long)(v * 31); return p; }
static inline uint64_t rt_can_pair(rt_pair_t p) { return (uint64_t)p.a * 1000003u ^ (uint64_t)p.b; }
"""
EXTC = "#ifdef __cplusplus\nextern \"C\" {\n#endif\n"
EXTC_END = "#ifdef __cplusplus\n}\n#endif\n"


def rawptr(c, n):
    l, u = names_of(c)
    if c["format"] == "minimal": return "%s_hndl.%s_PTR_%s" % (l, u, n)
    if c["format"] == "minimal-c++": return "%s::%s_PTR_%s" % (l, u, n)
    return "%s_RAWPTR_%s" % (u, n)


def unusable(c, s):
    """a variadic wrapper that is not callable under its own name in this configuration"""
    return c["visible"] and not s["obj"] and s["va"] is not None and (c["opt"] == "-O0" or c["cc"] == "clang") and c["format"] == "c" and c["wrap"] != "raw"


def flag_table(c):
    P = plat(c); r = P["win"] != 1; t = [("RTLD_LAZY", 1 if r else 0), ("RTLD_NOW", 2 if r else 0), ("RTLD_GLOBAL", 0x100 if r else 0), ("RTLD_LOCAL", 0), ("RTLD_BINDING_MASK", 3 if r else 0), ("RTLD_DEEPBIND", 8 if r else 0),
        ("RTLD_NODELETE", 0x1000 if r else 0), ("RTLD_NOLOAD", 4 if r else 0), ("RTLD_MEMBER", 0x40000 if P["aix"] else 0), ("DL_LAZY", 1 if r else 0)]
    t += [("RTLD_" + n, 0) for n in ("CONFGEN", "FIRST", "GROUP", "MODEMASK", "NOAUTODEFER", "PARENT", "TRACE", "WORLD")]
    w = {"DONT_RESOLVE_DLL_REFERENCES": 1, "LOAD_LIBRARY_AS_DATAFILE": 2, "LOAD_WITH_ALTERED_SEARCH_PATH": 8, "LOAD_IGNORE_CODE_AUTHZ_LEVEL": 16, "LOAD_LIBRARY_SEARCH_DEFAULT_DIRS": 0x1000}
    for n in list(w) + ["LOAD_LIBRARY_AS_DATAFILE_EXCLUSIVE", "LOAD_LIBRARY_AS_IMAGE_RESOURCE", "LOAD_LIBRARY_SEARCH_APPLICATION_DIR", "LOAD_LIBRARY_SEARCH_DLL_LOAD_DIR", "LOAD_LIBRARY_SEARCH_SYSTEM32",
            "LOAD_LIBRARY_SEARCH_USER_DIRS", "LOAD_LIBRARY_REQUIRE_SIGNED_TARGET", "LOAD_LIBRARY_SAFE_CURRENT_DIRS"]: t.append((n, w.get(n, 0) if P["win"] else 0))
    return t


def adapter(c, header):
    l, u = names_of(c); f = c["format"]; o = ['#include "pre.h"', '#include "%s"' % header, HELP if f == "plugin" else "", ]
    # helpers first so that aliases cannot interfere with them
    o = ['#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>', HELP, '#include "pre.h"', '#include "%s"' % header, "#ifdef %s_BUFLEN\n#define RT_BUFLEN %s_BUFLEN\n#else\n#define RT_BUFLEN 8192\n#endif" % (u, u)]
    o.append(EXTC)
    use = dict(c); use["syms"] = [s if not unusable(c, s) else dict(s, skip=1) for s in c["syms"]]
    src = calls_src(c, 0, None).split("\n")
    drop = {i for i, s in enumerate(c["syms"]) if not s["obj"] and unusable(c, s)}
    o += [x for x in src if not any(x.startswith("void rt_c0_%d(" % i) for i in drop)]
    for i, s in enumerate(c["syms"]):
        n = s["name"]
        if f == "plugin": continue
        o.append("void *rt_gp_%d(void) { return (void *)%s; }" % (i, rawptr(c, n)))
        if f in ("c", "c++"): o.append("int rt_ln_%d(void) { return %s_LOAD_%s; }" % (i, u, n))
    for s in c["syms"]: o.append("#undef %s" % s["name"])
    if f in ("c", "c++"):   # the flag names a user may always use: the platform's value, or 0 where it has none
        o.append("static const int rt_fu[] = { %s }; int rt_flag_user(int i) { return rt_fu[i]; }" % ", ".join("(int)(%s)" % n for n, _ in flag_table(c)))
    if f in ("c", "c++"): o.append("int rt_enum_last(void) { return %s_ENUM_LAST; } int rt_def_flags(void) { return %s_DEFAULT_FLAGS; }" % (u, u))
    if f == "plugin": o.append("int rt_def_flags(void) { return %s_DEFAULT_FLAGS; }" % u)
    o.append("int rt_buflen(void) { return (int)RT_BUFLEN; }")
    S = "static "; P = plat(c); wd = P["wide"] and f in ("c", "plugin")
    o.append("#define RT_IN(x) %s\n#define RT_OUT(x) %s" % (("rt_to_wide(x)", "rt_to_narrow(x)") if wd else ("(x)", "(x)")))
    if f == "c":
        dl = c["default_lib"] is not None
        o.append(S + "int rt_w_load_lib_name(const char *f) { return %s_load_lib_name(RT_IN(f)); }" % l)
        o.append(S + "int rt_w_load_lib_name_s(const char *f) { return %s_load_lib_name_and_symbols(RT_IN(f)); }" % l)
        o.append(S + "int rt_w_load_args(const char *f, int fl, int ns) { return %s_load_lib_args(RT_IN(f), fl, ns != 0); }" % l)
        for n in (["load_lib", "load_lib_and_symbols"] if dl else []) + ["lib_is_loaded", "free_lib", "enable_autorelease", "load_all_symbols", "all_symbols_loaded", "no_symbols_loaded", "any_symbol_loaded"]:
            o.append(S + "int rt_w_%s(void) { return %s_%s(); }" % (n, l, n))
        o.append(S + "void rt_w_force(void) { %s_force_free_lib(); }" % l)
        o.append(S + "int rt_w_num(int n) { return %s_load_symbol(n); }" % l)
        o.append(S + "int rt_w_name(const char *n) { return %s_load_symbol_name(n); }" % l)
        o.append(S + "const char *rt_w_err(void) { return RT_OUT(%s_last_error()); }" % l)
        o.append(S + "const char *rt_w_path(void) { return RT_OUT(%s_library_path()); }" % l)
        o.append("void rt_fill(RtApi *a) { %s a->load_lib_name = rt_w_load_lib_name; a->load_lib_name_and_symbols = rt_w_load_lib_name_s; a->load_lib_args = rt_w_load_args; a->is_loaded = rt_w_lib_is_loaded; a->free_lib = rt_w_free_lib; a->force_free = rt_w_force; a->autorelease = rt_w_enable_autorelease; a->load_all = rt_w_load_all_symbols; a->load_num = rt_w_num; a->load_name = rt_w_name; a->all_loaded = rt_w_all_symbols_loaded; a->no_loaded = rt_w_no_symbols_loaded; a->any_loaded = rt_w_any_symbol_loaded; a->last_error = rt_w_err; a->lib_path = rt_w_path; }" % ("a->load_lib = rt_w_load_lib; a->load_lib_and_symbols = rt_w_load_lib_and_symbols;" if dl else ""))
    elif f == "c++":
        D = "((%s::dl *)i)" % l; NS = l
        o.append(S + "void rt_cpy(char *b, size_t n, const std::string &q) { std::string s; for (char x : q) if (x) s += x; else s += \"<NUL>\"; size_t k = s.size() < n - 1 ? s.size() : n - 1; memcpy(b, s.data(), k); b[k] = 0; }")
        wa = P["win"] == 1
        if wa: o.append(S + "void rt_cpyw(char *b, size_t n, const std::wstring &q) { std::string s; size_t p = 0, e; while ((e = q.find(L'\\0', p)) != q.npos) { s += rt_to_narrow(q.substr(p, e - p).c_str()); s += \"<NUL>\"; p = e + 1; } s += rt_to_narrow(q.c_str() + p); rt_cpy(b, n, s); }")
        new1 = "switch (rt_variant) { case 1: if (na == 1) return new %(N)s::dl(true, f); if (na == 2) return new %(N)s::dl(true, f, fl); break; case 2: if (na == 1) return new %(N)s::dl(std::wstring(rt_to_wide(f))); if (na == 2) return new %(N)s::dl(std::wstring(rt_to_wide(f)), fl); break; case 3: if (na == 1) return new %(N)s::dl(false, f); if (na == 2) return new %(N)s::dl(false, f, fl); break; }" if wa else ""
        ld1 = new1.replace("new %(N)s::dl(", "%(D)s->load(")
        get = lambda fn: "if (rt_wsel) { rt_cpyw(b, n, %(D)s->" + fn + "_w()); return; } rt_cpy(b, n, %(D)s->" + fn + "());" if wa else "rt_cpy(b, n, %(D)s->" + fn + "());"
        o.append("""static void *rt_x_new(void) { return new %(N)s::dl(); }
static void *rt_x_new_args(const char *f, int na, int fl, int ns) { """ + new1 + """ if (na == 1) return new %(N)s::dl(f); if (na == 2) return new %(N)s::dl(f, fl); return new %(N)s::dl(f, fl, ns != 0); }
static void rt_x_del(void *i) { delete %(D)s; }
static int rt_x_load(void *i, const char *f, int na, int fl, int ns) { """ + ld1 + """ if (na == 1) return %(D)s->load(f); if (na == 2) return %(D)s->load(f, fl); return %(D)s->load(f, fl, ns != 0); }
static int rt_x_load0(void *i) { return %(D)s->load(); }
static int rt_x_lls(void *i) { return %(D)s->load_lib_and_symbols(); }
static int rt_x_flags(void *i) { return %(D)s->flags(); }
static int rt_x_la(void *i) { return %(D)s->load_all_symbols(); }
static int rt_x_ln(void *i, int n) { return %(D)s->load_symbol(n); }
static int rt_x_lnm(void *i, const char *n) { return %(D)s->load_symbol(n); }
static int rt_x_all(void *i) { return %(D)s->all_symbols_loaded(); }
static int rt_x_no(void *i) { return %(D)s->no_symbols_loaded(); }
static int rt_x_any(void *i) { return %(D)s->any_symbol_loaded(); }
static int rt_x_free(void *i, int na, int force) { return na ? %(D)s->free(force != 0) : %(D)s->free(); }
static void rt_x_sd(void *i, int b) { %(D)s->free_lib_in_dtor(b != 0); }
static int rt_x_gd(void *i) { return ((const %(N)s::dl *)i)->free_lib_in_dtor(); }
static void rt_x_fn(void *i, char *b, size_t n) { """ + get("filename") + """ }
static void rt_x_err(void *i, char *b, size_t n) { """ + get("error") + """ }
static void rt_x_path(void *i, char *b, size_t n) { """ + get("library_path") + """ }
static int rt_x_isl(void) { return %(N)s::dl::lib_loaded(); }
static void rt_x_lib(const char *nm, size_t api, char *b, size_t n) { """ + ("if (rt_wsel) { rt_cpyw(b, n, %(N)s::make_libname(std::wstring(rt_to_wide(nm)), api)); return; } " if wa else "") + """rt_cpy(b, n, %(N)s::make_libname(std::string(nm), api)); }
static void rt_x_ext(char *b, size_t n) { """ + ("if (rt_wsel) { rt_cpyw(b, n, std::wstring(%(N)s::libext_w)); return; } " if wa else "") + """rt_cpy(b, n, std::string(%(N)s::libext)); }
""")
        o[-1] = o[-1] % {"N": NS, "D": D}
        w = c["wrap"] != "raw"
        if w: o.append("static void rt_x_scb(void (*cb)(const char *)) { %s::dl::message_callback(cb); } static void *rt_x_gcb(void) { return (void *)%s::dl::message_callback(); }" % (NS, NS))
        o.append("void rt_fill(RtApi *a) { a->is_loaded = rt_x_isl; a->x_new = rt_x_new; a->x_new_args = rt_x_new_args; a->x_delete = rt_x_del; a->x_load = rt_x_load; a->x_load0 = rt_x_load0; a->x_load_lib_and_symbols = rt_x_lls; a->x_flags = rt_x_flags; a->x_load_all = rt_x_la; a->x_load_num = rt_x_ln; a->x_load_name = rt_x_lnm; a->x_all = rt_x_all; a->x_no = rt_x_no; a->x_any = rt_x_any; a->x_free = rt_x_free; a->x_set_dtor = rt_x_sd; a->x_get_dtor = rt_x_gd; a->x_filename = rt_x_fn; a->x_error = rt_x_err; a->x_path = rt_x_path; a->x_libname = rt_x_lib; a->x_libext = rt_x_ext; %s }" % ("a->x_set_cb = rt_x_scb; a->x_get_cb = rt_x_gcb;" if w else ""))
    elif f == "plugin":
        PL = "((%s_plugin_t *)p)" % l
        if wd: o.append(S + "void *rt_p_load(const char **f, size_t n) { const wchar_t *w[64]; if (!f) return %s_load_plugins(NULL, n); for (size_t i = 0; i < n; i++) w[i] = rt_to_wide(f[i]); return %s_load_plugins(w, n); }" % (l, l))
        else: o.append(S + "void *rt_p_load(const char **f, size_t n) { return %s_load_plugins(f, n); }" % l)
        o.append(S + "void rt_p_rel(void *p) { %s_release_plugins(%s); }" % (l, PL))
        o.append(S + "size_t rt_p_num(void *p) { return %s->num; }" % PL)
        o.append(S + "const char *rt_p_fn(void *p, size_t i) { return RT_OUT(%s->list[i].filename); }" % PL)
        o.append(S + "void *rt_p_h(void *p, size_t i) { return (void *)%s->list[i].handle; }" % PL)
        o.append(S + "void *rt_p_ptr(void *p, size_t i, int s) { switch (s) {")
        for i, s in enumerate(c["syms"]): o.append("case %d: return (void *)%s->list[i].ptr.%s;" % (i, PL, s["name"]))
        o.append("} return NULL; }")
        o.append(S + "void rt_p_call(void *p, size_t i, int s, RtCall *r) { switch (s) {")
        for i, s in enumerate(c["syms"]):
            if not s["obj"]: o.append("case %d: rt_c0_%d(&%s->list[i], r); break;" % (i, i, PL))
        o.append("} }")
        o.append("void rt_fill(RtApi *a) { a->p_load = rt_p_load; a->p_release = rt_p_rel; a->p_num = rt_p_num; a->p_filename = rt_p_fn; a->p_handle = rt_p_h; a->p_ptr = rt_p_ptr; a->p_call = rt_p_call; }")
    elif f == "minimal":
        o.append(S + "int rt_m_load(const char *f, char *b, size_t n) { const char *e = %s_load_library_and_symbols(f); b[0] = 0; if (!e) return 0; strncpy(b, e, n - 1); b[n - 1] = 0; return 1; }" % l)
        o.append("void rt_fill(RtApi *a) { a->m_load = rt_m_load; a->m_free = %s_free_library; }" % l)
    else:
        o.append(S + "int rt_m_load(const char *f, char *b, size_t n) { b[0] = 0; try { %(l)s::load_library_and_symbols(f); return 0; } catch (const %(l)s::LibraryError &e) { strncpy(b, e.what(), n - 1); b[n - 1] = 0; return 1; } catch (const %(l)s::SymbolError &e) { strncpy(b, e.what(), n - 1); b[n - 1] = 0; return 2; } catch (...) { return 3; } }" % {"l": l})
        o.append("void rt_fill(RtApi *a) { a->m_load = rt_m_load; a->m_free = %s::free_library; }" % l)
    o.append(EXTC_END)
    return "\n".join(o) + "\n"


def tu2(c, header):
    """a second translation unit calling the symbols: through the header, or (visible wrappers) by plain declaration"""
    if c["multi_tu"]:
        return "\n".join(['#include <stdio.h>', HELP, '#include "pre.h"', '#include "%s"' % header, EXTC, calls_src(c, 1, None), EXTC_END]) + "\n"
    if c["visible"]:
        cc = dict(c, alias_off=False); o = ['#include <stdio.h>', HELP]
        if c["format"] == "c": o.append(EXTC)
        for s in c["syms"]:
            if s["obj"] or s["va"] is not None: continue
            ps = [declr(t, "") if t in SCALARS else DECL[t][0].replace("@", "") for t, _ in s["params"]]
            rt = "void" if s["ret"] == "void" else SCALARS[s["ret"]][0]
            o.append("extern %s %s(%s);" % (rt, s["name"], ", ".join(ps) if ps else "void"))
        if c["format"] == "c": o.append(EXTC_END)
        o.append(EXTC); src = calls_src(cc, 1, None).split("\n")
        drop = {i for i, s in enumerate(c["syms"]) if not s["obj"] and s["va"] is not None}
        o += [x for x in src if not any(x.startswith("void rt_c1_%d(" % i) for i in drop)]; o.append(EXTC_END)
        return "\n".join(o) + "\n"
    return None


def tables(c):
    """the configuration record; sees no generated code"""
    f = c["format"]; o = ['#include "rt_abi.h"', "#include <string.h>"]
    t2 = c["multi_tu"] or c["visible"]
    for i, s in enumerate(c["syms"]):
        if f != "plugin": o.append("extern void *rt_gp_%d(void);" % i)
        if s["obj"]:
            if f != "plugin": o.append("extern uint64_t rt_or_%d(void);" % i + ("" if readonly(s) else " extern void rt_ow_%d(uint64_t);" % i))
        elif f != "plugin":
            if not unusable(c, s): o.append("extern void rt_c0_%d(RtCall *);" % i)
            if t2 and not (c["visible"] and s["va"] is not None): o.append("extern void rt_c1_%d(RtCall *);" % i)
        if f in ("c", "c++"): o.append("extern int rt_ln_%d(void);" % i)
    o.append("extern int rt_buflen(void); extern void rt_fill(RtApi *); extern void *(*const rt_tg)(int, int); extern void (*const rt_oset)(int, int, uint64_t); extern uint64_t (*const rt_oget)(int, int);")
    if f in ("c", "c++"): o.append("extern int rt_enum_last(void);")
    o.append("static RtApi api; static RtSym syms[%d];" % len(c["syms"]))
    o.append("RtConfig rt_config;")
    common = os.path.commonprefix([s["name"] for s in c["syms"]]) if len(c["syms"]) > 1 else ""
    o.append("__attribute__((constructor(101))) static void rt_setup(void) { memset(&api, 0, sizeof api); rt_fill(&api); RtConfig *c = &rt_config;")
    flags = c["flags"][1] if c["flags"] else 0 if plat(c)["win"] == 1 else 0x40001 if plat(c)["aix"] else 1
    dl = "0" if c["default_lib"] is None else json.dumps(c["default_lib"])
    o.append("c->id = \"%d\"; c->format = %d; c->wrap = %d; c->nsym = %d; c->sym = syms; c->api = &api; c->default_flags = %d; c->buflen = rt_buflen(); c->default_lib = %s; c->common_prefix = %s; c->target = rt_tg; c->objset = rt_oset; c->objget = rt_oget;" % (c["seed"], FMT[f], WRAP[c["wrap"]], len(c["syms"]), flags, dl, json.dumps(common)))
    if f in ("c", "c++"):
        o.append("c->enum_last = rt_enum_last();")
        o.append("extern int rt_flag_user(int); static const int rt_flag_true[] = { %s }; c->nflags = %d; c->flag_user = rt_flag_user; c->flag_true = rt_flag_true;" % (", ".join(str(v) for _, v in flag_table(c)), len(flag_table(c))))
    P = plat(c); pre, mid, post = P["libname"]
    o.append("c->plat = \"%s\"; c->win = %d; c->wide = %d; c->has_ns = %d; c->has_dlinfo = %d; c->has_dladdr = %d; c->pmq = %d; c->aix = %d; c->libext = \"%s\"; c->libname_pre = \"%s\"; c->libname_mid = %s; c->libname_post = \"%s\";" % (
        c.get("plat", "glibc"), P["win"], P["wide"], P["has_ns"], P["has_dlinfo"], P["has_dladdr"], P["pmq"], P["aix"], P["ext"], pre, "0" if mid is None else '"%s"' % mid, post))
    if P["aix"]: o.append("extern void rt_aixrange(int, void **, void **, void **, void **); c->aixrange = rt_aixrange;")
    for i, s in enumerate(c["syms"]):
        a = "syms[%d]" % i
        o.append("%s.name = \"%s\"; %s.is_obj = %d;" % (a, s["name"], a, s["obj"]))
        if f == "plugin":
            if not s["obj"]: o.append("%s.varargs = %d;" % (a, s["va"] is not None))
            continue
        o.append("%s.getptr = rt_gp_%d;" % (a, i))
        if f in ("c", "c++"): o.append("%s.load_num = rt_ln_%d();" % (a, i))
        if s["obj"]: o.append("%s.objread = rt_or_%d;" % (a, i) + ("" if readonly(s) else " %s.objwrite = rt_ow_%d;" % (a, i)))
        else:
            o.append("%s.varargs = %d; %s.has_hook = %d;" % (a, s["va"] is not None, a, s["hook"]))
            if unusable(c, s): o.append("%s.inlined_only = 1;" % a)
            else: o.append("%s.call[0] = rt_c0_%d;" % (a, i))
            if t2 and not (c["visible"] and s["va"] is not None): o.append("%s.call[1] = rt_c1_%d;" % (a, i))
    o.append("}")
    return "\n".join(o) + "\n"


SECOND = [(re.compile(a), b) for a, b in [(r"\brt_(c\d|gp|ln|or|ow|t|o|hk)_(\d+)", r"sh_\1_\2"), (r"\brt_(c\d+)_", r"sh_\1_"), (r"\brt_([wxpm])_([a-z])", r"sh_\1_\2"),
    (r"\brt_(cpyw?|fill|buflen|def_flags|enum_last|flag_user|flag_true|fu|tg|oset|oget|target_called|aixrange|config)\b", r"sh_\1"), (r"\bRT_(BUFLEN|IN|OUT)\b", r"SH_\1")]]


def second(t):
    """the adapter code of the second API: the same code under other names"""
    for a, b in SECOND: t = a.sub(b, t)
    return t


REDEF = ["dlopen", "dlmopen", "dlsym", "dlvsym", "dlclose", "dlerror", "dlinfo", "dladdr", "dladdr1", "fopen", "fclose", "open", "close", "ioctl", "atexit", "exit", "quick_exit", "abort",
         "malloc", "calloc", "realloc", "strdup", "strndup", "free"]
REDEF_ARGS = ["--redefine-sym=%s=sim_%s" % (x, x) for x in REDEF] + ["--redefine-sym=__cxa_atexit=sim_cxa_atexit", "--redefine-sym=_exit=sim__exit", "--redefine-sym=_Exit=sim__Exit", "--redefine-sym=fopen64=sim_fopen64", "--redefine-sym=open64=sim_open64",
              "--redefine-sym=__strdup=sim___strdup", "--redefine-sym=_ZSt9terminatev=sim_terminate"]
SANF = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-g1"]


class BuildError(Exception):
    def __init__(self, stage, msg):
        Exception.__init__(self, "%s: %s" % (stage, msg)); self.stage, self.msg = stage, msg


def run(cmd, stage, cwd, timeout=120, env=None):
    try: p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: raise BuildError(stage, "timed out")
    if p.returncode: raise BuildError(stage, p.stdout.decode("latin1")[-3000:])


def build(c, d, genbin, engine_objs, here):
    """writes, generates, compiles configuration c in directory d; returns the binary.  BuildError stages:
    "generator" and "compile" mean the code under test failed, anything else is a fault of the harness."""
    os.makedirs(d, exist_ok=True)
    w = lambda n, t: open(os.path.join(d, n), "w").write(t)
    cxxh = c["format"] in ("c++", "minimal-c++")
    hdr, body = ("out.hpp", "out.cpp") if cxxh else ("out.h", "out.c")
    for n in ("out.h", "out.c", "out.hpp", "out.cpp"):
        if os.path.lexists(os.path.join(d, n)): os.unlink(os.path.join(d, n))
    w("in.txt", input_text(c)); w("rt_types.h", TYPES_H); w("pre.h", pre_h(c)); w("targets.c", targets_c(c)); w("tables.c", tables(c))
    if c["ast"]:
        os.rename(os.path.join(d, "in.txt"), os.path.join(d, "in.h"))
        with open(os.path.join(d, "in.txt"), "wb") as f:
            if subprocess.run(["clang", "-Xclang", "-ast-dump", "-fsyntax-only", "-w", "in.h"] + (["-fcolor-diagnostics"] if c["seed"] % 5 == 0 else []), cwd=d, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE, timeout=60).returncode: raise RuntimeError("clang rejects the declarations")
    run([genbin] + gen_args(c, "in.txt", hdr), "generator", d, 30)
    ext = "cpp" if c["lang"] == "c++" else "c"
    text = adapter(c, hdr); t2 = tu2(c, hdr); sh = c.get("sh"); atext2 = None
    if sh:
        shh, shb = ("sh.hpp", "sh.cpp") if sh["format"] in ("c++", "minimal-c++") else ("sh.h", "sh.c")
        if sh.get("samename"):      # two header files of the same name in different directories
            shh, shb = "s2/" + shh.replace("sh.", "out."), "s2/" + shb.replace("sh.", "out."); os.makedirs(os.path.join(d, "s2"), exist_ok=True)
        for n in ("sh.h", "sh.c", "sh.hpp", "sh.cpp", "s2/out.h", "s2/out.c", "s2/out.hpp", "s2/out.cpp"):
            if os.path.lexists(os.path.join(d, n)): os.unlink(os.path.join(d, n))
        w("in2.txt", input_text(sh)); w("pre2.h", pre_h(sh)); w("targets2.c", second(targets_c(sh))); w("tables2.c", second(tables(sh)))
        run([genbin] + gen_args(sh, "in2.txt", shh), "generator", d, 30)
        i1, i2 = '#include "pre.h"\n#include "%s"' % hdr, '#include "pre2.h"\n#include "%s"' % shh
        atext2 = second(adapter(sh, shh).replace('#include "pre.h"', '#include "pre2.h"'))
        if i1 not in text or i2 not in atext2: raise RuntimeError("adapter layout")
        if c["same_tu"]:
            text = text.replace(i1, i2 + "\n" + i1 if sh["second_first"] else i1 + "\n" + i2) + atext2.replace(i2, "").replace(HELP, ""); atext2 = None
    w("adapter." + ext, text)
    cc = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[c["cc"]][c["lang"] == "c++"]
    inc = ["-I" + d, "-I" + here]; san = SANF if c["san"] else []
    pd = plat(c)["defs"]
    if pd: inc = ["-D_GNU_SOURCE"] + ["-DRT_PLAT_" + x for x in pd] + ["-I" + os.path.join(here, "plat"), "-include", os.path.join(here, "plat", "plat_pre.h")] + inc
    base = [cc] + c["std"].split() + [c["opt"], "-w", "-c"] + inc + san
    inc0 = ["-I" + d, "-I" + here]
    run(["gcc", "-std=gnu11", "-O0", "-w", "-c"] + inc0 + ["targets.c", "-o", "targets.o"], "harness", d)
    run(["gcc", "-std=gnu11", "-O0", "-w", "-c"] + inc0 + ["tables.c", "-o", "tables.o"], "harness", d)
    objs = ["adapter.o"]
    run(base + ["adapter." + ext, "-o", "adapter.o"], "compile", d)
    if t2:
        w("tu2." + ext, t2); run(base + ["tu2." + ext, "-o", "tu2.o"], "compile", d); objs.append("tu2.o")
    if c["separate"]:
        bb = base + (["-x", "c++"] if c["lang"] == "c++" else [])
        run(bb + ["-include", "pre.h", body, "-o", "body.o"], "compile", d); objs.append("body.o")
    if sh:
        run(["gcc", "-std=gnu11", "-O0", "-w", "-c"] + inc0 + ["targets2.c", "-o", "targets2.o"], "harness", d)
        run(["gcc", "-std=gnu11", "-O0", "-w", "-c"] + inc0 + ["tables2.c", "-o", "tables2.o"], "harness", d)
        ext2 = "cpp" if sh["lang"] == "c++" else "c"; cc2 = {"gcc": ("gcc", "g++"), "clang": ("clang", "clang++")}[sh["cc"]][sh["lang"] == "c++"]
        base2 = [cc2] + sh["std"].split() + [sh["opt"], "-w", "-c"] + inc + san
        if atext2: w("adapter2." + ext2, atext2); run(base2 + ["adapter2." + ext2, "-o", "adapter2.o"], "compile", d); objs.append("adapter2.o")
        if sh["separate"]: run(base2 + (["-x", "c++"] if sh["lang"] == "c++" else []) + ["-include", "pre2.h", shb, "-o", "body2.o"], "compile", d); objs.append("body2.o")
    for ob in objs: run(["objcopy"] + REDEF_ARGS + [ob], "harness", d)
    run(["g++"] + (SANF if c["san"] else []) + ["-rdynamic"] * 0 + [engine_objs[1 if c["san"] else 0]] + objs + ["targets.o", "tables.o"] + (["targets2.o", "tables2.o"] if sh else []) + ["-o", "rt"], "compile", d)
    return os.path.join(d, "rt")
