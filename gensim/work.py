"""Seeded workloads: inputs, templates, command lines, file system contents, and what the run is allowed to write."""
import random, os

TYPES = ["int", "void", "char *", "const char *", "unsigned long", "double", "size_t", "void *", "struct foo *", "unsigned char", "long long", "my_type_t", "const my_type_t *", "enum kind", "float"]
ARGT = ["int", "const char *", "void *", "unsigned long", "double", "size_t", "struct foo *", "char **", "my_type_t", "const void *", "long long", "union u *"]
WORDS = ["open", "close", "read", "get", "set", "init", "free", "list", "item", "size", "name", "next", "ctx", "hook", "data", "err"]
FORMATS = ["c", "c++", "cxx", "cpp", "plugin", "plugin-c", "minimal", "minimal-c", "minimal-c++", "C", "Plugin", "minimal-cxx"]
TEMPLATE_FILES = ["license.h", "filename_macros.h", "common.h", "common.c", "c.h", "c.c", "cxx.hpp", "cxx.cpp", "minimal.h", "minimal_cxxeh.hpp", "plugin.h", "plugin.c"]
USED = {"c": ["common.h", "common.c", "c.h", "c.c"], "cxx": ["common.h", "common.c", "cxx.hpp", "cxx.cpp"], "plugin": ["common.h", "common.c", "plugin.h", "plugin.c"], "minimal": ["minimal.h"], "minimal-cxx": ["minimal_cxxeh.hpp"]}


def canon_format(f):
    f = f.lower()
    if f == "c": return "c"
    if f in ("cxx", "c++", "cpp"): return "cxx"
    if f in ("minimal", "minimal-c"): return "minimal"
    if f in ("minimal-cxx", "minimal-c++", "minimal-cpp"): return "minimal-cxx"
    return "plugin"


def names(r, n):
    pfx = r.choice(["", "", "lib_", "x", "foo_", "GDO", "gdo", "abc_", "a_longer_library_prefix_", "another_vendor_Api2"]); out = []; seen = set()
    while len(out) < n:
        s = pfx + "_".join(r.choice(WORDS) for _ in range(r.randint(1, 3))) + (str(r.randint(0, 999)) if r.random() < .5 or n > 30 else "")
        if s not in seen: seen.add(s); out.append(s)
    return out


def decls(r, n):
    """(kind, text, name, ast-lines)"""
    out = []
    for s in names(r, n):
        k = r.random()
        if k < .72 or not out:
            t = r.choice(TYPES); na = r.choice([0, 0, 1, 1, 2, 3, 5]); a = []
            for i in range(na):
                at = r.choice(ARGT)
                a.append((at, "p%d" % i))
            if a and r.random() < .12: a[-1] = ("int (*)(int, void *)", "cb")
            va = bool(a) and r.random() < .12
            txt = []
            for at, an in a:
                txt.append(at.replace("(*)", "(*%s)" % an) if "(*)" in at else at + ("" if at.endswith("*") else " ") + an)
            if va: txt.append("...")
            args = ", ".join(txt) if txt else "void"
            ft = "%s (%s)" % (t, ", ".join([x[0] for x in a] + (["..."] if va else [])))
            ast = ["FunctionDecl 0x55d9 <line:1:1, col:9> col:5 %s '%s'" % (s, ft)] + ["  |-ParmVarDecl 0x55da <col:1> col:2 %s '%s'" % (an, at) for at, an in a]
            out.append(("f", "%s %s(%s);" % (t, s, args), s, ast))
        elif k < .86:
            t = r.choice([x for x in TYPES if x != "void"]); out.append(("o", "extern %s %s;" % (t, s) if r.random() < .7 else "%s %s;" % (t, s), s, ["VarDecl 0x55db <line:2:1> col:5 %s '%s' extern" % (s, t)]))
        elif k < .93: out.append(("p", "int (*%s)(int, const char *);" % s, s, ["VarDecl 0x55dc <line:2:1> col:5 %s 'int (*)(int, const char *)' extern" % s]))
        else: out.append(("a", "char %s[%d];" % (s, r.randint(1, 64)), s, ["VarDecl 0x55dd <line:2:1> col:5 %s 'char[%d]' extern" % (s, r.randint(1, 64))]))
    return out


def lengthen(r, d):
    """the same declaration with a name, a type or an argument list longer than any buffer"""
    k, t, n, a = d; x = r.random(); long = r.choice("abcXYZ_") * r.choice([255, 256, 1023, 2048, 8190, 8192, 16380, 16384, 16385, 16390, 20000, 33000, 40000])
    if x < .6: m = n + long; return k, t.replace(n, m), m, [q.replace(n, m) for q in a]
    if k != "f" or x < .8: return k, t.replace(n, "t" + long[:5000] + " * " + n, 1) if x < .7 else t, n, a
    return k, "int %s(%s);" % (n, ", ".join("int arg%d" % i for i in range(r.choice([50, 127, 128, 300, 2000])))), n, a


def make_input(r, long=.02):
    """returns dict(text, ast, names, small)"""
    k = r.random(); n = r.randint(1, 7) if k < .78 else r.randint(8, 40) if k < .96 else r.randint(120, 400)
    ds = decls(r, n)
    if r.random() < long: i = r.randrange(len(ds)); ds[i] = lengthen(r, ds[i])
    ast = r.random() < .16; l = []; opts = []
    if ast:
        l.append("TranslationUnitDecl 0x55d9f8 <<invalid sloc>> <invalid sloc>")
        for i in range(r.randint(0, 3)): l.append("|-TypedefDecl 0x55d9f8%d <<invalid sloc>> <invalid sloc> implicit __int128_t '__int128'" % i)
        for i, d in enumerate(ds):
            last = i == len(ds) - 1
            for j, x in enumerate(d[3]):
                if j == 0: l.append(("`-" if last else "|-") + x)
                else: l.append((" " if last else "|") + " " + ("`-" if j == len(d[3]) - 1 else "|-") + x.strip()[2:])
    else:
        for d in ds:
            x = r.random()
            if x < .10: l.append("// a comment %s" % "".join(r.choice("abc *;(){}") for _ in range(r.randint(0, 60))))
            elif x < .18: l.append("/* a comment\n * over lines ; ( { \n */")
            elif x < .24: l.append("#include <stdio.h> // x\n#define FOO(a) \\\n  bar(a)")
            elif x < .27: l.append("struct foo { int a; struct { int b; } c; };")
            elif x < .30: l.append("typedef struct my_type { int a; } my_type_t;")
            t = d[1]
            if r.random() < .15: t = t.replace(", ", ",\n    ")
            if r.random() < .05: t = t.replace(" ", "  \t ")
            l.append(t)
        if r.random() < .2: opts = r.sample(["no-date", "format=c++", "include=nq:<x.h>", "D=ABC=1", "param=create", "library=libx.so", "line", "no-pragma-once", "format=minimal"], r.randint(1, 3)); l.insert(r.randint(0, len(l)), "%option " + " ".join(opts))
        if r.random() < .05: l.append("int broken(int a) = 3;" if r.random() < .5 else "int $bad;")
        if r.random() < .03: l.append("int unterminated(")
    if r.random() < .04: l = [x for x in l if not x]
    text = "\n".join(l) + ("\n" if r.random() < .9 else "")
    if r.random() < .08: text = text.replace("\n", "\r\n")
    if r.random() < .05: text = "\xef\xbb\xbf" + text
    if r.random() < .06: text = "/*" + "x" * r.choice([4000, 8100, 8192, 17000]) + "*/\n" * 1 + text if not ast else text
    return dict(text=text, ast=ast, names=[d[2] for d in ds], n=n, opts=opts)


def make_template(r):
    l = []
    for _ in range(r.choice([0, 1, 3, 8, 20, 60])):
        x = r.random()
        if x < .3: l.append("/* line %d gdo_foo GDO_BAR gdo */" % r.randint(0, 99))
        elif x < .45: l.append("%%type%% %%func_symbol%%(%%args%%);")
        elif x < .55: l.append("extern %%obj_type%% %%obj_symbol%%;")
        elif x < .65: l.append("{ \"%%symbol%%\", (%%sym_type%%)0 },")
        elif x < .75: l.append("%%type%% gdo_%%func_symbol%%(%%args%%)@\n{@\n    %%return%% ptr(%%param_names%%);@\n}")
        elif x < .8: l.append("%PARAM_SKIP_REMOVE_BEGIN%\nskipped\n%PARAM_SKIP_END%")
        elif x < .9: l.append("")
        else: l.append("x" * r.choice([10, 200, 5000]))
    t = "\n".join(l) + ("\n" if r.random() < .85 else r.choice(["", "@"]))
    if r.random() < .1: t = t.replace("\n", "\r\n")
    return t


ENVS = [[], ["PATH=/bin", "HOME=/home/u"], ["LC_ALL=C", "TZ=UTC0"], ["LANG=de_DE.UTF-8", "TZ=CET-1CEST,M3.5.0,M10.5.0/3"], ["LC_ALL=tr_TR.UTF-8", "LANG=tr_TR"], ["TZ=NZST-12NZDT,M9.5.0,M4.1.0/3", "LC_TIME=ja_JP"], ["TZ=XXX5:30", "TERM=dumb", "COLUMNS=10"], ["POSIXLY_CORRECT=1", "LC_NUMERIC=fr_FR", "TZ=AAA+11"], ["TZ=:/nonexistent", "SOURCE_DATE_EPOCH=1"], ["TMPDIR=/w", "GDO=1", "CC=clang"]]


def lock_ext(p, ext):
    d, b = os.path.split(p); s = b.rfind(".")
    if s > 0: b = b[:s]
    return os.path.join(d, b + "." + ext)


def pick_symbols(r, names):
    """-S and -P options: one or several, in any order, seldom one that is not there"""
    k = r.random(); a = []
    if k < .8: a += ["-S" + x for x in r.sample(names, min(len(names), r.choice([1, 1, 2, 3, 5, 12])))]
    if k > .65: a += ["-P" + x[:r.choice([1, 3, 5, 9])] for x in r.sample(names, min(len(names), r.choice([1, 1, 2])))]
    if r.random() < .05: a.append("-Snot_there")
    if r.random() < .05: a.append(a[0])
    r.shuffle(a); return a


class Case: pass


def make_case(r, templates, mode=None, small=False, long=.02):
    """one command line with its world; returns Case(plan, inp, outs, mode, ...)"""
    c = Case(); inp = make_input(r, long); c.inp = inp
    mode = mode or r.choices(["gen", "custom", "print", "tpath", "dump"], [62, 12, 8, 13, 5])[0]; c.mode = mode
    ip = r.choice(["in.txt", "in.txt", "/in/decl.h", "sub/decls", "./in.txt", "in dir/a b.txt"]); c.input = ip
    nodes = [["file", 0o644, ip if ip[0] == "/" else "/w/" + ip.replace("./", ""), inp["text"]], ["dir", 0o755, "/w", ""], ["dir", 0o755, "/o", ""]]
    # innocent bystanders
    for p in r.sample(["/w/keep.txt", "/w/out.h.bak", "/o/other.hpp", "/w/out.orig", "/home/u/notes", "/w/.out.h.swp", "/tmp/x"], r.randint(1, 4)): nodes.append(["file", 0o644, p, "precious data of %s\n" % p * r.randint(1, 20)])
    args = []; fmt = r.choice(FORMATS) if r.random() < .7 else "c"; out = None; sep = False
    if mode in ("gen", "custom", "tpath"):
        k = r.random()
        if k < .72: out = r.choice(["out.h", "gdo.h", "/o/gen.hpp", "o.x", "noext", "./out.h", "/w/a.b.c", "sub dir/out.c" if 0 else "/o/o.c", "out.hpp"])
        elif k < .78: out = "-"
        if out: args.append("-out=" + out) if r.random() < .7 else args.extend(["-out", out])
        if r.random() < .4: args.append("-separate"); sep = True
    if mode != "dump":
        if fmt != "c" or r.random() < .3: args.append("-format=" + fmt)
        if r.random() < .5: args.append("-no-date")
        if r.random() < .25: args.append("-line")
        if r.random() < .2: args.append("-no-pragma-once")
        if r.random() < .2: args.append(r.choice(["-D=FOO", "-DBAR=2", "-D=A B=3"]))
        if r.random() < .2: args.append(r.choice(["-include=nq:<x.h>", "-include=y.h", "-include=<stdio.h>"]))
        if r.random() < .25: args.append("-library=" + r.choice(["libfoo.so", "nq:LIBFOO", "ext:libfoo", "api:1:foo", "api:bad"]))
        if r.random() < .35: args.append("-param=" + r.choice(["skip", "create", "read"]))
        if r.random() < .1: args.append("-ignore-options")
        if r.random() < (.004 if small else .012): args.append("-prefix=" + r.choice(["hello", "X_1", "gdo"]))
    if inp["ast"]:
        if r.random() < .6: args.append("-ast-all-symbols")
        else: args.extend(pick_symbols(r, inp["names"]))
    elif r.random() < .2: args.extend(pick_symbols(r, inp["names"]))
    if mode == "print": args.append("-print-symbols")
    tp = None
    if mode == "custom":
        tp = r.choice(["tpl.txt", "/t/custom.c"]); nodes.append(["file", 0o644, tp if tp[0] == "/" else "/w/" + tp, make_template(r)]); args.append("-template=" + tp)
    c.template = tp
    if mode == "tpath":
        td = r.choice(["/t", "tpl/", "/t/deep/dir"])
        edits = r.random() < .4
        for n in TEMPLATE_FILES:
            t = templates.get(n, "")
            if edits: t = t + "/* edited %s */\n" % n
            nodes.append(["file", 0o644, os.path.join(td if td[0] == "/" else "/w/" + td, n), t])
        args.append("-templates-path=" + td); c.tdir = td; c.edits = edits
    if mode == "dump":
        dd = r.choice(["d", "/o/dump", "new/a/b", "/w/exist", "/o/"])
        args.append("-dump-templates=" + dd); c.ddir = dd
        if dd == "/w/exist" : nodes.append(["dir", 0o755, "/w/exist", ""])
    r.shuffle(args) if not any(a == "-out" for a in args) else None
    args.insert(r.randint(0, len(args)) if not any(a == "-out" for a in args) else 0, ip)
    c.out = out; c.sep = sep; c.fmt = fmt
    from simlib import new_plan
    c.plan = new_plan(args=["gendlopen"] + args, env=list(r.choice(ENVS)), nodes=nodes)
    # where may this run write?  (options in the input may change the format, so ask for both candidates)
    a = lambda p: os.path.normpath(p if p[0] == "/" else "/w/" + p)
    c.outs = []
    if mode == "dump":
        d = a(dd); c.outs = [os.path.join(d, n) for n in TEMPLATE_FILES]; q = d
        while q != "/": c.outs.append(q); q = os.path.dirname(q)
    ef = canon_format(fmt)
    if not inp["ast"] and "-ignore-options" not in args:
        for o in inp["opts"]:
            if o.startswith("format="): ef = canon_format(o[7:])
    c.eff = ef
    if mode != "dump" and out and out != "-" and mode != "print":
        c.outs = [a(out)]
        if sep and mode != "custom" and not ef.startswith("minimal"): c.outs = [lock_ext(a(out), e) for e in (("hpp", "cpp") if ef == "cxx" else ("h", "c"))]
    c.stdout = not (out and out != "-") or mode == "dump"
    return c
