// rtsim engine: simulated dynamic loader, process map, allocator and exit handlers, plus the
// reference model of the generated API.  Linked with one generated configuration per binary.
// One 64-bit seed decides a whole history (calls, arguments, library contents and faults).
#include "rt_abi.h"
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <link.h>
#include <map>
#include <new>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using std::string;
typedef uint64_t u64;

// ------------------------------------------------------------------ PRNG
static inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix(seed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ------------------------------------------------------------------ operations and faults
enum FaultCls { F_OPEN, F_SYM, F_CLOSE, F_INFO, F_ADDR, F_ATEXIT, F_ALLOC, F_FOPEN, F_READ, F_CONV, F_FMT, F_IOCTL, F_NCLS };
static const char *fault_name[F_NCLS] = { "dlopen", "dlsym", "dlclose", "dlinfo", "dladdr", "atexit", "alloc", "fopen_maps", "read_maps", "conv", "fmtmsg", "ioctl" };
struct Fault { int cls; int nth; int mode; int sticky; };
enum OpKind {
    O_NOP,
    // C and C++
    O_LOADARGS, O_LOADNAME, O_LOADNAMESYM, O_LOADDEF, O_LOADDEFSYM, O_FREE, O_FORCE, O_AUTOREL,
    O_ALL, O_NUM, O_NAME, O_ERR, O_LIBPATH, O_CALL, O_OBJR, O_OBJW, O_QUERY,
    // C++ only
    O_NEW, O_DEL, O_LOAD0, O_DTORFLAG, O_SETCB, O_LIBNAME, O_FILENAME,
    // plugin
    O_PLOAD, O_PREL, O_PCALL,
    // minimal
    O_MLOAD, O_MFREE,
    // environment
    O_ENVLIB, O_ENVMAP, O_EXIT,
    // the second API
    O_SHADOW,
    O_NKIND
};
static const char *op_name[O_NKIND] = { "nop", "load_args", "load_name", "load_name_syms", "load_default", "load_default_syms", "free", "force_free", "autorelease",
    "load_all", "load_num", "load_symname", "last_error", "library_path", "call", "obj_read", "obj_write", "query", "new", "delete", "load0", "dtor_flag", "set_callback",
    "make_libname", "filename", "plugin_load", "plugin_release", "plugin_call", "min_load", "min_free", "env_lib", "env_map", "exit", "second_api" };
struct Op { int kind = 0; u64 a = 0, b = 0, c = 0; int fl = 0; std::vector<Fault> f; };
// fl bits: 1 read error afterwards, 2 run queries afterwards, 4 read the error twice
struct Header { u64 envseed = 0; int handle_reuse = 0, dlerr_sticky = 0, msg_style = 0, libmode = 0; };
struct History { Header h; std::vector<Op> ops; };

static string ser(const History &h)
{
    char b[256]; string s;
    snprintf(b, sizeof b, "H %llu %d %d %d %d\n", (unsigned long long)h.h.envseed, h.h.handle_reuse, h.h.dlerr_sticky, h.h.msg_style, h.h.libmode); s += b;
    for (auto &o : h.ops) {
        snprintf(b, sizeof b, "O %s %llu %llu %llu %d", op_name[o.kind], (unsigned long long)o.a, (unsigned long long)o.b, (unsigned long long)o.c, o.fl); s += b;
        for (auto &f : o.f) { snprintf(b, sizeof b, " F %s %d %d %d", fault_name[f.cls], f.nth, f.mode, f.sticky); s += b; }
        s += '\n';
    }
    return s;
}
static bool deser(const string &t, History &h)
{
    size_t p = 0; h.ops.clear();
    while (p < t.size()) {
        size_t e = t.find('\n', p); if (e == string::npos) e = t.size();
        string l = t.substr(p, e - p); p = e + 1;
        std::vector<string> w; { char *sv, *c = strdup(l.c_str()); for (char *q = strtok_r(c, " ", &sv); q; q = strtok_r(nullptr, " ", &sv)) w.push_back(q); free(c); }
        if (w.empty() || w[0][0] == '#') continue;
        if (w[0] == "H" && w.size() >= 6) { h.h.envseed = strtoull(w[1].c_str(), 0, 10); h.h.handle_reuse = atoi(w[2].c_str()); h.h.dlerr_sticky = atoi(w[3].c_str()); h.h.msg_style = atoi(w[4].c_str()); h.h.libmode = atoi(w[5].c_str()); }
        else if (w[0] == "O" && w.size() >= 6) {
            Op o; o.kind = -1; for (int i = 0; i < O_NKIND; i++) if (w[1] == op_name[i]) o.kind = i;
            if (o.kind < 0) return false;
            o.a = strtoull(w[2].c_str(), 0, 10); o.b = strtoull(w[3].c_str(), 0, 10); o.c = strtoull(w[4].c_str(), 0, 10); o.fl = atoi(w[5].c_str());
            for (size_t i = 6; i + 4 < w.size(); i += 5) { Fault f; f.cls = -1; for (int k = 0; k < F_NCLS; k++) if (w[i + 1] == fault_name[k]) f.cls = k; if (f.cls < 0) return false;
                f.nth = atoi(w[i + 2].c_str()); f.mode = atoi(w[i + 3].c_str()); f.sticky = atoi(w[i + 4].c_str()); o.f.push_back(f); }
            h.ops.push_back(o);
        } else return false;
    }
    return true;
}

// ------------------------------------------------------------------ shared result area
enum { P_C01 = 1 << 1, P_C02 = 1 << 2, P_C03 = 1 << 3, P_C04 = 1 << 4, P_C05 = 1 << 5, P_C06 = 1 << 6, P_C07 = 1 << 7, P_C08 = 1 << 8, P_C09 = 1 << 9, P_C10 = 1 << 10, P_C21 = 1 << 21 };
enum Probe { PR_RELOAD_OTHER, PR_RELOAD_AFTER_FAILED_FREE, PR_PARTIAL_THEN_OK, PR_TRANSIENT_SYM, PR_ABANDONED, PR_EXIT_WITH_OPEN, PR_PATH_MAPS, PR_PATH_DLADDR, PR_PATH_FAIL, PR_PATH_CACHED,
    PR_LONG_ERR, PR_WRAP_ABORT, PR_AUTO_OK, PR_AUTO_FAIL_OPEN, PR_AUTO_FAIL_SYM, PR_NEARMISS_NAME, PR_NULLSYM, PR_NEWNS, PR_PLUGIN_OOM, PR_PLUGIN_PARTIAL, PR_MIN_SECOND_LOAD, PR_MIN_SYMFAIL, PR_VARARG_CALL, PR_HOOK, PR_MULTI_INST, PR_DTOR_FREE, PR_STALE_REUSE, PR_CONV_FAIL, PR_FMT_FAIL, PR_NAME_SEP, PR_SH_SAMELIB, PR_SH_BOTH, PR_SH_CALL, PR_SH_FAIL, PR_SH_KEPT, PR_NPROBE };
static const char *probe_name[PR_NPROBE] = { "reload_other_library", "load_after_failed_free", "partial_symbols_then_complete", "transient_symbol_failure", "handle_abandoned_by_forced_free", "exit_with_open_library",
    "path_from_process_map", "path_from_dladdr", "path_failed", "path_repeated", "loader_message_longer_than_buffer", "wrapper_abort", "autoload_success", "autoload_library_refused", "autoload_symbol_refused",
    "near_miss_symbol_name", "symbol_null_without_message", "new_namespace", "plugin_out_of_memory", "plugin_partial_failure", "minimal_second_load", "minimal_symbol_failure", "variadic_call", "hook_called", "several_instances", "destructor_released", "handle_address_reused", "name_conversion_failed", "message_text_unavailable", "path_separators_converted", "second_api_same_library", "second_api_loaded_with_first", "second_api_call", "second_api_failure", "second_api_kept_through_release" };

struct Shm {
    volatile int cur_op, done, viol;
    unsigned props; char oracle[64]; char text[1500];
    u64 loghash, sig; u64 ops_done, ops_skipped;
    u64 fault_fired[F_NCLS], opcount[O_NKIND], probes[PR_NPROBE];
    u64 dlcalls; int loglen; char log[200000];
    char neutral[256]; char ref_noload[1024], ref_already[1024], ref_empty[1024];
};
static Shm *shm;
static bool verbose_log = false;

static void logf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void logf_(const char *fmt, ...)
{
    char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n >= (int)sizeof b) n = sizeof b - 1;
    for (int i = 0; i < n; i++) shm->loghash = (shm->loghash ^ (unsigned char)b[i]) * 0x100000001b3ull;
    shm->loghash ^= 10;
    if (verbose_log && shm->loglen + n + 2 < (int)sizeof shm->log) { memcpy(shm->log + shm->loglen, b, n); shm->loglen += n; shm->log[shm->loglen++] = '\n'; }
}

static sigjmp_buf stop_jb;          // violation: leave the history
static bool in_history = false;
static bool sh_active = false;      // the second API is being called
[[noreturn]] static void stop_history() { if (in_history) siglongjmp(stop_jb, 1); _exit(77); }
static void violation(unsigned props, const char *oracle, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
static void violation(unsigned props, const char *oracle, const char *fmt, ...)
{
    if (!shm->viol) {
        if (sh_active) props |= P_C21;
        shm->viol = 1; shm->props = props; snprintf(shm->oracle, sizeof shm->oracle, "%s", oracle);
        va_list ap; va_start(ap, fmt); vsnprintf(shm->text, sizeof shm->text, fmt, ap); va_end(ap);
        logf_("VIOLATION %s %s", oracle, shm->text);
    }
    stop_history();
}

// ------------------------------------------------------------------ simulated world
static const RtConfig &C = rt_config;
static const RtApi &A = *rt_config.api;
extern RtConfig sh_config __attribute__((weak));      // a second API with another prefix in the same program
static const RtConfig *SC() { return &sh_config; }
static const RtConfig &K() { return sh_active ? *SC() : C; }      // whose call is running
static bool isC() { return C.format == RT_C; }
static bool isX() { return C.format == RT_CXX; }
static bool isM() { return C.format == RT_MIN || C.format == RT_MINCXX; }
static bool isP() { return C.format == RT_PLUGIN; }

struct LibDef { string name; u64 missing = 0, nullsym = 0; int pathkind = 0; string abspath, relpath; };
struct Inst { int id = 0, lib = 0, variant = 0, refs = 0; u64 missing = 0, nullsym = 0; void *addr = nullptr; long lmid = 0; struct link_map lm; string lname; u64 laddr = 0; int leaked = 0; bool mapped = true; };
static std::vector<LibDef> libs;
static std::vector<Inst *> insts;
static Header hdr;
static char hcells[4096][16];
static int hcell_next = 0;
static std::vector<int> hcell_free;
static u64 msgcount = 0;            // unique token counter
static int total_opens = 0;
static std::vector<Inst *> sh_held;  // handles the second API owns
static int sh_refs(Inst *i) { int n = 0; for (auto h : sh_held) if (h == i) n++; return n; }

// dlerror state
static string dl_pending; static bool dl_has_pending = false;
static char *dl_returned = nullptr; static size_t dl_returned_n = 0;
static void poison_returned() { if (dl_returned) { memset(dl_returned, 'X', dl_returned_n); ::free(dl_returned); dl_returned = nullptr; } }

// per-op event record
struct OpenEv { string name; int flags; long ns; Inst *inst; string msg; };
struct SymEv { Inst *inst; string name; void *res; string msg; };
struct CloseEv { Inst *inst; bool ok; string msg; };
struct PathEv { string path; int src; };   // 0 dlinfo or GetModuleFileName, 2 dladdr, 10+n map or loadquery() entry of instance n
static std::vector<OpenEv> ev_open; static std::vector<SymEv> ev_sym; static std::vector<CloseEv> ev_close; static std::vector<PathEv> ev_path;
static std::vector<string> ev_msgs;
static int n_info, n_addr, n_fopen, n_dlcalls, n_atexit, n_atexit_ok; static bool map_fault, info_bad, addr_fault, map_opened, map_fd, ioctl_fault;
static u64 op_first_token;
static int cnt[F_NCLS]; static const Op *cur_op = nullptr; static bool op_alloc_failed = false;
struct TCall { int lib, sym; std::vector<u64> v; bool hook; };
static std::vector<TCall> ev_calls;
static u64 ret_seed;
static std::vector<string> cb_msgs; static int cb_which = -1;
static string map_text; // process map of the current environment

static int fault(int cls)
{
    int n = ++cnt[cls];
    if (!cur_op) return -1;
    for (auto &f : cur_op->f)
        if (f.cls == cls && (n == f.nth || (f.sticky && n > f.nth))) { shm->fault_fired[cls]++; return f.mode; }
    return -1;
}

static string make_msg(const char *what, const string &name)
{
    char tok[64]; u64 k = msgcount++; snprintf(tok, sizeof tok, "Q%06llu~", (unsigned long long)k);
    u64 r = mix(hdr.envseed ^ (k * 7919));
    int style = hdr.msg_style == 9 ? (int)(r % 6) : hdr.msg_style;
    string m = string(tok) + " " + name.substr(0, 300) + ": " + what;
    switch (style) {
    case 1: m += " %s %n %d 100%% %p%p%p%s%s"; break;
    case 2: m += string(" long ") ; for (int i = 0; i < 900 + (int)(r % 3000); i++) { char b[16]; snprintf(b, sizeof b, "%d,", i); m += b; } shm->probes[PR_LONG_ERR]++; break;
    case 3: m += " \xc3\xa4\xff\x01\x7f\t\n second line"; break;
    case 4: { // exactly around the buffer length
        size_t want = (size_t)C.buflen - 3 + r % 7; if (want > m.size()) m += string(want - m.size(), (char)('a' + r % 26)); shm->probes[PR_LONG_ERR]++; break; }
    case 5: m = tok; break;
    default: break;
    }
    return m;
}
static void set_dlerr(const string &m) { dl_pending = m; dl_has_pending = true; ev_msgs.push_back(m); }
static void dl_enter(const char *) { n_dlcalls++; shm->dlcalls++; poison_returned(); }
static void dl_success() { if (!hdr.dlerr_sticky) dl_has_pending = false; }

static Inst *find_inst(void *h, const char *fn)
{
    for (auto i : insts) if (i->addr == h && i->refs > 0) return i;
    bool known = false; for (auto i : insts) if (i->addr == h) known = true;
    violation(P_C02 | P_C03 | (isP() ? P_C09 : 0) | (isM() ? P_C10 : 0) | (C.wrap >= RT_AUTO ? P_C07 : 0), "handle-invalid", "%s() called with a handle that is %s", fn, !h ? "NULL" : known ? "already closed" : "unknown to the loader");
    return nullptr;
}

// the Windows API takes both separators, and is to be given backslashes only
static string winsep(string n) { if (C.win == 1) for (auto &c : n) if (c == '/') c = '\\'; return n; }
static bool same_name(const string &a, const string &b) { return a == b || (C.win == 1 && winsep(a) == winsep(b)); }
static bool mentions(const string &t, const string &name) { return t.find(name) != string::npos || (C.win == 1 && t.find(winsep(name)) != string::npos); }
static int lib_index(const string &name) { for (size_t i = 0; i < libs.size(); i++) if (same_name(libs[i].name, name)) return (int)i; return -1; }
static void fresh_paths(Inst *in)
{
    LibDef &l = libs[in->lib]; u64 r = mix(hdr.envseed ^ 0x77 ^ ((u64)in->id << 20));
    in->laddr = 0x7f0000000000ull + ((r >> 8) % 0xffff) * 0x1000000ull + (u64)in->id * 0x100000ull;
    char b[64]; snprintf(b, sizeof b, "/sim/i%d", in->id);
    string seps = C.win == 1 ? "/\\" : "/"; size_t sp = l.name.find_last_of(seps);
    string base = l.name.substr(sp == string::npos ? 0 : sp + 1);
    if (base.empty()) base = "x.so";
    string S = "/"; if (C.win) { S = "\\"; snprintf(b, sizeof b, "C:\\sim\\i%d", in->id); }
    l.abspath = string(b) + S + (r % 5 == 0 ? "dir with space" : r % 5 == 1 && C.win ? "\xc3\xa4\xe6\xbc\xa2 %s" : "lib") + S + base;
    if (r % 11 == 0) l.abspath = string(b) + S + string(3000 + r % 1000, 'p') + S + base;
    if (r % 37 == 0) l.abspath = string(b) + S + string(C.buflen + (r >> 30) % 50 - 25, 'q') + S + base;
    int k = (int)((r >> 20) % 6);
    l.pathkind = k;
    l.relpath = "rel" + std::to_string(in->id) + "/" + base;
    switch (k) { case 0: case 1: in->lname = l.abspath; break; case 2: case 3: in->lname = l.relpath; break; case 4: in->lname = ""; break; default: in->lname = base; break; }
    memset(&in->lm, 0, sizeof in->lm); in->lm.l_addr = in->laddr; in->lm.l_name = const_cast<char *>(in->lname.c_str());
}
static std::map<int, string> inst_abspath;   // full path of each instance in the process map

static Inst *do_open(const char *path, int flags, long ns, string &msg)
{
    int m = fault(F_OPEN);
    string name = path ? path : "";
    int li = path ? lib_index(name) : -1;
    if (m >= 0 || li < 0) { msg = make_msg("cannot open shared object file: No such file or directory", name); return nullptr; }
    if (ns == 0) for (auto i : insts) if (i->refs > 0 && i->lib == li && i->lmid == 0) { i->refs++; if (sh_active) sh_held.push_back(i); if (SC() && sh_refs(i) && i->refs - i->leaked > sh_refs(i)) shm->probes[PR_SH_SAMELIB]++; return i; }
    Inst *in = new Inst; in->id = (int)insts.size(); in->lib = li; in->refs = 1; in->missing = libs[li].missing; in->nullsym = libs[li].nullsym; in->lmid = ns ? 100 + in->id : 0;
    bool used[RT_NLIB] = {}; for (auto i : insts) if (i->refs > 0) used[i->variant] = true;
    int v = in->id % RT_NLIB; for (int k = 0; k < RT_NLIB && used[v]; k++) v = (v + 1) % RT_NLIB; in->variant = v;
    if (hdr.handle_reuse && !hcell_free.empty()) { in->addr = hcells[hcell_free.back()]; hcell_free.pop_back(); shm->probes[PR_STALE_REUSE]++; }
    else in->addr = hcells[hcell_next++ % 4096];
    if (sh_active) sh_held.push_back(in);
    insts.push_back(in); fresh_paths(in); inst_abspath[in->id] = libs[li].abspath;
    (void)flags; return in;
}
static int symidx_in(const RtConfig &k, const char *n) { for (int i = 0; i < k.nsym; i++) if (!strcmp(k.sym[i].name, n)) return i; return -1; }
static int symidx(const char *n) { return symidx_in(C, n); }
// what the library offers under a name: to the second API, other symbols than to the first
static bool lib_missing(Inst *in, int i) { return i < 0 || (sh_active ? hdr.libmode > 0 && mix(hdr.envseed ^ (u64)in->lib * 977 ^ (u64)i << 8) % 12 == 0 : (in->missing >> i) & 1); }
static bool lib_null(Inst *in, int i) { return !sh_active && ((in->nullsym >> i) & 1); }
// a handle is about to be closed: does it belong to the API that closes it?
static void check_closer(Inst *in, const char *fn)
{
    if (in->refs <= in->leaked) violation(P_C02, "close-abandoned", "%s() of a handle that had been given up before (h%d)", fn, in->id);
    if (sh_active && !sh_refs(in)) violation(P_C21, "close-foreign", "the second API closed library h%d, which only the first one holds", in->id);
    if (!sh_active && in->refs - in->leaked <= sh_refs(in)) violation(P_C02 | P_C21, "close-foreign", "library h%d was closed, which only the API with the other prefix holds", in->id);
}
static void sh_closed(Inst *in) { if (sh_active) sh_held.erase(std::find(sh_held.begin(), sh_held.end(), in)); }
static string fstr(int fl) { char b[32]; snprintf(b, sizeof b, "%#x", (unsigned)fl); return b; }

extern "C" {
void *sim_dlmopen_(long ns, const char *path, int flags, const char *fn)
{
    dl_enter(fn); string msg; Inst *in = do_open(path, flags, ns, msg);
    ev_open.push_back({ path ? path : "(null)", flags, ns, in, msg });
    logf_("  %s(%.80s, %s) -> %s", fn, path ? path : "(null)", fstr(flags).c_str(), in ? ("h" + std::to_string(in->id)).c_str() : "refused");
    if (!in) { set_dlerr(msg); return nullptr; }
    total_opens++; dl_success(); return in->addr;
}
void *sim_dlopen(const char *path, int flags) { return sim_dlmopen_(0, path, flags, "dlopen"); }
void *sim_dlmopen(long ns, const char *path, int flags) { if (ns) shm->probes[PR_NEWNS]++; return sim_dlmopen_(ns ? ns : 0, path, flags, "dlmopen"); }
// some loaders name the library in the message of a failed lookup
static string from_lib(Inst *in) { u64 r = mix(hdr.envseed ^ 0x5e ^ (u64)msgcount); if (!in || r % 3) return ""; return " in " + libs[in->lib].name.substr(0, 300); }
void *sim_dlsym(void *h, const char *name)
{
    dl_enter("dlsym"); Inst *in = find_inst(h, "dlsym"); int m = fault(F_SYM); int i = symidx_in(K(), name ? name : "");
    void *r = nullptr; string msg;
    bool missing = lib_missing(in, i);
    bool quiet = !missing && lib_null(in, i);
    if (m < 0 && !missing && !quiet) r = K().target(in->variant, i);
    else if (m == 1 || (m < 0 && quiet)) { shm->probes[PR_NULLSYM]++; }           // symbol value NULL, no error recorded
    else msg = make_msg(("undefined symbol" + from_lib(in)).c_str(), name ? name : "(null)");
    if (m >= 0 && !missing) shm->probes[PR_TRANSIENT_SYM]++;
    ev_sym.push_back({ in, name ? name : "", r, msg });
    logf_("  dlsym(h%d, %.80s) -> %s", in->id, name ? name : "(null)", r ? "ok" : msg.empty() ? "NULL without error" : "refused");
    if (!r && !msg.empty()) set_dlerr(msg); else dl_success();
    return r;
}
void *sim_dlvsym(void *h, const char *name, const char *) { return sim_dlsym(h, name); }
int sim_dlclose(void *h)
{
    dl_enter("dlclose"); Inst *in = find_inst(h, "dlclose"); int m = fault(F_CLOSE);
    check_closer(in, "dlclose");
    if (m >= 0) { string msg = make_msg("cannot close shared object", libs[in->lib].name); ev_close.push_back({ in, false, msg }); logf_("  dlclose(h%d) -> refused", in->id); set_dlerr(msg); return 1 + (m & 1) * -2; }
    ev_close.push_back({ in, true, "" }); in->refs--; sh_closed(in); logf_("  dlclose(h%d) -> 0, refs %d", in->id, in->refs);
    if (in->refs == 0) hcell_free.push_back((int)((char(*)[16])in->addr - hcells));
    dl_success(); return 0;
}
char *sim_dlerror(void)
{
    n_dlcalls++; poison_returned();
    if (!dl_has_pending) return nullptr;
    dl_has_pending = false; dl_returned_n = dl_pending.size() + 1; dl_returned = (char *)::malloc(dl_returned_n); memcpy(dl_returned, dl_pending.c_str(), dl_returned_n);
    return dl_returned;
}
int sim_dlinfo(void *h, int req, void *p)
{
    dl_enter("dlinfo"); Inst *in = find_inst(h, "dlinfo"); int m = fault(F_INFO); n_info++;
    if (req != RTLD_DI_LINKMAP) { info_bad = true; set_dlerr(make_msg("unsupported dlinfo request", "")); return -1; }
    if (m == 0 || m > 2) { info_bad = true; set_dlerr(make_msg("dlinfo failed", "")); logf_("  dlinfo -> -1"); return -1; }
    static struct link_map lm2; lm2 = in->lm;
    if (m == 1) lm2.l_name = (char *)"";
    if (m == 2) lm2.l_name = nullptr;
    *(struct link_map **)p = &lm2;
    if (lm2.l_name && lm2.l_name[0]) ev_path.push_back({ lm2.l_name, 0 }); else info_bad = true;
    logf_("  dlinfo(h%d) -> %.60s", in->id, lm2.l_name ? lm2.l_name : "(null)"); dl_success(); return 0;
}
int sim_dladdr(const void *addr, Dl_info *info)
{
    n_dlcalls++; n_addr++; int m = fault(F_ADDR);
    Inst *found = nullptr; for (auto i : insts) if (i->refs > 0 && !found) { for (int k = 0; k < C.nsym; k++) if (C.target(i->variant, k) == addr) found = i; if (SC()) for (int k = 0; k < SC()->nsym; k++) if (SC()->target(i->variant, k) == addr) found = i; }
    if (m == 0 || m > 2 || !found) { if (m >= 0) addr_fault = true; logf_("  dladdr -> 0"); return 0; }
    static string keep; keep = inst_abspath[found->id];
    info->dli_fbase = (void *)found->laddr; info->dli_sname = "s"; info->dli_saddr = (void *)addr;
    info->dli_fname = m == 1 ? nullptr : m == 2 ? "" : keep.c_str();
    if (m >= 0) addr_fault = true; else ev_path.push_back({ keep, 2 });
    logf_("  dladdr -> %.60s", info->dli_fname ? info->dli_fname : "(null)"); return 1;
}
int sim_dladdr1(const void *addr, Dl_info *info, void **, int) { return sim_dladdr(addr, info); }

// ---------------- process map
static void build_map()
{
    // every open instance has mappings; plus unrelated lines
    Rng r(hdr.envseed ^ 0xabcdef ^ msgcount);
    string t; char b[256];
    struct Ln { u64 a, e; string rest; };
    std::vector<Ln> ls;
    static const char *devs[] = { "fd:00", "103:01", "00:1f", "08:02", "fe:0a", "00:00", "1a:2b" };
    auto dev = [&] { return devs[r.below(7)]; };
    auto add = [&](u64 a, u64 e, const char *perm, const char *d, u64 off, u64 ino, const string &path) {
        int n = snprintf(b, sizeof b, " %s %08llx %s %llu", perm, (unsigned long long)off, d, (unsigned long long)ino);
        string s(b, n); if (!path.empty()) { s += string(path[0] == '[' || r.below(2) ? 20 : 1, ' ') + path; } ls.push_back({ a, e, s }); };
    add(0x555500000000ull, 0x555500010000ull, "r--p", dev(), 0, 1234, "/usr/bin/prog");
    add(0x555500010000ull, 0x555500020000ull, "r-xp", dev(), 0x10000, 1234, "/usr/bin/prog");
    add(0x555500040000ull, 0x555500060000ull, "rw-p", "00:00", 0, 0, "[heap]");
    for (auto i : insts) if (i->refs > 0) {
        u64 a = i->laddr; string p = inst_abspath[i->id]; const char *d = dev(); u64 ino = 1000 + r.below(1ull << 40);
        if (r.below(2)) add(a - 0x8000, a, r.below(2) ? "rw-p" : "r--s", dev(), 0, 99, "/sim/neighbour/before.so");
        i->mapped = r.below(12) != 0;
        if (!i->mapped) add(a, a + 0x4000, "---p", "00:00", 0, 0, "");       // anonymous mapping at the base: no path available
        else add(a, a + 0x4000, "r--p", d, 0, ino, p);
        add(a + 0x4000, a + 0x9000, "r-xp", d, 0x4000, ino, p); add(a + 0x9000, a + 0xa000, "rw-p", d, 0x9000, ino, p);
        if (r.below(2)) add(a + 0xa000, a + 0xb000, "rw-p", "00:00", 0, 0, "");
        if (r.below(2)) add(a + 0xb000, a + 0xd000, "r--p", dev(), 0, 77, "/sim/neighbour/after.so");
    }
    add(0x7ffff0000000ull, 0x7ffff0021000ull, "rw-p", "00:00", 0, 0, "[stack]");
    add(0xffffffffff600000ull, 0xffffffffff601000ull, "--xp", "00:00", 0, 0, "[vsyscall]");
    std::sort(ls.begin(), ls.end(), [](const Ln &x, const Ln &y) { return x.a < y.a; });
    for (auto &l : ls) { snprintf(b, sizeof b, "%llx-%llx", (unsigned long long)l.a, (unsigned long long)l.e); t += b + l.rest + "\n"; }
    map_text = t;
}
struct MapCookie { string text; size_t pos; Rng r; };
static ssize_t map_read(void *c, char *buf, size_t n)
{
    // the kernel hands out whole lines: an error or a premature end can only follow a complete line
    MapCookie *m = (MapCookie *)c; int f = m->pos == 0 || m->text[m->pos - 1] == '\n' ? fault(F_READ) : -1;
    if (f == 0) { map_fault = true; errno = EIO; return -1; }
    if (f == 1) { map_fault = true; return 0; }            // premature end
    size_t left = m->text.size() - m->pos; if (n > left) n = left; if (n > 1) n = 1 + m->r.below(n < 700 ? n : 700);
    if (m->r.below(2)) { size_t e = m->text.rfind('\n', m->pos + n - 1); if (e != string::npos && e > m->pos) n = e + 1 - m->pos; }
    memcpy(buf, m->text.data() + m->pos, n); m->pos += n; return (ssize_t)n;
}
static int map_close(void *c) { delete (MapCookie *)c; return 0; }
static int maps_open_count = 0; static std::set<int> sim_fds;
FILE *sim_fopen(const char *path, const char *mode)
{
    if (strcmp(path, "/proc/self/maps") && strncmp(path, "/proc/", 6)) return fopen(path, mode);
    n_fopen++; int f = fault(F_FOPEN);
    if (f >= 0) { map_fault = true; errno = f == 1 ? EMFILE : f == 2 ? EACCES : ENOENT; logf_("  fopen(maps) -> NULL"); return nullptr; }
    build_map(); map_opened = true;
    // record what the map can supply for each open instance
    for (auto i : insts) if (i->refs > 0 && i->mapped) ev_path.push_back({ inst_abspath[i->id], 10 + i->id });
    cookie_io_functions_t io = { map_read, nullptr, nullptr, map_close };
    logf_("  fopen(maps)"); maps_open_count++;
    return fopencookie(new MapCookie{ map_text, 0, Rng(hdr.envseed ^ 5) }, mode, io);
}
int sim_fclose(FILE *f) { if (maps_open_count > 0) maps_open_count--; return fclose(f); }
int sim_open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (strncmp(path, "/proc/", 6)) return open(path, flags, mode);
    n_fopen++; int f = fault(F_FOPEN); if (f >= 0) { errno = EMFILE; logf_("  open(maps) -> -1"); return -1; }
    build_map(); map_opened = true; for (auto i : insts) if (i->refs > 0 && i->mapped) ev_path.push_back({ inst_abspath[i->id], 10 + i->id });
    int fd = memfd_create("maps", 0); if (write(fd, map_text.data(), map_text.size()) < 0) {} lseek(fd, 0, SEEK_SET); sim_fds.insert(fd); map_fd = true; logf_("  open(maps)"); return fd;
}
int sim_open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); return sim_open(path, flags, mode); }

// ---------------- process exit
struct AtExit { void (*f0)(void); void (*f1)(void *); void *arg; };
static AtExit ax[256]; static int nax = 0;
static sigjmp_buf exit_jb; static bool exit_armed = false; static int exit_code_ = -1, exit_how = 0;
int sim_atexit(void (*f)(void))
{
    n_atexit++; if (cur_op && fault(F_ATEXIT) >= 0) { logf_("  atexit -> failed"); return 1; }
    if (nax >= 256) return 1;
    ax[nax++] = { f, nullptr, nullptr }; n_atexit_ok++; logf_("  atexit -> 0"); return 0;
}
int sim_cxa_atexit(void (*f)(void *), void *arg, void *)
{
    if (cur_op) { n_atexit++; if (fault(F_ATEXIT) >= 0) return 1; n_atexit_ok++; }
    if (nax >= 256) return 1;
    ax[nax++] = { nullptr, f, arg }; return 0;
}
[[noreturn]] static void leave(int how, int code) { exit_how = how; exit_code_ = code; if (exit_armed) siglongjmp(exit_jb, 1); _exit(78); }
[[noreturn]] void sim_exit(int code) { logf_("  exit(%d)", code); leave(1, code); }
[[noreturn]] void sim__exit(int code);
[[noreturn]] void sim__Exit(int code) { sim__exit(code); }
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
[[noreturn]] void sim__exit(int code) { logf_("  _exit(%d)", code); leave(3, code); }
[[noreturn]] void sim_quick_exit(int code) { logf_("  quick_exit(%d)", code); leave(3, code); }
[[noreturn]] void sim_abort(void) { logf_("  abort()"); leave(2, 134); }
[[noreturn]] void sim_terminate(void) { logf_("  terminate()"); leave(4, 134); }

// ---------------- allocator (calls made directly by the generated code)
static std::map<void *, size_t> allocs, sh_allocs;
static void *track(void *p, size_t n) { if (p) (sh_active ? sh_allocs : allocs)[p] = n; return p; }
static void own_block(void *p, const char *fn) { if ((sh_active ? allocs : sh_allocs).count(p)) violation(P_C21, "free-foreign", "%s() of a block that the API with the other prefix allocated", fn); }
static bool alloc_fails() { if (!cur_op) return false; if (fault(F_ALLOC) >= 0) { op_alloc_failed = true; errno = ENOMEM; logf_("  allocation fails"); return true; } return false; }
void *sim_malloc(size_t n) { if (alloc_fails()) return nullptr; void *p = track(::malloc(n), n); if (p) memset(p, 0xa5, n); return p; }
void *sim_calloc(size_t a, size_t b) { if (alloc_fails()) return nullptr; return track(::calloc(a, b), a * b); }
void *sim_realloc(void *o, size_t n) { if (alloc_fails()) return nullptr; own_block(o, "realloc"); (sh_active ? sh_allocs : allocs).erase(o); return track(::realloc(o, n), n); }
char *sim_strdup(const char *s);
char *sim___strdup(const char *s) { return sim_strdup(s); }
char *sim_strdup(const char *s) { if (alloc_fails()) return nullptr; return (char *)track(::strdup(s), strlen(s) + 1); }
char *sim_strndup(const char *s, size_t n) { if (alloc_fails()) return nullptr; return (char *)track(::strndup(s, n), n + 1); }
void sim_free(void *p)
{
    if (!p) return;
    own_block(p, "free"); auto &al = sh_active ? sh_allocs : allocs;
    auto it = al.find(p); if (it != al.end()) { memset(p, 0xdd, it->second); al.erase(it); }
    ::free(p);
}

// ---------------- target library
void rt_target_called(int lib, int sym, const uint64_t *v, int n)
{
    if (sh_active) violation(P_C21, "call-foreign", "a call through the second API reached `%s' of the first one", C.sym[sym].name);
    TCall t; t.lib = lib; t.sym = sym; t.v.assign(v, v + n); t.hook = false; ev_calls.push_back(t); logf_("  target %s of variant %d called, %d values", C.sym[sym].name, lib, n);
}
void sh_target_called(int lib, int sym, const uint64_t *v, int n)
{
    if (!sh_active) violation(P_C21 | P_C05, "call-foreign", "a call through the first API reached `%s' of the other one", SC()->sym[sym].name);
    TCall t; t.lib = lib; t.sym = sym; t.v.assign(v, v + n); t.hook = false; ev_calls.push_back(t); logf_("  target %s (second API) of variant %d called, %d values", SC()->sym[sym].name, lib, n);
}
uint64_t rt_ret_seed(void) { return ret_seed; }
void rt_hook_called(int sym, const uint64_t *v, int n)
{
    TCall t; t.lib = -1; t.sym = sym; t.v.assign(v, v + n); t.hook = true; ev_calls.push_back(t); shm->probes[PR_HOOK]++; logf_("  hook of %s called, %d values", C.sym[sym].name, n);
}
} // extern "C"

static Inst *M_cur();
#include "plat.inc"

static void cb_a(const char *m) { cb_msgs.push_back(m ? m : "(null)"); cb_which = 1; logf_("  callback A"); }
static void cb_b(const char *m) { cb_msgs.push_back(m ? m : "(null)"); cb_which = 2; logf_("  callback B"); }

// ------------------------------------------------------------------ stderr capture
static int errfd = -1;
static string take_stderr()
{
    fflush(stderr); string s; off_t n = lseek(errfd, 0, SEEK_END); if (n > 0) { s.resize((size_t)n); if (pread(errfd, &s[0], (size_t)n, 0) < 0) s.clear(); }
    if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); return s;
}

// ------------------------------------------------------------------ model
struct Model {
    Inst *cur = nullptr;                 // library the generated code must consider loaded
    bool autorel = false;                // release registered for exit
    int cb = 0;
    struct XI { void *p = nullptr; bool known = false; string fn; int flags = 0; int ns = 0; bool dtor = true; string path[2]; Inst *path_inst[2] = {}; void forget() { for (int k = 0; k < 2; k++) { path[k].clear(); path_inst[k] = nullptr; } } } x[3];   // [1]: the other character type
    string path; Inst *path_inst = nullptr;   // C: last path returned for path_inst
    const char *path_raw = nullptr;      // C: what the last path query returned, if nothing was called since
    bool had_lib = false; int last_lib = -1; bool failed_free = false;
    struct PE { string name; bool nul = false; Inst *inst = nullptr; std::vector<void *> ptr; };
    struct PS { void *p = nullptr; std::vector<PE> e; bool oom = false; } ps[4];
};
static Model M;
struct Second { void *x = nullptr, *list = nullptr; std::vector<Inst *> entry; };
static Second S2;                    // the objects used of the second API
static Inst *M_cur() { return M.cur; }
static std::vector<void *> ptr_before;

static std::vector<void *> ptrs() { std::vector<void *> r; for (int i = 0; i < C.nsym; i++) r.push_back(C.sym[i].getptr ? C.sym[i].getptr() : nullptr); return r; }

static void begin_op(const Op &o)
{
    ev_open.clear(); ev_sym.clear(); ev_close.clear(); ev_path.clear(); ev_msgs.clear(); ev_calls.clear(); cb_msgs.clear(); cb_which = -1;
    n_info = n_addr = n_fopen = n_dlcalls = n_atexit = n_atexit_ok = 0; map_fault = info_bad = addr_fault = map_opened = map_fd = ioctl_fault = false; op_alloc_failed = false;
    conv_failed = fmt_failed = false; boxes.clear(); rt_variant = C.win == 1 ? (int)((o.c >> 40) & 3) : 0; rt_wsel = C.win == 1 ? (int)((o.c >> 42) & 1) : 0;
    memset(cnt, 0, sizeof cnt); op_first_token = msgcount; cur_op = &o; ret_seed = mix(o.c ^ 0x5555);
    ptr_before = isP() ? std::vector<void *>() : ptrs();
}
static bool has_refused_sym() { for (auto &e : ev_sym) if (!e.res) return true; return false; }

// invariants that hold after every operation of the C, C++ and minimal APIs
static void check_pointers(unsigned extra)
{
    auto now = ptrs();
    for (int i = 0; i < C.nsym; i++) {
        if (!now[i]) continue;
        if (!M.cur) violation(P_C03 | extra, "pointer-without-library", "symbol `%s' still has a pointer although no library is loaded", C.sym[i].name);
        if (now[i] != C.target(M.cur->variant, i)) {
            const char *what = "an unrelated address"; string w;
            for (int l = 0; l < RT_NLIB; l++) for (int k = 0; k < C.nsym; k++) if (C.target(l, k) == now[i]) { w = string(l == M.cur->variant ? "symbol `" : "another library's symbol `") + C.sym[k].name + "'"; what = w.c_str(); }
            violation(P_C03 | extra, "pointer-wrong", "pointer of symbol `%s' is %s", C.sym[i].name, what);
        }
    }
}
static void check_handles(unsigned extra)
{
    for (auto i : insts) {
        int own = (M.cur == i) ? 1 : 0;
        if (i->refs - i->leaked - sh_refs(i) > own) violation(P_C02 | extra, "handle-leaked", "handle h%d (%.60s) is still open although the generated code no longer holds it", i->id, libs[i->lib].name.c_str());
        if (i->refs - i->leaked - sh_refs(i) < own) violation(P_C02 | P_C01 | extra, "handle-lost", "library h%d counts as loaded but its handle has been closed", i->id);
    }
}
static void check_unchanged(const char *what, unsigned props, int except = -1)
{
    auto now = ptrs();
    for (int i = 0; i < C.nsym; i++) if (i != except && now[i] != ptr_before[i]) violation(props, "symbols-changed", "%s changed the pointer of symbol `%s'", what, C.sym[i].name);
}
static void no_loader_activity(const char *what, unsigned props)
{
    if (!ev_open.empty()) violation(props, "unexpected-open", "%s opened a library", what);
    if (!ev_close.empty()) violation(props | P_C02, "unexpected-close", "%s closed a library", what);
}
static void no_open(const char *what, unsigned props) { if (!ev_open.empty()) violation(props, "unexpected-open", "%s opened a library", what); }
static void no_close(const char *what, unsigned props) { if (!ev_close.empty()) violation(props | P_C02, "unexpected-close", "%s closed a library", what); }
static void check_loaded_flag(int got, unsigned props)
{
    if (!!got != (M.cur != nullptr)) violation(props, "loaded-query", "the library-is-loaded query says %d, but %s", !!got, M.cur ? "a library is loaded" : "no library is loaded");
}
static void check_queries()
{
    auto now = ptrs(); int nn = 0; for (auto p : now) if (p) nn++;
    if (isC()) {
        check_loaded_flag(A.is_loaded(), P_C01);
        if (!!A.all_loaded() != (nn == C.nsym)) violation(P_C01, "query-all", "all-symbols-loaded is %d with %d of %d symbols loaded", A.all_loaded(), nn, C.nsym);
        if (!!A.no_loaded() != (nn == 0)) violation(P_C01, "query-none", "no-symbols-loaded is %d with %d of %d symbols loaded", A.no_loaded(), nn, C.nsym);
        if (!!A.any_loaded() != (nn > 0)) violation(P_C01, "query-any", "any-symbol-loaded is %d with %d of %d symbols loaded", A.any_loaded(), nn, C.nsym);
    } else if (isX()) {
        check_loaded_flag(A.is_loaded(), P_C01);
        for (auto &x : M.x) if (x.p) {
            if (!!A.x_all(x.p) != (nn == C.nsym)) violation(P_C01, "query-all", "all_symbols_loaded() is wrong with %d of %d symbols loaded", nn, C.nsym);
            if (!!A.x_no(x.p) != (nn == 0)) violation(P_C01, "query-none", "no_symbols_loaded() is wrong with %d of %d symbols loaded", nn, C.nsym);
            if (!!A.x_any(x.p) != (nn > 0)) violation(P_C01, "query-any", "any_symbol_loaded() is wrong with %d of %d symbols loaded", nn, C.nsym);
        }
    }
}

// ---------------- error text
enum ErrExp { EX_NONE, EX_NEUTRAL, EX_LOADER, EX_FAIL };
static string get_error(int inst)
{
    if (isC()) { const char *e = A.last_error(); if (!e) violation(P_C04, "error-null", "the last-error function returned NULL"); return e; }
    static char buf[200000]; A.x_error(M.x[inst].p, buf, sizeof buf); return buf;
}
static void stale_check(int inst, const string &t)
{
    for (size_t p = 0; (p = t.find('F', p)) != string::npos; p++)
        if (p + 7 < t.size() && t[p + 7] == '~') { u64 k = strtoull(t.substr(p + 1, 6).c_str(), 0, 10); if (isX() && M.x[inst].fn.find(t.substr(p, 8)) != string::npos) continue; if (k < op_first_token && k < msgcount) violation(P_C04, "error-stale", "the error text shows an earlier file name: %.120s", t.c_str()); }
    for (size_t p = 0; (p = t.find('Q', p)) != string::npos; p++)
        if (p + 7 < t.size() && t[p + 7] == '~') { u64 k = strtoull(t.substr(p + 1, 6).c_str(), 0, 10); if (k < op_first_token && k < msgcount) violation(P_C04, "error-stale", "the error text shows an earlier failure: %.120s", t.c_str()); }
}
static string clip(const string &s) { return s.size() > 100 ? s.substr(0, 100) + "..." : s; }
static void check_error(int inst, ErrExp ex, const char *what, const std::vector<string> &msgs, const string &contain, const char *const *other_refs)
{
    if (ex == EX_NONE) return;
    bool conv_before = conv_failed; conv_failed = false; string t = get_error(inst); bool text_lost = conv_failed; conv_failed |= conv_before;
    if (t.empty()) violation(P_C04, "error-empty", "after %s the error text is empty", what);
    if (conv_failed) shm->probes[PR_CONV_FAIL]++;
    if (fmt_failed) shm->probes[PR_FMT_FAIL]++;
    if (ex == EX_NEUTRAL) { stale_check(inst, t); if (fmt_failed) return; if (t != shm->neutral) violation(P_C04, "error-not-reset", "after successful %s the error text is: %.200s", what, t.c_str()); return; }
    stale_check(inst, t);
    if (t == shm->neutral && !text_lost) violation(P_C04, "error-missing", "after failing %s the error text says: %.100s", what, t.c_str());
    if (ex == EX_LOADER) {
        bool ok = false, anymsg = false;
        for (auto &m : msgs) if (!m.empty()) { anymsg = true; string need = (!isX() && m.size() > 3000) ? m.substr(0, 1500) : m; if (t.find(need) != string::npos || (fmt_failed && mentions_code(t, m))) ok = true; }
        if (anymsg && !ok) violation(P_C04, "error-not-loaders", "after failing %s the loader said `%s' but the error text is `%s'", what, clip(msgs[0]).c_str(), clip(t).c_str());
    }
    if (conv_failed) return;
    if (ex == EX_LOADER && C.win == 1 && (!ev_open.empty() || !ev_sym.empty())) {   // the system's text does not say what was asked for
        bool ok = false; string w;
        string n = winsep(t);
        for (auto &e : ev_open) if (!e.inst) { w = e.name; if (n.find(e.name) != string::npos || e.name.size() > 1000) ok = true; }
        for (auto &e : ev_sym) if (!e.res && isC()) { w = e.name; if (n.find(e.name) != string::npos) ok = true; }
        if (!ok && !w.empty()) violation(P_C04, "error-names-nothing", "after failing %s the error text does not name `%s': %.200s", what, clip(w).c_str(), t.c_str());
    }
    if (!contain.empty() && contain.size() < 1000 && t.find(contain) == string::npos) violation(P_C04, "error-other", "after failing %s the error text does not mention `%s': %.200s", what, contain.c_str(), t.c_str());
    if (other_refs) for (int i = 0; other_refs[i]; i++) if (other_refs[i][0] && t == other_refs[i]) violation(P_C04, "error-other", "after failing %s the error text is that of another failure: %.200s", what, t.c_str());
    if (isC()) { // stored intact: reading again gives the same text
        if (cur_op && (cur_op->fl & 4)) { string t2 = get_error(inst); if (t2 != t && !fmt_failed) violation(P_C04, "error-unstable", "reading the error text twice gives different texts"); }
    }
}

// ---------------- history context helpers
static string lib_name(u64 sel)
{
    // mostly known libraries, sometimes an unknown one
    size_t n = libs.size(); u64 k = sel % (n * 3 + 2);
    if (k < n * 3) return libs[k % n].name;
    char b[64]; snprintf(b, sizeof b, "/nonexistent/F%06llu~.so", (unsigned long long)msgcount++); return b;
}
static const char *const *refs_except(int w)
{
    static const char *r[4]; int n = 0;
    if (w != 0) r[n++] = shm->ref_noload;
    if (w != 1) r[n++] = shm->ref_already;
    if (w != 2) r[n++] = shm->ref_empty;
    r[n] = nullptr; return r;
}
static unsigned allprops() { return isM() ? P_C10 : isP() ? P_C09 : 0; }

static std::vector<string> open_msg() { if (ev_open.empty()) return {}; return { ev_open[0].msg }; }
// result of one load call (C and C++): shared checks.  Returns whether it succeeded.
static bool after_load(const char *what, int ret, bool name_ok, const string &name, int flags, int ns, int inst, bool rderr)
{
    bool was = M.cur != nullptr;
    if (was) {
        no_loader_activity(what, P_C01);
        check_unchanged(what, P_C01);
        if (ret) violation(P_C01, "load-while-loaded", "%s succeeded although a library was already loaded", what);
        if (rderr) check_error(inst, EX_FAIL, "load while loaded", {}, "", refs_except(1));
        return false;
    }
    if (!name_ok) {
        no_loader_activity(what, P_C01);
        if (ret) violation(P_C01, "load-empty", "%s succeeded with an empty name", what);
        if (rderr) check_error(inst, EX_FAIL, "load with empty name", {}, "", refs_except(2));
        return false;
    }
    if (ev_open.empty() && (conv_failed || op_alloc_failed)) { if (ret) violation(P_C01, "load-result", "%s succeeded although the name could not be passed on", what); no_close(what, P_C01); return false; }
    if (ev_open.size() != 1) violation(P_C01, "load-opens", "%s asked the loader %zu times to open a library", what, ev_open.size());
    OpenEv &o = ev_open[0];
    if (C.win == 1 && winsep(name) != name) shm->probes[PR_NAME_SEP]++;
    if (o.name != winsep(name)) violation(P_C01, "load-name", "%s of `%.100s' passed `%.100s' to the loader", what, name.c_str(), o.name.c_str());
    if (o.flags != flags) violation(P_C01, "load-flags", "%s with flags %#x passed flags %#x to the loader", what, (unsigned)flags, (unsigned)o.flags);
    if ((o.ns != 0) != (ns != 0 && C.has_ns)) violation(P_C01, "load-namespace", "%s: %s namespace requested, %s namespace used", what, ns ? "new" : "default", o.ns ? "new" : "default");
    if (o.ns != 0 && o.ns != -1) violation(P_C01, "load-namespace", "%s used namespace %ld", what, o.ns);
    if (o.inst) {
        M.cur = o.inst;
        if (M.had_lib && M.last_lib != o.inst->lib) shm->probes[PR_RELOAD_OTHER]++;
        M.had_lib = true; M.last_lib = o.inst->lib; M.path.clear(); M.path_inst = nullptr;
    }
    return o.inst != nullptr;
}

static void after_symload_all(const char *what, int ret, int inst, bool rderr, bool was_all)
{
    auto now = ptrs(); int nn = 0; for (auto p : now) if (p) nn++;
    if (was_all) {
        if (!ret) violation(P_C01, "load-all-result", "%s failed although all symbols were loaded", what);
        check_unchanged(what, P_C03); if (rderr) check_error(inst, EX_NEUTRAL, what, {}, "", nullptr); return;
    }
    if (!M.cur) {
        if (ret) violation(P_C01, "load-all-result", "%s succeeded without a library", what);
        if (rderr) check_error(inst, EX_FAIL, "loading symbols without a library", {}, "", refs_except(0)); return;
    }
    check_pointers(P_C01);
    bool refused = has_refused_sym();
    if (ret && nn != C.nsym) violation(P_C01 | P_C03, "load-all-result", "%s returned true with %d of %d symbols loaded", what, nn, C.nsym);
    if (!ret && !refused) violation(P_C01, "load-all-result", "%s returned false although the loader refused nothing", what);
    if (!ret && nn == C.nsym) violation(P_C01, "load-all-result", "%s returned false although all symbols are loaded", what);
    if (ret) { for (auto p : ptr_before) if (p) { shm->probes[PR_PARTIAL_THEN_OK]++; break; } }
    if (rderr) {
        if (ret) check_error(inst, EX_NEUTRAL, what, {}, "", nullptr);
        else { std::vector<string> ms; bool silent = false; for (auto &e : ev_sym) if (!e.res) { if (e.msg.empty()) silent = true; ms.push_back(e.msg); } check_error(inst, silent ? EX_FAIL : EX_LOADER, what, ms, "", nullptr); }
    }
}

static void after_free(const char *what, int ret, bool has_ret, bool force, int inst, bool rderr)
{
    no_open(what, P_C01 | P_C02);
    if (!M.cur) {
        if (!ev_close.empty()) violation(P_C02, "free-unloaded", "%s called dlclose() with no library loaded", what);
        if (has_ret && !ret) violation(P_C01 | P_C02, "free-unloaded", "%s failed with no library loaded", what);
        if (rderr) check_error(inst, EX_NEUTRAL, what, {}, "", nullptr);
        return;
    }
    if (ev_close.size() != 1) violation(P_C02, "free-closes", "%s closed %zu handles", what, ev_close.size());
    if (ev_close[0].inst != M.cur) violation(P_C02, "free-wrong", "%s closed another handle", what);
    bool ok = ev_close[0].ok;
    if (ok || force) {
        if (has_ret && !ret) violation(P_C01, "free-result", "%s reported failure although the library was released", what);
        if (!ok) { M.cur->leaked++; shm->probes[PR_ABANDONED]++; }
        M.cur = nullptr; M.path.clear(); M.path_inst = nullptr; M.failed_free = false;
        auto now = ptrs(); for (int i = 0; i < C.nsym; i++) if (now[i]) violation(P_C03 | P_C01, "free-pointers", "after %s symbol `%s' still has a pointer", what, C.sym[i].name);
        if (rderr && ok) check_error(inst, EX_NEUTRAL, what, {}, "", nullptr);
    } else {
        if (has_ret && ret) violation(P_C01, "free-result", "%s reported success although the loader refused to close the library", what);
        check_unchanged(what, P_C01 | P_C03); M.failed_free = true;
        if (rderr) check_error(inst, EX_LOADER, what, { ev_close[0].msg }, "", nullptr);
    }
}

static void after_symload_one(const char *what, int ret, int sym, const string &badname, bool bad, int inst, bool rderr)
{
    no_loader_activity(what, P_C01 | P_C03);
    if (!M.cur) {
        if (ret) violation(P_C01, "load-sym-result", "%s succeeded without a library", what);
        check_unchanged(what, P_C03);
        if (rderr) check_error(inst, EX_FAIL, "loading a symbol without a library", {}, "", refs_except(0)); return;
    }
    if (bad) {
        if (ret) violation(P_C01 | P_C03, "unknown-symbol", "%s accepted `%.80s', which is not a declared symbol", what, badname.c_str());
        check_unchanged(what, P_C03);
        if (rderr) check_error(inst, EX_FAIL, "loading an unknown symbol", {}, badname, refs_except(3)); return;
    }
    check_unchanged(what, P_C03, sym); check_pointers(P_C01);
    void *now = C.sym[sym].getptr();
    for (auto &e : ev_sym) if (e.name != C.sym[sym].name) violation(P_C03, "wrong-lookup", "%s of `%s' looked up `%.80s'", what, C.sym[sym].name, e.name.c_str());
    if (ptr_before[sym]) {
        if (!ret) violation(P_C01, "load-sym-result", "%s failed although symbol `%s' was loaded", what, C.sym[sym].name);
        if (!now) violation(P_C03 | P_C01, "symbol-lost", "%s unloaded symbol `%s'", what, C.sym[sym].name);
        if (rderr) check_error(inst, EX_NEUTRAL, what, {}, "", nullptr); return;
    }
    if (!!ret != !!now) violation(P_C01 | P_C03, "load-sym-result", "%s returned %d but the pointer of `%s' is %s", what, !!ret, C.sym[sym].name, now ? "set" : "null");
    if (!ret && !has_refused_sym()) violation(P_C01 | P_C03, "load-sym-result", "%s of `%s' failed although the loader refused nothing", what, C.sym[sym].name);
    if (rderr) { if (ret) check_error(inst, EX_NEUTRAL, what, {}, "", nullptr); else { std::vector<string> ms; bool silent = false; for (auto &e : ev_sym) if (!e.res) { ms.push_back(e.msg); if (e.msg.empty()) silent = true; } check_error(inst, silent ? EX_FAIL : EX_LOADER, what, ms, "", nullptr); } }
}

// symbol name to try, from a selector
static string pick_symname(u64 a, u64 b, int &sym, bool &bad, bool &isnull)
{
    sym = (int)(a % (u64)C.nsym); string n = C.sym[sym].name; bad = false; isnull = false;
    u64 k = b % 16; if (k < 9) return n;
    bad = true; u64 r = b >> 8; string o = n;
    switch (k) {
    case 9: o = n + (char)('a' + r % 26); break;
    case 10: o = n.substr(0, n.size() - 1); break;
    case 11: o = C.common_prefix; break;
    case 12: { size_t p = r % n.size(); o[p] = o[p] == 'z' ? 'y' : 'z'; break; }
    case 13: { char t[32]; snprintf(t, sizeof t, "Q%06llu~%%s%%n", (unsigned long long)msgcount++); o = r % 2 ? t : n + t; break; }
    case 14: if (r % 3 == 0) { isnull = true; return ""; } o = r % 3 == 1 ? "" : " " + n; break;
    default: { o = n; for (auto &ch : o) { if (ch >= 'a' && ch <= 'z') { ch -= 32; break; } if (ch >= 'A' && ch <= 'Z') { ch += 32; break; } } if (r % 4 == 0) o = n + "(" ; if (r % 4 == 1) o = n + string(9000, 'L'); break; }
    }
    int s2 = symidx(o.c_str()); if (s2 >= 0) { bad = false; sym = s2; } else shm->probes[PR_NEARMISS_NAME]++;
    return o;
}

static void run_exit_handlers()
{
    Op none; std::vector<Fault> keep; // exit handlers run with the faults of the exit operation
    while (nax > 0) { AtExit h = ax[--nax]; if (h.f0) h.f0(); else h.f1(h.arg); }
}

// checks the history's end: process exit with the given way
static void exit_phase(const Op *op, bool run_handlers, bool autofail)
{
    Op dummy; dummy.kind = O_EXIT; if (op && op->kind == O_EXIT) dummy = *op;
    Inst *before = M.cur; bool autoload_used = M.autorel;
    if (SC() && SC()->format == RT_CXX && SC()->wrap >= RT_AUTO && !sh_held.empty()) { // its static loader object would release the library, too
        cur_op = nullptr; sh_active = true; SC()->api->x_free(S2.x, 1, 1); sh_active = false; if (!sh_held.empty()) violation(P_C21, "second-handles", "the second API's library was not released");
    }
    begin_op(dummy); logf_("exit phase");
    if (before) shm->probes[PR_EXIT_WITH_OPEN]++;
    if (!run_handlers) return;
    // plugins and minimal loaders have no exit handling
    exit_armed = true;
    if (sigsetjmp(exit_jb, 0) == 0) run_exit_handlers();
    else violation(P_C02 | P_C07, "exit-in-exit", "an exit handler ended the process again (%d)", exit_how);
    exit_armed = false;
    bool expects = before && (autoload_used || autofail);
    unsigned pr = P_C02 | (C.wrap >= RT_AUTO ? P_C07 : 0);
    if (isC() || isX()) {
        if (expects) {
            size_t n = ev_close.size();
            if (n == 0) violation(pr, "exit-not-released", "the library was not released at exit although automatic release was active");
            if (n > 1) violation(pr, "exit-released-twice", "the library was closed %zu times at exit", n);
            if (ev_close[0].inst != before) violation(pr, "exit-released-other", "exit closed another library");
            if (!ev_close[0].ok) before->leaked++;
            M.cur = nullptr;
        } else if (!ev_close.empty() && !before) violation(pr, "exit-released-none", "exit closed a library although none was loaded");
        else if (!ev_close.empty() && before && isX() && C.wrap >= RT_AUTO) {
            // the static loader object of the wrapper code exists whether or not it was used
            if (ev_close.size() > 1 || ev_close[0].inst != before) violation(pr, "exit-released-other", "exit closed %zu libraries", ev_close.size());
            if (!ev_close[0].ok) before->leaked++;
            M.cur = nullptr;
        } else if (!ev_close.empty() && before) violation(pr, "exit-released-unasked", "exit closed the library although automatic release was never enabled");
        if (!ev_open.empty()) violation(pr, "exit-opened", "exit handling opened a library");
        if (M.cur == nullptr) { check_pointers(0); check_handles(0); }
    }
}

static void check_call_record(int sym, RtCall &rc, bool expect_hook, const char *what, unsigned props, int variant)
{
    int targets = 0, hooks = 0, hookstyle = C.sym[sym].has_hook; int firsthook = -1, firsttarget = -1;
    for (size_t i = 0; i < ev_calls.size(); i++) {
        TCall &t = ev_calls[i];
        if (t.sym != sym) violation(props, "call-other", "%s of `%s' reached `%s'", what, C.sym[sym].name, C.sym[t.sym].name);
        if (!t.hook && t.lib != variant) violation(props | P_C03, "call-other-library", "%s of `%s' reached another library", what, C.sym[sym].name);
        if (t.hook) { hooks++; if (firsthook < 0) firsthook = (int)i; } else { targets++; if (firsttarget < 0) firsttarget = (int)i; }
        int nexp = t.hook && C.sym[sym].varargs ? (int)t.v.size() : rc.n;   // a variadic hook only sees the fixed parameters
        if ((int)t.v.size() != nexp) violation(props, "call-args", "%s of `%s' passed %zu values instead of %d", t.hook ? "hook" : what, C.sym[sym].name, t.v.size(), nexp);
        for (int k = 0; k < nexp; k++) if (t.v[k] != rc.v[k]) violation(props, "call-args", "%s of `%s': value %d arrived as %#llx instead of %#llx", t.hook ? "hook" : what, C.sym[sym].name, k, (unsigned long long)t.v[k], (unsigned long long)rc.v[k]);
    }
    int wt = (expect_hook && hookstyle == 2) ? 2 : 1, wh = (expect_hook && hookstyle == 1) ? 1 : 0;
    if (targets != wt) violation(props, "call-count", "%s of `%s' called the target %d times instead of %d", what, C.sym[sym].name, targets, wt);
    if (hooks != wh) violation(props, "hook-count", "%s of `%s' ran its hook %d times instead of %d", what, C.sym[sym].name, hooks, wh);
    if (wh && firsthook > firsttarget) violation(props, "hook-order", "hook of `%s' ran after the target", C.sym[sym].name);
    if (rc.has_ret && rc.got_ret != rc.want_ret) violation(props, "call-return", "%s of `%s' returned %#llx instead of %#llx", what, C.sym[sym].name, (unsigned long long)rc.got_ret, (unsigned long long)rc.want_ret);
    if (!rc.done) violation(props, "call-return", "%s of `%s' did not return", what, C.sym[sym].name);
    if (C.sym[sym].varargs) shm->probes[PR_VARARG_CALL]++;
}

enum Flow { GO_ON, HISTORY_ENDS, SKIPPED };
static void compare_second();    // has the operation of the first API left the second one alone?

static Flow op_call(const Op &o)
{
    int fn = -1; { std::vector<int> fs; for (int i = 0; i < C.nsym; i++) if (!C.sym[i].is_obj && !C.sym[i].inlined_only) fs.push_back(i); if (fs.empty()) return SKIPPED; fn = fs[o.a % fs.size()]; }
    const RtSym &s = C.sym[fn]; int tu = (o.b & 1) && s.call[1] ? 1 : 0;
    void *p = s.getptr();
    if (!p && C.wrap == RT_RAW) return SKIPPED;
    static RtCall rc; memset(&rc, 0, sizeof rc); rc.seed = o.c; ret_seed = mix(o.c ^ 0x5555);
    take_stderr(); volatile bool returned = false; bool was = M.cur != nullptr;
    exit_how = 0; exit_armed = true;
    if (sigsetjmp(exit_jb, 0) == 0) { s.call[tu](&rc); returned = true; }
    exit_armed = false;
    string err = take_stderr(); for (auto &b : boxes) err += b + "\n";
    logf_("  stderr: %.300s", err.c_str());
    unsigned pbase = P_C05 | (C.wrap == RT_WRAP ? P_C06 : 0) | (C.wrap >= RT_AUTO ? P_C07 : 0) | (isM() ? P_C10 : 0);
    bool wrapped = C.wrap != RT_RAW;
    if (p) {
        if (!returned) violation(pbase, "call-exits", "calling `%s' with its symbol loaded ended the process", s.name);
        if (n_dlcalls) violation(pbase, "call-loads", "calling `%s' with its symbol loaded made loader calls", s.name);
        if (!err.empty() || !cb_msgs.empty()) violation(pbase, "call-prints", "calling `%s' with its symbol loaded printed an error: %.100s", s.name, err.c_str());
        check_call_record(fn, rc, wrapped, wrapped ? "wrapped call" : "call", pbase, M.cur ? M.cur->variant : -1);
        check_unchanged("a call", P_C03); return GO_ON;
    }
    if (C.wrap == RT_WRAP) {
        shm->probes[PR_WRAP_ABORT]++;
        if (returned) violation(P_C06, "wrap-returned", "calling wrapper `%s' without its symbol returned", s.name);
        if (exit_how != 2 && exit_how != 4) violation(P_C06, "wrap-exit", "calling wrapper `%s' without its symbol ended the process with exit(%d) instead of abort", s.name, exit_code_);
        if (!ev_calls.empty()) violation(P_C06, "wrap-ran", "calling wrapper `%s' without its symbol ran the %s", s.name, ev_calls[0].hook ? "hook" : "target");
        if (!ev_open.empty() || !ev_sym.empty() || !ev_close.empty()) violation(P_C06, "wrap-loader", "calling wrapper `%s' without its symbol made loader calls", s.name);
        string m;
        if (isX() && M.cb) {
            if (cb_which != M.cb) violation(P_C06, "wrap-message", "the message callback in effect was not called for `%s'", s.name);
            if (cb_msgs.size() != 1) violation(P_C06, "wrap-message", "the message callback was called %zu times", cb_msgs.size());
            if (!err.empty()) violation(P_C06, "wrap-message", "a message was printed although a callback is set");
            m = cb_msgs[0];
        } else m = err;
        if (m.find(s.name) == string::npos) violation(P_C06, "wrap-message", "the message for wrapper `%s' does not name the symbol: %.200s", s.name, m.c_str());
        string low; for (size_t i = 0; i < m.size(); ) { if (!m.compare(i, strlen(s.name), s.name)) { i += strlen(s.name); low += '?'; } else low += (char)tolower((unsigned char)m[i++]); }
        if (M.cur ? (low.find("library not loaded") != string::npos || low.find("library is not loaded") != string::npos || low.find("no library") != string::npos) : low.find("library") == string::npos)
            violation(P_C06, "wrap-message", "a library is %sloaded, but the message for wrapper `%s' says: %.200s", M.cur ? "" : "not ", s.name, m.c_str());
        check_unchanged("a failed wrapper call", P_C06); return HISTORY_ENDS;
    }
    // auto-loading
    if (!was) {
        bool unnamed = ev_open.empty() && (conv_failed || op_alloc_failed); if (unnamed) ev_open.push_back({ winsep(C.default_lib), C.default_flags, 0, nullptr, "" });
        if (ev_open.size() != 1) violation(P_C07, "auto-opens", "auto-loading asked the loader %zu times to open a library", ev_open.size());
        if (!C.default_lib || ev_open[0].name != winsep(C.default_lib)) violation(P_C07, "auto-name", "auto-loading opened `%.100s' instead of `%.100s'", ev_open[0].name.c_str(), C.default_lib ? C.default_lib : "(none)");
        if (ev_open[0].flags != C.default_flags) violation(P_C07, "auto-flags", "auto-loading passed flags %#x instead of %#x", (unsigned)ev_open[0].flags, (unsigned)C.default_flags);
        if (ev_open[0].ns) violation(P_C07, "auto-namespace", "auto-loading used a new namespace");
        if (ev_open[0].inst) M.cur = ev_open[0].inst;
    } else if (!ev_open.empty()) violation(P_C07, "auto-opens", "auto-loading opened a library although one was loaded");
    bool open_refused = !was && !ev_open[0].inst; bool refused = has_refused_sym();
    if (n_atexit_ok) M.autorel = true;
    if (isX()) M.autorel = true;    // a static loader object owns the library
    if (returned) {
        shm->probes[PR_AUTO_OK]++;
        if (open_refused) violation(P_C07, "auto-result", "auto-loading `%s' went on although the library could not be loaded", s.name);
        if (!ev_close.empty()) violation(P_C07 | P_C02, "auto-closed", "auto-loading closed a library and went on");
        check_pointers(P_C07); auto now = ptrs();
        if (!now[fn]) violation(P_C07, "auto-result", "auto-loading `%s' went on without its symbol", s.name);
        if (C.wrap == RT_AUTO) { for (int i = 0; i < C.nsym; i++) if (!now[i]) violation(P_C07, "auto-all", "auto-loading for `%s' left symbol `%s' unloaded and went on", s.name, C.sym[i].name); }
        else { check_unchanged("lazy auto-loading", P_C07, fn); for (auto &e : ev_sym) if (e.name != s.name) violation(P_C07, "auto-lazy", "lazy auto-loading of `%s' looked up `%s'", s.name, e.name.c_str()); }
        if (!err.empty() || !cb_msgs.empty()) violation(P_C07, "auto-prints", "successful auto-loading printed: %.100s", err.c_str());
        check_call_record(fn, rc, true, "auto-loaded call", P_C07 | P_C05, M.cur->variant);
        check_handles(P_C07);
        return GO_ON;
    }
    if (open_refused) shm->probes[PR_AUTO_FAIL_OPEN]++; else shm->probes[PR_AUTO_FAIL_SYM]++;
    if (!open_refused && !refused) violation(P_C07, "auto-result", "auto-loading `%s' ended the process although the loader refused nothing", s.name);
    if (exit_how != 1 || exit_code_ != 1) violation(P_C07, "auto-exit", "failed auto-loading of `%s' ended the process with %s(%d)", s.name, exit_how == 1 ? "exit" : exit_how == 3 ? "_exit" : "abort", exit_code_);
    if (!ev_calls.empty()) violation(P_C07, "auto-ran", "failed auto-loading of `%s' still ran the %s", s.name, ev_calls[0].hook ? "hook" : "target");
    string m = err;
    if (isX() && M.cb) {
        if (cb_which != M.cb || cb_msgs.size() != 1) violation(P_C07, "auto-message", "the message callback in effect was called %zu times for `%s'", cb_msgs.size(), s.name);
        m = cb_msgs[0];
    }
    {   // the reason the loader gave is what the user gets to see (as far as it fits the error buffer)
        string why = open_refused ? ev_open[0].msg : ""; if (!open_refused) for (auto &e : ev_sym) if (!e.res) why = e.msg;
        if (!why.empty() && !conv_failed && !op_alloc_failed && !fmt_failed && m.find(why.substr(0, 8)) == string::npos)
            violation(P_C07, "auto-reason", "the auto-loading error for `%s' does not give the loader's reason `%s': %.200s", s.name, clip(why).c_str(), m.c_str());
    }
    if (m.find(s.name) == string::npos) violation(P_C07, "auto-message", "the auto-loading error for `%s' does not name the symbol: %.200s", s.name, m.c_str());
    if ((!was || libs[M.cur->lib].name == C.default_lib) && !conv_failed && !mentions(m, C.default_lib)) violation(P_C07, "auto-message", "the auto-loading error for `%s' does not name the library: %.200s", s.name, m.c_str());
    for (auto &e : ev_close) { if (e.inst != M.cur) violation(P_C07 | P_C02, "auto-closed-other", "failed auto-loading closed another library"); if (!e.ok) e.inst->leaked++; }
    if (ev_close.size() > 1) violation(P_C07 | P_C02, "auto-closed-twice", "failed auto-loading closed the library %zu times", ev_close.size());
    if (!ev_close.empty()) { M.cur = nullptr; }
    compare_second();
    exit_phase(nullptr, true, true);
    return HISTORY_ENDS;
}

static int pick_flags(u64 b)
{
    static const int fl[] = { 1, 2, 0x101, 0x102, 0, 0x1002, 4 | 1, 8 | 2, -1, 0x7fffffff };
    return fl[b % 10];
}

static bool is_linux() { string p = C.plat; return C.has_dlinfo && (p == "glibc" || p == "pmq" || p == "musl"); }
static void path_op(int inst, const Op &o)
{
    std::string res; bool null = false;
    static char buf[300000];
    if (isC()) { const char *p = A.lib_path(); if (!p) null = true; else res = p; if (!C.wide) M.path_raw = p; }
    else { A.x_path(M.x[inst].p, buf, sizeof buf); res = buf; null = res.empty(); }
    bool rderr = o.fl & 1; logf_("  path -> %.100s", null ? "(fail)" : res.c_str());
    no_loader_activity("the library path query", P_C08 | P_C02); check_unchanged("the library path query", P_C03 | P_C08);
    if (!M.cur) {
        if (!null) violation(P_C08, "path-unloaded", "the library path query returned `%.100s' with no library loaded", res.c_str());
        if (rderr) { check_error(inst, EX_FAIL, "library path without a library", {}, "", refs_except(0)); }
        return;
    }
    int ws = isX() ? rt_wsel : 0; string &cp = isC() ? M.path : M.x[inst].path[ws]; Inst *&ci = isC() ? M.path_inst : M.x[inst].path_inst[ws];
    if (ci == M.cur) {
        shm->probes[PR_PATH_CACHED]++;
        if (null || res != cp) violation(P_C08, "path-changed", "the library path was `%.100s' and is now `%.100s' for the same library", cp.c_str(), null ? "(none)" : res.c_str());
        if (rderr) check_error(inst, EX_NEUTRAL, "library path query", {}, "", nullptr);
        return;
    }
    string full = inst_abspath[M.cur->id]; bool anysym = false; for (auto p : ptr_before) if (p) anysym = true;
    std::vector<string> ok; bool map_full = map_opened && !map_fault && M.cur->mapped, abs_ok = false;
    for (auto &e : ev_path) { if (e.src >= 10) { if (e.src == 10 + M.cur->id) ok.push_back(e.path); } else { ok.push_back(e.path); } }
    for (auto &e : ev_path) if ((e.src == 0 || e.src == 2) && e.path[0] == '/') abs_ok = true;
    size_t limit = isC() || C.win ? (size_t)C.buflen : 1u << 30;
    if (!null) {
        if (std::find(ok.begin(), ok.end(), res) == ok.end()) violation(P_C08, "path-wrong", "the library path query returned `%s'; the platform reports `%s'", clip(res).c_str(), ok.empty() ? "nothing" : clip(ok[0]).c_str());
        if (!C.win && res[0] != '/' && ((map_full && full.size() + 1 <= (size_t)C.buflen) || (abs_ok && full.size() + 1 <= limit))) violation(P_C08, "path-relative", "the library path query returned `%s' although the full path `%s' was available", clip(res).c_str(), clip(full).c_str());
        if (res[0] != '/' && is_linux()) {   // a relative name from the link map is what is left when the process map is of no help
            bool from_lm = false, from_addr = false; for (auto &e : ev_path) if (e.path == res) { if (e.src == 0) from_lm = true; if (e.src == 2) from_addr = true; }
            if (from_lm && !from_addr && !n_fopen) violation(P_C08, "path-relative", "the library path query returned the relative `%s' without looking into the process map", clip(res).c_str());
            if (C.pmq && M.cur->mapped && map_fd && !ioctl_fault && full.size() + 1 <= std::min<size_t>(4096, (size_t)C.buflen)) violation(P_C08, "path-relative", "the library path query returned `%s' although PROCMAP_QUERY works and gives the full path `%s'", clip(res).c_str(), clip(full).c_str());
        }
        if (res[0] == '/' && n_fopen) shm->probes[PR_PATH_MAPS]++;
        if (n_addr) shm->probes[PR_PATH_DLADDR]++;
        cp = res; ci = M.cur;
        if (rderr) check_error(inst, EX_NEUTRAL, "library path query", {}, "", nullptr);
        return;
    }
    shm->probes[PR_PATH_FAIL]++;
    bool fits = false; for (auto &e : ev_path) if (e.src < 10 && e.path.size() + 1 <= limit) fits = true;
    if (fits) violation(P_C08, "path-failed", "the library path query failed although the platform supplied a path");
    if (!n_info && !n_addr && (C.has_dlinfo || C.win || anysym)) violation(P_C08, "path-failed", "the library path query failed without asking the platform");
    if (anysym && (C.aix ? !info_bad : C.has_dladdr && !addr_fault) && full.size() + 1 <= limit) violation(P_C08, "path-failed", "the library path query failed although the path could be had from a loaded symbol");
    if (rderr) check_error(inst, EX_FAIL, "library path query", {}, "", nullptr);
}

// ------------------------------------------------------------------ the second API
// It is driven like any user would drive it and judged on its own (loaded or not, pointers, handles, calls);
// what matters is that neither API ever sees the other one's doings.

// everything a user can see of an API without changing it
static string snapshot(bool second)
{
    const RtConfig &k = second ? *SC() : C; const RtApi &B = *k.api; string s; char b[64]; static char t[200000];
    const Op *co = cur_op; cur_op = nullptr; bool sa = sh_active; sh_active = second; string pend = dl_pending; bool has = dl_has_pending; unsigned we = win_err; int ws = rt_wsel; rt_wsel = 0;
    auto num = [&](const char *n, long long v) { snprintf(b, sizeof b, "%s=%lld ", n, v); s += b; };
    auto ptr = [&](const char *n, void *v) { snprintf(b, sizeof b, "%.20s=%p ", n, v); s += b; };
    if (k.format != RT_PLUGIN) for (int i = 0; i < k.nsym; i++) ptr(k.sym[i].name, k.sym[i].getptr());
    if (k.format == RT_C) {
        num("loaded", !!B.is_loaded()); num("all", !!B.all_loaded()); num("none", !!B.no_loaded()); num("any", !!B.any_loaded());
        const char *e = B.last_error(); s += "error=" + string(e ? e : "(null)") + " ";
        if (!second && M.path_raw) s += "path=" + string(M.path_raw);
    } else if (k.format == RT_CXX) {
        num("loaded", !!B.is_loaded());
        for (int i = 0; i < (second ? 1 : 3); i++) {
            void *x = second ? S2.x : M.x[i].p; if (!x) continue;
            num("all", !!B.x_all(x)); num("none", !!B.x_no(x)); num("any", !!B.x_any(x)); num("flags", B.x_flags(x)); num("dtor", !!B.x_get_dtor(x));
            B.x_error(x, t, sizeof t); s += "error=" + string(t) + " "; B.x_filename(x, t, sizeof t); s += "filename=" + string(t) + " ";
        }
        if (B.x_get_cb) ptr("callback", B.x_get_cb());
    } else if (k.format == RT_PLUGIN) {
        for (int l = 0; l < (second ? 1 : 4); l++) {
            void *p = second ? S2.list : M.ps[l].p; if (!p) continue;
            size_t n = B.p_num(p); num("entries", (long long)n);
            for (size_t i = 0; i < n; i++) { const char *f = B.p_filename(p, i); s += "name=" + string(f ? f : "(null)") + " "; ptr("handle", B.p_handle(p, i)); for (int j = 0; j < k.nsym; j++) ptr(k.sym[j].name, B.p_ptr(p, i, j)); }
        }
    }
    cur_op = co; sh_active = sa; dl_pending = pend; dl_has_pending = has; win_err = we; rt_wsel = ws;
    return s;
}
static void compare_snapshots(const string &a, const string &b, const char *who, const char *whose)
{
    if (a == b) return;
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t w = i ? a.rfind(' ', i - 1) : string::npos; w = w == string::npos ? 0 : w + 1;
    violation(P_C21, "state-shared", "%s changed what %s shows: `%.150s' became `%.150s'", who, whose, a.substr(w, 150).c_str(), b.substr(w, 150).c_str());
}
static void sh_call(int i, void (*direct)(RtCall *), const std::function<void(RtCall *)> &viaplugin, int variant, u64 seed)
{
    static RtCall rc; memset(&rc, 0, sizeof rc); rc.seed = seed; const RtSym &s = SC()->sym[i];
    if (direct) direct(&rc); else viaplugin(&rc);
    shm->probes[PR_SH_CALL]++;
    if (ev_calls.size() != 1 || ev_calls[0].sym != i || ev_calls[0].lib != variant) violation(P_C21, "second-call", "a call of `%s' through the second API did not arrive once at its target", s.name);
    TCall &t = ev_calls[0]; bool same = (int)t.v.size() == rc.n; for (int k = 0; same && k < rc.n; k++) same = t.v[k] == rc.v[k];
    if (!same) violation(P_C21, "second-call", "a call of `%s' through the second API passed other values", s.name);
    if (!rc.done || (rc.has_ret && rc.got_ret != rc.want_ret)) violation(P_C21, "second-call", "a call of `%s' through the second API returned another value", s.name);
    if (n_dlcalls) violation(P_C21, "second-call", "a call of `%s' through the second API made loader calls", s.name);
}
static void second_state(const char *what)
{
    const RtConfig &k = *SC(); const RtApi &B = *k.api;
    if (k.format == RT_PLUGIN) {
        size_t n = S2.list ? B.p_num(S2.list) : 0; std::vector<Inst *> own;
        if (n != S2.entry.size()) violation(P_C21, "second-list", "the second API's plugin list has %zu entries instead of %zu", n, S2.entry.size());
        for (size_t i = 0; i < n; i++) {
            void *h = B.p_handle(S2.list, i); Inst *in = S2.entry[i]; if (h != (in ? in->addr : nullptr)) violation(P_C21, "second-list", "entry %zu of the second API's plugin list has another handle", i);
            if (in) own.push_back(in);
            for (int j = 0; j < k.nsym; j++) { void *q = B.p_ptr(S2.list, i, j); if (q && (!in || q != k.target(in->variant, j))) violation(P_C21, "second-pointer", "entry %zu of the second API's plugin list has a wrong pointer for `%s'", i, k.sym[j].name); }
        }
        auto held = sh_held; std::sort(own.begin(), own.end()); std::sort(held.begin(), held.end());
        if (own != held) violation(P_C21, "second-handles", "after %s the second API's plugin list has %zu libraries but holds %zu handles", what, own.size(), held.size());
        return;
    }
    if (sh_held.size() > 1) violation(P_C21, "second-handles", "after %s the second API holds %zu handles", what, sh_held.size());
    Inst *in = sh_held.empty() ? nullptr : sh_held[0]; int nn = 0;
    for (int i = 0; i < k.nsym; i++) { void *p = k.sym[i].getptr(); if (p) nn++; if (p && (!in || p != k.target(in->variant, i))) violation(P_C21, "second-pointer", "after %s the second API's pointer of `%s' is %s", what, k.sym[i].name, in ? "not that library's symbol" : "set although no library is loaded"); }
    if (k.format == RT_C || k.format == RT_CXX) {
        if (!!B.is_loaded() != (in != nullptr)) violation(P_C21, "second-loaded", "after %s the second API's library-is-loaded query says %d", what, !!B.is_loaded());
        int all = k.format == RT_C ? B.all_loaded() : B.x_all(S2.x), no = k.format == RT_C ? B.no_loaded() : B.x_no(S2.x);
        if (!!all != (nn == k.nsym) || !!no != (nn == 0)) violation(P_C21, "second-query", "after %s the second API's symbol queries are wrong with %d of %d symbols loaded", what, nn, k.nsym);
    }
}
static string second_before; static bool second_due;
static void compare_second()
{
    if (!second_due) return;
    second_due = false;
    string w = string("operation ") + op_name[cur_op ? cur_op->kind : O_CALL] + " of the first API";
    compare_snapshots(second_before, snapshot(true), w.c_str(), "the second one"); second_state(w.c_str());
    if (!sh_held.empty() && !ev_close.empty()) shm->probes[PR_SH_KEPT]++;
}
static void check_plugin_handles()
{
    for (auto i : insts) { int own = 0; for (auto &s : M.ps) for (auto &e : s.e) if (e.inst == i) own++; if (i->refs - i->leaked - sh_refs(i) != own) violation(P_C21, "plugin-handles", "library h%d is open %d times but listed %d times by the first API", i->id, i->refs, own); }
}
static Flow shadow_op(const Op &o)
{
    if (!SC()) return SKIPPED;
    const RtConfig &k = *SC(); const RtApi &B = *k.api; u64 q = o.b % 100; bool done = true, judged = false; const char *what = "nothing";
    string before = snapshot(false); begin_op(o);
    sh_active = true; string nm = lib_name(o.a & 0xffffffff); size_t had = sh_held.size(); std::vector<int> fns, objs, unset;
    if (k.format != RT_PLUGIN) for (int i = 0; i < k.nsym; i++) { if (k.sym[i].getptr()) (k.sym[i].is_obj ? objs : fns).push_back(i); else unset.push_back(i); }
    bool gone = false; auto given_up = [&]() { if (!gone) for (auto &e : ev_close) if (!e.ok && sh_refs(e.inst)) { e.inst->leaked++; sh_closed(e.inst); } gone = true; };
    auto use = [&]() {
        if ((o.c >> 13) % 4 && !fns.empty()) { int i = fns[o.c % fns.size()]; what = "a call"; if (k.sym[i].inlined_only || !k.sym[i].call[0]) { done = false; return; } sh_call(i, k.sym[i].call[0], nullptr, sh_held.empty() ? -1 : sh_held[0]->variant, o.c); }
        else if (!objs.empty() && !sh_held.empty()) {
            int i = objs[o.c % objs.size()], v = sh_held[0]->variant; what = "an object access"; for (int l = 0; l < RT_NLIB; l++) k.objset(l, i, mix(o.c ^ (u64)l));
            if (k.sym[i].objread() != k.objget(v, i)) violation(P_C21, "second-object", "reading object `%s' through the second API gives another value", k.sym[i].name);
            if (k.sym[i].objwrite) { k.sym[i].objwrite(mix(o.c)); if (k.sym[i].objread() != k.objget(v, i)) violation(P_C21, "second-object", "writing object `%s' through the second API missed it", k.sym[i].name); }
        } else done = false; };
    if (k.format == RT_C || k.format == RT_CXX) {
        bool c = k.format == RT_C; void *x = S2.x; int r = -1, want = -1; judged = true;
        if (q < 26) { what = "load"; int fl = pick_flags(o.b >> 8); if (q & 1) r = c ? B.load_lib_args(nm.c_str(), fl, 0) : B.x_load(x, nm.c_str(), 3, fl, 0); else r = c ? B.load_lib_name(nm.c_str()) : B.x_load(x, nm.c_str(), 1, 0, 0); want = !had && !sh_held.empty(); }
        else if (q < 34) { what = "load with symbols"; if (c) r = B.load_lib_name_and_symbols(nm.c_str()); else { B.x_load(x, nm.c_str(), 1, 0, 0); r = had ? 0 : B.x_load_all(x); } if (!had && sh_held.empty()) want = 0; }
        else if (q < 48) { what = "load of all symbols"; r = c ? B.load_all() : B.x_load_all(x); if (!had) want = 0; else want = !has_refused_sym(); }
        else if (q < 58) { int i = (int)(o.c % (u64)k.nsym); what = "load of a symbol"; bool set = k.sym[i].getptr(); r = c ? B.load_num(k.sym[i].load_num) : B.x_load_num(x, k.sym[i].load_num); want = had && (set || !has_refused_sym()); }
        else if (q < 62) { what = "load of a symbol by name"; const char *n = o.c & 1 ? k.sym[(o.c >> 1) % (u64)k.nsym].name : C.sym[(o.c >> 1) % (u64)C.nsym].name; int i = symidx_in(k, n); bool set = i >= 0 && k.sym[i].getptr(); r = c ? B.load_name(n) : B.x_load_name(x, n); want = had && i >= 0 && (set || !has_refused_sym()); }
        else if (q < 74) { what = "free"; r = c ? B.free_lib() : B.x_free(x, 0, 0); want = !had || (!ev_close.empty() && ev_close[0].ok); }
        else if (q < 78) { what = "forced free"; if (c) B.force_free(); else B.x_free(x, 1, 1); }
        else if (q < 86) { what = "library path query"; static char t[200000]; judged = false; if (c) { const char *p = B.lib_path(); (void)p; } else B.x_path(x, t, sizeof t); }
        else if (q < 97 || c) { judged = false; use(); }
        else if (q < 99 && B.x_set_cb) { judged = false; what = "setting the callback"; B.x_set_cb(o.c & 1 ? cb_a : o.c & 2 ? cb_b : nullptr); }
        else { what = "replacing the loader object"; judged = false; B.x_delete(x); S2.x = nullptr; S2.x = B.x_new(); }
        logf_("  second API: %s -> %d", what, r);
        if (!B.is_loaded()) given_up();
        if (want >= 0 && !op_alloc_failed && !conv_failed && !!r != want) violation(P_C21, "second-result", "%s through the second API returned %d instead of %d", what, r, want);
        if (want == 0) shm->probes[PR_SH_FAIL]++;
        if (judged) {     // a text from this API's own doings, not from the other's
            string t; if (c) { const char *e = B.last_error(); t = e ? e : ""; } else { static char b[200000]; B.x_error(S2.x, b, sizeof b); t = b; }
            for (size_t p = 0; (p = t.find('Q', p)) != string::npos; p++) if (p + 7 < t.size() && t[p + 7] == '~') { u64 n = strtoull(t.substr(p + 1, 6).c_str(), 0, 10); if (n < op_first_token && n < msgcount) violation(P_C21, "error-foreign", "after %s the second API's error text shows an earlier failure: %.120s", what, t.c_str()); }
        }
    } else if (k.format == RT_PLUGIN) {
        if (!S2.list) {
            std::vector<string> names; std::vector<const char *> arr; Rng r(o.c); size_t n = 1 + r.below(3); for (size_t i = 0; i < n; i++) names.push_back(lib_name(r.next())); for (auto &s : names) arr.push_back(s.c_str());
            what = "load of plugins"; S2.list = B.p_load(arr.data(), n); S2.entry.clear();
            if (S2.list) { size_t oi = 0; for (size_t i = 0; i < n; i++) { Inst *in = nullptr; if (oi < ev_open.size() && same_name(ev_open[oi].name, names[i])) in = ev_open[oi++].inst; S2.entry.push_back(in); } }
            else if (!op_alloc_failed) violation(P_C21, "second-result", "loading %zu plugins through the second API yielded NULL", n);
            given_up();
        } else if (q < 35) {
            what = "release of plugins"; B.p_release(S2.list); S2.list = nullptr; S2.entry.clear(); given_up();
        } else {
            size_t e = o.a % S2.entry.size(); for (int i = 0; i < k.nsym; i++) if (!k.sym[i].is_obj && B.p_ptr(S2.list, e, i)) fns.push_back(i);
            if (!fns.empty() && S2.entry[e]) { int i = fns[o.c % fns.size()]; what = "a plugin call"; void *l = S2.list; sh_call(i, nullptr, [&](RtCall *rc) { B.p_call(l, e, i, rc); }, S2.entry[e]->variant, o.c); } else done = false;
        }
    } else {
        static char t[200000];
        if (q < 45) { what = "load"; int r = B.m_load(nm.c_str(), t, sizeof t); given_up(); if (!r != (!sh_held.empty() && !has_refused_sym()) && !op_alloc_failed && !conv_failed && !(had && ev_open.empty())) violation(P_C21, "second-result", "load through the second (minimal) API returned %d", r); if (r) shm->probes[PR_SH_FAIL]++; }
        else if (q < 65) { what = "free"; B.m_free(); }
        else use();
        given_up();
    }
    second_state(what); logf_("  second API: %s", what);
    sh_active = false;
    if (isP()) check_plugin_handles(); else { check_pointers(P_C21); check_handles(P_C21); }
    if (M.cur && !sh_held.empty()) shm->probes[PR_SH_BOTH]++;
    string a = string(what) + " through the second API"; compare_snapshots(before, snapshot(false), a.c_str(), "the first one");
    return done ? GO_ON : SKIPPED;
}

static Flow run_op(const Op &o)
{
    bool rderr = o.fl & 1; unsigned ex = allprops(); (void)ex;
    if (o.kind == O_SHADOW) return shadow_op(o);
    begin_op(o); M.path_raw = nullptr;
    // ------------------------------------------------------------ common environment
    if (o.kind == O_ENVLIB) {
        size_t i = o.a % libs.size(); u64 m = o.b; libs[i].missing = m & (C.nsym >= 64 ? ~0ull : ((1ull << C.nsym) - 1)); libs[i].nullsym = 0;
        switch (o.c % 6) { case 0: case 1: case 2: libs[i].missing = 0; break; case 3: libs[i].missing = 1ull << (m % (u64)C.nsym); break; case 4: libs[i].missing = 0; libs[i].nullsym = 1ull << (m % (u64)C.nsym); break; default: break; }
        logf_("lib %zu now misses %llx", i, (unsigned long long)libs[i].missing); return GO_ON;
    }
    if (o.kind == O_EXIT) return HISTORY_ENDS;

    // ------------------------------------------------------------ plugin
    if (isP()) {
        int sl = (int)(o.a & 3); Model::PS &ps = M.ps[sl];
        if (o.kind == O_PLOAD) {
            if (ps.p) return SKIPPED;
            Rng r(o.b); size_t n = r.below(12) == 0 ? 0 : 1 + r.below(6); std::vector<string> names; std::vector<bool> nul; std::vector<const char *> arr;
            for (size_t i = 0; i < n; i++) { u64 k = r.below(12); names.push_back(k == 0 ? "" : k == 1 ? "" : lib_name(r.next())); nul.push_back(k == 1); }
            for (size_t i = 1; i < n; i++) if (r.below(6) == 0) { size_t j = r.below(i); names[i] = names[j]; nul[i] = nul[j]; }
            for (size_t i = 0; i < n; i++) arr.push_back(nul[i] ? nullptr : names[i].c_str());
            for (size_t i = 1; i < n; i++) if (!nul[i] && r.below(3) == 0) for (size_t j = i; j-- > 0; ) if (!nul[j] && names[j] == names[i]) { arr[i] = arr[j]; break; }
            bool nullarr = r.below(20) == 0; size_t alloc_before = allocs.size();
            arr.push_back(nullptr);
            void *p = A.p_load(nullarr ? nullptr : arr.data(), n);
            logf_("  plugin list of %zu -> %s", n, p ? "list" : "NULL");
            // loader-side names must be copies: scribble over the caller's strings
            if (nullarr || n == 0) { if (p) violation(P_C09, "plugin-empty", "an empty plugin list did not yield NULL"); if (!ev_open.empty()) violation(P_C09, "plugin-empty", "an empty plugin list opened a library"); }
            if (!p) {
                if (!(nullarr || n == 0) && !op_alloc_failed) violation(P_C09, "plugin-null", "loading %zu plugins yielded NULL", n);
                if (allocs.size() != alloc_before) violation(P_C09, "plugin-leak", "a failed plugin load kept %zu memory blocks", allocs.size() - alloc_before);
                for (auto &e : ev_open) if (e.inst) { int closes = 0, opens = 0; for (auto &c : ev_close) if (c.inst == e.inst) closes++; for (auto &c : ev_open) if (c.inst == e.inst) opens++; if (opens != closes) violation(P_C09, "plugin-leak", "a failed plugin load kept a library open"); }
                if (op_alloc_failed) shm->probes[PR_PLUGIN_OOM]++;
                return GO_ON;
            }
            if (op_alloc_failed) shm->probes[PR_PLUGIN_OOM]++;
            ps.p = p; ps.oom = op_alloc_failed; ps.e.clear();
            if (A.p_num(p) != n) violation(P_C09, "plugin-num", "the plugin list has %zu entries instead of %zu", A.p_num(p), n);
            std::vector<OpenEv> opens = ev_open; size_t oi = 0; int okc = 0, badc = 0;
            for (size_t i = 0; i < n; i++) {
                Model::PE e; e.name = names[i]; e.nul = nul[i]; void *h = A.p_handle(p, i); const char *fnm = A.p_filename(p, i);
                if (names[i].empty()) {
                    if (h) violation(P_C09, "plugin-entry", "entry %zu has a handle although its name is empty", i);
                    if (fnm && *fnm) violation(P_C09, "plugin-entry", "entry %zu has a name although none was given", i);
                } else {
                    bool asked = oi < opens.size() && same_name(opens[oi].name, names[i]);
                    if (!asked && !op_alloc_failed) violation(P_C09, "plugin-open", "entry %zu: `%.80s' was not (or not in order) passed to the loader", i, names[i].c_str());
                    if (asked) {
                        OpenEv &oe = opens[oi++];
                        if (oe.flags != C.default_flags) violation(P_C09, "plugin-flags", "plugin opened with flags %#x instead of %#x", (unsigned)oe.flags, (unsigned)C.default_flags);
                        e.inst = oe.inst;
                        if ((h != nullptr) != (oe.inst != nullptr) || (h && h != oe.inst->addr)) violation(P_C09, "plugin-handle", "entry %zu: the loader %s `%.80s' but the entry has %s handle", i, oe.inst ? "granted" : "refused", names[i].c_str(), h ? "another/a" : "no");
                    } else if (h) violation(P_C09, "plugin-handle", "entry %zu has a handle the loader never granted", i);
                    if (fnm ? names[i] != fnm : !op_alloc_failed) violation(P_C09, "plugin-name", "entry %zu is named `%.80s' instead of `%.80s'", i, fnm ? fnm : "(null)", names[i].c_str());
                    if (fnm && fnm == arr[i]) violation(P_C09, "plugin-name", "entry %zu refers to the caller's name instead of a copy", i);
                }
                if (e.inst) okc++; else badc++;
                for (int k = 0; k < C.nsym; k++) {
                    void *q = A.p_ptr(p, i, k); e.ptr.push_back(q);
                    if (q && !e.inst) violation(P_C09 | P_C03, "plugin-pointer", "entry %zu has a pointer for `%s' without a library", i, C.sym[k].name);
                    if (q && q != C.target(e.inst->variant, k)) violation(P_C09 | P_C03, "plugin-pointer", "entry %zu: pointer of `%s' is not that library's symbol", i, C.sym[k].name);
                    if (!q && e.inst) { bool ref = false; for (auto &se : ev_sym) if (se.inst == e.inst && se.name == C.sym[k].name && !se.res) ref = true; if (!ref) violation(P_C09, "plugin-pointer", "entry %zu: symbol `%s' is not loaded although the loader did not refuse it", i, C.sym[k].name); else badc++; }
                }
                ps.e.push_back(e);
            }
            if (oi != opens.size()) violation(P_C09, "plugin-open", "the loader was asked to open more libraries than listed");
            for (auto i : insts) { int own = 0; for (auto &s : M.ps) for (auto &e : s.e) if (e.inst == i) own++; if (i->refs - i->leaked - sh_refs(i) != own) violation(P_C09 | P_C02, "plugin-handles", "handle h%d is open %d times but listed %d times", i->id, i->refs, own); }
            if (okc && badc) shm->probes[PR_PLUGIN_PARTIAL]++;
            return GO_ON;
        }
        if (o.kind == O_PREL) {
            if (!ps.p) { A.p_release(nullptr); if (n_dlcalls) violation(P_C09, "plugin-release-null", "releasing NULL made loader calls"); return GO_ON; }
            for (size_t i = 0; i < ps.e.size(); i++) for (int k = 0; k < C.nsym; k++) if (A.p_ptr(ps.p, i, k) != ps.e[i].ptr[k]) violation(P_C09, "plugin-changed", "entry %zu changed while other lists were used", i);
            A.p_release(ps.p);
            std::map<Inst *, int> want, got, refused; for (auto &e : ps.e) if (e.inst) want[e.inst]++;
            for (auto &c : ev_close) { got[c.inst]++; if (!c.ok) refused[c.inst]++; }
            if (want != got) violation(P_C09 | P_C02, "plugin-release", "releasing a list of %zu entries closed the wrong handles (%zu closes)", ps.e.size(), ev_close.size());
            for (auto &r : refused) r.first->leaked += r.second;
            ps.p = nullptr; ps.e.clear();
            bool any = false; for (auto &s : M.ps) if (s.p) any = true;
            if (!any && !allocs.empty()) violation(P_C09, "plugin-leak", "%zu memory blocks are left after all lists were released", allocs.size());
            return GO_ON;
        }
        if (o.kind == O_PCALL) {
            if (!ps.p || ps.e.empty()) return SKIPPED;
            size_t i = o.b % ps.e.size(); std::vector<int> fs; for (int k = 0; k < C.nsym; k++) if (!C.sym[k].is_obj && ps.e[i].ptr[k]) fs.push_back(k);
            if (fs.empty() || !ps.e[i].inst) return SKIPPED;
            int fn = fs[(o.b >> 8) % fs.size()]; static RtCall rc; memset(&rc, 0, sizeof rc); rc.seed = o.c; ret_seed = mix(o.c ^ 0x5555);
            A.p_call(ps.p, i, fn, &rc); check_call_record(fn, rc, false, "plugin call", P_C09 | P_C05, ps.e[i].inst->variant); return GO_ON;
        }
        return SKIPPED;
    }

    // ------------------------------------------------------------ minimal
    if (isM()) {
        if (o.kind == O_MLOAD) {
            string nm; bool isnull = false; u64 k = o.b % 14; if (k == 0) isnull = true; else if (k == 1) nm = ""; else nm = lib_name(o.a);
            static char buf[20000]; Inst *was = M.cur;
            int rv = A.m_load(isnull ? nullptr : nm.c_str(), buf, sizeof buf); string txt = buf;
            logf_("  min load %.60s -> %d %.60s", nm.c_str(), rv, txt.c_str());
            if (was) shm->probes[PR_MIN_SECOND_LOAD]++;
            auto now = ptrs(); int nn = 0; for (auto p : now) if (p) nn++;
            Inst *granted = nullptr; string gname; for (auto &e : ev_open) if (e.inst) { granted = e.inst; }
            for (auto &e : ev_open) if (!same_name(e.name, nm) || isnull) violation(P_C10, "min-name", "minimal load of `%.80s' opened `%.80s'", nm.c_str(), e.name.c_str());
            for (auto &e : ev_open) { if (e.ns) violation(P_C10, "min-ns", "minimal load used a new namespace"); if (C.win != 1 && !(e.flags & 3)) violation(P_C10, "min-flags", "minimal load passed flags %#x, which ask for neither lazy nor immediate binding", (unsigned)e.flags); }
            bool refused_open = false; for (auto &e : ev_open) if (!e.inst) refused_open = true;
            for (auto &c : ev_close) if (!c.ok) { c.inst->leaked++; shm->probes[PR_ABANDONED]++; }
            bool symref = has_refused_sym(); if (symref) shm->probes[PR_MIN_SYMFAIL]++;
            if (rv == 0) {
                if (isnull || nm.empty()) violation(P_C10, "min-empty", "minimal load succeeded with an empty name");
                if (!granted) violation(P_C10, "min-result", "minimal load succeeded although the loader granted nothing");
                M.cur = granted; if (nn != C.nsym) violation(P_C10, "min-result", "minimal load succeeded with %d of %d symbols loaded", nn, C.nsym);
                check_pointers(P_C10); check_handles(P_C10);
                return GO_ON;
            }
            if (rv == 3) violation(P_C10, "min-exception", "minimal load threw an unexpected exception");
            if (!(isnull || nm.empty()) && !refused_open && !symref) violation(P_C10, "min-result", "minimal load failed although the loader refused nothing");
            if (nn != 0) {
                bool kept = was && now == ptr_before && nn == C.nsym && ev_close.empty() && !granted;
                if (!kept) violation(P_C10 | P_C03, "min-partial", "after a failed minimal load %d of %d symbols are loaded", nn, C.nsym);
            } else M.cur = nullptr;
            check_pointers(P_C10); check_handles(P_C10);
            if (C.format == RT_MINCXX) {
                if (symref && rv != 2) violation(P_C10, "min-error", "a missing symbol was not reported as SymbolError");
                if (!symref && rv != 1) violation(P_C10, "min-error", "a refused library was not reported as LibraryError");
                if (!symref && !isnull && !nm.empty() && !mentions(txt, nm)) violation(P_C10, "min-error", "the LibraryError for `%.80s' says `%.100s'", nm.c_str(), txt.c_str());
            }
            if (txt.empty()) violation(P_C10, "min-error", "a failed minimal load gave an empty message");
            if (symref) { bool named = false; for (auto &e : ev_sym) if (!e.res && txt.find(e.name) != string::npos) named = true; if (!named) violation(P_C10, "min-error", "the error for a missing symbol does not name it: %.100s", txt.c_str()); }
            return GO_ON;
        }
        if (o.kind == O_MFREE) {
            A.m_free();
            if (M.cur) {
                if (ev_close.size() != 1 || ev_close[0].inst != M.cur) violation(P_C10 | P_C02, "min-free", "freeing closed %zu handles", ev_close.size());
                if (!ev_close[0].ok) { M.cur->leaked++; shm->probes[PR_ABANDONED]++; }
                M.cur = nullptr;
            } else if (!ev_close.empty()) violation(P_C10 | P_C02, "min-free", "freeing with nothing loaded called dlclose()");
            if (!ev_open.empty()) violation(P_C10, "min-free", "freeing opened a library");
            check_pointers(P_C10); check_handles(P_C10); return GO_ON;
        }
        if (o.kind == O_CALL) { if (!M.cur) return SKIPPED; return op_call(o); }
        if (o.kind == O_OBJR || o.kind == O_OBJW) goto objects;
        return SKIPPED;
    }

    // ------------------------------------------------------------ C and C++
    {
        int xi = (int)((o.a >> 40) % 3); Model::XI *X = &M.x[xi];
        if (isX() && o.kind != O_CALL && o.kind != O_OBJR && o.kind != O_OBJW && o.kind != O_NEW && o.kind != O_SETCB && o.kind != O_LIBNAME && o.kind != O_QUERY) {
            if (!X->p) { for (int k = 0; k < 3; k++) if (M.x[k].p) { xi = k; X = &M.x[k]; break; } }
            if (!X->p) return SKIPPED;
        }
        bool was_loaded = M.cur != nullptr;
        auto setx = [&](const string &f, int fl, int ns, bool refused_early) { if (isX()) { X->fn = f; X->flags = fl; X->ns = ns; X->known = !refused_early; } };
        switch (o.kind) {
        case O_LOADARGS: case O_LOADNAME: {
            string nm; bool isnull = false, ok = true; u64 k = o.b % 16; if (k == 0) { ok = false; } else if (k == 1) { ok = false; isnull = isC(); } else nm = lib_name(o.a & 0xffffffff);
            bool args = o.kind == O_LOADARGS; int fl = args ? pick_flags(o.b >> 8) : C.default_flags, want = fl, ns = args ? (int)((o.c >> 3) % 4 == 0) : 0; int r;
            if (args && C.nflags && (o.c >> 5) % 2) { want = fl = 0; for (u64 k2 = 0, z = o.b >> 8; k2 < 3; k2++, z /= 64) { int i = (int)(z % (u64)C.nflags); fl |= C.flag_user(i); want |= C.flag_true[i]; } }   // flags by their names
            if (M.failed_free) shm->probes[PR_RELOAD_AFTER_FAILED_FREE]++;
            if (isC()) r = args ? A.load_lib_args(isnull ? nullptr : nm.c_str(), fl, ns) : A.load_lib_name(isnull ? nullptr : nm.c_str());
            else { int na = args ? 2 + (int)(ns || (o.c & 1)) : 1; if (args && na == 2) ns = 0; r = A.x_load(X->p, nm.c_str(), na, fl, ns); setx(nm, want, ns, was_loaded || !ok); }
            logf_("  load -> %d", r);
            bool g = after_load(args ? "load with arguments" : "load by name", r, ok, nm, want, ns, xi, rderr);
            if (!!r != g) violation(P_C01, "load-result", "load of `%.80s' returned %d but the loader %s it", nm.c_str(), r, g ? "granted" : "refused");
            check_loaded_flag(A.is_loaded(), P_C01);
            if (g) { if (rderr) check_error(xi, EX_NEUTRAL, "load", {}, "", nullptr); auto now = ptrs(); for (auto p : now) if (p) violation(P_C03, "load-pointers", "loading a library set symbol pointers"); }
            else if (!was_loaded && ok && rderr) check_error(xi, EX_LOADER, "load", open_msg(), "", refs_except(3));
            break; }
        case O_LOADNAMESYM: case O_LOADDEF: case O_LOADDEFSYM: case O_LOAD0: {
            string nm; bool ok = true, isnull = false; int fl = C.default_flags, ns = 0, r; bool withsyms = o.kind == O_LOADNAMESYM || o.kind == O_LOADDEFSYM; const char *what;
            if (isC()) {
                if (o.kind == O_LOADNAMESYM) { u64 k = o.b % 16; if (k == 0) ok = false; else if (k == 1) { ok = false; isnull = true; } else nm = lib_name(o.a & 0xffffffff); r = A.load_lib_name_and_symbols(isnull ? nullptr : nm.c_str()); what = "load by name with symbols"; }
                else { if (!A.load_lib || !C.default_lib || o.kind == O_LOAD0) return SKIPPED; nm = C.default_lib; r = withsyms ? A.load_lib_and_symbols() : A.load_lib(); what = withsyms ? "load default with symbols" : "load default"; }
            } else {
                if (o.kind == O_LOADDEF || o.kind == O_LOADNAMESYM) return SKIPPED;
                nm = X->fn; fl = X->flags; ns = X->ns; if (nm.empty()) { ok = false; }
                r = withsyms ? A.x_load_lib_and_symbols(X->p) : A.x_load0(X->p); what = withsyms ? "load stored name with symbols" : "load stored name"; X->known = !(was_loaded || !ok) ? true : X->known;
            }
            logf_("  load -> %d", r);
            if (!withsyms) {
                bool g = after_load(what, r, ok, nm, fl, ns, xi, rderr);
                if (!!r != g) violation(P_C01, "load-result", "%s of `%.80s' returned %d but the loader %s it", what, nm.c_str(), r, g ? "granted" : "refused");
                if (g) { if (rderr) check_error(xi, EX_NEUTRAL, what, {}, "", nullptr); } else if (!was_loaded && ok && rderr) check_error(xi, EX_LOADER, what, open_msg(), "", nullptr);
            } else {
                bool g = after_load(what, 0, ok, nm, fl, ns, xi, false);
                if (!g) {
                    if (r) violation(P_C01, "load-result", "%s returned success although no library was loaded by it", what);
                    if (rderr) { if (was_loaded) check_error(xi, EX_FAIL, what, {}, "", refs_except(1)); else if (!ok) check_error(xi, EX_FAIL, what, {}, "", refs_except(2)); else check_error(xi, EX_LOADER, what, open_msg(), "", nullptr); }
                } else {
                    if (!ev_close.empty() && !r) { // a failed combined load may give the library back
                        int closed = 0; for (auto &c : ev_close) { if (!c.ok) c.inst->leaked++; closed++; } if (closed) M.cur = nullptr;
                    }
                    after_symload_all(what, r, xi, rderr, false);
                }
            }
            check_loaded_flag(A.is_loaded(), P_C01);
            break; }
        case O_FREE: { int r = isC() ? A.free_lib() : A.x_free(X->p, (int)(o.b & 1), 0); logf_("  free -> %d", r); after_free("free", r, true, false, xi, rderr); if (isX() && !M.cur) { X->forget(); } break; }
        case O_FORCE: { int r = 1; if (isC()) A.force_free(); else r = A.x_free(X->p, 1, 1); logf_("  force free -> %d", r); after_free("forced free", r, isX(), true, xi, rderr); break; }
        case O_AUTOREL: {
            if (!isC()) return SKIPPED;
            int r = A.autorelease(); logf_("  autorelease -> %d", r); no_loader_activity("enabling automatic release", P_C02); check_unchanged("enabling automatic release", P_C03);
            if (n_atexit_ok) M.autorel = true;
            if (!!r != M.autorel) violation(P_C02 | P_C01, "autorelease-result", "enabling automatic release returned %d but %s", r, M.autorel ? "a release is registered" : "no release is registered");
            if (n_atexit > n_atexit_ok && rderr && !r) check_error(xi, EX_FAIL, "enabling automatic release", {}, "", refs_except(3));
            if (r && rderr) check_error(xi, EX_NEUTRAL, "enabling automatic release", {}, "", nullptr);
            break; }
        case O_ALL: { auto b = ptr_before; bool all = true; for (auto p : b) if (!p) all = false; int r = isC() ? A.load_all() : A.x_load_all(X->p); logf_("  load all -> %d", r); no_loader_activity("loading all symbols", P_C01 | P_C03); after_symload_all("loading all symbols", r, xi, rderr, all); break; }
        case O_NUM: {
            int sym = (int)(o.b % (u64)C.nsym); int num = C.sym[sym].load_num; bool bad = false; char t[32] = "";
            u64 k = (o.b >> 16) % 8; if (k >= 6) { static const int odd[] = { -1, 1 << 20, -2147483647 - 1, 2147483647 }; u64 q = (o.b >> 24) % 6; num = q < 4 ? odd[q] : C.enum_last + (q == 4 ? 0 : (int)((o.b >> 32) % 50)); bad = true; snprintf(t, sizeof t, "%d", num); }
            int r = isC() ? A.load_num(num) : A.x_load_num(X->p, num); logf_("  load num %d -> %d", num, r); after_symload_one("load by number", r, sym, t, bad, xi, rderr); break; }
        case O_NAME: {
            int sym; bool bad, isnull; string n = pick_symname(o.b, o.c, sym, bad, isnull); int r = isC() ? A.load_name(isnull ? nullptr : n.c_str()) : A.x_load_name(X->p, isnull ? nullptr : n.c_str());
            logf_("  load name %.60s -> %d", n.c_str(), r); after_symload_one("load by name", r, sym, n, bad, xi, rderr); break; }
        case O_ERR: { string e = get_error(xi); if (e.empty()) violation(P_C04, "error-empty", "the error text is empty"); string e2 = get_error(xi); if (e != e2) violation(P_C04, "error-unstable", "reading the error text twice gives different texts"); break; }
        case O_LIBPATH: path_op(xi, o); break;
        case O_QUERY: { string e1; if (isC()) e1 = get_error(0); check_queries(); if (isC()) { string e2 = get_error(0); if (e1 != e2) violation(P_C04, "error-query", "a state query changed the error text"); } break; }
        case O_CALL: return op_call(o);
        case O_NEW: {
            if (!isX()) return SKIPPED;
            if (X->p) return SKIPPED;
            int na = (int)(o.b % 4); string nm = lib_name(o.a & 0xffffffff); int fl = pick_flags(o.b >> 8), ns = (int)((o.c >> 3) % 4 == 0);
            *X = Model::XI(); int others = 0; for (auto &y : M.x) if (y.p) others++; if (others) shm->probes[PR_MULTI_INST]++;
            if (na == 0) { X->p = A.x_new(); X->flags = C.default_flags; }
            else { if ((o.c & 31) == 7) nm = ""; X->p = A.x_new_args(nm.c_str(), na, fl, ns); X->fn = nm; X->flags = na >= 2 ? fl : C.default_flags; X->ns = na >= 3 ? ns : 0; X->known = true; }
            if (n_dlcalls && (!ev_open.empty() || !ev_close.empty())) violation(P_C01 | P_C02, "ctor-loads", "constructing a loader object made loader calls");
            if (!A.x_get_dtor(X->p)) violation(P_C02, "dtor-default", "automatic freeing is not enabled by default");
            break; }
        case O_DEL: {
            bool f = X->dtor; A.x_delete(X->p); X->p = nullptr; Inst *w = M.cur; logf_("  deleted");
            if (f) { after_free("the destructor", 1, false, true, -1, false); if (w) shm->probes[PR_DTOR_FREE]++; }
            else { no_loader_activity("the destructor with freeing disabled", P_C02); check_unchanged("the destructor with freeing disabled", P_C02 | P_C03); }
            break; }
        case O_DTORFLAG: if (!isX()) return SKIPPED; A.x_set_dtor(X->p, (int)(o.b & 1)); X->dtor = o.b & 1; if (!!A.x_get_dtor(X->p) != X->dtor) violation(P_C02, "dtor-flag", "the destructor flag was set to %d but reads back differently", (int)X->dtor); break;
        case O_SETCB: {
            if (!isX() || !A.x_set_cb) return SKIPPED;
            M.cb = (int)(o.b % 3); A.x_set_cb(M.cb == 1 ? cb_a : M.cb == 2 ? cb_b : nullptr); void *g = A.x_get_cb();
            if (M.cb == 1 && g != (void *)cb_a) violation(P_C06 | P_C07, "callback-get", "the message callback set is not the one reported");
            if (M.cb == 2 && g != (void *)cb_b) violation(P_C06 | P_C07, "callback-get", "the message callback set is not the one reported");
            if (M.cb == 0 && (!g || g == (void *)cb_a || g == (void *)cb_b)) violation(P_C06 | P_C07, "callback-get", "resetting the message callback did not restore the default one");
            break; }
        case O_LIBNAME: {
            if (!isX()) return SKIPPED;
            char buf[200]; char nm[40]; snprintf(nm, sizeof nm, "n%llu", (unsigned long long)(o.b % 1000)); size_t api = o.c % 3 == 0 ? 0 : (size_t)(o.c % 100000); A.x_libname(nm, api, buf, sizeof buf);
            string want = string(C.libname_pre) + nm; if (C.libname_mid) want += C.libname_mid + std::to_string(api); want += C.libname_post;
            if (conv_failed) break;
            if (A.x_libext) { char xb[40]; A.x_libext(xb, sizeof xb); if (C.libext != string(xb)) violation(P_C07, "libext", "libext() is `%s'", xb); }
            if (want != buf) violation(P_C07, "libname", "make_libname(%s,%zu) is `%s'", nm, api, buf); break; }
        case O_FILENAME: {
            if (!isX()) return SKIPPED;
            static char buf[20000]; A.x_filename(X->p, buf, sizeof buf); if (X->known && X->fn != buf && !(conv_failed && !*buf)) violation(P_C01, "filename", "filename() is `%.100s' instead of `%.100s'", buf, X->fn.c_str());
            if (X->known && A.x_flags(X->p) != X->flags) violation(P_C01, "flags", "flags() is %#x instead of %#x", (unsigned)A.x_flags(X->p), (unsigned)X->flags); break; }
        case O_OBJR: case O_OBJW: goto objects;
        default: return SKIPPED;
        }
        if (!M.cur || true) { for (auto &y : M.x) for (int k = 0; k < 2; k++) if (y.path_inst[k] && y.path_inst[k] != M.cur) { y.path[k].clear(); y.path_inst[k] = nullptr; } }
        check_pointers(0); check_handles(0);
        if (o.fl & 2) check_queries();
        return GO_ON;
    }
objects: {
        std::vector<int> os; for (int i = 0; i < C.nsym; i++) if (C.sym[i].is_obj && C.sym[i].getptr()) os.push_back(i);
        if (os.empty() || !M.cur) return SKIPPED;
        int i = os[o.a % os.size()]; const RtSym &s = C.sym[i]; u64 v = mix(o.c);
        for (int l = 0; l < RT_NLIB; l++) C.objset(l, i, mix(o.c ^ (u64)(l + 77)));
        if (o.kind == O_OBJR || !s.objwrite) {
            u64 want = C.objget(M.cur->variant, i), got = s.objread(); if (want != got) violation(P_C05, "object-read", "reading object `%s' through its alias gives another value", s.name);
        } else {
            std::vector<u64> b; for (int l = 0; l < RT_NLIB; l++) b.push_back(C.objget(l, i));
            s.objwrite(v); u64 got = C.objget(M.cur->variant, i), rd = s.objread(); if (got != rd) violation(P_C05, "object-write", "writing object `%s' through its alias did not reach the library's object", s.name);
            C.objset(M.cur->variant, i, v); u64 want = C.objget(M.cur->variant, i);
            if (got != want) violation(P_C05, "object-write", "writing object `%s' through its alias stored another value", s.name);
            for (int l = 0; l < RT_NLIB; l++) if (l != M.cur->variant && C.objget(l, i) != b[l]) violation(P_C05, "object-write", "writing object `%s' changed another library", s.name);
        }
        if (n_dlcalls) violation(P_C05, "object-loads", "accessing an object made loader calls");
        return GO_ON;
    }
}

static void world_init(const Header &h)
{
    hdr = h; Rng r(h.envseed); libs.clear();
    u64 all = C.nsym >= 64 ? ~0ull : ((1ull << C.nsym) - 1);
    static const char *names[] = { "libone.so", "/opt/vendor/lib/libtwo.so.2", "sub dir/three.so", "lib%s%n%d.so", "./four.so.0.1" };
    auto add = [&](const string &n) { if (lib_index(n) >= 0) return; LibDef l; l.name = n; u64 k = r.below(10); if (h.libmode == 0) k = 0; if (k == 7) l.missing = r.next() & r.next() & all; else if (k == 8) l.missing = 1ull << r.below((u64)C.nsym); else if (k == 9 && h.libmode > 1) l.nullsym = 1ull << r.below((u64)C.nsym); libs.push_back(l); };
    if (C.default_lib) add(C.default_lib);
    size_t n = 1 + r.below(4); for (size_t i = 0; i < n; i++) add(names[r.below(5)]);
    if (libs.empty()) add("libone.so");
}

// runs one history in this (pristine, forked) process
static void run_history(const History &h)
{
    world_init(h.h); in_history = true;
    if (SC() && SC()->format == RT_CXX) { sh_active = true; S2.x = SC()->api->x_new(); sh_active = false; }
    if (sigsetjmp(stop_jb, 1) == 0) {
        // a violation inside an op jumps here
        volatile bool ended = false; volatile size_t i = 0;
        for (; i < h.ops.size() && !ended; i = i + 1) {
            const Op &o = h.ops[i]; shm->cur_op = (int)i; logf_("op %zu %s", (size_t)i, op_name[o.kind]);
            exit_armed = false; Flow f;
            if (o.kind != O_CALL) {
                // nothing but a wrapped call may end the process
                exit_armed = true;
                if (sigsetjmp(exit_jb, 0) != 0) { exit_armed = false; violation(o.kind == O_SHADOW ? P_C21 : P_C01 | P_C02 | P_C04 | allprops(), "op-exits", "%s ended the process (how %d, status %d)", op_name[o.kind], exit_how, exit_code_); }
            }
            second_due = SC() && o.kind != O_SHADOW; if (second_due) second_before = snapshot(true);
            f = run_op(o); exit_armed = false;
            compare_second();
            if (f == SKIPPED) shm->ops_skipped++; else { shm->ops_done++; shm->opcount[o.kind]++; }
            shm->sig = mix(shm->sig ^ ((u64)o.kind << 32) ^ (u64)(f == SKIPPED) ^ ((u64)ev_open.size() << 8) ^ ((u64)ev_sym.size() << 12) ^ ((u64)ev_close.size() << 20) ^ ((u64)(M.cur != nullptr) << 40) ^ ((u64)has_refused_sym() << 41));
            if (f == HISTORY_ENDS) {
                ended = true;
                if (o.kind == O_EXIT) exit_phase(&o, true, false);
            }
        }
        if (!ended && (isC() || isX())) exit_phase(nullptr, true, false);
        if (!ended && isP()) {
            for (int s = 0; s < 4; s++) if (M.ps[s].p) { Op o; o.kind = O_PREL; o.a = s; run_op(o); }
            if (!allocs.empty()) violation(P_C09, "plugin-leak", "%zu memory blocks are left after all lists were released", allocs.size());
        }
        if (maps_open_count > 0 || !sim_fds.empty()) violation(P_C08, "maps-left-open", "the process map was left open");
    }
    in_history = false; shm->done = 1;
}

// ------------------------------------------------------------------ history generation
static History gen_history(u64 seed, unsigned prop)
{
    Rng r(seed); History h; h.h.envseed = r.next(); h.h.handle_reuse = (int)r.below(2); h.h.dlerr_sticky = (int)r.below(3) == 0; h.h.libmode = (int)r.below(3);
    static const int styles[] = { 0, 0, 9, 9, 1, 2, 3, 4, 5 }; h.h.msg_style = styles[r.below(9)];
    struct W { int kind; int w; }; std::vector<W> w;
    bool faulty = !r.chance(1, 5);
    if (isP()) w = { { O_PLOAD, 10 }, { O_PREL, 7 }, { O_PCALL, 8 }, { O_ENVLIB, 3 } };
    else if (isM()) w = { { O_MLOAD, 10 }, { O_MFREE, 5 }, { O_CALL, 8 }, { O_OBJR, 2 }, { O_OBJW, 2 }, { O_ENVLIB, 4 } };
    else {
        w = { { O_LOADARGS, 6 }, { O_LOADNAME, 3 }, { O_LOADNAMESYM, 3 }, { O_LOADDEF, 2 }, { O_LOADDEFSYM, 3 }, { O_FREE, 6 }, { O_FORCE, 3 }, { O_ALL, 6 }, { O_NUM, 5 }, { O_NAME, 6 }, { O_ERR, 1 }, { O_LIBPATH, 3 },
              { O_CALL, 5 }, { O_OBJR, 1 }, { O_OBJW, 1 }, { O_QUERY, 1 }, { O_ENVLIB, 3 }, { O_EXIT, 1 } };
        if (isC()) w.push_back({ O_AUTOREL, 2 });
        if (isX()) { w.push_back({ O_NEW, 7 }); w.push_back({ O_DEL, 3 }); w.push_back({ O_LOAD0, 4 }); w.push_back({ O_DTORFLAG, 1 }); w.push_back({ O_SETCB, 2 }); w.push_back({ O_LIBNAME, 1 }); w.push_back({ O_FILENAME, 2 }); }
        auto boost = [&](int k, int f) { for (auto &x : w) if (x.kind == k) x.w *= f; };
        switch (prop) {
        case 2: boost(O_FREE, 2); boost(O_FORCE, 2); boost(O_DEL, 2); boost(O_AUTOREL, 3); boost(O_EXIT, 2); break;
        case 3: boost(O_NAME, 4); boost(O_NUM, 2); boost(O_FREE, 2); break;
        case 5: boost(O_CALL, 4); boost(O_OBJR, 4); boost(O_OBJW, 4); boost(O_ALL, 2); break;
        case 6: boost(O_CALL, 2); boost(O_SETCB, 3); boost(O_NUM, 2); break;
        case 7: boost(O_CALL, 4); break;
        case 8: boost(O_LIBPATH, 6); break;
        default: break;
        }
    }
    // swarm: drop some kinds entirely, boost others
    for (auto &x : w) { u64 k = r.below(8); if (k == 0) x.w = x.w > 4 ? 1 : 0; else if (k == 1) x.w *= 4; }
    int tot = 0; for (auto &x : w) tot += x.w; if (!tot) { w[0].w = 1; tot = 1; }
    size_t n = r.chance(1, 6) ? 15 + r.below(25) : 2 + r.below(13);
    bool alive_call_ok = C.wrap == RT_WRAP;  // a wrapper call may end the history: keep such calls rare early on
    unsigned frate = 1 + (unsigned)r.below(4); // faults in frate/8 of the ops
    if (isX()) { Op o; o.kind = O_NEW; o.a = r.next(); o.b = r.next(); o.c = r.next(); h.ops.push_back(o); }
    for (size_t i = 0; i < n; i++) {
        Op o; int k = (int)r.below((u64)tot); for (auto &x : w) { if (k < x.w) { o.kind = x.kind; break; } k -= x.w; }
        if (o.kind == O_EXIT && i + 3 < n && !r.chance(1, 4)) o.kind = isM() ? O_MLOAD : O_LOADARGS;
        if (alive_call_ok && o.kind == O_CALL && i < 3 && r.chance(2, 3)) o.kind = O_LOADARGS;
        o.a = r.next(); o.b = r.next(); o.c = r.next(); o.fl = (int)r.below(8); if (prop == 4) o.fl |= 1;
        if (isC() && o.kind == O_LOADARGS && r.chance(1, 2)) o.b |= 2, o.b &= ~1ull;   // fewer empty names
        if (faulty && r.chance(frate, 8)) {
            auto add = [&](int cls, int nth, int mode) { Fault f; f.cls = cls; f.nth = nth; f.mode = mode; f.sticky = r.chance(1, 3); o.f.push_back(f); };
            switch (o.kind) {
            case O_LOADARGS: case O_LOADNAME: case O_LOADDEF: case O_LOAD0: add(F_OPEN, 1, 0); break;
            case O_LOADNAMESYM: case O_LOADDEFSYM: if (r.chance(1, 3)) add(F_OPEN, 1, 0); else add(F_SYM, 1 + (int)r.below((u64)C.nsym), r.chance(1, 6)); break;
            case O_FREE: case O_FORCE: case O_DEL: add(F_CLOSE, 1, (int)r.below(2)); break;
            case O_ALL: add(F_SYM, 1 + (int)r.below((u64)C.nsym), r.chance(1, 6)); break;
            case O_NUM: case O_NAME: add(F_SYM, 1, r.chance(1, 6)); break;
            case O_AUTOREL: add(F_ATEXIT, 1, 0); break;
            case O_LIBPATH: { u64 q = r.below(16); if (q & 1) add(F_INFO, 1, (int)r.below(3)); if (q & 2) add(F_ADDR, 1 + (int)r.below(3), (int)r.below(3)); if (q & 4) add(F_FOPEN, 1, (int)r.below(3)); else if (q & 8) add(F_READ, 1 + (int)r.below(6), (int)r.below(2)); break; }
            case O_CALL: { u64 q = r.below(8); if (q < 2) add(F_OPEN, 1, 0); else if (q < 5) add(F_SYM, 1 + (int)r.below(C.wrap == RT_LAZY ? 1 : (u64)C.nsym), r.chance(1, 6)); if (q == 5 || q == 6) add(F_ATEXIT, 1, 0); if (r.chance(1, 4)) add(F_CLOSE, 1, 0); break; }
            case O_EXIT: add(F_CLOSE, 1, 0); break;
            case O_PLOAD: { u64 q = r.below(8); if (q < 2) add(F_OPEN, 1 + (int)r.below(5), 0); else if (q < 4) add(F_SYM, 1 + (int)r.below((u64)C.nsym * 4), r.chance(1, 6)); else add(F_ALLOC, 1 + (int)r.below(8), 0); if (q == 5) add(F_OPEN, 1 + (int)r.below(5), 0); break; }
            case O_PREL: add(F_CLOSE, 1 + (int)r.below(5), 0); break;
            case O_MLOAD: { u64 q = r.below(8); if (q < 2) add(F_OPEN, 1, 0); else add(F_SYM, 1 + (int)r.below((u64)C.nsym), r.chance(1, 6)); if (q > 5) add(F_CLOSE, 1, 0); break; }
            case O_MFREE: add(F_CLOSE, 1, 0); break;
            default: break;
            }
        }
        h.ops.push_back(o);
    }
    // the second API works between the operations of the first, drawn apart
    if (SC()) {
        Rng q(seed ^ 0x5348u); std::vector<Op> all; unsigned dens = 2 + (unsigned)q.below(6);
        for (size_t i = 0; i <= h.ops.size(); i++) {
            while (q.chance(dens, 10)) {
                Op o; o.kind = O_SHADOW; o.a = q.next(); o.b = q.next(); o.c = q.next();
                if (faulty && q.chance(frate, 8)) { Fault f; static const int cls[] = { F_OPEN, F_SYM, F_SYM, F_CLOSE, F_CLOSE, F_INFO, F_ADDR, F_ALLOC }; f.cls = cls[q.below(8)]; f.nth = 1 + (int)q.below(f.cls == F_SYM || f.cls == F_ALLOC ? 3 : 1); f.mode = 0; f.sticky = q.chance(1, 3); o.f.push_back(f); }
                all.push_back(o);
            }
            if (i < h.ops.size()) all.push_back(h.ops[i]);
        }
        h.ops = all;
    }
    // faults of other platforms, drawn apart
    if (faulty && (C.win || C.pmq || C.aix)) {
        Rng p(seed ^ 0x504c4154u);
        for (auto &o : h.ops) {
            if (!p.chance(frate, 8)) continue;
            auto add = [&](int cls, int nth, int mode) { Fault f; f.cls = cls; f.nth = nth; f.mode = mode; f.sticky = p.chance(1, 3); o.f.push_back(f); };
            bool load = o.kind == O_LOADARGS || o.kind == O_LOADNAME || o.kind == O_LOADNAMESYM || o.kind == O_LOADDEF || o.kind == O_LOADDEFSYM || o.kind == O_LOAD0 || (o.kind == O_CALL && C.wrap >= RT_AUTO) || o.kind == O_PLOAD || o.kind == O_MLOAD;
            if (C.win == 1) {
                u64 q = p.below(8);
                if (load && q < 3) add(F_CONV, 1 + (int)p.below(3), 0);
                else if (load && q < 5 && isC()) add(F_ALLOC, 1 + (int)p.below(2), 0);
                else if (q < 7) add(F_FMT, 1 + (int)p.below(2), 0);
                else add(F_CONV, 1 + (int)p.below(3), 0);
            }
            if (o.kind == O_LIBPATH) { if (C.pmq) add(F_IOCTL, 1, (int)p.below(3)); if (C.aix && o.f.empty()) add(F_INFO, 1, (int)p.below(2)); }
        }
    }
    return h;
}

// ------------------------------------------------------------------ driver
static void child_setup()
{
    struct rlimit rl = { 4, 6 }; setrlimit(RLIMIT_CPU, &rl); struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z);
    dup2(errfd, 2);
}
struct Res { bool viol = false, crash = false; unsigned props = 0; string oracle, text; u64 loghash = 0; };

static unsigned crash_props(int kind)
{
    switch (kind) {
    case O_LOADARGS: case O_LOADNAME: case O_LOADNAMESYM: case O_LOADDEF: case O_LOADDEFSYM: case O_LOAD0: case O_NEW: return P_C01 | P_C04;
    case O_FREE: case O_FORCE: case O_DEL: case O_AUTOREL: case O_EXIT: return P_C02 | P_C01;
    case O_ALL: case O_NUM: case O_NAME: return P_C03 | P_C01 | P_C04;
    case O_ERR: return P_C04;
    case O_LIBPATH: return P_C08;
    case O_CALL: return P_C05 | (C.wrap == RT_WRAP ? P_C06 : 0) | (C.wrap >= RT_AUTO ? P_C07 : 0) | (isM() ? P_C10 : 0);
    case O_OBJR: case O_OBJW: return P_C05;
    case O_PLOAD: case O_PREL: case O_PCALL: return P_C09;
    case O_MLOAD: case O_MFREE: return P_C10;
    case O_SHADOW: return P_C21;
    default: return P_C01 | allprops();
    }
}

static Res run_forked(const History &h)
{
    shm->cur_op = 0; shm->done = 0; shm->viol = 0; shm->props = 0; shm->oracle[0] = shm->text[0] = 0; shm->loghash = 0xcbf29ce484222325ull; shm->sig = 0; shm->loglen = 0;
    if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid == 0) { child_setup(); run_history(h); _exit(0); }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Res r; r.loghash = shm->loghash;
    if (shm->viol) { r.viol = true; r.props = shm->props; r.oracle = shm->oracle; r.text = shm->text; return r; }
    if (!shm->done || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        r.viol = r.crash = true; int k = shm->cur_op < (int)h.ops.size() ? h.ops[shm->cur_op].kind : O_EXIT;
        r.props = crash_props(k); string e = take_stderr(); char b[100];
        bool san = e.find("AddressSanitizer") != string::npos || e.find("runtime error") != string::npos;
        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "status %d", WEXITSTATUS(st));
        string line; size_t p = e.find("SUMMARY:"); if (p == string::npos) p = e.find("runtime error"); if (p != string::npos) line = e.substr(p, e.find('\n', p) - p); if (line.size() > 200) line.resize(200);
        size_t q = line.find(" in "); // keep file/function, drop addresses
        (void)q; r.oracle = san ? "sanitizer" : WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU ? "hang" : "crash";
        r.text = string(r.oracle) + " (" + b + ") during " + op_name[k] + (line.empty() ? "" : ": " + line);
    }
    return r;
}

// A violation of another property is the business of the independence property too if it needs the second API.
static Res run_judged(const History &h, unsigned prop)
{
    Res r = run_forked(h); if (!r.viol || (r.props & P_C21) || !SC() || (prop && prop != 21)) return r;
    History g = h; g.ops.clear(); for (auto &o : h.ops) if (o.kind != O_SHADOW) g.ops.push_back(o);
    if (g.ops.size() == h.ops.size()) return r;
    Res q = run_forked(g); bool alone = q.viol; r = run_forked(h); if (!alone) r.props |= P_C21;
    return r;
}
static string jesc(const string &s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }
static string proplist(unsigned p) { string s; for (int i = 1; i <= 21; i++) if (p & (1u << i)) { char b[8]; snprintf(b, sizeof b, "%sC%02d", s.empty() ? "" : ",", i); s += b; } return s; }

static void references()
{
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(); in_history = false; Header h; h.envseed = 1; world_init(h); Op none; begin_op(none); cur_op = nullptr;
        auto put = [](char *d, size_t n, const string &s) { snprintf(d, n, "%s", s.c_str()); };
        if (isC()) {
            put(shm->neutral, sizeof shm->neutral, A.last_error()); A.load_all(); put(shm->ref_noload, sizeof shm->ref_noload, A.last_error()); A.load_lib_name(""); put(shm->ref_empty, sizeof shm->ref_empty, A.last_error());
            A.load_lib_name(libs[0].name.c_str()); A.load_lib_name(libs[0].name.c_str()); put(shm->ref_already, sizeof shm->ref_already, A.last_error());
        } else if (isX()) {
            M.x[0].p = A.x_new(); void *x = M.x[0].p; put(shm->neutral, sizeof shm->neutral, get_error(0)); A.x_load_all(x); put(shm->ref_noload, sizeof shm->ref_noload, get_error(0)); A.x_load(x, "", 1, 0, 0); put(shm->ref_empty, sizeof shm->ref_empty, get_error(0));
            A.x_load(x, libs[0].name.c_str(), 1, 0, 0); A.x_load(x, libs[0].name.c_str(), 1, 0, 0); put(shm->ref_already, sizeof shm->ref_already, get_error(0));
        }
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    // only pairwise different texts can tell failures apart
    if (!strcmp(shm->ref_noload, shm->ref_already) || !strcmp(shm->ref_noload, shm->ref_empty) || !strcmp(shm->ref_already, shm->ref_empty)) shm->ref_noload[0] = shm->ref_already[0] = shm->ref_empty[0] = 0;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv)
{
    u64 seed = 1; u64 start = 0, count = 1000; double maxs = 1e9; unsigned prop = 0; const char *opsfile = nullptr; int maxviol = 3; bool twice = false, dumpops = false;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char *)"0"; };
        if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--start") start = strtoull(nx(), 0, 10); else if (a == "--count") count = strtoull(nx(), 0, 10); else if (a == "--time") maxs = atof(nx());
        else if (a == "--prop") prop = (unsigned)atoi(nx()); else if (a == "--ops") opsfile = nx(); else if (a == "--maxviol") maxviol = atoi(nx()); else if (a == "--log") verbose_log = true; else if (a == "--hashes") twice = true; else if (a == "--dumpops") dumpops = true;
    }
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    errfd = memfd_create("rtsim-stderr", 0);
    references();
    if (opsfile) {
        FILE *f = fopen(opsfile, "r"); if (!f) return 2; string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
        History h; if (!deser(t, h)) { fprintf(stderr, "bad ops file\n"); return 2; }
        Res r = run_judged(h, prop); if (verbose_log) fwrite(shm->log, 1, (size_t)shm->loglen, stdout);
        printf("{\"viol\":%d,\"props\":\"%s\",\"oracle\":\"%s\",\"text\":\"%s\",\"hash\":\"%016llx\"}\n", r.viol, proplist(r.props).c_str(), jesc(r.oracle).c_str(), jesc(r.text).c_str(), (unsigned long long)r.loghash);
        return r.viol ? 1 : 0;
    }
    std::unordered_set<u64> sigs; u64 done = 0; int viol = 0; u64 nontriv = 0; double t0 = now(); u64 opsn = 0, other = 0;
    string sample;
    for (u64 i = start; i < start + count; i++) {
        if ((i & 15) == 0 && now() - t0 > maxs) break;
        History h = gen_history(mix(seed) ^ mix(i * 2 + 1), prop);
        u64 d0 = shm->ops_done; Res r = run_judged(h, prop); done++;
        if (dumpops) printf("%s", ser(h).c_str());
        if (twice) printf("hash %llu %016llx\n", (unsigned long long)i, (unsigned long long)r.loghash);
        if (shm->ops_done - d0 >= 2 && sigs.insert(shm->sig).second) nontriv++;
        opsn += shm->ops_done - d0;
        if (sample.empty() && shm->ops_done - d0 >= 4) sample = ser(h);
        if (r.viol && prop && !(r.props & (1u << prop))) {      // another property's business
            if (other++ < 2) printf("{\"t\":\"other\",\"index\":%llu,\"props\":\"%s\",\"oracle\":\"%s\",\"text\":\"%s\"}\n", (unsigned long long)i, proplist(r.props).c_str(), jesc(r.oracle).c_str(), jesc(r.text).c_str());
        } else if (r.viol) {
            printf("{\"t\":\"viol\",\"index\":%llu,\"props\":\"%s\",\"oracle\":\"%s\",\"text\":\"%s\",\"hash\":\"%016llx\",\"ops\":\"%s\"}\n", (unsigned long long)i, proplist(r.props).c_str(), jesc(r.oracle).c_str(), jesc(r.text).c_str(), (unsigned long long)r.loghash, jesc(ser(h)).c_str());
            if (++viol >= maxviol) break;
        }
    }
    string fj, oj, pj; char b[128];
    for (int i = 0; i < F_NCLS; i++) { snprintf(b, sizeof b, "%s\"%s\":%llu", i ? "," : "", fault_name[i], (unsigned long long)shm->fault_fired[i]); fj += b; }
    for (int i = 0; i < O_NKIND; i++) { snprintf(b, sizeof b, "%s\"%s\":%llu", i ? "," : "", op_name[i], (unsigned long long)shm->opcount[i]); oj += b; }
    for (int i = 0; i < PR_NPROBE; i++) { snprintf(b, sizeof b, "%s\"%s\":%llu", i ? "," : "", probe_name[i], (unsigned long long)shm->probes[i]); pj += b; }
    printf("{\"t\":\"stats\",\"histories\":%llu,\"distinct\":%llu,\"ops\":%llu,\"skipped\":%llu,\"dlcalls\":%llu,\"other\":%llu,\"faults\":{%s},\"opcount\":{%s},\"probes\":{%s},\"wall\":%.3f,\"sample\":\"%s\"}\n", (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)shm->ops_done, (unsigned long long)shm->ops_skipped, (unsigned long long)shm->dlcalls, (unsigned long long)other, fj.c_str(), oj.c_str(), pj.c_str(), now() - t0, jesc(sample).c_str());
    return viol ? 1 : 0;
}
