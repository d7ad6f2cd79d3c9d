// Simulated platforms other than Linux with glibc: the Windows loader API and C library, AIX's loadquery(), the
// PROCMAP_QUERY ioctl.  Included by engine.cpp after the dlfcn part; the generated code sees them through the
// stand-in headers in plat/.  DWORD is unsigned int, BOOL is int, a HMODULE is the address of a handle cell.

// ---------------- narrow <-> wide (UTF-8; undecodable bytes travel as U+DC80..U+DCFF)
static std::wstring widen(const string &s)
{
    std::wstring o; size_t i = 0, n = s.size();
    while (i < n) {
        unsigned char c = (unsigned char)s[i]; int k = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
        unsigned v = k == 0 ? c : k == 1 ? c & 31 : k == 2 ? c & 15 : c & 7; bool ok = k >= 0 && i + (size_t)k < n;
        for (int j = 1; ok && j <= k; j++) { unsigned char d = (unsigned char)s[i + (size_t)j]; if ((d & 0xc0) != 0x80) ok = false; v = v << 6 | (d & 63); }
        if (ok && ((k == 2 && v < 0x800) || (k == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000))) ok = false;
        if (!ok) { o += (wchar_t)(0xdc00 + c); i++; } else { o += (wchar_t)v; i += (size_t)k + 1; }
    }
    return o;
}
static string narrow(const std::wstring &w)
{
    string o;
    for (wchar_t x : w) {
        unsigned v = (unsigned)x;
        if (v >= 0xdc80 && v <= 0xdcff) o += (char)(v - 0xdc00);
        else if (v < 0x80) o += (char)v;
        else if (v < 0x800) { o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 63)); }
        else if (v < 0x10000) { o += (char)(0xe0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
        else if (v < 0x110000) { o += (char)(0xf0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
        else o += "<BADWIDE>";
    }
    return o;
}

// ---------------- Windows: last error and message texts
static string oneline(string m) { if (m.size() > 32767) m.resize(32767);      // FormatMessage()'s limit
     for (auto &c : m) if (c == '\n' || c == '\r') c = ' '; return m; }
static unsigned win_err = 0; static std::map<unsigned, string> win_msgs; static unsigned win_next = 0x20000001u;
static bool conv_failed = false, fmt_failed = false;
static const char *win_fixed(unsigned c)
{
    switch (c) {
    case 0: return "The operation completed successfully. ";
    case 6: return "The handle is invalid. ";
    case 8: return "Not enough memory resources are available to process this command. ";
    case 14: return "Not enough storage is available to complete this operation. ";
    case 87: return "The parameter is incorrect. ";
    case 122: return "The data area passed to a system call is too small. ";
    case 123: return "The filename, directory name, or volume label syntax is incorrect. ";
    case 126: return "The specified module could not be found. ";
    case 127: return "The specified procedure could not be found. ";
    case 1113: return "No mapping for the Unicode character exists in the target multi-byte code page. ";
    case 1168: return "Element not found. ";
    default: return nullptr;
    }
}
static void set_winerr(const string &m) { win_err = win_next++; win_msgs[win_err] = oneline(m); ev_msgs.push_back(win_msgs[win_err]); }
static void win_success() { if (!hdr.dlerr_sticky) win_err = 0; }      // some functions clear it, most leave it alone
static bool mentions_code(const string &t, const string &m) { for (auto &k : win_msgs) if (k.second == m && t.find(std::to_string(k.first)) != string::npos) return true; return false; }

// a formatter with the Windows C library's meaning of %s and %hs
static string wvfmt(const string &f, bool wide, va_list ap, const void *dst = nullptr, size_t dstn = 0)
{
    string o; auto chk = [&](const void *p) { if (dst && p >= dst && (const char *)p < (const char *)dst + dstn) violation(P_C04 | P_C07, "overlap", "a formatted message is written over its own argument"); };
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { o += f[i]; continue; }
        i++; if (i >= f.size()) break;
        if (f[i] == '%') { o += '%'; continue; }
        string mod; while (i < f.size() && strchr("hlzwI64", f[i])) mod += f[i++];
        char c = i < f.size() ? f[i] : 0;
        if (c == 's' || c == 'S') {
            bool w = mod == "l" || mod == "w" ? true : mod == "h" ? false : (c == 's') == wide;
            if (w) { const wchar_t *p = va_arg(ap, const wchar_t *); chk(p); o += p ? narrow(p) : "(null)"; } else { const char *p = va_arg(ap, const char *); chk(p); o += p ? p : "(null)"; }
        } else if (c == 'd' || c == 'i') o += mod == "" || mod == "h" || mod == "l" ? std::to_string(va_arg(ap, int)) : std::to_string(va_arg(ap, long long));
        else if (c == 'u') o += mod == "" || mod == "h" || mod == "l" ? std::to_string(va_arg(ap, unsigned)) : std::to_string(va_arg(ap, unsigned long long));
        else if (c == 'c') o += (char)va_arg(ap, int);
        else o += "<BADFORMAT>";
    }
    return o;
}
static std::vector<string> boxes;      // texts of message boxes
struct WRing { std::wstring w; };
static std::wstring wring[64]; static string nring[16]; static int wri = 0, nri = 0;
static std::map<void *, size_t> locals;
static bool alloc_fails(); static void *track(void *p, size_t n);

static void *win_load(const string &name, int flags, const char *fn)
{
    dl_enter(fn); string msg; Inst *in = do_open(name.c_str(), flags, 0, msg); msg = oneline(msg);
    ev_open.push_back({ name, flags, 0, in, msg });
    logf_("  %s(%.80s, %s) -> %s", fn, name.c_str(), fstr(flags).c_str(), in ? ("h" + std::to_string(in->id)).c_str() : "refused");
    if (!in) { set_winerr(msg); return nullptr; }
    total_opens++; win_success(); return in->addr;
}
static unsigned win_modname(void *h, string &out)
{
    dl_enter("GetModuleFileName"); Inst *in = find_inst(h, "GetModuleFileName"); n_info++; int m = fault(F_INFO);
    if (m >= 0) { info_bad = true; set_winerr(make_msg("cannot get the module's name", "")); logf_("  GetModuleFileName -> 0"); return 0; }
    out = inst_abspath[in->id]; ev_path.push_back({ out, 0 }); win_success(); logf_("  GetModuleFileName(h%d) -> %.60s", in->id, out.c_str()); return 1;
}
static string win_message(unsigned id, unsigned flags, bool &ok)
{
    ok = false;
    if (fault(F_FMT) >= 0) { fmt_failed = true; win_err = 14; return ""; }
    if (!(flags & 0x1000)) { win_err = 87; return ""; }
    string m; auto it = win_msgs.find(id); const char *f = win_fixed(id);
    if (f) m = f; else if (it != win_msgs.end()) m = it->second; else { fmt_failed = true; win_err = 317; return ""; }
    if (!(flags & 0x200) && m.find('%') != string::npos) { fmt_failed = true; win_err = 87; return ""; }      // inserts without arguments
    if (!(flags & 0xff)) m += "\r\n";
    ok = true; return m;
}

extern "C" {
int rt_variant = 0, rt_wsel = 0;
const wchar_t *rt_to_wide(const char *s) { if (!s) return nullptr; std::wstring &w = wring[wri++ % 64]; w = widen(s); return w.c_str(); }
const char *rt_to_narrow(const wchar_t *s) { if (!s) return nullptr; string &n = nring[nri++ % 16]; n = narrow(s); return n.c_str(); }

void *LoadLibraryExA(const char *n, void *, unsigned fl) { return win_load(n ? n : "(null)", (int)fl, "LoadLibraryExA"); }
void *LoadLibraryExW(const wchar_t *n, void *, unsigned fl) { return win_load(n ? narrow(n) : "(null)", (int)fl, "LoadLibraryExW"); }
void *LoadLibraryA(const char *n) { return win_load(n ? n : "(null)", 0, "LoadLibraryA"); }
void *LoadLibraryW(const wchar_t *n) { return win_load(n ? narrow(n) : "(null)", 0, "LoadLibraryW"); }
int FreeLibrary(void *h)
{
    dl_enter("FreeLibrary"); Inst *in = find_inst(h, "FreeLibrary"); int m = fault(F_CLOSE);
    check_closer(in, "FreeLibrary");
    if (m >= 0) { string msg = oneline(make_msg("cannot close shared object", libs[in->lib].name)); ev_close.push_back({ in, false, msg }); logf_("  FreeLibrary(h%d) -> 0", in->id); set_winerr(msg); return 0; }
    ev_close.push_back({ in, true, "" }); in->refs--; sh_closed(in); logf_("  FreeLibrary(h%d) -> nonzero, refs %d", in->id, in->refs);
    if (in->refs == 0) hcell_free.push_back((int)((char(*)[16])in->addr - hcells));
    win_success(); return 1 + (int)(mix(hdr.envseed ^ (u64)shm->dlcalls) % 3 == 0 ? 6 : 0);      // any nonzero value is success
}
long long (*GetProcAddress(void *h, const char *name))(void)
{
    dl_enter("GetProcAddress"); Inst *in = find_inst(h, "GetProcAddress"); int m = fault(F_SYM); int i = symidx_in(K(), name ? name : "");
    void *r = nullptr; string msg; bool missing = lib_missing(in, i) || lib_null(in, i);
    if (m < 0 && !missing) r = K().target(in->variant, i); else msg = oneline(make_msg(("undefined symbol" + from_lib(in)).c_str(), name ? name : "(null)"));
    if (m >= 0 && !missing) shm->probes[PR_TRANSIENT_SYM]++;
    ev_sym.push_back({ in, name ? name : "", r, msg }); logf_("  GetProcAddress(h%d, %.80s) -> %s", in->id, name ? name : "(null)", r ? "ok" : "refused");
    if (!r) set_winerr(msg); else win_success();
    return (long long (*)(void))r;
}
unsigned GetLastError(void) { return win_err; }
void SetLastError(unsigned e) { win_err = e; }
unsigned FormatMessageA(unsigned fl, const void *, unsigned id, unsigned, char *buf, unsigned n, va_list *)
{
    bool ok; string m = win_message(id, fl, ok); if (!ok) return 0;
    if (m.size() > 65535) m.resize(65535);
    if (fl & 0x100) { char *p = (char *)::malloc(m.size() + 17); memcpy(p + 16, m.c_str(), m.size() + 1); locals[p + 16] = m.size() + 1; *(char **)(void *)buf = p + 16; return (unsigned)m.size(); }
    if (m.size() + 1 > n) { win_err = 122; return 0; }
    memcpy(buf, m.c_str(), m.size() + 1); return (unsigned)m.size();
}
unsigned FormatMessageW(unsigned fl, const void *, unsigned id, unsigned, wchar_t *buf, unsigned n, va_list *)
{
    bool ok; std::wstring m = widen(win_message(id, fl, ok)); if (!ok) return 0;
    if (m.size() > 32767) m.resize(32767);
    size_t b = (m.size() + 1) * sizeof(wchar_t);
    if (fl & 0x100) { char *p = (char *)::malloc(b + 16); memcpy(p + 16, m.c_str(), b); locals[p + 16] = b; *(wchar_t **)(void *)buf = (wchar_t *)(p + 16); return (unsigned)m.size(); }
    if (m.size() + 1 > n) { win_err = 122; return 0; }
    memcpy(buf, m.c_str(), b); return (unsigned)m.size();
}
void *LocalFree(void *p)
{
    if (!p) return nullptr;
    auto it = locals.find(p); if (it == locals.end()) violation(P_C04, "localfree", "LocalFree() of a block that the system did not hand out");
    memset(p, 0xdd, it->second); ::free((char *)p - 16); locals.erase(it); return nullptr;
}
unsigned GetModuleFileNameA(void *h, char *buf, unsigned n)
{
    string s; if (!win_modname(h, s)) return 0;
    if (s.size() + 1 > n) { memcpy(buf, s.c_str(), n); if (n) buf[n - 1] = 0; set_winerr(make_msg("the buffer is too small", "")); return n; }
    memcpy(buf, s.c_str(), s.size() + 1); return (unsigned)s.size();
}
unsigned GetModuleFileNameW(void *h, wchar_t *buf, unsigned n)
{
    string s; if (!win_modname(h, s)) return 0; std::wstring w = widen(s);
    if (w.size() + 1 > n) { memcpy(buf, w.c_str(), n * sizeof(wchar_t)); if (n) buf[n - 1] = 0; set_winerr(make_msg("the buffer is too small", "")); return n; }
    memcpy(buf, w.c_str(), (w.size() + 1) * sizeof(wchar_t)); return (unsigned)w.size();
}
int MessageBoxA(void *, const char *t, const char *, unsigned) { boxes.push_back(t ? t : "(null)"); logf_("  MessageBox"); return 1; }
int MessageBoxW(void *, const wchar_t *t, const wchar_t *, unsigned) { boxes.push_back(t ? narrow(t) : "(null)"); logf_("  MessageBox"); return 1; }

// ---------------- Windows C library
int _snprintf_s(char *d, size_t size, size_t count, const char *f, ...)
{
    va_list ap; va_start(ap, f); string s = wvfmt(f, false, ap, d, size); va_end(ap);
    size_t room = count == (size_t)-1 ? size - 1 : std::min(count, size - 1);
    if (s.size() > room) { if (count != (size_t)-1 && count >= size) abort(); memcpy(d, s.data(), room); d[room] = 0; return -1; }
    memcpy(d, s.c_str(), s.size() + 1); return (int)s.size();
}
int _snwprintf_s(wchar_t *d, size_t size, size_t count, const wchar_t *f, ...)
{
    va_list ap; va_start(ap, f); std::wstring s = widen(wvfmt(narrow(f), true, ap, d, size * sizeof(wchar_t))); va_end(ap);
    size_t room = count == (size_t)-1 ? size - 1 : std::min(count, size - 1);
    if (s.size() > room) { if (count != (size_t)-1 && count >= size) abort(); wmemcpy(d, s.data(), room); d[room] = 0; return -1; }
    wmemcpy(d, s.c_str(), s.size() + 1); return (int)s.size();
}
int fprintf_s(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); string s = wvfmt(f, false, ap); va_end(ap); fwrite(s.data(), 1, s.size(), o); return (int)s.size(); }
int fwprintf_s(FILE *o, const wchar_t *f, ...) { va_list ap; va_start(ap, f); string s = wvfmt(narrow(f), true, ap); va_end(ap); fwrite(s.data(), 1, s.size(), o); return (int)s.size(); }
int rt_fputwc(wchar_t c, FILE *o) { string s = narrow(std::wstring(1, c)); fwrite(s.data(), 1, s.size(), o); return (int)c; }
char *_strdup(const char *s) { if (alloc_fails()) return nullptr; return (char *)track(::strdup(s), strlen(s) + 1); }
wchar_t *_wcsdup(const wchar_t *s) { if (alloc_fails()) return nullptr; return (wchar_t *)track(::wcsdup(s), (wcslen(s) + 1) * sizeof(wchar_t)); }
int mbstowcs_s(size_t *r, wchar_t *d, size_t size, const char *s, size_t count)
{
    if (r) *r = (size_t)-1;
    if ((d == nullptr) != (size == 0) || !s) return EINVAL;
    if (fault(F_CONV) >= 0) { conv_failed = true; if (d) *d = 0; logf_("  mbstowcs_s fails"); return EILSEQ; }
    std::wstring w = widen(s); if (!d) { if (r) *r = w.size() + 1; return 0; }
    bool trunc = w.size() + 1 > size; if (trunc && count != (size_t)-1) { *d = 0; return ERANGE; }
    if (trunc) w.resize(size - 1);
    wmemcpy(d, w.c_str(), w.size() + 1); if (r) *r = w.size() + 1; return trunc ? 80 : 0;
}
int wcstombs_s(size_t *r, char *d, size_t size, const wchar_t *s, size_t count)
{
    if (r) *r = (size_t)-1;
    if ((d == nullptr) != (size == 0) || !s) return EINVAL;
    if (fault(F_CONV) >= 0) { conv_failed = true; if (d) *d = 0; logf_("  wcstombs_s fails"); return EILSEQ; }
    string w = narrow(s); if (!d) { if (r) *r = w.size() + 1; return 0; }
    bool trunc = w.size() + 1 > size; if (trunc && count != (size_t)-1) { *d = 0; return ERANGE; }
    if (trunc) w.resize(size - 1);
    memcpy(d, w.c_str(), w.size() + 1); if (r) *r = w.size() + 1; return trunc ? 80 : 0;
}

// ---------------- AIX
struct LdInfo { unsigned next, flags; union { int fd; void *fp; } f; void *text; unsigned long long textn; void *data; unsigned long long datan; char name[2]; };
int loadquery(int what, void *buf, unsigned n)
{
    n_dlcalls++; n_info++; int m = fault(F_INFO);
    if (what != 2) { info_bad = true; errno = EINVAL; return -1; }
    auto stale = [&] {   // a call that fails may leave anything behind: here, records of a library that is long gone
        string rec(offsetof(LdInfo, name), 0); LdInfo h; memset(&h, 0, sizeof h); h.text = nullptr; h.textn = ~0ull; h.data = nullptr; h.datan = ~0ull; memcpy(&rec[0], &h, offsetof(LdInfo, name));
        rec += "/stale/libgone.a"; rec += '\0'; rec += "gone.o"; rec += '\0'; if (rec.size() <= n) memcpy(buf, rec.data(), rec.size());
    };
    if (m == 0) { info_bad = true; stale(); errno = ENOMEM; logf_("  loadquery -> -1"); return -1; }
    struct E { void *t, *te, *d, *de; string path, member; Inst *in; }; std::vector<E> es; Rng r(hdr.envseed ^ 0x1d ^ msgcount);
    static char prog[64]; es.push_back({ prog, prog + 32, prog + 32, prog + 64, "/usr/bin/prog", "", nullptr });
    for (auto i : insts) if (i->refs > 0 && !(m == 1 && i == M_cur())) {
        E e; C.aixrange(i->variant, &e.t, &e.te, &e.d, &e.de); e.in = i; e.path = inst_abspath[i->id]; size_t q = e.path.find('(');
        if (q != string::npos) { e.member = e.path.substr(q + 1, e.path.size() - q - 2); e.path.resize(q); }
        es.push_back(e);
    }
    if (m >= 0) info_bad = true;
    if (Inst *cur = M_cur()) if (r.below(3) == 0) {   // another module's section ends right where the current library's begins
        E e; C.aixrange(cur->variant, &e.t, &e.te, &e.d, &e.de); E near{ prog + 1, prog + 1, prog + 1, prog + 1, "/usr/lib/libnear.a", "near.o", nullptr };
        auto free_byte = [&](char *b) { for (int l = 0; l < RT_NLIB; l++) for (int k = 0; k < C.nsym; k++) if (C.target(l, k) == b) return false; return true; };
        if (free_byte((char *)e.t - 1)) { near.t = (char *)e.t - 1; near.te = e.t; }
        if (free_byte((char *)e.d - 1)) { near.d = (char *)e.d - 1; near.de = e.d; }
        es.push_back(near);
    }
    for (size_t k = es.size(); k > 2; k--) std::swap(es[k - 1], es[1 + r.below(k - 1)]);
    string out; size_t last = 0;
    for (auto &e : es) {
        last = out.size(); string rec(offsetof(LdInfo, name), 0); LdInfo h; memset(&h, 0, sizeof h); h.text = e.t; h.textn = (unsigned long long)((char *)e.te - (char *)e.t); h.data = e.d; h.datan = (unsigned long long)((char *)e.de - (char *)e.d);
        rec += e.path; rec += '\0'; rec += e.member; rec += '\0'; while (rec.size() % 8) rec += '\xee';
        h.next = (unsigned)rec.size(); memcpy(&rec[0], &h, offsetof(LdInfo, name)); out += rec;
    }
    unsigned z = 0; memcpy(&out[last], &z, sizeof z);
    if (out.size() > n) { info_bad = true; stale(); errno = ENOMEM; logf_("  loadquery: buffer too small"); return -1; }
    memset(buf, 0xee, n); memcpy(buf, out.data(), out.size());
    for (auto &e : es) if (e.in) ev_path.push_back({ inst_abspath[e.in->id], 10 + e.in->id });
    logf_("  loadquery -> %zu entries", es.size()); return 0;
}

// ---------------- PROCMAP_QUERY
struct PmQuery { u64 size, query_flags, query_addr, vma_start, vma_end, vma_flags, vma_page_size, vma_offset, inode; unsigned dev_major, dev_minor, vma_name_size, build_id_size; u64 vma_name_addr, build_id_addr; };
int sim_ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    if (!sim_fds.count(fd)) { errno = EBADF; return -1; }
    if (req != (3ul << 30 | (unsigned long)sizeof(PmQuery) << 16 | 'f' << 8 | 17)) { errno = ENOTTY; return -1; }
    PmQuery *q = (PmQuery *)arg; int m = fault(F_IOCTL); logf_("  ioctl(PROCMAP_QUERY)");
    if (m >= 0) { ioctl_fault = true; errno = m == 0 ? ENOTTY : m == 1 ? ENOENT : ESRCH; return -1; }
    if (q->size < sizeof(PmQuery) || (q->query_flags & ~0x3full) || !!q->vma_name_size != !!q->vma_name_addr) { errno = EINVAL; return -1; }
    Inst *hit = nullptr; u64 s = 0, e = 0; bool named = true;
    auto take = [&](Inst *i, u64 a, u64 b, bool nm) { bool in = q->query_addr >= a && q->query_addr < b; bool nx = (q->query_flags & 0x10) && a > q->query_addr && (!hit || a < s); if ((!nm && (q->query_flags & 0x20)) || !(in || nx) || (hit && !in && a >= s)) return; if (hit && q->query_addr >= s && q->query_addr < e) return; hit = i; s = a; e = b; named = nm; };
    for (auto i : insts) if (i->refs > 0) { take(i, i->laddr, i->laddr + 0x4000, i->mapped); take(i, i->laddr + 0x4000, i->laddr + 0x9000, true); take(i, i->laddr + 0x9000, i->laddr + 0xa000, true); }
    if (!hit) { errno = ENOENT; return -1; }
    q->vma_start = s; q->vma_end = e; q->vma_flags = 1; q->vma_page_size = 4096; q->inode = 77;
    if (q->vma_name_size) {
        string p = named ? inst_abspath[hit->id] : ""; size_t lim = std::min<size_t>(q->vma_name_size, 4096);
        if (p.empty()) q->vma_name_size = 0;
        else { if (p.size() + 1 > lim) { errno = ENAMETOOLONG; return -1; } memcpy((void *)q->vma_name_addr, p.c_str(), p.size() + 1); q->vma_name_size = (unsigned)p.size() + 1; }
    }
    return 0;
}
int sim_close(int fd) { auto it = sim_fds.find(fd); if (it != sim_fds.end()) sim_fds.erase(it); return close(fd); }
} // extern "C"
