/* Simulated operating system for the generator (and for the build-time template packer).
 *
 * The real program code (all of src/ plus libstdc++, libc) is linked into this host.  Every run happens in a forked child
 * whose system calls are all intercepted (Syscall User Dispatch, or a seccomp trap where that is missing) and answered from
 * an in-memory file system, simulated descriptors, a simulated clock and a fault plan.  Nothing the program does reaches the
 * real machine except memory management.  The parent only parses plans, forks, and reports.
 *
 * The parent never touches stdio, iostreams or the heap, so that every child starts from the same memory image.
 */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/statfs.h>
#include <sys/utsname.h>
#include <sys/vfs.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <linux/stat.h>
#include <ucontext.h>

int gendlopen_main(int, char **);
extern "C" int packer_main(int, char **);
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t); extern "C" void *__libc_memalign(size_t, size_t);
extern char **environ;

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

/* ---- raw system calls, the only code allowed to enter the kernel once dispatch is on ---- */
__asm__(".pushsection .simsys,\"ax\",@progbits\n.globl sim_raw\n.type sim_raw,@function\nsim_raw:\n"
        " mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n ret\n"
        ".globl sim_restorer\nsim_restorer:\n mov $15,%eax\n syscall\n.globl sim_end\nsim_end:\n nop\n.popsection\n");
extern "C" long sim_raw(long nr, long a, long b, long c, long d, long e, long f);
extern "C" void sim_restorer(); extern "C" char sim_end[];
static inline long raw(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return sim_raw(nr, a, b, c, d, e, f); }

/* ---- shared state: file system, plan, result ---- */
enum { T_NONE, T_FILE, T_DIR, T_LNK, T_FIFO, T_NULL, T_FULL, T_PIPE, T_TTY };
enum Cls { C_OPENR, C_OPENW, C_READ, C_WRITE, C_WRITE2, C_CLOSER, C_CLOSEW, C_LSEEK, C_FSTAT, C_STAT, C_UNLINK, C_MKDIR, C_RENAME, C_CWD, C_OTHER, C_MALLOC, C_BIGM, C_MEM, C_ANY, C_N };
static const char *cls_name[C_N] = { "openr", "openw", "read", "write", "write2", "closer", "closew", "lseek", "fstat", "stat", "unlink", "mkdir", "rename", "cwd", "other", "malloc", "bigmalloc", "mem", "any" };
enum { F_ERR, F_SHORT, F_KILL_BEFORE, F_KILL_MID, F_KILL_AFTER };
enum { MAXI = 512, MAXFD = 64, MAXF = 16, MAXARG = 128, MAXEV = 8, MAXT = 16, MAXLOG = 4096, MAXREC = 64, MAXSW = 256 };

struct Ino { u8 type; u16 mode; u32 nlink, size, cap, off; int parent; u64 mtime; };
struct Dent { int dir, ino; u32 name; u16 len; u8 used; };
struct Ofd { u8 used; int ino; u64 pos; int flags; int refs; u32 written; u32 dirpos; };
struct Fault { int cls, nth, kind, err, sticky, arg, fired, ino, active; };
struct Event { int step, type, done; u32 path, plen, data, dlen; };
struct Log { u16 nr; short cls; int ino; long arg, ret; };
/* file system (survives between runs of one plan chain) and the scheduler of two processes that share it */
struct Fs {
    u32 ninode, ndent, bump; u64 disk_used;
    Ino ino[MAXI]; Dent dent[MAXI];
    int nproc, turn, alive[2], npt, pt[MAXSW], nsw, sw[MAXSW]; long gstep, odds; u64 srng;
};
/* one simulated process: its descriptors, its plan and what became of it */
struct Shm {
    int slot;
    int fd[MAXFD]; Ofd ofd[MAXFD]; int cwd; u32 umask_;
    int sink1, sink2, src0;
    /* plan */
    int prog, argc, envc; char *argv[MAXARG + 1], *envp[MAXARG + 1];
    Fault f[MAXF]; int nf; Event ev[MAXEV]; int nev;
    u64 chunk_seed; int chunk_max; int poison, stackfill; u64 clock; long epoch; u64 tick; u64 disk; long budget; int enforce; u64 ident; int layout; int jump_nth; long jump_by; int wantlog; int fdlimit; long memlimit;
    u64 rng;
    /* result */
    long steps; long count[C_N]; int how, code; char note[256]; u64 hash; long times[MAXT]; int ntimes; u64 clock_start; int nlog; Log log[MAXLOG];
    int rec[MAXREC]; int nrec; int unknown; long shorts; long fill_bytes;
    u32 nasked; char asked[8192];    /* what the program asked for and did not find: E environment variables, P paths; each ends with a zero */
    u8 live;
};
static const size_t DATA = 192u << 20, PLANBUF = 16u << 20;
static Fs *G; static Shm *S, *P; static char *D, *PB;      /* D: file data arena, PB: plan text */
enum { H_NONE, H_EXIT, H_SIGNAL, H_HANG, H_KILLED, H_OOB };

/* ---- scheduler: exactly one of the two processes runs; the turn changes hands at system calls only ---- */
static void pass(int to) { __atomic_store_n(&G->turn, to, __ATOMIC_SEQ_CST); raw(SYS_futex, (long)&G->turn, 1 /* wake */, 2); }
static void await(int me) { for (int t; (t = __atomic_load_n(&G->turn, __ATOMIC_SEQ_CST)) != me; ) raw(SYS_futex, (long)&G->turn, 0 /* wait */, t); }
static void leave(int me) { if (G->nproc < 2 || !G->alive[me]) return; G->alive[me] = 0; if (G->alive[!me]) pass(!me); }
static void preempt(int me)
{
    if (G->nproc < 2) return;
    long n = ++G->gstep; bool go = false;
    for (int i = 0; i < G->npt; i++) go |= G->pt[i] == n;
    if (G->odds) { u64 z = (G->srng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 29; go |= z % G->odds == 0; }
    if (!go || !G->alive[!me]) return;
    if (G->nsw < MAXSW) G->sw[G->nsw++] = n;
    pass(!me); await(me);
}
static void finish(int how, int code, const char *note)
{
    if (S->how == H_NONE) { S->how = how; S->code = code; if (note) { size_t n = strlen(note); if (n > 255) n = 255; memcpy(S->note, note, n); S->note[n] = 0; } }
    S->live = 0; leave(S->slot);
    for (;;) raw(SYS_exit_group, 0);
}
static inline void mix(u64 v) { u64 h = S->hash; for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } S->hash = h; }
static void asked(char kind, const char *what)
{
    size_t n = strlen(what) + 2; char *b = S->asked; if (n > 300 || S->nasked + n > sizeof S->asked) return;
    for (u32 i = 0; i < S->nasked; i += strlen(b + i) + 1) if (b[i] == kind && !strcmp(b + i + 1, what)) return;
    b[S->nasked] = kind; memcpy(b + S->nasked + 1, what, n - 1); S->nasked += n;
}
static u64 rnd() { u64 z = (S->rng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

/* ---- file system ---- */
static u32 dalloc(u32 n) { n = (n + 15) & ~15u; if ((size_t)G->bump + n > DATA) { if (S->live) finish(H_OOB, 0, "simulated disk arena exhausted"); return 0; } u32 o = G->bump; G->bump += n; return o; }
static int inew(int type, int mode) { if (G->ninode >= MAXI) return -ENOSPC; int i = G->ninode++; G->ino[i] = Ino{(u8)type, (u16)mode, 0, 0, 0, 0, -1, S->clock}; return i; }
static int igrow(int i, u32 cap)
{
    Ino &n = G->ino[i]; if (cap <= n.cap) return 0;
    u32 c = n.cap ? n.cap : 4096; while (c < cap) c *= 2;
    u32 o = dalloc(c); memcpy(D + o, D + n.off, n.size); memset(D + o + n.size, 0, c - n.size); n.off = o; n.cap = c; return 0;
}
static void iset(int i, const char *p, u32 len) { igrow(i, len + 1); memcpy(D + G->ino[i].off, p, len); G->ino[i].size = len; }
static int dfind(int dir, const char *nm, size_t len)
{
    for (u32 k = 0; k < G->ndent; k++) { Dent &d = G->dent[k]; if (d.used && d.dir == dir && d.len == len && !memcmp(D + d.name, nm, len)) return k; }
    return -1;
}
static int dadd(int dir, const char *nm, size_t len, int ino)
{
    u32 k = 0; for (; k < G->ndent; k++) if (!G->dent[k].used) break;
    if (k == G->ndent) { if (G->ndent >= MAXI) return -ENOSPC; G->ndent++; }
    u32 o = dalloc(len + 1); memcpy(D + o, nm, len); D[o + len] = 0;
    G->dent[k] = Dent{dir, ino, o, (u16)len, 1}; G->ino[ino].nlink++; if (G->ino[ino].type == T_DIR) G->ino[ino].parent = dir; return 0;
}
static bool may(int ino, int bits) { return !S->enforce || ((G->ino[ino].mode >> 6) & bits) == bits; }

struct Walk { int parent; char last[256]; size_t len; bool slash; };
static int walk(int base, const char *path, bool follow, Walk *w, int depth = 0)
{
    w->parent = -1; w->len = 0; w->slash = false;
    if (!*path) return -ENOENT;
    size_t pl = strlen(path); if (pl >= 4096) return -ENAMETOOLONG;
    int cur = *path == '/' ? 0 : base; const char *p = path;
    if (G->ino[cur].type != T_DIR) return -ENOTDIR;
    for (;;) {
        while (*p == '/') p++;
        if (!*p) { w->parent = cur; w->len = 0; return cur; }
        const char *e = p; while (*e && *e != '/') e++;
        size_t n = e - p; if (n > 255) return -ENAMETOOLONG;
        const char *r = e; while (*r == '/') r++;
        bool lastc = !*r, tail = *e == '/';
        if (G->ino[cur].type != T_DIR) return -ENOTDIR;
        if (!may(cur, 1)) return -EACCES;
        if (n == 1 && *p == '.') { if (lastc) { w->parent = cur; w->len = 1; memcpy(w->last, ".", 2); return cur; } p = e; continue; }
        if (n == 2 && p[0] == '.' && p[1] == '.') { int up = G->ino[cur].parent; if (up >= 0) cur = up; if (lastc) { w->parent = cur; w->len = 2; memcpy(w->last, "..", 3); return cur; } p = e; continue; }
        int k = dfind(cur, p, n);
        if (lastc) { w->parent = cur; w->len = n; memcpy(w->last, p, n); w->last[n] = 0; w->slash = tail; }
        if (k < 0) { if (!lastc) w->parent = -1; return -ENOENT; }
        int i = G->dent[k].ino;
        if (G->ino[i].type == T_LNK && (!lastc || follow || tail)) {
            if (depth >= 40) return -ELOOP;
            char tgt[4200]; u32 tl = G->ino[i].size; if (tl + strlen(e) >= sizeof tgt) return -ENAMETOOLONG;
            memcpy(tgt, D + G->ino[i].off, tl); strcpy(tgt + tl, e);
            return walk(cur, tgt, follow, w, depth + 1);
        }
        if (lastc) { if (tail && G->ino[i].type != T_DIR) return -ENOTDIR; return i; }
        cur = i; p = e;
    }
}
static int base_of(long dfd, const char *path, int *err)
{
    *err = 0; if (*path == '/') return 0; if ((int)dfd == AT_FDCWD) return S->cwd;
    if (dfd < 0 || dfd >= MAXFD || S->fd[dfd] < 0) { *err = -EBADF; return 0; }
    int i = S->ofd[S->fd[dfd]].ino; if (G->ino[i].type != T_DIR) *err = -ENOTDIR; return i;
}
static int newfd(int ino, int flags)
{
    int lim = S->fdlimit < MAXFD ? S->fdlimit : MAXFD;
    for (int f = 0; f < lim; f++) if (S->fd[f] < 0) for (int o = 0; o < MAXFD; o++) if (!S->ofd[o].used) { S->ofd[o] = Ofd{1, ino, 0, flags, 1, 0, 0}; S->fd[f] = o; return f; }
    return -EMFILE;
}

/* ---- faults ---- */
static int g_short;   /* set by fault(): transfer at most this much */
static bool g_kill_mid, g_kill_after;
static long fault(int cls, int ino)
{
    long n = ++S->count[cls]; long r = 0;
    for (int i = 0; i < S->nf; i++) {
        Fault &f = S->f[i]; if (f.cls != cls) continue;
        bool hit = n == f.nth || (f.active && f.sticky && (f.ino == ino || f.sticky == 2));
        if (!hit) continue;
        f.fired++; if (n == f.nth) { f.ino = ino; f.active = 1; }
        mix(0xF000 + i);
        switch (f.kind) {
        case F_ERR: r = -f.err; break;
        case F_SHORT: g_short = f.arg; break;
        case F_KILL_BEFORE: finish(H_KILLED, 0, "killed"); break;
        case F_KILL_MID: g_kill_mid = true; break;
        case F_KILL_AFTER: g_kill_after = true; break;
        }
    }
    return r;
}

static void fill_stat(int i, struct stat *st)
{
    memset(st, 0, sizeof *st); Ino &n = G->ino[i];
    static const mode_t tm[] = {0, S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO, S_IFCHR, S_IFCHR, S_IFIFO, S_IFCHR};
    st->st_dev = 77 + S->ident % 5; st->st_ino = 1000 + S->ident % 7777 + i; st->st_mode = tm[n.type] | n.mode; st->st_nlink = n.nlink; st->st_uid = st->st_gid = 1000 + S->ident % 3; st->st_size = n.type == T_FILE || n.type == T_LNK ? n.size : 0;
    st->st_blksize = S->ident % 4 == 1 ? 512 : S->ident % 4 == 2 ? 65536 : 4096; st->st_blocks = (n.size + 511) / 512; st->st_mtim.tv_sec = n.mtime / 1000000000; st->st_mtim.tv_nsec = n.mtime % 1000000000; st->st_ctim = st->st_atim = st->st_mtim; if (n.type == T_NULL) st->st_rdev = 0x103; if (n.type == T_FULL) st->st_rdev = 0x107; if (n.type == T_TTY) st->st_rdev = 0x8803;
}
static Ofd *ofd(long fd) { if (fd < 0 || fd >= MAXFD || S->fd[fd] < 0) return nullptr; return &S->ofd[S->fd[fd]]; }

static long do_open(long dfd, const char *path, int flags, int mode)
{
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); int err; int b = base_of(dfd, path, &err);
    Walk w; int i = err ? err : walk(b, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), &w);
    if (long e = fault(wr ? C_OPENW : C_OPENR, i >= 0 ? i : -1)) return e;
    if (i == -ENOENT && (flags & O_CREAT) && w.parent >= 0) {
        if (w.slash) return -EISDIR;
        if (!may(w.parent, 3)) return -EACCES;
        i = inew(T_FILE, mode & ~S->umask_ & 0777); if (i < 0) return i; if (int e = dadd(w.parent, w.last, w.len, i)) return e; mix(0xC0);
    } else {
        if (i == -ENOENT) asked('P', path);
        if (i < 0) return i;
        Ino &n = G->ino[i];
        if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
        if (n.type == T_LNK) { if (!(flags & O_PATH)) return -ELOOP; }
        if (n.type == T_DIR && (((flags & O_ACCMODE) != O_RDONLY) || (flags & O_CREAT))) return -EISDIR;
        if ((flags & O_DIRECTORY) && n.type != T_DIR) return -ENOTDIR;
        int need = (flags & O_ACCMODE) == O_RDONLY ? 4 : (flags & O_ACCMODE) == O_WRONLY ? 2 : 6; if (!(flags & O_PATH) && !may(i, need)) return -EACCES;
        if ((flags & O_TRUNC) && n.type == T_FILE) { G->disk_used -= n.size; n.size = 0; n.mtime = S->clock; }
    }
    int f = newfd(i, flags); return f;
}
static long do_read(long fd, char *buf, size_t n, long at)
{
    Ofd *o = ofd(fd); if (!o || (o->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
    if (long e = fault(C_READ, o->ino)) return e;
    Ino &i = G->ino[o->ino]; if (i.type == T_DIR) return -EISDIR; if (i.type == T_NULL) return 0; if (i.type == T_FULL) { memset(buf, 0, n); return n; }
    u64 pos = at >= 0 ? (u64)at : o->pos; u64 av = pos < i.size ? i.size - pos : 0; size_t k = n < av ? n : av;
    if (i.type == T_TTY) { const char *nl = (const char *)memchr(D + i.off + pos, '\n', k); if (nl) k = nl + 1 - (D + i.off + pos); }      // a terminal gives a line at a time
    if (S->chunk_max && k > 1) { size_t c = 1 + rnd() % S->chunk_max; if (c < k) { k = c; S->shorts++; } }
    if (g_short > 0 && (size_t)g_short < k) { k = g_short; S->shorts++; }
    memcpy(buf, D + i.off + pos, k); if (at < 0) o->pos = pos + k; return k;
}
static long do_write(long fd, const char *buf, size_t n, long at, bool again = false)
{
    Ofd *o = ofd(fd); if (!o || (o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    if (!again) if (long e = fault(o->ino == S->sink2 ? C_WRITE2 : C_WRITE, o->ino)) return e;
    Ino &i = G->ino[o->ino]; if (i.type == T_NULL) return n; if (i.type == T_FULL) return n ? -ENOSPC : 0;
    u64 pos = at >= 0 ? (u64)at : (i.type == T_PIPE || i.type == T_TTY || (o->flags & O_APPEND)) ? i.size : o->pos; size_t k = n;
    if (g_kill_mid) k = n / 2;
    if (g_short > 0 && (size_t)g_short < k) { k = g_short; S->shorts++; }
    if (S->disk && i.type == T_FILE) { u64 end = pos + k; u64 grow = end > i.size ? end - i.size : 0; if (G->disk_used + grow > S->disk) { u64 room = S->disk > G->disk_used ? S->disk - G->disk_used : 0; u64 kk = (i.size > pos ? i.size - pos : 0) + room; if (kk < k) { k = kk; if (!k && n) return -ENOSPC; S->shorts++; } } }
    if (!n) return 0;
    if (pos + k > (8u << 20)) return -EFBIG;
    igrow(o->ino, pos + k + 1); Ino &j = G->ino[o->ino];
    if (pos > j.size) memset(D + j.off + j.size, 0, pos - j.size);
    memcpy(D + j.off + pos, buf, k); if (pos + k > j.size) { if (j.type == T_FILE) G->disk_used += pos + k - j.size; j.size = pos + k; } j.mtime = S->clock;
    if (at < 0) o->pos = pos + k; o->written += k;
    if (g_kill_mid) finish(H_KILLED, 0, "killed");
    return k;
}
static long do_writev(long fd, const iovec *v, int n, long at)
{
    size_t tot = 0; for (int i = 0; i < n; i++) tot += v[i].iov_len;
    Ofd *o = ofd(fd); if (!o || (o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    if (long e = fault(o->ino == S->sink2 ? C_WRITE2 : C_WRITE, o->ino)) return e;
    bool mid = g_kill_mid; g_kill_mid = false; long lim = g_short > 0 ? g_short : (mid ? (long)(tot / 2) : -1), done = 0; g_short = 0;
    if (lim >= 0 && (size_t)lim < tot) S->shorts++;
    for (int i = 0; i < n; i++) {
        size_t k = v[i].iov_len; if (lim >= 0 && done + (long)k > lim) k = lim - done; if (!k) { if (v[i].iov_len) break; continue; }
        long r = do_write(fd, (const char *)v[i].iov_base, k, at >= 0 ? at + done : -1, true); if (r < 0) { if (done) break; if (mid) break; return r; } done += r; if ((size_t)r < v[i].iov_len) break;
    }
    if (mid) finish(H_KILLED, 0, "killed");
    return done;
}
static long do_close(long fd)
{
    Ofd *o = ofd(fd); if (!o) return -EBADF;
    bool w = (o->flags & O_ACCMODE) != O_RDONLY; long e = fault(w ? C_CLOSEW : C_CLOSER, o->ino);
    if (e && e != -EINTR && w && o->written) { /* a failing close means that the last data never reached the disk */
        Ino &i = G->ino[o->ino]; u32 lose = o->written < 4096 ? o->written : 4096; if (i.type == T_FILE) { if (lose > i.size) lose = i.size; i.size -= lose; G->disk_used -= lose; } }
    S->fd[fd] = -1; if (--o->refs == 0) o->used = 0; return e;
}
static long do_stat(long dfd, const char *path, int flags, struct stat *st)
{
    if ((flags & AT_EMPTY_PATH) && (!path || !*path)) {
        if ((int)dfd == AT_FDCWD) { fill_stat(S->cwd, st); return 0; }
        Ofd *o = ofd(dfd); if (!o) return -EBADF; if (long e = fault(C_FSTAT, o->ino)) return e; fill_stat(o->ino, st); return 0;
    }
    int err; int b = base_of(dfd, path, &err); Walk w; int i = err ? err : walk(b, path, !(flags & AT_SYMLINK_NOFOLLOW), &w);
    if (long e = fault(C_STAT, i >= 0 ? i : -1)) return e;
    if (i == -ENOENT) asked('P', path);
    if (i < 0) return i; fill_stat(i, st); return 0;
}
static long do_unlink(long dfd, const char *path, bool dir)
{
    int err; int b = base_of(dfd, path, &err); Walk w; int i = err ? err : walk(b, path, false, &w);
    if (long e = fault(C_UNLINK, i >= 0 ? i : -1)) return e;
    if (i < 0) return i; if (w.len == 0) return dir ? -EBUSY : -EISDIR; if (w.last[0] == '.' && (w.len == 1 || (w.len == 2 && w.last[1] == '.'))) return dir ? -EINVAL : -EISDIR;
    if (!may(w.parent, 3)) return -EACCES;
    if (dir) { if (G->ino[i].type != T_DIR) return -ENOTDIR; for (u32 k = 0; k < G->ndent; k++) if (G->dent[k].used && G->dent[k].dir == i) return -ENOTEMPTY; }
    else if (G->ino[i].type == T_DIR) return -EISDIR;
    int k = dfind(w.parent, w.last, w.len); if (k < 0) return -ENOENT; G->dent[k].used = 0; if (--G->ino[i].nlink == 0 && G->ino[i].type == T_FILE) G->disk_used -= G->ino[i].size; return 0;
}
static long do_mkdir(long dfd, const char *path, int mode)
{
    int err; int b = base_of(dfd, path, &err); Walk w; int i = err ? err : walk(b, path, false, &w);
    if (long e = fault(C_MKDIR, -1)) return e;
    if (i >= 0) return -EEXIST; if (i != -ENOENT || w.parent < 0) return i; if (!may(w.parent, 3)) return -EACCES;
    int n = inew(T_DIR, mode & ~S->umask_ & 0777); if (n < 0) return n; return dadd(w.parent, w.last, w.len, n);
}
static long do_rename(long d1, const char *a, long d2, const char *b, unsigned fl)
{
    int e1, e2; int ba = base_of(d1, a, &e1), bb = base_of(d2, b, &e2); Walk wa, wb; int i = e1 ? e1 : walk(ba, a, false, &wa), j = e2 ? e2 : walk(bb, b, false, &wb);
    if (long e = fault(C_RENAME, i >= 0 ? i : -1)) return e;
    if (i < 0) return i; if (j < 0 && (j != -ENOENT || wb.parent < 0)) return j; if (!may(wa.parent, 3) || !may(wb.parent, 3)) return -EACCES;
    if (j >= 0 && (fl & 1)) return -EEXIST; if (i == j) return 0;
    if (j >= 0) { if (G->ino[j].type == T_DIR) { if (G->ino[i].type != T_DIR) return -EISDIR; for (u32 k = 0; k < G->ndent; k++) if (G->dent[k].used && G->dent[k].dir == j) return -ENOTEMPTY; } else if (G->ino[i].type == T_DIR) return -ENOTDIR;
        int k = dfind(wb.parent, wb.last, wb.len); G->dent[k].used = 0; G->ino[j].nlink--; }
    int k = dfind(wa.parent, wa.last, wa.len); if (k < 0) return -EINVAL; G->dent[k].used = 0; G->ino[i].nlink--; return dadd(wb.parent, wb.last, wb.len, i);
}
static long do_link(long d1, const char *a, long d2, const char *b, bool follow)
{
    int e1, e2; int ba = base_of(d1, a, &e1), bb = base_of(d2, b, &e2); Walk wa, wb; int i = e1 ? e1 : walk(ba, a, follow, &wa), j = e2 ? e2 : walk(bb, b, false, &wb);
    if (long e = fault(C_OTHER, i >= 0 ? i : -1)) return e;
    if (i < 0) return i; if (j >= 0) return -EEXIST; if (j != -ENOENT || wb.parent < 0) return j; if (G->ino[i].type == T_DIR) return -EPERM; if (!may(wb.parent, 3)) return -EACCES; return dadd(wb.parent, wb.last, wb.len, i);
}
static long do_symlink(const char *tgt, long d, const char *b)
{
    int e2; int bb = base_of(d, b, &e2); Walk wb; int j = e2 ? e2 : walk(bb, b, false, &wb);
    if (long e = fault(C_OTHER, -1)) return e;
    if (j >= 0) return -EEXIST; if (j != -ENOENT || wb.parent < 0) return j; if (!may(wb.parent, 3)) return -EACCES; int n = inew(T_LNK, 0777); if (n < 0) return n; iset(n, tgt, strlen(tgt)); return dadd(wb.parent, wb.last, wb.len, n);
}
static size_t path_of(int dir, char *out, size_t cap)
{
    if (dir == 0) { out[0] = '/'; out[1] = 0; return 1; }
    int st[64], n = 0; while (dir > 0 && n < 64) { st[n++] = dir; dir = G->ino[dir].parent; }
    size_t l = 0; while (n--) for (u32 k = 0; k < G->ndent; k++) { Dent &d = G->dent[k]; if (d.used && d.ino == st[n]) { if (l + d.len + 2 > cap) return 0; out[l++] = '/'; memcpy(out + l, D + d.name, d.len); l += d.len; break; } }
    out[l] = 0; return l;
}
static long do_statx(long dfd, const char *path, int flags, struct statx *x)
{
    struct stat st; long r = do_stat(dfd, path, flags, &st); if (r < 0) return r; memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = 4096; x->stx_nlink = st.st_nlink; x->stx_uid = st.st_uid; x->stx_gid = st.st_gid; x->stx_mode = st.st_mode; x->stx_ino = st.st_ino; x->stx_size = st.st_size; x->stx_blocks = st.st_blocks; x->stx_mtime.tv_sec = st.st_mtim.tv_sec; x->stx_mtime.tv_nsec = st.st_mtim.tv_nsec; x->stx_ctime = x->stx_atime = x->stx_mtime; x->stx_dev_minor = 77; return 0;
}
static long do_trunc(int i, u64 len)
{
    Ino &n = G->ino[i]; if (n.type != T_FILE) return -EINVAL; if (len > (8u << 20)) return -EFBIG;
    if (len > n.size) { if (S->disk && G->disk_used + len - n.size > S->disk) return -ENOSPC; igrow(i, len + 1); memset(D + G->ino[i].off + G->ino[i].size, 0, len - G->ino[i].size); G->disk_used += len - G->ino[i].size; } else G->disk_used -= G->ino[i].size - len;
    G->ino[i].size = len; return 0;
}
static void note_time(long s) { for (int k = 0; k < S->ntimes; k++) if (S->times[k] == s) return; if (S->ntimes < MAXT) S->times[S->ntimes++] = s; }
static long secs(u64 t) { return (long)(t / 1000000000) + S->epoch; }    // far away times: the counter stays small
static u64 now()
{
    S->clock += S->tick; static_assert(sizeof(u64) == 8, ""); if (S->jump_nth && --S->jump_nth == 0) S->clock += (u64)S->jump_by * 1000000000ull; note_time(secs(S->clock)); return S->clock;
}
static void apply_event(Event &e)
{
    e.done = 1; char p[512]; if (e.plen >= sizeof p) return; memcpy(p, PB + e.path, e.plen); p[e.plen] = 0; Walk w; int i = walk(0, p, false, &w);
    if (i >= 0 && w.len) { int k = dfind(w.parent, w.last, w.len); if (k >= 0) { G->dent[k].used = 0; G->ino[i].nlink--; } }
    if (e.type == T_NONE || w.parent < 0) return;
    int n = inew(e.type, e.type == T_DIR ? 0755 : 0644); if (n < 0) return; if (e.type == T_FILE || e.type == T_LNK) iset(n, PB + e.data, e.dlen); dadd(w.parent, w.last, w.len, n); mix(0xE0);
}

/* ---- the system call table ---- */
static long emulate(long nr, long *a, int *lino)
{
    switch (nr) {
    case SYS_open: return do_open(AT_FDCWD, (char *)a[0], a[1], a[2]);
    case SYS_creat: return do_open(AT_FDCWD, (char *)a[0], O_WRONLY | O_CREAT | O_TRUNC, a[1]);
    case SYS_openat: return do_open(a[0], (char *)a[1], a[2], a[3]);
    case SYS_close: return do_close(a[0]);
    case SYS_read: return do_read(a[0], (char *)a[1], a[2], -1);
    case SYS_pread64: return do_read(a[0], (char *)a[1], a[2], a[3]);
    case SYS_readv: case SYS_preadv: { iovec *v = (iovec *)a[1]; long d = 0; for (int i = 0; i < a[2]; i++) { if (!v[i].iov_len) continue; long r = do_read(a[0], (char *)v[i].iov_base, v[i].iov_len, nr == SYS_preadv ? a[3] + d : -1); if (r < 0) return d ? d : r; d += r; if ((size_t)r < v[i].iov_len) break; } return d; }
    case SYS_write: return do_write(a[0], (char *)a[1], a[2], -1);
    case SYS_pwrite64: return do_write(a[0], (char *)a[1], a[2], a[3]);
    case SYS_writev: return do_writev(a[0], (iovec *)a[1], a[2], -1);
    case SYS_pwritev: return do_writev(a[0], (iovec *)a[1], a[2], a[3]);
    case SYS_lseek: { Ofd *o = ofd(a[0]); if (!o) return -EBADF; if (long e = fault(C_LSEEK, o->ino)) return e; Ino &i = G->ino[o->ino]; if (i.type == T_PIPE || i.type == T_FIFO || i.type == T_TTY) return -ESPIPE; if (i.type == T_NULL || i.type == T_FULL) return 0; long base = a[2] == SEEK_SET ? 0 : a[2] == SEEK_CUR ? (long)o->pos : a[2] == SEEK_END ? (long)i.size : -1; if (a[2] > 2) return -EINVAL; long p = base + a[1]; if (p < 0) return -EINVAL; o->pos = p; o->dirpos = p; return p; }
    case SYS_fstat: return do_stat(a[0], "", AT_EMPTY_PATH, (struct stat *)a[1]);
    case SYS_stat: return do_stat(AT_FDCWD, (char *)a[0], 0, (struct stat *)a[1]);
    case SYS_lstat: return do_stat(AT_FDCWD, (char *)a[0], AT_SYMLINK_NOFOLLOW, (struct stat *)a[1]);
    case SYS_newfstatat: return do_stat(a[0], (char *)a[1], a[3], (struct stat *)a[2]);
    case SYS_statx: return do_statx(a[0], (char *)a[1], a[2], (struct statx *)a[4]);
    case SYS_statfs: { struct statfs *f = (struct statfs *)a[1]; memset(f, 0, sizeof *f); f->f_type = 0xEF53; f->f_bsize = 4096; f->f_blocks = f->f_bfree = f->f_bavail = 1 << 20; return 0; }
    case SYS_fstatfs: { struct statfs *f = (struct statfs *)a[1]; memset(f, 0, sizeof *f); f->f_type = 0xEF53; f->f_bsize = 4096; f->f_blocks = f->f_bfree = f->f_bavail = 1 << 20; return 0; }
    case SYS_access: case SYS_faccessat: case SYS_faccessat2: { const char *p = nr == SYS_access ? (char *)a[0] : (char *)a[1]; int m = nr == SYS_access ? a[1] : a[2]; int e; int b = base_of(nr == SYS_access ? AT_FDCWD : a[0], p, &e); Walk w; int i = e ? e : walk(b, p, !(nr == SYS_faccessat2 && (a[3] & AT_SYMLINK_NOFOLLOW)), &w); if (long x = fault(C_STAT, i >= 0 ? i : -1)) return x; if (i == -ENOENT) asked('P', p); if (i < 0) return i; return may(i, m & 7) ? 0 : -EACCES; }
    case SYS_unlink: return do_unlink(AT_FDCWD, (char *)a[0], false);
    case SYS_rmdir: return do_unlink(AT_FDCWD, (char *)a[0], true);
    case SYS_unlinkat: return do_unlink(a[0], (char *)a[1], a[2] & AT_REMOVEDIR);
    case SYS_mkdir: return do_mkdir(AT_FDCWD, (char *)a[0], a[1]);
    case SYS_mkdirat: return do_mkdir(a[0], (char *)a[1], a[2]);
    case SYS_rename: return do_rename(AT_FDCWD, (char *)a[0], AT_FDCWD, (char *)a[1], 0);
    case SYS_renameat: return do_rename(a[0], (char *)a[1], a[2], (char *)a[3], 0);
    case SYS_renameat2: return do_rename(a[0], (char *)a[1], a[2], (char *)a[3], a[4]);
    case SYS_link: return do_link(AT_FDCWD, (char *)a[0], AT_FDCWD, (char *)a[1], false);
    case SYS_linkat: return do_link(a[0], (char *)a[1], a[2], (char *)a[3], a[4] & AT_SYMLINK_FOLLOW);
    case SYS_symlink: return do_symlink((char *)a[0], AT_FDCWD, (char *)a[1]);
    case SYS_symlinkat: return do_symlink((char *)a[0], a[1], (char *)a[2]);
    case SYS_readlink: case SYS_readlinkat: { const char *p = nr == SYS_readlink ? (char *)a[0] : (char *)a[1]; char *buf = nr == SYS_readlink ? (char *)a[1] : (char *)a[2]; size_t n = nr == SYS_readlink ? a[2] : a[3]; int e; int b = base_of(nr == SYS_readlink ? AT_FDCWD : a[0], p, &e); Walk w; int i = e ? e : walk(b, p, false, &w); if (i == -ENOENT) asked('P', p); if (i < 0) return i; if (G->ino[i].type != T_LNK) return -EINVAL; if (n > G->ino[i].size) n = G->ino[i].size; memcpy(buf, D + G->ino[i].off, n); return n; }
    case SYS_ftruncate: { Ofd *o = ofd(a[0]); if (!o || (o->flags & O_ACCMODE) == O_RDONLY) return -EBADF; if (long e = fault(C_OTHER, o->ino)) return e; return do_trunc(o->ino, a[1]); }
    case SYS_truncate: { Walk w; int i = walk(*(char *)a[0] == '/' ? 0 : S->cwd, (char *)a[0], true, &w); if (long e = fault(C_OTHER, i)) return e; if (i < 0) return i; return do_trunc(i, a[1]); }
    case SYS_fallocate: { Ofd *o = ofd(a[0]); return o ? -EOPNOTSUPP : -EBADF; }
    case SYS_fsync: case SYS_fdatasync: case SYS_syncfs: { Ofd *o = ofd(a[0]); if (!o) return -EBADF; if (long e = fault(C_OTHER, o->ino)) return e; return G->ino[o->ino].type == T_PIPE ? -EINVAL : 0; }
    case SYS_flock: case SYS_fadvise64: case SYS_readahead: return ofd(a[0]) ? 0 : -EBADF;
    case SYS_fcntl: { Ofd *o = ofd(a[0]); if (!o) return -EBADF; switch (a[1]) { case F_GETFD: return 0; case F_SETFD: return 0; case F_GETFL: return o->flags; case F_SETFL: o->flags = (o->flags & O_ACCMODE) | (a[2] & ~O_ACCMODE); return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: { for (int f = a[2]; f < MAXFD; f++) if (S->fd[f] < 0) { S->fd[f] = S->fd[a[0]]; o->refs++; return f; } return -EMFILE; } default: return 0; } }
    case SYS_dup: { Ofd *o = ofd(a[0]); if (!o) return -EBADF; for (int f = 0; f < MAXFD; f++) if (S->fd[f] < 0) { S->fd[f] = S->fd[a[0]]; o->refs++; return f; } return -EMFILE; }
    case SYS_dup2: case SYS_dup3: { Ofd *o = ofd(a[0]); if (!o || a[1] < 0 || a[1] >= MAXFD) return -EBADF; if (a[0] == a[1]) return a[1]; if (ofd(a[1])) do_close(a[1]); S->fd[a[1]] = S->fd[a[0]]; o->refs++; return a[1]; }
    case SYS_ioctl: { Ofd *o = ofd(a[0]); if (!o) return -EBADF; if (G->ino[o->ino].type != T_TTY) return -ENOTTY; if (a[1] == 0x5401) { memset((void *)a[2], 0, 36); return 0; } if (a[1] == 0x5413) { u16 *w = (u16 *)a[2]; w[0] = 24; w[1] = 80; w[2] = w[3] = 0; return 0; } return -EINVAL; }
    case SYS_poll: case SYS_ppoll: return a[1];
    case SYS_getcwd: { if (long e = fault(C_CWD, -1)) return e; char p[4096]; size_t l = path_of(S->cwd, p, sizeof p); if (l + 1 > (size_t)a[1]) return -ERANGE; memcpy((char *)a[0], p, l + 1); return l + 1; }
    case SYS_chdir: { Walk w; int i = walk(*(char *)a[0] == '/' ? 0 : S->cwd, (char *)a[0], true, &w); if (i < 0) return i; if (G->ino[i].type != T_DIR) return -ENOTDIR; S->cwd = i; return 0; }
    case SYS_fchdir: { Ofd *o = ofd(a[0]); if (!o) return -EBADF; if (G->ino[o->ino].type != T_DIR) return -ENOTDIR; S->cwd = o->ino; return 0; }
    case SYS_chmod: { Walk w; int i = walk(*(char *)a[0] == '/' ? 0 : S->cwd, (char *)a[0], true, &w); if (long e = fault(C_OTHER, i)) return e; if (i < 0) return i; G->ino[i].mode = a[1] & 07777; return 0; }
    case SYS_fchmodat: { int e; int b = base_of(a[0], (char *)a[1], &e); Walk w; int i = e ? e : walk(b, (char *)a[1], true, &w); if (long x = fault(C_OTHER, i)) return x; if (i < 0) return i; G->ino[i].mode = a[2] & 07777; return 0; }
    case SYS_fchmod: { Ofd *o = ofd(a[0]); if (!o) return -EBADF; if (long e = fault(C_OTHER, o->ino)) return e; G->ino[o->ino].mode = a[1] & 07777; return 0; }
    case SYS_chown: case SYS_lchown: case SYS_fchown: case SYS_fchownat: case SYS_utimensat: case SYS_utimes: case SYS_utime: case SYS_futimesat: return 0;
    case SYS_umask: { u32 o = S->umask_; S->umask_ = a[0] & 0777; return o; }
    case SYS_getdents64: { Ofd *o = ofd(a[0]); if (!o) return -EBADF; if (G->ino[o->ino].type != T_DIR) return -ENOTDIR; if (long e = fault(C_READ, o->ino)) return e; char *b = (char *)a[1]; size_t l = 0; u32 k = o->dirpos; for (; k < G->ndent; k++) { Dent &d = G->dent[k]; if (!d.used || d.dir != o->ino) continue; size_t rl = (19 + d.len + 1 + 7) & ~7u; if (l + rl > (size_t)a[2]) break; struct dirent64 *de = (struct dirent64 *)(b + l); de->d_ino = 1000 + d.ino; de->d_off = k + 1; de->d_reclen = rl; u8 t = G->ino[d.ino].type; de->d_type = t == T_DIR ? DT_DIR : t == T_LNK ? DT_LNK : t == T_FILE ? DT_REG : DT_UNKNOWN; memcpy(de->d_name, D + d.name, d.len + 1); l += rl; } o->dirpos = k; return l; }
    case SYS_sendfile: case SYS_copy_file_range: { long in = nr == SYS_sendfile ? a[1] : a[0], out = nr == SYS_sendfile ? a[0] : a[2]; size_t n = nr == SYS_sendfile ? a[3] : a[4]; if ((nr == SYS_sendfile && a[2]) || (nr != SYS_sendfile && (a[1] || a[3]))) return -EINVAL; Ofd *i = ofd(in); if (!i) return -EBADF; char buf[4096]; if (n > sizeof buf) n = sizeof buf; u64 p = i->pos; long r = do_read(in, buf, n, -1); if (r <= 0) return r; long w = do_write(out, buf, r, -1); if (w < 0) { i->pos = p; return w; } i->pos = p + w; return w; }
    case SYS_mmap: { Ofd *o = ofd(a[4]); if (!o) return -EBADF; if (G->ino[o->ino].type != T_FILE) return -ENODEV; if (long e = fault(C_READ, o->ino)) return e; long p = raw(SYS_mmap, a[0], a[1], PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p < 0 && p > -4096) return p; Ino &i = G->ino[o->ino]; if ((u64)a[5] < i.size) { size_t k = i.size - a[5]; if (k > (size_t)a[1]) k = a[1]; memcpy((void *)p, D + i.off + a[5], k); } return p; }
    case SYS_time: { long t = secs(now()); if (a[0]) *(long *)a[0] = t; return t; }
    case SYS_clock_gettime: { u64 t = now(); ((timespec *)a[1])->tv_sec = secs(t); ((timespec *)a[1])->tv_nsec = t % 1000000000; return 0; }
    case SYS_gettimeofday: { u64 t = now(); if (a[0]) { ((timeval *)a[0])->tv_sec = secs(t); ((timeval *)a[0])->tv_usec = t % 1000000000 / 1000; } return 0; }
    case SYS_clock_nanosleep: case SYS_nanosleep: { timespec *t = (timespec *)(nr == SYS_nanosleep ? a[0] : a[2]); S->clock += t->tv_sec * 1000000000ull + t->tv_nsec; return 0; }
    case SYS_getrandom: { u8 *b = (u8 *)a[0]; for (long i = 0; i < a[1]; i++) b[i] = rnd(); return a[1]; }
    case SYS_getpid: case SYS_gettid: case SYS_getpgrp: case SYS_getsid: return 4242 + S->ident % 30000 + S->slot;
    case SYS_getppid: return S->ident ? 1 : 4241;
    case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: return 1000 + S->ident % 3;
    case SYS_uname: { struct utsname *u = (struct utsname *)a[0]; memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, S->ident ? "buildhost-b" : "sim"); strcpy(u->release, S->ident ? "4.19.0-x" : "6.0.0"); strcpy(u->version, S->ident ? "#7 SMP" : "1"); strcpy(u->machine, "x86_64"); return 0; }
    case SYS_prlimit64: case SYS_getrlimit: { rlimit *r = (rlimit *)(nr == SYS_getrlimit ? a[1] : a[3]); if (r) { r->rlim_cur = 8 << 20; r->rlim_max = RLIM_INFINITY; } return 0; }
    case SYS_sched_yield: case SYS_alarm: case SYS_sync: return 0;
    case SYS_sysinfo: case SYS_sched_getaffinity: return -ENOSYS;
    default: S->unknown = nr; return -ENOSYS;
    }
    (void)lino;
}

static void on_sigsys(int, siginfo_t *si, void *uc)
{
    ucontext_t *u = (ucontext_t *)uc; greg_t *g = u->uc_mcontext.gregs; long nr = si->si_syscall; long a[6] = { g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9] }; long r;
    switch (nr) {
    case SYS_brk: case SYS_mremap: if (nr == SYS_mremap || a[0]) if (fault(C_MEM, -1)) { g[REG_RAX] = nr == SYS_brk ? raw(SYS_brk, 0) : -ENOMEM; return; } g[REG_RAX] = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); return;
    case SYS_mmap: if (a[3] & MAP_ANONYMOUS) { if (fault(C_MEM, -1)) { g[REG_RAX] = -ENOMEM; return; } g[REG_RAX] = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); return; } break;
    case SYS_munmap: case SYS_mprotect: case SYS_madvise: case SYS_rt_sigprocmask: case SYS_sigaltstack: case SYS_arch_prctl: case SYS_set_robust_list: case SYS_rseq:
        g[REG_RAX] = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); return;
    case SYS_futex: g[REG_RAX] = (a[1] & 127) == 0 || (a[1] & 127) == 9 ? (finish(H_HANG, 0, "blocked on a lock that nobody else can release"), 0) : raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); return;
    case SYS_rt_sigaction: g[REG_RAX] = 0; return;   /* signal dispositions: none is ever delivered from outside */
    case SYS_exit_group: case SYS_exit: mix(0xEE00 + (a[0] & 255)); finish(H_EXIT, a[0] & 255, nullptr); return;
    case SYS_kill: case SYS_tkill: case SYS_tgkill: finish(H_SIGNAL, nr == SYS_tgkill ? a[2] : a[1], "the program sent itself a signal"); return;
    }
    preempt(S->slot);
    if (++S->steps > S->budget) finish(H_HANG, 0, "step budget exhausted");
    S->clock += S->tick;
    for (int i = 0; i < S->nev; i++) if (!S->ev[i].done && S->ev[i].step == S->steps) apply_event(S->ev[i]);
    g_short = 0; g_kill_mid = g_kill_after = false; 
    if (fault(C_ANY, -1)) {}
    bool mid = g_kill_mid; if (mid && nr != SYS_write && nr != SYS_writev && nr != SYS_pwrite64) finish(H_KILLED, 0, "killed");
    r = emulate(nr, a, nullptr);
    mix(nr); mix(nr == SYS_mmap ? (r < 0 && r > -4096) : r);
    if (S->wantlog && S->nlog < MAXLOG) { Log &l = S->log[S->nlog++]; l.nr = nr; l.arg = a[0]; l.ret = r; l.ino = ofd(a[0]) ? S->ofd[S->fd[a[0]]].ino : -1; }
    if (g_kill_after || mid) finish(H_KILLED, 0, "killed");
    g[REG_RAX] = r;
}

/* ---- interposed libc entry points that never enter the kernel ---- */
static inline bool on() { return S && S->live; }
extern "C" time_t time(time_t *t) noexcept { if (!on()) { timespec ts; raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); if (t) *t = ts.tv_sec; return ts.tv_sec; } time_t v = secs(now()); mix(v); if (t) *t = v; return v; }
extern "C" int clock_gettime(clockid_t c, timespec *ts) noexcept { if (!on()) return raw(SYS_clock_gettime, c, (long)ts); u64 t = now(); ts->tv_sec = secs(t); ts->tv_nsec = t % 1000000000; return 0; }
extern "C" int gettimeofday(timeval *tv, void *) noexcept { if (!on()) return raw(SYS_gettimeofday, (long)tv); u64 t = now(); tv->tv_sec = secs(t); tv->tv_usec = t % 1000000000 / 1000; return 0; }
extern "C" char *getenv(const char *n) noexcept
{
    size_t l = strlen(n); if (environ && l) for (char **e = environ; *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    if (on()) asked('E', n);
    return nullptr;
}
extern "C" char *secure_getenv(const char *n) noexcept { return getenv(n); }
extern "C" int timespec_get(timespec *ts, int b) noexcept { clock_gettime(CLOCK_REALTIME, ts); return b; }

static bool mem_fault(size_t n)
{
    if (!on()) return false;
    if (fault(C_MALLOC, -1)) { errno = ENOMEM; return true; }
    if (n >= 8192 && fault(C_BIGM, -1)) { errno = ENOMEM; return true; }
    if (S->memlimit && (long)n > S->memlimit) { errno = ENOMEM; return true; }
    return false;
}
/* ---- memory layout: small blocks at addresses in falling or scattered order, never used again ---- */
static const size_t RGN = 8u << 20; static char *arena; static u32 acount[8]; static u64 amul, aadd;
static bool in_arena(const void *p) { return arena && (const char *)p >= arena && (const char *)p < arena + 8 * RGN; }
static void arena_init()
{
    if (!S->layout) return;
    long p = raw(SYS_mmap, 0, 8 * RGN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p < 0 && p > -4096) return;
    u64 z = S->ident * 0x9E3779B97F4A7C15ull + 99; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32; amul = z | 1; aadd = z >> 7; arena = (char *)p;
}
static void *amalloc(size_t n)
{
    if (!arena || !on() || n > 4080) return nullptr;
    int c = 0; size_t sz = 32; while (sz < n + 16) { sz <<= 1; c++; }
    u32 slots = RGN / sz, k = acount[c]; if (k >= slots / 2) return nullptr; acount[c]++;
    u32 s = S->layout == 1 ? slots - 1 - k : (u32)((k * amul + aadd) & (slots - 1)); char *p = arena + c * RGN + (size_t)s * sz; *(size_t *)p = n; return p + 16;
}
static size_t msize(void *p) { return in_arena(p) ? *(size_t *)((char *)p - 16) : malloc_usable_size(p); }
static void *paint(void *p, size_t n) { if (p && on() && S->poison >= 0) { memset(p, S->poison, n); S->fill_bytes += n; } return p; }
extern "C" void *malloc(size_t n) noexcept { if (mem_fault(n)) return nullptr; void *p = amalloc(n); return paint(p ? p : __libc_malloc(n), n); }
extern "C" void free(void *p) noexcept { if (p && on() && S->poison >= 0) { int e = errno; size_t n = msize(p); memset(p, S->poison ^ 0x5a, n); errno = e; } if (!in_arena(p)) __libc_free(p); }
extern "C" void *calloc(size_t a, size_t b) noexcept { if (mem_fault(a * b)) return nullptr; size_t t; void *p = __builtin_mul_overflow(a, b, &t) ? nullptr : amalloc(t); if (p) return memset(p, 0, t); return __libc_calloc(a, b); }
extern "C" void *realloc(void *p, size_t n) noexcept
{
    if (mem_fault(n)) return nullptr; if (!arena || !on() || (p && !in_arena(p))) return __libc_realloc(p, n);
    void *q = amalloc(n ? n : 1); if (!q) q = __libc_malloc(n); if (q && p) { size_t o = msize(p); memcpy(q, p, o < n ? o : n); } return q;
}
extern "C" void *memalign(size_t al, size_t n) noexcept { if (mem_fault(n)) return nullptr; return paint(__libc_memalign(al, n), n); }
extern "C" void *aligned_alloc(size_t al, size_t n) noexcept { return memalign(al, n); }
extern "C" int posix_memalign(void **r, size_t al, size_t n) noexcept { void *p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }

/* ---- child ---- */
struct ksigaction { void (*h)(int, siginfo_t *, void *); unsigned long flags; void (*restorer)(); unsigned long mask; };
static bool use_seccomp;
static int intercept()
{
    ksigaction sa; memset(&sa, 0, sizeof sa); sa.h = on_sigsys; sa.flags = SA_SIGINFO | 0x04000000 | SA_NODEFER; sa.restorer = sim_restorer;
    if (raw(SYS_rt_sigaction, SIGSYS, (long)&sa, 0, 8)) return -1;
    static u8 sel = 1; long b = (long)(void *)&sim_raw, e = (long)(void *)sim_end;
    if (!use_seccomp) { sel = 1; return raw(SYS_prctl, 59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, b, e - b + 1, (long)&sel); }
    sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 4),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer)), BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (u32)b, 0, 2), BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, (u32)e, 1, 0),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP) };
    sock_fprog pr = { sizeof f / sizeof *f, f };
    if (raw(SYS_prctl, PR_SET_NO_NEW_PRIVS, 1)) return -1;
    return raw(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, (long)&pr);
}
static __attribute__((noinline)) void dirty_stack(int v) { volatile char b[96 * 1024]; for (size_t i = 0; i < sizeof b; i++) b[i] = v; }
static void child()
{
    rlimit r = { 30, 30 }; raw(SYS_setrlimit, RLIMIT_CPU, (long)&r); r = { 0, 0 }; raw(SYS_setrlimit, RLIMIT_CORE, (long)&r);
    itimerval it = {}; it.it_value.tv_sec = 40; raw(SYS_setitimer, ITIMER_REAL, (long)&it);
    environ = S->envp; program_invocation_name = S->argv[0]; char *sl = strrchr(S->argv[0], '/'); program_invocation_short_name = sl ? sl + 1 : S->argv[0];
    if (intercept()) { S->how = H_OOB; strcpy(S->note, "cannot intercept system calls"); raw(SYS_exit_group, 9); }
    dirty_stack(S->stackfill); arena_init();
    { u64 c = 0x9e3779b97f4a7c15ull * (u64)(S->stackfill + 3) & ~0xffull; __asm__ volatile("movq %0, %%fs:0x28" : : "r"(c)); }   // stack canaries are random otherwise, and end up in uninitialised variables (this function never returns)
    if (G->nproc > 1) await(S->slot);
    S->live = 1;
    int rc = S->prog ? packer_main(S->argc, S->argv) : gendlopen_main(S->argc, S->argv);
    exit(rc);
}

/* ---- parent: plan parsing, no heap, no stdio ---- */
static char ib[1 << 16]; static size_t ih, it_;
static int getb() { if (ih == it_) { long n = raw(SYS_read, 0, (long)ib, sizeof ib); if (n <= 0) return -1; ih = 0; it_ = n; } return (u8)ib[ih++]; }
static bool getline_(char *b, size_t cap) { size_t n = 0; int c; while ((c = getb()) != '\n') { if (c < 0) return false; if (n + 1 < cap) b[n++] = c; } b[n] = 0; return true; }
static u32 g_bump;
static u32 blob(u32 len) { if ((size_t)g_bump + len + 1 > PLANBUF) { raw(SYS_exit_group, 8); } u32 o = g_bump; for (u32 i = 0; i < len; i++) PB[o + i] = getb(); PB[o + len] = 0; g_bump += len + 1; return o; }
static char ob[1 << 16]; static size_t on_;
static void oflush() { size_t d = 0; while (d < on_) { long n = raw(SYS_write, 1, (long)(ob + d), on_ - d); if (n <= 0) raw(SYS_exit_group, 7); d += n; } on_ = 0; }
static void out(const char *p, size_t n) { while (n) { size_t k = sizeof ob - on_; if (k > n) k = n; memcpy(ob + on_, p, k); on_ += k; p += k; n -= k; if (on_ == sizeof ob) oflush(); } }
static void outs(const char *s) { out(s, strlen(s)); }
static void outn(long v) { char b[24]; int i = 23; b[i] = 0; bool neg = v < 0; unsigned long u = neg ? -(unsigned long)v : v; do b[--i] = '0' + u % 10; while (u /= 10); if (neg) b[--i] = '-'; outs(b + i); }
static void outx(u64 v) { char b[17]; for (int i = 15; i >= 0; i--) { b[i] = "0123456789abcdef"[v & 15]; v >>= 4; } b[16] = 0; outs(b); }

static void fs_reset() { G->ninode = G->ndent = 0; G->bump = 16; G->disk_used = 0; inew(T_DIR, 0755); G->ino[0].parent = 0; G->ino[0].nlink = 1; }
static void add_node(int type, int mode, const char *path, const char *data, u32 dlen)
{
    Walk w; char p[1024]; size_t l = strlen(path); if (l >= sizeof p) return; strcpy(p, path);
    for (char *s = p + 1; *s; s++) if (*s == '/') { *s = 0; int i = walk(0, p, false, &w); if (i == -ENOENT && w.parent >= 0) { int d = inew(T_DIR, 0755); dadd(w.parent, w.last, w.len, d); } *s = '/'; }
    int i = walk(0, p, false, &w); if (i >= 0) { G->ino[i].mode = mode; return; } if (w.parent < 0) return;
    if (type == 100) { Walk w2; int t = walk(0, data, false, &w2); if (t >= 0) dadd(w.parent, w.last, w.len, t); return; }
    int n = inew(type, mode); u64 h = 14695981039346656037ull; for (const char *q = path; *q; q++) h = (h ^ (u8)*q) * 1099511628211ull;
    G->ino[n].mtime = S->clock - (S->clock > 1000000ull * 1000000000ull ? h % (864000ull * 1000000000ull) : 0); if (type == T_FILE || type == T_LNK || type == T_FIFO) iset(n, data, dlen); if (type == T_FILE) G->disk_used += dlen; dadd(w.parent, w.last, w.len, n);
}
static void dump_dir(int dir, char *path, size_t l)
{
    static const char *tn[] = {"none", "file", "dir", "link", "fifo", "null", "full", "pipe", "tty"};
    for (u32 k = 0; k < G->ndent; k++) {
        Dent &d = G->dent[k]; if (!d.used || d.dir != dir || l + d.len + 2 > 4000) continue;
        size_t m = l; path[m++] = '/'; memcpy(path + m, D + d.name, d.len); m += d.len; path[m] = 0; Ino &i = G->ino[d.ino]; bool dat = i.type == T_FILE || i.type == T_LNK;
        outs("node "); outs(tn[i.type]); outs(" "); outn(i.mode); outs(" "); outn(d.ino); outs(" "); outn(m); outs(" "); outn(dat ? i.size : 0); outs("\n"); out(path, m); if (dat) out(D + i.off, i.size);
        if (i.type == T_DIR) dump_dir(d.ino, path, m);
    }
}
static void plan_reset()
{
    if (!S->slot) g_bump = 0; S->argc = S->envc = 0; S->nf = S->nev = 0; S->prog = 0; S->chunk_seed = 0; S->chunk_max = 0; S->poison = -1; S->stackfill = 0; S->clock = 1700000000000000000ull; S->epoch = 0; S->tick = 1000; S->disk = 0; S->budget = 1500000; S->enforce = 1; S->jump_nth = 0; S->jump_by = 0; S->wantlog = 0; S->fdlimit = MAXFD; S->memlimit = 0; S->ident = 0; S->layout = 0;
}
/* where standard input, output and error of a process lead */
struct Std { long in_off; int in_kind, out_kind, err_kind; u32 in_data, in_len, outp, outl, cwdp, cwdl; int extra; };
static void prepare(const Std &d)
{
    S->argv[S->argc] = nullptr; S->envp[S->envc] = nullptr; S->rng = S->chunk_seed * 2654435761u + 12345 + S->ident * 0x9E3779B97F4A7C15ull + S->slot * 0xD6E8FEB86659FD93ull; S->umask_ = 022;
    if (S->disk) S->disk += G->disk_used;
    for (int i = 0; i < MAXFD; i++) { S->fd[i] = -1; S->ofd[i].used = 0; }
    S->sink1 = S->sink2 = S->src0 = -1; Walk ww; S->cwd = 0; if (d.cwdl) { int c = walk(0, PB + d.cwdp, true, &ww); if (c >= 0 && G->ino[c].type == T_DIR) S->cwd = c; }
    /* descriptors 0..2.  kind: 0 pipe, 1 regular file, 2 closed, 3 /dev/full, 4 /dev/null */
    int i0 = inew(d.in_kind == 1 ? T_FILE : d.in_kind == 4 ? T_NULL : d.in_kind == 5 ? T_TTY : T_PIPE, 0600); if (d.in_len) iset(i0, PB + d.in_data, d.in_len); S->src0 = i0;
    S->ofd[0] = Ofd{1, i0, (u64)d.in_off, O_RDONLY, 1, 0, 0}; S->fd[0] = d.in_kind == 2 ? -1 : 0;
    int i1; if (d.out_kind == 1 && d.outl) { int t = walk(0, PB + d.outp, true, &ww); if (t < 0 && ww.parent >= 0) { t = inew(T_FILE, 0644); dadd(ww.parent, ww.last, ww.len, t); } i1 = t; } else i1 = inew(d.out_kind == 3 ? T_FULL : d.out_kind == 4 ? T_NULL : d.out_kind == 5 ? T_TTY : T_PIPE, 0600);
    S->sink1 = i1; S->ofd[1] = Ofd{1, i1, 0, O_WRONLY, 1, 0, 0}; S->fd[1] = d.out_kind == 2 ? -1 : 1; S->ofd[1].used = 1;
    int i2 = inew(d.err_kind == 3 ? T_FULL : T_PIPE, 0600); S->sink2 = i2; S->ofd[2] = Ofd{1, i2, 0, O_WRONLY, 1, 0, 0}; S->fd[2] = d.err_kind == 2 ? -1 : 2;
    for (int x = 0; x < d.extra; x++) { int ni = inew(T_NULL, 0600); if (ni >= 0) { int f = newfd(ni, O_RDWR); (void)f; } }
    S->steps = 0; memset(S->count, 0, sizeof S->count); S->how = H_NONE; S->code = 0; S->note[0] = 0; S->hash = 1469598103934665603ull; S->ntimes = 0; S->clock_start = S->clock; S->nlog = 0; S->unknown = 0; S->shorts = 0; S->fill_bytes = 0; S->live = 0; S->nasked = 0;
}
static void run_children()
{
    long pid[2] = {}; int n = G->nproc, st;
    for (int k = 0; k < n; k++) { G->alive[k] = 1; P[k].live = 0; }
    for (int k = 0; k < n; k++) { S = &P[k]; pid[k] = raw(SYS_fork); if (pid[k] == 0) child(); }
    for (int left = n; left; ) {
        long p = raw(SYS_wait4, -1, (long)&st, 0, 0); if (p < 0) { if (p == -EINTR) continue; break; }
        int k = n > 1 && p == pid[1]; S = &P[k]; left--; S->live = 0; leave(k);
        if (S->how == H_NONE) { if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); S->how = sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL ? H_HANG : H_SIGNAL; S->code = sg; strcpy(S->note, sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL ? "no end within the time limit" : "died from a signal"); } else { S->how = H_OOB; S->code = WEXITSTATUS(st); strcpy(S->note, "left the simulation"); } }
    }
}
static void report()
{
    static const char *hn[] = {"none", "exit", "signal", "hang", "killed", "oob"};
    outs("res "); outs(hn[S->how]); outs(" "); outn(S->code); outs(" "); outn(S->steps); outs(" "); outx(S->hash); outs(" "); outn(S->clock_start / 1000000000); outs(" "); outn(S->clock / 1000000000); outs(" "); outn(S->unknown); outs(" "); outn(S->shorts); outs(" "); outn((S->clock - S->clock_start) / 1000); outs("\n");
    outs("note "); outs(S->note); outs("\n");
    outs("count"); for (int i = 0; i < C_N; i++) { outs(" "); outs(cls_name[i]); outs("="); outn(S->count[i]); } outs("\n");
    outs("fired"); for (int i = 0; i < S->nf; i++) { outs(" "); outn(S->f[i].fired); } outs("\n");
    outs("times"); for (int i = 0; i < S->ntimes; i++) { outs(" "); outn(S->times[i]); } outs("\n");
    for (int s = 1; s <= 2; s++) { Ino &i = G->ino[s == 1 ? S->sink1 : S->sink2]; u32 n = i.type == T_PIPE || i.type == T_TTY ? i.size : 0; outs("out "); outn(s); outs(" "); outn(n); outs("\n"); out(D + i.off, n); }
    for (u32 i = 0; i < S->nasked; ) { size_t n = strlen(S->asked + i); outs("asked "); outn(n); outs("\n"); out(S->asked + i, n); i += n + 1; }
    if (S->wantlog) { for (int i = 0; i < S->nlog; i++) { outs("log "); outn(S->log[i].nr); outs(" "); outn(S->log[i].ino); outs(" "); outn(S->log[i].ret); outs("\n"); } }
    if (G->nproc > 1 && !S->slot) { outs("sched"); for (int i = 0; i < G->nsw; i++) { outs(" "); outn(G->sw[i]); } outs("\n"); }
    if (S->slot == G->nproc - 1) { static char path[4200]; dump_dir(0, path, 0); }
    outs("end\n");
}
int main(int argc, char **argv)
{
    int pers = personality(0xffffffff); if (!(pers & ADDR_NO_RANDOMIZE)) { personality(pers | ADDR_NO_RANDOMIZE); if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); } }
    use_seccomp = argc > 1 && !strcmp(argv[1], "seccomp");
    P = (Shm *)mmap(nullptr, (2 * sizeof(Shm) + 4095) & ~4095ul, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    G = (Fs *)mmap(nullptr, (sizeof(Fs) + 4095) & ~4095ul, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    D = (char *)mmap(nullptr, DATA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    PB = (char *)mmap(nullptr, PLANBUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (P == MAP_FAILED || G == MAP_FAILED || D == MAP_FAILED || PB == MAP_FAILED) return 9;
    S = &P[1]; S->slot = 1; S = &P[0]; G->nproc = 1; fs_reset(); plan_reset();
    Std std_[2] = {}; Std *d = std_;
    char line[512];
    while (getline_(line, sizeof line)) {
        long v[8] = {}; char k[64] = ""; sscanf(line, "%63s %ld %ld %ld %ld %ld %ld %ld %ld", k, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7);
        if (!strcmp(k, "fs")) fs_reset();
        else if (!strcmp(k, "plan")) { S = &P[v[0] == 1]; d = &std_[v[0] == 1]; G->nproc = 1; plan_reset(); *d = Std{}; }
        else if (!strcmp(k, "prog")) S->prog = v[0];
        else if (!strcmp(k, "arg")) { u32 o = blob(v[0]); if (S->argc < MAXARG) S->argv[S->argc++] = PB + o; }
        else if (!strcmp(k, "env")) { u32 o = blob(v[0]); if (S->envc < MAXARG) S->envp[S->envc++] = PB + o; }
        else if (!strcmp(k, "node")) { u32 keep = g_bump; u32 p = blob(v[2]), q = blob(v[3]); add_node(v[0], v[1], PB + p, PB + q, v[3]); g_bump = keep; }
        else if (!strcmp(k, "stdin")) { d->in_kind = v[0]; d->in_len = v[1]; d->in_off = v[2]; d->in_data = blob(v[1]); }
        else if (!strcmp(k, "stdout")) { d->out_kind = v[0]; d->outl = v[1]; d->outp = blob(v[1]); }
        else if (!strcmp(k, "stderr")) d->err_kind = v[0];
        else if (!strcmp(k, "cwd")) { d->cwdl = v[0]; d->cwdp = blob(v[0]); }
        else if (!strcmp(k, "fault")) { if (S->nf < MAXF) S->f[S->nf++] = Fault{(int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4], (int)v[5], 0, -2, 0}; }
        else if (!strcmp(k, "event")) { u32 p = blob(v[2]), q = blob(v[3]); if (S->nev < MAXEV) S->ev[S->nev++] = Event{(int)v[0], (int)v[1], 0, p, (u32)v[2], q, (u32)v[3]}; }
        else if (!strcmp(k, "chunk")) { S->chunk_seed = v[0]; S->chunk_max = v[1]; }
        else if (!strcmp(k, "poison")) { S->poison = v[0]; S->stackfill = v[1]; }
        else if (!strcmp(k, "ident")) { S->ident = v[0]; S->layout = v[1]; }
        else if (!strcmp(k, "clock")) { bool far = v[0] < 0 || v[0] > 10000000000; S->epoch = far ? v[0] - 1000000000 : 0; S->clock = (u64)(far ? 1000000000 : v[0]) * 1000000000ull + v[1]; S->tick = v[2] ? v[2] : 1000; }
        else if (!strcmp(k, "jump")) { S->jump_nth = v[0]; S->jump_by = v[1]; }
        else if (!strcmp(k, "disk")) S->disk = v[0];
        else if (!strcmp(k, "budget")) S->budget = v[0];
        else if (!strcmp(k, "fdlimit")) S->fdlimit = v[0];
        else if (!strcmp(k, "memlimit")) S->memlimit = v[0];
        else if (!strcmp(k, "extrafds")) d->extra = v[0];
        else if (!strcmp(k, "log")) S->wantlog = v[0];
        else if (!strcmp(k, "quit")) break;
        else if (!strcmp(k, "odds")) { G->odds = v[0]; G->srng = (u64)v[1] * 0xD1342543DE82EF95ull + 77; }
        else if (!strcmp(k, "switch")) { if (G->npt < MAXSW) G->pt[G->npt++] = v[0]; }
        else if (!strcmp(k, "noswitch")) { G->npt = 0; G->odds = 0; }
        else if (!strcmp(k, "run") || !strcmp(k, "run2")) {
            G->nproc = k[3] ? 2 : 1; G->turn = v[0] == 1; G->gstep = G->nsw = 0;
            for (int i = 0; i < G->nproc; i++) { S = &P[i]; prepare(std_[i]); }
            run_children();
            for (int i = 0; i < G->nproc; i++) { S = &P[i]; report(); }
            oflush(); S = &P[0]; G->nproc = 1;
        }
    }
    return 0;
}
