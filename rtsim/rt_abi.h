/* Interface between the simulator (engine.cpp) and one generated configuration
 * (adapter compiled against the generated header, plus the target library stubs). */
#ifndef RT_ABI_H
#define RT_ABI_H
#include <stdint.h>
#include <stddef.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { RT_C = 0, RT_CXX = 1, RT_PLUGIN = 2, RT_MIN = 3, RT_MINCXX = 4 };
enum { RT_RAW = 0, RT_WRAP = 1, RT_AUTO = 2, RT_LAZY = 3 };

#define RT_MAXV 40
#define RT_NLIB 6     /* number of distinct target library variants */

/* one call of a target function, as seen by the caller */
typedef struct RtCall {
    uint64_t seed;           /* in: argument and return values derive from it */
    uint64_t v[RT_MAXV];     /* out: argument values passed */
    int      n;
    uint64_t want_ret;       /* out: value the target is expected to return */
    uint64_t got_ret;        /* out: value received */
    int      has_ret;
    int      done;           /* out: the call returned */
} RtCall;

typedef struct RtSym {
    const char *name;
    int   is_obj;
    int   has_hook;          /* 0 none, 1 hook once, 2 hook that calls the target itself */
    int   varargs;
    int   inlined_only;      /* alias not callable in this configuration */
    int   load_num;
    void *(*getptr)(void);
    void  (*call[2])(RtCall *);       /* from TU 1 and TU 2 */
    uint64_t (*objread)(void);
    void  (*objwrite)(uint64_t);
} RtSym;

typedef struct RtApi {
    /* C */
    int  (*load_lib)(void);
    int  (*load_lib_and_symbols)(void);
    int  (*load_lib_name)(const char *);
    int  (*load_lib_name_and_symbols)(const char *);
    int  (*load_lib_args)(const char *, int, int);
    int  (*is_loaded)(void);
    int  (*free_lib)(void);
    void (*force_free)(void);
    int  (*autorelease)(void);
    int  (*load_all)(void);
    int  (*load_num)(int);
    int  (*load_name)(const char *);
    int  (*all_loaded)(void);
    int  (*no_loaded)(void);
    int  (*any_loaded)(void);
    const char *(*last_error)(void);
    const char *(*lib_path)(void);

    /* C++ (i = instance) */
    void *(*x_new)(void);
    void *(*x_new_args)(const char *, int nargs, int flags, int ns);
    void  (*x_delete)(void *i);
    int   (*x_load)(void *i, const char *, int nargs, int flags, int ns);
    int   (*x_load0)(void *i);
    int   (*x_load_lib_and_symbols)(void *i);
    int   (*x_flags)(void *i);
    int   (*x_load_all)(void *i);
    int   (*x_load_num)(void *i, int);
    int   (*x_load_name)(void *i, const char *);
    int   (*x_all)(void *i);
    int   (*x_no)(void *i);
    int   (*x_any)(void *i);
    int   (*x_free)(void *i, int nargs, int force);
    void  (*x_set_dtor)(void *i, int);
    int   (*x_get_dtor)(void *i);
    void  (*x_filename)(void *i, char *buf, size_t n);
    void  (*x_error)(void *i, char *buf, size_t n);
    void  (*x_path)(void *i, char *buf, size_t n);
    void  (*x_set_cb)(void (*cb)(const char *));
    void *(*x_get_cb)(void);
    void  (*x_libname)(const char *, size_t, char *buf, size_t n);
    void  (*x_libext)(char *buf, size_t n);

    /* plugin */
    void *(*p_load)(const char **, size_t);
    void  (*p_release)(void *);
    size_t (*p_num)(void *);
    const char *(*p_filename)(void *, size_t);
    void *(*p_handle)(void *, size_t);
    void *(*p_ptr)(void *, size_t, int sym);
    void  (*p_call)(void *, size_t, int sym, RtCall *);

    /* minimal: returns 0 on success, 1 library error, 2 symbol error, 3 anything else */
    int  (*m_load)(const char *, char *buf, size_t n);
    void (*m_free)(void);
} RtApi;

typedef struct RtConfig {
    const char *id;
    int format;              /* RT_C ... */
    int wrap;                /* RT_RAW ... */
    int is_static_cxx_hdr;
    int nsym;
    const RtSym *sym;
    const RtApi *api;
    int default_flags;
    int nflags; int (*flag_user)(int); const int *flag_true;   // named flags: what the user's program sees, what the platform means
    int enum_last;
    int buflen;
    const char *default_lib; /* expected default library name, or NULL */
    const char *common_prefix;
    void *(*target)(int lib, int sym);      /* address of target stub/object */
    void  (*objset)(int lib, int sym, uint64_t);
    uint64_t (*objget)(int lib, int sym);
    /* simulated platform */
    const char *plat;
    int win;                 /* 0 no, 1 Windows API, 2 dlopen() on Windows */
    int wide;                /* gdo_char_t is wchar_t */
    int has_ns, has_dlinfo, has_dladdr, pmq;
    int aix;
    const char *libext;
    const char *libname_pre, *libname_mid, *libname_post;    /* mid NULL: the API number is not used */
    void (*aixrange)(int lib, void **text, void **text_end, void **data, void **data_end);
} RtConfig;

extern RtConfig rt_config;

/* provided by the engine */
void rt_target_called(int lib, int sym, const uint64_t *v, int n);
void sh_target_called(int lib, int sym, const uint64_t *v, int n);      /* target of the second API */
uint64_t rt_ret_seed(void);
void rt_hook_called(int sym, const uint64_t *v, int n);
const wchar_t *rt_to_wide(const char *);       /* valid for a few calls only */
const char *rt_to_narrow(const wchar_t *);
extern int rt_variant, rt_wsel;                /* Windows API, C++: overload to use, wide accessors */

#ifdef __cplusplus
}
#endif
#endif
