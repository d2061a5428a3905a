//@family base=wasi
//@stub *toywasm_mutex_lock it takes the lock; that the lock is not held is an obligation
//@stub *toywasm_mutex_unlock it gives the lock back; that it is held is an obligation
//@stub *toywasm_cv_signal no effect on this thread
//@stub *toywasm_cv_timedwait other threads may drop their references, or close descriptors
//@stub *abstime_from_reltime_ms it gives any time (P24)
//@stub *check_interrupt it gives any result (P28)
//@stub *_vec_resize (P32) it fails without effect, or makes room with zeroed elements
//@stub *wasi_fdinfo_close it closes the object, once (jobs h_fdinfo_*)
//@stub *wasi_fdinfo_free it frees the object, once (jobs h_fdinfo_*)
/*
 * The descriptor table.  State: up to 3 descriptors, each a separate object,
 * referenced by its slot and by the other threads using it.  A step from any
 * such state keeps this.
 */
#define V_N_toywasm_mutex_lock real_toywasm_mutex_lock
#define V_N_toywasm_mutex_unlock real_toywasm_mutex_unlock
#define V_N_toywasm_cv_signal real_toywasm_cv_signal
#define V_N_toywasm_cv_timedwait real_toywasm_cv_timedwait
#define V_N_abstime_from_reltime_ms real_abstime_from_reltime_ms
#define V_N_check_interrupt real_check_interrupt
#define V_N__vec_resize real__vec_resize
#define V_N_wasi_fdinfo_close real_wasi_fdinfo_close
#define V_N_wasi_fdinfo_free real_wasi_fdinfo_free
#include "bytes.h"
#include "verif.h"
#include "type.h"
#include "exec_context.h"
#include "instance.h"
#include "wasi_impl.h"
static void toywasm_mutex_lock(struct toywasm_mutex *lock);
static void toywasm_mutex_unlock(struct toywasm_mutex *lock);
static void toywasm_cv_signal(pthread_cond_t *cv, struct toywasm_mutex *lock);
static int toywasm_cv_timedwait(pthread_cond_t *cv, struct toywasm_mutex *lock, const struct timespec *abs);
static int abstime_from_reltime_ms(clockid_t id, struct timespec *abs, int ms);
static int check_interrupt(struct exec_context *ctx);
static int _vec_resize(struct mem_context *ctx, void *vec, size_t elem_size, uint32_t n);
static int wasi_fdinfo_close(struct wasi_fdinfo *fdinfo);
static void wasi_fdinfo_free(struct wasi_fdinfo *fdinfo);
#include "u_wasi.h"

#define NO 3      /* objects in the table */
#define NT 4      /* room in the table */
static struct wasi_instance g_w;
static struct wasi_fdinfo_host g_o[NO + 1]; /* the last one is new */
static struct wasi_fdinfo *g_slots[NT];
static struct wasi_vfs_ops g_ops; /* not the host's */
static struct wasi_vfs g_vfs;
static struct exec_context g_ctx;
static bool g_held;                                  /* the lock is held */
static uint32_t g_size0;                             /* descriptors */
static bool g_open[NO];                              /* descriptor i is object i */
static uint32_t g_users[NO];                         /* other threads' references */
static unsigned int g_nclose[NO + 1], g_nfree[NO + 1], g_nwait;
static int g_close_ret;
static bool g_failed;

static bool
is_obj(const struct wasi_fdinfo *f, unsigned int i)
{
        return f == &g_o[i].user.fdinfo;
}
static unsigned int
obj(const struct wasi_fdinfo *f)
{
        return is_obj(f, 0) ? 0 : is_obj(f, 1) ? 1 : is_obj(f, 2) ? 2 : is_obj(f, 3) ? 3 : 4;
}
static void
toywasm_mutex_lock(struct toywasm_mutex *lock)
{
        V_CHECK(lock == &g_w.lock && !g_held, "the lock is not held");
        g_held = true;
}
static void
toywasm_mutex_unlock(struct toywasm_mutex *lock)
{
        V_CHECK(lock == &g_w.lock && g_held, "the lock is held");
        g_held = false;
}
static void
toywasm_cv_signal(pthread_cond_t *cv, struct toywasm_mutex *lock)
{
        V_CHECK(lock == &g_w.lock && g_held, "the lock is held");
}
static int
toywasm_cv_timedwait(pthread_cond_t *cv, struct toywasm_mutex *lock, const struct timespec *abs)
{
        unsigned int i;
        V_CHECK(lock == &g_w.lock && g_held, "the lock is held");
        for (i = 0; i < NO; i++) {
                V_CHECK(!g_open[i] || g_o[i].user.fdinfo.refcount == 1 + g_users[i], "no reference is kept while waiting");
        }
        g_nwait++;
        for (i = 0; i < NO; i++) {
                if (g_open[i] && (g_nwait == 2 || in_bool())) {
                        g_users[i] = 0;
                        g_o[i].user.fdinfo.refcount = 1;
                }
                if (g_open[i] && g_users[i] == 0 && in_bool()) {
                        /* closed by another thread */
                        g_open[i] = false;
                        g_slots[i] = NULL;
                        g_o[i].user.fdinfo.refcount = 0;
                }
        }
        return in_bool() ? 0 : ETIMEDOUT;
}
static int
abstime_from_reltime_ms(clockid_t id, struct timespec *abs, int ms)
{
        abs->tv_sec = 0;
        abs->tv_nsec = 0;
        return 0;
}
static int g_intr;
static int
check_interrupt(struct exec_context *ctx)
{
        V_CHECK(!g_held, "the lock is not held");
        g_intr = in_bool() ? 0 : ETOYWASMTRAP;
        return g_intr;
}
static int
_vec_resize(struct mem_context *ctx, void *vec, size_t elem_size, uint32_t n)
{
        struct wasi_table *t = &g_w.fdtable[WASI_TABLE_FILES];
        uint32_t i;
        V_CHECK(vec == &t->table && elem_size == sizeof(g_slots[0]), "the table");
        V_CHECK(n >= t->table.lsize, "the table does not shrink");
        if (n > NT || in_bool()) {
                g_failed = true;
                return ENOMEM;
        }
        for (i = 0; i < NT; i++) {
                if (i >= t->table.lsize && i < n) {
                        g_slots[i] = NULL;
                }
        }
        t->table.lsize = n;
        return 0;
}
static int
wasi_fdinfo_close(struct wasi_fdinfo *f)
{
        unsigned int i = obj(f);
        V_CHECK(i <= NO && f->refcount != 0, "a live object is closed");
        V_CHECK(i == NO || g_users[i] == 0, "no other thread uses the object");
        g_nclose[i]++;
        V_CHECK(g_nclose[i] == 1, "closed once");
        return g_close_ret;
}
static void
wasi_fdinfo_free(struct wasi_fdinfo *f)
{
        unsigned int i = obj(f);
        V_CHECK(i <= NO && f->refcount == 0, "no reference is left");
        V_CHECK(i == NO || g_users[i] == 0, "no other thread uses the object");
        V_CHECK(g_nclose[i] == 1, "it has been closed");
        g_nfree[i]++;
        V_CHECK(g_nfree[i] == 1, "freed once");
}

static void
setup(void)
{
        struct wasi_table *t = &g_w.fdtable[WASI_TABLE_FILES];
        unsigned int i;
        g_size0 = in_u32();
        g_vfs.ops = &g_ops;
        V_ASSUME(g_size0 <= NO);
        t->table.p = g_slots;
        t->table.lsize = g_size0;
        t->table.psize = NT;
        t->reserved_slots = in_u32();
        for (i = 0; i < NO; i++) {
                g_open[i] = in_bool();
                V_ASSUME(!g_open[i] || i < g_size0);
                g_users[i] = in_u32();
                V_ASSUME(g_users[i] < UINT32_MAX - 2);
                g_o[i].user.fdinfo.type = in_bool() ? WASI_FDINFO_USER : WASI_FDINFO_PRESTAT;
                g_o[i].user.vfs = in_bool() ? &wasi_host_vfs : &g_vfs;
                g_o[i].hostfd = (int)in_u32();
                V_ASSUME(g_o[i].hostfd != -1);
                if (g_open[i]) {
                        g_slots[i] = &g_o[i].user.fdinfo;
                        g_o[i].user.fdinfo.refcount = 1 + g_users[i];
                }
        }
        g_close_ret = in_bool() ? 0 : (int)in_u8();
}
/* all descriptors but a and b are as before; nothing else was closed */
static void
others(uint32_t a, uint32_t b)
{
        unsigned int i;
        V_CHECK(!g_held, "the lock is not held");
        V_CHECK(g_w.fdtable[0].table.p == g_slots && g_w.fdtable[0].table.lsize >= g_size0, "the table");
        for (i = 0; i < NO; i++) {
                if (i == a || i == b) {
                        continue;
                }
                if (i < g_size0) {
                        V_CHECK(g_slots[i] == (g_open[i] ? &g_o[i].user.fdinfo : NULL), "other descriptors");
                }
                V_CHECK(g_nclose[i] == 0 && g_nfree[i] == 0, "other objects are not closed");
                V_CHECK(!g_open[i] || g_o[i].user.fdinfo.refcount == 1 + g_users[i], "other references");
        }
}
static bool
is_open(uint32_t fd)
{
        return fd < NO && fd < g_size0 && g_open[fd];
}
#define NONE UINT32_MAX

//@job h_fd_lookup prop=P23 enforce=wasi_fd_lookup,wasi_userfd_lookup,wasi_hostfd_lookup,wasi_table_lookup,wasi_table_lookup_locked dfcc=0 unwind=5 bounded="a table of up to 3 descriptors; all descriptor numbers" about="a lookup finds the open object and takes a reference, or is EBADF"
void
h_fd_lookup(void)
{
        struct wasi_fdinfo *f = NULL;
        int ret, hfd = -1;
        uint32_t fd = in_u32();
        uint8_t kind = in_u8();
        setup();
        bool ok = is_open(fd);
        switch (kind) {
        case 0:
                ret = wasi_fd_lookup(&g_w, fd, &f);
                break;
        case 1:
                ret = wasi_table_lookup(&g_w, WASI_TABLE_FILES, fd, &f);
                break;
        case 2:
                ret = wasi_userfd_lookup(&g_w, fd, &f);
                ok = ok && g_o[fd].user.fdinfo.type == WASI_FDINFO_USER;
                break;
        default:
                ret = wasi_hostfd_lookup(&g_w, fd, &hfd, &f);
                ok = ok && g_o[fd].user.fdinfo.type == WASI_FDINFO_USER && g_o[fd].user.vfs == &wasi_host_vfs;
                break;
        }
        V_CHECK(ret == (ok ? 0 : EBADF), "result");
        if (ok) {
                V_CHECK(is_obj(f, fd), "the object of the descriptor");
                V_CHECK(f->refcount == 2 + g_users[fd] && g_slots[fd] == f, "it has a reference more");
                V_CHECK(kind < 3 || hfd == g_o[fd].hostfd, "host descriptor");
                others(fd, NONE);
                V_CHECK(g_nclose[fd] == 0 && g_nfree[fd] == 0, "it is not closed");
                /* give it back */
                wasi_fdinfo_release(&g_w, f);
        }
        V_CANARY(ok, "found");
        V_CANARY(!ok && kind == 3, "not found");
        others(NONE, NONE);
}

//@job h_fd_add prop=P23 enforce=wasi_table_fdinfo_add,wasi_table_alloc_slot,wasi_table_affix,wasi_table_expand,wasi_table_slot_ptr dfcc=0 unwind=5 bounded="a table of up to 3 descriptors (4 after)" about="opening picks an unused number"
void
h_fd_add(void)
{
        uint32_t fd = 77;
        setup();
        struct wasi_fdinfo *f = &g_o[NO].user.fdinfo;
        wasi_fdinfo_init(f);
        int ret = wasi_table_fdinfo_add(&g_w, WASI_TABLE_FILES, f, &fd);
        others(NONE, fd);
        if (ret != 0) {
                V_CHECK(fd == 77 && f->refcount == 0, "no effect");
                V_CHECK(g_failed || g_w.fdtable[0].reserved_slots == UINT32_MAX, "it fails only without memory");
                V_CHECK(g_w.fdtable[0].table.lsize == g_size0, "size");
        } else {
                V_CHECK(!is_open(fd) && fd < NT && fd < g_w.fdtable[0].table.lsize, "an unused number");
                V_CHECK(fd >= g_w.fdtable[0].reserved_slots, "not a reserved one");
                V_CHECK(g_slots[fd] == f && f->refcount == 1, "it refers to the object");
                unsigned int i;
                for (i = 0; i < NT; i++) {
                        V_CHECK(i < g_size0 || i == fd || i >= g_w.fdtable[0].table.lsize || g_slots[i] == NULL,
                                "new numbers are unused");
                }
        }
        V_CANARY(ret == 0 && fd == 3, "table extended");
        V_CANARY(ret == 0 && fd == 0, "first descriptor");
}

//@job h_fd_expand prop=P23 enforce=wasi_table_expand dfcc=0 unwind=5 bounded="a table of up to 4 descriptors; all descriptor numbers" about="extending the table adds unused descriptors only"
void
h_fd_expand(void)
{
        uint32_t fd = in_u32(), i;
        setup();
        g_held = true;
        int ret = wasi_table_expand(&g_w, WASI_TABLE_FILES, fd);
        g_held = false;
        others(NONE, NONE);
        uint32_t n = g_w.fdtable[0].table.lsize;
        V_CHECK(ret == 0 ? n == (fd < g_size0 ? g_size0 : fd + 1) && n > fd : n == g_size0 && fd >= g_size0, "size");
        V_CHECK(ret == 0 || g_failed || fd == UINT32_MAX, "it fails only without memory");
        for (i = 0; i < NT; i++) {
                V_CHECK(i < g_size0 || i >= n || g_slots[i] == NULL, "new numbers are unused");
        }
        V_CANARY(ret == 0 && n == 4 && g_size0 == 1, "extended");
        V_CANARY(fd == UINT32_MAX, "largest number");
}

static enum valtype g_types[2] = {TYPE_i32, TYPE_i32};
static enum valtype g_rtypes[1] = {TYPE_i32};
static struct functype g_ft;
static struct cell g_params[2], g_res[1];
static uint32_t g_a, g_b;
static void
setup_call(unsigned int n)
{
        setup();
        g_ft.parameter.ntypes = n;
        g_ft.parameter.types = g_types;
        g_ft.result.ntypes = 1;
        g_ft.result.types = g_rtypes;
        g_a = in_u32();
        g_b = in_u32();
        g_params[0].x = g_a;
        g_params[1].x = g_b;
        g_res[0].x = 0xdead;
}

//@job h_fd_close prop=P23 enforce=wasi_fd_close,wasi_table_lookup_locked_for_close,wasi_fdinfo_wait,wasi_table_slot_ptr,wasi_fdinfo_release dfcc=0 unwind=5 bounded="a table of up to 3 descriptors; all descriptor numbers; up to 2 waits" about="closing frees exactly that number and closes its object, once nobody uses it"
void
h_fd_close(void)
{
        setup_call(1);
        int ret = wasi_fd_close(&g_ctx, &g_w.hi, &g_ft, g_params, g_res);
        if (ret != 0) {
                V_CHECK(ret == ENOMEM || (ret == g_intr && g_nwait > 0), "interrupted, or out of memory");
                V_CHECK(g_res[0].x == 0xdead, "no result");
                others(NONE, NONE);
        } else if (!is_open(g_a)) {
                V_CHECK(g_res[0].x == 8, "bad descriptor");
                others(NONE, NONE);
        } else {
                V_CHECK(g_res[0].x == wasi_convert_errno(g_close_ret), "result");
                V_CHECK(g_slots[g_a] == NULL, "the number is free");
                V_CHECK(g_nclose[g_a] == 1 && g_nfree[g_a] == 1, "the object is closed");
                V_CHECK(g_o[g_a].user.fdinfo.refcount == 0, "the object is not used after");
                others(g_a, NONE);
        }
        V_CHECK(g_w.fdtable[0].table.lsize == g_size0, "size of the table");
        V_CANARY(ret == 0 && is_open(g_a) && g_nwait == 2, "waited");
        V_CANARY(ret == 0 && !is_open(g_a) && g_nwait == 1, "closed by another thread");
        V_CANARY(ret != 0, "interrupted");
}

//@job h_fd_renumber prop=P23 enforce=wasi_fd_renumber,wasi_table_lookup_locked_for_close,wasi_fdinfo_wait,wasi_table_slot_ptr,wasi_fdinfo_release dfcc=0 unwind=5 bounded="a table of up to 3 descriptors; all descriptor numbers; up to 2 waits" about="renumbering moves one object and closes the one it replaces"
void
h_fd_renumber(void)
{
        setup_call(2);
        int ret = wasi_fd_renumber(&g_ctx, &g_w.hi, &g_ft, g_params, g_res);
        if (ret != 0) {
                V_CHECK(ret == ENOMEM || (ret == g_intr && g_nwait > 0), "interrupted, or out of memory");
                V_CHECK(g_res[0].x == 0xdead, "no result");
                others(NONE, NONE);
        } else if (!is_open(g_a) || !is_open(g_b)) {
                V_CHECK(g_res[0].x == 8, "bad descriptor");
                others(NONE, NONE);
        } else if (g_a == g_b) {
                V_CHECK(g_res[0].x == 0, "no error");
                others(NONE, NONE);
        } else {
                V_CHECK(g_res[0].x == 0, "no error");
                V_CHECK(g_slots[g_a] == NULL, "the old number is free");
                V_CHECK(is_obj(g_slots[g_b], g_a), "the object is moved");
                V_CHECK(g_o[g_a].user.fdinfo.refcount == 1 + g_users[g_a], "it has its references");
                V_CHECK(g_nclose[g_a] == 0 && g_nfree[g_a] == 0, "it is not closed");
                V_CHECK(g_nclose[g_b] == 1 && g_nfree[g_b] == 1, "the replaced object is closed");
                V_CHECK(g_o[g_b].user.fdinfo.refcount == 0, "the object is not used after");
                others(g_a, g_b);
        }
        V_CHECK(g_w.fdtable[0].table.lsize == g_size0, "size of the table");
        V_CANARY(ret == 0 && is_open(g_a) && is_open(g_b) && g_a != g_b, "renumbered");
        V_CANARY(ret == 0 && g_a == g_b && is_open(g_a), "to itself");
        V_CANARY(ret == 0 && g_b == UINT32_MAX, "largest number");
}

//@job h_fd_release prop=P23 enforce=wasi_fdinfo_release dfcc=0 unwind=5 about="the object is freed with its last reference"
void
h_fd_release(void)
{
        struct wasi_fdinfo *f = &g_o[NO].user.fdinfo;
        uint32_t n = in_u32();
        V_ASSUME(n > 0);
        setup();
        f->refcount = n;
        g_nclose[NO] = 1;
        wasi_fdinfo_release(&g_w, NULL);
        wasi_fdinfo_release(&g_w, f);
        V_CHECK(f->refcount == n - 1, "a reference less");
        V_CHECK(g_nfree[NO] == (n == 1), "freed with the last reference");
        V_CHECK(!g_held, "the lock is not held");
        V_CANARY(n == 1, "last reference");
}

