//@family base=wasi
//@stub *wasi_vfs_fd_close it closes the file, and gives any result
//@stub *wasi_table_fdinfo_add it fails, or the object has a descriptor (job h_fd_add)
/* Closing and freeing of the objects of descriptors. */
#define V_N_wasi_vfs_fd_close real_wasi_vfs_fd_close
#define V_N_wasi_table_fdinfo_add real_wasi_table_fdinfo_add
#include "bytes.h"
#include "verif.h"
#include "type.h"
#include "exec_context.h"
#include "wasi_impl.h"
static int wasi_vfs_fd_close(struct wasi_fdinfo *fdinfo);
static int wasi_table_fdinfo_add(struct wasi_instance *wasi, enum wasi_table_idx idx, struct wasi_fdinfo *fdinfo, uint32_t *wasifdp);
#include "u_wasi.h"

static struct wasi_vfs g_vfs;
static struct wasi_instance g_w;
static unsigned int g_nclose, g_nadd;
static int g_close_ret, g_add_ret;
static int g_hostfd_closed;
static struct wasi_fdinfo *g_f;

static int
wasi_vfs_fd_close(struct wasi_fdinfo *fdinfo)
{
        V_CHECK(fdinfo->type == WASI_FDINFO_USER, "a file");
        g_nclose++;
        if (wasi_fdinfo_is_host(fdinfo)) {
                struct wasi_fdinfo_host *h = (void *)fdinfo;
                g_hostfd_closed = h->hostfd;
                h->hostfd = -1;
                h->dir = NULL;
        }
        return g_close_ret;
}
static int
wasi_table_fdinfo_add(struct wasi_instance *wasi, enum wasi_table_idx idx, struct wasi_fdinfo *fdinfo, uint32_t *wasifdp)
{
        V_CHECK(wasi == &g_w && idx == WASI_TABLE_FILES && fdinfo->refcount == 0, "a new object");
        g_nadd++;
        if (g_add_ret != 0) {
                return g_add_ret;
        }
        g_f = fdinfo;
        fdinfo->refcount = 1;
        *wasifdp = 5;
        return 0;
}

//@job h_fdinfo_close prop=P23 enforce=wasi_fdinfo_close,wasi_fdinfo_free,wasi_fdinfo_clear,wasi_fdinfo_alloc_prestat,wasi_fdinfo_user_init dfcc=0 unwind=50 flags="--memory-leak-check" about="closing an object closes its file, and frees what it owns, once"
void
h_fdinfo_close(void)
{
        struct wasi_fdinfo *f;
        int ret;
        g_close_ret = (int)in_u32();
        if (in_bool()) {
                ret = wasi_fdinfo_alloc_prestat(&f);
                if (ret != 0) {
                        return;
                }
                struct wasi_fdinfo_prestat *p = wasi_fdinfo_to_prestat(f);
                V_CHECK(f->refcount == 0 && p->prestat_path == NULL && p->wasm_path == NULL, "new object");
                p->prestat_path = malloc(1);
                p->wasm_path = in_bool() ? malloc(1) : NULL;
                p->vfs = &g_vfs;
                ret = wasi_fdinfo_close(f);
                V_CHECK(ret == 0 && g_nclose == 0, "no file is closed");
                V_CHECK(p->prestat_path == NULL && p->wasm_path == NULL, "paths are freed");
        } else {
                ret = wasi_fdinfo_alloc_host(&f);
                if (ret != 0) {
                        return;
                }
                struct wasi_fdinfo_host *h = wasi_fdinfo_to_host(f);
                V_CHECK(f->refcount == 0 && h->hostfd == -1 && h->user.path == NULL && h->dir == NULL, "new object");
                h->user.path = malloc(1);
                h->hostfd = 3;
                ret = wasi_fdinfo_close(f);
                V_CHECK(ret == g_close_ret && g_nclose == 1 && g_hostfd_closed == 3, "the file is closed");
                V_CHECK(h->user.path == NULL, "the path is freed");
                V_CANARY(true, "host file");
        }
        wasi_fdinfo_free(f);
        wasi_fdinfo_free(NULL);
}

//@job h_fdinfo_hostadd prop=P23 enforce=wasi_hostfd_add,wasi_fdinfo_alloc_host dfcc=0 unwind=50 flags="--memory-leak-check" about="a host file gets a descriptor; or all is given back but the host file"
void
h_fdinfo_hostadd(void)
{
        uint32_t fd = 77;
        int hostfd = (int)in_u32();
        V_ASSUME(hostfd >= 0);
        uint16_t flags = in_bool() ? WASI_FDFLAG_NONBLOCK : 0;
        g_add_ret = in_bool() ? 0 : ENOMEM;
        g_close_ret = (int)in_u32();
        g_hostfd_closed = -1;
        char *path = in_bool() ? malloc(1) : NULL;
        int ret = wasi_hostfd_add(&g_w, hostfd, path, flags, &fd);
        if (ret != 0) {
                V_CHECK(fd == 77 && g_hostfd_closed == -1, "the host file is not closed");
                V_CHECK(ret == ENOMEM, "out of memory");
        } else {
                V_CHECK(fd == 5 && g_nadd == 1 && g_nclose == 0, "it has a descriptor");
                struct wasi_fdinfo_host *h = wasi_fdinfo_to_host(g_f);
                V_CHECK(h->hostfd == hostfd && h->user.path == path, "host file and path");
                V_CHECK((h->user.blocking != 0) == (flags == 0), "flags");
                h->hostfd = -1;
                free(path);
                h->user.path = NULL;
                g_f->refcount = 0;
                wasi_fdinfo_free(g_f);
        }
        V_CANARY(ret == 0, "added");
        V_CANARY(ret != 0, "failed");
}
