//@family base=core
/*
 * Rendering untrusted names.
 */
#include "verif.h"
#define NB 5
/* an exact-size allocation: its end is the end of the object */
static char g_buf[4 * NB];
static void *
ve_malloc(size_t n)
{
        V_CHECK(n <= sizeof(g_buf), "no more than the full rendering");
        if (in_bool()) {
                return NULL;
        }
        return g_buf + sizeof(g_buf) - n;
}
static void
ve_free(void *p)
{
        V_CHECK(p >= (void *)g_buf && p < (void *)(g_buf + sizeof(g_buf)), "frees its allocation");
}
#define malloc(n) ve_malloc(n)
#define free(p) ve_free(p)
#include "u_core.h"

static char g_data[NB];
static struct name g_name;
static struct escaped_string g_e, g_e2;

static bool
plain(uint8_t c)
{
        return c > 0x20 && c < 0x7f && c != '\\' && c != ':' && c != '=' && c != ',';
}
static uint32_t
fulllen(uint32_t n)
{
        uint32_t s = 0;
        uint32_t i;
        for (i = 0; i < NB; i++) {
                if (i < n) {
                        s += plain((uint8_t)g_data[i]) ? 1 : 4;
                }
        }
        return s;
}
//@job h_escape_name prop=P31 dfcc=0 unwind=7 solver=cadical bounded="names of at most 5 bytes, every length limit and allocation failure"
void h_escape_name(void)
{
        unsigned int i;
        for (i = 0; i < NB; i++) {
                g_data[i] = (char)in_u8();
        }
        g_name.nbytes = in_u8();
        V_ASSUME(g_name.nbytes <= NB);
        g_name.data = g_data;
        int lim = (int)in_u32();
        V_ASSUME(lim >= (int)sizeof(g_e.small));
        set_max_escaped_len(lim);
        escape_name(&g_e, &g_name);
        uint32_t full = fulllen(g_name.nbytes);
        V_CHECK(g_e.escaped_len >= 0 && g_e.escaped_len <= lim, "length limit");
        V_CHECK((uint32_t)g_e.escaped_len <= full, "never longer than the full rendering");
        bool trunc = (uint32_t)g_e.escaped_len != full || full > (uint32_t)lim;
        uint32_t k = in_u8();
        V_ASSUME(k < (uint32_t)g_e.escaped_len);
        uint8_t c = (uint8_t)g_e.escaped[k];
        V_CHECK(plain(c) || c == '\\', "printable ASCII only");
        /* the rendering of byte j starts at the sum of the widths before it */
        uint32_t j = in_u8();
        V_ASSUME(j < g_name.nbytes);
        uint32_t pos = fulllen(j);
        uint32_t wj = plain((uint8_t)g_data[j]) ? 1 : 4;
        uint32_t end = (uint32_t)g_e.escaped_len - (trunc ? 2 : 0);
        if (pos + wj <= end) {
                uint8_t b = (uint8_t)g_data[j];
                if (wj == 1) {
                        V_CHECK((uint8_t)g_e.escaped[pos] == b, "plain bytes are kept");
                } else {
                        V_CHECK(g_e.escaped[pos] == '\\' && g_e.escaped[pos + 1] == '0' + (b >> 6) &&
                                        g_e.escaped[pos + 2] == '0' + ((b >> 3) & 7) && g_e.escaped[pos + 3] == '0' + (b & 7),
                                "other bytes are escaped in octal");
                }
        } else {
                V_CHECK(trunc, "no byte is dropped silently");
        }
        if (trunc) {
                V_CHECK(g_e.escaped_len >= 2 && g_e.escaped[g_e.escaped_len - 1] == '.' && g_e.escaped[g_e.escaped_len - 2] == '.', "visibly truncated");
        }
        V_CANARY(trunc && lim == 15, "limit");
        V_CANARY(trunc && lim > 100, "out of memory");
        V_CANARY(!trunc && full == 20, "all escaped");
        V_CANARY(!trunc && full == g_name.nbytes, "nothing to escape");
        escaped_string_clear(&g_e);
}
