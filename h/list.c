//@family base=core
/*
 * Intrusive lists and bitmaps.
 */
#include "verif.h"
#include "u_core.h"

#define NE 4
struct elem {
        uint32_t pad;
        LIST_ENTRY(struct elem) l;
        SLIST_ENTRY(struct elem) s;
};
static LIST_HEAD(struct elem) g_l;
static SLIST_HEAD(struct elem) g_s;
static struct elem g_e[NE + 1];
static unsigned int g_order[NE]; /* the abstract sequence (a permutation) */
static unsigned int g_n;

/* an arbitrary abstract sequence of at most NE distinct elements */
static void
order(void)
{
        g_n = in_u8();
        V_ASSUME(g_n <= NE);
        unsigned int i;
        unsigned int j;
        for (i = 0; i < NE; i++) {
                g_order[i] = in_u8();
                V_ASSUME(g_order[i] < NE);
                for (j = 0; j < i; j++) {
                        V_ASSUME(g_order[j] != g_order[i]);
                }
        }
}
static void
build_list(void)
{
        order();
        g_l.first = NULL;
        g_l.tailnextp = &g_l.first;
        unsigned int i;
        for (i = 0; i < NE; i++) {
                if (i < g_n) {
                        struct elem *e = &g_e[g_order[i]];
                        e->l.prevnextp = g_l.tailnextp;
                        *g_l.tailnextp = e;
                        e->l.next = NULL;
                        g_l.tailnextp = &e->l.next;
                }
        }
}
/* the list is exactly seq[0..n), forwards and backwards */
static void
check_list(const unsigned int *seq, unsigned int n)
{
        unsigned int i;
        struct elem *e = LIST_FIRST(&g_l);
        for (i = 0; i < NE + 1; i++) {
                if (i < n) {
                        V_CHECK(e == &g_e[seq[i]], "forward order");
                        e = LIST_NEXT(e, l);
                }
        }
        V_CHECK(e == NULL, "end of the list");
        e = LIST_LAST(&g_l, struct elem, l);
        for (i = 0; i < NE + 1; i++) {
                if (i < n) {
                        V_CHECK(e == &g_e[seq[n - 1 - i]], "backward order");
                        e = LIST_PREV(e, &g_l, struct elem, l);
                }
        }
        V_CHECK(e == NULL, "start of the list");
        V_CHECK(LIST_EMPTY(&g_l) == (n == 0), "emptiness");
        V_CHECK(n == 0 ? g_l.tailnextp == &g_l.first : g_l.tailnextp == &g_e[seq[n - 1]].l.next, "tail");
}

//@job h_list_remove prop=P32 dfcc=0 unwind=6 bounded="lists of at most 4 elements (any order)"
void h_list_remove(void)
{
        build_list();
        unsigned int k = in_u8();
        V_ASSUME(k < g_n);
        struct elem *e = &g_e[g_order[k]];
        LIST_REMOVE(&g_l, e, l);
        unsigned int seq[NE + 1];
        unsigned int i;
        for (i = 0; i < NE - 1; i++) {
                seq[i] = g_order[i < k ? i : i + 1];
        }
        check_list(seq, g_n - 1);
        V_CANARY(g_n == NE && k == 1, "middle");
        V_CANARY(g_n == 1, "only");
        V_CANARY(g_n == 2 && k == 1, "last");
}
//@job h_list_insert_tail prop=P32 dfcc=0 unwind=7 bounded="lists of at most 4 elements (any order)"
void h_list_insert_tail(void)
{
        build_list();
        struct elem *e = &g_e[NE];
        LIST_INSERT_TAIL(&g_l, e, l);
        unsigned int seq[NE + 1];
        unsigned int i;
        for (i = 0; i < NE; i++) {
                seq[i] = g_order[i];
        }
        seq[g_n] = NE;
        check_list(seq, g_n + 1);
        V_CANARY(g_n == NE, "long");
        V_CANARY(g_n == 0, "empty");
}
//@job h_list_insert_head prop=P32 dfcc=0 unwind=7 bounded="lists of at most 4 elements (any order)"
void h_list_insert_head(void)
{
        build_list();
        struct elem *e = &g_e[NE];
        LIST_INSERT_HEAD(&g_l, e, l);
        unsigned int seq[NE + 1];
        unsigned int i;
        seq[0] = NE;
        for (i = 0; i < NE; i++) {
                seq[i + 1] = g_order[i];
        }
        check_list(seq, g_n + 1);
        V_CANARY(g_n == NE, "long");
        V_CANARY(g_n == 0, "empty");
}
//@job h_list_init prop=P32 dfcc=0
void h_list_init(void)
{
        g_l.first = (void *)&g_e[0];
        LIST_HEAD_INIT(&g_l);
        check_list(NULL, 0);
        SLIST_HEAD_INIT(&g_s);
        V_CHECK(SLIST_EMPTY(&g_s) && g_s.sh_tailnextp == &g_s.sh_first, "empty");
        V_CANARY(true, "done");
}

/* ---- singly linked; loop free: only the neighbourhood is touched */
static void
build_slist(void)
{
        order();
        g_s.sh_first = NULL;
        g_s.sh_tailnextp = &g_s.sh_first;
        unsigned int i;
        for (i = 0; i < NE; i++) {
                if (i < g_n) {
                        struct elem *e = &g_e[g_order[i]];
                        *g_s.sh_tailnextp = e;
                        e->s.se_next = NULL;
                        g_s.sh_tailnextp = &e->s.se_next;
                }
        }
}
static void
check_slist(const unsigned int *seq, unsigned int n)
{
        unsigned int i;
        struct elem *e = SLIST_FIRST(&g_s);
        for (i = 0; i < NE + 1; i++) {
                if (i < n) {
                        V_CHECK(e == &g_e[seq[i]], "order");
                        e = SLIST_NEXT(e, s);
                }
        }
        V_CHECK(e == NULL, "end of the list");
        V_CHECK(SLIST_EMPTY(&g_s) == (n == 0), "emptiness");
        V_CHECK(n == 0 ? g_s.sh_tailnextp == &g_s.sh_first : g_s.sh_tailnextp == &g_e[seq[n - 1]].s.se_next, "tail");
        V_CHECK(n == 0 || SLIST_LAST(&g_s, struct elem, s) == &g_e[seq[n - 1]], "last");
}
//@job h_slist_remove prop=P32 dfcc=0 unwind=6 bounded="lists of at most 4 elements (any order)"
void h_slist_remove(void)
{
        build_slist();
        unsigned int k = in_u8();
        V_ASSUME(k < g_n);
        struct elem *e = &g_e[g_order[k]];
        struct elem *prev = k == 0 ? NULL : &g_e[g_order[k - 1]];
        if (k == 0 && in_bool()) {
                SLIST_REMOVE_HEAD(&g_s, e, s);
        } else {
                SLIST_REMOVE(&g_s, prev, e, s);
        }
        unsigned int seq[NE + 1];
        unsigned int i;
        for (i = 0; i < NE - 1; i++) {
                seq[i] = g_order[i < k ? i : i + 1];
        }
        check_slist(seq, g_n - 1);
        V_CANARY(g_n == NE && k == 1, "middle");
        V_CANARY(g_n == 1, "only");
        V_CANARY(g_n == 2 && k == 1, "last");
}
//@job h_slist_insert prop=P32 dfcc=0 unwind=7 bounded="lists of at most 4 elements (any order)"
void h_slist_insert(void)
{
        build_slist();
        struct elem *e = &g_e[NE];
        bool head = in_bool();
        unsigned int seq[NE + 1];
        unsigned int i;
        for (i = 0; i < NE; i++) {
                seq[head ? i + 1 : i] = g_order[i];
        }
        seq[head ? 0 : g_n] = NE;
        if (head) {
                SLIST_INSERT_HEAD(&g_s, e, s);
        } else {
                SLIST_INSERT_TAIL(&g_s, e, s);
        }
        check_slist(seq, g_n + 1);
        V_CANARY(head && g_n == NE, "head");
        V_CANARY(head && g_n == 0, "head empty");
        V_CANARY(!head && g_n == NE, "tail");
        V_CANARY(!head && g_n == 0, "tail empty");
}

/* ---- bitmaps: an arbitrary witness bit in an arbitrary bitmap */
static uint32_t g_word[2]; /* the word of the accessed bit, the word of the witness */
static struct bitmap g_bm;
static uint32_t g_idx, g_widx;

//@job h_bitmap_set prop=P32 dfcc=0
void h_bitmap_set(void)
{
        g_idx = in_u32();
        g_widx = in_u32();
        g_word[0] = in_u32();
        uint32_t w0 = g_word[0];
        /* only the word of the accessed bit exists */
        g_bm.data = &g_word[0] - g_idx / 32;
        bitmap_set(&g_bm, g_idx);
        V_CHECK(((g_word[0] >> (g_idx % 32)) & 1) == 1, "bit set");
        if (g_widx / 32 == g_idx / 32 && g_widx != g_idx) {
                V_CHECK(((g_word[0] ^ w0) >> (g_widx % 32) & 1) == 0, "other bits unchanged");
        }
        V_CHECK(bitmap_test(&g_bm, g_idx), "test sees the bit");
        V_CHECK(g_bm.data == &g_word[0] - g_idx / 32, "same storage");
        V_CANARY(g_idx == UINT32_MAX, "last");
}
//@job h_bitmap_test prop=P32 dfcc=0
void h_bitmap_test(void)
{
        g_idx = in_u32();
        g_word[0] = in_u32();
        uint32_t w0 = g_word[0];
        g_bm.data = &g_word[0] - g_idx / 32;
        bool r = bitmap_test(&g_bm, g_idx);
        V_CHECK(r == (((w0 >> (g_idx % 32)) & 1) != 0), "the bit");
        V_CHECK(g_word[0] == w0, "unchanged");
        V_CANARY(r, "set");
        V_CANARY(!r, "clear");
}
