//@family base=all def=FIXED_STACK
//@trusted memcpy and memset (as loops over words)
/*
 * br_table, on its own: it refers to the vector reader, which takes callbacks.
 */
#include "control.c"

//@job h_br_table prop=P11 enforce=fetch_exec_br_table,schedule_br dfcc=0 unwind=7 bounded="tables of at most 2 labels and the default; any operand"
void
h_br_table(void)
{
        const uint8_t *p = setup(2, 2);
        unsigned int next;
        uint32_t idx[3];
        uint32_t n = in_u8();
        V_ASSUME(n <= 2);
        g_code[3] = (uint8_t)n;
        idx[0] = code_imm(4, &next);
        idx[1] = idx[2] = 0;
        if (n >= 1) {
                idx[1] = code_imm(next, &next);
        }
        if (n >= 2) {
                idx[2] = code_imm(next, &next);
        }
        int ret = fetch_exec_br_table(p, g_sp, &g_ctx);
        uint32_t i = in32(1) < n ? in32(1) : n;
        V_CHECK(branches(ret, idx[i], false, 1, g_nlabels), "branch table");
        V_CANARY(n == 2 && in32(1) == 1, "br_table");
        V_CANARY(n == 2 && in32(1) == 0xffffffff, "br_table, default");
        V_CANARY(n == 0, "br_table, no entries");
}
