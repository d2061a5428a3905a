/* immediates: any LEB encoding the decoder can have accepted */
#pragma once
static uint8_t g_code[24];
static uint32_t
code_imm(unsigned int pos, unsigned int *nextp)
{
        uint64_t v = 0;
        unsigned int i;
        *nextp = 0;
        for (i = 0; i < 5; i++) {
                uint8_t b = in_u8();
                g_code[pos + i] = b;
                if (*nextp == 0) {
                        v |= (uint64_t)(b & 0x7f) << (7 * i);
                        if ((b & 0x80) == 0) {
                                *nextp = pos + i + 1;
                        }
                }
        }
        V_ASSUME(*nextp != 0 && v <= UINT32_MAX);
        return (uint32_t)v;
}
