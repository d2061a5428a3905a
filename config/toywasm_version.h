#if !defined(_TOYWASM_VERSION_H)
#define _TOYWASM_VERSION_H

#define TOYWASM_VERSION "f475061-dirty"

#endif /* !defined(_TOYWASM_VERSION_H) */
