#if !defined(_TOYWASM_CONFIG_H)
#define _TOYWASM_CONFIG_H

#define TOYWASM_USE_SEPARATE_EXECUTE
/* #undef TOYWASM_USE_SEPARATE_VALIDATE */
#define TOYWASM_PROCESS_INSN_WITH_SWITCH
#define TOYWASM_USE_TAILCALL
/* #undef TOYWASM_FORCE_USE_TAILCALL */
/* #undef TOYWASM_USE_SIMD */
#define TOYWASM_USE_SHORT_ENUMS
/* #undef TOYWASM_USE_USER_SCHED */
/* #undef TOYWASM_ENABLE_TRACING */
/* #undef TOYWASM_ENABLE_TRACING_INSN */
#define TOYWASM_SORT_EXPORTS
#define TOYWASM_USE_JUMP_BINARY_SEARCH
/* #undef TOYWASM_USE_JUMP_CACHE */
#define TOYWASM_JUMP_CACHE2_SIZE 4
#define TOYWASM_USE_LOCALS_FAST_PATH
#define TOYWASM_USE_LOCALS_CACHE
#define TOYWASM_USE_SEPARATE_LOCALS
#define TOYWASM_USE_SMALL_CELLS
#define TOYWASM_USE_RESULTTYPE_CELLIDX
#define TOYWASM_USE_LOCALTYPE_CELLIDX
/* #undef TOYWASM_PREALLOC_SHARED_MEMORY */
#define TOYWASM_ENABLE_HEAP_TRACKING
#define TOYWASM_ENABLE_HEAP_TRACKING_PEAK
#define TOYWASM_ENABLE_WRITER
/* #undef TOYWASM_MAINTAIN_EXPR_END */
#define TOYWASM_ENABLE_WASM_SIMD
#define TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING
#define TOYWASM_EXCEPTION_MAX_CELLS 4
#define TOYWASM_ENABLE_WASM_EXTENDED_CONST
#define TOYWASM_ENABLE_WASM_MULTI_MEMORY
#define TOYWASM_ENABLE_WASM_TAILCALL
#define TOYWASM_ENABLE_WASM_THREADS
#define TOYWASM_ENABLE_WASM_CUSTOM_PAGE_SIZES
#define TOYWASM_ENABLE_WASM_NAME_SECTION
#define TOYWASM_ENABLE_WASI
#define TOYWASM_ENABLE_WASI_THREADS
/* #undef TOYWASM_ENABLE_WASI_LITTLEFS */
/* #undef TOYWASM_ENABLE_LITTLEFS_STATS */
#define TOYWASM_ENABLE_DYLD
#define TOYWASM_ENABLE_DYLD_DLFCN

#endif /* !defined(_TOYWASM_CONFIG_H) */
