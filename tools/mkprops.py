#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("P01", "Scalar linear-memory accesses stay inside the current memory",
 "A scalar load or store with dynamic address a, static offset o and width n succeeds exactly when a+o+n, computed without wrap-around, does not exceed the current byte size of the memory it names, and then it reads or writes exactly those n bytes of that memory. Otherwise it traps with the out-of-bounds trap and leaves every memory, global, table and local unchanged. This holds for every memory size from 0 to 4 GiB, for both 64 KiB and 1-byte pages, for every memory index, and also for memories whose host storage has not been fully materialised yet.",
 ["inputs", "programs"], "all addresses, offsets, widths, memory indices, memory sizes (0..4 GiB), page sizes and storage states",
 "Tests touch a few small memories and addresses; the boundary arithmetic depends on 32+32+width bit sums, page size and lazily grown storage, and the spec tests are not in the runnable suite.",
 ["lib/exec_insn_subr.c", "lib/insn_impl_base.h", "lib/insn_macros.h", "lib/instance.c"],
 [("bounds computation and lazy growth of the host buffer", "lib/exec_insn_subr.c memory_instance_getptr2"), ("load/store instruction templates", "lib/insn_impl_base.h")],
 [("size_in_pages / allocated", "guest-visible size vs host bytes behind it", "lib/instance.h struct meminst")],
 ["result of any load/store through the embedding API", "reported trap id"])

prop("P02", "Loads and stores convert values exactly",
 "A scalar load yields the little-endian value of the bytes at the effective address, sign- or zero-extended as its opcode says; a store writes exactly the low-order bytes of its operand in little-endian order and no other byte. A store followed by the same-width load at the same address returns the stored (wrapped) value, and operands and results occupy exactly the operand-stack positions the instruction type prescribes.",
 ["inputs"], "all 23 scalar load/store opcodes, all memory contents, all operand values (including NaN payloads)",
 "Value-exactness over 2^64 operands times 23 opcodes cannot be sampled; tests use a handful of values, mostly 32-bit.",
 ["lib/insn_impl_base.h", "lib/insn_macros.h", "lib/endian.c", "lib/cell.c"],
 [("LOADOP/STOREOP templates", "lib/insn_macros.h"), ("little-endian helpers", "lib/endian.c")],
 observe=["operand stack after the instruction", "memory bytes"])

prop("P03", "Bulk memory instructions are all-or-nothing and overlap-safe",
 "memory.copy, memory.fill and memory.init check both ranges completely before the first byte is written: they trap iff a range does not fit in its memory (or in the data segment, which counts as empty once dropped), and a trap writes nothing. On success the destination range holds exactly the source bytes as they were before the instruction (also when ranges overlap or lie in different memories), or the fill byte, and every other byte is unchanged; data.drop is idempotent.",
 ["inputs", "histories"], "all offsets, lengths, memory sizes, overlapping ranges, dropped and live segments",
 "Few bulk operations are executed by the runnable tests; wrap-around, zero-length-at-end, overlap and dropped-segment combinations are not.",
 ["lib/insn_impl_fc.h", "lib/exec_insn_subr.c"],
 [("memory_init, data_drop", "lib/exec_insn_subr.c"), ("memory_copy/memory_fill templates", "lib/insn_impl_fc.h")],
 [("data_dropped", "bitmap of dropped data segments", "lib/instance.h struct instance")],
 ["memory contents and trap id after the instruction"])

prop("P04", "Memory growth respects limits and preserves contents",
 "memory.grow by n returns the previous size in pages and makes the memory exactly n pages larger, or returns -1 and changes nothing; it never exceeds the declared maximum or the 4 GiB address space, never changes existing bytes, and new bytes read as zero. memory.size always reports the current page count, and a newly created memory has exactly its declared minimum size, zero-filled, with the storage it claims.",
 ["inputs", "histories"], "all current sizes, maxima, increments (full 32-bit range), page sizes, shared and unshared, host allocation failures",
 "Wrap-around of page counts, maxima at the address-space limit and allocation failure during growth are not sampled by tests.",
 ["lib/exec_insn_subr.c", "lib/instance.c", "lib/insn_impl_base.h"],
 [("memory_grow_impl / memory_instance_create", "lib/exec_insn_subr.c, lib/instance.c")],
 [("size_in_pages, allocated, type limits", "size state", "lib/instance.h")],
 ["memory.size/memory.grow results", "embedding API memory size"])

prop("P05", "Table instructions stay in bounds and move exactly the named elements",
 "table.get/set/fill/copy/init/grow and element segment initialisation act only on the elements whose indices they name and only if all of them are below the current table size (and segment size; dropped segments count as empty); otherwise they trap before changing anything. table.grow returns the old size and appends copies of the given reference, or returns -1 and changes nothing, never exceeding the maximum; table.size reports the current size.",
 ["inputs", "histories"], "all indices, lengths, table sizes and maxima, overlapping copies, reference types of any width",
 "Tests run a couple of table_size modules; index arithmetic near 2^32 and partial failures are unreachable for them.",
 ["lib/exec_insn_subr.c", "lib/insn_impl_base.h", "lib/insn_impl_fc.h"],
 [("table_access, table_init, table_grow, table_get, table_set", "lib/exec_insn_subr.c")],
 [("cells, size", "table contents in cells and size in elements", "lib/instance.h struct tableinst")],
 ["table contents, trap id"])

prop("P06", "An indirect call reaches only a function of the declared type",
 "call_indirect (and its tail-call form) transfers control to the function referenced by the indexed table element only if the index is in range, the element is not null and the function's type is structurally equal to the type the instruction names. In each other case it traps with the trap specific to that cause, before any argument is consumed or any frame is created; two types are equal exactly when their parameter and result sequences are.",
 ["inputs", "programs"], "all table contents, indices, declared and actual function types of any length, wasm and host functions",
 "Control-flow integrity must hold for every pair of types; tests exercise a few matching calls.",
 ["lib/exec_insn_subr.c", "lib/insn.c", "lib/insn_impl_control.h", "lib/insn_impl_tailcall.h", "lib/type.c"],
 [("table_get_func", "lib/exec_insn_subr.c"), ("compare_functype/compare_resulttype", "lib/type.c")],
 observe=["callee entered, trap id"])

prop("P07", "Integer instructions compute the WebAssembly-specified results",
 "Every i32/i64 arithmetic, bitwise, shift, rotate, comparison, count, sign-extension, wrap/extend and constant instruction produces the result the WebAssembly specification defines for every operand pair. Division and remainder trap exactly on a zero divisor, and signed division additionally on overflow; no instruction changes anything except its own operand-stack slots and the position in the code.",
 ["inputs"], "all i32/i64 integer opcodes, all operand values (2^64..2^128 combinations)",
 "The space is 2^128 per opcode; the spec tests that sample it need downloads and do not run here.",
 ["lib/insn_impl_base.h", "lib/insn.c", "lib/insn_op.h", "lib/insn_op_helpers.h"],
 [("BINOP/UNOP/EXTOP/CMPOP templates and opcode dispatch", "lib/insn_impl_base.h, lib/insn_list_base.h, lib/insn.c")],
 observe=["operand stack", "trap id"])

prop("P08", "Floating-point instructions follow WebAssembly semantics",
 "Every f32/f64 comparison, arithmetic, min/max, abs/neg/copysign, rounding and conversion instruction yields the IEEE-754 round-to-nearest-even result the specification prescribes, including signed zeros, infinities and NaN (a NaN result wherever NaN is required). Truncations to integers trap exactly for NaN (invalid conversion) and out-of-range operands (overflow), their saturating forms clamp instead, and sign-bit operations and reinterpretations preserve NaN payload bits.",
 ["inputs"], "all f32/f64 opcodes, all bit patterns",
 "Boundary values such as 2^31-0.5, -0.0 and signalling NaNs are specific single points out of 2^64; float spec tests are not runnable here.",
 ["lib/insn_impl_base.h", "lib/insn_impl_fc.h", "lib/insn.c", "lib/insn_op_helpers.h"],
 [("wasm_fmin/fmax, TRUNC templates, copysign", "lib/insn.c, lib/insn_op_helpers.h")],
 observe=["operand stack", "trap id"])

prop("P09", "Vector (SIMD) instructions act lane-wise as specified",
 "Every 128-bit vector instruction computes, for each lane, the result the specification defines (wrapping, saturating, widening, narrowing, comparison masks, shuffles, swizzles, bit operations, lane extraction/replacement), with lane 0 at the lowest byte address, and leaves everything else unchanged. Vector loads and stores access exactly the bytes their opcode names, extend/splat/zero as specified, and trap without effect when any accessed byte is out of bounds.",
 ["inputs"], "all SIMD opcodes, all 2^128..2^256 operand values, all lane immediates accepted by validation",
 "SIMD is covered by no runnable test in the suite.",
 ["lib/insn_impl_simd.h", "lib/insn_list_simd.h", "lib/insn_op_helpers.h", "lib/endian.c"],
 [("LANE_* and SIMD_* templates", "lib/insn_impl_simd.h")],
 observe=["operand stack", "memory", "trap id"])

prop("P10", "Atomic instructions check alignment and perform the exact read-modify-write",
 "Every atomic load, store, read-modify-write and compare-exchange first traps on an out-of-bounds address, then on an address that is not naturally aligned, and otherwise returns the old zero-extended value and stores exactly the specified new value at that width, leaving all other bytes unchanged. Compare-exchange stores only if the full-width expected operand equals the zero-extended old value; wait on a non-shared memory traps, and wait on a differing value returns \"not-equal\" without blocking.",
 ["inputs"], "all atomic opcodes, operand values, addresses, offsets and memory sizes, shared and non-shared",
 "Only one wait test runs; sub-word compare-exchange and alignment/bounds ordering are not exercised.",
 ["lib/insn_impl_threads.h", "lib/exec_insn_subr.c"],
 [("ATOMIC_* templates", "lib/insn_impl_threads.h"), ("memory_atomic_getptr, memory_wait, memory_notify", "lib/exec_insn_subr.c")],
 observe=["operand stack", "memory", "trap id"])

prop("P11", "Branches land on their label and keep exactly the label's values",
 "After a taken br, br_if, br_table or a fallthrough at the end of a block, execution continues exactly at the position structured control flow defines (after the matching end, at the loop start, or in the else part), and the operand stack consists of the values below the target block's entry followed by exactly the label's result (for loops: parameter) values, in order. The outcome is the same with and without precomputed jump tables, with any state of the branch caches, and br_table with an out-of-range index takes the default target.",
 ["inputs", "programs", "configurations", "histories"], "all stack heights, label depths, arities, value widths, jump-table contents and cache states",
 "Tests compare a few dozen programs with and without jump tables; the stack-rewind arithmetic and lookup must be right for every table and every history of cached branches.",
 ["lib/exec.c", "lib/insn_impl_control.h", "lib/insn.c", "lib/expr.c", "lib/cell.c"],
 [("rewind_stack, branch_to_label, do_branch, jump_table_lookup, jump cache", "lib/exec.c")],
 [("labels, stack, jump table", "control stack, operand stack, precomputed targets", "lib/exec_context.h, lib/type.h struct expr_exec_info")],
 ["values and trace of any structured program"])

prop("P12", "Calls pass arguments, zero locals, and trap instead of overflowing",
 "On a call the callee sees exactly the caller's arguments in its parameter locals and zero/null in all its other locals; on return the caller sees exactly the declared results in place of the arguments and nothing else of its operand stack, locals or control stack changed. local.get/set/tee and global.get/set read and write exactly the named variable. When the configured frame or operand-stack limit would be exceeded the call traps and no memory outside the interpreter's stacks is ever written.",
 ["inputs", "programs", "configurations"], "all signatures, local layouts, value widths, stack depths and limits",
 "Tests recurse in a few programs; the per-function cell layout and limit arithmetic must be right for every signature and depth.",
 ["lib/exec.c", "lib/insn.c", "lib/insn_impl_base.h", "lib/cell.c", "lib/type.c"],
 [("frame_enter/frame_exit, local cell indices", "lib/exec.c, lib/cell.c")],
 [("frames, locals, stack", "call stack, locals cells, operand stack", "lib/exec_context.h")],
 ["values observed in callee and caller", "trap id"])

prop("P13", "A thrown exception reaches the innermost matching handler intact",
 "A thrown exception transfers control to the nearest dynamically enclosing try_table whose catch clauses match its tag (or catch-all), choosing the first matching clause in order, with the operand stack unwound to the handler's label and exactly the payload values (and the exception reference, for the _ref forms) pushed. If no handler exists in any active frame, execution ends with the uncaught-exception trap; rethrowing a null exception reference traps.",
 ["inputs", "programs"], "all nestings, clause lists, tags and payload shapes",
 "The EH tests are a handful of fixed modules.",
 ["lib/exec.c", "lib/insn_impl_eh.h", "lib/type.c"],
 [("find_catch, do_exception, throw templates", "lib/exec.c, lib/insn_impl_eh.h")],
 observe=["handler entered, payload values, trap id"])

prop("P14", "The validator types every instruction exactly as the specification does",
 "For every plain instruction the validator accepts the instruction exactly when the operand types on its stack (down to the current block's base, with unknown types after unreachable code) match the instruction's specified parameter types, and then replaces them by the specified result types. It never pops below the current block's base, treats unreachable code polymorphically, and rejects a block whose end or branch does not supply exactly the label's types.",
 ["programs", "inputs"], "all opcodes, all operand-stack contents and heights, reachable and unreachable code",
 "Negative validation cases come from spec tests that do not run here; type soundness of execution (no operand checks at run time) depends on every single opcode.",
 ["lib/validation.c", "lib/insn_macros.h", "lib/insn_impl_base.h", "lib/insn_impl_control.h", "lib/insn_impl_fc.h", "lib/insn_impl_simd.h", "lib/insn_impl_threads.h"],
 [("push/pop_valtype, ctrlframes, per-opcode POP/PUSH", "lib/validation.c, lib/insn_impl_*.h")],
 [("valtypes, cframes", "operand type stack and control stack of the validator", "lib/validation.h")],
 ["module load success/failure"])

prop("P15", "The validator rejects every out-of-range immediate",
 "Code that names a function, type, table, memory, global, local, label, data segment, element segment, tag or lane outside the ranges the module defines is rejected at load time, as are alignments above the natural alignment (or different from it for atomics), writes to immutable globals, undeclared function references, segment instructions without a data count, and non-constant instructions in constant expressions. In-range immediates are accepted with their decoded value used unchanged.",
 ["programs", "inputs"], "all immediates of all opcodes over the full 32-bit range, all module shapes",
 "At run time these indices are used unchecked, so one missing comparison is a host memory-safety hole; tests contain almost no invalid modules.",
 ["lib/insn_impl_base.h", "lib/insn_impl_control.h", "lib/insn_impl_fc.h", "lib/insn_impl_simd.h", "lib/insn_impl_threads.h", "lib/insn.c", "lib/insn_macros.h", "lib/decode.c"],
 [("CHECK(...) conditions in the instruction templates; read_memarg; read_memidx", "lib/insn_impl_*.h, lib/insn.c")],
 observe=["module load success/failure"])

prop("P16", "LEB128 integers decode exactly, canonically bounded and in bounds",
 "Decoding an N-bit signed or unsigned LEB128 integer succeeds exactly for the byte sequences the specification allows (at most ceil(N/7) bytes, unused bits of the last byte zero or sign-extended), returns the value they denote and advances exactly past them; it fails otherwise without advancing. It never reads a byte at or beyond the end of the input.",
 ["inputs"], "all byte sequences and all input lengths, N in {1,5,7,32,33,64} as used",
 "The unit tests sample a table of values; over-long and truncated encodings form a space of 2^80.",
 ["lib/leb128.c", "lib/decode.c"],
 [("read_leb and its typed wrappers; the unchecked decoders used at run time", "lib/leb128.c")],
 observe=["return value, output value, cursor"])

prop("P17", "Module decoding never reads outside the input and rejects malformed types",
 "Every decoder of module structure (headers, sections, vectors, names, value types, limits, table, memory, global, tag, import and export descriptors) reads only bytes inside the given buffer, and accepts exactly the encodings the binary format defines: known type bytes, min not above max, maxima within the type's range, shared memories with a maximum, supported page sizes, and well-formed UTF-8 names. Rejection leaves the loader able to release everything it allocated.",
 ["inputs"], "all input byte sequences and lengths",
 "Hostile bytes are the untrusted input of the program; the tests load well-formed modules only.",
 ["lib/module.c", "lib/decode.c", "lib/leb128.c"],
 [("read_limits, read_valtype, read_name/check_utf8, section framing", "lib/module.c")],
 observe=["module_create result"])

prop("P18", "Imports link only to definitions of a matching type",
 "Instantiation binds an import only to a definition with the same module and field name and a matching type: equal function and tag types, equal value type and mutability for globals, equal element type and page size/sharedness, and actual limits at least as large as the required minimum and, if a maximum is required, with a maximum not above it. Otherwise it fails with an error and creates no instance.",
 ["inputs", "programs"], "all limits, types, names and import-object lists",
 "Negative linking cases are in the unavailable spec tests.",
 ["lib/instance.c", "lib/import_object.c", "lib/type.c"],
 [("match_limits, check_* , import_object_find_entry", "lib/instance.c, lib/import_object.c")],
 observe=["instance_create result"])

prop("P19", "Names and exports resolve to exactly the entity the module declares",
 "Looking up an export by name and kind returns the index of the export with byte-wise equal name and that kind, or not-found if there is none, for every export table; names that differ in any byte or in length are distinct, and duplicate export names are rejected at load time. Looking up the functions, globals, memories and tables by index returns their declared type whether they are imported or defined.",
 ["inputs", "programs"], "all export tables, names (including embedded NUL and shared prefixes) and index spaces",
 "Lookup uses sorted tables and binary search; tests look up a few names.",
 ["lib/type.c", "lib/module.c"],
 [("module_find_export, compare_name, module_functype/memtype/tabletype/globaltype", "lib/type.c")],
 observe=["module_find_export result"])

prop("P20", "Heap accounting is exact and the configured limit is never exceeded",
 "With a memory limit configured, the bytes accounted to a context (and to each of its parents) always equal the sum of the sizes of its live allocations and never exceed the limit; an allocation that would exceed it, or whose size computation overflows, fails without changing the accounting. Extending, shrinking and freeing adjust the accounting by exactly the size difference, and growable arrays never expose elements outside their allocation.",
 ["inputs", "histories", "fault_sequences"], "all sizes, limits, nesting of contexts, allocation-failure patterns",
 "Failure paths at every allocation and size_t overflow are not reached by tests.",
 ["lib/mem.c", "lib/vec.c"],
 [("mem_reserve/mem_unreserve, mem_alloc/mem_extend/mem_shrink/mem_free, _vec_resize/_vec_prealloc", "lib/mem.c, lib/vec.c")],
 [("allocated, limit, parent", "accounting state", "lib/mem.h")],
 ["allocation results and reported usage"])

prop("P21", "Host functions touch guest memory only through full bounds checks",
 "Copying between host and guest memory on behalf of a host function happens exactly when the guest range lies inside the current guest memory and the guest address has the required alignment; otherwise the call traps and neither side is modified. Element counts are multiplied without wrap-around before a range is checked, and a missing memory traps rather than being dereferenced.",
 ["inputs"], "all guest pointers, lengths, alignments, memory sizes",
 "Guest pointers are attacker-controlled 32-bit values; tests pass valid ones.",
 ["lib/host_instance.c", "lib/exec_insn_subr.c"],
 [("host_func_copyin/copyout/getptr/check_align/mul_size", "lib/host_instance.c")],
 observe=["trap id, guest memory"])

prop("P22", "WASI never lets guest vectors, paths or lengths escape guest memory",
 "For every guest-supplied vector of buffers, path, or result pointer, WASI calls read and write only bytes inside the guest memory and host buffers large enough for them, and report an error or trap otherwise. Results written back (counts, descriptors, sizes, directory entries, stat records) have the little-endian layout the ABI defines and never exceed the buffer length the guest gave.",
 ["inputs"], "all guest-supplied pointers, counts, lengths",
 "WASI tests pass well-formed arguments only.",
 ["libwasi/wasi_uio.c", "libwasi/wasi_path_subr.c", "libwasi/wasi_subr.c", "libwasi/wasi_abi_environ.c", "libwasi/wasi_abi_fd.c"],
 [("wasi_copyin_iovec, wasi_copyin_and_convert_path, wasi_copyout*", "libwasi/wasi_uio.c, libwasi/wasi_path_subr.c")],
 observe=["guest memory, errno results"])

prop("P23", "WASI descriptors stay unique, live and reference-counted",
 "A descriptor number handed to the guest refers to exactly one open object until it is closed or renumbered; opening picks an unused number, closing frees exactly that number, renumbering moves one object and closes the one it replaces, and an unknown number always yields the bad-descriptor error. Descriptor lookups keep the object alive until released, and no sequence of guest calls drops a live object or uses a released one.",
 ["inputs", "histories"], "all table contents, descriptor numbers (full 32-bit range), call sequences",
 "Stale or huge descriptor numbers and self-renumbering are not tried by tests.",
 ["libwasi/wasi_table.c", "libwasi/wasi_fdinfo.c", "libwasi/wasi_fdtable.c", "libwasi/wasi_abi_fd.c"],
 [("wasi_table_* and wasi_fdinfo refcounts; wasi_fd_renumber", "libwasi/wasi_table.c, libwasi/wasi_abi_fd.c")],
 [("fdtable slots, refcount", "descriptor table and object references", "libwasi/wasi_impl.h")],
 ["errno results of WASI calls"])

prop("P24", "Time arithmetic is exact and reports overflow instead of wrapping",
 "Conversions between absolute times, relative times, nanoseconds, milliseconds and time structures return exactly the mathematically correct value (timeouts rounded up, never down) whenever it is representable, keep nanoseconds within one second, and otherwise report overflow. Comparison orders times correctly, and an already-passed deadline converts to a zero relative time.",
 ["inputs"], "all time values (full 64-bit seconds and nanoseconds), all durations",
 "The unit tests sample a few values near the limits.",
 ["lib/timeutil.c"],
 [("timespec_add/sub/cmp, abstime_* and convert_timespec", "lib/timeutil.c")],
 observe=["return codes and time values", "poll/wait timeouts"])

prop("P25", "Dynamically linked modules get disjoint, aligned, in-bounds regions",
 "For every sequence of loaded libraries, the dynamic linker gives each library a linear-memory region and a table region of the requested size, aligned as requested, lying inside the memory/table after growth and disjoint from every region handed out before, including stack and heap. If the request cannot be satisfied (overflow, limit, out of memory) loading fails with an error and nothing already allocated is disturbed.",
 ["inputs", "histories"], "all sizes, alignments, current bases and memory limits declared by (untrusted) libraries",
 "The dynamic-linking tests are not in the runnable suite; sizes come from untrusted custom sections.",
 ["libdyld/dyld.c"],
 [("dyld_allocate_memory/table, align_up_log", "libdyld/dyld.c")],
 [("memory_base, table_base", "first unallocated address/element", "libdyld/dyld_impl.h")],
 ["addresses given to libraries, load result"])

prop("P26", "Allocated ids are unique, in range and reusable after release",
 "An id allocator only hands out ids inside its configured range that are not currently allocated, associates each with the pointer given, reports failure only when no id or memory is available, and a released id may be handed out again. Looking up, testing or releasing an id refers to exactly that id and never to storage outside the allocator, for every range including those ending at the largest 32-bit value.",
 ["inputs", "histories"], "all ranges, all occupancy states, all ids",
 "Unit tests use one small range and a short history.",
 ["lib/idalloc.c", "lib/vec.c"],
 [("idalloc_alloc/free/test/get/set", "lib/idalloc.c")],
 [("vec, lastid", "occupancy", "lib/idalloc.h")],
 ["ids returned to guests as thread ids / descriptors"])

prop("P27", "Values cross the embedding API and the operand stack unchanged",
 "Pushing typed values onto the interpreter stack and popping them with the same types returns bit-identical values for every value type and every sequence of types, and the cell position computed for the i-th element of a type sequence equals the sum of the widths of the elements before it. Copying and moving cells transfers exactly the requested number of cells in order, including overlapping moves, and touches nothing else.",
 ["inputs", "configurations"], "all value types, type sequences, values, positions",
 "Width bookkeeping must be right for all mixes of 32/64/128-bit and reference values; unit tests cover none of it.",
 ["lib/cell.c", "lib/cell.h", "lib/exec.c", "lib/type.c", "lib/cconv.c"],
 [("val_to_cells/val_from_cells, cells_copy/move, resulttype_cellidx, exec_push_vals/exec_pop_vals", "lib/cell.c, lib/exec.c")],
 observe=["values returned from exported functions"])

prop("P28", "Traps and interruptions leave a consistent, resumable machine state",
 "When an instruction fails with a trap, the failure carries the trap id of its cause and no later instruction executes; when it is interrupted restartably, its operands are still on the operand stack and the code position still names the same instruction, so that resuming re-executes it with the same operands. The interruption check requests restart, termination or suspension exactly when the embedder asked for it.",
 ["inputs", "histories", "programs"], "all instructions that can trap or be interrupted, all operand values, all interruption points",
 "Interruption points are asynchronous; tests interrupt a couple of infinite loops.",
 ["lib/insn.c", "lib/exec.c", "lib/exec_insn_subr.c", "lib/restart.c", "lib/suspend.c"],
 [("INSN_FAIL_RESTARTABLE, trap_with_id, check_interrupt, exec_expr_continue", "lib/insn.c, lib/exec.c")],
 observe=["execution result, trap id, continued execution result"])

prop("P29", "Instance creation initialises exactly what the module declares",
 "A new instance's globals hold the values of their initialiser expressions, its tables and memories contain exactly the active segments written at their offsets in order (all bounds-checked) and null/zero elsewhere, and active and declarative segments are dropped afterwards. Any out-of-bounds segment or trapping start function makes instantiation fail with that trap, after which the instance can be destroyed safely.",
 ["inputs", "programs"], "all segment lists, offsets, initialiser expressions",
 "Tests instantiate a few modules; failing segments in the middle of the list are not covered.",
 ["lib/instance.c", "lib/exec_insn_subr.c"],
 [("instance_create_no_init/instance_execute_init", "lib/instance.c")],
 observe=["instance state after creation"])

prop("P30", "Written modules decode back to the same module",
 "Serialising a loaded module produces bytes that decode to an equivalent module: every integer, name, type, limit, segment and descriptor is encoded such that decoding yields the same value, and writing reports an error rather than producing a module that does not decode.",
 ["inputs", "programs"], "all module contents the loader accepts",
 "One sample module is written and compared in tests.",
 ["lib/module_writer.c"],
 [("write_leb and the section writers", "lib/module_writer.c")],
 observe=["written bytes reloaded"])

prop("P31", "Untrusted names are rendered as safe printable text",
 "Rendering any untrusted name for messages yields only printable ASCII characters, escapes every other byte and the escape character itself so that distinct names stay distinguishable, and never writes beyond the buffer, whatever the name's length and contents; over-long names are visibly truncated.",
 ["inputs"], "all byte sequences and lengths",
 "The unit test uses a few names.",
 ["lib/escape.c"],
 [("escape_name and its length computation", "lib/escape.c")],
 observe=["log output, error messages"])

prop("P32", "Lists, bitmaps and growable arrays behave as their abstract sequences",
 "Inserting, removing and iterating the internal linked lists yields exactly the sequence of elements an abstract list would hold, setting and clearing a bit changes exactly that bit, and resizing an array preserves the elements below both sizes. This holds for every length and position, and no operation touches memory outside its structure.",
 ["inputs", "histories"], "all lengths, positions, operation sequences",
 "Unit tests run one fixed sequence per structure.",
 ["lib/list.c", "lib/slist.c", "lib/bitmap.c", "lib/vec.c"],
 [("list_*/slist_* functions, bitmap_*, _vec_resize", "lib/list.c, lib/slist.c, lib/bitmap.c, lib/vec.c")],
 observe=["behaviour of every component that uses them"])

prop("P33", "Waiting threads are never lost or woken twice under any schedule",
 "Under every interleaving of wait, notify, timeout and suspension, each waiter is woken at most once, a notify wakes exactly min(count, waiters) threads and reports that number, and a stop-the-world suspension parks every running thread exactly once and releases all of them.",
 ["schedules", "histories"], "all thread interleavings",
 "Schedules cannot be enumerated by tests.",
 ["lib/waitlist.c", "lib/suspend.c", "lib/cluster.c", "lib/usched.c", "libwasi_threads/wasi_threads.c"],
 [("waiter list lock and condition variables; cluster parking protocol", "lib/waitlist.c, lib/suspend.c")],
 observe=["return values of memory.atomic.wait/notify, progress"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
