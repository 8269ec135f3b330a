#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script only so that the text is editable).
import os, json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

X=["include/rseq/arch/x86/bits.h","include/rseq/arch/x86.h"]
CS=["include/rseq/rseq.h"]+X
p("C01","Restartable operations are all-or-nothing under any interruption",
 "On x86-64, every restartable per-CPU helper operation that is preempted, migrated or interrupted by a signal any number of times at any instruction either completes exactly once, with the result and memory effects it would have had if executed in one instant while its thread was on the requested CPU (or concurrency id) and not interrupted, or reports abort without having changed the committed word. An attempt that aborts may only have written the operation's documented speculative destination (second word, copy destination, loaded-value slot). It reports abort only if it was interrupted inside the sequence or the requested index was not the current one.",
 ["schedules","inputs","histories"],
 "every helper x indexing mode x ordering, every instruction boundary as interruption point, any number of interruptions, any concurrent change made by whoever runs during the interruption, any operand values",
 "param_test loops with delay loops injected at a handful of points and hopes the scheduler preempts there; the instruction between load and commit, the commit instruction boundary and the abort path are hit by luck only.",
 CS,[("critical section start/post-commit/abort layout","include/rseq/arch/x86/bits.h every helper"),("abort handlers in separate section","include/rseq/arch/x86.h RSEQ_ASM_DEFINE_ABORT")],
 ["return value and all memory reachable from the operands, after the call"])
p("C02","Helper results match the published pseudo-code for every operand",
 "On x86-64, an uninterrupted restartable helper invoked on the current CPU (or concurrency id) returns the value and produces exactly the memory changes its published pseudo-code prescribes, for all operand values, signs, offsets, lengths (including zero and large copies), alignments and operands that coincide or alias, and writes to no other memory. This holds for the plain and the double-check (compare twice) builds, whatever compiler, language and optimisation level the caller uses.",
 ["inputs","configurations"],
 "all operand values incl. extreme and aliasing ones, immediate vs register operands, copy lengths and overlaps, gcc/clang, C/C++, -O0..-O3, compare-twice on/off",
 "the tests use a few small values (list nodes, counters incremented by 1, 3-word copies) and one compiler/optimisation level.",
 CS+["include/rseq/pseudocode.h"],[("asm bodies","include/rseq/arch/x86/bits.h")],["return value; every byte of guarded operand memory"])
p("C03","No effect unless registered, on the named CPU, in a supported mode",
 "A restartable helper changes nothing and reports abort whenever the calling thread is not registered, or the index it is given differs from the index (CPU number or concurrency id, per the requested mode) the thread currently runs on, including negative and out-of-range indexes. Unsupported orderings and unsupported indexing modes are reported as failure without touching memory, and a supported combination is never rejected when the index matches.",
 ["inputs","configurations","histories"],
 "registration state (never, registered, unregistered again, registration failed), index relation, all ordering/mode enum values and out-of-enum values, all helpers",
 "unregistered_test covers two helpers with one index; nothing covers wrong index, wrong mode or unsupported orderings.",
 CS,[("index comparison against the registered area inside the sequence","include/rseq/arch/x86.h RSEQ_ASM_CBNE_CPU_ID"),("ordering/mode dispatch","include/rseq/rseq.h rseq_load_*__ptr")],["return value; operand memory"])
p("C04","Per-CPU data structures stay consistent under any thread schedule",
 "Per-CPU counters, linked lists (push/pop), pointer buffers, copied-item buffers, indirect counters and locks built from the helpers the way the documentation and tests build them lose no update, duplicate no element, pop in LIFO order per CPU and never grant a lock twice, under every interleaving, preemption and migration of any number of threads over any number of CPUs, in both indexing modes.",
 ["schedules","histories"],
 "all interleavings at instruction granularity of several threads executing generated programs over shared per-CPU structures with generated migrations",
 "the existing stress tests sample whatever the host scheduler produces and only check end totals.",
 CS,[("helpers","include/rseq/arch/x86/bits.h"),("index discovery","include/rseq/rseq.h rseq_cpu_start/rseq_current_mm_cid")],["contents of the structures and return values of each operation"])
p("C05","Every critical section is well-formed for the kernel and debuggers",
 "Every critical section emitted for an x86-64 helper has a valid descriptor (version 0, flags 0, aligned, non-empty range containing exactly the code up to and including its commit instruction, abort handler outside the range and preceded by the registered signature), so that a registered thread interrupted by the kernel at any of its instructions lands in the abort handler and never faults. Each descriptor is listed in the debugger tables and every way out of the range other than commit and abort leads to a listed exit point, and preparing for unload leaves no dangling descriptor reference.",
 ["inputs","configurations","schedules"],
 "every helper instance in generated translation units (helper x mode x compiler x optimisation x language), every instruction boundary, real kernel interruption and decoded tables",
 "the kernel validates only the descriptor that happens to be active when an interruption hits; tables for debuggers are never checked at all.",
 X+["include/rseq/arch/generic/common.h","include/rseq/rseq.h"],[("descriptor/table/exit-point macros","include/rseq/arch/generic/common.h"),("abort signature","include/rseq/arch/x86.h")],["ELF sections of the compiled helper, kernel behaviour on interruption"])
p("C06","Caller state survives every exit path of a helper",
 "Whatever path a helper leaves by (success, mismatch, abort before, during or after speculative work), every live variable of the caller other than documented outputs, including the operands themselves, keeps its value, in every compiler, optimisation level and register-pressure situation. The stack pointer, callee-saved registers and direction flag are as the ABI requires.",
 ["schedules","inputs","programs"],
 "generated callers that keep many values live across the call and reuse the operands afterwards; every exit path incl. interruption at every instruction",
 "wrong clobbers or a missing restore on one exit path only show with a caller that keeps the right value in the right register on that path; the tests' callers discard their operands.",
 X,[("clobber lists and operand teardown","include/rseq/arch/x86/bits.h")],["all caller variables after the call"])
p("C07","Thread registration lifecycle is correct under any history and fault",
 "When the library owns registration, registering a thread makes the kernel use that thread's own area, with the size and signature required by the kernel, and makes CPU number, node and concurrency id readable; unregistering releases exactly that registration, after which the thread can register again. A kernel refusal is reported as failure (never as success) and an incoherent refusal after a success terminates the process; when the C library owns registration, both calls, and the end of the library, leave the C library's registration untouched and usable, and both calls succeed.",
 ["histories","fault_sequences","configurations"],
 "generated sequences of register/unregister across several threads with kernel errors injected at any call, library-owned and libc-owned, any kernel feature size",
 "syscall_errors_test and no_syscall_test inject one errno on the first call; repeated and multi-thread histories and larger kernel feature sizes are not reachable on the host.",
 ["src/rseq.c"],[("register/unregister","src/rseq.c rseq_register_current_thread, rseq_unregister_current_thread"),("per-thread area","src/rseq.c __rseq_abi")],["arguments of the rseq system call, return values, the exported area offset/size"])
p("C08","Exposed feature set never exceeds what is allocated and supported",
 "For every combination of C-library registration data and kernel-advertised feature size, the exposed size is the intersection of what the registered area holds and what the kernel supports: 0 until a successful registration when the library owns it, the kernel size (20 if unadvertised) after that, capped at 32 for a C library exposing 20 or 32, the C library's own value otherwise. The exposed offset and flags designate the area actually registered, and availability queries for the kernel, the C library, the node id and the concurrency id agree with that.",
 ["configurations","fault_sequences"],
 "libc symbol presence x libc size/offset/flags x kernel feature size/align x rseq system call availability, all generated",
 "one host has exactly one libc and one kernel; every other combination in the field is untested.",
 ["src/rseq.c","include/rseq/rseq.h"],[("init","src/rseq.c rseq_init"),("queries","include/rseq/rseq.h rseq_node_id_available, rseq_mm_cid_available; src/rseq.c rseq_available")],["exported size/offset/flags and query results"])
p("C09","Detected maximum CPU count covers every possible CPU id",
 "The detected maximum number of CPUs is one more than the highest CPU id in the system's possible-CPU list whenever that list is readable, however it is punctuated and however reads are split or interrupted; otherwise it is the larger of the configured-processor count and one more than the highest CPU directory number. If every source fails it is 0 and a later call tries again; once known, the value does not change for the life of the process, and pools that auto-detect use it.",
 ["inputs","fault_sequences"],
 "generated possible lists, malformed content, short/interrupted/failed reads, directory listings with decoys, sysconf values",
 "no test exercises the detection beyond whatever the test host's /sys contains; other lists, read faults, the fallback combination and caching are never reached.",
 ["src/smp.c"],[("mask parsing, fallback and cache","src/smp.c")],["return value of the query; max CPU count of an auto-detected pool"])
p("C10","Current CPU and node queries are truthful",
 "The current-CPU query returns the CPU the thread runs on whether or not it is registered (using the fallback when it is not), the raw query returns that CPU when registered and a negative value when not, and the start-CPU query always returns a possible CPU number. The node queries, where available, return the NUMA node of that CPU, and when the system cannot tell, the fallback queries fail (the CPU query by terminating) rather than return an invented CPU or node.",
 ["histories","configurations","fault_sequences"],
 "generated pinning/registration histories on the real kernel, generated field values, injected getcpu failures",
 "tests pin once per CPU while registered and never check the unregistered, fallback or node paths.",
 ["include/rseq/rseq.h","src/rseq.c"],[("queries","include/rseq/rseq.h rseq_current_cpu*, rseq_cpu_start"),("fallbacks","src/rseq.c rseq_fallback_current_cpu, rseq_fallback_current_node")],["return values"])
MP=["src/rseq-mempool.c","include/rseq/mempool.h"]
p("C11","Live pool items never overlap and keep their content per CPU",
 "For any pool configuration and any sequence of allocations, frees and writes, each live item has, on every CPU of the pool, item-size bytes of readable and writable memory, aligned to the item size, disjoint from every other live item and CPU. Data written through one item on one CPU stays there unchanged until that item is freed, whatever else is allocated, freed or grown meanwhile.",
 ["histories","configurations"],
 "all item sizes, strides (incl. beyond 4 GiB in total), CPU counts, policies, robust/poison settings, global and per-CPU pools, several pools at once, long alloc/free/write histories crossing range growth",
 "the tests allocate until full once, with default stride and a few items.",
 MP,[("range layout and offsets","src/rseq-mempool.c rseq_mempool_range_create, __rseq_percpu_malloc, librseq_mempool_percpu_free"),("per-CPU addressing","include/rseq/mempool.h rseq_percpu_ptr")],["bytes read through the per-CPU pointers"])
p("C12","Zeroed and initialised allocations have that content on every CPU",
 "An item obtained from a zeroing allocation reads as zero over its whole size on every CPU, and one obtained from an initialising allocation reads as the given bytes over the given length on every CPU, no matter what the recycled memory contained on each CPU, which policy the pool uses or whether pages were already written. Initialising one item never changes the bytes of another live item on any CPU.",
 ["histories","inputs","configurations"],
 "all policies/poison/robust settings, item sizes, initial lengths 0..item size, per-CPU divergent previous contents, neighbouring items on the same page",
 "tests zero-allocate fresh memory only and never recycle memory that different CPUs left different.",
 MP,[("zero/init item","src/rseq-mempool.c rseq_percpu_zero_item, rseq_percpu_init_item")],["bytes read on each CPU immediately after allocation and on neighbours"])
p("C13","Pool capacity, growth limit and reuse are exact",
 "A pool hands out exactly (stride / item size) items per range and grows by whole ranges up to its configured maximum (unlimited when none), an allocation succeeding whenever a freed item or unused space exists and failing with ENOMEM, with no other effect, only when none does. Every freed item becomes allocatable again, so no capacity is ever lost through any history.",
 ["histories","configurations"],
 "all item sizes/strides/range limits; histories of allocation to exhaustion, partial frees, reallocation, failed attempts",
 "tests fill one pool once and do not check exact counts, limits over 1 or reuse after failure.",
 MP,[("free list and range growth","src/rseq-mempool.c __rseq_percpu_malloc, rseq_mempool_range_create")],["success/failure and errno of each allocation"])
p("C14","Robust pools catch misuse and never accuse correct programs",
 "A robust pool terminates the process when an item is freed twice, when the pool is destroyed while items are still allocated, when a freed item's memory was modified on any CPU before it is reallocated or the pool is destroyed, and when its free list was corrupted before destruction. A program that commits no such misuse is never terminated, whatever it allocates, writes, frees or destroys.",
 ["histories","configurations"],
 "histories with one injected misuse of each kind at any item/CPU/word/time, and histories without; all policies, poison values, sizes, growth",
 "tests inject one instance of each misuse at a fixed place.",
 MP,[("alloc bitmap, poison checks, free-list checks","src/rseq-mempool.c set/clear_alloc_slot, rseq_percpu_check_poison_item, check_free_list, check_pool_poison, destroy_alloc_bitmap")],["abort vs normal completion of the process"])
p("C15","Freed items are overwritten with the poison value on every CPU",
 "When a poison value is configured (or implied by the robust setting), after an item is freed its whole content on every CPU equals the poison value in every word, except possibly its first word in non-robust pools, so no freed data beyond it remains readable through later allocations. Freeing never alters any other live item.",
 ["histories","configurations"],
 "all poison values incl. 0 and defaults, policies, sizes, per-CPU divergent content, neighbours sharing pages",
 "tests only check that a later corruption is detected, not that old content is gone on every CPU.",
 MP,[("poisoning on free","src/rseq-mempool.c rseq_percpu_poison_item, librseq_mempool_percpu_free")],["bytes visible on each CPU after free and after plain reallocation"])
p("C16","Untouched CPUs consume no private memory",
 "Creating a pool, allocating, zero-allocating or (for the copy-on-init policy) initialising items does not make the kernel allocate private pages for CPUs that never write, and a CPU that writes gets private copies only for the pages holding the items it wrote. Freeing items populates no page of a CPU that never wrote either, under the copy-on-init policy and under the zero-page policy with no or the default poison (except for the free-list link a non-robust zero-page pool keeps in CPU 0's memory).",
 ["histories","configurations"],
 "histories of allocation kinds and per-CPU writes over policies, strides, CPU counts; page residency of every CPU page compared with a model",
 "page residency is invisible to functional tests.",
 MP,[("compare-before-write","src/rseq-mempool.c rseq_percpu_zero_item, rseq_percpu_init_item, rseq_percpu_poison_item"),("private mapping of the init file","src/rseq-mempool.c rseq_mempool_range_create")],["kernel page map of the pool memory"])
p("C17","Pools behave as documented across fork",
 "After fork, the parent's pools, items and contents are unaffected by anything the child does, including destroying them; a zero-page-policy pool stays fully usable in the child as a private copy. A copy-on-init pool can be destroyed in the child at any later time, in any state of the parent's items, releasing only what the child still holds and never unmapping memory the child mapped since, and its shared initial values can never be altered from the child.",
 ["histories","configurations"],
 "histories before and after fork on both sides, policies, several ranges, mappings reusing the vacated address ranges in the child, live items at fork",
 "the fork tests destroy one default pool in the child and check nothing in the parent or in reused address space.",
 MP,[("fork advice and canary page","src/rseq-mempool.c rseq_mempool_range_create, pool_mappings_accessible, rseq_mempool_range_destroy")],["item contents in parent and child; child's other mappings"])
p("C18","Resource failures are clean: reported, leak-free and recoverable",
 "If any resource request (memory mapping, advice, memory file, heap) fails at any point of creating, growing or setting up pools, sets or attributes, the call reports failure with errno set, every mapping, file descriptor and heap block it acquired is released and none it did not acquire is touched, and all existing items stay intact and the pool usable. A failure to release memory while destroying is reported as failure and destroying can be attempted again; successful destruction releases everything.",
 ["fault_sequences","histories","configurations"],
 "every resource call of generated histories as failure point, all configurations; exact accounting of mappings, descriptors and heap blocks",
 "no test injects allocation failures.",
 MP,[("error paths","src/rseq-mempool.c rseq_mempool_range_create, rseq_mempool_create, rseq_mempool_destroy")],["return value, errno, live mappings/descriptors/heap blocks"])
p("C19","Pool sets allocate from the smallest suitable pool with space",
 "An allocation of a given length from a pool set is served by the pool of smallest item size that fits the length and has space, falling through to larger pools when smaller ones are exhausted, and fails with ENOMEM only when no pool fits or has space; zeroing and initialising variants give the promised content. Adding a second pool of an equal item size is refused with EBUSY leaving both usable, adding transfers ownership, and destroying the set destroys every pool it holds.",
 ["histories","configurations"],
 "any subset of pools with generated sizes/limits/policies added in any order and time, lengths 0..2^63, alloc/free/exhaust histories",
 "the tests never create a pool set with exhausted pools, gaps, or initialised content.",
 MP,[("set search","src/rseq-mempool.c __rseq_mempool_set_malloc, rseq_mempool_set_add_pool, rseq_mempool_set_destroy")],["which pool an item belongs to, content, errno"])
p("C20","Attributes and arguments are validated and honoured",
 "Pool creation accepts exactly the valid combinations of item size, stride, CPU count, policy and type (stride a power of two at least one page and at least the rounded item size, non-negative CPU count, known policy, total size representable) and otherwise fails with EINVAL (or ENOMEM when the system cannot provide it) without side effects. Accepted settings take effect exactly: item size rounded up to a power of two of at least one word, defaults where zero, last setter wins, the attribute object may be destroyed right after, and null attribute arguments are rejected with EINVAL.",
 ["inputs","configurations"],
 "all item sizes, strides, CPU counts, policies incl. invalid and overflowing ones; generated sequences of attribute setters",
 "tests use valid attributes only.",
 MP,[("attribute setters and validation","src/rseq-mempool.c rseq_mempool_attr_set_*, rseq_mempool_create")],["return value, errno, observable pool geometry"])
p("C21","Pool operations are thread-safe under any interleaving",
 "Concurrent allocations, frees, set additions and creations/destructions of distinct pools from several threads behave, under every interleaving, as if executed one after another: no item handed out twice, none lost, capacity and growth limits respected, promised initial content delivered, and no deadlock or termination of a correct program.",
 ["schedules","histories"],
 "instruction-granularity interleavings of generated per-thread programs on shared pools and sets",
 "no test runs the allocator from more than one thread on a controlled schedule.",
 MP,[("pool and set locks","src/rseq-mempool.c pool->lock, pool_set->lock")],["history of results per thread; content; final capacity"])
p("C22","NUMA initialisation places every page of the range on the CPU's node",
 "NUMA initialisation of a range asks the kernel to move each whole page of that range exactly once, and no other address, to the node of the given CPU with the caller's flags, for ranges of any size. It fails without moving anything for invalid flags or an unknown CPU, and an error from the kernel in any batch is reported as failure with the kernel's errno; pages the kernel merely could not migrate do not stop the remaining pages from being requested.",
 ["inputs","fault_sequences"],
 "range lengths across batch boundaries, CPUs/nodes/flags, kernel results per batch",
 "hosts under test have one node and small ranges, and nothing observes the requests.",
 ["src/rseq-mempool.c"],[("batched page moves","src/rseq-mempool.c rseq_mempool_range_init_numa")],["arguments of the page-move requests; return value"])
p("C23","Memory-ordering accessors order and preserve values",
 "Acquire loads and release stores of every scalar type return and store exactly the given value with a single access of the object, acquire loads are performed before later accesses and release stores after all earlier accesses of the thread, and the full barrier forbids a later load from being satisfied before an earlier store is visible to other threads. Once-only reads and writes are never merged, omitted or repeated by the compiler.",
 ["schedules","inputs","programs"],
 "scalar types x values x compilers x optimisation levels; litmus programs observed instruction by instruction and on real hardware with random delays",
 "nothing tests the accessors by themselves; a missing barrier needs an unlucky compiler or reordering window.",
 ["include/rseq/compiler.h","include/rseq/arch/x86.h"],[("barriers","include/rseq/arch/x86.h rseq_smp_mb, rseq_smp_load_acquire, rseq_smp_store_release"),("once accessors","include/rseq/compiler.h")],["order of memory effects; litmus outcomes"])
p("C24","Initialisation callback contract",
 "The memory initialisation callback is called, for each range a pool creates, exactly once per CPU in the pool with that CPU's memory start, the stride as length, its CPU number and the caller's private pointer (once with CPU -1 for a global pool), before any item of that range is handed out; what it writes is what allocations without initialisation then read. If it fails, the range is not used: creation fails, or the allocation needing growth fails with ENOMEM, and the pool remains usable.",
 ["histories","configurations","fault_sequences"],
 "pool types, CPU counts, strides, policies set before/after, growth, callback failing at any invocation",
 "tests register a callback once and never let it fail or check its arguments.",
 MP,[("callback invocation","src/rseq-mempool.c rseq_mempool_range_create")],["callback arguments and item content"])
XH=["include/rseq/arch/aarch64.h","include/rseq/arch/aarch64/bits.h","include/rseq/arch/riscv.h","include/rseq/arch/riscv/bits.h","include/rseq/arch/ppc.h","include/rseq/arch/ppc/bits.h","include/rseq/arch/s390.h","include/rseq/arch/s390/bits.h","include/rseq/arch/loongarch.h","include/rseq/arch/loongarch/bits.h","include/rseq/arch/mips.h","include/rseq/arch/mips/bits.h"]
p("C25","Helpers are atomic under interruption on other 64-bit architectures",
 "On AArch64 (both byte orders), RISC-V 64, PowerPC 64 (both byte orders), s390x, LoongArch 64 and MIPS 64 (both byte orders, position-dependent code), too, every helper interrupted at any instruction (preemption, migration, concurrency-id change, signal delivery) either commits exactly once, with the effect its pseudo-code has at some instant while it ran on the requested index, or reports an abort or comparison failure without having changed the committed word. An abort is reported only when the index differed or the sequence was interrupted.",
 ["schedules","inputs","configurations"],
 "every instruction boundary of each helper as compiled for nine targets at several optimisation levels, any event kind, any changes made by others at the event",
 "the test suite runs on the build machine's architecture only and cannot choose the interruption point.",
 XH,[("critical sections","include/rseq/arch/*/bits.h rseq_load_*__ptr"),("building blocks","include/rseq/arch/{aarch64,riscv,ppc,s390,loongarch,mips}.h RSEQ_ASM_*")],["result, memory of the operation, thread area"])
p("C26","Helpers compute their pseudo-code on other 64-bit architectures",
 "On the same nine targets, every uninterrupted helper call returns the documented result and leaves memory exactly as its pseudo-code says for all operand values, including operands that share a register, offsets and lengths of any size, and 32-bit indexes derived from wider values; it aborts without effect when the index differs or the ordering or mode is not supported, and preserves the caller's registers, variables and stack. The thread area queries return the fields the kernel wrote, and preparing for unload clears the descriptor pointer.",
 ["inputs","configurations"],
 "operand values and their bit patterns, coinciding operands, indexes, modes and orderings, on nine targets at several optimisation levels",
 "nothing executes this code on the build machine.",
 XH,[("helpers","include/rseq/arch/*/bits.h"),("thread pointer","include/rseq/arch/*/thread-pointer.h")],["result, every byte of memory, callee-saved registers, live variables"])
p("C27","Descriptors and exit tables are right on other 64-bit architectures",
 "On the same nine targets, each critical section is described by an aligned, listed descriptor that the kernel accepts (version and flags 0, signature of the architecture before the abort handler, handler outside the range), which is published by one store before the range is entered at its start. The committing store is the last instruction of the range, nothing of the operation is written outside it, and the sequence is left only through its end, its abort handler or an address listed as its exit point.",
 ["inputs","programs","configurations"],
 "all descriptors and exit points emitted for nine targets at several optimisation levels; executions over generated operands",
 "descriptors are consumed by the kernel and by debuggers only; nothing checks them on the build machine.",
 XH,[("tables","include/rseq/arch/{aarch64,riscv,ppc,s390,loongarch,mips}.h RSEQ_ASM_DEFINE_TABLE, RSEQ_ASM_DEFINE_EXIT_POINT, RSEQ_ASM_DEFINE_ABORT")],["descriptor section contents; addresses executed"])
p("C28","Barriers and accessors order memory on other 64-bit architectures",
 "On the same nine targets, acquire loads, release stores and once-only accesses of every scalar size and signedness access the object once and in full and deliver exactly its value, and together with the barriers they establish the ordering they promise under that architecture's memory model. A helper with release ordering makes its committing store visible only after the caller's earlier accesses and after its own speculative stores.",
 ["programs","inputs"],
 "accessor x size x signedness x value, release helpers over generated operands, on nine targets at several optimisation levels",
 "the build machine is strongly ordered and does not execute this code.",
 XH,[("barriers","include/rseq/arch/{aarch64,riscv,ppc,s390,loongarch,mips}.h rseq_smp_mb, rseq_smp_rmb, rseq_smp_wmb, rseq_smp_load_acquire, rseq_smp_store_release"),("once accessors","include/rseq/compiler.h")],["accesses and barriers executed; values"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
