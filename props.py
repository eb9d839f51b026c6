COMMON_ASSUMPTIONS = [
    "gcc -O1 build of /repo's working tree on x86-64 with AddressSanitizer and UndefinedBehaviorSanitizer unless a part says otherwise",
    "state fingerprints are 64-bit hashes; two different states are assumed not to collide",
]

NOT_APPLICABLE = {}
CHECKS = {}

SEQ = "explicit-state model checking of the real code: breadth-first enumeration of all operation histories with state deduplication, lock-step reference model"
SEQ_NOTE = ("All operation sequences within the stated alphabet up to closure of the state space or the depth bound, "
            "run on the sanitizer-instrumented library built from the working tree; trusts the reference model in the harness and "
            "the state fingerprint.")
ENUM = "bounded exhaustive enumeration of all inputs/choices of the real code (stateless model checking) against a reference model"
ENUM_NOTE = ("Every input in the stated finite space is run on the sanitizer-instrumented library built from the working tree and compared "
             "with an independent reference; nothing is said about inputs outside that space.")
ENUM_RULE = ("every choice sequence of the scenario is enumerated (inputs, splits, aliasing, faults); a case counts once per distinct "
             "input (or outcome class) as registered by the scenario, trivial ones included only once")
SCHED = "stateless model checking: controlled scheduler enumerates all interleavings of the real, instrumented code at each shared access"
SCHED_NOTE = ("All sequentially consistent interleavings of the stated thread programs within the preemption bound; weak memory reorderings are not explored.")


def seq(pid, *parts, **kw):
    CHECKS[pid] = dict(level="model_checking", technique=kw.get("technique", SEQ), note=kw.get("note", SEQ_NOTE),
                       parts=[p if isinstance(p, dict) else dict(src=p, config="asan") for p in parts],
                       assumptions=kw.get("assumptions", []))


def enum(pid, *parts, **kw):
    CHECKS[pid] = dict(level="exploration", technique=kw.get("technique", ENUM), note=kw.get("note", ENUM_NOTE),
                       rule=kw.get("rule", ENUM_RULE),
                       parts=[p if isinstance(p, dict) else dict(src=p, config="asan") for p in parts],
                       assumptions=kw.get("assumptions", []))


def sched(pid, *parts, **kw):
    CHECKS[pid] = dict(level="model_checking", technique=SCHED, note=SCHED_NOTE,
                       parts=[p if isinstance(p, dict) else dict(src=p, config="sched") for p in parts],
                       assumptions=kw.get("assumptions", ["sequential consistency: only interleavings are explored, not weak memory reorderings"]))


seq("C02", "fifo_flat.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C02"), dict(src="vast.c", name="vast", config="asan", cflags="-DP_C02"))
seq("C03", "fifo_record.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C03"))
seq("C04", "ring_flat.c", "ring_record.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C04"), dict(src="vast.c", name="vast", config="asan", cflags="-DP_C04"))
seq("C08", "array.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C08"), dict(src="vast.c", name="vast", config="asan", cflags="-DP_C08"))
seq("C09", "list.c", "slist.c")
seq("C18", "hashmap.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C18"))
seq("C12", "rbtree.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C12"))
seq("C17","segtree.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C17"))
seq("C13","heap.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C13"))
enum("C11","sort.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C11"), dict(src="vast.c", name="vast", config="opt", cflags="-DP_C11"))
seq("C10","ilist.c", dict(src="scale.c", name="scale", config="asan-nodebug", cflags="-DP_C10"))
seq("C31","notifier.c", dict(src="scale.c", name="scale", config="asan-nodebug", cflags="-DP_C31"))
seq("C20","allocpool.c","respool.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C20"), dict(src="vast.c", name="vast", config="asan", cflags="-DP_C20"))
seq("C16","skiplist.c", dict(src="skiplist.c", config="asan-nodebug"), dict(src="scale.c", name="scale", config="asan", cflags="-DP_C16"))
seq("C15","radix.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C15"))
seq("C19","memalloc.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C19"), dict(src="vast.c", name="vast", config="asan", cflags="-DP_C19"))
enum("C33","levenshtein.c","matrix.c")
enum("C32","argv.c", dict(src="vast.c", name="vast", config="opt", cflags="-DP_C32 -DMC_PATIENCE=200"))
seq("C14","btree.c", dict(src="scale.c", name="scale", config="asan", cflags="-DP_C14"))
seq("C21",dict(src="cache.c", config="asan", whole=True), dict(src="scale.c", name="scale", config="asan", cflags="-DP_C21", whole=True))
enum("C23","bitmap.c", dict(src="vast.c", name="vast", config="opt", cflags="-DP_C23"))
enum("C24","bitwalk.c", dict(src="vast.c", name="vast", config="opt", cflags="-DP_C24"))
# the second part has the plain C bit searches of asm-generic/bitops.h instead of the compiler's
PLAIN_BITS = " ".join("-D_BFDEV_ASM_GENERIC_BUILTIN_%s_H_" % f for f in "CLZ CTZ FFS FFSUF FLS FLSUF".split())
enum("C25","bitfn.c", dict(src="bitfn.c", name="bitfn-plain", config="asan", cflags=PLAIN_BITS), dict(src="vast.c", name="vast", config="opt", cflags="-DP_C25"))
enum("C22","mpi.c")
sched("C05","fifo_spsc.c", dict(src="circle.c", config="asan"), dict(src="circle.c", config="sched", cflags="-DCIRCLE_SCHED"))
sched("C06","llist.c")
sched("C07", dict(src="refcount.c", config="asan"), dict(src="refcount.c", config="asan-nodebug"), dict(src="refcount.c", config="sched", cflags="-DREFCNT_SCHED"))
sched("C35", dict(src="atomics.c", config="asan"), dict(src="atomics.c", config="sched", cflags="-DATOMIC_SCHED"))
enum("C36","dword.c")
enum("C26","codec.c", dict(src="vast.c", name="vast", config="opt", cflags="-DP_C26 -DMC_PATIENCE=200"))
enum("C27","digest.c", dict(src="digest.c", config="opt", cflags="-DDIGEST_LONG -DMC_PATIENCE=500", name="long"))
enum("C28","crc.c", dict(src="crc.c", config="asan-nodebug"), dict(src="vast.c", name="vast", config="opt", cflags="-DP_C28 -DMC_PATIENCE=200"))
enum("C29", dict(src="textsearch.c", config="asan", whole=True), dict(src="vast.c", name="vast", config="opt", cflags="-DP_C29 -DMC_PATIENCE=200", whole=True))
seq("C30", "fsm.c")
seq("C34", "ratelimit.c")
enum("C37", "log.c")
enum("C38", "bloom.c", dict(src="vast.c", name="vast", config="opt", cflags="-DP_C38"))
enum("C39", "stream.c", dict(src="vast.c", name="vast", config="opt", cflags="-DP_C39 -DMC_PATIENCE=200"))
seq("C40", "debug.c")
enum("C01", dict(src="fault.c", config="asan", whole=True))
enum("C41", "chars.c", dict(src="vast.c", name="vast", config="opt", cflags="-DP_C41 -DMC_PATIENCE=200"))
enum("C42", "hash.c", dict(src="vast.c", name="vast", config="opt", cflags="-DP_C42 -DMC_PATIENCE=200"))
enum("C43", "allocator.c")
enum("C44", "error.c")
enum("C45", "field.c")
enum("C46", "init.c")
