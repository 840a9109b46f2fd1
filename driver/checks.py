"""What each check runs."""
from .miri import foreign, miri, util32
from .oom import oom
from .probes import probes

ASSUMPTIONS = [
    "x86-64 Linux, the toolchain pinned in /repo/rust-toolchain",
    "std's Vec, String and Box have the memory layout this toolchain gives them (found by inspection at run time, as the oracle needs it)",
]


def bin(name, flav, quick, thorough, bin=None, **kw):
    """quick, thorough: (number of cases, cap on seconds)"""
    return dict(name="%s_%s" % (name, flav), bin=bin or name, flav=flav, quick=quick, thorough=thorough, **kw)


def e2e(q, t, **kw):
    return [
        bin("e2e", "dbg", (q, 14), (t, 150), **kw),
        bin("e2e", "rel0", (q, 14), (t, 150), **kw),
        bin("e2e", "rel", (0, 0), (4 * t, 200), **kw),
        bin("e2e", "asan", (0, 0), (t // 4, 150), **kw),
    ]


def shuffled(q, t, name="e2e"):
    """Layouts of types chosen at random by the compiler"""
    return [bin(name, "rnd1", (q, 14), (t, 80)), bin(name, "rnd2", (0, 0), (t, 80))]


E2E_RULE = (
    "Each case draws a type from the zoo (derived structs and enums of every kind, tuples up to 32, recursive types, over-aligned, "
    "zero-sized), a storage configuration (of 12), a reallocation strategy, a random value (shape, lengths, excess capacity, empties), "
    "an initial storage state, and a sequence of operations, from (seed, case number). Non-trivial: at least 1 allocation beyond the "
    "root located in output (C11: in the input). Distinct: by hash of type, configuration and position and size of every allocation found."
)


def gen(first, n, types, quick, thorough, bin="gen"):
    """Types of which no definition was written by hand: a program of new ones for each stage"""
    out = []
    for i in range(n):
        flav = "rel0" if i % 3 == 2 else "dbg"
        out.append(dict(name="%s%d_%s" % (bin, first + i, flav), bin=bin, flav=flav, gen=first + i, types=types, seed_offset=500 + first + i,
                        quick=(6000 if i < quick else 0, 14), thorough=(thorough, 25)))
    return out


GEN_RULE = (
    " Stages `gen*` are programs of type definitions generated at random from the seed (structs and enums, unit, tuple and named, up to 40 "
    "fields and 40 variants, names which may collide, generics, attributes, explicit discriminants, reprs, proxies, recursion), then compiled with the derive macros."
)

FOREIGN = " Thorough: also a few cases on a 32-bit target (i686) and on a big-endian one (s390x), interpreted by Miri."

CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


SAMPLED = "Sampled, not exhaustive: holds for the cases run. Trusts the oracle in harness/src/probe.rs, and std's containers."


def e2e_check(pid, technique, q, t, floors, note=SAMPLED, gens=3, quick_gens=0, rnd=0, **kw):
    # Every check has types of its own
    first = 20 if pid == "C14" else 40 + 4 * len(CHECKS)
    check(pid, level="exploration", technique=technique, note=note, bins=e2e(q, t) + shuffled(rnd, t // 2) + gen(first, gens, 100, quick_gens, 60000), funcs=[foreign("e2e")], rule=E2E_RULE + GEN_RULE + FOREIGN,
          floors=dict({"values": 1000, "buffer_moves": 100}, **floors), **kw)


e2e_check("C01", "runtime monitor: output read as &T after input is freed, compared with input; monitoring allocator",
          60000, 1500000, {"leaves_compared": 10000, "sessions_beyond_4GiB": 2})
e2e_check("C02", "runtime monitor: every pointer in output located, bounds, overlap and capacity oracle",
          60000, 1500000, {"allocations_located": 10000, "capacities_normalized": 1000})
e2e_check("C04", "runtime monitor: output decoded from a copy elsewhere in any order, compared with input",
          50000, 1500000, {"leaves_compared": 10000, "sessions_Offset": 1000, "sessions_beyond_4GiB": 2})
e2e_check("C05", "runtime monitor: cursor decoding of output in traversal order, compared with input",
          50000, 1500000, {"leaves_compared": 10000, "sessions_Pure": 1000})
e2e_check("C06", "runtime monitor: positions found in output compared with layout model, between serializers and between runs",
          25000, 800000, {"allocations_located": 10000, "repeat_sessions": 1000})
e2e_check("C11", "runtime monitor: snapshot of all memory of input compared before and after",
          25000, 800000, {"input_regions_unmodified": 10000, "sessions_Complete": 1000, "sessions_Offset": 1000, "sessions_Pure": 1000, "only_just_fitted": 100, "filled_storage": 50})
e2e_check("C14", "runtime monitor: independent derived oracle judges output of derived implementations",
          25000, 800000, {"leaves_compared": 10000, "generated_types_used": 3000, "generated_definitions": 200, "fields_which_told": 20000},
          gens=10, quick_gens=2,
          build_error=r"derive macro `Serialize`|derive\([^\n]*\bSerialize\b")
e2e_check("C16", "runtime monitor: output read as big integers and as digits, compared with input",
          25000, 800000, {"leaves_compared": 10000, "capacities_normalized": 1000, "cases_with_sign_before_digits": 2000}, rnd=12000)
e2e_check("C17", "runtime monitor: capacity and pointer of every container in output checked",
          50000, 1500000, {"capacities_normalized": 10000})

STORE_RULE = (
    "Each case draws a storage configuration, a reallocation strategy and a history of up to 250 storage operations (push, push_slice, "
    "push_slice_unchecked, push_bytes, push_empty(_slice), reserve, shrink_to_fit, clear, align_for, align_after_any, set_pos, write(_slice), "
    "read, read_mut, moving the storage object; values of 20+ sizes and alignments incl. zero-sized) from (seed, case number), each followed by the "
    "model. Non-trivial: at least 2 regions live at the end. Distinct: by hash of configuration, operations, positions and capacities."
)


def store(q, t, **kw):
    return [
        bin("store", "dbg", (q, 14), (t, 120), **kw),
        bin("store", "rel0", (q, 14), (t, 120), **kw),
        bin("store", "rel", (0, 0), (3 * t, 150), **kw),
    ]


STORE_NOTE = "Sampled histories, not exhaustive. Trusts the storage model in harness/src/store.rs, written from the documentation."


def store_check(pid, technique, q, t, floors, e=0, note=STORE_NOTE, **kw):
    bins = store(q, t)
    if e:
        bins += e2e(e, 20 * e)
    check(pid, level="exploration", technique=technique, note=note, bins=bins, funcs=[foreign("store")], rule=STORE_RULE + (" " + E2E_RULE if e else "") + FOREIGN,
          floors=dict({"operations": 10000, "growths": 1000}, **floors), **kw)


store_check("C07", "runtime monitor: alignment assertions after every operation of random storage histories and serializations",
            20000, 600000, {"regions": 1000, "positions_beyond_4GiB": 2}, e=15000)
store_check("C08", "runtime monitor: storage histories against a byte-array model",
            25000, 600000, {"bytes_known": 10000, "positions_beyond_4GiB": 2})
store_check("C09", "runtime monitor: storage histories and sessions against a capacity model",
            25000, 600000, {"refused": 100, "positions_beyond_4GiB": 2, "capacities_in_sessions": 50000, "only_just_fitted": 200}, e=12000)
store_check("C20", "runtime monitor: event log of a monitoring allocator, checked for conservation of the buffer",
            20000, 500000, {"ownership_events": 10000})
store_check("C24", "runtime monitor: storage histories with a twin which pushes instead of reserving; space reserved between values written later",
            20000, 500000, {"regions": 1000, "refused": 100, "hopeless": 1000, "reserved_in_sessions": 5000}, e=12000)


def mon(q, t, **kw):
    return [
        bin("mon", "dbg", (q, 16), (t, 150), **kw),
        bin("mon", "rel0", (q, 12), (t, 150), **kw),
        bin("mon", "rel", (0, 0), (3 * t, 200), **kw),
    ]


check("C03", level="exploration", bins=mon(6000, 200000) + e2e(10000, 300000),
      technique="runtime monitor: storage relocated by schedules (exhaustive for short ones), output compared with model",
      note=SAMPLED,
      rule="Each case draws type, storage configuration, value and session from (seed, case number), serializes with all 3 serializers into a storage "
      "which never moves, then again with others schedules of relocation: every schedule over 3 locations if at most 6 steps are taken (each reserve "
      "or shrink is a step), else 4 random ones. Outputs are judged by the same layout and content oracle. Non-trivial: storage was relocated. "
      "Distinct: by hash of type, schedule and number of steps. " + E2E_RULE,
      floors={"relocations": 10000, "relocations_back": 1000, "schedules": 1000, "exhausted_all_schedules_of_3_locations": 20, "buffer_moves": 1000})

check("C21", level="exploration", bins=mon(25000, 1000000),
      technique="runtime monitor: storage implementation which asserts preconditions of every unsafe method",
      note="Preconditions are as documented on Storage and RandomAccessStorage. Sampled, not exhaustive.",
      rule="Each case is a session of serializations with all 3 serializers, or a history of storage operations, over a storage implementation whose unsafe "
      "methods check their documented preconditions (with growth exact, doubling, or to maximum, relocation, and some where `reserve` skips to another chunk, as it may) from (seed, case number). "
      "Non-trivial and distinct: as for sessions and histories elsewhere.",
      floors={"preconditions_checked": 1000000, "operations": 10000, "sessions_Complete": 1000, "relocations": 1000, "positions_altered_by_reserve": 10000})

check("C12", level="exploration",
      bins=[bin("sess", "dbg", (25000, 16), (600000, 150)), bin("sess", "rel0", (25000, 16), (600000, 150)),
            bin("sess", "rel", (0, 0), (2000000, 200))] + e2e(15000, 600000),
      technique="runtime monitor: sessions of many serializers on one storage, each value and other content judged at the end",
      note=SAMPLED,
      rule="Each case draws an AlignedVec configuration and a sequence of serializers (pure copy, pointer offset, complete; owning, borrowing or boxing the "
      "storage; one-shot, multi-value or abandoned part way), each with a sequence of values and other pushes, with storage grown, shrunk, cleared and moved "
      "between, from (seed, case number). At the end every value is judged as on its own, and all other content compared. Non-trivial: at least 2 values "
      "on same storage. Distinct: by hash of configuration, actions and positions. " + E2E_RULE,
      floors={"values_read": 10000, "other_content": 1000, "used_Pure_Owned": 100, "used_Pure_Borrowed": 100, "used_Pure_Boxed": 100,
              "used_Offset_Owned": 100, "used_Offset_Borrowed": 100, "used_Offset_Boxed": 100,
              "used_Complete_Owned": 100, "used_Complete_Borrowed": 100, "used_Complete_Boxed": 100})


def simple(name, q, t, qs=16, ts=150, rel=True, **kw):
    """Stages with 1 worker binary, in debug and release"""
    bins = [bin(name, "dbg", (q, qs), (t, ts), **kw), bin(name, "rel0", (q, qs), (t, ts), **kw)]
    if rel:
        bins.append(bin(name, "rel", (0, 0), (3 * t, ts), **kw))
    return bins


check("C13", level="exploration", bins=simple("pos", 16000, 600000) + shuffled(0, 200000, "pos"),
      technique="runtime monitor: values which query positions and overwrite while being serialized; answers and bytes judged against independently decoded output",
      note=SAMPLED,
      rule="Each case draws a type (of 30, recursive, with manual and derived implementations, standard and hand-written containers), a configuration "
      "(10, AlignedVec and a relocating storage, built-in and derived position tracking serializers), and a random value which at each of up to 8 points "
      "while being processed asks for the position of itself and parts of it, overwrites one or more parts of itself by input address, directly or "
      "deferred, and pushes other content. Every answer is compared with where output, decoded independently, has that part, and every byte with what "
      "exactly those overwrites would leave. Non-trivial: at least 1 allocation beyond root. Distinct: by type, configuration and layout.",
      floors={"positions_confirmed": 1000000, "overwrites_applied": 100000, "overwrites_ignored": 100000, "deferred_judged": 10000, "relocations": 1000, "zero_sized_processed": 10000, "processed_by_bare_function": 10000})

check("C15", level="exploration", bins=simple("derser", 16000, 500000) + gen(80, 10, 12, 2, 60000, "genser"),
      technique="runtime monitor: output of custom serializers judged by the oracle for their kind",
      note=SAMPLED + " 23 forms of custom serializer, and 96 (thorough: 480) generated at random before the build.",
      rule="Each case draws a set of custom serializers (23: derived without generics, with fields in any order, other fields - also of the same types, which must be left alone - raw identifiers, generic over "
      "storage and way of holding it - owned, boxed, &mut, a user's smart pointer - with lifetimes, const generics and where clauses, made by a macro, and "
      "implemented by hand with only required methods), over AlignedVec or a relocating storage, a type, value and session, as in other checks, from "
      "(seed, case number). All outputs are judged by the oracle of the kind, including positions reported while serializing. Non-trivial: at least 1 allocation beyond "
      "the root. Distinct: by hash of type, serializers and layout. Stages `genser*` are programs of 12 sets of 4 definitions of serializers each, generated at random "
      "from the seed (how storage is held, generics, bounds, order and names of fields, other fields which must be left alone, attributes).",
      floors=dict({"generated_serializers_used": 3000, "positions_confirmed": 100000, "relocations": 1000, "sessions_Pure": 1000, "sessions_Offset": 1000, "sessions_Complete": 1000},
                  **{"form_%02d" % k: 100 for k in range(23)}),
      # Attribute at which the error is, or note that it is in what the macro made
      build_error=r"derive macro `Serializer`|derive\([^\n]*\bSerializer\b|--> \S*(src/bin/derser\.rs|/genser-[0-9-]*\.rs):[^$]*#\[ser_(type|storage|ptrs|pos_mapping)")

check("C22", level="exploration", bins=simple("spy", 60000, 3000000) + shuffled(0, 1000000, "spy"),
      technique="runtime monitor: serializers which log what they are told; log checked against an independent walk of the value",
      note=SAMPLED,
      rule="Each case draws a type (of 180) and a random value from (seed, case number), and serializes it with 5 monitoring serializers: all methods implemented by hand, "
      "or only the required ones, carrying out deferred corrections or not, with or without addresses. Each log is compared event by event with a walk "
      "of the value which shares no code with ser_raw; corrections are applied to copies of the containers, which must then be normalised. "
      "Non-trivial: at least 1 allocation. Distinct: by hash of type, sizes and depths of allocations.",
      floors={"allocations_reported": 100000, "corrections": 10000, "events": 1000000})

check("C23", level="fault_enumeration", bins=simple("fault", 16000, 800000), funcs=[oom],
      technique="fault injection at every point with runtime monitors on storage, input and allocator; allocation failure at every allocation, in subprocesses",
      note="All fault points of a session are enumerated (full storage: those of a grid of fill levels); sessions are sampled. After a failure, storage is judged by the same oracles as elsewhere.",
      rule="Each case draws values, serializer, way of holding storage (owned, boxed, &mut), entry point and storage configuration from (seed, case number), then cuts the session "
      "short at every point in turn: storage already filled to every level at which value does not fit, storage's reserve panicking at its kth call for every k, user code "
      "(Serialize, SerializeWith, process closures, deferred overwrites) panicking at its kth call for every k. Also every allocation of a buffer fails in turn, in 9 scenarios, "
      "each in its own process. Non-trivial: cut short at 2 points or more. Distinct: by hash of session and the points.",
      floors={"cut_short_by_full_storage": 20000, "cut_short_by_storage_panic": 2000, "cut_short_by_user_panic": 5000, "reused_storage": 20000,
              "reused_serializer": 5000, "released_in_unwinding": 10000, "allocation_failures_handled": 1000})

check("C25", level="exploration", bins=simple("util", 2500, 250000), funcs=[util32],
      technique="runtime monitor: results compared with arithmetic on wider integers",
      note="Positions are sampled, save for those near powers of 2, multiples and the ends of the range, all of which are tried for every alignment. On a 32-bit target (interpreted by Miri), fewer.",
      rule="Each case takes one power-of-two alignment (of all 64) and judges align_up_to and is_aligned_to for all positions below 5000, near each power of 2 and near the ends of the domain "
      "(first 128 cases), and for 40000 random positions of any magnitude; the capacity helpers for random arguments, and refusal of those outside the domain, from (seed, case number). "
      "Every case is non-trivial. Distinct: by case.",
      floors={"positions": 10000000, "boundary_positions": 500000, "maximum_capacities": 100000, "refused_alignments": 10000},
      # Panic in evaluation of a constant, which calls these functions
      build_error=r"error\[E0080\](.|\n)*ser_raw/src/util\.rs")

check("C19", level="exploration",
      bins=[bin("threads", "tsan", (2400, 30), (100000, 300)), bin("threads", "rel0", (2400, 20), (100000, 150)),
            bin("threads", "rel", (0, 0), (200000, 150)), bin("threads", "asan", (0, 0), (30000, 150)),
            bin("fresh", "rel0", (8000, 14), (100000, 100)), bin("fresh", "rel", (0, 0), (100000, 60))],
      technique="ThreadSanitizer; runtime monitor: output of each thread judged and compared with that of others",
      note="Interleavings are sampled, with pauses injected while serializing. TSan sees ser_raw and the harness, not std.",
      rule="Each case makes 3 values, which 2 to 7 threads at once serialize with every serializer, with pauses injected inside; then storage and serializers pass from thread "
      "to thread between operations, are read by 3 threads at once, and dropped by another, from (seed, case number). Each case of stage `fresh` forks a process in which "
      "nothing has been serialized yet, and 2 to 4 threads all start to serialize there at the same moment. Non-trivial: always. Distinct: by hash of types, number of threads, layout of outputs and order in which threads paused (so an interleaving is counted once).",
      floors={"threads": 3000, "processes": 1000, "pauses_while_serializing": 20000, "switches_between_threads": 1000, "handed_over": 10000, "things_judged": 100000},
      # Storage which can no longer be handed over
      build_error=r"cannot be (sent|shared) between threads safely[^$]*within the type `AlignedVec<")

check("C26", level="exploration",
      bins=[bin("threads", "dbg", (20000, 14), (800000, 150)), bin("threads", "rel0", (20000, 14), (800000, 150)),
            bin("threads", "rel", (0, 0), (2000000, 150)), bin("threads", "asan", (0, 0), (100000, 150))],
      technique="runtime monitor: output of each of many interleaved and nested serializers judged",
      note=SAMPLED,
      rule="Each case makes 5 values and a pool of up to 5 storages, and takes about 50 steps. Each step takes a random storage which isn't in use further out, and creates a serializer on it "
      "(of 4 kinds), pushes to it, serializes a value, finalizes it, drops or clears it, from (seed, case number). Values call back while being serialized, upon which further steps are taken, "
      "nested up to 4 deep, or they panic. Non-trivial: another serializer was alive during at least 1 step. Distinct: by hash of types and of all steps.",
      floors={"values_serialized": 100000, "things_judged": 1000000, "steps_within_serialization_of_another": 50000, "steps_within_2_or_more": 20000,
              "finalized_before_an_older": 10000, "unwound": 2000, "abandoned": 2000})

check("C18", level="exploration", funcs=[probes],
      technique="runtime monitor of the compiler on probe programs: each invalid program must be rejected, and its valid twin accepted",
      note="The system under observation is the macros and constant assertions, which run inside the compiler. A fixed list of programs, all of which are tried.",
      rule="Every program of a list: 22 invalid storage configurations at the boundary of validity via each of 10 ways of making a storage; values of excess alignment via each of "
      "70 ways of pushing or serializing, with each serializer; 25 unsupported types; malformed uses of both derive macros; uses of borrowed or moved storage. Each has a twin which "
      "differs only in what is invalid, and must compile. Compiled to object code, so constants are evaluated, with and without debug assertions. Distinct: by text of program.",
      floors={"accepted": 800, "rejected": 1300, "rejected_by_E0080": 600})

check("C10", level="exploration", funcs=[miri],
      bins=[bin("ub", "asanrel", (4000, 20), (300000, 150)), bin("e2e", "asanrel", (12000, 20), (500000, 150)),
            bin("store", "asanrel", (4000, 14), (300000, 120)), bin("sess", "asanrel", (2400, 14), (200000, 120)),
            bin("derser", "asanrel", (2400, 10), (200000, 100)), bin("fault", "asanrel", (1200, 10), (100000, 100)),
            bin("pos", "asanrel", (0, 0), (100000, 100)), bin("mon", "asanrel", (0, 0), (100000, 100)),
            bin("ub", "asan", (0, 0), (300000, 120)), bin("e2e", "asan", (0, 0), (500000, 120)), bin("fault", "asan", (0, 0), (100000, 100)),
            bin("threads", "tsan", (0, 0), (30000, 120)),
            bin("ub", "rel0", (4000, 12), (300000, 100)), bin("ub", "rel", (0, 0), (1000000, 100)),
            bin("e2e", "rel", (0, 0), (2000000, 100))],
      technique="AddressSanitizer, Miri, and a monitoring allocator with guard areas and quarantine, on every kind of workload; ThreadSanitizer",
      note="Sampled. ASan sees ser_raw, harness and the C library, not inside std; Miri interprets few cases, with a newer compiler. Not judged: provenance of pointers "
      "after storage is reallocated back to an address it had before (see DESIGN.md).",
      rule="Storage and serializers are used wildly, through the safe interface only (random operations with random, extreme and invalid arguments, every position and "
      "pointer storage gives out read and written), as well as by the workloads of other checks (serialization of random values of the zoo, output read as references and "
      "walked; storage histories; sessions; custom serializers; injected faults), from (seed, case number), under AddressSanitizer, under a monitoring allocator, and, fewer, in "
      "Miri. Only undefined behaviour is judged. Distinct: by hash of the history or layout.",
      floors={"operations": 100000, "bytes_read_in_storage": 1000000, "bytes_read_through_references": 1000000})
