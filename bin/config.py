"""What each property's check builds and runs."""

ASSUME = [
    "verdicts hold for the executions that were run, not for all",
    "Miri's tree borrows aliasing model and its memory model are taken as the definition of undefined behaviour",
    "x86_64 Linux, nightly toolchain of the sandbox; code is built from /repo's working tree",
]


def std(b, native=1.0, miri=1.0, shards=5, **k):
    """The usual runs: checked and optimised builds, AddressSanitizer, and Miri in shards."""
    return [
        dict(bin=b, variant="miri", scale=miri, shards=shards, tshards=8, tscale=miri * 10, **k),
        dict(bin=b, variant="dbg", scale=native * 3, tscale=native * 40, **k),
        dict(bin=b, variant="rel", scale=native * 8, tscale=native * 100, **k),
        dict(bin=b, variant="asan", scale=native, tscale=native * 10, **k),
        dict(bin=b, variant="miri32", tier="thorough", tscale=miri, tshards=2, **k),
    ]


PROPS = {
    "C03": dict(
        runs=std("c03", native=3),
        rule="random single-threaded programs over every value-placing and raw entry point of the atomic Bump on 16 storage types at random base "
             "alignments; non-trivial if the level was raised, counted distinct by the sequence of operations, arguments and level choices",
        needs_counts=["raw regions", "typed values", "exhaustions", "mismatches", "refused values", "chained values", "values of unusual size", "deallocated", "reallocated"],
    ),
    "C05": dict(
        runs=std("c05", native=3),
        rule="random single-threaded programs over every entry point of unsync::Bump<T> (12 storage types up to 256-byte alignment), MemBump over "
             "borrowed memory and heap MemBump; non-trivial if the level was raised, distinct by operations, arguments, levels and base alignment",
        needs_counts=["regions", "zero-sized", "exhaustions", "mismatches", "re-acquired", "values of unusual size"],
    ),
    "C10": dict(
        runs=std("c10", native=3),
        rule="random histories of slots acquired, pinned in any order, given up, emptied, overwritten and dropped over exit stacks of 8 memory types on "
             "heap and stack frame; non-trivial if two values were pinned at once, distinct by the sequence of operations and value types",
        needs_counts=["values pinned", "slots given up", "slots refused", "pop_all", "set", "drop"],
    ),
    "C11": dict(
        runs=std("c11"),
        rule="the histories of C10 with one destructor panicking at a random position while the stack is emptied, overwritten or dropped; set on "
             "every kind of prior state and memory type; child processes with two panicking destructors; distinct by operations and panic position",
        needs_counts=["panicking destructors", "panicking set", "set", "aborts"],
    ),
    "C06": dict(
        runs=std("c06", native=3),
        rule="every slice length 0..40 at every misalignment, random longer ones, heap bumps and bumps nested in bumps, with allocations and round trips "
             "through memory; non-trivial if data could be allocated, distinct by length, misalignment and operations",
        needs_counts=["slices refused", "bumps over slices", "round trips", "renewals", "heap bumps", "nested bumps", "filled to the brim", "values"],
    ),
    "C07": dict(
        runs=std("c07", native=3),
        rule="random histories of chaining blocks and placing values, merging of chains, very long chains, refused sizes, with a counting global allocator; "
             "non-trivial if a block was chained while values were live, distinct by sizes and operations",
        needs_counts=["blocks chained", "values placed", "values refused", "exact fits", "sizes refused", "long chains", "chains merged"],
    ),
    "C08": dict(
        runs=std("c08"),
        rule="random histories of boxes from every source (shared bump, unsynchronized bump, chain, uninitialised slots, raw pointers) over 11 value types, "
             "dropped, taken, leaked, made raw and resumed, assigned, swapped, pinned, unsized, unwound; non-trivial if two boxes were alive at the end, "
             "distinct by operations and type",
        needs_counts=["boxes", "previous contents", "ownership resumed", "dropped", "taken", "leaked", "raw", "assigned", "dropped unwinding",
                      "panicking destructors", "dyn", "pinned", "arrays", "plain"],
    ),
    "C09": dict(
        runs=std("c09"),
        rule="element types of 11 sizes and alignments, lengths around every power of two up to the 1 MiB bound, nested up to four deep, and lengths around "
             "the limits of representable sizes; non-trivial if a slice with elements was used, distinct by types and lengths",
        needs_counts=["runs", "nested", "empty slices", "zero-sized elements", "refused", "not representable", "huge zero-sized", "panics"],
    ),
    "C12": dict(
        runs=std("c12", native=3),
        rule="scripted sources (ends, errors at every nesting level, continuing after their end, lying size hints, panicking) against every container and "
             "nesting in random fill states, through all four methods; every poll, pull and destruction is counted; non-trivial if an item was stored, "
             "distinct by container, state, script and method",
        needs_counts=["filled to capacity", "iterator ended", "already full", "error ends", "source panics", "slices", "swaps", "infinite iterators", "many items"],
    ),
    "C14": dict(
        runs=std("c14"),
        rule="random programs of splits and casts over memory of every misalignment modulo 128, with 10 element types and slices of them, each operation done "
             "on the shared view too; all splits of small regions; parts written and read back at once; non-trivial if a split succeeded, distinct by "
             "operations, lengths and alignment offsets",
        needs_counts=["splits", "refusals", "casts", "fitted", "parts used", "references", "typed", "small regions"],
    ),
    "C15": dict(
        runs=std("c15"),
        rule="random histories over vectors of 11 element types on memory of any length and misalignment, every operation mirrored on a Vec, with "
             "out-of-range arguments; non-trivial if elements were left at the end, distinct by type, memory and operations",
        needs_counts=["pushed", "push refused", "popped", "pop refused", "truncated", "drains", "drains consumed", "drained with a tail", "refused drains", "splits",
                      "refused splits", "filled", "extended beyond capacity", "rearranged", "indices refused", "plain"],
    ),
    "C16": dict(
        runs=std("c16"),
        rule="the histories of C15 with panicking destructors and sources and leaked drains, every destruction recorded; distinct by type, memory, "
             "operations and panic positions",
        needs_counts=["panicking destructors", "panicking sources", "leaked drains", "drains", "drains consumed", "drained with a tail", "truncated", "splits", "vectors dropped"],
    ),
    "C17": dict(
        runs=std("c17"),
        rule="random histories of boxes over memory regions with slack and from an allocator, of 11 value types, dropped, taken (the region is overwritten and "
             "reused), leaked, made raw and resumed, assigned, swapped, unwound, unsized and back; non-trivial if two boxes were alive at the end, distinct by "
             "operations and type",
        needs_counts=["boxes", "from an allocator", "ownership resumed", "dropped", "taken", "leaked", "raw", "assigned", "dropped unwinding",
                      "panicking destructors", "unsized", "slices"],
    ),
    "C18": dict(
        runs=std("c18"),
        rule="random histories over up to four groups of handles, with handles stored inside values and used by destructors (nested) and destructors that "
             "panic, every handle's counts compared to a model after each step and inside destructors; 11 value types over fitting and unfitting memory; "
             "non-trivial if two groups existed, distinct by the states passed through",
        needs_counts=["groups", "handles overwritten", "destroyed", "upgraded", "upgrade refused", "unwrapped", "unwrap refused", "raw", "raw refused", "resumed", "mutable access",
                      "mutable access refused", "memory recovered", "memory refused", "recovery tried in a destructor", "upgrade tried in a destructor",
                      "panicking destructors", "many handles", "weak handle inside a value", "strong handle inside a value", "memory does not fit", "round trips"],
    ),
    "C19": dict(
        runs=std("c19", native=3),
        rule="every helper over an allocator that refuses at a random call, hands out exact, larger or larger and more aligned memory at addresses of minimal "
             "alignment with canaries around, and keeps books; 11 value types, 10 copied element types, strings, trait objects and slices; non-trivial if "
             "two objects were given, distinct by types, lengths and the allocator's answers",
        needs_counts=["given", "refused", "not representable", "huge capacities", "zero-sized elements", "strings", "dyn", "dst"],
    ),
    "C20": dict(
        runs=std("c20", native=3),
        rule="random histories of plain, zeroed and re-allocations through the methods, a trait object and the documented functions over the hostile allocator "
             "of C19 that overwrites what it takes back, comparing the log of its calls; random layouts up to the largest; non-trivial if two blocks were live "
             "at the end, distinct by layouts and answers",
        needs_counts=["zeroed", "zeroed with slack", "zeroed refused", "shrunk", "grown", "same size", "realloc refused", "layouts"],
    ),
    "C13": dict(
        runs=std("c13", native=3),
        rule="every pointer kind (shared, mutable, raw, null, dangling, non-null, boxes, Rc, Arc and their weak forms alive, dead and never set, pinned, "
             "user-defined, without-alloc's) by every provided coercer, the macro and user functions by 5 payloads of differing size and alignment; the value is "
             "observed, replaced and destroyed through the result; distinct by target, payload and kind",
        needs_counts=["any", "debug", "display", "user trait", "user trait with supertrait", "iterator", "future", "slice", "empty slice", "slice tail",
                      "dyn tail", "fn", "fn mut", "fn once", "fn mut called", "fn once called", "used", "threads", "shared references", "mutable references",
                      "const pointers", "mutable pointers", "non-null pointers", "pointers to nothing", "boxes", "unique rc", "shared rc", "arc", "rc weak",
                      "arc weak", "pinned references", "pinned boxes", "user-defined", "reused", "without-alloc boxes", "uninit", "panicking destructors",
                      "closures"],
    ),
    "C21": dict(
        runs=std("c21", native=0.3),
        rule="random pairs and slices of 7 element types (floats with NaN, a type whose ten operators answer independently of each other, a key that orders by a "
             "part of itself) compared, ordered, hashed into a recording hasher, formatted with 11 formats, borrowed and used as keys through Box, Rc, LeakBox and "
             "FixedVec and directly; distinct by the values",
        needs_counts=["pairs", "slices", "incomparable", "incomparable slices", "equal", "ordered", "hashed", "lookups", "slice lookups", "keys", "unsized"],
    ),
    "C04": dict(
        runs=std("c04") + [
            dict(bin="c04", variant="tsan", scale=0.5, tscale=10, args=["--family", "threads"]),
            dict(bin="c04", variant="miriconc", scale=0.5, shards=2, tshards=8, tscale=8, args=["--family", "threads"]),
            dict(bin="c04g", variant="dbg", tscale=4), dict(bin="c04g", variant="rel", tscale=4), dict(bin="c04g", variant="miri", shards=1, tshards=2, tscale=4),
        ],
        rule="random histories of plain, zeroed, re- and deallocations through GlobalAlloc, LocalAlloc, their trait objects and the documented defaults on 10 "
             "storage types at random addresses with reuse after reset; several threads reallocating side by side; programs over the standard "
             "collections run with the system's allocator and with a Bump as the process's allocator; collections on an exhausted Bump; non-trivial if the "
             "level was raised, distinct by layouts and outcomes",
        needs_counts=["given", "refused", "zeroed", "deallocated", "shrunk", "same size", "grown", "more alignment", "moved", "realloc refused",
                      "moved by threads", "blocks of threads", "allocator calls", "reallocations by collections", "zeroed by collections",
                      "exhaustions seen by collections", "reservation refused", "pool reused", "programs"],
    ),
    "C22": dict(
        technique="undefined-behaviour interpreter and sanitizers: random programs without unsafe code under Miri (tree and stacked borrows), AddressSanitizer and ThreadSanitizer; programs of forbidden uses, run under Miri if the compiler accepts them",
        runs=std("c22") + [
            dict(bin="c22", variant="mirisb", scale=0.6, shards=3, tshards=8, tscale=10),
            dict(bin="c22", variant="tsan", scale=1, tscale=10, args=["--family", "threads"]),
            dict(bin="c22", variant="miriconc", scale=1, shards=3, tshards=8, tscale=10, args=["--family", "threads"]),
            dict(bin="misuse", variant="misuse", crate="misuse"),
        ],
        rule="random programs without unsafe code: memory from 12 kinds of sources (stack, heap, alloca, the three bumps, pinned slots, regions recovered from "
             "boxes, vectors and counted pointers) goes nested to every consumer, with forgotten objects and panics in between; threads on shared Bumps; "
             "programs that attempt what must be impossible, refused by the compiler or else run; distinct by the sequence of steps and by program",
        needs_counts=["programs", "panics caught", "forgotten", "region for a box", "region for a vec", "region for an unaligned vec", "region for an rc",
                      "box taken", "box unsized", "box made any", "reference unsized", "vec drained", "drain forgotten", "vec split", "rc unwrapped",
                      "rc memory recovered", "bump box", "leak box of an array element", "chained", "pinned", "pinned memory", "pop_all", "set", "alloca",
                      "box of a Bump", "rc of a Bump", "vec of a Bump", "arena: used part of a bump", "fills", "zero-sized", "threads rounds",
                      "taken over from a thread", "markers absent", "markers present", "misuses refused"],
    ),
    "C01": dict(
        technique="runtime monitoring: threads on the real code with injected delays, under ThreadSanitizer, AddressSanitizer and Miri (races, weak memory), and under a scheduler of our own over a replaced atomic; a monitor checks all regions for bounds, alignment, disjointness and kept contents",
        runs=std("c01", native=2, miri=0.6, shards=4) + [
            dict(bin="c01", variant="tsan", scale=2, tscale=80),
            dict(bin="c01", variant="miriconc", scale=0.7, shards=6, tshards=8, trounds=3, tscale=8),
            dict(bin="c01", variant="mirisb", scale=0.3, shards=1, tshards=2, tscale=5),
            dict(bin="c01s", variant="dbg", crate="conc", feats="", optional=True, scale=1, tscale=20, shards=2, tshards=4),
        ],
        rule="random programs for 2 to 6 threads, released together, over every shared entry point of a Bump (raw, typed, at a level read before, boxes, "
             "GlobalAlloc with reallocation, statics) on regions of 1 byte to 4 KiB with delays injected; every region is filled with its owner's mark and "
             "read back, handed to other threads and given up at a reset; the same programs over a replaced atomic under a scheduler of our own that owns "
             "every access, sampled and explored completely for small programs; distinct by the program and the answers, and by the interleaving",
        needs_counts=["regions", "rounds", "reallocated", "taken over from another thread", "reused after reset", "statics"],
    ),
    "C02": dict(
        technique="runtime monitoring: stamped concurrent histories checked by an offline linearizability checker against the exact model of a bump; natural threads with delays, ThreadSanitizer, Miri, and a scheduler of our own over a replaced atomic, complete for small programs",
        runs=std("c02", native=2, shards=3) + [
            dict(bin="c02", variant="tsan", scale=4, tscale=80),
            dict(bin="c02", variant="miriconc", scale=1, shards=5, tshards=8, trounds=3, tscale=8),
            dict(bin="c02s", variant="dbg", crate="conc", feats="", optional=True, scale=1, tscale=20, shards=2, tshards=4),
        ],
        rule="random programs for 2 to 6 threads over every shared entry point of a Bump; every call is stamped before and after and the history is checked "
             "for a linearization against the exact model of a bump (offset, level, refusals); the same programs over a replaced atomic under a scheduler "
             "of our own, sampled and explored completely for small programs, with spurious failures where the code allows them; distinct by the history, and "
             "by the interleaving",
        needs_counts=["histories", "successes", "refused", "exhausted", "mismatches", "level reads", "overlapping calls"],
    ),
    "C23": dict(
        technique="runtime monitoring: calls single-stepped with the processor's trap flag and stopped after each instruction while the same or another thread calls on; termination and instruction bounds monitored, histories checked by a linearizability checker",
        runs=[
            dict(bin="c23", variant="dbg", scale=1, tscale=12, shards=2, tshards=3),
            dict(bin="c23", variant="rel", scale=2, tscale=25, shards=2, tshards=4),
        ],
        rule="random calls on a shared Bump single-stepped by the processor's trap flag and stopped after each of their instructions in turn; the trap handler, or "
             "another thread that may be stopped itself, does random calls on the same Bump; every call must end, the history is checked for a "
             "linearization against the exact model; non-trivial if others succeeded meanwhile, distinct by the calls and their answers",
        needs_counts=["interruptions", "calls within interrupts", "interrupted interrupts", "calls stopped", "calls of others meanwhile", "both stopped",
                      "reallocations interrupted", "successes", "refusals"],
    ),
    "C24": dict(
        runs=std("c24", native=2),
        rule="refused calls (empty layouts, levels of other allocators, positions and ranges behind the end, memory that does not fit, types with a size, "
             "sizes nothing can have) mixed with accepted ones on both bumps over four kinds of memory, FixedVec, Rc, Uninit and Alloca; every panic that is "
             "documented must come, nothing else may change, and requests within the domain of any size must not panic; non-trivial if something "
             "was refused or allocated, distinct by the calls",
        needs_counts=["empty layouts refused", "foreign levels refused", "values refused", "panics with a value", "extreme layouts", "hostile arrays",
                      "impossible capacities", "splits refused", "ranges refused", "ranges drained", "indices refused", "extends refused",
                      "memory refused", "memory accepted", "inventions refused", "invented", "scratch refused"],
    ),
}
