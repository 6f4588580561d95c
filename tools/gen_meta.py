#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), technique=None, note=None, na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state, technique=technique, note=note, na=na, hook=hook))


SEQ = ("TLC exploration of spec/{0} with every transition replayed into the real code, plus TLC trace validation of "
       "recorded histories")
SEQN = ("Exhaustive within the constants in spec/{0} (every reachable abstract state and call) and, beyond them, every "
        "recorded history is decided by TLC. Trusts the driver's projection, g++ and TLC; AddressSanitizer watches memory bounds.")

prop("C01", "SPSC FIFO delivers every element exactly once, in order",
     "With one producer thread and one consumer thread operating a lock-free single-producer/single-consumer FIFO concurrently, the consumer obtains exactly the elements the producer put, in the same order, each once and intact, whatever the interleaving. A put is refused only if the FIFO was full, and a get yields nothing only if the FIFO was empty, at some moment during that call; a refused put changes nothing. A reset removes only elements that were in the FIFO during that call. The free space the producer sees is space it can really put into, and the fill count the consumer sees is elements it can really get.",
     ["schedules", "histories", "configurations"],
     "every interleaving of the atomic accesses and slot accesses of one producer and one consumer (including remove-first, move-out and reset by either side), for the fixed and the runtime-sized FIFO",
     "Tests run single-threaded or on one OS schedule; the property is over all interleavings and stale atomic reads.",
     ["util/lockfree_fifo_spsc.hh", "util/lockfree_fifo_spsc_dyn.hh"],
     [("publish head after the slot is written; read head before reading the slot", "put/get"), ("full/empty decided on the difference of two counters", "put/get/num_filled")],
     ["LockFreeFifoSpsc::put/get/get_move/remove_first/num_filled/num_free/reset", "LockFreeFifoSpscDyn, same"],
     [("head/tail", "monotonic counters masked into slots", "head_, tail_")],
     technique="The real code runs under a controlled scheduler over a replaced std::atomic (depth-first up to a preemption bound, plus random schedules); TLC decides every recorded concurrent history as a linearizability trace check against spec/SpscLin.tla (spec/Conc.tla)",
     note="2 threads, sizes 1-4, schedules up to 3 (thorough 4) preemptions plus random ones, on the real code. Interleaving semantics here; weak-memory ordering is C02.")

prop("C02", "SPSC FIFO is data-race free under the C++ memory model",
     "Between one producer thread and one consumer thread, every write of an element slot happens-before the read that consumes it, and every read of a slot happens-before the write that reuses it, through the synchronisation the FIFO itself performs. This holds for every way of putting, getting, discarding and consumer-side clearing, so neither thread ever observes a half-written or stale element on any hardware.",
     ["schedules", "programs"],
     "every interleaving and every C++20 happens-before relation of executions of one producer and one consumer",
     "x86 tests cannot exhibit missing acquire/release, and a sanitizer sees one schedule.",
     ["util/lockfree_fifo_spsc.hh", "util/lockfree_fifo_spsc_dyn.hh"],
     [("acquire/release orders on head and tail", "put/get/get_move/remove_first/reset")],
     ["atomic operations with their memory orders and slot accesses, recorded by an instrumented std::atomic and element type"],
     technique="TLC trace check of recorded atomic and slot accesses of the real code, with loads returning any value C++20 coherence allows, against a vector-clock happens-before specification (spec/HbTrace.tla), and of the delivered elements against spec/SpscLin.tla; plus TLC model check of the algorithm (spec/SpscAlgo.tla)",
     note="Release-sequence rules of C++20. Schedules bounded by preemptions plus random ones.")

prop("C03", "SPSC FIFO capacity, counts and index wrap-around",
     "A FIFO of a given size holds exactly that many elements: puts succeed until it is full, fill and free counts always add up to the size, and element order is preserved however many times the positions wrap, including past the end of the index type. Construction with an initial offset or initial contents, clearing, and (for the runtime-sized variant) resizing leave a FIFO with the documented contents and the same guarantees.",
     ["histories", "configurations"],
     "every sequence of calls, element type and size (a power of two), and every starting position of the internal counters",
     "Tests walk a few short sequences at one size and never wrap the index type.",
     ["util/lockfree_fifo_spsc.hh", "util/lockfree_fifo_spsc_dyn.hh"],
     [("full iff difference of counters reaches the size", "put"), ("masking", "put/get")],
     ["all public members"], technique=SEQ.format("Fifo.tla"), note=SEQN.format("Fifo.tla"))

prop("C04", "Thread-safe pool: one owner per slot, no slot lost",
     "However many threads create and destroy objects in a thread-safe pool concurrently, a slot is never handed to a second owner before its previous owner returned it, and every slot that was returned can be handed out again. A creation is refused only if each slot was taken at some moment during the call, and whatever an owner did to its slot is complete and visible when the next owner gets it. With all threads quiescent the pool accounts for exactly the slots that were created and not destroyed.",
     ["schedules", "histories"],
     "every interleaving of creates, destroys and queries by several threads, including stale relaxed loads and spurious compare-exchange failures",
     "Tests never call the pool from two threads; the property is about all interleavings.",
     ["util/thread_safe_pool.hh"], [("compare-exchange claims a slot", "create"), ("atomic store frees it", "destroy")],
     ["ThreadSafePool public members"],
     technique="Real code under a controlled scheduler over a replaced std::atomic; recorded concurrent histories decided by TLC: linearizability against spec/PoolLin.tla, data races against spec/HbTrace.tla; sequential behaviour against spec/TsPool.tla",
     note="2-3 logical threads, small pools, preemption-bounded plus random schedules on the real code.")

prop("C05", "Pools and arenas never hand out overlapping or excess storage",
     "An object pool hands out each free slot to at most one live object, refuses to create when all slots are live, and returned slots become available again; counts and membership queries always agree with the set of live objects. A monotonic arena serves a non-overlapping block inside its storage whenever the request fits in what remains, and otherwise refuses and leaves its state unchanged.",
     ["histories", "configurations"],
     "every sequence of create/destroy/query calls and every sequence of allocation sizes",
     "Overlap or loss needs particular histories of frees and reuse; there are no unit tests of the arena.",
     ["util/pool.hh", "util/monotonic_allocator.hh"], [("free list / used flags", "Pool"), ("bump pointer", "MonotonicAllocator::allocate")],
     ["public members; addresses relative to the storage"], technique=SEQ.format("Pool.tla, Arena.tla"), note=SEQN.format("Pool.tla, Arena.tla"))

prop("C06", "Wear-levelled storage returns the last completed write",
     "After any sequence of writes and restarts on healthy storage, a read returns the most recently written data, whatever cell it landed in, and a never-written or freshly erased medium reads as having no data. If power is lost at any step inside a write that does not have to erase the medium, a restart reads back either the previous data or the new data, never anything else. Every write that reports success is the data that later reads return, and the medium is erased only when no unused cell is left.",
     ["histories", "crash_points", "configurations"],
     "every history of writes, reads and restarts, and every storage operation at which power is lost, for all cell counts",
     "Tests walk single histories with a perfect medium and never cut a write in the middle.",
     ["util/wear_level.hh"], [("newest valid cell found by a backward or binary search from the end", "construction/read"), ("next cell, erase on wrap", "write")],
     ["WearLevel(er) read/write over a simulated medium that logs every storage call"],
     technique="TLC model checking of spec/WearLevel.tla (crash after every storage step); every transition replayed on the real code over a simulated medium; TLC trace validation",
     note="Exhaustive for small cell counts and histories; random histories to 64 cells.")

prop("C07", "Wear-levelled storage survives bad cells and failing media",
     "On a misbehaving medium (reads, writes or erases that report failure, cells that silently keep something else or cannot be written again, erases that clear only part) a read reports success only with valid data that the medium really delivered, falling back to the newest valid data it can still read. A write reports success only if the medium reported storing the data in a writable cell within the configured range; it skips cells that are not writable, erases at most once, and fails only if the medium reported failure or no cell is writable even after an erase. Neither ever addresses storage outside the configured cells nor fails to terminate.",
     ["fault_sequences", "histories", "configurations"],
     "every assignment of failing storage operations and bad cells to every history of writes, reads and restarts",
     "Tests use a medium with at most one scripted fault; combinations of faults and histories are unbounded.",
     ["util/wear_level.hh"], [("skip cells that are not writable", "write"), ("erase failure handling", "write")],
     ["WearLevel(er) read/write over a simulated medium with scripted faults"],
     technique="TLC model checking of spec/WearLevel.tla with nondeterministic faults; fault scripts replayed on the real code; TLC trace validation",
     note="All fault combinations within the bound; random beyond.")

prop("C08", "Double-buffered stream sends each byte once, in order",
     "Whatever is written to a double-buffered stream is transmitted exactly once and in the order written, never while being modified: data handed to the transmitter stays unchanged until its completion is signalled. A write that does not fit is refused as a whole, and a transmission the transmitter refuses neither loses accepted data nor blocks the stream for ever.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of writes with transmit completions (arriving between any two calls), every write size, and every refusal by the transmitter",
     "Tests drive a few hand-picked orders of write and completion.",
     ["util/doublebuf_stream.hh"], [("fill one buffer while the other is in flight; swap on completion", "transmit/tx callback")],
     ["transmit() results, transmit function arguments and buffer contents at completion"],
     technique=SEQ.format("DoubleBuf.tla"), note=SEQN.format("DoubleBuf.tla"))

prop("C09", "Ring buffers: overwrite-oldest FIFO semantics",
     "A ring buffer behaves as a queue of bounded capacity that drops its oldest element when an element is put while full: gets return the surviving elements in the order they were put, and an empty buffer yields the default value (or nothing, for the optional-returning variant). Count, empty, full, peeking, discarding the first element, clearing, repositioning the next put and filling the storage agree with that queue after every history, for every element type.",
     ["histories", "configurations"], "every sequence of calls, every power-of-two size, every element type",
     "Tests exercise one wrap at one size.", ["util/circular_buffer.hh", "util/circular_buffer_opt.hh"],
     [("full flag disambiguates head == tail", "put/get")], ["all public members"], technique=SEQ.format("Ring.tla"), note=SEQN.format("Ring.tla"))

prop("C10", "Circular stack is a LIFO that forgets its oldest element",
     "Popping a circular stack always returns the most recently pushed surviving element; pushing when full discards exactly the oldest element and nothing else. Size, emptiness and the top element agree with that after every history, including construction from values and clearing.",
     ["histories", "configurations"], "every sequence of pushes, pops, clears and constructions, every capacity",
     "Tests cover one capacity and short sequences.", ["util/circular_stack.hh"], [("top/bottom indices with a full flag", "push_back/pop_back")],
     ["all public members"], technique=SEQ.format("CircStack.tla"), note=SEQN.format("CircStack.tla"))

prop("C11", "Delay-line buffers read and write the positions they say",
     "A circular access over external memory reads and writes consecutive positions in the chosen direction, wrapping at the ends and nowhere else, touches only the backing memory, and reports wrapping exactly when its position wrapped; a cross-faded write mixes old and new by the given phase and a full-phase write stores the data exactly. The marker-checking variants report a crossing exactly when the marker was passed for any transfer no longer than the buffer. Writing a block at any start position of a ring of blocks stores every element of the block at consecutive positions modulo the ring size.",
     ["histories", "inputs", "configurations"], "every start position, transfer length, direction, marker and element type",
     "Tests use a handful of positions, lengths and one element type.", ["util/circular_buffer_ext.hh", "util/circular_buffer_block.hh"],
     [("index wrap", "read/write/read_reverse/write_reverse"), ("side-of-marker xor wrapped", "*_check_crossed")],
     ["all public members and the backing memory"], technique=SEQ.format("CircAccess.tla, Block.tla"), note=SEQN.format("CircAccess.tla, Block.tla"))

prop("C12", "Fixed vector behaves as a bounded sequence",
     "A fixed-capacity vector always holds exactly the sequence that its history of appends, inserts, erasures, resizes and clears describes, keeping the order of unaffected elements. Requests beyond capacity or out of range are refused or clamped as reported by the return value, and never disturb existing elements or memory outside the vector; iterators, indexing and spans present the same elements.",
     ["histories", "configurations"], "every sequence of calls with every index and count, every capacity",
     "Tests sample few sequences; boundary combinations (full, empty, end index) are many.", ["util/fixed_vector.hh"],
     [("capacity checks and element shifting", "push_back/insert/erase/resize")], ["all public members"], technique=SEQ.format("FixedVec.tla"), note=SEQN.format("FixedVec.tla"))

prop("C13", "Evicting map keeps its newest entries and drops the oldest",
     "The insertion-ordered evicting map finds exactly the keys that were added and not since removed or evicted, each with its last value. Inserting into a full map is refused without effect, overwriting replaces the value of a present key, and overwriting with a new key in a full map evicts the oldest entry and no other. Removing a key removes that entry only, and removing the last removes the newest entry.",
     ["histories", "configurations"], "every sequence of insert, overwrite, remove and lookup over distinct keys, every capacity",
     "Tests cover single wraps of the eviction order.", ["util/seq_map.hh"], [("rotating oldest index", "overwrite")],
     ["all public members"], technique=SEQ.format("SeqMap.tla"), note=SEQN.format("SeqMap.tla"))

prop("C14", "Sequential map behaves as a bounded map",
     "The sequential map associates each key with the value last assigned or first inserted for it, in insertion order, with no key twice and never more than its capacity. Lookup, containment, size and iteration agree after every history; insertion of a present key or into a full map is refused without effect, and erasing a key leaves every other association untouched. Indexing a full map with a new key re-keys the last entry, as documented.",
     ["histories", "configurations"], "every sequence of assignments, insertions, lookups and erasures, every capacity",
     "The insert and find operations have no tests at all.", ["util/sequential_map.hh", "util/fixed_vector.hh"], [("linear search, append, shift-down erase", "operator[]/insert/erase")],
     ["all public members"], technique=SEQ.format("AssocMap.tla"), note=SEQN.format("AssocMap.tla"))

prop("C15", "Static strings are always terminated, bounded prefixes",
     "A static string always holds a NUL-terminated text no longer than its capacity, and copying any text into it stores the longest prefix that fits, without writing outside its storage, for every capacity. Length, remaining capacity, comparison and iteration agree with that text, and comparison depends on the text only, not on capacity or leftover bytes.",
     ["inputs", "histories", "configurations"], "every source text (pointer, view or other static string), every capacity including zero, every sequence of assignments",
     "Tests use few strings and capacities.", ["util/static_string.hh"], [("bounded copy loops with terminator", "copy")], ["all public members"],
     technique=SEQ.format("StatStr.tla"), note=SEQN.format("StatStr.tla"))
exec(open(os.path.join(V, "tools", "meta2.py")).read())


COPIES = "C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C30 C33 C34 C40 C42 C45 C46".split()
for p in P:
    if p["id"] in COPIES:
        p["statement"] += " Where such objects can be copied, a copy behaves as the original would, from any point of the history."
        p["text"] += ", with the object replaced by a copy (constructed or assigned) at any point"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
    checks, na = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        built = os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif not built:
            na.append({"property": p["id"], "reason": "check under construction"})
        else:
            checks.append({"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']} --tier quick",
                           "thorough_cmd": f"python3 tools/check.py {p['id']} --tier thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                           "level": "model_checking", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "Specifications are TLA+ checked with TLC; see DESIGN.md. No hooks in /repo: instrumentation is done in /verif/harness."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks", len(na), "not applicable/unbuilt")


main()
