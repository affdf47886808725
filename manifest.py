#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
KANI = "contract-based deductive verification of the real code with Kani (assume/guarantee contracts of every pull, symbolic interference at every atomic access)"
COMMON = ("Contracts are checked on /repo's current source by Kani for every state of the shared counters which the guarantee of the other threads "
          "admits; loop-free harnesses over the full domain are proofs. ")
KNOWN = "Slices, vectors, ranges, cloned/copied slices of any length and any usize chunk size, arrays of length 0, 1 and 5. "
WRAP = ("Wrapped iterators: single pulls proved; chunk pulls bounded to 3 elements taken by one call. The first 3 elements of a chunk are compared, the announced length for all. ")
LEM = "Verus lemmas lead from the per-call contracts to the whole history. "
C = {
    "C01": (KANI + " + Verus lemmas over the contracts", "proof", COMMON + KNOWN + WRAP + LEM),
    "C02": (KANI + " + Verus lemmas over the contracts", "proof", COMMON + KNOWN + WRAP),
    "C03": (KANI, "proof", COMMON + KNOWN + WRAP),
    "C04": (KANI + " + Verus lemmas over the contracts", "proof", COMMON + KNOWN + WRAP + LEM),
    "C05": (KANI + " + Verus lemmas over the contracts", "proof", COMMON + KNOWN + WRAP + LEM),
    "C06": (KANI + " + Verus lemmas over the contracts", "proof", COMMON + KNOWN + WRAP + LEM),
    "C07": (KANI + ": exclusive permission to the wrapped iterator transferred by release/acquire", "proof",
            COMMON + WRAP + "The permission argument assumes the release/acquire semantics of the language memory model, by observing which accesses the code makes."),
    "C08": (KANI + " with an ownership ledger", "proof", COMMON + "Ownership per position proved for single pulls and skips of vectors and arrays; histories with destructors are bounded (3 elements)."),
    "C09": (KANI + ": progress contracts; another thread frozen at every atomic access", "proof",
            COMMON + KNOWN + "Every pull returns whatever the other threads have done; for known sizes also when another call is suspended at any atomic access. Waiting rounds of wrapped iterators: each round ends when the contracts of the others are fulfilled (Verus ranking lemma)."),
    "C10": (KANI, "proof", COMMON + KNOWN + "From every state of the counters."),
    "C11": (KANI + " + Verus lemmas over the contracts", "proof", COMMON + KNOWN + WRAP),
    "C12": (KANI + " + Verus lemmas over the contracts", "proof",
            "for_each/enumerate_for_each/fold are checked with at most 2 elements left at the start of the call (bounded); " + LEM),
    "C13": (KANI + ": the adaptor is checked against the contract of the underlying iterator", "proof", COMMON + KNOWN + WRAP),
    "C14": ("type-level contracts (bounds, lifetimes of the public signatures) discharged by rustc on generic clients that must be rejected and their accepted twins; Kani ownership ledger", "proof",
            "A client is checked against the signatures only. Rejection is decided for the listed ways of escape, generic in the element type. 7 known findings (safe public AtomicIter::get/counter, ConIterOfIter without Iter: Send)."),
    "C15": (KANI + " with CBMC's memory-leak obligation", "other",
            "Bounded: 2 boxed elements, all pull methods, single thread; every allocation is released on every path."),
    "C16": (KANI + " over the full usize domain", "proof", COMMON + KNOWN + WRAP),
    "C17": (KANI + " with and without debug assertions", "proof", COMMON + KNOWN + "The same contracts are discharged in both configurations, including the assertions of the standard library's unsafe preconditions."),
    "C18": (KANI + ": user code runs outside of the critical section; unwinding executed on the real code (bounded stand-in)", "proof",
            "Kani does not model unwinding. Proved: clones and closures run when the reservation is complete and no other thread waits for it. The cleanup paths themselves are executed (bounded: up to 6 elements, 3 threads)."),
    "C19": (KANI, "proof", COMMON + "Slices, ranges and their adaptors; clone starts at the current position, iterators share no counter."),
}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p, "quick_cmd": f"./run.py {p} quick", "thorough_cmd": f"./run.py {p} thorough",
        "technique": t, "level": lv, "level_note": n,
    } for p, (t, lv, n) in C.items()],
    "not_applicable": [],
    "notes": "no hooks in /repo: the harnesses use the public interface. fix: commits are listed in known-findings.txt",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
