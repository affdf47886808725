"""The harnesses: which contract is checked on which code for which property.

run.py writes the harnesses of a property (src/gen.rs) from this table.
"""
import os

HERE = os.path.dirname(os.path.abspath(__file__))

KINDS = {
    "slice": "KSlice", "vec": "KVec", "arr": "KArr<5>", "range": "KRange",
    "cloned": "KCloned", "copied": "KCopied",
}
EXTRA = {"arr0": "KArr<0>", "arr1": "KArr<1>"}
WRAPPED = {"wplain": "Plain", "wcloned": "WCloned", "wcopied": "WCopied"}
IMPL = {
    "slice": "ConIterOfSlice", "vec": "ConIterOfVec", "arr": "ConIterOfArray<5>", "arr0": "ConIterOfArray<0>",
    "arr1": "ConIterOfArray<1>", "range": "ConIterOfRange", "cloned": "Cloned<ConIterOfSlice>",
    "copied": "Copied<ConIterOfSlice>", "wplain": "ConIterOfIter", "wcloned": "Cloned<ConIterOfIter>",
    "wcopied": "Copied<ConIterOfIter>",
}
METHODS = ["next", "next_id_and_value", "values().next", "ids_and_values().next", "fetch_one"]
EACH = ((0, "for_each"), (1, "enumerate_for_each"), (2, "fold"))
OPS = ["next", "next_chunk", "buffered_iter().next", "skip_to_end", "ids_and_values().next"]

Q, T = "quick", "thorough"


class H:
    """One proof harness."""

    def __init__(self, name, unwind, expr, tier, fn, bounded=None, cost=5, panics=False, leak=False, fallback=False):
        self.name = name          # unique
        self.unwind = unwind
        self.expr = expr
        self.tier = tier
        self.fn = fn              # function(s) under contract
        self.bounded = bounded    # statement of the bound, or None
        self.cost = cost          # rough seconds, for scheduling
        self.panics = panics      # the documented panic is the contract
        self.leak = leak          # with CBMC's memory-leak obligation
        self.fallback = fallback
        # bounded stand-in, run in the quick tier when the modular proof (each/) is not accepted

    def later(self):
        self.tier = T
        return self


def num(p):
    return int(p[1:])


WB = "at most 3 elements taken from the wrapped iterator by one call"


def known_pulls(p, kinds, singles=(0, 1), more=(2, 3), zero=False, frozen=False, chunk=True, buffered=True, few=None):
    """pull contract of the kinds of known length; `few`: kinds with all single methods in the quick tier"""
    P, z, f = num(p), str(zero).lower(), str(frozen).lower()
    r = []
    few = kinds if few is None else few
    for k in list(kinds) + list(EXTRA):
        ty = {**KINDS, **EXTRA}[k]
        extra = k in EXTRA
        if extra and "arr" not in kinds:
            continue
        for m in (0, 1, 2, 3, 4):
            quick = not extra and (m in singles or (m in more and k in few))
            r.append(H(f"{p}_{k}_single{m}", 3, f"pull::single::<{ty}, {P}, {m}>({f})",
                       Q if quick else T, f"{IMPL[k]}::{METHODS[m]}", cost=4))
        if chunk:
            r.append(H(f"{p}_{k}_chunk", 4, f"pull::chunk::<{ty}, {P}, false>({z}, {f})", T if extra else Q, f"{IMPL[k]}::next_chunk", cost=14))
            r.append(H(f"{p}_{k}_fetchn", 4, f"pull::chunk::<{ty}, {P}, true>({z}, {f})", T, f"{IMPL[k]}::fetch_n", cost=14))
        if buffered:
            r.append(H(f"{p}_{k}_buffered", 4, f"pull::buffered::<{ty}, {P}>({f})", T if extra else Q, f"{IMPL[k]}::buffered_iter().next", cost=20))
    return r


def wrapped_pulls(p, kinds=("wplain",), singles=(0, 1), more=(2, 3), zero=False, env="Any", chunk=True, buffered=True, warm=True, tier=Q, tag=""):
    P, z = num(p), str(zero).lower()
    r = []
    for k in kinds:
        ty = WRAPPED[k]
        for m in list(singles) + list(more):
            r.append(H(f"{p}_{k}{tag}_single{m}", 5, f"wrapped::single::<{ty}, {P}, {m}>(Env::{env})", tier if m in singles else T,
                       f"{IMPL[k]}::{METHODS[m]}", cost=18))
        if chunk:
            r.append(H(f"{p}_{k}{tag}_chunk", 5, f"wrapped::chunk::<{ty}, {P}>(Env::{env}, {z})", tier, f"{IMPL[k]}::next_chunk", bounded=WB, cost=45))
        if buffered:
            r.append(H(f"{p}_{k}{tag}_buffered", 5, f"wrapped::buffered::<{ty}, {P}, 0>(Env::{env}, 0)", tier, f"{IMPL[k]}::buffered_iter().next", bounded=WB, cost=38))
            for w in (1, 2):
                r.append(H(f"{p}_{k}{tag}_warm{w}", 5, f"wrapped::buffered::<{ty}, {P}, 2>(Env::{env}, {w})", tier if warm and w == 2 else T,
                           f"{IMPL[k]}::buffered_iter().next (used buffer)", bounded=WB + ", chunk size 2", cost=26))
    return r


def per_kind(p, what, kinds, fn, tier=Q, unwind=4, cost=4, **kw):
    P = num(p)
    r = []
    for k in kinds:
        ty = {**KINDS, **EXTRA}[k]
        r.append(H(f"{p}_{k}_{what}", unwind, f"known::{what}::<{ty}, {P}>()", tier, f"{IMPL[k]}::{fn}", cost=cost, **kw))
    return r


def adaptors(p, singles=(1,), env="Any", tag=""):
    """the adaptors of wrapped iterators: single pulls in the quick tier"""
    return [h if h.tier == Q and not h.bounded else h.later()
            for h in wrapped_pulls(p, ("wcloned", "wcopied"), singles=singles, more=(), env=env, tag=tag)]


def skips(p, kinds=KINDS, wk=tuple(WRAPPED), tier=Q):
    r = per_kind(p, "skip", kinds, "skip_to_end", tier)
    for k in wk:
        r.append(H(f"{p}_{k}_skip", 5, f"wrapped::skip::<{WRAPPED[k]}, {num(p)}>(Env::Any)", tier, f"{IMPL[k]}::skip_to_end", cost=15))
    return r


def lens(p, kinds=KINDS, wk=("wplain",), tier=Q):
    r = []
    for i, fn in ((0, "try_get_len"), (1, "has_more")):
        for k in kinds:
            r.append(H(f"{p}_{k}_len{i}", 4, f"known::lens::<{KINDS[k]}, {num(p)}, {i}>()", tier, f"{IMPL[k]}::{fn}", cost=2))
        for k in wk:
            r.append(H(f"{p}_{k}_len{i}", 5, f"wrapped::lens::<{WRAPPED[k]}, {num(p)}, {i}>(Env::Any)", tier, f"{IMPL[k]}::{fn}", cost=6))
    return r


def fresh(p, kinds=KINDS, tier=Q):
    return per_kind(p, "fresh", kinds, "new/from/con_iter/into_con_iter", tier)


def build():
    t = {}
    REFS = ["slice", "range", "cloned", "copied"]

    t["C01"] = known_pulls("c01", KINDS, few=["slice"]) + wrapped_pulls("c01") + adaptors("c01") + skips("c01") + fresh("c01")
    t["C02"] = (known_pulls("c02", KINDS, singles=(1, 3), more=()) + wrapped_pulls("c02", singles=(1, 3), more=()) + adaptors("c02")
                + fresh("c02"))
    t["C03"] = [h for h in known_pulls("c03", KINDS, zero=False) if "_single" not in h.name] + wrapped_pulls("c03", singles=(), more=())
    t["C04"] = known_pulls("c04", KINDS, few=["vec"]) + wrapped_pulls("c04") + adaptors("c04") + skips("c04")
    t["C05"] = known_pulls("c05", KINDS, few=["range"]) + wrapped_pulls("c05") + adaptors("c05") + lens("c05") + skips("c05")
    t["C06"] = (known_pulls("c06", KINDS, few=["arr"], singles=(1,), more=(0,), buffered=True) + wrapped_pulls("c06", singles=(1,), more=(0,)) + adaptors("c06")
                + skips("c06") + lens("c06"))
    t["C07"] = (known_pulls("c07", KINDS, singles=(1,), more=()) + wrapped_pulls("c07") + adaptors("c07") + skips("c07") + lens("c07"))

    # C08
    c = []
    for o, ty in (("vec", "OVec"), ("arr", "OArr")):
        for n in (1, 2, 3):
            for op in range(6):
                for seq in (False, True):
                    quick = n == 3 and op != 4
                    c.append(H(f"c08_{o}{n}_op{op}_{'seq' if seq else 'drop'}", 5,
                               f"ledger::ledger::<ledger::{ty}<{n}>, {op}, {str(seq).lower()}>()", Q if quick else T,
                               f"{IMPL[o]}::{(OPS + ['drop'])[op]}, then {'into_seq_iter' if seq else 'drop'}",
                               bounded=f"length {n}, element type with destructor", cost=5))
    for op in range(5):
        for seq in (False, True):
            c.append(H(f"c08_iter_op{op}_{'seq' if seq else 'drop'}", 5, f"ledger::wrapped::<{op}, {str(seq).lower()}>()", Q,
                       f"ConIterOfIter::{(OPS + ['drop'])[op]}, then {'into_seq_iter' if seq else 'drop'}",
                       bounded="3 elements, single thread", cost=6))
    c += per_kind("c08", "skip", ["vec", "arr"], "skip_to_end")
    c += [h for h in known_pulls("c08", {"vec": 0, "arr": 0}, singles=(1,), more=()) if h.tier == Q]
    t["C08"] = c

    # C09
    c = known_pulls("c09", KINDS, frozen=True, few=["slice"]) + lens("c09")
    for env in ("Quiescent", "Done", "Any"):
        c += wrapped_pulls("c09", env=env, tag=env.lower(), singles=(1,), more=(0,), warm=False,
                           buffered=env != "Done", chunk=True)
    c += skips("c09", kinds=[])
    for k in KINDS:
        for a in range(4):
            for b in range(4):
                quick = a == b or (k != "copied" and (a, b) in ((1, 0), (0, 1), (3, 0), (0, 3)))
                c.append(H(f"c09_{k}_suspend{a}{b}", 10, f"known::suspend::<{KINDS[k]}, {a}, {b}>()", Q if quick else T,
                           f"{IMPL[k]}::{OPS[b]} while {OPS[a]} is suspended", cost=20))
    t["C09"] = c

    c = per_kind("c10", "into_seq", KINDS, "into_seq_iter") + per_kind("c10", "into_seq", EXTRA, "into_seq_iter")
    for k in WRAPPED:
        c.append(H(f"c10_{k}_into_seq", 5, f"wrapped::into_seq::<{WRAPPED[k]}, 10>()", Q, f"{IMPL[k]}::into_seq_iter", cost=3))
    t["C10"] = c

    t["C11"] = (lens("c11", wk=WRAPPED) + skips("c11") + fresh("c11") + known_pulls("c11", KINDS, buffered=False, few=[])
                + wrapped_pulls("c11", buffered=False) + adaptors("c11"))

    # C12: the pulls; the loops over the pulls are proved in each/ (run.py)
    c = known_pulls("c12", KINDS, singles=(0, 1), more=()) + wrapped_pulls("c12", singles=(0, 1), more=()) + skips("c12", tier=T)
    c = [h for h in c if "_chunk" not in h.name and "_fetchn" not in h.name and not ("_wplain_single0" in h.name)]
    for k in KINDS:
        for m, fn in EACH:
            c.append(H(f"c12_{k}_each{m}", 4, f"known::for_each::<{KINDS[k]}, 12, {m}>()", T, f"{IMPL[k]}::{fn}",
                       bounded="at most 2 remaining elements at the start of the call", cost=50, fallback=k in ("range", "vec")))
    for m, fn in EACH:
        c.append(H(f"c12_wplain_each{m}", 5, f"wrapped::for_each::<Plain, 12, {m}>(1)", T, f"ConIterOfIter::{fn}",
                   bounded="at most 2 elements taken by the call, chunk size 1", cost=60, fallback=m == 1))
    t["C12"] = c

    # C13
    ad = ["cloned", "copied"]
    c = known_pulls("c13", ad, more=(2, 3), zero=True) + lens("c13", ad, ["wcloned", "wcopied"]) + skips("c13", ad, ["wcloned", "wcopied"])
    c += per_kind("c13", "into_seq", ad, "into_seq_iter")
    c += wrapped_pulls("c13", ["wcloned", "wcopied"], singles=(1,), more=(0, 2, 3), zero=True)
    for k in ("wcloned", "wcopied"):
        c.append(H(f"c13_{k}_into_seq", 5, f"wrapped::into_seq::<{WRAPPED[k]}, 13>()", Q, f"{IMPL[k]}::into_seq_iter", cost=3))
    t["C13"] = c

    # C14: the type-level contracts are in types/gen.py; here: safe histories do not give two owners
    c = []
    for o, ty in (("vec", "OVec"), ("arr", "OArr")):
        for op in range(6):
            for seq in (False, True):
                c.append(H(f"c14_{o}3_op{op}_{'seq' if seq else 'drop'}", 5, f"ledger::ledger::<ledger::{ty}<3>, {op}, {str(seq).lower()}>()",
                           Q if op in (0, 1, 2, 3) else T, f"{IMPL[o]}::{(OPS + ['drop'])[op]}, then {'into_seq_iter' if seq else 'drop'}",
                           bounded="length 3, element type with destructor", cost=5))
    t["C14"] = c

    # C15
    c = []
    for k, im in (("vec", "ConIterOfVec"), ("arr", "ConIterOfArray"), ("iter", "ConIterOfIter"), ("cloned", "Cloned")):
        for op in range(5):
            for seq in (False, True):
                c.append(H(f"c15_{k}_op{op}_{'seq' if seq else 'drop'}", 4, f"ledger::leak_{k}::<{op}, {str(seq).lower()}>()",
                           Q, f"{im}: next, {(OPS[:4] + ['nothing'])[op]}, then {'into_seq_iter' if seq else 'drop'}",
                           bounded="2 boxed elements, single thread", cost=6, leak=True))
    for k, im in (("vec", "ConIterOfVec"), ("arr", "ConIterOfArray")):
        for op in range(5):
            for seq in (False, True):
                c.append(H(f"c15_{k}_release{op}_{'seq' if seq else 'drop'}", 4, f"ledger::release_{k}::<{op}, {str(seq).lower()}>()",
                           Q, f"{im}: {(OPS[:4] + ['nothing'])[op]} in any state, then {'into_seq_iter' if seq else 'drop'}", cost=6, leak=True))
    t["C15"] = c

    # C16
    c = known_pulls("c16", KINDS, zero=True, singles=(1,), more=(0,), few=["range"]) + fresh("c16") + lens("c16", wk=[]) + skips("c16")
    c += per_kind("c16", "into_seq", KINDS, "into_seq_iter")
    c += wrapped_pulls("c16", zero=True, singles=(1,), more=())
    for k in KINDS:
        for op, fn in enumerate(("buffered_iter", "for_each", "enumerate_for_each", "fold")):
            c.append(H(f"c16_{k}_panics{op}", 4, f"known::panics::<{KINDS[k]}, {op}>()", Q if op == 0 or k in ("range", "vec") else T,
                       f"{IMPL[k]}::{fn} with chunk size 0", panics=True, cost=2))
    for op, fn in enumerate(("buffered_iter", "for_each", "enumerate_for_each", "fold")):
        c.append(H(f"c16_wplain_panics{op}", 5, f"wrapped::panics::<Plain, {op}>()", Q, f"ConIterOfIter::{fn} with chunk size 0", panics=True, cost=2))
    t["C16"] = c

    # C17: twice, with and without debug assertions
    t["C17"] = (known_pulls("c17", KINDS, zero=True, singles=(1,), more=()) + lens("c17") + skips("c17")
                + per_kind("c17", "into_seq", KINDS, "into_seq_iter")
                + wrapped_pulls("c17", zero=True, singles=(1,), more=()) + adaptors("c17"))

    # C18
    t["C18"] = (wrapped_pulls("c18", ["wplain", "wcloned"], singles=(1,), more=()) + known_pulls("c18", ["cloned"], singles=(1,), more=())
                + [H("c18_wplain_each1", 5, "wrapped::for_each::<Plain, 18, 1>(1)", T, "ConIterOfIter::enumerate_for_each",
                     bounded="at most 2 elements taken by the call, chunk size 1", cost=60)])

    # C19
    t["C19"] = (known_pulls("c19", ["slice"], more=(2, 3)) + fresh("c19", REFS) + lens("c19", ["slice"], []) + skips("c19", ["slice"], [])
                + per_kind("c19", "clone", ["slice", "range"], "clone", cost=8) + per_kind("c19", "into_seq", ["slice"], "into_seq_iter")
                + [H("c19_independent", 4, "known::independent::<19>()", Q, "Vec::con_iter", cost=3)])
    return t


TABLE = build()


def generate(harnesses):
    lines = ["//! Generated by table.py.", "#![allow(unused_imports)]", "use crate::{kinds::*, known, ledger, pull, wrapped, wrapped::*};"]
    for h in harnesses:
        lines.append(f"{'harness_panics' if h.panics else 'harness'}!({h.name}, {h.unwind}, {h.expr});")
    return "\n".join(lines) + "\n"


if __name__ == "__main__":
    for p in sorted(TABLE):
        q = [h for h in TABLE[p] if h.tier == Q]
        print(p, len(q), len(TABLE[p]), "cost", sum(h.cost for h in q), sum(h.cost for h in TABLE[p]))
    names = [h.name for p in TABLE for h in TABLE[p]]
    assert len(names) == len(set(names))
