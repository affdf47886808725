"""The parts of C14 and C18 which are not decided by Kani.

C14: type-level contracts (bounds and lifetimes of the public signatures), discharged by rustc's trait solver and borrow
     checker on generic clients: a client is checked against the signatures, never against the bodies.
C18: Kani does not model unwinding; panics are executed on the real code (bounded stand-in, see DESIGN.md).
"""
import glob
import os
import re
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "types"))


class Found:
    def __init__(self, text, how=""):
        self.found, self.text, self.how = True, text, how


def run(prop, tier, seed, work, res, extra, run_py):
    if prop == "C14":
        types(work, res, extra, run_py)
    else:
        panics(tier, seed, work, res, extra, run_py)


def types(work, res, extra, r):
    import gen
    d = os.path.join(work, "types")
    os.makedirs(d)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(d, "target"), RUSTFLAGS="-Awarnings")
    env.pop("RUSTUP_TOOLCHAIN", None)
    rc, text = r.sh(["cargo", "build", "--offline", "--lib"], 300, env=env, cwd=r.REPO)
    libs = glob.glob(os.path.join(d, "target/debug/liborx_concurrent_iter.rlib"))
    if rc != 0 or not libs:
        res.errors.append("cargo build failed: " + text[-2000:])
        return
    cases = gen.cases()

    def one(job):
        name, variant = job
        p = os.path.join(d, f"{name}_{variant}.rs")
        with open(p, "w") as f:
            f.write(gen.program(cases[name][1], variant))
        rc, out = r.sh(["rustc", "--edition", "2021", "--emit=metadata", "--crate-type", "bin", "-o", p[:-3] + ".rmeta", "--extern",
                        f"orx_concurrent_iter={libs[0]}", "-L", os.path.join(d, "target/debug/deps"), p], 60, env=env, cwd=d)
        return name, variant, rc, out

    jobs = [(n, v) for n in cases for v in ("neg", "pos")]
    out = {}
    for name, variant, rc, text in ThreadPoolExecutor(8).map(one, jobs):
        out[name, variant] = (rc, text)
    known = dict(r.known_findings("C14"))
    lines, discharged, codes = [], 0, {}
    first = None
    for n, (clause, text) in cases.items():
        (neg, negout), (pos, posout) = out[n, "neg"], out[n, "pos"]
        fn = f"rustc: {clause}"
        if neg is None or pos is None or neg not in (0, 1) or pos not in (0, 1) or "internal compiler error" in negout + posout:
            res.undecided.append((n, fn, "the compiler gives no answer"))
        elif neg == 0:
            if n in known:
                lines.append(f"KNOWN-FINDING: property=C14 {known[n]} [{n}]")
                continue
            prog = gen.program(text, "neg")
            res.violations.append((n, fn, ["the client is accepted although it must be rejected:\n" + prog]))
            first = first or Found(f"{clause}: rustc accepts this client of the crate\n{prog}", "compile the client against the crate with rustc --edition 2021")
        elif pos != 0:
            res.undecided.append((n, fn, "the twin of the rejected client is rejected as well: " + posout.strip().splitlines()[0][:200] if posout.strip() else ""))
        else:
            discharged += 1
            for code in re.findall(r"error\[(E\d+)\]", negout):
                codes[code] = codes.get(code, 0) + 1
        if n in known and neg != 0 and False:
            lines.append(n)
    total = len(cases) - len(lines)
    extra["known_lines"] = lines
    extra["found"] = first
    extra["obligations"] = (total, discharged)
    extra["back_end"] = ("rustc (trait solver, borrow checker)", discharged)
    extra["coverage"] = {
        "type_obligations": total, "type_obligations_discharged": discharged, "known_findings": len(lines),
        "rejections_by_error": codes,
        "type_contracts": "each obligation: a client that must be rejected is rejected, and its twin (one line differs) is accepted",
    }
    extra["assumptions"] = [
        "rustc's trait solver and borrow checker are sound, the standard library's Send/Sync implementations are right",
        "the list of clients (types/gen.py) stands for 'no safe code': generic in the element type, one client per kind of source and way of escape",
    ]


def panics(tier, seed, work, res, extra, r):
    import replay
    s = replay.search("C18", tier, seed, work, 240 if tier == "quick" else 1800, r.REPO)
    n = sum(int(x) for x in re.findall(r"RAN (\d+) histories with panics", "\n".join(s.outputs)))
    if s.found:
        res.violations.append(("unwinding", "every pull, when the wrapped iterator, a clone or a closure panics", [s.text]))
        extra["found"] = s
    elif n == 0:
        res.errors.append("the panic histories did not run: " + s.text)
    extra["coverage"] = {
        "unwinding_bounded": {"evaluations": n, "how": s.log,
                              "rule": "panic in next, clone or closure at each position, up to 6 elements, 1-3 threads, all kinds; bounded, not counted as proved"},
        "evaluations": n,
    }
    extra["assumptions"] = [
        "Kani does not model unwinding: the cleanup paths are only executed (bounded), the proof part is that user code runs outside "
        "of the critical section, after the reservation is complete, except for the wrapped iterator's next",
    ]
