#!/usr/bin/env python3
"""Decides one property: ./run.py <property> [quick|thorough]

1. writes the harnesses of the property (gen.rs) from table.py, in a work copy of the harness crate
2. Kani discharges the contracts of the property on the code of /repo's working tree
3. Verus discharges the lemmas which lead from the contracts to the property
4. a failed obligation is replayed on the real code: replay.py looks for a concrete failing input
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import table  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
KANI = os.path.join(HERE, "kani")

# budgets in seconds; a check has 900 s
KANI_S = {"quick": 420, "thorough": 6 * 3600}
HARNESS_S = {"quick": 300, "thorough": 3600}
REPLAY_S = {"quick": 300, "thorough": 1200}

LEMMAS = {
    "C01": ["known", "wrapped"], "C02": ["wrapped"], "C04": ["known", "wrapped"], "C05": ["known", "wrapped"], "C06": ["known"],
    "C09": ["wrapped"], "C11": ["known"], "C12": ["known", "wrapped"],
}

TRUSTED = [
    "Kani 0.68 / CBMC 6.11 / CaDiCaL, rustc (MIR generation and codegen)",
    "mon.rs: the stubs of core::sync::atomic::atomic_* (each operation acts on one interleaved step; rely = the states the guarantee admits)",
    "the standard library is not replaced: its code is verified together with the crate where it is executed, apart from the stubbed atomics",
]
ASSUMPTIONS = {
    "known": [
        "waiting and retry loops are cut by assume after one failed round: each round starts in a state which the rely makes arbitrary",
        "elements drawn from a chunk: the first 3 are compared with the source, the announced length is compared for all",
        "counter values reached by the environment: any value with min(counter, len) not decreasing",
    ],
    "wrapped": [
        "wrapped iterators: fewer than usize::MAX/4 elements are taken from the wrapped iterator in total, chunk sizes up to usize::MAX/4",
        "wrapped iterators: the ticket protocol is located by observing the accesses of two pulls (one counter of tickets, one serving counter, one flag)",
        "memory model: permission transfers by an acquire read of the serving counter which a release write produced (or fences)",
    ],
}


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout, env=None, cwd=None, out=None):
    """runs a command in its own session; kills all of it on a timeout; returns (rc or None, output)"""
    with open(out, "w+b") if out else tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
        f.seek(0)
        return rc, f.read().decode("utf-8", "replace")


class Result:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.bounded_obligations = 0
        self.bounded_discharged = 0
        self.harnesses = 0
        self.solver_s = 0.0
        self.violations = []   # (harness name, function, [descriptions])
        self.undecided = []    # (harness name, function, reason)
        self.covers = 0
        self.errors = []
        self.functions = []
        self.output = ""
        self.cmds = []

    def add(self, other):
        for k, v in vars(other).items():
            setattr(self, k, getattr(self, k) + v)


EXTRACTION = [
    "for_each / enumerate_for_each / fold: extract.py takes their text from /repo on every run; it drops comments and tests, writes loops as "
    "loop/match/break with the loop rule applied, and binds crate::ConcurrentIter to a trait whose pulls are the contract of the pulls "
    "(proved for the implementors by the other harnesses); Iterator::enumerate and fold of a chunk are their documented contracts",
]
UNDECIDED_CATEGORIES = {"unwind", "unsupported_construct", "missing_definition"}


def classify(h, r, res):
    """one harness result -> violations / undecided / obligations"""
    checks = r.get("checks", [])
    status = r.get("status")
    fails, undecided, covers, n, ok = [], [], {}, 0, 0
    for c in checks:
        cat, st, desc = c.get("category", ""), str(c.get("status", "")).lower(), c.get("description", "")
        if cat == "cover":
            if st in ("satisfied", "unsatisfiable", "unreachable"):
                covers[desc] = covers.get(desc, False) or st == "satisfied"
            continue
        n += 1
        if st in ("success", "unreachable"):
            ok += 1
        elif st == "failure":
            if cat in UNDECIDED_CATEGORIES or desc.startswith("ANCHOR"):
                undecided.append(desc)
            else:
                fails.append(f"{desc} [{c.get('function', '')} {(c.get('location') or {}).get('file', '')}:{(c.get('location') or {}).get('line', '')}]")
    if not checks:
        res.undecided.append((h.name, h.fn, "no result (time or memory limit)"))
        return
    if h.panics:
        # the contract is the documented panic, and nothing else goes wrong
        if str(status).lower() == "success" and not covers.get("NEVER returns", False):
            n, ok, fails = max(n, 1), max(n, 1), []
        elif not undecided:
            fails = fails or ["does not panic as documented"]
            if covers.get("NEVER returns", False):
                fails = ["returns instead of the documented panic"]
            ok = min(ok, n - 1)
    res.harnesses += 1
    res.solver_s += r.get("_solver_s", 0.0)
    if h.bounded:
        res.bounded_obligations += n
        res.bounded_discharged += ok
    else:
        res.obligations += n
        res.discharged += ok
    real = [d for d in fails]
    if real and not undecided:
        res.violations.append((h.name, h.fn, real))
    elif real:
        # the failed unwinding assertion does not invalidate the counterexamples of the other obligations
        own = [d for d in real]
        res.violations.append((h.name, h.fn, own))
    elif undecided:
        res.undecided.append((h.name, h.fn, "; ".join(sorted(set(undecided)))[:300]))
    elif not h.panics:
        if str(status).lower() != "success":
            res.undecided.append((h.name, h.fn, f"status {status}"))
        for d, sat in covers.items():
            if d == "COVER suspended" and "_suspend" not in h.name:
                continue
            if d.startswith("COVER"):
                res.covers += 1
                if not sat and not cover_exempt(h, d):
                    res.undecided.append((h.name, h.fn, f"vacuity: {d} is not reachable"))
    if n == 0:
        res.undecided.append((h.name, h.fn, "no obligation generated"))


def cover_exempt(h, d):
    # arrays of a fixed small length, or arguments that exclude the case
    if "_arr0" in h.name or "_arr1_" in h.name or "_arr_" in h.name or "_arr1" in h.name or "_arr2" in h.name:
        return True
    if "donesingle" in h.name or "wplaindone" in h.name or "quiescent" in h.name:
        return True
    return False


def kani(prop, harnesses, work, tier, res, leak=False, release=False, tag="kani"):
    if not harnesses:
        return
    out = os.path.join(work, tag + ".json")
    crate = os.path.join(work, "kani")
    if not os.path.exists(crate):
        shutil.copytree(KANI, crate, ignore=shutil.ignore_patterns("target"))
        toml = os.path.join(crate, "Cargo.toml")
        text = open(toml).read().replace('path = "/repo"', f'path = "{REPO}"')
        with open(toml, "w") as f:
            f.write(text)
    with open(os.path.join(crate, "src", "gen.rs"), "w") as f:
        f.write(table.generate(harnesses))
    target = os.path.join(work, "target-" + ("rel" if release else "dbg"))
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target,
               RUSTFLAGS="-Awarnings" + (" -Cdebug-assertions=off" if release else ""))
    env.pop("RUSTUP_TOOLCHAIN", None)
    jobs = max(1, min(8, os.cpu_count() or 1))
    cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options", "--output-format", "terse", "-j", str(jobs),
           "--no-assertion-reach-checks", "--export-json", out, "--harness-timeout", f"{HARNESS_S[tier]}s", "--exact"]
    for h in sorted(harnesses, key=lambda h: -h.cost):
        cmd += ["--harness", "gen::" + h.name]
    if leak:
        cmd += ["--cbmc-args", "--memory-leak-check"]
    res.cmds.append(" ".join(cmd[:12]) + " ... (in /verif/kani with src/gen.rs from table.py)" + (" with -Cdebug-assertions=off" if release else ""))
    rc, text = sh(cmd, KANI_S[tier], env=env, cwd=crate)
    res.output += f"\n==== {tag}: rc {rc}\n" + text
    if not os.path.exists(out):
        if rc is None:
            for h in harnesses:
                res.undecided.append((h.name, h.fn, "time limit"))
        else:
            res.errors.append(f"cargo kani failed (rc {rc}): " + "\n".join(text.splitlines()[-30:]))
        return
    data = json.load(open(out))
    stats = {c.get("harness_id"): c.get("cbmc_stats", {}) for c in data.get("cbmc", [])}
    results = {}
    for r in data.get("verification_results", {}).get("results", []):
        r["_solver_s"] = (stats.get(r.get("harness_id")) or {}).get("runtime_decision_procedure_s", 0.0) or 0.0
        results[r.get("harness_id")] = r
    for h in harnesses:
        r = results.get("gen::" + h.name)
        if r is None:
            res.undecided.append((h.name, h.fn, "no result"))
        else:
            classify(h, r, res)


# harnesses of the modular proof of the loops over the pulls
EACHES = {"C12": (0, 1, 2), "C02": (1,)}


def each(prop, work, tier, res):
    """the text of for_each / enumerate_for_each / fold against the contract of the pulls; returns False when it is not accepted"""
    import extract
    which = EACHES[prop]
    fns = dict(table.EACH)
    crate = os.path.join(work, "each")
    shutil.copytree(os.path.join(HERE, "each"), crate, ignore=shutil.ignore_patterns("target"))
    out = os.path.join(work, "each.json")
    try:
        loops = extract.write(REPO, crate)
    except Exception as e:  # noqa: BLE001
        res.undecided += [(f"each{m}", fns[m], f"extraction: {e}") for m in which]
        return False
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(work, "target-each"))
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["cargo", "kani", "-Z", "unstable-options", "--output-format", "terse", "-j", "3", "--no-assertion-reach-checks",
           "--export-json", out, "--harness-timeout", "200s", "--exact"]
    for m in which:
        cmd += ["--harness", f"each{m}"]
    res.cmds.append("extract.py; " + " ".join(cmd[:2]) + " (in /verif/each)")
    rc, text = sh(cmd, 300, env=env, cwd=crate)
    res.output += f"\n==== each: rc {rc}, {loops} loops\n" + text
    if not os.path.exists(out):
        res.undecided += [(f"each{m}", fns[m], f"modular proof: rc {rc}: " + " ".join(text.split())[-300:]) for m in which]
        return False
    results = {r.get("harness_id"): r for r in json.load(open(out)).get("verification_results", {}).get("results", [])}
    good = True
    for m in which:
        h = table.H(f"each{m}", 4, "", "quick", f"default_fns / ConcurrentIter::{fns[m]} (extracted text, loop contracts)")
        r = results.get(h.name)
        if r is None:
            res.undecided.append((h.name, h.fn, "no result"))
            good = False
            continue
        inexact = False
        for c in r.get("checks", []):
            d = c.get("description", "")
            if str(c.get("status", "")).lower() == "failure" and d.startswith("LOOP"):
                c["description"] = "ANCHOR " + d
                inexact = True
            if d.startswith("INEXACT") and str(c.get("status", "")).lower() == "satisfied":
                inexact = True
        v = len(res.violations) + len(res.undecided)
        classify(h, r, res)
        if len(res.violations) + len(res.undecided) > v:
            good = False
        else:
            res.functions.append(h.fn)
        if inexact:
            # a failed obligation may be due to an invariant which does not fit a rewritten loop
            mine = [x for x in res.violations if x[0] == h.name]
            res.violations = [x for x in res.violations if x[0] != h.name]
            res.undecided += [(n, f, "invariant does not fit: " + "; ".join(d)[:300]) for n, f, d in mine]
    return good


def verus(prop, work, res):
    """lemmas over the contracts"""
    files = LEMMAS.get(prop, [])
    n = 0
    for f in files:
        path = os.path.join(HERE, "lemmas", f + ".rs")
        rc, text = sh(["verus", path], 120, cwd=work)
        res.output += f"\n==== verus {f}: rc {rc}\n" + text
        m = re.search(r"(\d+) verified, (\d+) errors", text)
        if rc != 0 or not m or int(m.group(2)) or int(m.group(1)) == 0:
            res.errors.append(f"verus {f}: " + text[-800:])
            continue
        n += int(m.group(1))
    return files, n


def known_findings(prop):
    path = os.path.join(HERE, "known-findings.txt")
    r = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return decide(prop, tier, seed, start, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, start, work):
    res = Result()
    extra = {}
    harnesses = [h for h in table.TABLE.get(prop, []) if tier == "thorough" or h.tier == "quick"]
    if prop in ("C14", "C18"):
        import special
        special.run(prop, tier, seed, work, res, extra, sys.modules[__name__])
    side, side_ok = Result(), []
    thread = None
    if prop in EACHES:
        thread = threading.Thread(target=lambda: side_ok.append(each(prop, work, tier, side)))
        thread.start()
    if harnesses:
        if prop == "C17":
            kani(prop, harnesses, work, tier, res, tag="debug assertions on")
            kani(prop, harnesses, work, tier, res, release=True, tag="debug assertions off")
        else:
            kani(prop, [h for h in harnesses if not h.leak], work, tier, res)
            kani(prop, [h for h in harnesses if h.leak], work, tier, res, leak=True, tag="kani-leak")
    if thread:
        thread.join()
        res.add(side)
        if side_ok != [True] and tier == "quick":
            stand_in = [h for h in table.TABLE[prop] if h.fallback]
            kani(prop, stand_in, work, tier, res, tag="bounded stand-in")
    lemma_files, lemmas = verus(prop, work, res)

    if res.errors and not res.violations:
        log("ERROR: the check itself failed")
        for e in res.errors:
            log(e)
        evidence(prop, tier, seed, start, res, harnesses, lemma_files, lemmas, extra, 0)
        return 2

    replay = extra.get("found")
    if (res.violations or res.undecided) and not replay:
        import replay as rp
        left = 860 - (time.time() - start) if tier == "quick" else REPLAY_S[tier]
        replay = rp.search(prop, tier, seed, work, max(30, min(REPLAY_S[tier], left - 40)), REPO)

    code = 0
    if res.undecided:
        for name, fn, why in res.undecided:
            log(f"UNDECIDED {name} ({fn}): {why}")
    if res.violations or (replay and replay.found):
        d = os.path.join(HERE, "replays", prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{tier}.txt")
        with open(path, "w") as f:
            f.write(f"property {prop}\n\n")
            for name, fn, descs in res.violations:
                f.write(f"failed obligations of {fn} (harness {name}):\n")
                for x in descs:
                    f.write(f"  - {x}\n")
            for name, fn, why in res.undecided:
                f.write(f"undecided: {fn} (harness {name}): {why}\n")
            if replay and replay.found:
                f.write("\nconcrete failing input on the real code:\n" + replay.text + "\n")
                if replay.how:
                    f.write("\nreproduce: " + replay.how + "\n")
            else:
                f.write("\nno concrete failing input found; tried:\n" + (replay.text if replay else "-") + "\n")
            f.write("\nverifier output:\n" + res.output[-200000:])
        for name, fn, descs in res.violations[:20]:
            log(f"FAILED {name} ({fn}): {descs[0]}")
        found = bool(replay and replay.found)
        if found:
            log("failing input: " + replay.text.strip().splitlines()[0][:300])
        log(f"VIOLATION property={prop} replay={path}" + ("" if found else " no-failing-input-found"))
        code = 1
    for line in extra.get("known_lines", []):
        log(line)
    evidence(prop, tier, seed, start, res, harnesses, lemma_files, lemmas, extra, 1 if code else 0, replay)
    if code == 0:
        log(f"{prop}: {res.discharged}/{res.obligations} obligations, bounded {res.bounded_discharged}/{res.bounded_obligations}, "
            f"{res.harnesses} harnesses, lemmas {lemmas}, {time.time() - start:.0f} s")
    return code


def evidence(prop, tier, seed, start, res, harnesses, lemma_files, lemmas, extra, violations, replay=None):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    fns = sorted({h.fn for h in harnesses if not h.bounded} | set(res.functions))
    bfns = sorted({f"{h.fn} [{h.bounded}]" for h in harnesses if h.bounded})
    cov = {
        "obligations": res.obligations + lemmas + extra.get("obligations", (0, 0))[0],
        "discharged": res.discharged + lemmas + extra.get("obligations", (0, 0))[1],
        "checker_cmd": f"./run.py {prop} {tier}: " + "; ".join(res.cmds + [f"verus lemmas/{f}.rs" for f in lemma_files]),
        "trusted_base": TRUSTED,
        "harnesses": res.harnesses,
        "by_back_end": dict([("kani/cbmc/cadical", res.discharged), ("verus/z3", lemmas)] + ([extra["back_end"]] if "back_end" in extra else [])),
        "bounded_obligations": res.bounded_obligations,
        "bounded_discharged": res.bounded_discharged,
        "reachability_covers": res.covers,
        "functions_under_contract": fns,
        "functions_bounded": bfns,
        "undecided": [f"{n} ({f}): {w}" for n, f, w in res.undecided],
        "solver_s": round(res.solver_s, 1),
    }
    if replay is not None:
        cov["stand_in_for_undecided"] = replay.text[:2000]
    cov.update(extra.get("coverage", {}))
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": extra.get("level", "proof"), "coverage": cov,
        "assumptions": ASSUMPTIONS["known"] + ASSUMPTIONS["wrapped"] + (EXTRACTION if prop in EACHES else []) + extra.get("assumptions", []),
        "wall_s": round(time.time() - start, 1), "violations": violations,
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(e, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
