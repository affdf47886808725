"""Looks for a concrete failing input on the real code (crate replay/), natively and under Miri.

The verifier decides; this only replays: it attaches a failing input to a failed obligation, and stands in (bounded,
and reported as such) for obligations which the verifier could not decide.
"""
import os
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
CRASH = {1, 3, 8, 12, 13, 15, 16, 17, 18}


class Search:
    def __init__(self):
        self.found = False
        self.text = ""
        self.how = ""
        self.log = []
        self.outputs = []


def run_all(jobs, deadline, stop=lambda i, o, rc: False, width=8):
    """jobs: [(cmd, env, seconds)]; yields results (index, rc or None, output); stop: ends everything"""
    queue, running, results = list(enumerate(jobs)), [], []
    stopped = False
    try:
        while (queue or running) and not stopped:
            while queue and len(running) < width and time.time() < deadline:
                i, (cmd, env, limit) = queue.pop(0)
                f = open(f"{env['WORK']}/out-{i}.txt", "w+b")
                p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=env["CRATE"], start_new_session=True)
                running.append((i, p, f, min(deadline, time.time() + limit)))
            if time.time() >= deadline:
                queue = []
            time.sleep(0.05)
            for job in list(running):
                i, p, f, end = job
                rc = p.poll()
                if rc is None and time.time() < end:
                    continue
                if rc is None:
                    os.killpg(p.pid, 9)
                    p.wait()
                running.remove(job)
                f.seek(0)
                out = f.read().decode("utf-8", "replace")
                f.close()
                results.append((i, rc, out))
                if stop(i, out, rc):
                    stopped = True
                    break
    finally:
        for _, p, f, _ in running:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
    return results


def search(prop, tier, seed, work, budget, repo):
    s = Search()
    num = int(prop[1:])
    start = time.time()
    deadline = start + budget
    crate = os.path.join(work, "replay")
    shutil.copytree(os.path.join(HERE, "replay"), crate, ignore=shutil.ignore_patterns("target"))
    toml = os.path.join(crate, "Cargo.toml")
    text = open(toml).read().replace('path = "/repo"', f'path = "{repo}"')
    open(toml, "w").write(text)
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.pop("MIRIFLAGS", None)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(work, "target-replay"), RUSTFLAGS="-Awarnings",
               RUST_BACKTRACE="0", WORK=work, CRATE=crate)
    mirienv = dict(env, CARGO_TARGET_DIR=os.path.join(work, "target-miri"), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks")
    builds = [(["cargo", "build", "--offline"] + x, env, 200) for x in ([], ["--release"])]
    builds.append((["cargo", "+nightly", "miri", "run", "--offline", "--", "seq", "0", "1"], mirienv, 200))
    results = {i: (rc, out) for i, rc, out in run_all(builds, deadline + 60)}
    native = all(results.get(i, (1, ""))[0] == 0 for i in (0, 1))
    miri = "DONE" in results.get(2, (1, ""))[1] or "FOUND" in results.get(2, (1, ""))[1] or "Undefined Behavior" in results.get(2, (1, ""))[1]
    bins = {b: os.path.join(work, "target-replay", b, "replay") for b in ("debug", "release")}
    reproduce = "cd /verif/replay && cargo run --offline {} -- {}"

    def say(x):
        s.log.append(x)

    def take(tags, desc, how):
        if not s.found and num in tags:
            s.found, s.text, s.how = True, desc, how
        return s.found

    def scan(out, how):
        for m in re.finditer(r"FOUND tags=([\d,]+) (.*)", out):
            if take({int(t) for t in m.group(1).split(",")}, m.group(2), how):
                return True
        return False

    def judge_native(mode, args, b, rc, out):
        s.outputs.append(out[-400:])
        how = reproduce.format("--release" if b == "release" else "", " ".join([mode] + args))
        if scan(out, how):
            return True
        if rc is None:
            return False  # out of time; the watchdog of the program itself tells a hang from slowness
        if "DONE" not in out:
            tail = "\n".join(out.strip().splitlines()[-6:])
            return take(CRASH, f"replay {mode} {' '.join(args)} ({b} build) ends with status {rc}: {tail}", how)
        return False

    def judge_miri(mode, args, flags, rc, out):
        s.outputs.append(out[-400:])
        how = f'cd /verif/replay && MIRIFLAGS="{flags}" cargo +nightly miri run --offline -- {" ".join([mode] + args)}'
        if scan(out, how):
            return True
        m = re.search(r"(error: Undefined Behavior: .*(?:\n.*){0,12})", out)
        if m:
            x = m.group(1)
            tags = {7} if "Data race" in x else {8, 13, 14, 16, 17, 18, 19}
            if "Data race" in x:
                tags |= {8, 18} if mode == "panics" else set()
            return take(tags, "Miri: " + x, how)
        m = re.search(r"(error: memory leaked.*(?:\n.*){0,12})", out)
        if m:
            return take({15}, "Miri: " + m.group(1), how)
        return False

    if not native:
        say("the replay crate does not build:\n" + "\n".join(results.get(0, (1, ""))[1].splitlines()[-15:]))
    base = seed * 1000003
    quick = tier == "quick"

    def go_native(mode, variants, limit):
        """variants: list of args"""
        if not native or s.found or time.time() > deadline:
            return
        jobs, meta = [], []
        for args in variants:
            for b in ("release", "debug"):
                jobs.append(([bins[b], mode] + [str(a) for a in args], env, limit))
                meta.append((mode, [str(a) for a in args], b))
        n = 0
        for i, rc, out in run_all(jobs, deadline, lambda i, o, rc: judge_native(*meta[i], rc, o), {"seq": 8, "large": 8, "stress": 2}.get(mode, 3)):
            n += 1
        say(f"native {mode}: {n} runs of {variants[0]}..{variants[-1]} in debug and release builds")

    def go_miri(mode, variants, limit, flags=""):
        if not miri or s.found or time.time() > deadline:
            return
        jobs, meta = [], []
        for k, args in enumerate(variants):
            f = f"-Zmiri-disable-isolation -Zmiri-seed={seed * 1000 + k} -Zmiri-preemption-rate={[0.02, 0.1, 0.3][k % 3]} {flags}".strip()
            jobs.append((["cargo", "+nightly", "miri", "run", "--offline", "--", mode] + [str(a) for a in args], dict(mirienv, MIRIFLAGS=f), limit))
            meta.append((mode, [str(a) for a in args], f))
        n = 0
        for i, rc, out in run_all(jobs, deadline, lambda i, o, rc: judge_miri(*meta[i], rc, o)):
            n += 1
        say(f"Miri {mode}: {n} runs of {variants[0]}..{variants[-1]}")

    def digests():
        if not native or s.found:
            return
        n = 40000
        e = dict(env, DIGESTS="1")
        outs, rcs = {}, {}
        for i, rc, out in run_all([([bins[b], "seq", str(base), str(n)], e, 120) for b in ("debug", "release")], deadline):
            outs[("debug", "release")[i]] = out
            rcs[("debug", "release")[i]] = rc
        d = {b: dict(re.findall(r"DIGEST (\d+) (\d+)", outs.get(b, ""))) for b in ("debug", "release")}
        for k in d["release"]:
            if d["debug"].get(k) != d["release"][k]:
                take({17}, f"history {k} has different results in a debug and in a release build (debug: {d['debug'].get(k, 'crash or panic')})",
                     f"cd /verif/replay && DIGESTS=1 cargo run --offline -- seq {k} 1; DIGESTS=1 cargo run --offline --release -- seq {k} 1")
                break
        for a, b in (("debug", "release"), ("release", "debug")):
            # one build runs to the end, the other crashes or hangs
            if "RAN " in outs.get(a, "") and b in outs and "RAN " not in outs[b] and not s.found:
                hang = re.search(r"no operation has returned.*", outs[b])
                last = max((int(k) for k in d[b]), default=base - 1) + 1
                if hang or (rcs.get(b) not in (None, 0)):
                    take({17}, f"history {last}: the {a} build returns, the {b} build {'does not: ' + hang.group(0) if hang else f'ends with status {rcs.get(b)}'}",
                         f"cd /verif/replay && cargo run --offline -- seq {last} 1; cargo run --offline --release -- seq {last} 1")
        say(f"compared the results of {len(d['release'])} histories of the debug and the release build")

    nat = 60000 if quick else 2000000
    seqs = [(base + i * nat, nat) for i in range(4)]
    larges = [(base + i * (nat // 20), nat // 20) for i in range(4)]
    stresses = [(1500 if quick else 40000, k) for k in range(9)]
    concs = [(base + i * 400, 400, 60 if quick else 1000) for i in range(4)]
    mconcs = [(base + i * 25, 25) for i in range(64 if quick else 1000)]
    mseqs = [(base + i * 60, 60) for i in range(16 if quick else 200)]
    pans = [(base + i * 5000, 5000) for i in range(4)]
    mpans = [(base + i * 40, 40) for i in range(24 if quick else 200)]
    ignore = "-Zmiri-ignore-leaks"
    if num == 7:
        go_native("seq", seqs, 60)
        go_miri("conc", mconcs, 120, ignore)
        go_native("conc", concs, 60)
        go_native("stress", stresses, 40)
        go_miri("seq", mseqs, 120, ignore)
    elif num == 9:
        go_native("suspend", [(200,), (201,), (202,)], 90)
        go_native("conc", concs, 90)
        go_native("stress", stresses, 40)
        go_native("panics", pans, 60)
    elif num == 18:
        go_native("panics", pans, 90)
        go_miri("panics", mpans, 120, ignore)
    elif num == 15:
        go_native("seq", seqs, 60)
        go_miri("seq", mseqs, 120)
        go_miri("conc", mconcs[:24], 120)
    elif num in (8, 16, 17, 13, 19, 10, 3):
        if num == 17:
            digests()
        go_native("seq", seqs, 60)
        go_native("large", larges, 60)
        go_miri("seq", mseqs, 120, ignore)
        go_native("conc", concs, 60)
        if num == 16:
            go_native("stress", stresses, 40)
        go_miri("conc", mconcs[:32], 120, ignore)
    else:
        go_native("seq", seqs, 60)
        go_native("large", larges, 60)
        go_native("conc", concs, 60)
        go_native("stress", stresses, 40)
        go_miri("conc", mconcs, 120, ignore)
    if not s.found:
        s.text = "\n".join(s.log)
    return s


if __name__ == "__main__":
    import sys
    import tempfile
    w = tempfile.mkdtemp(prefix="replay-")
    t = time.time()
    try:
        r = search(sys.argv[1], "quick", 1, w, 300, os.environ.get("VERIF_REPO", "/repo"))
        print(r.found, r.text, r.how, f"{time.time() - t:.0f} s")
        print("\n".join(r.log))
    finally:
        shutil.rmtree(w)
