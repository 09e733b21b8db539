"""C02: the library under an interpreter of Rust (Miri) that decides every
context switch, every allocation address and every store a load may see from
one seed, and checks each step for data races and undefined behaviour."""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, sys, threading, time

import build

VERIF = build.VERIF
DIR = os.path.join(VERIF, "miri")
OUT = os.path.join(build.OUT, "miri")
REPLAYS = os.path.join(VERIF, "replays")
HOST = "x86_64-unknown-linux-gnu"

# config: (target, target features, crate features)
CONFIGS = {
    "sw": (HOST, "", ""),
    "ct": (HOST, "", "constant-time"),
    "aesni": (HOST, "+sse4.1,+aes", ""),
    "vaes": (HOST, "+sse4.1,+aes,+vaes", "nightly"),
    "avx512": (HOST, "+sse4.1,+aes,+vaes,+avx512f", "nightly"),
    # fields of types without a guaranteed layout in another order
    "sw-lay": (HOST, "", ""),
    "vaes-lay": (HOST, "+sse4.1,+aes,+vaes", "nightly"),
    # big-endian and 32-bit: thorough only, each target needs a sysroot of its own
    "s390x-sw": ("s390x-unknown-linux-gnu", "", ""),
    "s390x-ct": ("s390x-unknown-linux-gnu", "", "constant-time"),
    "i686-sw": ("i686-unknown-linux-gnu", "", ""),
    "i686-ct": ("i686-unknown-linux-gnu", "", "constant-time"),
    "i686-aesni": ("i686-unknown-linux-gnu", "+sse4.1,+aes", ""),
}
LAYOUT = 2
BASE = "-Zmiri-ignore-leaks -Zmiri-many-seeds-keep-going"
# (flags, seeds in quick, seeds in thorough)
MODES = [
    ("-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.02", 16, 400),
    ("-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.2", 16, 400),
    ("-Zmiri-tree-borrows -Zmiri-preemption-rate=0.05", 8, 160),
]


def say(*a):
    print(*a, flush=True)


def env(cfg, flags):
    _, tf, _ = CONFIGS[cfg]
    e = build.env((("-Ctarget-feature=" + tf) if tf else "")
                  + (" -Zrandomize-layout -Zlayout-seed=%d" % LAYOUT if cfg.endswith("-lay") else ""),
                  {"MIRIFLAGS": flags, "XDG_CACHE_HOME": os.path.join(OUT, "cache")})
    e.pop("RUSTC_BOOTSTRAP", None)
    if not e["RUSTFLAGS"]:
        e.pop("RUSTFLAGS")
    return e


def command(cfg, sub, args=()):
    tgt, _, feats = CONFIGS[cfg]
    a = ["cargo", "+nightly", "miri", sub, "--target", tgt]
    if sub != "setup":
        a += ["--target-dir", os.path.join(OUT, cfg)]
        if feats:
            a += ["--features", feats]
    return a + (["--"] + list(args) if args else [])


def go(cfg, flags, args=(), timeout=600, sub="run"):
    p = subprocess.Popen(command(cfg, sub, args), cwd=DIR, env=env(cfg, flags), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "no answer in %d s" % timeout


def sysroots(targets):
    os.makedirs(os.path.join(OUT, "cache"), exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for t in targets:
            cfg = next(c for c in CONFIGS if CONFIGS[c][0] == t)
            rc, out = go(cfg, "", sub="setup")
            if rc != 0:
                return "no interpreter for %s: %s" % (t, out[-500:])
    return None


def verdict(rc, out):
    """(class, message) of one execution: None, a violation or no answer."""
    m = re.search(r"^WRONG-RESULT (.*)$", out, re.M)
    if m:
        return "wrong-result", m.group(1)
    m = re.search(r"^error: (Undefined Behavior: .*)$", out, re.M)
    if m:
        msg = m.group(1)
        kind = "data-race" if "Data race" in msg else "undefined-behaviour"
        at = re.search(r"^\s+--> (/repo/\S+)", out[m.start():], re.M)
        return kind, msg[:300] + (" at " + at.group(1) if at else "")
    m = re.search(r"^error: (the evaluated program deadlocked.*|.*deadlock.*)$", out, re.M)
    if m:
        return "deadlock", m.group(1)
    if "unsupported operation" in out:
        return "unsupported", re.search(r"unsupported operation: .*", out).group(0)
    if rc == 0:
        return None, ""
    if rc is None:
        return "timeout", out
    m = re.search(r"^error: (abnormal termination.*|.*abort.*)$", out, re.M)
    if m:
        return "abort", m.group(1)
    m = re.search(r"^error(\[E\d+\])?: .*$", out, re.M)
    return "harness", m.group(0) if m else out[-300:]


BAD = ("wrong-result", "data-race", "undefined-behaviour", "deadlock", "abort")


def minimise(cfg, flags, seed, cls):
    """Fewer threads, fewer operations, then single operations left out,
    while an execution of this seed fails in the same way."""
    tries = [0]

    def fails(t, k, skip):
        tries[0] += 1
        a = [str(t), str(k)] + ([",".join("%d.%d" % s for s in skip)] if skip else [])
        rc, out = go(cfg, "%s -Zmiri-seed=%d" % (flags, seed), a, 120)
        return verdict(rc, out)[0] == cls

    rc, out = go(cfg, "%s -Zmiri-seed=%d" % (flags, seed), (), 120)
    m = re.search(r"EXEC seed \w+ threads (\d+) ops (\d+)", out)
    if not m or verdict(rc, out)[0] != cls:
        return None
    t, k = int(m.group(1)), int(m.group(2))
    t0 = time.time()
    if not fails(t, k, []):
        return [], tries[0]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cand = [(tt, kk) for tt in range(1, t + 1) for kk in range(1, k + 1) if (tt, kk) != (t, k)]
        ok = list(ex.map(lambda c: fails(c[0], c[1], []) if time.time() - t0 < 100 else False, cand))
        best = min([c for c, o in zip(cand, ok) if o] or [(t, k)], key=lambda c: (c[0] * c[1], c[0]))
        skip = []
        t, k = best
        todo = [(a, b) for a in range(t) for b in range(k)]
        while todo and time.time() - t0 < 160:
            part = todo[:8]
            ok = list(ex.map(lambda s: fails(t, k, skip + [s]), part))
            hit = next((s for s, o in zip(part, ok) if o), None)
            if hit is None:
                todo = todo[8:]
            else:
                skip.append(hit)
                todo = [s for s in todo if s != hit and (s not in part or ok[part.index(s)])]
    return [str(t), str(k)] + ([",".join("%d.%d" % s for s in skip)] if skip else []), tries[0]


def check(tier, seed):
    t0 = time.time()
    limit = 500 if tier == "quick" else 3000
    cfgs = [c for c in CONFIGS if tier != "quick" or CONFIGS[c][0] == HOST]
    targets = []
    for c in cfgs:
        if CONFIGS[c][0] not in targets:
            targets.append(CONFIGS[c][0])
    err = sysroots(targets[:1])
    if err:
        say("HARNESS " + err)
        return 2
    for t in targets[1:]:
        e = sysroots([t])
        if e:
            say("SKIPPED " + e)
            cfgs = [c for c in cfgs if CONFIGS[c][0] != t]
    # the oracle against the vectors of the standard, natively
    p = subprocess.run(["cargo", "run", "-q", "--offline", "--target-dir", os.path.join(OUT, "native"), "--",
                        "selftest"], cwd=DIR, env=build.env(""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        say("HARNESS oracle self-test or build failed\n" + p.stdout[-2000:])
        return 2
    known = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"finding: property=C02 pool=(\S+) class=(\S+) text=(.*)$", l.strip())
        if m:
            known.append(m.groups())
    # a first execution of every configuration builds it
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        first = list(ex.map(lambda c: go(c, "%s -Zmiri-seed=%d" % (MODES[0][0] + " -Zmiri-ignore-leaks", seed * 1000003)),
                            cfgs))
    notes, execs, per, samples, died, lines = {}, 0, {}, [], 0, set()
    viol, code, tries, kf = None, 0, 0, 0
    for c, (rc, out) in zip(list(cfgs), first):
        v, msg = verdict(rc, out)
        if v in ("unsupported", "harness", "timeout"):
            notes[c] = "%s: %s" % (v, msg[:300])
            say("SKIPPED configuration %s: %s" % (c, notes[c]))
            cfgs.remove(c)
    if not cfgs:
        say("HARNESS no configuration can be executed")
        return 2
    found = []
    for mi, (flags, q, t) in enumerate(MODES):
        n = q if tier == "quick" else t
        for c in cfgs:
            if found or time.time() - t0 > limit:
                break
            if c.endswith("-lay") and mi > 0:
                continue
            lo = seed * 1000003 + mi * 100000
            rc, out = go(c, "%s %s -Zmiri-many-seeds=%d..%d" % (BASE, flags, lo, lo + n), (),
                         max(60, limit - (time.time() - t0)))
            v, msg = verdict(rc, out)
            ex_lines = re.findall(r"^EXEC .*$", out, re.M)
            execs += len(ex_lines)
            lines |= {(c, mi, x) for x in ex_lines}
            d = per.setdefault(c, {"executions": 0, "threads_spawned": 0, "operations": 0})
            d["executions"] += len(ex_lines)
            for x in ex_lines:
                th, op = map(int, re.search(r"threads (\d+) ops (\d+)", x).groups())
                d["threads_spawned"] += th
                d["operations"] += th * op
            died += sum(int(x) for x in re.findall(r"^DONE seed \w+ died (\d+)$", out, re.M))
            if len(samples) < 8 and ex_lines:
                samples.append("%s [%s] %s" % (c, flags, ex_lines[0]))
            if v in BAD:
                seeds = sorted(int(x) for x in re.findall(r"[Ss]eed:? (\d+)\b", "\n".join(
                    l for l in out.splitlines() if "FAILING SEED" in l or "failing seed" in l.lower())))
                found.append((c, flags, seeds or list(range(lo, lo + n)), v, msg))
            elif v:
                notes[c] = "%s: %s" % (v, msg[:300])
                say("NOTE configuration %s: %s" % (c, notes[c]))
    for c, flags, seeds, v, msg in found:
        fl = flags + " -Zmiri-ignore-leaks"
        hit = None
        for s in seeds[:40]:
            rc, out = go(c, "%s -Zmiri-seed=%d" % (fl, s), (), 120)
            cls, msg = verdict(rc, out)
            if cls in BAD:
                hit = (s, cls, msg)
                break
        if not hit:
            say("HARNESS a failing seed of %s does not fail again: %s" % (c, msg))
            code = 2
            continue
        s, cls, msg = hit
        if any(re.fullmatch(g.replace("*", ".*"), c) and k == cls and t in msg for g, k, t in known):
            kf += 1
            say("KNOWN-FINDING: property=C02 configuration %s %s: %s" % (c, cls, msg))
            continue
        r = minimise(c, fl, s, cls)
        if not r:
            say("HARNESS seed %d of %s does not replay" % (s, c))
            code = 2
            continue
        args, tries = r
        rc, out = go(c, "%s -Zmiri-seed=%d" % (fl, s), args, 120)
        cls2, msg2 = verdict(rc, out)
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "C02-%s-seed%d.replay" % (c, s))
        with open(path, "w") as f:
            f.write("aes-miri v1\n# VERIF_SEED=%d tier %s, minimised in %d executions\nproperty C02\nconfig %s\n"
                    "seed %d\nflags %s\nargs %s\nclass %s\n# %s\n# full output:\n" % (
                        seed, tier, tries, c, s, fl, " ".join(args), cls2, msg2))
            f.writelines("# %s\n" % l for l in out.splitlines()[:80])
        say("configuration %s seed %d: %s: %s" % (c, s, cls2, msg2))
        say("VIOLATION property=C02 replay=%s" % path)
        viol = path
        code = 1
        break
    wall = time.time() - t0
    sim = json.load(open(os.path.join(VERIF, "evidence", "C02.json")))
    ev = {
        "property": "C02", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": execs + sim["coverage"]["evaluations"],
            "distinct_nontrivial": len(lines) + sim["coverage"]["distinct_nontrivial"],
            "compiled_code": sim["coverage"],
            "interpreted_executions": execs,
            "rule": sim["coverage"]["rule"] + " Executions of the second part are interpreted: a case is one interpreted execution of 2 to 4 threads sharing ciphers, blocks, key lists and "
                    "neighbouring output memory; its seed decides workload, context switches, addresses and which "
                    "stores loads see. All are non-trivial (at least two threads share objects); two are distinct if "
                    "configuration, mode or the drawn workload seed differ.",
            "samples": samples + sim["coverage"]["samples"],
            "runs_per_hour": int(execs / wall * 3600),
            "seeds_per_hour": int(execs / wall * 3600),
            "faults": {**sim["coverage"]["faults"], "thread_killed_by_panic": died,
                       "context_switch": "with probability 0.02, 0.05 or 0.2 at every basic block, drawn by the interpreter"},
            "simulated_time": "not applicable: no clock is read",
            "per_configuration": per,
            "modes": [m[0] for m in MODES],
            "notes": notes,
            "real_code": "the whole library (src/lib.rs and the selected backend), core and std, interpreted",
            "stubs": "the processor, its memory model and vector instructions, the scheduler and the allocator are "
                     "the interpreter's",
        },
        "assumptions": sim["assumptions"] + ["Miri's model of the language and of the x86 instructions is right",
                        "NEON and RISC-V backends cannot be interpreted; there races are found in the compiled code only"],
        "wall_s": round(wall + sim["wall_s"], 1), "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", "C02.json"), "w"), indent=1)
    say("C02 %s seed %d: interpreted: %d executions in %d configurations, %.0f s, %s" % (
        tier, seed, execs, len(per), wall, {0: "held", 1: "VIOLATED", 2: "NO ANSWER"}[code]))
    return code


def replay(path):
    f = {}
    for l in open(path):
        if not l.startswith("#"):
            k, _, v = l.strip().partition(" ")
            f[k] = v
    err = sysroots([CONFIGS[f["config"]][0]])
    if err:
        say("HARNESS " + err)
        return 2
    rc, out = go(f["config"], "%s -Zmiri-seed=%s" % (f["flags"], f["seed"]), f["args"].split(), 300)
    cls, msg = verdict(rc, out)
    say("REPLAY C02 class %s (recorded %s) %s" % (cls, f["class"], msg))
    return 1 if cls == f["class"] else 0 if cls is None else 3
