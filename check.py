#!/usr/bin/env python3
"""Decides one property by seeded simulation.

    check.py C01 [quick|thorough]     run the check (VERIF_SEED, VERIF_TIER)
    check.py replay FILE              re-execute a replay file

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: no answer.
"""
import concurrent.futures, fnmatch, json, os, queue, re, shutil, subprocess, sys, threading, time

import build, mentions

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, "replays")
WORKERS = os.cpu_count() or 8

# name: (kind, architecture or (node, profile), runs per task)
X86, ARM64 = ["x86"], ["arm64"]
BARE_Q = ["rv64-zk-lay", "rv32-zk-lay", "be64-sw-lay", "be64-ct-rel", "arm32-v8-rel", "arm32-ct-lay",
          "i686-sw-rel", "i686-aes-lay", "i686-vaes-dev"]
BARE_T = ["%s-%s" % (n, p) for n in build.BARE for p in ("rel", "dev", "lay")]

# runs in the quick and thorough tier: on x86-64, on arm64 (emulated), on each bare target (emulated)
RUNS = {
    "C01": ((70000, 4000, 500), (800000, 40000, 3000)),
    "C02": ((50000, 4000, 500), (600000, 40000, 3000)),
    "C03": ((60000, 3000, 500), (700000, 30000, 3000)),
    "C04": ((60000, 3000, 500), (700000, 30000, 3000)),
    "C05": ((60000, 4000, 500), (700000, 40000, 3000)),
    "C06": ((60000, 4000, 500), (700000, 40000, 3000)),
    "C07": ((60000, 3000, 500), (600000, 30000, 3000)),
    "C08": ((60000, 3000, 500), (600000, 30000, 3000)),
    "C09": ((10000, 500, 150), (250000, 10000, 1500)),
    "C10": ((60000, 4000, 500), (700000, 40000, 3000)),
    "C11": ((20000, 2500, 250), (250000, 25000, 1500)),
    "C12": ((50000, 4000, 500), (500000, 40000, 4000)),
    "C13": ((60000, 4000, 500), (700000, 40000, 3000)),
    "C14": ((60000, 4000, 0), (700000, 40000, 0)),
    "C15": ((60000, 4000, 500), (700000, 40000, 3000)),
    "C16": ((60000, 4000, 500), (700000, 40000, 3000)),
    "C17": ((60000, 4000, 500), (700000, 40000, 3000)),
}
TITLE = {}
for _l in open(os.path.join(VERIF, "properties.jsonl")):
    _p = json.loads(_l)
    TITLE[_p["id"]] = _p["title"]

FAULTS = [
    "preempt_mid_call", "preempt_boundary", "interrupt_mid_call", "interrupt_boundary", "interrupt_nested",
    "kill_mid_call", "kill_boundary", "stall_mid_call", "stall_boundary", "scramble", "failover", "clock_jump",
    "futex_wait", "refused_call", "sink_failure", "sink_panic", "sink_short_write", "short_read", "alloc_denied", "env_denied", "caller_modes_set", "mode_change_noticed", "excess_work_noticed", "garbage_fill",
    "object_drop", "object_rebuild", "clone_from", "aged_calls", "net_lost", "net_duplicated", "net_reordered", "net_delayed", "net_bitflip",
    "net_partition", "net_retransmit", "net_receiver_crash", "node_stall", "edge_of_mapping_buffers", "stale_atomic_reads",
]


def say(*a):
    print(*a, flush=True)


def known():
    """Findings recorded in known-findings.txt: property, pool, class, text."""
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) pool=(\S+) class=(\S+) text=(.*)$", l.strip())
        if m:
            out.append(m.groups())
    return out


def get_pool(name):
    if name in build.ARCH:
        return build.fleet(name)
    return build.bare(*name.rsplit("-", 1))


def split_cmd(cmd):
    """Command line up to the simulator, node options after it."""
    i = next(k for k, x in enumerate(cmd) if os.path.basename(x).startswith("sim"))
    return cmd[: i + 1], cmd[i + 1:]


class Task:
    def __init__(self, pool, start, count):
        self.pool, self.start, self.count = pool, start, count


class Result:
    def __init__(self):
        self.runs = self.execs = self.nontrivial = 0
        self.stat, self.hashes, self.samples, self.rd, self.viol = {}, set(), [], {}, []
        self.ev = 0
        self.harness = None
        self.done = False


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.limit = (640 if prop != "C02" else 240) if tier == "quick" else 3000
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()
        self.scratch = os.path.join(VERIF, "build", "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.scratch, exist_ok=True)
        self.pools, self.skipped, self.res, self.cpu = {}, {}, {}, {}
        self.hints(mentions.collect("/repo/src"))

    def hints(self, lines):
        self.dict = os.path.join(self.scratch, "dict")
        with open(self.dict, "w") as f:
            f.write("".join(l + "\n" for l in lines))

    def left(self):
        return self.limit - (time.time() - self.t0)

    def spawn(self, cmd):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                             start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=max(5, self.left() + 120))
        except subprocess.TimeoutExpired:
            self.kill(p)
            out, _ = p.communicate()
        finally:
            with self.lock:
                self.procs.discard(p)
        return p.returncode, out

    def kill(self, p):
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass

    def run_task(self, t):
        r = Result()
        if self.stop.is_set() or self.left() < 5:
            return t, r
        head, tail = split_cmd(self.pools[t.pool].cmd)
        cmd = head + ["run", self.prop, str(self.seed), str(t.start), str(t.count), "1", self.tier, self.scratch,
                      "%s-%d" % (t.pool, t.start), "1", str(int(self.left() * 1000))]
        cmd += (["warm"] if head[0].startswith("qemu") else []) + ["dict=" + self.dict] + tail
        c0 = time.time()
        rc, out = self.spawn(cmd)
        with self.lock:
            self.cpu[t.pool] = self.cpu.get(t.pool, 0) + time.time() - c0
        for l in out.splitlines():
            f = l.split(" ")
            if f[0] == "H":
                r.hashes.add((t.pool, f[1]))
            elif f[0] == "STAT":
                r.stat[f[1]] = int(f[2])
            elif f[0] == "RD":
                r.rd[int(f[1])] = f[2]
            elif f[0] == "SAMPLE":
                r.samples.append("pool %s %s" % (t.pool, l[7:]))
            elif f[0] == "VIOL":
                r.viol.append((t.pool, f[1], f[2], " ".join(f[3:])))
            elif f[0] == "RUNS":
                r.runs = int(f[1])
            elif f[0] == "EXECS":
                r.execs = int(f[1])
            elif f[0] == "NONTRIVIAL":
                r.nontrivial = int(f[1])
            elif f[0] == "EVDIGEST":
                r.ev = int(f[1], 16)
            elif f[0] == "HARNESS":
                r.harness = "%s: %s" % (t.pool, l[8:])
            elif f[0] == "DONE":
                r.done = True
        if rc not in (0, 1) and not r.harness and not self.stop.is_set():
            r.harness = "%s: simulator ended with %s %s" % (t.pool, rc, out[-300:])
        return t, r

    def confirm(self, pool, path):
        """Replays in a fresh process; must fail the same way."""
        head, tail = split_cmd(self.pools[pool].cmd)
        p = subprocess.run(head + ["replay", path] + tail, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True)
        m = re.search(r"class (\S+) \(recorded (\S+)\) digest (\S+) \(recorded (\S+)\)", p.stdout)
        return p.returncode == 1 and m and m.group(1) == m.group(2) and (
            m.group(3) == m.group(4) or m.group(1) in ("crash", "hang")), p.stdout

    def plan(self):
        q, t = RUNS[self.prop]
        nx, na, nb = q if self.tier == "quick" else t
        plan = [("x86", nx, 8), ("arm64", na, 8)]
        for b in BARE_Q if self.tier == "quick" else BARE_T:
            if self.prop == "C11" and b.split("-")[1] == "sw":
                continue
            if b.startswith("be64-aes") and self.prop not in ("C01", "C12"):
                continue
            if nb:
                plan.append((b, nb, 2 if self.tier == "quick" else 4))
        return plan

    def simulate(self):
        todo = queue.PriorityQueue()
        plan = self.plan()
        building = len(plan)
        cond = threading.Condition()
        state = {"building": building, "n": 0}

        def do_build(i, name, runs, parts):
            try:
                pool = get_pool(name)
                err = None
            except (build.BuildError, OSError) as x:
                pool, err = None, str(x)
            with cond:
                if err is None:
                    self.pools[name] = pool
                    step = max(50, (runs // parts + 49) // 50 * 50)
                    for s in range(0, runs, step):
                        state["n"] += 1
                        todo.put((i, state["n"], Task(name, s, min(step, runs - s))))
                else:
                    self.skipped[name] = err
                state["building"] -= 1
                cond.notify_all()

        # nodes of one target share a build directory, so one thread builds them in turn
        groups = {}
        for i, (name, runs, parts) in enumerate(plan):
            g = name if name in build.ARCH else build.BARE[name.rsplit("-", 1)[0]][0]
            groups.setdefault(g, []).append((i, name, runs, parts))
        builders = [threading.Thread(target=lambda l=l: [do_build(*x) for x in l], daemon=True) for l in
                    groups.values()]
        for b in builders:
            b.start()

        results = []

        def worker():
            while True:
                with cond:
                    while todo.empty() and state["building"] > 0 and not self.stop.is_set():
                        cond.wait(1)
                    if self.stop.is_set() or todo.empty() and state["building"] == 0:
                        return
                    _, _, t = todo.get_nowait()
                t, r = self.run_task(t)
                with cond:
                    results.append((t, r))
                    if r.viol and self.fresh(r):
                        self.stop.set()
                        with self.lock:
                            for p in list(self.procs):
                                self.kill(p)
                    cond.notify_all()

        ws = [threading.Thread(target=worker) for _ in range(WORKERS)]
        for w in ws:
            w.start()
        for w in ws:
            w.join()
        for b in builders:
            b.join()
        return sorted(results, key=lambda x: (x[0].pool, x[0].start))

    def fresh(self, r):
        return any(not self.is_known(v) for v in r.viol)

    def is_known(self, v):
        pool, _, cls, msg = v
        return any(p == self.prop and fnmatch.fnmatch(pool, g) and c == cls and t in msg for p, g, c, t in known())

    def keep(self, pool, path, note):
        os.makedirs(REPLAYS, exist_ok=True)
        dst = os.path.join(REPLAYS, os.path.basename(path))
        text = open(path).read()
        head, rest = text.split("\n", 1)
        open(dst, "w").write("%s\npool %s\n# %s\n%s" % (head, pool, note, rest))
        return dst

    def cross(self, results):
        """Blocks of runs for which two pools answered differently."""
        seen, bad = {}, []
        blocks = 0
        for t, r in results:
            for b, d in r.rd.items():
                if b in seen and seen[b][0] != t.pool:
                    blocks += 1
                if b in seen and seen[b][1] != d:
                    bad.append((b, seen[b][0], t.pool))
                seen.setdefault(b, (t.pool, d))
        return blocks, bad

    def single(self, pool, run):
        head, tail = split_cmd(self.pools[pool].cmd)
        p = subprocess.run(head + ["run", self.prop, str(self.seed), str(run), "1", "1", self.tier, self.scratch, "x",
                                   "0", "60000", "dict=" + self.dict] + tail, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        m = re.search(r"RESDIGEST (\S+)", p.stdout)
        return m.group(1) if m else None

    def run(self):
        results = self.simulate()
        # a pool that could not be built was not explored; the library itself must build
        if "x86" in self.skipped:
            say("the library or the simulator does not build:\n" + self.skipped["x86"])
            return 2
        for n, e in self.skipped.items():
            say("SKIPPED pool %s: does not build: %s" % (n, e.splitlines()[-1][:200]))
        viol, kf, harness = [], [], [r.harness for _, r in results if r.harness]
        for _, r in results:
            for v in r.viol:
                (kf if self.is_known(v) else viol).append(v)
        for pool, path, cls, msg in kf[:20]:
            say("KNOWN-FINDING: property=%s pool %s %s: %s" % (self.prop, pool, cls, msg))
        code = 0
        shown = 0
        unconfirmed = []
        for pool, path, cls, msg in sorted(viol, key=lambda v: (len(open(v[1]).read()), v[1])):
            ok, txt = self.confirm(pool, path)
            if not ok:
                unconfirmed.append("%s: %s %s does not replay: %s" % (pool, cls, msg, txt.strip()[:300]))
                continue
            if shown < 5:
                dst = self.keep(pool, path, "VERIF_SEED=%d tier %s" % (self.seed, self.tier))
                say("pool %s: %s: %s" % (pool, cls, msg))
                say("VIOLATION property=%s replay=%s" % (self.prop, dst))
            shown += 1
            code = 1
        blocks = 0
        if self.prop == "C12" and code == 0:
            blocks, bad = self.cross(results)
            for b, p1, p2 in bad[:1]:
                for run in range(b, b + 50):
                    d1, d2 = self.single(p1, run), self.single(p2, run)
                    if d1 != d2:
                        os.makedirs(REPLAYS, exist_ok=True)
                        dst = os.path.join(REPLAYS, "C12-cross-run%d.replay" % run)
                        open(dst, "w").write(
                            "aes-sim cross v1\nproperty C12\nseed %d\ntier %s\nrun %d\npools %s %s\ndigests %s %s\n%s" % (
                                self.seed, self.tier, run, p1, p2, d1, d2, open(self.dict).read()))
                        say("replicas on %s and %s answered run %d differently" % (p1, p2, run))
                        say("VIOLATION property=C12 replay=%s" % dst)
                        code = 1
                        shown += 1
                        break
        if code == 0 and (harness or unconfirmed):
            for h in (harness + unconfirmed)[:5]:
                say("HARNESS " + h)
            code = 2
        self.evidence(results, shown, blocks, code)
        return code

    def evidence(self, results, nviol, blocks, code):
        tot, mx, hs, samples = {}, {}, set(), []
        runs = execs = nontriv = 0
        per = {}
        for t, r in results:
            runs += r.runs
            execs += r.execs
            nontriv += r.nontrivial
            hs |= r.hashes
            d = per.setdefault(t.pool, {"runs": 0, "distinct_schedules": 0})
            d["runs"] += r.runs
            d["distinct_schedules"] += len(r.hashes)
            for k, v in r.stat.items():
                if "max" in k:
                    mx[k] = max(mx.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
        for p in per:
            if p in self.pools:
                _, tail = split_cmd(self.pools[p].cmd)
                per[p]["nodes"] = sorted({x[7:].split(":")[0].rsplit("-", 1)[0] for x in tail}) or [p]
            per[p]["worker_seconds"] = round(self.cpu.get(p, 0), 1)
            per[p]["runs_per_hour_per_worker"] = int(per[p]["runs"] / max(self.cpu.get(p, 0), 1e-9) * 3600)
        seen = set()
        for t, r in results:
            if t.pool not in seen and r.samples:
                seen.add(t.pool)
                samples.append(r.samples[0][:600])
        wall = time.time() - self.t0
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(hs),
                "rule": "A case is one simulated run: run number and VERIF_SEED fix workload, memory layout, schedule "
                        "and faults. It is non-trivial if a disturbance (a preemption, interrupt, kill or stall inside "
                        "a call, a lost or damaged packet, a failing sink, a refused call or a short read) really "
                        "happened in it; two are distinct if the pool, the sequence of scheduling decisions with their "
                        "positions, or the number of executed events differ.",
                "samples": samples,
                "runs_per_hour": int(runs / max(wall, 1e-9) * 3600),
                "seeds": "1 (VERIF_SEED), %d run seeds derived from it, %d executions" % (runs, execs + tot.get("leak_pairs", 0)),
                "seeds_per_hour": int(runs / max(wall, 1e-9) * 3600),
                "nontrivial_runs": nontriv,
                "simulated_time_ticks": tot.get("ticks", 0),
                "simulated_time_unit": "one tick per executed event (basic block, load or store of the library) "
                                       "or per idle step; clock jumps included",
                "library_calls": tot.get("calls", 0),
                "oracle_checks": tot.get("checks", 0),
                "faults": {k: tot[k] for k in FAULTS if k in tot},
                "maxima": mx,
                "pools": per,
                "pools_not_built": sorted(self.skipped),
                "cross_pool_blocks_compared": blocks,
                "real_code": "the whole library (src/lib.rs and the selected backend) of /repo's working tree, compiled "
                             "in each pool's configurations; Rust's panic machinery on x86 and arm64",
                "stubs": "threads (fibers on one OS thread), interrupts, allocator, futex waits, clock, network, "
                         "readers and sinks are simulated; on bare pools also panic unwinding (a non-local jump); "
                         "non-x86 processors are emulated by qemu",
                "event_digest": "%016x" % (sum(r.ev for _, r in results) & (1 << 64) - 1),
            },
            "assumptions": [
                "scheduling points are basic blocks, loads and stores of the library as compiled here",
                "an atomic load may return any store the memory model lets it see; races are judged on writable "
                "statics of the image" if self.prop == "C02" else
                "memory is sequentially consistent inside the simulation (weak-memory outcomes: C02)",
                "qemu executes the other instruction sets faithfully",
            ],
            "wall_s": round(wall, 1),
            "violations": nviol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        say("%s %s seed %d: %d runs, %d distinct non-trivial schedules, %d calls, %d ticks, %.0f s, %s" % (
            self.prop, self.tier, self.seed, runs, len(hs), tot.get("calls", 0), tot.get("ticks", 0), wall,
            {0: "held", 1: "VIOLATED", 2: "NO ANSWER"}[code]))


def replay(path):
    text = open(path).read()
    if text.startswith("aes-sim cross"):
        f = dict(l.split(" ", 1) for l in text.splitlines()[1:] if " " in l)
        c = Check("C12", f["tier"], int(f["seed"]))
        c.hints(l for l in text.splitlines() if l.startswith("dict "))
        ds = []
        for p in f["pools"].split():
            c.pools[p] = get_pool(p)
            ds.append(c.single(p, int(f["run"])))
        shutil.rmtree(c.scratch, ignore_errors=True)
        say("pools %s answered %s (recorded %s)" % (f["pools"], " ".join(map(str, ds)), f["digests"]))
        return 1 if ds[0] != ds[1] else 0
    if text.startswith("aes-miri"):
        import miri_check
        return miri_check.replay(path)
    m = re.search(r"^pool (\S+)$", text, re.M)
    pool = get_pool(m.group(1) if m else "x86")
    head, tail = split_cmd(pool.cmd)
    return subprocess.run(head + ["replay", path] + tail).returncode


def main():
    if len(sys.argv) < 2:
        say(__doc__)
        return 2
    if sys.argv[1] == "setup":
        # only saves time: every check builds what it needs
        import miri_check
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(get_pool, p) for p in X86 + ARM64 + BARE_Q] + [
                    ex.submit(miri_check.sysroots, [miri_check.HOST])]:
                f.result()
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(prop, tier, seed)
    try:
        code = c.run()
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    if prop == "C02" and code == 0:
        # then the source itself, interpreted
        import miri_check
        return miri_check.check(tier, seed)
    return code


if __name__ == "__main__":
    sys.exit(main())
