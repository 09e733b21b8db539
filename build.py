#!/usr/bin/env python3
"""Builds the simulator and the fleet: the library of /repo's working tree,
instrumented, in every build configuration that can be simulated here."""
import concurrent.futures, fcntl, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(VERIF, "build")
NODE = os.path.join(VERIF, "node")
SIM = os.path.join(VERIF, "sim")

SAN = ("-Zsanitizer=address -Zexternal-clangrt -Zsanitizer-recover=address "
       "-Cllvm-args=-asan-instrumentation-with-call-threshold=0 -Cllvm-args=-asan-use-after-return=never "
       "-Cllvm-args=-asan-force-dynamic-shadow=1 -Cllvm-args=-asan-opt=0 -Cpasses=sancov-module,tsan "
       "-Cllvm-args=-tsan-instrument-func-entry-exit=0 "
       "-Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc")

# architecture: (target, toolchain, {node: (target features, crate features)}, runner, linker)
ARCH = {
    "x86": ("x86_64-unknown-linux-gnu", "stable", {
        "sw": ("", ""),
        "ct": ("", "constant-time"),
        "aesni": ("+sse4.1,+aes", ""),
        "vaes": ("+sse4.1,+aes,+vaes", "nightly"),
        "avx512": ("+sse4.1,+aes,+vaes,+avx512f", "nightly"),
    }, [], None),
    "arm64": ("aarch64-unknown-linux-gnu", "1.99.1", {
        "sw": ("", ""),
        "ct": ("", "constant-time"),
        "neon": ("+aes", ""),
    }, ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"], "aarch64-linux-gnu-gcc"),
}
# bare simulators, one linked-in node each:
# name: (target, target features, crate features, runner)
RV = "-Clinker=rust-lld -Clinker-flavor=ld.lld -Crelocation-model=static -Clink-arg=-static"
COV = ["-Cpasses=sancov-module,tsan", "-Cllvm-args=-tsan-instrument-func-entry-exit=0",
       "-Cllvm-args=-sanitizer-coverage-level=3",
       "-Cllvm-args=-sanitizer-coverage-trace-pc", "-Cllvm-args=-sanitizer-coverage-trace-loads",
       "-Cllvm-args=-sanitizer-coverage-trace-stores"]
DEV = [("opt-level", "1"), ("debug-assertions", "true"), ("overflow-checks", "true")]
BARE = {
    "rv64-zk": ("riscv64gc-unknown-linux-gnu", "+zkne,+zknd", "nightly", ["qemu-riscv64", "-cpu", "max"]),
    "rv32-zk": ("riscv32i-unknown-none-elf", "+zkne,+zknd", "nightly", ["qemu-riscv32", "-cpu", "max"]),
    "be64-sw": ("aarch64_be-unknown-linux-gnu", "", "", ["qemu-aarch64_be"]),
    "be64-aes": ("aarch64_be-unknown-linux-gnu", "+aes", "", ["qemu-aarch64_be", "-cpu", "max"]),
    "be64-ct": ("aarch64_be-unknown-linux-gnu", "", "constant-time", ["qemu-aarch64_be"]),
    "i686-sw": ("i686-unknown-linux-gnu", "", "", ["qemu-i386", "-cpu", "max"]),
    "i686-ct": ("i686-unknown-linux-gnu", "", "constant-time", ["qemu-i386", "-cpu", "max"]),
    "i686-aes": ("i686-unknown-linux-gnu", "+sse4.1,+aes", "", ["qemu-i386", "-cpu", "max"]),
    "i686-vaes": ("i686-unknown-linux-gnu", "+sse4.1,+aes,+vaes", "nightly", ["qemu-i386", "-cpu", "max"]),
    "arm32-v8": ("armv7-unknown-linux-gnueabihf", "+v8,+aes", "nightly", ["qemu-arm", "-cpu", "max"]),
    "arm32-sw": ("armv7-unknown-linux-gnueabihf", "", "", ["qemu-arm", "-cpu", "max"]),
    "arm32-ct": ("armv7-unknown-linux-gnueabihf", "", "constant-time", ["qemu-arm", "-cpu", "max"]),
}
# dev builds also lay types out at random; on bare targets "lay" is rel with such a layout
PROFILES = {"dev": "dev", "rel": "release"}


# seeds under which the library's structs, were they not laid out in C order, would have fields swapped
SEEDS = {"rv64": 2, "rv32": 5, "be64": 1, "arm3": 1, "x86s": 1, "x86c": 7, "x86a": 7, "x86v": 7}


def layout(name):
    return ["-Zrandomize-layout", "-Zlayout-seed=%d" % SEEDS.get(name[:4], 7)]


def env(flags, extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO_"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(CARGO_NET_OFFLINE="true", RUSTC_BOOTSTRAP="1", RUSTFLAGS=flags, CARGO_INCREMENTAL="0")
    e.update(extra or {})
    return e


class BuildError(Exception):
    pass


def cargo(args, cwd, e, log):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, "w") as f:
        f.write(" ".join(args) + "\n" + p.stdout)
    if p.returncode != 0:
        raise BuildError("build failed: cargo %s\n%s" % (" ".join(args), p.stdout[-4000:]))


def cpu_has():
    try:
        fl = open("/proc/cpuinfo").read()
        i = fl.index("flags")
        return set(fl[i:fl.index("\n", i)].split())
    except (OSError, ValueError):
        return set()


def build_sim(arch):
    tgt, tc, _, _, ld = ARCH[arch]
    td = os.path.join(OUT, arch, "sim")
    os.makedirs(td, exist_ok=True)
    flags = "-Clink-arg=-rdynamic -Cforce-frame-pointers=yes -Awarnings" + (" -Clinker=" + ld if ld else "")
    cargo(["+" + tc, "build", "--release", "--features", "host", "--target", tgt, "--target-dir", td], SIM,
          env(flags), td + ".log")
    return os.path.join(td, tgt, "release", "sim")


def build_node(arch, name, prof):
    tgt, tc, nodes, _, ld = ARCH[arch]
    tf, cf = nodes[name]
    td = os.path.join(OUT, arch, name + ("-lay" if prof == "dev" else ""))
    os.makedirs(td, exist_ok=True)
    flags = SAN + " -Awarnings" + (" " + " ".join(layout(arch + name)) if prof == "dev" else "") + (" -Ctarget-feature=" + tf if tf else "") + (" -Clinker=" + ld if ld else "")
    feats = ",".join(x for x in ("std", cf) if x)
    a = ["+" + tc, "build", "--lib", "--target", tgt, "--features", feats, "--target-dir", td]
    if prof == "rel":
        a.append("--release")
    cargo(a, NODE, env(flags), td + "-" + prof + ".log")
    return os.path.join(td, tgt, "debug" if prof == "dev" else "release", "libnode.so")


def install(src, dst):
    """A copy under its own name is a separate instance when loaded."""
    data = open(src, "rb").read()
    if os.path.exists(dst) and open(dst, "rb").read() == data:
        return dst
    tmp = dst + ".%d" % os.getpid()
    open(tmp, "wb").write(data)
    os.chmod(tmp, 0o755)
    os.rename(tmp, dst)
    return dst


class Pool:
    """A set of nodes one simulator process can hold."""

    def __init__(self, name, cmd):
        self.name, self.cmd = name, cmd


def fleet(arch, copies=2):
    """The simulator for this architecture with all its nodes."""
    d = os.path.join(OUT, arch, "fleet")
    os.makedirs(d, exist_ok=True)
    nodes = ARCH[arch][2]
    with open(os.path.join(OUT, arch, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            sim = ex.submit(build_sim, arch)
            ns = list(ex.map(lambda n: [(n, p, build_node(arch, n, p)) for p in PROFILES], nodes))
            simp = sim.result()
        cmd = list(ARCH[arch][3]) + [install(simp, os.path.join(d, "sim"))]
        if arch == "x86":
            have = cpu_has()
            if not {"aes", "vaes", "sse4_1"} <= have:
                cmd = ["qemu-x86_64", "-cpu", "max"] + cmd
                have = {"aes", "vaes", "sse4_1", "avx2"}
        for l in ns:
            for n, p, so in l:
                if n == "avx512" and not {"avx512f", "avx512bw", "avx512vl"} <= have:
                    continue
                for c in range(copies):
                    nm = "%s-%s-%d" % (n, p, c)
                    cmd.append("--node=%s:%s" % (nm, install(so, os.path.join(d, nm + ".so"))))
        return Pool(arch, cmd)


def bare(name, prof):
    """A simulator with one linked-in node. Only the library and its call
    interface are instrumented and get the node's target features; core and
    the simulator are shared by all nodes of a target."""
    tgt, tf, cf, runner = BARE[name]
    td = os.path.join(OUT, "bare", tgt)
    os.makedirs(td, exist_ok=True)
    node = "%s-%s" % (name.split("-", 1)[1], prof)
    fl = COV + (["-Ctarget-feature=" + tf] if tf else []) + (layout(name) if prof != "rel" else [])
    a = ["+stable", "build", "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem",
         "-Zprofile-rustflags", "--target", tgt, "--target-dir", td,
         "--features", ",".join(x for x in ("bare", cf) if x), "--release"]
    for pkg in ("aes_crypto", "node"):
        for k, v in [("rustflags", json.dumps(fl))] + (DEV if prof == "dev" else []):
            a += ["--config", "profile.release.package.%s.%s=%s" % (pkg, k, v)]
    with open(td + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cargo(a, SIM, env(RV + " -Awarnings -Cpanic=abort", {"SIM_NODE": node}), "%s-%s-%s.log" % (td, name, prof))
        exe = os.path.join(td, tgt, "release", "sim")
        exe = install(exe, os.path.join(OUT, "bare", "sim-%s-%s" % (name, prof)))
    return Pool("%s-%s" % (name, prof), runner + [exe])


if __name__ == "__main__":
    t = time.time()
    for a in sys.argv[1:] or ARCH:
        f = fleet(a) if a in ARCH else bare(*a.rsplit("-", 1))
        print(" ".join(f.cmd))
        print("%s %.1f s" % (a, time.time() - t), file=sys.stderr)
