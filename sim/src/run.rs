//! Batches of runs, each in its own forked child; minimisation; replay files.

use crate::engine::{self, NodeRt, Plan};
use crate::exec;
use crate::net;
use crate::platform;
use crate::prng::{fold, fold_bytes};
use crate::scen::{self, ActSpec, Cfg, Scenario, Weights};
use crate::shared::{self, *};
use crate::sys;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec::Vec;

pub struct Outcome {
    pub class: u32,
    pub act: u32,
    pub step: u32,
    pub call: u32,
    pub ev: u32,
    pub msg: String,
    pub plan: Vec<Plan>,
    pub digest: u64,
    pub result_digest: u64,
    pub sched_hash: u64,
    pub tick: u64,
    pub stats: [u64; Stat::Count as usize],
}

fn child(sc: &Scenario, nodes: &'static [NodeRt], plan: Option<&[Plan]>) -> Outcome {
    shared::init();
    let s = get();
    s.clear();
    let st = unsafe {
        let pid = sys::fork();
        if pid == 0 {
            platform::in_child();
            let mut e = exec::build(sc, nodes, plan);
            if sc.prop == 14 {
                platform::deny_env(&mut *e);
            }
            exec::run(sc, &mut *e);
            if sc.prop == 12 {
                s.result_digest = scen::group_digest(sc, &e);
            }
            sys::exit(0);
        }
        if pid < 0 {
            platform::die("fork failed");
        }
        sys::wait(pid)
    };
    let mut o = Outcome {
        class: s.vclass,
        act: s.act,
        step: s.step,
        call: s.call,
        ev: s.ev,
        msg: s.message().to_string(),
        plan: s.plan_vec(),
        digest: s.digest,
        result_digest: s.result_digest,
        sched_hash: s.sched_hash,
        tick: s.tick,
        stats: s.stats,
    };
    if st != 0 && o.class == V_NONE || s.finished == 0 {
        let sig = st & 0x7f;
        if sig == 14 || sig == 26 || sig == 27 || sig == 24 {
            o.class = V_HANG;
            o.msg = "call never returned: it hangs in code between two scheduling points".to_string();
        } else if sig != 0 {
            o.class = V_CRASH;
            o.msg = format!("the process died with signal {sig} inside a call");
        } else if o.class == V_NONE {
            o.class = V_CRASH;
            o.msg = format!("the process exited with status {} inside a call", st >> 8 & 0xff);
        }
    }
    o
}

/// Under an emulator every child would translate all code anew. A few runs in
/// the parent, whose effects on the images are undone, let the children
/// inherit the translations.
pub fn warm(prop: u32, seed: u64, nodes: &'static [NodeRt]) {
    shared::init();
    let body = || {
        for k in 0..6 * nodes.len() as u64 {
            let mut sc = scen::generate(prop, seed, (1 << 40) + k, nodes, false);
            let n = k as usize % nodes.len();
            if prop != 11 || nodes[n].ct {
                let first = sc.acts.first().map_or(0, |a| a.node);
                for a in &mut sc.acts {
                    if a.node == first {
                        a.node = n;
                    }
                }
            }
            for a in &mut sc.acts {
                for s in &mut a.script {
                    if matches!(s.op, scen::S_ENDUR | scen::S_WEAR) {
                        s.n = s.n.min(20);
                        s.form &= !64;
                    }
                }
            }
            get().clear();
            get().warm = 1;
            let mut e = exec::build(&sc, nodes, None);
            exec::run(&sc, &mut *e);
            unsafe { crate::engine::set(core::ptr::null_mut()) };
        }
        get().clear();
    };
    unsafe {
        let pid = sys::fork();
        if pid == 0 {
            platform::in_child();
            body();
            sys::exit(0);
        }
        if pid < 0 || sys::wait(pid) != 0 || get().vclass != V_NONE {
            return;
        }
        let areas = || nodes.iter().flat_map(|n| n.rw.iter().copied().chain([(n.tls.0, n.tls.0 + n.tls.1)]));
        let saved: Vec<Vec<u8>> =
            areas().map(|(lo, hi)| core::slice::from_raw_parts(lo as *const u8, hi - lo).to_vec()).collect();
        body();
        platform::keep_heap(&mut || {
            for ((lo, hi), v) in areas().zip(&saved) {
                core::ptr::copy_nonoverlapping(v.as_ptr(), lo as *mut u8, hi - lo);
            }
        });
    }
}

/// How much work each kind of call takes by itself, on every node.
pub fn learn(nodes: &'static [NodeRt]) {
    shared::init();
    for n in 0..nodes.len().min(MAX_NODES) {
        let s = get();
        s.clear();
        s.learning = 1;
        unsafe {
            let pid = sys::fork();
            if pid == 0 {
                get().warm = 1;
                for k in 0..40 {
                    platform::in_child();
                    let sc = scen::lonely(k, n);
                    let mut e = exec::build(&sc, nodes, None);
                    exec::run(&sc, &mut *e);
                    crate::engine::set(core::ptr::null_mut());
                }
                sys::exit(0);
            }
            if pid > 0 {
                sys::wait(pid);
            }
        }
        let s = get();
        s.learning = 0;
        s.clear();
    }
}

/// Event logs of the same scenario and schedule under other secrets.
fn twins(sc: &Scenario, nodes: &'static [NodeRt], plan: Option<&[Plan]>) -> Outcome {
    let s = get();
    s.trace_on = 0;
    let mut a = child(sc, nodes, plan);
    if a.class != V_NONE {
        // not this property's business (a wrong result is not judged, a
        // crash is reported by other properties)
        a.class = if a.class == V_HARNESS { V_HARNESS } else { V_NONE };
        return a;
    }
    let base: Vec<HashRec> = s.hashes[..s.hash_len as usize].to_vec();
    let schedule = a.plan.clone();
    let schedule: Vec<Plan> = plan.map_or(schedule, |p| p.to_vec());
    for k in 0..3u64 {
        let mut sb = sc.clone();
        let kinds = scen::SECRET_KINDS;
        let v = sc.cfg.variant / kinds;
        sb.cfg.variant = (v.wrapping_mul(31).wrapping_add(k + 1) % (1 << 40)) * kinds + (v + 5 * k + 1) % (kinds - 1);
        if sb.cfg.variant == 0 {
            sb.cfg.variant = kinds;
        }
        let b = child(&sb, nodes, Some(&schedule));
        if b.class != V_NONE {
            continue;
        }
        get().stat(Stat::LeakPairs, 0);
        a.stats[Stat::LeakPairs as usize] += 1;
        for (i, st) in b.stats.iter().enumerate() {
            if !is_max(i) && i != Stat::LeakPairs as usize {
                a.stats[i] += st;
            }
        }
        let s = get();
        let other = &s.hashes[..s.hash_len as usize];
        let diff = (0..base.len().min(other.len()))
            .find(|&i| {
                let (x, y) = (&base[i], &other[i]);
                (x.act, x.call, x.ev, x.hash) != (y.act, y.call, y.ev, y.hash)
            })
            .or(if base.len() != other.len() { Some(base.len().min(other.len())) } else { None });
        if let Some(i) = diff {
            let i = i.min(base.len().saturating_sub(1));
            let x = base[i];
            let y = if i < other.len() { other[i] } else { x };
            a.class = V_LEAK;
            a.act = x.act;
            a.call = x.call;
            // find the first event that differs
            let mut tr: [Vec<(u64, u64)>; 2] = [Vec::new(), Vec::new()];
            for (q, which) in [sc, &sb].into_iter().enumerate() {
                let s = get();
                (s.trace_on, s.trace_act, s.trace_call) = (1, x.act, x.call);
                child(which, nodes, Some(&schedule));
                let s = get();
                tr[q] = s.trace[..s.trace_len as usize].to_vec();
                s.trace_on = 0;
            }
            let k = (0..tr[0].len().min(tr[1].len())).find(|&k| tr[0][k] != tr[1][k]);
            let kind = |t: (u64, u64)| ["basic block", "load", "store", "sink"][(t.1 & 3) as usize];
            let node = sc.acts.get(x.act as usize).map_or(0, |a| a.node);
            a.ev = k.unwrap_or(0) as u32;
            a.msg = match k {
                Some(k) => format!(
                    "on {} two executions that differ only in secrets part at event {k} of call {} of a{}: {} {} vs {} {}",
                    nodes[node].name,
                    x.call,
                    x.act,
                    kind(tr[0][k]),
                    platform::locate(nodes, tr[0][k].0),
                    kind(tr[1][k]),
                    platform::locate(nodes, tr[1][k].0)
                ),
                None => format!(
                    "on {} two executions that differ only in secrets take {} and {} steps in call {} of a{}",
                    nodes[node].name, x.ev, y.ev, x.call, x.act
                ),
            };
            a.plan = schedule;
            return a;
        }
    }
    a.plan = schedule;
    a
}

pub fn execute(sc: &Scenario, nodes: &'static [NodeRt], plan: Option<&[Plan]>) -> Outcome {
    if sc.prop == 11 {
        twins(sc, nodes, plan)
    } else {
        child(sc, nodes, plan)
    }
}

// ---------------------------------------------------------------- minimise

struct Min<'a> {
    nodes: &'static [NodeRt],
    class: u32,
    left: u32,
    deadline: &'a dyn Fn() -> bool,
}

impl Min<'_> {
    fn fails(&mut self, sc: &Scenario, plan: &[Plan]) -> bool {
        if self.left == 0 || (self.deadline)() {
            self.left = 0;
            return false;
        }
        self.left -= 1;
        execute(sc, self.nodes, Some(plan)).class == self.class
    }
}

/// Replicas of one group run the same script: what is dropped from one is
/// dropped from all.
fn replicas(sc: &Scenario, a: usize) -> Vec<usize> {
    let g = sc.acts[a].group;
    (0..sc.acts.len())
        .filter(|&k| k == a || g != 0 && sc.acts[k].group == g && sc.acts[k].script.len() == sc.acts[a].script.len())
        .collect()
}

/// Shrinks schedule, faults and workload while the same violation persists.
pub fn minimise(
    sc: &Scenario,
    nodes: &'static [NodeRt],
    plan: Vec<Plan>,
    class: u32,
    deadline: &dyn Fn() -> bool,
) -> (Scenario, Vec<Plan>, u32) {
    let mut m = Min { nodes, class, left: 700, deadline };
    let mut sc = sc.clone();
    let mut plan = plan;
    // a hang costs seconds per attempt
    if class == V_HANG {
        m.left = 25;
    }
    for _round in 0..3 {
        let before = (plan.len(), sc.acts.iter().map(|a| a.script.len()).sum::<usize>());
        // the whole plan at once, then by chunks
        if !plan.is_empty() && m.fails(&sc, &[]) {
            plan.clear();
        }
        let mut chunk = plan.len() / 2;
        while chunk > 0 {
            let mut i = 0;
            while i < plan.len() {
                let mut p = plan.clone();
                p.drain(i..(i + chunk).min(p.len()));
                if m.fails(&sc, &p) {
                    plan = p;
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        // whole activities
        for a in (0..sc.acts.len()).rev() {
            if sc.acts[a].script.is_empty() {
                continue;
            }
            let mut s = sc.clone();
            for k in replicas(&sc, a) {
                s.acts[k].script.clear();
            }
            if m.fails(&s, &plan) {
                sc = s;
            }
        }
        // steps; calls are numbered per activity, so plan entries of an
        // activity are only reliable for unchanged prefixes: drop from the
        // end first
        for a in 0..sc.acts.len() {
            let mut chunk = sc.acts[a].script.len() / 2;
            let mut first = true;
            while chunk > 0 || first {
                first = false;
                let c = chunk.max(1);
                let mut i = sc.acts[a].script.len();
                while i > 0 {
                    let lo = i.saturating_sub(c);
                    let mut s = sc.clone();
                    for k in replicas(&sc, a) {
                        let hi = i.min(s.acts[k].script.len());
                        s.acts[k].script.drain(lo..hi);
                    }
                    if m.fails(&s, &plan) {
                        sc = s;
                    }
                    i = lo.min(sc.acts[a].script.len());
                }
                chunk /= 2;
            }
        }
        // endurance counts
        for a in 0..sc.acts.len() {
            for k in 0..sc.acts[a].script.len() {
                while matches!(sc.acts[a].script[k].op, scen::S_ENDUR | scen::S_WEAR) && sc.acts[a].script[k].n > 1 {
                    let mut s = sc.clone();
                    for t in replicas(&sc, a) {
                        s.acts[t].script[k].n /= 2;
                    }
                    if !m.fails(&s, &plan) {
                        break;
                    }
                    sc = s;
                }
            }
        }
        // shorter message
        while sc.net.blocks > 1 {
            let mut s = sc.clone();
            s.net.blocks /= 2;
            if !m.fails(&s, &plan) {
                break;
            }
            sc = s;
        }
        let after = (plan.len(), sc.acts.iter().map(|a| a.script.len()).sum::<usize>());
        if after == before {
            break;
        }
    }
    (sc, plan, 700 - m.left)
}

// ---------------------------------------------------------------- replay

pub fn scenario_text(sc: &Scenario, plan: &[Plan], nodes: &[NodeRt], o: &Outcome, seed: u64) -> String {
    let mut t = String::new();
    t += "aes-sim replay v1\n";
    t += &format!("# {}\n", o.msg);
    t += &format!("property {}\n", scen::PROPS[sc.prop as usize]);
    t += &scen::dict().text;
    t += &format!("class {}\n", class_name(o.class));
    t += &format!("digest {:016x}\n", o.digest);
    t += &format!("seed {seed}\nrun {}\nlayout {}\nsched {}\n", sc.run, sc.layout, sc.sched);
    let c = &sc.cfg;
    let w = &c.weights;
    t += &format!(
        "cfg {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n",
        c.bound, c.force, c.gap_bits, c.gap_fixed, c.gap_mul, c.pick, w.boundary, w.switch, w.intr, w.kill, w.stall,
        w.scramble, c.kills, c.intrs, c.stalls, c.max_depth, c.check_access as u8, c.hash_events as u8, c.hot as u8,
        c.edge as u8, c.garbage as u8, c.deny_alloc as u8, c.judge_results as u8, c.final_verify as u8, c.variant, 0
    );
    let n = &sc.net;
    t += &format!(
        "net {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n",
        n.blocks,
        n.ks,
        exec::hex(&n.key),
        n.dir,
        n.loss,
        n.dup,
        n.flip,
        n.delay,
        n.max_delay,
        n.crash,
        n.part,
        n.quiet_at,
        n.seed,
        n.rto,
        n.spare
    );
    for (i, a) in sc.acts.iter().enumerate() {
        t += &format!(
            "act {i} node={} setup={} handler={} native={} succeeds={} group={}\n",
            nodes[a.node].name,
            a.setup as u8,
            a.handler as u8,
            a.native_kind,
            a.succeeds.map_or(-1, |x| x as i64),
            a.group
        );
        for s in &a.script {
            t += &format!("step {} # {}\n", scen::step_text(s), scen::op_name(s.op));
        }
    }
    for p in plan {
        let k = ["", "switch", "interrupt", "kill", "stall", "scramble", "net", "park"][p.kind as usize % 8];
        t += &format!("plan {} {} {} {} {} # {k}\n", p.act, p.kind, p.call, p.ev, p.arg);
    }
    t += "end\n";
    t
}

pub struct Replay {
    pub sc: Scenario,
    pub plan: Option<Vec<Plan>>,
    pub class: String,
    pub digest: u64,
}

pub fn parse(t: &str, nodes: &[NodeRt]) -> Option<Replay> {
    let zero = Weights { boundary: 0, switch: 0, intr: 0, kill: 0, stall: 0, scramble: 0 };
    let mut sc = Scenario {
        prop: 0,
        run: 0,
        layout: 0,
        sched: 0,
        cfg: Cfg {
            bound: 0,
            force: 0,
            gap_bits: 0,
            gap_fixed: 0,
            gap_mul: 0,
            pick: 0,
            weights: zero,
            kills: 0,
            intrs: 0,
            stalls: 0,
            max_depth: 0,
            check_access: false,
            hash_events: false,
            hot: false,
            edge: false,
            garbage: false,
            deny_alloc: false,
            judge_results: true,
            final_verify: true,
            variant: 0,
        },
        acts: Vec::new(),
        net: net::NetCfg::default(),
    };
    scen::set_dict(t);
    let (mut plan, mut class, mut digest, mut free) = (Vec::new(), String::new(), 0, false);
    for line in t.lines() {
        let line = line.split('#').next().unwrap().trim();
        let f: Vec<&str> = line.split_ascii_whitespace().collect();
        if f.is_empty() {
            continue;
        }
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok());
        match f[0] {
            "property" => sc.prop = scen::PROPS.iter().position(|p| *p == f[1])? as u32,
            "class" => class = f[1].to_string(),
            "digest" => digest = u64::from_str_radix(f[1], 16).ok()?,
            "run" => sc.run = n(1)?,
            "layout" => sc.layout = n(1)?,
            "sched" => sc.sched = n(1)?,
            "free-running" => free = true,
            "cfg" => {
                let c = &mut sc.cfg;
                c.bound = n(1)? as u32;
                c.force = n(2)? as u32;
                c.gap_bits = n(3)? as u32;
                c.gap_fixed = n(4)? as u32;
                c.gap_mul = n(5)? as u32;
                c.pick = n(6)? as u8;
                c.weights = Weights { boundary: n(7)?, switch: n(8)?, intr: n(9)?, kill: n(10)?, stall: n(11)?, scramble: n(12)? };
                c.kills = n(13)? as u32;
                c.intrs = n(14)? as u32;
                c.stalls = n(15)? as u32;
                c.max_depth = n(16)? as usize;
                c.check_access = n(17)? != 0;
                c.hash_events = n(18)? != 0;
                c.hot = n(19)? != 0;
                c.edge = n(20)? != 0;
                c.garbage = n(21)? != 0;
                c.deny_alloc = n(22)? != 0;
                c.judge_results = n(23)? != 0;
                c.final_verify = n(24)? != 0;
                c.variant = n(25)?;
            }
            "net" => {
                let c = &mut sc.net;
                c.blocks = n(1)? as usize;
                c.ks = n(2)? as usize;
                for i in 0..32 {
                    c.key[i] = u8::from_str_radix(f[3].get(2 * i..2 * i + 2)?, 16).ok()?;
                }
                c.dir = n(4)? as u8;
                c.loss = n(5)?;
                c.dup = n(6)?;
                c.flip = n(7)?;
                c.delay = n(8)?;
                c.max_delay = n(9)?;
                c.crash = n(10)?;
                c.part = n(11)?;
                c.quiet_at = n(12)?;
                c.seed = n(13)?;
                c.rto = n(14)?;
                c.spare = n(15)? as usize;
            }
            "act" => {
                let mut a = ActSpec::default();
                for kv in &f[2..] {
                    let (k, v) = kv.split_once('=')?;
                    match k {
                        "node" => a.node = nodes.iter().position(|x| x.name == v)?,
                        "setup" => a.setup = v == "1",
                        "handler" => a.handler = v == "1",
                        "native" => {
                            a.native_kind = v.parse().ok()?;
                            a.native = match a.native_kind {
                                1 => Some(net::sender),
                                2 => Some(net::receiver),
                                _ => None,
                            };
                        }
                        "succeeds" => a.succeeds = v.parse::<usize>().ok(),
                        "group" => a.group = v.parse().ok()?,
                        _ => {}
                    }
                }
                sc.acts.push(a);
            }
            "step" => {
                let s = scen::step_parse(line.strip_prefix("step")?)?;
                sc.acts.last_mut()?.script.push(s);
            }
            "plan" => plan.push(Plan {
                act: n(1)? as u16,
                kind: n(2)? as u8,
                pad: 0,
                call: n(3)? as u32,
                ev: n(4)? as u32,
                arg: n(5)? as u32,
            }),
            _ => {}
        }
    }
    Some(Replay { sc, plan: if free { None } else { Some(plan) }, class, digest })
}

// ---------------------------------------------------------------- batch

pub struct Job<'a> {
    pub prop: u32,
    pub seed: u64,
    pub start: u64,
    pub count: u64,
    pub stride: u64,
    pub thorough: bool,
    pub outdir: &'a str,
    pub tag: &'a str,
    pub max_viol: u32,
}

const BLOCK: u64 = 50;

/// Runs a batch; prints its account on stdout. Returns the number of
/// violations, or a negative number for a harness error.
pub fn batch(job: &Job, nodes: &'static [NodeRt], out_of_time: &dyn Fn(f64) -> bool) -> i32 {
    shared::init();
    let mut total = [0u64; Stat::Count as usize];
    let mut hashes: Vec<u64> = Vec::new();
    let mut events_digest = 0u64;
    let mut results_digest = 0u64;
    let mut block = 0u64;
    let mut done = 0u64;
    let mut viol = 0;
    let mut nontrivial = 0u64;
    let mut execs = 0u64;
    let mut seen: Vec<(u32, u32)> = Vec::new();
    for k in 0..job.count {
        if out_of_time(1.0) {
            break;
        }
        let run = job.start + k * job.stride;
        let sc = scen::generate(job.prop, job.seed, run, nodes, job.thorough);
        let o = execute(&sc, nodes, None);
        execs += 1;
        done += 1;
        for i in 0..total.len() {
            if is_max(i) {
                total[i] = total[i].max(o.stats[i]);
            } else {
                total[i] += o.stats[i];
            }
        }
        events_digest = events_digest.wrapping_add(fold(fold(run, o.digest), o.sched_hash));
        results_digest = results_digest.wrapping_add(fold(run, o.result_digest));
        // answers per block of runs, to compare between pools
        block = block.wrapping_add(fold(run, o.result_digest));
        if job.stride == 1 && (run + 1) % BLOCK == 0 {
            if run + 1 >= job.start + BLOCK {
                platform::print(&format!("RD {} {block:016x}\n", run + 1 - BLOCK));
            }
            block = 0;
        }
        let s = &o.stats;
        let disturbed = s[Stat::SwitchMid as usize]
            + s[Stat::IntrMid as usize]
            + s[Stat::KillMid as usize]
            + s[Stat::StallMid as usize]
            + s[Stat::NetFlip as usize]
            + s[Stat::NetLost as usize]
            + s[Stat::SinkFail as usize]
            + s[Stat::SinkPanic as usize]
            + s[Stat::SinkShort as usize]
            + s[Stat::Refused as usize]
            + s[Stat::ShortRead as usize];
        if disturbed > 0 && s[Stat::Calls as usize] > 0 {
            nontrivial += 1;
            hashes.push(fold(o.sched_hash, o.stats[Stat::Events as usize]));
        }
        if k < 2 {
            let t = sample(&sc, &o, nodes);
            platform::print(&format!("SAMPLE {t}\n"));
        }
        if o.class == V_HARNESS {
            platform::print(&format!("HARNESS run {run}: {}\n", o.msg));
            return -1;
        }
        if o.class != V_NONE {
            let key = (o.class, fold_bytes(0, o.msg.split(':').next().unwrap_or("").as_bytes()) as u32);
            if seen.contains(&key) {
                continue;
            }
            seen.push(key);
            viol += 1;
            report(job, &sc, nodes, o, out_of_time);
            if viol >= job.max_viol as i32 {
                break;
            }
        }
    }
    let mut t = String::new();
    t += &format!("RUNS {done}\nEXECS {execs}\nNONTRIVIAL {nontrivial}\nVIOLATIONS {viol}\n");
    t += &format!("EVDIGEST {events_digest:016x}\nRESDIGEST {results_digest:016x}\n");
    for (i, v) in total.iter().enumerate() {
        t += &format!("STAT {} {v}\n", STAT_NAMES[i]);
    }
    hashes.sort_unstable();
    hashes.dedup();
    for h in hashes {
        t += &format!("H {h:x}\n");
    }
    t += "DONE\n";
    platform::print(&t);
    viol
}

fn sample(sc: &Scenario, o: &Outcome, nodes: &[NodeRt]) -> String {
    let mut t = format!("run {} ", sc.run);
    for (i, a) in sc.acts.iter().enumerate() {
        let role = if a.setup {
            "setup"
        } else if a.handler {
            "handler"
        } else if a.native_kind == 1 {
            "sender"
        } else if a.native_kind == 2 {
            "receiver"
        } else if a.succeeds.is_some() {
            "standby"
        } else {
            "client"
        };
        t += &format!("a{i}:{role}@{}:{}steps ", nodes[a.node].name, a.script.len());
    }
    t += &format!("plan {} entries:", o.plan.len());
    for p in o.plan.iter().take(6) {
        let k = ["", "switch", "interrupt", "kill", "stall", "scramble", "net", "park"][p.kind as usize % 8];
        t += &format!(" [a{} call {} event {} {k} {}]", p.act, p.call, p.ev, p.arg);
    }
    t
}

fn report(job: &Job, sc: &Scenario, nodes: &'static [NodeRt], o: Outcome, out_of_time: &dyn Fn(f64) -> bool) {
    let again = execute(sc, nodes, Some(&o.plan));
    let path = format!("{}/{}-{}-run{}.replay", job.outdir, scen::PROPS[job.prop as usize], job.tag, sc.run);
    let text;
    let fin;
    if again.class == o.class {
        // long histories are slow to shrink
        let t0 = platform::now_ms();
        let enough = || out_of_time(1.1) || platform::now_ms() - t0 > 120_000;
        let (msc, mplan, tries) = minimise(sc, nodes, o.plan.clone(), o.class, &enough);
        let f = execute(&msc, nodes, Some(&mplan));
        platform::print(&format!(
            "MINIMISED run {} plan {} -> {} steps {} -> {} in {tries} executions\n",
            sc.run,
            o.plan.len(),
            mplan.len(),
            sc.acts.iter().map(|a| a.script.len()).sum::<usize>(),
            msc.acts.iter().map(|a| a.script.len()).sum::<usize>()
        ));
        text = scenario_text(&msc, &mplan, nodes, &f, job.seed);
        fin = f;
    } else {
        // the plan alone does not bring it back; the seed does
        let f = execute(sc, nodes, None);
        text = scenario_text(sc, &[], nodes, &f, job.seed).replace("end\n", "free-running\nend\n");
        fin = f;
    }
    platform::write_file(&path, &text);
    platform::print(&format!("VIOL {} {} {}\n", path, class_name(fin.class), fin.msg.replace('\n', " ")));
}

/// Re-executes a replay file. 1: violation as recorded; 0: no violation;
/// 3: another violation.
pub fn replay(text: &str, nodes: &'static [NodeRt]) -> i32 {
    shared::init();
    let Some(r) = parse(text, nodes) else {
        platform::print("HARNESS bad replay file\n");
        return 2;
    };
    if r.sc.prop == 17 {
        learn(nodes);
    }
    let o = execute(&r.sc, nodes, r.plan.as_deref());
    platform::print(&format!(
        "REPLAY {} class {} (recorded {}) digest {:016x} (recorded {:016x}) {}\n",
        scen::PROPS[r.sc.prop as usize],
        class_name(o.class),
        r.class,
        o.digest,
        r.digest,
        o.msg
    ));
    if o.class == V_NONE {
        0
    } else if class_name(o.class) == r.class {
        1
    } else {
        3
    }
}

pub fn selftest() -> bool {
    crate::model::Model::new().selftest() && engine::A_PARK == 7
}
