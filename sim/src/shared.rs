//! What a run (a forked child) reports, in memory shared with its parent, so
//! that it survives any way the run may end.

use crate::engine::Plan;
use alloc::vec::Vec;

pub const MAX_PLAN: usize = 1 << 15;
pub const MAX_HASH: usize = 1 << 15;
pub const MAX_TRACE: usize = 1 << 16;
pub const MAX_DIG: usize = 1 << 14;

pub const V_NONE: u32 = 0;
pub const V_RESULT: u32 = 1;
pub const V_UNBOUNDED: u32 = 2;
pub const V_BLOCKED: u32 = 3;
pub const V_CRASH: u32 = 4;
pub const V_HANG: u32 = 5;
pub const V_NOT_REFUSED: u32 = 6;
pub const V_REFUSED: u32 = 7;
pub const V_DEST: u32 = 8;
pub const V_OVERREAD: u32 = 9;
pub const V_OVERWRITE: u32 = 10;
pub const V_CORRUPT: u32 = 11;
pub const V_SINK: u32 = 12;
pub const V_LEAK: u32 = 13;
pub const V_ALLOC: u32 = 14;
pub const V_DELIVERY: u32 = 15;
pub const V_DIVERGED: u32 = 16;
pub const V_STREAM: u32 = 17;
pub const V_HARNESS: u32 = 18;
pub const V_RACE: u32 = 19;
pub const V_ENV: u32 = 20;
pub const V_STACK: u32 = 21;
pub const V_STATE: u32 = 22;
pub const V_COST: u32 = 23;

pub fn class_name(c: u32) -> &'static str {
    match c {
        V_NONE => "none",
        V_RESULT => "wrong-result",
        V_UNBOUNDED => "unbounded-call",
        V_BLOCKED => "blocked-for-ever",
        V_CRASH => "crash",
        V_HANG => "hang",
        V_NOT_REFUSED => "not-refused",
        V_REFUSED => "wrongly-refused",
        V_DEST => "destination-modified",
        V_OVERREAD => "read-outside",
        V_OVERWRITE => "write-outside",
        V_CORRUPT => "memory-corrupted",
        V_SINK => "sink-protocol",
        V_LEAK => "timeline-depends-on-secret",
        V_ALLOC => "allocator-used",
        V_DELIVERY => "not-delivered",
        V_DIVERGED => "replicas-diverged",
        V_STREAM => "stream-broken",
        V_RACE => "data-race",
        V_ENV => "environment-used",
        V_STACK => "stack-exhausted",
        V_STATE => "processor-state-changed",
        V_COST => "too-much-work",
        _ => "harness-error",
    }
}

#[derive(Clone, Copy)]
#[repr(usize)]
pub enum Stat {
    Calls,
    Events,
    MaxCallEvents,
    SwitchMid,
    SwitchBoundary,
    IntrMid,
    IntrBoundary,
    IntrNested,
    IntrDepth,
    KillMid,
    KillBoundary,
    StallMid,
    StallBoundary,
    Scramble,
    Failover,
    ClockJump,
    HotAccess,
    FutexWait,
    Refused,
    SinkFail,
    SinkShort,
    SinkWrites,
    ShortRead,
    AllocDenied,
    GarbageFill,
    ObjDrop,
    ObjRebuild,
    NetSent,
    NetLost,
    NetDup,
    NetReorder,
    NetDelay,
    NetFlip,
    NetPartition,
    NetDelivered,
    NetRetransmit,
    NetDamagedDecrypted,
    Steps,
    StepsSkipped,
    Checks,
    EdgeBuffers,
    NodeStall,
    TicksSimulated,
    LeakPairs,
    HandlerCalls,
    NetCrash,
    CloneFrom,
    Aged,
    AtomicOps,
    StaleRead,
    EnvDenied,
    SinkPanic,
    MaxStack,
    ModesSet,
    ModesNoticed,
    CostChecked,
    CostNoticed,
    MaxCost,
    Count,
}

pub const STAT_NAMES: [&str; Stat::Count as usize] = [
    "calls",
    "events",
    "max_call_events",
    "preempt_mid_call",
    "preempt_boundary",
    "interrupt_mid_call",
    "interrupt_boundary",
    "interrupt_nested",
    "interrupt_max_depth",
    "kill_mid_call",
    "kill_boundary",
    "stall_mid_call",
    "stall_boundary",
    "scramble",
    "failover",
    "clock_jump",
    "static_access",
    "futex_wait",
    "refused_call",
    "sink_failure",
    "sink_short_write",
    "sink_writes",
    "short_read",
    "alloc_denied",
    "garbage_fill",
    "object_drop",
    "object_rebuild",
    "net_sent",
    "net_lost",
    "net_duplicated",
    "net_reordered",
    "net_delayed",
    "net_bitflip",
    "net_partition",
    "net_delivered",
    "net_retransmit",
    "net_damaged_decrypted",
    "steps",
    "steps_skipped",
    "checks",
    "edge_of_mapping_buffers",
    "node_stall",
    "ticks",
    "leak_pairs",
    "handler_calls",
    "net_receiver_crash",
    "clone_from",
    "aged_calls",
    "atomic_operations",
    "stale_atomic_reads",
    "env_denied",
    "sink_panic",
    "max_stack",
    "caller_modes_set",
    "mode_change_noticed",
    "work_checked",
    "excess_work_noticed",
    "max_work_percent_of_limit",
];

pub fn is_max(i: usize) -> bool {
    i == Stat::MaxCallEvents as usize || i == Stat::IntrDepth as usize || i == Stat::MaxStack as usize || i == Stat::MaxCost as usize
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct HashRec {
    pub act: u32,
    pub call: u32,
    pub ev: u32,
    pub pad: u32,
    pub hash: u64,
}

#[repr(C)]
pub struct Shared {
    pub finished: u32,
    /// 1: a run that only serves to warm up an emulator; 2: it failed.
    pub warm: u32,
    pub vclass: u32,
    pub act: u32,
    pub step: u32,
    pub call: u32,
    pub ev: u32,
    pub tick: u64,
    pub msg: [u8; 512],
    pub msg_len: u32,
    pub plan_len: u32,
    pub hash_len: u32,
    pub trace_len: u32,
    pub trace_on: u32,
    pub trace_act: u32,
    pub trace_call: u32,
    pub dig_len: u32,
    pub digest: u64,
    pub result_digest: u64,
    pub sched_hash: u64,
    pub stats: [u64; Stat::Count as usize],
    // bulky parts last: not cleared between runs, their lengths are
    pub plan: [Plan; MAX_PLAN],
    pub hashes: [HashRec; MAX_HASH],
    pub trace: [(u64, u64); MAX_TRACE],
    pub dig: [(u32, u32, u64); MAX_DIG],
    /// What each kind of call costs on each node; 0: not known.
    pub costs: [[u32; COST_KINDS]; MAX_NODES],
    /// Costs are being learnt.
    pub learning: u32,
}

pub const COST_KINDS: usize = 1 << 12;
pub const MAX_NODES: usize = 48;

static mut SH: *mut Shared = core::ptr::null_mut();

pub fn init() {
    unsafe {
        if SH.is_null() {
            let p = crate::sys::mmap(
                0,
                core::mem::size_of::<Shared>(),
                crate::sys::PROT_RW,
                crate::sys::MAP_SHARED | crate::sys::MAP_ANON,
            );
            assert!(p != 0);
            SH = p as *mut Shared;
        }
    }
}

#[allow(dead_code)]
pub fn ready() -> bool {
    unsafe { !SH.is_null() }
}

pub fn get() -> &'static mut Shared {
    unsafe { &mut *SH }
}

pub fn trace_wanted() -> Option<(u32, u32)> {
    let s = get();
    if s.trace_on != 0 {
        Some((s.trace_act, s.trace_call))
    } else {
        None
    }
}

pub fn trace_push(addr: u64, size: u32, kind: u32) {
    let s = get();
    let i = s.trace_len as usize;
    if i < MAX_TRACE {
        s.trace[i] = (addr, u64::from(size) << 8 | u64::from(kind));
        s.trace_len += 1;
    }
}

impl Shared {
    pub fn clear(&mut self) {
        unsafe {
            let n = core::mem::offset_of!(Shared, plan);
            let (on, a, c) = (self.trace_on, self.trace_act, self.trace_call);
            core::ptr::write_bytes((self as *mut Shared).cast::<u8>(), 0, n);
            (self.trace_on, self.trace_act, self.trace_call) = (on, a, c);
        }
    }
    pub fn stat(&mut self, s: Stat, n: u64) {
        self.stats[s as usize] += n;
    }
    pub fn stat_max(&mut self, s: Stat, n: u64) {
        let x = &mut self.stats[s as usize];
        *x = (*x).max(n);
    }
    pub fn plan_push(&mut self, p: Plan) {
        let i = self.plan_len as usize;
        if i < MAX_PLAN {
            self.plan[i] = p;
            self.plan_len += 1;
        }
    }
    pub fn plan_full(&self) -> bool {
        self.plan_len as usize >= MAX_PLAN - 64
    }
    pub fn plan_vec(&self) -> Vec<Plan> {
        self.plan[..self.plan_len as usize].to_vec()
    }
    pub fn hash_push(&mut self, act: u32, call: u32, ev: u32, hash: u64) {
        let i = self.hash_len as usize;
        if i < MAX_HASH {
            self.hashes[i] = HashRec { act, call, ev, pad: 0, hash };
            self.hash_len += 1;
        }
    }
    pub fn dig_push(&mut self, act: u32, step: u32, d: u64) {
        let i = self.dig_len as usize;
        if i < MAX_DIG {
            self.dig[i] = (act, step, d);
            self.dig_len += 1;
        }
    }
    pub fn message(&self) -> &str {
        core::str::from_utf8(&self.msg[..self.msg_len as usize]).unwrap_or("?")
    }
}
