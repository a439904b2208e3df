//! The simulated world: network, gateway, bus, history, and every scheduling decision.

use crate::plan::*;
use crate::rng::{hash, mix};
use crate::wire::{self, Frame, Tel};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap, VecDeque};
use std::io;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex, MutexGuard, Weak};
use tokio::sim::{self, udp::{Datagram, Sock}};
use tokio::sim::{Disturb, Host, Site};
use tokio::sync::Notify;
use tokio::time::Instant;

pub const GW: SocketAddrV4 = SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 1), 3671);
pub const MCAST: SocketAddrV4 = SocketAddrV4::new(Ipv4Addr::new(224, 0, 23, 12), 3671);
pub const CLIENT_IP: Ipv4Addr = Ipv4Addr::new(10, 0, 0, 2);
pub const SOCK_BUF: usize = 256;

pub type InstId = usize;
/// Instances numbered from here are searches.
pub const SEARCH_BASE: InstId = 200;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Bytes(Vec<u8>),
    Unit,
    Status { ch: u8, status: u8 },
    Bool(bool),
    Code(u8),
    Search(Vec<wire::SearchInfo>),
    Err(String),
    Cancelled,
    Panicked,
}

impl Out {
    pub fn is_ok(&self) -> bool {
        !matches!(self, Out::Err(_) | Out::Cancelled | Out::Panicked)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg {
    pub code: u8,
    pub addinfo: Vec<(u8, Vec<u8>)>,
    pub service_info: Vec<u8>,
    /// Standard frame, not repeated, not a system broadcast, acknowledgement requested.
    pub flags: [bool; 4],
    pub src: u16,
    pub dest: u16,
    pub value: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Bind { sock: u64, inst: InstId },
    BindErr { inst: InstId },
    RouteErr { inst: InstId },
    TaskUp { inst: InstId },
    TaskDown { inst: InstId },
    ConnectStart { inst: InstId },
    ConnectEnd { inst: InstId, ok: bool },
    Closed { sock: u64 },
    Sent { sock: u64, dg: u64 },
    SendErr { sock: u64, svc: u16 },
    Recv { sock: u64, dg: u64 },
    RecvErr { sock: u64 },
    Lost { dg: u64, why: &'static str },
    GwRx { dg: u64 },
    GwOpen { uid: u64, ch: u8, sock: u64 },
    GwClosed { uid: u64, ch: u8, why: &'static str },
    GwDown,
    GwUp,
    BusOut { uid: u64, inst: InstId, tel: Tel },
    OpStart { op: usize, inst: InstId, kind: OpKind },
    OpEnd { op: usize, out: Out },
    SearchStart { op: usize, inst: InstId, timeout_ms: u32 },
    Got { inst: InstId, msg: Msg },
    GotErr { inst: InstId },
    WaitStart { inst: InstId },
    Consumer { inst: InstId, run: bool },
    ListenerAdd { inst: InstId, l: usize, drain: bool, cap: usize },
    ListenerGone { inst: InstId, l: usize },
    Notified { inst: InstId, l: usize },
    ListenerPause { inst: InstId, l: usize, on: bool },
    Released { inst: InstId },
    Stall { tag: u32, ms: u32 },
    Panic { tag: u32, text: String },
    Livelock { tag: u32 },
    Fault { what: &'static str },
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub t: u64,
    pub ev: Ev,
}

pub struct SockInfo {
    pub inst: InstId,
    pub port: u16,
    pub sock: Weak<Sock>,
}

pub struct DgInfo {
    pub bytes: Vec<u8>,
    pub hostile: bool,
    /// From somebody else than the gateway.
    pub alien: bool,
    /// Sent by this socket of the code under test (None: by the gateway or an attacker).
    pub from: Option<u64>,
    /// Where the code under test sent it.
    pub dest: Option<SocketAddr>,
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
pub enum Task {
    Step(usize),
    Fire(usize),
    ToGw(u64),
    ToSock { sock: u64, dg: u64 },
    SockErr { sock: u64 },
    Close { inst: InstId },
    Con { uid: u64, cemi: Vec<u8> },
    DevTel { dev: usize, apci: u8, small: bool, value: Vec<u8> },
    AckTimeout { uid: u64, seq: u8, attempt: u32 },
    Expiry { uid: u64 },
    Restart { gen: u64 },
    Thaw,
    FloodTel { step: usize, k: u32 },
    Storm { step: usize, until: u64 },
    SearchResp { op: usize, dev: usize, sock: u64 },
    Quiet,
    End,
}

struct Chan {
    uid: u64,
    ch: u8,
    sock: u64,
    control: SocketAddrV4,
    data: SocketAddrV4,
    rx_seq: u8,
    tx_seq: u8,
    queue: VecDeque<OutItem>,
    inflight: Option<(OutItem, u32)>,
    last_alive: u64,
    ia: u16,
    /// first datagram that can belong to it
    first_dg: u64,
}

#[derive(Clone)]
enum OutItem {
    Cemi(Vec<u8>),
    Feature(u16, Vec<u8>),
}

pub struct NextFault {
    dir: Dir,
    svc: u16,
    n: u32,
    seq: Option<u8>,
    kind: NextKind,
}
enum NextKind {
    Lose,
    Delay(u32),
    Dup(u32),
}

#[derive(Default)]
pub struct Counters {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
}

pub struct World {
    pub plan: Plan,
    start: Instant,
    heap: BinaryHeap<Reverse<(u64, u64, Task)>>,
    hseq: u64,
    pub hist: Vec<Rec>,
    pub dgs: Vec<DgInfo>,
    pub socks: Vec<SockInfo>,
    by_port: HashMap<u16, u64>,
    next_port: u16,
    counters: [u64; 4],
    explicit: Option<HashMap<(u8, u64), u32>>,
    pub taken: Vec<Choice>,
    pub stats: Counters,
    pub sched_hash: u64,
    pub polls: u64,
    polls_here: u64,
    polls_at: u64,
    pub over: bool,
    last_c2g: u64,
    last_g2c: HashMap<u64, u64>,
    part_c2g: u64,
    part_g2c: u64,
    next_faults: Vec<NextFault>,
    send_errs: Vec<(InstId, u32, u16)>,
    /// Targeted stalls: waiting for their datagram, and (task, sites to go, step) after it.
    arms: Vec<usize>,
    armed: Vec<(u32, u32, usize)>,
    /// Most memory the code under test held, and when.
    pub peak_mem: (u64, i64),
    bind_errs: Vec<(InstId, u32)>,
    route_errs: Vec<(InstId, u32)>,
    // gateway
    down: bool,
    icmp: bool,
    gen: u64,
    frozen_until: u64,
    frozen: Vec<u64>,
    refuse_until: u64,
    refuse_code: u8,
    chans: Vec<Chan>,
    next_uid: u64,
    next_ch: u8,
    status_err: (u8, u32),
    status_mute: u32,
    con_neg: u32,
    con_none: u32,
    con_late: (u32, u32),
    disc_mute: u32,
    disc_status: (u8, u32),
    ack_err: (u8, u32),
    storm_until: HashMap<InstId, u64>,
    /// number of the last request each instance sent
    last_tx: HashMap<InstId, u8>,
    dev_counter: u64,
    pub searches: HashMap<InstId, usize>,
}

pub struct Shared {
    pub w: Mutex<World>,
    pub wake: Notify,
}

const S_SCHED: u8 = 0;
const S_C2G: u8 = 1;
const S_G2C: u8 = 2;
const S_WAKE: u8 = 3;

const V_DROP: u32 = 1;
const V_DUP: u32 = 1 << 8;
const V_DELAY: u32 = 1 << 16;

impl Shared {
    pub fn new(plan: Plan) -> Arc<Self> {
        let explicit = plan.explicit.as_ref().map(|v| v.iter().map(|c| ((c.s, c.i), c.v)).collect());
        let next_ch = plan.knobs.first_channel.max(1);
        let steps: Vec<u64> = plan.steps.iter().map(|s| s.at).collect();
        let end = plan.end_at;
        let mut w = World {
            plan,
            start: Instant::now(),
            heap: BinaryHeap::new(),
            hseq: 0,
            hist: Vec::with_capacity(2048),
            dgs: Vec::with_capacity(1024),
            socks: Vec::new(),
            by_port: HashMap::new(),
            next_port: 50000,
            counters: [0; 4],
            explicit,
            taken: Vec::new(),
            stats: Counters::default(),
            sched_hash: 0,
            polls: 0,
            polls_here: 0,
            polls_at: 0,
            over: false,
            last_c2g: 0,
            last_g2c: HashMap::new(),
            part_c2g: 0,
            part_g2c: 0,
            next_faults: Vec::new(),
            send_errs: Vec::new(),
            arms: Vec::new(),
            armed: Vec::new(),
            peak_mem: (0, 0),
            bind_errs: Vec::new(),
            route_errs: Vec::new(),
            down: false,
            icmp: false,
            gen: 0,
            frozen_until: 0,
            frozen: Vec::new(),
            refuse_until: 0,
            refuse_code: 0,
            chans: Vec::new(),
            next_uid: 1,
            next_ch,
            status_err: (0, 0),
            status_mute: 0,
            con_neg: 0,
            con_none: 0,
            con_late: (0, 0),
            disc_mute: 0,
            disc_status: (0, 0),
            ack_err: (0, 0),
            storm_until: HashMap::new(),
            last_tx: HashMap::new(),
            dev_counter: 0,
            searches: HashMap::new(),
        };
        for (i, at) in steps.into_iter().enumerate() {
            w.at(at, Task::Step(i));
        }
        let quiet = w.plan.quiet_at;
        w.at(quiet, Task::Quiet);
        w.at(end, Task::End);
        Arc::new(Shared {
            w: Mutex::new(w),
            wake: Notify::new(),
        })
    }
    pub fn lock(&self) -> Inside<'_> {
        // what the simulator allocates in here is not the memory of the code under test
        let _scope = sim::mem::scope(false);
        Inside {
            w: self.w.lock().unwrap_or_else(|e| e.into_inner()),
            _scope,
        }
    }
}

/// The world, with the simulator at work until it is dropped.
pub struct Inside<'a> {
    w: MutexGuard<'a, World>,
    _scope: sim::mem::Scope,
}

impl std::ops::Deref for Inside<'_> {
    type Target = World;
    fn deref(&self) -> &World {
        &self.w
    }
}

impl std::ops::DerefMut for Inside<'_> {
    fn deref_mut(&mut self) -> &mut World {
        &mut self.w
    }
}

impl World {
    pub fn now(&self) -> u64 {
        (Instant::now() - self.start).as_millis() as u64
    }
    pub fn instant_of(&self, t: u64) -> Instant {
        self.start + std::time::Duration::from_millis(t)
    }
    pub fn rec(&mut self, ev: Ev) {
        let t = self.now();
        // a copy of the simulator's own: what the code under test returned may be part of it
        let own = ev.clone();
        drop(ev);
        self.hist.push(Rec { t, ev: own });
        if sim::mem::peak() > self.peak_mem.1 {
            self.peak_mem = (t, sim::mem::peak());
        }
    }
    pub fn at(&mut self, t: u64, task: Task) {
        self.hseq += 1;
        self.heap.push(Reverse((t, self.hseq, task)));
    }
    pub fn next_time(&self) -> Option<u64> {
        self.heap.peek().map(|r| r.0 .0)
    }
    pub fn pop_due(&mut self) -> Option<Task> {
        let now = self.now();
        if self.next_time()? <= now {
            let Reverse((_, _, t)) = self.heap.pop().unwrap();
            self.sched_hash = mix(self.sched_hash ^ now ^ match &t {
                Task::Step(i) => 0x1000 + *i as u64,
                Task::Fire(i) => 0x100_0000 + *i as u64,
                Task::ToGw(d) => 0x2000_0000 + *d,
                Task::ToSock { dg, .. } => 0x3000_0000 + *dg,
                _ => 0x4000_0000,
            });
            Some(t)
        } else {
            None
        }
    }
    pub fn fault(&mut self, what: &'static str) {
        *self.stats.faults.entry(what).or_insert(0) += 1;
        self.rec(Ev::Fault { what });
    }
    pub fn count(&mut self, what: &'static str) {
        *self.stats.faults.entry(what).or_insert(0) += 1;
    }
    pub fn probe(&mut self, what: &'static str) {
        *self.stats.probes.entry(what).or_insert(0) += 1;
    }
    fn quiet(&self) -> bool {
        self.now() >= self.plan.quiet_at
    }

    /// One decision of a stream: explicit plans replay the list, others ask `draw`.
    fn decide(&mut self, s: u8, draw: impl FnOnce(u64, &World) -> u32) -> u32 {
        let i = self.counters[s as usize];
        self.counters[s as usize] += 1;
        let v = match &self.explicit {
            Some(m) => m.get(&(s, i)).copied().unwrap_or(0),
            None => draw(hash(self.plan.seed, 100 + s as u64, i), self),
        };
        if v != 0 {
            self.taken.push(Choice { s, i, v });
        }
        v
    }

    // ---------------------------------------------------------------- network

    fn new_dg(&mut self, bytes: Vec<u8>, hostile: bool) -> u64 {
        self.dgs.push(DgInfo {
            bytes,
            hostile,
            alien: false,
            from: None,
            dest: None,
        });
        (self.dgs.len() - 1) as u64
    }

    fn svc(&self, dg: u64) -> u16 {
        let b = &self.dgs[dg as usize].bytes;
        if b.len() >= 4 {
            u16::from_be_bytes([b[2], b[3]])
        } else {
            0
        }
    }

    /// Network fate of a datagram: (None: lost) or deliveries as delays beyond the base latency.
    fn fate(&mut self, dir: Dir, dg: u64) -> Vec<(u32, bool)> {
        let svc = self.svc(dg);
        let seq = self.dgs[dg as usize].bytes.get(8).copied();
        let now = self.now();
        let cut = match dir {
            Dir::C2G => self.part_c2g,
            Dir::G2C => self.part_g2c,
        };
        let r = self.plan.rates.clone();
        let quiet = self.quiet();
        let v = self.decide(if dir == Dir::C2G { S_C2G } else { S_G2C }, |h, _| {
            if quiet {
                return 0;
            }
            let loss = if dir == Dir::C2G { r.loss_c2g } else { r.loss_g2c } as u64;
            let mut v = 0u32;
            if h % 10000 < loss {
                return V_DROP;
            }
            let h2 = mix(h ^ 1);
            if h2 % 10000 < r.dup as u64 {
                v |= V_DUP;
            }
            let h3 = mix(h ^ 2);
            let h4 = mix(h ^ 3);
            if h3 % 10000 < r.reorder as u64 {
                v |= V_DELAY * (1 + (h4 % (r.reorder_ms.max(1) as u64)) as u32).min(30000);
                v |= 2; // not FIFO
            } else if r.jitter_ms > 0 {
                let j = (h4 % (r.jitter_ms as u64 + 1)) as u32;
                v |= V_DELAY * j;
            }
            v
        });
        if now < cut {
            self.count("partition_drop");
            self.rec(Ev::Lost { dg, why: "partition" });
            return vec![];
        }
        if let Some(k) = self.next_faults.iter().position(|f| f.dir == dir && f.n > 0 && (f.svc == 0 || f.svc == svc) && (f.seq.is_none() || f.seq == seq)) {
            self.next_faults[k].n -= 1;
            let out = match self.next_faults[k].kind {
                NextKind::Lose => {
                    self.count("targeted_loss");
                    self.rec(Ev::Lost { dg, why: "targeted" });
                    vec![]
                }
                NextKind::Delay(ms) => {
                    self.count("targeted_delay");
                    vec![(ms, true)]
                }
                NextKind::Dup(ms) => {
                    self.count("targeted_dup");
                    vec![(0, false), (ms, true)]
                }
            };
            self.next_faults.retain(|f| f.n > 0);
            return out;
        }
        if v & V_DROP != 0 {
            self.count("loss");
            self.rec(Ev::Lost { dg, why: "loss" });
            return vec![];
        }
        let delay = v >> 16;
        let free = v & 2 != 0;
        if free {
            self.count("reorder_delay");
        }
        let mut out = vec![(delay, free)];
        if v & V_DUP != 0 {
            self.count("duplicate");
            out.push((delay + 1 + (mix(v as u64 ^ dg) % 400) as u32, true));
        }
        out
    }

    fn to_gw(&mut self, dg: u64) {
        let base = self.now() + self.plan.knobs.latency_ms as u64;
        for (d, free) in self.fate(Dir::C2G, dg) {
            let mut t = base + d as u64;
            if !free {
                t = t.max(self.last_c2g);
                self.last_c2g = t;
            }
            self.at(t, Task::ToGw(dg));
        }
    }

    fn gw_send(&mut self, to: SocketAddrV4, bytes: Vec<u8>) {
        let dg = self.new_dg(bytes, false);
        let Some(&sock) = self.by_port.get(&to.port()) else {
            self.rec(Ev::Lost { dg, why: "no such endpoint" });
            return;
        };
        if *to.ip() != CLIENT_IP {
            self.rec(Ev::Lost { dg, why: "no such endpoint" });
            return;
        }
        self.to_sock(sock, dg);
    }

    fn to_sock(&mut self, sock: u64, dg: u64) {
        let base = self.now() + self.plan.knobs.latency_ms as u64;
        for (d, free) in self.fate(Dir::G2C, dg) {
            let mut t = base + d as u64;
            if !free {
                let last = self.last_g2c.entry(sock).or_insert(0);
                t = t.max(*last);
                *last = t;
            }
            self.at(t, Task::ToSock { sock, dg });
        }
    }

    /// Belongs to a former tunnel whose channel number is in use again. Nobody could tell it from the
    /// new one's, so such a datagram does not live that long.
    fn left_over(&self, sock: u64, dg: u64) -> bool {
        if !self.plan.knobs.reuse_channel {
            return false;
        }
        let b = &self.dgs[dg as usize].bytes;
        if b.len() < 8 {
            return false;
        }
        let ch = match u16::from_be_bytes([b[2], b[3]]) {
            0x0420..=0x0425 => b[7],
            0x0207..=0x020a => b[6],
            _ => return false,
        };
        self.chans.iter().any(|c| c.sock == sock && c.ch == ch && dg < c.first_dg)
    }

    fn deliver(&mut self, sock: u64, dg: u64) {
        let Some(s) = self.socks[sock as usize].sock.upgrade() else {
            self.rec(Ev::Lost { dg, why: "closed" });
            return;
        };
        if s.queued() >= SOCK_BUF {
            self.count("socket_buffer_overflow");
            self.rec(Ev::Lost { dg, why: "socket buffer" });
            return;
        }
        let rot = self.decide(S_WAKE, |h, _| (h % 4) as u32);
        let bytes = self.dgs[dg as usize].bytes.clone();
        s.deliver(
            Datagram {
                id: dg,
                from: SocketAddr::V4(GW),
                bytes,
            },
            rot as usize,
        );
    }

    pub fn exec(&mut self, t: Task) {
        match t {
            Task::ToGw(dg) => self.gw_input(dg),
            Task::ToSock { sock, dg } if self.left_over(sock, dg) => self.rec(Ev::Lost { dg, why: "left over" }),
            Task::ToSock { sock, dg } => self.deliver(sock, dg),
            Task::SockErr { sock } => {
                if let Some(s) = self.socks[sock as usize].sock.upgrade() {
                    s.post_error(io::ErrorKind::ConnectionRefused);
                }
            }
            Task::Close { inst } => self.gw_close(inst),
            Task::Con { uid, cemi } => self.enqueue(uid, OutItem::Cemi(cemi)),
            Task::DevTel { dev, apci, small, value } => {
                let d = self.plan.devices[dev].clone();
                let tel = Tel {
                    code: wire::L_IND,
                    addinfo: d.addinfo.clone(),
                    ctrl1: d.ctrl1 | if value.len() > 14 { 0 } else { 0x80 },
                    ctrl2: 0xe0,
                    src: 0x1100 + dev as u16 + 1,
                    dest: d.addr,
                    tpci: 0,
                    apci,
                    small,
                    value,
                };
                self.broadcast(tel, None);
            }
            Task::AckTimeout { uid, seq, attempt } => self.ack_timeout(uid, seq, attempt),
            Task::Expiry { uid } => {
                let now = self.now();
                if let Some(k) = self.chans.iter().position(|c| c.uid == uid) {
                    let due = self.chans[k].last_alive + 120_000;
                    if due <= now {
                        self.probe("gateway_expired_channel");
                        let to = self.chans[k].control;
                        let ch = self.chans[k].ch;
                        self.close_chan(uid, "expired");
                        self.gw_send(to, wire::disc_req(ch, GW));
                    } else {
                        self.at(due, Task::Expiry { uid });
                    }
                }
            }
            Task::Restart { gen } => {
                if self.gen == gen && self.down {
                    self.down = false;
                    self.rec(Ev::GwUp);
                }
            }
            Task::Thaw => {
                if self.now() >= self.frozen_until {
                    for dg in std::mem::take(&mut self.frozen) {
                        self.gw_input(dg);
                    }
                }
            }
            Task::FloodTel { step, k } => {
                if let Action::Flood { spec, n, gap_ms } = self.plan.steps[step].act.clone() {
                    let mut tel = spec.tel();
                    let h = hash(self.plan.seed, 77, (step as u64) << 20 | k as u64);
                    for (i, b) in tel.value.iter_mut().enumerate() {
                        *b = (h >> (8 * (i % 8))) as u8;
                    }
                    if tel.small {
                        tel.value = vec![(h & 0x3f) as u8];
                    }
                    self.broadcast(tel, None);
                    if k + 1 < n {
                        let t = self.now() + gap_ms as u64;
                        self.at(t, Task::FloodTel { step, k: k + 1 });
                    }
                }
            }
            Task::Storm { step, until } => {
                let now = self.now();
                if let Action::AckStorm { inst, gap_ms, refuse, .. } = self.plan.steps[step].act {
                    if now >= until {
                        return;
                    }
                    if let (Some(k), false) = (self.chan_of(inst), self.down) {
                        let (to, ch, exp) = (self.chans[k].data, self.chans[k].ch, self.chans[k].rx_seq);
                        let h = hash(self.plan.seed, 78, now);
                        let seq = if refuse { exp } else { exp.wrapping_add(2 + (h % 200) as u8) };
                        // never by chance the number that is awaited
                        let near = self.last_tx.get(&inst).map(|x| seq.wrapping_sub(*x) < 2).unwrap_or(false);
                        if refuse || !near {
                            let m = wire::tun_ack(ch, seq, if refuse { 0x29 } else { 0 });
                            self.count("storm_ack");
                            self.gw_send(to, m);
                        }
                    }
                    self.at(now + gap_ms.max(1) as u64, Task::Storm { step, until });
                }
            }
            Task::SearchResp { op, dev, sock } => {
                if let Action::Search { devices, .. } = &self.plan.steps[op].act {
                    let bytes = devices[dev].bytes.clone();
                    let hostile = !devices[dev].well_formed;
                    let dg = self.new_dg(bytes, hostile);
                    self.to_sock(sock, dg);
                }
            }
            Task::Quiet => {
                self.next_faults.clear();
                self.send_errs.clear();
                self.status_err = (0, 0);
                self.status_mute = 0;
                self.con_neg = 0;
                self.con_none = 0;
                self.con_late = (0, 0);
                self.disc_mute = 0;
                self.disc_status = (0, 0);
                self.ack_err = (0, 0);
                self.bind_errs.clear();
                self.route_errs.clear();
            }
            Task::Step(_) | Task::Fire(_) | Task::End => {}
        }
    }

    // ---------------------------------------------------------------- gateway

    fn reply_to(&self, src: SocketAddrV4, h: &wire::Hpai) -> SocketAddrV4 {
        if h.addr.ip().is_unspecified() || h.addr.port() == 0 {
            src
        } else {
            h.addr
        }
    }

    fn gw_input(&mut self, dg: u64) {
        if self.down {
            self.rec(Ev::Lost { dg, why: "gateway down" });
            if self.icmp {
                if let Some(sock) = self.dg_sock(dg) {
                    let t = self.now() + self.plan.knobs.latency_ms as u64;
                    self.count("icmp_refused");
                    self.at(t, Task::SockErr { sock });
                }
            }
            return;
        }
        if self.now() < self.frozen_until {
            self.frozen.push(dg);
            return;
        }
        if self.dg_sock(dg).map(|sock| self.left_over(sock, dg)).unwrap_or(false) {
            self.rec(Ev::Lost { dg, why: "left over" });
            return;
        }
        self.rec(Ev::GwRx { dg });
        let Some(sock) = self.dg_sock(dg) else { return };
        let src = SocketAddrV4::new(CLIENT_IP, self.socks[sock as usize].port);
        let Some(f) = wire::decode(&self.dgs[dg as usize].bytes) else { return };
        let now = self.now();
        match f {
            Frame::SearchReq { .. } => {
                let inst = self.socks[sock as usize].inst;
                if let Some(&op) = self.searches.get(&inst) {
                    if let Action::Search { devices, .. } = self.plan.steps[op].act.clone() {
                        for (i, d) in devices.iter().enumerate() {
                            self.at(now + d.delay_ms as u64, Task::SearchResp { op, dev: i, sock });
                        }
                    }
                }
            }
            Frame::ConnectReq { control, data, cri } => {
                let to = self.reply_to(src, &control);
                let data_ep = self.reply_to(src, &data);
                if now < self.refuse_until {
                    self.count("connect_refused");
                    let m = self.refusal(self.refuse_code);
                    self.gw_send(to, m);
                    return;
                }
                if cri != [4, 4, 2, 0] {
                    let m = self.refusal(0x29);
                    self.gw_send(to, m);
                    return;
                }
                if self.chans.len() >= self.plan.knobs.capacity {
                    self.probe("gateway_full");
                    let m = self.refusal(wire::E_NO_MORE_CONNECTIONS);
                    self.gw_send(to, m);
                    return;
                }
                if self.plan.knobs.reuse_channel {
                    self.next_ch = self.plan.knobs.first_channel.max(1);
                }
                while self.next_ch == 0 || self.chans.iter().any(|c| c.ch == self.next_ch) {
                    self.next_ch = self.next_ch.wrapping_add(1);
                }
                let ch = self.next_ch;
                self.next_ch = self.next_ch.wrapping_add(1);
                let uid = self.next_uid;
                self.next_uid += 1;
                let ia = 0x11f0 + ch as u16 % 10;
                let first_dg = self.dgs.len() as u64;
                self.chans.push(Chan {
                    uid,
                    ch,
                    sock,
                    control: to,
                    data: data_ep,
                    rx_seq: 0,
                    tx_seq: 0,
                    queue: VecDeque::new(),
                    inflight: None,
                    last_alive: now,
                    ia,
                    first_dg,
                });
                self.rec(Ev::GwOpen { uid, ch, sock });
                self.at(now + 120_000, Task::Expiry { uid });
                let ep = if self.plan.knobs.endpoint_in_response {
                    GW
                } else {
                    SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0)
                };
                self.gw_send(to, wire::connect_resp_ok(ch, ep, ia));
            }
            Frame::StateReq { ch, hpai, .. } => {
                let to = self.reply_to(src, &hpai);
                if self.status_mute > 0 {
                    self.status_mute -= 1;
                    self.count("status_mute");
                    return;
                }
                let known = self.chans.iter_mut().find(|c| c.ch == ch && c.sock == sock);
                let mut status = match known {
                    Some(c) => {
                        c.last_alive = now;
                        0
                    }
                    None => wire::E_CONNECTION_ID,
                };
                if self.status_err.1 > 0 && status == 0 {
                    self.status_err.1 -= 1;
                    status = self.status_err.0;
                    self.count("status_error");
                }
                self.gw_send(to, wire::state_resp(ch, status));
            }
            Frame::DiscReq { ch, hpai, .. } => {
                let to = self.reply_to(src, &hpai);
                if self.disc_mute > 0 {
                    self.disc_mute -= 1;
                    self.count("disconnect_mute");
                    return;
                }
                let uid = self.chans.iter().find(|c| c.ch == ch && c.sock == sock).map(|c| c.uid);
                let mut status = 0;
                match uid {
                    Some(uid) => self.close_chan(uid, "client asked"),
                    None => status = wire::E_CONNECTION_ID,
                }
                if self.disc_status.1 > 0 {
                    self.disc_status.1 -= 1;
                    self.count("disconnect_status");
                    status = self.disc_status.0;
                }
                self.gw_send(to, wire::disc_resp(ch, status));
            }
            Frame::TunReq { ch, seq, cemi, .. } => self.gw_tunnel(sock, ch, seq, Some(cemi), None),
            Frame::Feature { code: 0x0424, .. } if self.plan.knobs.feature_unknown => {}
            Frame::Feature { code: 0x0424, ch, seq, body, .. } => self.gw_tunnel(sock, ch, seq, None, Some(body)),
            Frame::TunAck { ch, seq, status } => {
                if let Some(c) = self.chans.iter_mut().find(|c| c.ch == ch && c.sock == sock) {
                    if c.inflight.is_some() && c.tx_seq == seq && status == 0 {
                        c.inflight = None;
                        c.tx_seq = c.tx_seq.wrapping_add(1);
                        if c.tx_seq == 0 {
                            *self.stats.probes.entry("gateway_sequence_wrap").or_insert(0) += 1;
                        }
                        let uid = c.uid;
                        self.pump(uid);
                    }
                }
            }
            _ => {}
        }
    }

    fn refusal(&self, code: u8) -> Vec<u8> {
        if self.plan.knobs.long_refusal {
            let mut p = vec![0, code];
            p.extend(wire::hpai_bytes(GW));
            p.extend_from_slice(&[4, 4, 0, 0]);
            wire::raw(0x0206, &p)
        } else {
            wire::connect_resp_err(code)
        }
    }

    fn gw_tunnel(&mut self, sock: u64, ch: u8, seq: u8, cemi: Option<Vec<u8>>, feature: Option<Vec<u8>>) {
        let now = self.now();
        let Some(k) = self.chans.iter().position(|c| c.ch == ch && c.sock == sock) else {
            self.probe("request_on_unknown_channel");
            return;
        };
        let (uid, data, exp) = (self.chans[k].uid, self.chans[k].data, self.chans[k].rx_seq);
        if seq == exp.wrapping_sub(1) {
            self.probe("gateway_saw_repeat");
            self.gw_send(data, wire::tun_ack(ch, seq, 0));
            return;
        }
        if seq != exp {
            self.probe("gateway_saw_out_of_sequence");
            return;
        }
        let inst = self.socks[sock as usize].inst;
        if self.storm_until.get(&inst).map(|t| now < *t).unwrap_or(false) {
            return;
        }
        if self.ack_err.1 > 0 {
            self.ack_err.1 -= 1;
            self.count("request_refused");
            let m = wire::tun_ack(ch, seq, self.ack_err.0);
            self.gw_send(data, m);
            return;
        }
        self.chans[k].rx_seq = exp.wrapping_add(1);
        if self.chans[k].rx_seq == 0 {
            self.probe("client_sequence_wrap");
        }
        self.gw_send(data, wire::tun_ack(ch, seq, 0));
        if let Some(body) = feature {
            if self.plan.knobs.feature_replies && body.len() >= 3 {
                // some gateways know no such feature: a return code, no value
                let reply = if self.plan.knobs.feature_refused {
                    self.probe("feature_refused");
                    vec![body[0], 0xf0]
                } else {
                    vec![body[0], 0, *body.last().unwrap()]
                };
                self.enqueue(uid, OutItem::Feature(0x0423, reply));
            }
            return;
        }
        let cemi = cemi.unwrap();
        let Some(tel) = Tel::decode(&cemi) else { return };
        self.rec(Ev::BusOut { uid, inst, tel: tel.clone() });
        if tel.code != wire::L_REQ {
            return;
        }
        let ia = self.chans[k].ia;
        // confirmation
        let mut con = tel.clone();
        con.code = wire::L_CON;
        con.src = ia;
        con.ctrl1 &= 0xfe;
        con.ctrl1 ^= self.plan.knobs.con_ctrl.0;
        con.ctrl2 ^= self.plan.knobs.con_ctrl.1;
        con.addinfo = self.plan.knobs.con_addinfo.clone();
        let mut delay = self.plan.knobs.con_delay_ms as u64;
        if self.con_none > 0 {
            self.con_none -= 1;
            self.count("confirmation_missing");
        } else {
            if self.con_neg > 0 {
                self.con_neg -= 1;
                self.count("confirmation_negative");
                con.ctrl1 |= 1;
            }
            if self.con_late.1 > 0 {
                self.con_late.1 -= 1;
                self.count("confirmation_late");
                delay += self.con_late.0 as u64;
            }
            self.at(now + delay, Task::Con { uid, cemi: con.encode() });
        }
        // the other tunnels see it as bus traffic
        let mut ind = tel.clone();
        ind.code = wire::L_IND;
        ind.src = ia;
        self.broadcast(ind, Some(uid));
        // the devices
        for (i, d) in self.plan.devices.clone().into_iter().enumerate() {
            if d.addr != tel.dest || !tel.group() {
                continue;
            }
            let (apci, wait) = match tel.apci {
                wire::APCI_READ if d.answers => (wire::APCI_RESPONSE, d.delay_ms),
                wire::APCI_WRITE if d.feedback_ms.is_some() => (wire::APCI_WRITE, d.feedback_ms.unwrap()),
                _ => continue,
            };
            self.dev_counter += 1;
            let h = hash(self.plan.seed, 55, self.dev_counter);
            let value = if d.small {
                vec![(h & 0x3f) as u8]
            } else {
                (0..d.len).map(|j| (mix(h ^ j as u64) & 0xff) as u8).collect()
            };
            self.at(
                now + delay + wait as u64,
                Task::DevTel {
                    dev: i,
                    apci,
                    small: d.small,
                    value,
                },
            );
        }
    }

    fn broadcast(&mut self, tel: Tel, except: Option<u64>) {
        let b = tel.encode();
        let uids: Vec<u64> = self.chans.iter().map(|c| c.uid).filter(|u| Some(*u) != except).collect();
        for u in uids {
            self.enqueue(u, OutItem::Cemi(b.clone()));
        }
    }

    fn gw_close(&mut self, inst: InstId) {
        if self.down || self.now() < self.frozen_until {
            return;
        }
        if let Some(k) = self.chan_of(inst) {
            self.fault("gateway_disconnects");
            let (uid, to, ch) = (self.chans[k].uid, self.chans[k].control, self.chans[k].ch);
            self.close_chan(uid, "gateway closes");
            self.gw_send(to, wire::disc_req(ch, GW));
        }
    }
    /// A task of the instance sent or received a datagram: stalls that wait for it are due.
    fn arm(&mut self, tag: u32, inst: InstId, sent: bool, service: u16) {
        if self.arms.is_empty() {
            return;
        }
        let (now, quiet) = (self.now(), self.quiet());
        let (mut due, mut stalled) = (vec![], false);
        self.arms.retain(|step| match &self.plan.steps[*step].act {
            Action::StallAt { inst: i, send, svc, skip, .. } if *i == inst && *send == sent && *svc == service && !stalled && !quiet => {
                stalled = true;
                self.armed.push((tag, *skip, *step));
                false
            }
            Action::When { inst: i, send, svc, ms, act } if *i == inst && *send == sent && *svc == service => {
                let t = now + *ms as u64;
                if t < self.plan.quiet_at || matches!(**act, Action::Op { .. } | Action::Drop { .. } | Action::Bus(_)) {
                    due.push((t, *step));
                }
                false
            }
            _ => true,
        });
        for (t, step) in due {
            self.at(t, Task::Fire(step));
        }
    }
    fn enqueue(&mut self, uid: u64, item: OutItem) {
        if self.down {
            return;
        }
        if let Some(c) = self.chans.iter_mut().find(|c| c.uid == uid) {
            if c.queue.len() < 600 {
                c.queue.push_back(item);
            }
            self.pump(uid);
        }
    }

    fn pump(&mut self, uid: u64) {
        let Some(c) = self.chans.iter_mut().find(|c| c.uid == uid) else { return };
        if c.inflight.is_some() {
            return;
        }
        if let Some(item) = c.queue.pop_front() {
            c.inflight = Some((item, 0));
            self.transmit(uid);
        }
    }

    fn transmit(&mut self, uid: u64) {
        let now = self.now();
        let Some(c) = self.chans.iter().find(|c| c.uid == uid) else { return };
        let Some((item, attempt)) = &c.inflight else { return };
        let bytes = match item {
            OutItem::Cemi(b) => wire::tun_req(c.ch, c.tx_seq, b),
            OutItem::Feature(code, b) => wire::feature(*code, c.ch, c.tx_seq, b),
        };
        let (to, seq, attempt) = (c.data, c.tx_seq, *attempt);
        self.gw_send(to, bytes);
        self.at(now + 1000, Task::AckTimeout { uid, seq, attempt });
    }

    fn ack_timeout(&mut self, uid: u64, seq: u8, attempt: u32) {
        let Some(c) = self.chans.iter_mut().find(|c| c.uid == uid) else { return };
        if c.tx_seq != seq {
            return;
        }
        let Some(f) = &mut c.inflight else { return };
        if f.1 != attempt {
            return;
        }
        if f.1 == 0 {
            f.1 = 1;
            self.probe("gateway_repeated");
            self.transmit(uid);
        } else {
            let (to, ch) = (c.control, c.ch);
            self.probe("gateway_gave_up_on_ack");
            self.close_chan(uid, "no ack");
            self.gw_send(to, wire::disc_req(ch, GW));
        }
    }

    fn close_chan(&mut self, uid: u64, why: &'static str) {
        if let Some(k) = self.chans.iter().position(|c| c.uid == uid) {
            let c = self.chans.remove(k);
            self.rec(Ev::GwClosed { uid, ch: c.ch, why });
        }
    }

    fn dg_sock(&self, dg: u64) -> Option<u64> {
        self.dgs[dg as usize].from
    }

    /// The newest channel the gateway holds for an instance.
    fn chan_of(&self, inst: InstId) -> Option<usize> {
        self.chans.iter().rposition(|c| self.socks[c.sock as usize].inst == inst)
    }
    fn sock_of(&self, inst: InstId) -> Option<u64> {
        self.socks
            .iter()
            .rposition(|s| s.inst == inst && s.sock.strong_count() > 0)
            .map(|i| i as u64)
    }

    // ---------------------------------------------------------------- steps

    /// Steps that act on the world. Steps that act on the applications are handled by the driver.
    pub fn step(&mut self, idx: usize, act: Action) {
        let now = self.now();
        match act {
            Action::Bus(spec) => self.broadcast(spec.tel(), None),
            Action::Flood { .. } => {
                self.count("bus_flood");
                self.exec(Task::FloodTel { step: idx, k: 0 });
            }
            Action::StrayCon { inst, spec } => {
                if let Some(k) = self.chan_of(inst) {
                    self.fault("stray_confirmation");
                    let uid = self.chans[k].uid;
                    self.enqueue(uid, OutItem::Cemi(spec.tel().encode()));
                }
            }
            Action::WeirdCemi { inst, cemi } => {
                if let Some(k) = self.chan_of(inst) {
                    self.fault("weird_cemi");
                    let uid = self.chans[k].uid;
                    self.enqueue(uid, OutItem::Cemi(cemi));
                }
            }
            Action::FeatureInfo { inst, feature, value } => {
                if let Some(k) = self.chan_of(inst) {
                    let uid = self.chans[k].uid;
                    let mut b = vec![feature, 0];
                    b.extend(value);
                    self.enqueue(uid, OutItem::Feature(0x0425, b));
                }
            }
            Action::Inject { inst, spec } => self.inject(inst, spec),
            Action::Partition { ms, c2g, g2c } => {
                self.fault("partition");
                let t = (now + ms as u64).min(self.plan.quiet_at);
                if c2g {
                    self.part_c2g = self.part_c2g.max(t);
                }
                if g2c {
                    self.part_g2c = self.part_g2c.max(t);
                }
            }
            Action::LoseNext { dir, svc, n } => self.next_faults.push(NextFault {
                dir,
                svc,
                n,
                seq: None,
                kind: NextKind::Lose,
            }),
            Action::DelayNext { dir, svc, n, ms } => self.next_faults.push(NextFault {
                dir,
                svc,
                n,
                seq: None,
                kind: NextKind::Delay(ms),
            }),
            Action::DupNext { dir, svc, n, ms } => self.next_faults.push(NextFault {
                dir,
                svc,
                n,
                seq: None,
                kind: NextKind::Dup(ms),
            }),
            Action::SeqFault { dir, svc, seq, dup } => self.next_faults.push(NextFault {
                dir,
                svc,
                n: 1,
                seq: Some(seq),
                kind: match dup {
                    None => NextKind::Lose,
                    Some(ms) => NextKind::Dup(ms),
                },
            }),
            Action::BindErr { inst, n } => self.bind_errs.push((inst, n)),
            Action::RouteErr { inst, n } => self.route_errs.push((inst, n)),
            Action::Alien { inst, spec } => {
                let (Some(sock), Some(bytes)) = (self.sock_of(inst), self.craft(inst, spec)) else { return };
                if let Some(s) = self.socks[sock as usize].sock.upgrade() {
                    self.fault("datagram_from_a_stranger");
                    let dg = self.new_dg(bytes.clone(), true);
                    self.dgs[dg as usize].alien = true;
                    let from = SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 77), 3671);
                    let d = Datagram {
                        id: dg,
                        from: SocketAddr::V4(from),
                        bytes,
                    };
                    s.deliver(d, 0);
                }
            }
            Action::SendErr { inst, n, svc } => self.send_errs.push((inst, n, svc)),
            Action::Icmp { inst } => {
                if let Some(sock) = self.sock_of(inst) {
                    self.fault("icmp_error");
                    self.exec(Task::SockErr { sock });
                }
            }
            Action::GwCrash { down_ms, icmp } => {
                self.fault("gateway_crash");
                self.gen += 1;
                self.down = true;
                self.icmp = icmp;
                self.rec(Ev::GwDown);
                self.frozen.clear();
                self.frozen_until = 0;
                for c in std::mem::take(&mut self.chans) {
                    self.rec(Ev::GwClosed {
                        uid: c.uid,
                        ch: c.ch,
                        why: "crash",
                    });
                }
                // a restarted gateway numbers its channels from anywhere
                self.next_ch = (hash(self.plan.seed, 66, self.gen) % 255 + 1) as u8;
                let gen = self.gen;
                let up = (now + down_ms as u64).min(self.plan.quiet_at);
                self.at(up, Task::Restart { gen });
            }
            Action::GwFreeze { ms } => {
                self.fault("gateway_freeze");
                self.frozen_until = (now + ms as u64).min(self.plan.quiet_at);
                let t = self.frozen_until;
                self.at(t, Task::Thaw);
            }
            Action::GwRefuse { ms, code } => {
                self.fault("gateway_refuses");
                self.refuse_until = (now + ms as u64).min(self.plan.quiet_at);
                self.refuse_code = code;
            }
            Action::GwClose { inst } => self.gw_close(inst),
            Action::StallAt { .. } | Action::When { .. } => self.arms.push(idx),
            Action::GwStatusErr { code, n } => self.status_err = (code, n),
            Action::GwStatusMute { n } => self.status_mute = n,
            Action::GwConNeg { n } => self.con_neg += n,
            Action::GwConNone { n } => self.con_none += n,
            Action::GwConLate { n, ms } => self.con_late = (ms, n),
            Action::GwAckErr { n, code } => self.ack_err = (code, n),
            Action::AckStorm { inst, ms, .. } => {
                self.fault("ack_storm");
                let until = (now + ms as u64).min(self.plan.quiet_at);
                self.storm_until.insert(inst, until);
                self.exec(Task::Storm { step: idx, until });
            }
            Action::GwDiscMute { n } => self.disc_mute += n,
            Action::GwDiscStatus { code, n } => self.disc_status = (code, n),
            _ => {}
        }
    }

    fn inject(&mut self, inst: InstId, spec: Inject) {
        let (Some(sock), Some(bytes)) = (self.sock_of(inst), self.craft(inst, spec)) else { return };
        self.fault("hostile_datagram");
        let dg = self.new_dg(bytes, true);
        self.to_sock(sock, dg);
    }

    fn craft(&mut self, inst: InstId, spec: Inject) -> Option<Vec<u8>> {
        let (ch, tx, rx) = match self.chan_of(inst) {
            Some(k) => (self.chans[k].ch, self.chans[k].tx_seq, self.chans[k].rx_seq),
            None => (1, 0, 0),
        };
        let live = self.chan_of(inst).is_some();
        let off = |o: u8| {
            let c = ch.wrapping_add(o);
            if c == ch && o != 0 {
                ch.wrapping_add(1)
            } else {
                c
            }
        };
        let bytes = match spec {
            Inject::Bytes(b) => b,
            Inject::Tun {
                ch_off,
                seq_off,
                cemi,
                cut,
                len_delta,
            } => {
                if !live && ch_off == 0 {
                    return None;
                }
                // what is on its way already counts as received
                let late = ch_off == 0 && (1..10).contains(&seq_off) && self.chan_of(inst).map(|k| self.chans[k].inflight.is_some()).unwrap_or(false);
                let mut b = wire::tun_req(off(ch_off), tx.wrapping_add(seq_off).wrapping_add(late as u8), &cemi);
                if len_delta != 0 {
                    let l = (b.len() as i32 + len_delta as i32).clamp(0, 65535) as u16;
                    b[4..6].copy_from_slice(&l.to_be_bytes());
                }
                let n = b.len().saturating_sub(cut as usize);
                b.truncate(n);
                b
            }
            Inject::Foreign { svc, ch_off, status } => {
                let c = off(ch_off.max(1));
                match svc {
                    0x0208 => wire::state_resp(c, status),
                    0x0209 => wire::disc_req(c, GW),
                    0x020a => wire::disc_resp(c, status),
                    0x0421 => wire::tun_ack(c, tx, status),
                    _ => wire::raw(svc, &[c, status]),
                }
            }
            Inject::Own { svc, status } => {
                if !live {
                    return None;
                }
                match svc {
                    0x0208 => wire::state_resp(ch, status),
                    0x0209 => wire::disc_req(ch, GW),
                    _ => wire::disc_resp(ch, status),
                }
            }
            Inject::OwnBroken { svc, status, cut, at, val } => {
                if !live {
                    return None;
                }
                let mut b = match svc {
                    0x0208 => wire::state_resp(ch, status),
                    0x0209 => wire::disc_req(ch, GW),
                    0x0421 => wire::tun_ack(ch, rx, status),
                    _ => wire::disc_resp(ch, status),
                };
                if cut > 0 {
                    let n = b.len().saturating_sub(cut as usize);
                    b.truncate(n);
                } else {
                    b[(at & 1) as usize] = val;
                }
                if wire::decode(&b).is_some() {
                    return None;
                }
                b
            }
            Inject::OwnAck { seq_off, status } => {
                let seq = rx.wrapping_add(seq_off);
                let near = self.last_tx.get(&inst) == Some(&seq);
                if !live || (near && status == 0) {
                    return None;
                }
                wire::tun_ack(ch, seq, status)
            }
            Inject::StrayConnect { ch_off, status } => {
                let c = off(ch_off.max(1));
                if status == 0 {
                    wire::connect_resp_ok(c, GW, 0x11ff)
                } else {
                    wire::connect_resp_err(status)
                }
            }
        };
        Some(bytes)
    }

    pub fn add_bind_err(&mut self, inst: InstId) {
        self.bind_errs.push((inst, 1));
    }

    pub fn add_send_err(&mut self, inst: InstId, n: u32) {
        self.send_errs.push((inst, n, 0));
    }

    pub fn set_search(&mut self, inst: InstId, step: usize) {
        self.searches.insert(inst, step);
    }

    pub fn is_search(&self, inst: InstId) -> bool {
        inst >= SEARCH_BASE
    }
}

pub fn tag_of(inst: InstId, sub: u32) -> u32 {
    ((inst as u32 + 1) << 8) | (sub & 0xff)
}
pub fn inst_of(tag: u32) -> InstId {
    ((tag >> 8) as usize).wrapping_sub(1)
}

impl Host for Shared {
    fn disturb(&self, tag: u32, site: Site) -> Disturb {
        if tag == 0 {
            return Disturb::None;
        }
        let mut w = self.lock();
        let r = w.plan.rates.clone();
        let quiet = w.quiet();
        if !w.armed.is_empty() && matches!(site, Site::Lock | Site::SockSend) {
            if let Some(k) = w.armed.iter().position(|a| a.0 == tag) {
                if w.armed[k].1 > 0 {
                    w.armed[k].1 -= 1;
                } else {
                    let (_, _, step) = w.armed.remove(k);
                    if let (false, Action::StallAt { inst, ms, close, .. }) = (quiet, w.plan.steps[step].act.clone()) {
                        w.fault("targeted_stall");
                        w.rec(Ev::Stall { tag, ms });
                        if close {
                            let now = w.now();
                            w.at(now, Task::Close { inst });
                            self.wake.notify_one();
                        }
                        return Disturb::StallMs(ms);
                    }
                }
            }
        }
        let v = w.decide(S_SCHED, |h, _| {
            let y = if site == Site::Poll { r.poll_yield } else { r.site_yield } as u64;
            let h2 = mix(h ^ 9);
            if h % 10000 < y {
                return 1 + (h2 % 4) as u32;
            }
            let stallable = site == Site::Poll || site == Site::SockSend || site == Site::Lock;
            if stallable && !quiet && mix(h ^ 10) % 10000 < r.stall as u64 {
                return 1000 + 1 + (h2 % r.stall_ms.max(1) as u64) as u32;
            }
            0
        });
        w.sched_hash = mix(w.sched_hash ^ (tag as u64) << 32 ^ v as u64);
        if v == 0 {
            Disturb::None
        } else if v < 1000 {
            w.count("task_preempted");
            Disturb::Yields(v)
        } else {
            w.count("task_stalled");
            let ms = v - 1000;
            w.rec(Ev::Stall { tag, ms });
            Disturb::StallMs(ms)
        }
    }

    fn polled(&self, tag: u32) -> bool {
        let mut w = self.lock();
        if w.over {
            return false;
        }
        w.polls += 1;
        let now = w.now();
        crate::clock::set_now_ms(now);
        if w.polls_at != now {
            w.polls_at = now;
            w.polls_here = 0;
        }
        w.polls_here += 1;
        if w.polls_here > 100_000 || w.hist.len() > 400_000 {
            w.rec(Ev::Livelock { tag });
            w.over = true;
            drop(w);
            self.wake.notify_one();
            return false;
        }
        true
    }

    fn spawned(&self, tag: u32) {
        let mut w = self.lock();
        w.rec(Ev::TaskUp { inst: inst_of(tag) });
    }

    fn ended(&self, tag: u32) {
        let mut w = self.lock();
        w.rec(Ev::TaskDown { inst: inst_of(tag) });
    }

    fn connect(&self, sock: &Arc<Sock>) -> io::Result<()> {
        let mut w = self.lock();
        let me = w.socks[sock.id() as usize].inst;
        if let Some(k) = w.route_errs.iter().position(|e| e.0 == me && e.1 > 0) {
            w.route_errs[k].1 -= 1;
            w.count("route_error");
            w.rec(Ev::RouteErr { inst: me });
            return Err(io::Error::new(io::ErrorKind::NetworkUnreachable, "simulated"));
        }
        Ok(())
    }

    fn bind(&self, tag: u32, sock: &Arc<Sock>, _want: SocketAddr) -> io::Result<SocketAddr> {
        let mut w = self.lock();
        let me = inst_of(tag);
        if let Some(k) = w.bind_errs.iter().position(|e| e.0 == me && e.1 > 0) {
            w.bind_errs[k].1 -= 1;
            w.count("bind_error");
            w.rec(Ev::BindErr { inst: me });
            return Err(io::Error::new(io::ErrorKind::AddrNotAvailable, "simulated"));
        }
        let id = w.socks.len() as u64;
        sock.id.store(id, Ordering::Relaxed);
        let port = w.next_port;
        w.next_port += 1;
        let inst = inst_of(tag);
        w.socks.push(SockInfo {
            inst,
            port,
            sock: Arc::downgrade(sock),
        });
        w.by_port.insert(port, id);
        w.rec(Ev::Bind { sock: id, inst });
        Ok(SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, port)))
    }

    fn send(&self, sock: &Arc<Sock>, to: SocketAddr, buf: &[u8]) -> io::Result<usize> {
        let mut w = self.lock();
        let id = sock.id();
        let inst = w.socks[id as usize].inst;
        let svc = if buf.len() >= 4 { u16::from_be_bytes([buf[2], buf[3]]) } else { 0 };
        if let Some(k) = w.send_errs.iter().position(|e| e.0 == inst && e.1 > 0 && (e.2 == 0 || e.2 == svc)) {
            if w.now() < w.plan.quiet_at {
                w.send_errs[k].1 -= 1;
                w.count("send_error");
                w.rec(Ev::SendErr { sock: id, svc });
                return Err(io::Error::new(io::ErrorKind::HostUnreachable, "simulated"));
            }
        }
        if matches!(svc, 0x0420 | 0x0424) && buf.len() > 8 {
            w.last_tx.insert(inst, buf[8]);
        }
        let dg = w.new_dg(buf.to_vec(), false);
        w.dgs[dg as usize].from = Some(id);
        w.dgs[dg as usize].dest = Some(to);
        w.rec(Ev::Sent { sock: id, dg });
        w.arm(sim::current_tag(), inst, true, svc);
        match to {
            SocketAddr::V4(a) if a == GW || a == MCAST => w.to_gw(dg),
            _ => w.rec(Ev::Lost { dg, why: "wrong address" }),
        }
        drop(w);
        self.wake.notify_one();
        Ok(buf.len())
    }

    fn received(&self, sock: &Sock, dg: u64) {
        let mut w = self.lock();
        w.rec(Ev::Recv { sock: sock.id(), dg });
        if !w.arms.is_empty() {
            let b = &w.dgs[dg as usize].bytes;
            let svc = if b.len() >= 4 { u16::from_be_bytes([b[2], b[3]]) } else { 0 };
            let inst = w.socks[sock.id() as usize].inst;
            w.arm(sim::current_tag(), inst, false, svc);
            drop(w);
            self.wake.notify_one();
        }
    }

    fn received_err(&self, sock: &Sock, _kind: io::ErrorKind) {
        let mut w = self.lock();
        w.rec(Ev::RecvErr { sock: sock.id() });
    }

    fn closed(&self, sock: &Sock) {
        let mut w = self.lock();
        let id = sock.id();
        w.rec(Ev::Closed { sock: id });
    }
}
