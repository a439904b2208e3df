//! Judges a finished run from its recorded history: what went in and out of the sockets, what the
//! calls returned and when, what reached the bus. Nothing here looks inside the code under test.

use crate::app::RunResult;
use crate::plan::*;
use crate::wire::{self, Frame, Tel};
use crate::world::*;
use std::collections::BTreeMap;
use std::net::SocketAddr;

pub const N: usize = 24;

#[derive(Clone, Debug)]
pub struct Viol {
    /// 1 for C01 and so on.
    pub prop: usize,
    /// The rule that failed: stable across seeds.
    pub rule: &'static str,
    pub t: u64,
    pub text: String,
}

#[derive(Default)]
pub struct Report {
    pub viol: Vec<Viol>,
    /// Times each property's antecedent was met and judged.
    pub evals: [u64; N + 1],
    /// The same by rule.
    pub rules: BTreeMap<(usize, &'static str), u64>,
}

impl Report {
    fn ev(&mut self, p: usize, rule: &'static str) {
        self.evals[p] += 1;
        *self.rules.entry((p, rule)).or_insert(0) += 1;
    }
    fn bad(&mut self, p: usize, rule: &'static str, t: u64, text: String) {
        self.viol.push(Viol { prop: p, rule, t, text });
    }
    fn judge(&mut self, p: usize, rule: &'static str, ok: bool, t: u64, text: impl FnOnce() -> String) {
        self.ev(p, rule);
        if !ok {
            let s = text();
            self.bad(p, rule, t, s);
        }
    }
}

struct Fr {
    i: usize,
    t: u64,
    f: Option<Frame>,
    bytes: Vec<u8>,
    dest: Option<SocketAddr>,
    sock: u64,
}

struct OpV {
    kind: OpKind,
    t0: u64,
    i0: usize,
    t1: u64,
    i1: usize,
    /// None: still running when the run ended.
    out: Option<Out>,
}

impl OpV {
    fn key(&self) -> Option<Key> {
        match &self.kind {
            OpKind::Read { addr, .. } | OpKind::Solicit { addr, .. } => Some((wire::APCI_READ, *addr, vec![0])),
            OpKind::Write { addr, value, small, .. } => {
                if !encodable(value, *small) {
                    return None;
                }
                Some((wire::APCI_WRITE, *addr, if *small { vec![0xff, value[0] & 0x3f] } else { tag_value(value) }))
            }
            _ => None,
        }
    }
    fn cancelled(&self) -> bool {
        self.out == Some(Out::Cancelled)
    }
    fn err(&self) -> bool {
        matches!(self.out, Some(Out::Err(_)))
    }
    fn ok(&self) -> bool {
        self.out.as_ref().map(|o| o.is_ok()).unwrap_or(false)
    }
}

/// (APCI, destination, value with a marker for the six-bit form)
type Key = (u8, u16, Vec<u8>);

fn tag_value(v: &[u8]) -> Vec<u8> {
    let mut x = vec![0xfe];
    x.extend_from_slice(v);
    x
}
pub fn encodable(value: &[u8], small: bool) -> bool {
    if small {
        !value.is_empty()
    } else {
        value.len() <= 253
    }
}
fn tel_key(t: &Tel) -> Key {
    if t.apci == wire::APCI_READ {
        (t.apci, t.dest, vec![0])
    } else if t.small {
        (t.apci, t.dest, vec![0xff, t.value[0]])
    } else {
        (t.apci, t.dest, tag_value(&t.value))
    }
}

struct Epoch {
    ch: u8,
    t: u64,
    i: usize,
    /// The moment the client asked for the next tunnel, or the end of the run.
    end_t: u64,
    end_i: usize,
    replaced: bool,
    /// The moment the client itself gave it up, if it said so.
    quit_t: Option<u64>,
}

impl Epoch {
    /// Neither given up nor replaced at `t`.
    fn whole(&self, t: u64) -> bool {
        self.end_t > t && self.quit_t.map(|q| q > t).unwrap_or(true)
    }
}

/// A telegram the client took over: in sequence and acknowledged (or perhaps taken over).
struct Item {
    t: u64,
    i: usize,
    cemi: Vec<u8>,
    tel: Option<Tel>,
    acked: bool,
}

/// A numbered request of the client.
struct Req {
    t: u64,
    i: usize,
    seq: u8,
    bytes: Vec<u8>,
    /// None for a feature request.
    key: Option<Key>,
    ack: Option<u64>,
    repeat: Option<u64>,
    epoch: usize,
}

struct View {
    inst: InstId,
    kind: Kind,
    sent: Vec<Fr>,
    recv: Vec<Fr>,
    send_err: Vec<(u64, usize, u16)>,
    recv_err: Vec<(u64, usize)>,
    closed: Vec<(u64, u64)>,
    socks: Vec<u64>,
    released: Option<u64>,
    stalls: Vec<(u64, u64)>,
    ops: Vec<OpV>,
    epochs: Vec<Epoch>,
    connects: Vec<(u64, usize)>,
    got: Vec<(u64, usize, Msg)>,
    got_err: Vec<u64>,
    waits: Vec<u64>,
    consumer: Vec<(u64, bool)>,
    listeners: BTreeMap<usize, Lst>,
    disc_start: Option<u64>,
    end: u64,
}

#[derive(Default)]
struct Lst {
    add: u64,
    drain: bool,
    cap: usize,
    gone: Option<u64>,
    /// When it did not read.
    pause: Option<(u64, u64)>,
    notes: Vec<u64>,
}

impl View {
    fn slack(&self, a: u64, b: u64) -> u64 {
        let mut s = 0;
        for _ in 0..3 {
            let (lo, hi) = (a.saturating_sub(s), b + s);
            let n: u64 = self
                .stalls
                .iter()
                .filter(|(t, ms)| *t <= hi && *t + *ms >= lo)
                .map(|(_, ms)| *ms)
                .sum();
            if n == s {
                break;
            }
            s = n;
        }
        s + 100
    }
    fn epoch_at(&self, i: usize) -> Option<usize> {
        self.epochs.iter().rposition(|e| e.i < i && i < e.end_i)
    }
    /// A caller that was held up may still believe in the tunnel before this one.
    fn just_lost(&self, ch: u8, t: u64) -> bool {
        self.epochs
            .iter()
            .any(|e| e.ch == ch && e.t <= t && e.end_t <= t && e.end_t + self.slack(e.end_t, t) >= t)
    }
    fn last_epoch_before(&self, i: usize) -> Option<usize> {
        self.epochs.iter().rposition(|e| e.i < i)
    }
    /// The handle is given up or being given up by the application at `t`.
    fn leaving(&self, t: u64) -> bool {
        self.released.map(|r| r <= t).unwrap_or(false) || self.disc_start.map(|d| d <= t).unwrap_or(false)
    }
    fn send_err_in(&self, a: u64, b: u64) -> bool {
        self.send_err.iter().any(|e| e.0 >= a && e.0 <= b)
    }
    fn trouble_in(&self, a: u64, b: u64) -> bool {
        self.send_err_in(a, b) || self.recv_err.iter().any(|e| e.0 >= a && e.0 <= b)
    }
    fn connect_in(&self, a: u64, b: u64) -> bool {
        self.connects.iter().any(|c| c.0 >= a && c.0 <= b)
            || self.send_err.iter().any(|e| e.2 == 0x0205 && e.0 >= a && e.0 <= b)
    }
    /// Was the consumer reading (not paused) during the whole of [a,b]?
    fn consuming(&self, a: u64, b: u64) -> bool {
        let mut state = false;
        let mut ok = false;
        let mut seen = false;
        for (t, run) in &self.consumer {
            if *t <= a {
                state = *run;
            } else if *t <= b && !*run {
                return false;
            }
            seen = true;
        }
        if seen && state {
            ok = true;
        }
        ok && self.released.map(|r| r > b).unwrap_or(true)
    }
}

fn views(r: &RunResult) -> Vec<View> {
    let end = r.sim_ms;
    let mut vs: Vec<View> = r
        .plan
        .insts
        .iter()
        .enumerate()
        .map(|(inst, s)| View {
            inst,
            kind: s.kind,
            sent: vec![],
            recv: vec![],
            send_err: vec![],
            recv_err: vec![],
            closed: vec![],
            socks: vec![],
            released: None,
            stalls: vec![],
            ops: vec![],
            epochs: vec![],
            connects: vec![],
            got: vec![],
            got_err: vec![],
            waits: vec![],
            consumer: vec![],
            listeners: BTreeMap::new(),
            disc_start: None,
            end,
        })
        .collect();
    let mut op_at: BTreeMap<usize, (InstId, usize)> = BTreeMap::new();
    let of = |sock: u64| r.socks[sock as usize].0;
    for (i, rec) in r.hist.iter().enumerate() {
        let t = rec.t;
        match &rec.ev {
            Ev::Bind { sock, inst } => {
                if let Some(v) = vs.get_mut(*inst) {
                    v.socks.push(*sock);
                }
            }
            Ev::Sent { sock, dg } | Ev::Recv { sock, dg } => {
                if let Some(v) = vs.get_mut(of(*sock)) {
                    let d = &r.dgs[*dg as usize];
                    if d.alien {
                        continue; // to the client it is as if it had not come
                    }
                    let fr = Fr {
                        i,
                        t,
                        f: wire::decode(&d.bytes),
                        bytes: d.bytes.clone(),
                        dest: d.dest,
                        sock: *sock,
                    };
                    if matches!(rec.ev, Ev::Sent { .. }) {
                        v.sent.push(fr);
                    } else {
                        v.recv.push(fr);
                    }
                }
            }
            Ev::SendErr { sock, svc } => {
                if let Some(v) = vs.get_mut(of(*sock)) {
                    v.send_err.push((t, i, *svc));
                }
            }
            Ev::RecvErr { sock } => {
                if let Some(v) = vs.get_mut(of(*sock)) {
                    v.recv_err.push((t, i));
                }
            }
            Ev::Closed { sock } => {
                if let Some(v) = vs.get_mut(of(*sock)) {
                    v.closed.push((*sock, t));
                }
            }
            Ev::OpStart { op, inst, kind } => {
                let v = &mut vs[*inst];
                op_at.insert(*op, (*inst, v.ops.len()));
                if *kind == OpKind::Disconnect && v.disc_start.is_none() {
                    v.disc_start = Some(t);
                }
                v.ops.push(OpV {
                    kind: kind.clone(),
                    t0: t,
                    i0: i,
                    t1: end,
                    i1: usize::MAX,
                    out: None,
                });
            }
            Ev::OpEnd { op, out } => {
                if let Some((inst, k)) = op_at.get(op) {
                    let o = &mut vs[*inst].ops[*k];
                    o.t1 = t;
                    o.i1 = i;
                    o.out = Some(out.clone());
                }
            }
            Ev::Got { inst, msg } => vs[*inst].got.push((t, i, msg.clone())),
            Ev::GotErr { inst } => vs[*inst].got_err.push(t),
            Ev::WaitStart { inst } => vs[*inst].waits.push(t),
            Ev::Consumer { inst, run } => vs[*inst].consumer.push((t, *run)),
            Ev::ListenerAdd { inst, l, drain, cap } => {
                vs[*inst].listeners.insert(
                    *l,
                    Lst {
                        add: t,
                        drain: *drain,
                        cap: *cap,
                        gone: None,
                        pause: None,
                        notes: vec![],
                    },
                );
            }
            Ev::ListenerPause { inst, l, on } => {
                if let Some(x) = vs[*inst].listeners.get_mut(l) {
                    if *on {
                        x.pause = Some((t, end));
                    } else if let Some(p) = &mut x.pause {
                        p.1 = t;
                    }
                }
            }
            Ev::ListenerGone { inst, l } => {
                if let Some(x) = vs[*inst].listeners.get_mut(l) {
                    x.gone = Some(t);
                }
            }
            Ev::Notified { inst, l } => {
                if let Some(x) = vs[*inst].listeners.get_mut(l) {
                    x.notes.push(t);
                }
            }
            Ev::Released { inst } => vs[*inst].released = Some(t),
            Ev::Stall { tag, ms } => {
                let inst = inst_of(*tag);
                if let Some(v) = vs.get_mut(inst) {
                    v.stalls.push((t, *ms as u64));
                }
            }
            _ => {}
        }
    }
    for v in &mut vs {
        // tunnels, as the two sides' datagrams show them
        let mut connecting = false;
        let (mut a, mut b) = (0, 0);
        while a < v.sent.len() || b < v.recv.len() {
            let take_sent = b >= v.recv.len() || (a < v.sent.len() && v.sent[a].i < v.recv[b].i);
            if take_sent {
                let fr = &v.sent[a];
                a += 1;
                if let Some(Frame::ConnectReq { .. }) = fr.f {
                    if let Some(e) = v.epochs.last_mut() {
                        if e.end_i == usize::MAX {
                            e.end_i = fr.i;
                            e.end_t = fr.t;
                            e.replaced = true;
                        }
                    }
                    connecting = true;
                    v.connects.push((fr.t, fr.i));
                }
                if let Some(Frame::DiscReq { ch, .. }) = fr.f {
                    if let Some(e) = v.epochs.last_mut() {
                        if e.end_i == usize::MAX && e.ch == ch && e.quit_t.is_none() {
                            e.quit_t = Some(fr.t);
                        }
                    }
                }
            } else {
                let fr = &v.recv[b];
                b += 1;
                if let Some(Frame::ConnectResp { ch, status, rest }) = &fr.f {
                    if connecting {
                        if *status == 0 && rest.len() >= 12 {
                            v.epochs.push(Epoch {
                                ch: *ch,
                                t: fr.t,
                                i: fr.i,
                                end_t: end,
                                end_i: usize::MAX,
                                replaced: false,
                                quit_t: None,
                            });
                            connecting = false;
                        } else if *status != 0 {
                            connecting = false;
                        }
                    }
                }
            }
        }
    }
    vs
}

/// The client's numbered requests, with their acknowledgements. Reports sequencing violations.
fn requests(v: &View, rep: &mut Report) -> Vec<Req> {
    let mut out: Vec<Req> = vec![];
    let mut next: u8 = 0;
    let mut cur: Option<usize> = None;
    for fr in &v.sent {
        let (ch, seq, key) = match &fr.f {
            Some(Frame::TunReq { ch, seq, cemi, .. }) => (*ch, *seq, Tel::decode(cemi).map(|t| tel_key(&t))),
            Some(Frame::Feature { code: 0x0424, ch, seq, .. }) => (*ch, *seq, None),
            _ => continue,
        };
        let Some(e) = v.epoch_at(fr.i) else {
            rep.ev(4, "on a tunnel");
            rep.bad(
                4,
                "on a tunnel",
                fr.t,
                format!("{:?} {} sent a numbered request while it had no tunnel: {}", v.kind, v.inst, wire::hex(&fr.bytes)),
            );
            continue;
        };
        if cur != Some(e) {
            cur = Some(e);
            next = 0;
        }
        rep.judge(4, "own channel", ch == v.epochs[e].ch, fr.t, || {
            format!(
                "{:?} {} sent a numbered request on channel {} while its tunnel is channel {}",
                v.kind, v.inst, ch, v.epochs[e].ch
            )
        });
        if ch != v.epochs[e].ch {
            continue;
        }
        if seq == next {
            rep.ev(4, "sequence");
            next = next.wrapping_add(1);
            out.push(Req {
                t: fr.t,
                i: fr.i,
                seq,
                bytes: fr.bytes.clone(),
                key,
                ack: None,
                repeat: None,
                epoch: e,
            });
            continue;
        }
        let last = out.last_mut().filter(|l| l.epoch == e && l.seq == seq && l.bytes == fr.bytes);
        match last {
            Some(l) => {
                rep.judge(4, "one repeat", l.repeat.is_none(), fr.t, || {
                    format!("{:?} {} repeated request {} more than once", v.kind, v.inst, seq)
                });
                rep.judge(4, "repeat after one second", fr.t >= l.t + 900, fr.t, || {
                    format!("{:?} {} repeated request {} only {} ms after it", v.kind, v.inst, seq, fr.t - l.t)
                });
                l.repeat = Some(fr.t);
            }
            None => {
                rep.ev(4, "sequence");
                rep.bad(
                    4,
                    "sequence",
                    fr.t,
                    format!(
                        "{:?} {} sent a request with sequence number {} on channel {} where {} was due",
                        v.kind, v.inst, seq, ch, next
                    ),
                );
                next = seq.wrapping_add(1);
                out.push(Req {
                    t: fr.t,
                    i: fr.i,
                    seq,
                    bytes: fr.bytes.clone(),
                    key,
                    ack: None,
                    repeat: None,
                    epoch: e,
                });
            }
        }
    }
    for q in &mut out {
        let e = &v.epochs[q.epoch];
        let lim = q.t + 60_000; // sequence numbers come round again
        q.ack = v
            .recv
            .iter()
            .find(|f| {
                f.i > q.i
                    && f.i < e.end_i
                    && f.t < lim
                    && matches!(&f.f, Some(Frame::TunAck { ch, seq, status: 0 }) if *ch == e.ch && *seq == q.seq)
            })
            .map(|f| f.t);
    }
    out
}

fn check_repeats(v: &View, reqs: &[Req], rep: &mut Report) {
    for q in reqs {
        let e = &v.epochs[q.epoch];
        if let (Some(a), Some(r)) = (q.ack, q.repeat) {
            let s = v.slack(a, r);
            rep.judge(4, "no repeat once acknowledged", a + 400 + s > r, r, || {
                format!(
                    "{:?} {} repeated request {} at {} although it was acknowledged at {}",
                    v.kind, v.inst, q.seq, r, a
                )
            });
        }
        if q.key.is_none() {
            continue; // only telegrams must be repeated
        }
        let s = v.slack(q.t, q.t + 3500);
        let by = q.t + 1500 + s;
        let unacked = |t: u64| q.ack.map(|a| a > t).unwrap_or(true);
        let cancelled = v.ops.iter().any(|o| o.cancelled() && o.t1 >= q.t && o.t1 <= by && o.t0 <= q.t);
        let interrupted = v.leaving(by) || v.trouble_in(q.t, by) || cancelled || v.end < by || e.end_t < by;
        if unacked(by) && !interrupted {
            // the tunnel may be known dead before the second is over
            let dead = v.recv.iter().any(|f| f.i > e.i && f.i < e.end_i && f.t <= by && death(f, e.ch));
            if !dead {
                rep.judge(4, "unacknowledged request repeated", q.repeat.map(|r| r <= by).unwrap_or(false), by, || {
                    format!(
                        "{:?} {} sent request {} at {}, saw no acknowledgement and did not repeat it",
                        v.kind, v.inst, q.seq, q.t
                    )
                });
            }
        }
        let s = v.slack(q.t, q.t + 12_000);
        let by = q.t + 8_000 + s;
        let cancelled = v.ops.iter().any(|o| o.cancelled() && o.t1 >= q.t && o.t1 <= q.t + 3000 + s && o.t0 <= q.t);
        let interrupted = v.leaving(by) || v.trouble_in(q.t, by) || cancelled || v.end < by;
        if unacked(by) && !interrupted {
            rep.judge(4, "dead tunnel replaced", v.connect_in(q.t, by), by, || {
                format!(
                    "{:?} {} got no acknowledgement for request {} of {} and kept the tunnel",
                    v.kind, v.inst, q.seq, q.t
                )
            });
        }
    }
}

/// A datagram that ends this tunnel.
fn death(f: &Fr, own: u8) -> bool {
    matches!(&f.f, Some(Frame::DiscReq { ch, .. }) if *ch == own)
        || matches!(&f.f, Some(Frame::StateResp { ch, status }) if *ch == own && *status != 0)
}

/// Acknowledgements and what was accepted.
fn acceptance(v: &View, rep: &mut Report, stuck_is_c15: bool) -> Vec<Item> {
    let mut items: Vec<Item> = vec![];
    // telegrams accepted and not yet read when event i of the history happened
    let unread_at = |i: usize, items: &[Item]| -> usize {
        let n = items.iter().filter(|x| x.tel.is_some() && x.i < i).count();
        let g = v.got.iter().filter(|g| g.1 < i).count();
        n.saturating_sub(g)
    };
    for (ei, e) in v.epochs.iter().enumerate() {
        let mut exp: u8 = 0;
        // (time, index, seq, cemi, fresh)
        struct P {
            t: u64,
            i: usize,
            seq: u8,
            cemi: Option<Vec<u8>>,
            fresh: bool,
            acked: bool,
        }
        let mut pend: Vec<P> = vec![];
        let recv: Vec<&Fr> = v.recv.iter().filter(|f| f.i > e.i && f.i < e.end_i).collect();
        let acks: Vec<(&Fr, u8, u8)> = v
            .sent
            .iter()
            .filter_map(|f| match f.f {
                Some(Frame::TunAck { ch, seq, .. }) if v.last_epoch_before(f.i) == Some(ei) => Some((f, ch, seq)),
                _ => None,
            })
            .collect();
        let (mut a, mut b) = (0, 0);
        while a < acks.len() || b < recv.len() {
            let ack_first = b >= recv.len() || (a < acks.len() && acks[a].0.i < recv[b].i);
            if ack_first {
                let (fr, ch, seq) = acks[a];
                a += 1;
                // the newest one, if it is due: an older one may have been left to be repeated
                let hit = if ch == e.ch {
                    pend.iter()
                        .rposition(|p| !p.acked && p.seq == seq && p.fresh && seq == exp)
                        .or_else(|| pend.iter().rposition(|p| !p.acked && p.seq == seq))
                } else {
                    None
                };
                rep.judge(5, "only what is due is acknowledged", hit.is_some(), fr.t, || {
                    format!(
                        "{:?} {} acknowledged channel {} sequence {} (its tunnel: channel {}, due {})",
                        v.kind, v.inst, ch, seq, e.ch, exp
                    )
                });
                let fine = matches!(fr.f, Some(Frame::TunAck { status: 0, .. }));
                rep.judge(5, "acknowledged without error", fine, fr.t, || {
                    format!("{:?} {} refused sequence {}: {}", v.kind, v.inst, seq, wire::hex(&fr.bytes))
                });
                if let Some(h) = hit {
                    pend[h].acked = true;
                    if pend[h].fresh && seq == exp {
                        exp = exp.wrapping_add(1);
                        if let Some(c) = pend[h].cemi.clone() {
                            items.push(Item {
                                t: pend[h].t,
                                i: pend[h].i,
                                tel: Tel::decode(&c),
                                cemi: c,
                                acked: true,
                            });
                        }
                        for p in pend.iter_mut() {
                            if p.seq == seq {
                                p.fresh = false;
                            }
                        }
                    }
                }
            } else {
                let fr = recv[b];
                b += 1;
                let (ch, seq, cemi) = match &fr.f {
                    Some(Frame::TunReq { ch, seq, cemi, .. }) => (*ch, *seq, Some(cemi.clone())),
                    Some(Frame::Feature { code: 0x0423 | 0x0425, ch, seq, .. }) => (*ch, *seq, None),
                    _ => continue,
                };
                if ch != e.ch {
                    continue;
                }
                if seq == exp || seq == exp.wrapping_sub(1) {
                    pend.push(P {
                        t: fr.t,
                        i: fr.i,
                        seq,
                        cemi,
                        fresh: seq == exp,
                        acked: false,
                    });
                }
            }
        }
        for p in &pend {
            let s = v.slack(p.t, p.t + 1000);
            let by = p.t + 1000 + s;
            let excused = v.leaving(by)
                || v.trouble_in(p.t, by)
                || v.end < by
                || e.end_t < by
                || recv.iter().any(|f| f.t <= by && death(f, e.ch))
                || (v.kind == Kind::Monitor && unread_at(p.i, &items) >= 90);
            if p.acked {
                rep.ev(5, "acknowledged");
                let at = acks.iter().find(|x| x.2 == p.seq && x.0.i > p.i).map(|x| x.0.t).unwrap_or(0);
                if at > by && !excused {
                    rep.bad(5, "acknowledged", at, format!("{:?} {} acknowledged telegram {} after {} ms", v.kind, v.inst, p.seq, at - p.t));
                }
            } else if !excused {
                rep.ev(5, "acknowledged");
                let text = format!(
                    "{:?} {} did not acknowledge telegram {} on channel {} received at {}",
                    v.kind, v.inst, p.seq, e.ch, p.t
                );
                if stuck_is_c15 {
                    rep.bad(15, "slow listener stalls", by, text.clone());
                }
                rep.bad(5, "acknowledged", by, text);
            }
            if !p.acked && p.fresh {
                if let Some(c) = &p.cemi {
                    items.push(Item {
                        t: p.t,
                        i: p.i,
                        tel: Tel::decode(c),
                        cemi: c.clone(),
                        acked: false,
                    });
                }
            }
        }
    }
    items.sort_by_key(|x| x.i);
    items
}

fn same_msg(m: &Msg, c: &[u8], t: &Tel) -> bool {
    let si_at = 2 + t.addinfo.len();
    let mut infos = vec![];
    let mut k = 0;
    while k + 1 < t.addinfo.len() {
        let n = t.addinfo[k + 1] as usize;
        infos.push((t.addinfo[k], t.addinfo[k + 2..k + 2 + n].to_vec()));
        k += 2 + n;
    }
    let flags = [0x80u8, 0x20, 0x10, 0x02].map(|b| t.ctrl1 & b != 0);
    m.flags == flags && m.code == c[0] && m.service_info == c[si_at..] && m.src == t.src && m.dest == t.dest && m.value == t.value && m.addinfo == infos
}

fn check_delivery(v: &View, items: &[Item], rep: &mut Report, plan: &Plan) {
    if v.kind != Kind::Monitor {
        return;
    }
    let wanted: Vec<&Item> = items
        .iter()
        .filter(|x| !x.cemi.is_empty() && (x.cemi[0] == wire::L_IND || x.cemi[0] == wire::L_BUSMON))
        .collect();
    let mandatory = |x: &Item| x.acked && known_infos(x) && x.tel.is_some();
    // where the reader may stand: telegrams that were not acknowledged may or may not have been
    // accepted, and equal telegrams cannot be told apart
    let mut at: Vec<usize> = vec![0];
    let mut lost_reported = false;
    for (t, i, m) in &v.got {
        let mut next: Vec<usize> = vec![];
        for p in &at {
            for (j, x) in wanted.iter().enumerate().skip(*p) {
                if x.i > *i {
                    break;
                }
                let ok = match &x.tel {
                    Some(tel) => same_msg(m, &x.cemi, tel),
                    None => m.service_info.len() >= 9 && x.cemi.ends_with(&m.service_info),
                };
                if ok && !next.contains(&(j + 1)) {
                    next.push(j + 1);
                }
                if mandatory(x) {
                    break;
                }
            }
        }
        rep.judge(6, "delivered once, in order, unaltered", !next.is_empty(), *t, || {
            let p = *at.iter().max().unwrap();
            let due = wanted.iter().skip(p).find(|x| mandatory(x) && x.i < *i);
            format!(
                "monitor {} handed out {:02x?} (source {:04x}, destination {:04x}, value {:02x?}); due was {:02x?}",
                v.inst,
                m.service_info,
                m.src,
                m.dest,
                m.value,
                due.map(|x| x.cemi.clone())
            )
        });
        if next.is_empty() {
            lost_reported = true;
            // resynchronise on the handed out one, if it is anywhere ahead
            let p = *at.iter().min().unwrap();
            if let Some(j) = wanted
                .iter()
                .enumerate()
                .skip(p)
                .find(|(_, x)| x.i < *i && x.tel.as_ref().map(|tel| same_msg(m, &x.cemi, tel)).unwrap_or(false))
                .map(|(j, _)| j)
            {
                at = vec![j + 1];
            }
        } else {
            at = next;
        }
    }
    let p = *at.iter().max().unwrap();
    let lenient = items.iter().filter(|x| x.tel.is_none() || !known_infos(x)).count();
    let closed = v.disc_start.is_some();
    if !closed {
        let errs = v.got_err.len();
        rep.judge(6, "no error while open", errs <= lenient, *v.got_err.last().unwrap_or(&0), || {
            format!("monitor {}: waiting for telegrams failed {} times, undecodable telegrams: {}", v.inst, errs, lenient)
        });
    }
    // everything accepted is handed out in the end
    let margin = 12_000 + plan.insts[v.inst].think_ms as u64 * 130;
    if v.end > margin && v.consuming(v.end - margin, v.end) && !closed && !lost_reported {
        for x in wanted.iter().skip(p) {
            if !mandatory(x) {
                continue;
            }
            let s = v.slack(x.t, v.end);
            if x.t + margin + s < v.end {
                rep.judge(6, "acknowledged, so handed out", false, v.end, || {
                    format!("monitor {} acknowledged {} (received at {}) and never handed it out", v.inst, wire::hex(&x.cemi), x.t)
                });
                break;
            }
        }
        rep.ev(6, "acknowledged, so handed out");
    }
}

fn known_infos(x: &Item) -> bool {
    let Some(t) = &x.tel else { return false };
    let mut k = 0;
    while k + 1 < t.addinfo.len() {
        if !(1..=10).contains(&t.addinfo[k]) && t.addinfo[k] != 0xfe {
            return false;
        }
        k += 2 + t.addinfo[k + 1] as usize;
    }
    true
}

pub fn judge(r: &RunResult) -> Report {
    let mut rep = Report::default();
    let plan = &r.plan;
    let vs = views(r);
    let end = r.sim_ms;

    // ------------------------------------------------------------ C10 / C14 / C03: nothing blows up
    let mut livelock = false;
    for rec in &r.hist {
        match &rec.ev {
            Ev::Livelock { tag } => {
                livelock = true;
                for p in [10, 7] {
                    rep.bad(p, "no livelock", rec.t, format!("task {:x} spins without time passing", tag));
                }
            }
            Ev::Panic { tag, text } => {
                let inst = inst_of(*tag);
                if inst >= SEARCH_BASE {
                    rep.bad(14, "no panic", rec.t, format!("search panicked: {}", text));
                } else {
                    let arg = *tag & 0xff >= 16
                        && vs
                            .get(inst)
                            .map(|v| {
                                v.ops.iter().any(|o| {
                                    o.out == Some(Out::Panicked)
                                        && matches!(&o.kind, OpKind::Write { value, small, .. } if !encodable(value, *small))
                                        && o.t1 + 1 >= rec.t
                                        && o.t0 <= rec.t
                                })
                            })
                            .unwrap_or(false);
                    if !arg {
                        rep.bad(10, "no panic", rec.t, format!("instance {} panicked: {}", inst, text));
                    }
                }
            }
            _ => {}
        }
    }
    rep.ev(10, "no panic");
    rep.ev(10, "no livelock");
    if livelock {
        return rep;
    }

    check_memory(r, &mut rep);
    for v in &vs {
        let slow = v.listeners.values().any(|l| !l.drain);
        let reqs = requests(v, &mut rep);
        check_repeats(v, &reqs, &mut rep);
        let items = acceptance(v, &mut rep, slow);
        check_delivery(v, &items, &mut rep, plan);
        check_ops(r, v, &reqs, &items, &mut rep);
        check_bus(r, v, &mut rep);
        check_heartbeat(v, &mut rep, slow);
        check_ends(v, &reqs, &mut rep);
        check_own_disconnects(v, &mut rep);
        check_reconnects(v, &reqs, &mut rep, plan);
        check_listeners(v, &mut rep);
        check_wire(r, v, &mut rep);
        check_attempts(v, &mut rep, end);
        check_resources(r, v, &mut rep);
        check_recovery(r, v, &items, &mut rep, end);
        check_release(v, &reqs, &mut rep);
        check_profile(plan, v, &items, &mut rep);
        check_connect(r, v, &mut rep);
    }
    check_search(r, &mut rep);
    rep
}

/// Making a client or monitor is a call like any other.
fn check_connect(r: &RunResult, v: &View, rep: &mut Report) {
    let mut start = None;
    let mut ended = false;
    let mut unbound = false;
    let mut unrouted = false;
    for rec in &r.hist {
        match &rec.ev {
            Ev::ConnectStart { inst } if *inst == v.inst => start = Some(rec.t),
            Ev::BindErr { inst } if *inst == v.inst => unbound = true,
            Ev::RouteErr { inst } if *inst == v.inst => unrouted = true,
            Ev::ConnectEnd { inst, ok } if *inst == v.inst => {
                ended = true;
                let t0 = start.unwrap_or(0);
                let s = v.slack(t0, rec.t);
                rep.judge(7, "connecting returns", rec.t <= t0 + 16_000 + s, rec.t, || {
                    format!("{:?} {}: connect took {} ms", v.kind, v.inst, rec.t - t0)
                });
                rep.judge(7, "connecting without a route fails", !(unrouted && v.socks.len() == 1 && *ok), rec.t, || {
                    format!("{:?} {}: connect succeeded although its socket could not be connected", v.kind, v.inst)
                });
                rep.judge(7, "connecting without a socket fails", !(unbound && v.socks.is_empty() && *ok), rec.t, || {
                    format!("{:?} {}: connect succeeded without a socket", v.kind, v.inst)
                });
            }
            _ => {}
        }
    }
    if let (Some(t0), false) = (start, ended) {
        let by = t0 + 16_000 + v.slack(t0, t0 + 16_000);
        if v.end > by {
            rep.judge(7, "connecting returns", false, by, || format!("{:?} {}: connect did not return", v.kind, v.inst));
        }
    }
}

/// The tunnel was up, and nothing had gone wrong with it, during all of [a,b].
fn healthy(v: &View, a: u64, b: u64) -> Option<usize> {
    let k = v.epochs.iter().rposition(|e| e.t <= a)?;
    let e = &v.epochs[k];
    if e.t + v.slack(e.t, a) > a + 200 {
        return None;
    }
    let s = v.slack(b, b + 6000);
    if e.end_t < b + 6000 + s && e.replaced {
        return None;
    }
    if b + 6000 + s > v.end {
        return None;
    }
    if v.leaving(b) || e.quit_t.map(|q| q <= b).unwrap_or(false) {
        return None;
    }
    // a cause of death so near that the replacement is not visible yet
    if v.recv.iter().any(|f| f.i > e.i && f.i < e.end_i && f.t <= b && death(f, e.ch)) || v.trouble_in(e.t, b) {
        return None;
    }
    Some(k)
}

fn check_ops(r: &RunResult, v: &View, reqs: &[Req], items: &[Item], rep: &mut Report) {
    let plan = &r.plan;
    let mut used = vec![false; reqs.len()];
    let mut con_used = vec![false; items.len()];
    for (k, o) in v.ops.iter().enumerate() {
        // ---- C07
        let overlap = v.ops.iter().enumerate().filter(|(j, p)| *j != k && p.t0 <= o.t1 && p.t1 >= o.t0).count() as u64;
        let s = v.slack(o.t0, o.t1);
        let bound = 15_000 * (overlap + 1) + 1000 + s;
        if o.out.is_some() || v.end > o.t0 + bound {
            rep.judge(7, "call returns", o.t1 - o.t0 <= bound && o.out.is_some(), o.t1, || {
                format!(
                    "{:?} {}: {:?} started at {} {} ({} calls overlapped it)",
                    v.kind,
                    v.inst,
                    o.kind,
                    o.t0,
                    if o.out.is_some() {
                        format!("took {} ms", o.t1 - o.t0)
                    } else {
                        "never returned".to_string()
                    },
                    overlap
                )
            });
        }
        if o.out.is_none() {
            continue;
        }
        // ---- C03: arguments that fit no telegram
        if let OpKind::Write { value, small, .. } = &o.kind {
            if !encodable(value, *small) && !o.cancelled() {
                rep.judge(3, "unencodable value refused", o.err(), o.t1, || {
                    format!(
                        "{:?} {}: a write of {} bytes (six-bit form: {}) ended as {:?}",
                        v.kind,
                        v.inst,
                        value.len(),
                        small,
                        o.out
                    )
                });
                continue;
            }
        }
        // ---- the request that belongs to this call
        let key = o.key();
        let same_key = v
            .ops
            .iter()
            .enumerate()
            .filter(|(j, p)| *j != k && p.key() == key && key.is_some() && p.t0 <= o.t1 && p.t1 >= o.t0)
            .count();
        let mine = key.as_ref().and_then(|key| {
            reqs.iter()
                .enumerate()
                .find(|(j, q)| !used[*j] && q.key.as_ref() == Some(key) && q.i > o.i0 && q.i < o.i1)
                .map(|(j, _)| j)
        });
        if let (Some(j), true) = (mine, same_key == 0) {
            used[j] = true;
        }
        let healthy_at_end = healthy(v, o.t0.saturating_sub(1000), o.t1);
        let is_request = key.is_some();
        if is_request && o.err() && mine.is_none() {
            let p = match o.kind {
                OpKind::Read { .. } => 1,
                OpKind::Solicit { .. } => 3,
                _ => 2,
            };
            if healthy_at_end.is_some() && !v.trouble_in(o.t0, o.t1) {
                rep.judge(p, "a request over a working tunnel goes out", false, o.t1, || {
                    format!("{:?} {}: {:?} failed ({:?}) without sending anything although the tunnel was up", v.kind, v.inst, o.kind, o.out)
                });
            }
        }
        match (&o.kind, v.kind) {
            (OpKind::Read { addr, .. }, Kind::Client) => {
                let ans = |x: &Item| {
                    x.tel
                        .as_ref()
                        .map(|t| t.code == wire::L_IND && t.group() && t.dest == *addr && t.tpci == 0 && (t.apci == 1 || t.apci == 2))
                        .unwrap_or(false)
                };
                if let Some(Out::Bytes(b)) = &o.out {
                    let from = reqs
                        .iter()
                        .find(|q| q.key == key && q.i > o.i0 && q.i < o.i1)
                        .map(|q| q.t)
                        .unwrap_or(o.t0);
                    let s = v.slack(from.saturating_sub(300), o.t1);
                    let ok = items
                        .iter()
                        .any(|x| ans(x) && x.i < o.i1 && x.t + 200 + s >= from && x.tel.as_ref().unwrap().value == *b);
                    rep.judge(1, "value read was on the bus", ok, o.t1, || {
                        format!(
                            "client {}: read of {:04x} ({}..{} ms) returned {:02x?}, which no telegram for that address carried since the request at {}",
                            v.inst, addr, o.t0, o.t1, b, from
                        )
                    });
                    rep.judge(1, "request sent", mine.is_some() || same_key > 0, o.t1, || {
                        format!("client {}: read of {:04x} returned {:02x?} without asking", v.inst, addr, b)
                    });
                }
                if o.err() && same_key == 0 {
                    if let Some(j) = mine {
                        let q = &reqs[j];
                        let whole = v.epochs[q.epoch].whole(o.t1);
                        let s = v.slack(q.t, o.t1);
                        let acked = q.ack.map(|a| a <= q.t + 900).unwrap_or(false) && v.slack(q.t, q.t + 1000) == 100;
                        let calm = whole && acked && !v.trouble_in(q.t, o.t1) && !v.leaving(o.t1);
                        let negative = items.iter().any(|x| x.i > q.i && x.i < o.i1 && neg_con(x, key.as_ref().unwrap()));
                        if calm && !negative {
                            let hit = items
                                .iter()
                                .find(|x| ans(x) && known_infos(x) && x.acked && x.i > q.i && x.t + 300 + s <= o.t1 && x.t <= q.t + 8000);
                            if let Some(x) = hit {
                                let between = items.iter().filter(|y| y.i > q.i && y.i < x.i).count();
                                if between <= 80 {
                                    rep.judge(1, "answered read succeeds", false, o.t1, || {
                                        format!(
                                            "client {}: read of {:04x} (sent at {}) failed ({:?}) although the answer {:02x?} arrived at {}",
                                            v.inst,
                                            addr,
                                            q.t,
                                            o.out,
                                            x.tel.as_ref().unwrap().value,
                                            x.t
                                        )
                                    });
                                }
                            }
                            rep.judge(1, "does not give up early", o.t1 + 1000 >= q.t + 10_000, o.t1, || {
                                format!(
                                    "client {}: read of {:04x} sent at {} failed after {} ms: {:?}",
                                    v.inst,
                                    addr,
                                    q.t,
                                    o.t1 - q.t,
                                    o.out
                                )
                            });
                        }
                    }
                } else if o.ok() {
                    rep.ev(1, "answered read succeeds");
                }
            }
            (OpKind::Write { addr, .. }, Kind::Client) => {
                let key = key.clone().unwrap();
                if o.out == Some(Out::Unit) {
                    let from = reqs
                        .iter()
                        .find(|q| q.key.as_ref() == Some(&key) && q.i > o.i0 && q.i < o.i1)
                        .map(|q| q.t)
                        .unwrap_or(o.t0);
                    let s = v.slack(from.saturating_sub(300), o.t1);
                    let hit = items
                        .iter()
                        .enumerate()
                        .rfind(|(n, x)| !con_used[*n] && x.i < o.i1 && x.t + 200 + s >= from && pos_con(x, &key))
                        .map(|(n, _)| n);
                    rep.judge(2, "confirmed by the bus", hit.is_some(), o.t1, || {
                        format!(
                            "client {}: write to {:04x} ({}..{} ms) reported success without a positive confirmation of that telegram",
                            v.inst, addr, o.t0, o.t1
                        )
                    });
                    if let (Some(n), true) = (hit, same_key > 0) {
                        con_used[n] = true;
                    }
                }
                if o.err() && same_key == 0 {
                    if let Some(j) = mine {
                        let q = &reqs[j];
                        let whole = v.epochs[q.epoch].whole(o.t1);
                        let s = v.slack(q.t, o.t1);
                        let acked = q.ack.map(|a| a <= q.t + 900).unwrap_or(false) && v.slack(q.t, q.t + 1000) == 100;
                        let calm = whole && acked && !v.trouble_in(q.t, o.t1) && !v.leaving(o.t1);
                        let negative = items.iter().any(|x| x.i > q.i && x.i < o.i1 && neg_con(x, &key));
                        let refused = items.iter().find(|x| x.i > q.i && x.i < o.i1 && x.acked && known_infos(x) && neg_con(x, &key));
                        if let (Some(x), true) = (refused, calm) {
                            let between = items.iter().filter(|y| y.i > q.i && y.i < x.i).count();
                            if between <= 80 {
                                let seen = x.t.max(q.ack.unwrap_or(q.t));
                                rep.judge(2, "refused write fails at once", o.t1 <= seen + 1000 + s, o.t1, || {
                                    format!(
                                        "client {}: write to {:04x} (sent at {}) was refused by the bus at {} but the call only failed at {}",
                                        v.inst, addr, q.t, x.t, o.t1
                                    )
                                });
                            }
                        }
                        if calm && !negative {
                            let hit = items
                                .iter()
                                .find(|x| pos_con(x, &key) && known_infos(x) && x.acked && x.i > q.i && x.t + 300 + s <= o.t1 && x.t <= q.t + 8000);
                            if let Some(x) = hit {
                                let between = items.iter().filter(|y| y.i > q.i && y.i < x.i).count();
                                if between <= 80 {
                                    rep.judge(2, "confirmed write succeeds", false, o.t1, || {
                                        format!(
                                            "client {}: write to {:04x} (sent at {}) failed ({:?}) although it was confirmed at {}",
                                            v.inst, addr, q.t, o.out, x.t
                                        )
                                    });
                                }
                            }
                            rep.judge(2, "does not give up early", o.t1 + 1000 >= q.t + 10_000, o.t1, || {
                                format!(
                                    "client {}: write to {:04x} sent at {} failed after {} ms: {:?}",
                                    v.inst,
                                    addr,
                                    q.t,
                                    o.t1 - q.t,
                                    o.out
                                )
                            });
                        }
                    }
                } else if o.ok() {
                    rep.ev(2, "confirmed write succeeds");
                }
            }
            (OpKind::Write { .. }, Kind::Monitor) | (OpKind::Solicit { .. }, Kind::Monitor) => {
                // the monitor's requests: success means the gateway took it, failure needs a reason
                if o.err() && same_key == 0 {
                    if let Some(j) = mine {
                        let q = &reqs[j];
                        let acked = q.ack.map(|a| a <= q.t + 900).unwrap_or(false) && v.slack(q.t, q.t + 1000) == 100;
                        if acked && v.epochs[q.epoch].whole(o.t1) && !v.trouble_in(q.t, o.t1) && !v.leaving(o.t1) {
                            rep.judge(3, "acknowledged request succeeds", false, o.t1, || {
                                format!("monitor {}: {:?} sent at {} and acknowledged, yet it failed: {:?}", v.inst, o.kind, q.t, o.out)
                            });
                        }
                    }
                } else if o.ok() {
                    rep.ev(3, "acknowledged request succeeds");
                }
            }
            (OpKind::Status, Kind::Client) => {
                let own = |f: &Fr, st: Option<u8>, chv: Option<u8>| {
                    let Some(e) = v.last_epoch_before(f.i) else { return false };
                    matches!(&f.f, Some(Frame::StateResp { ch, status })
                        if *ch == v.epochs[e].ch && st.map(|s| s == *status).unwrap_or(true) && chv.map(|c| c == *ch).unwrap_or(true))
                };
                if let Some(Out::Status { ch, status }) = &o.out {
                    let s = v.slack(o.t0.saturating_sub(300), o.t1);
                    let ok = v
                        .recv
                        .iter()
                        .any(|f| f.t + 200 + s >= o.t0 && f.i < o.i1 && own(f, Some(*status), Some(*ch)));
                    rep.judge(13, "answer is the gateway's", ok, o.t1, || {
                        format!(
                            "client {}: connection status (channel {}, status {}) was returned at {} but the gateway did not say so during the call",
                            v.inst, ch, status, o.t1
                        )
                    });
                }
                if o.err() {
                    let alone = !v.ops.iter().enumerate().any(|(j, p)| j != k && p.t0 <= o.t1 && p.t1 >= o.t0);
                    let sent = v
                        .sent
                        .iter()
                        .find(|f| f.i > o.i0 && f.i < o.i1 && matches!(f.f, Some(Frame::StateReq { .. })));
                    // a heartbeat may go out during the call as well: only an answer to the later of them
                    // is surely one the call was waiting for
                    let later = v
                        .sent
                        .iter()
                        .rfind(|f| f.i > o.i0 && f.i < o.i1 && matches!(f.f, Some(Frame::StateReq { .. })));
                    if let (Some(q), Some(last), true) = (sent, later, alone) {
                        let s = v.slack(q.t, o.t1);
                        let calm = !v.trouble_in(q.t, o.t1) && !v.leaving(o.t1);
                        let hit = v.recv.iter().find(|f| f.i > last.i && f.t + 300 + s <= o.t1 && f.t <= q.t + 8000 && own(f, None, None));
                        let at = v.epoch_at(q.i);
                        let whole = at.map(|e| v.epochs[e].whole(o.t1)).unwrap_or(false);
                        // an error answer is an answer too, it is just the tunnel's last word
                        let heard = hit
                            .map(|f| at.is_some() && v.epoch_at(f.i) == at && !v.recv.iter().any(|x| x.i > q.i && x.i < f.i && death(x, v.epochs[at.unwrap()].ch)))
                            .unwrap_or(false);
                        if let (Some(f), true, true) = (hit, calm, whole || heard) {
                            rep.judge(13, "answered query succeeds", false, o.t1, || {
                                format!(
                                    "client {}: connection status query of {} failed ({:?}) although the gateway answered at {}",
                                    v.inst, q.t, o.out, f.t
                                )
                            });
                        }
                        if calm && whole {
                            let any = v.recv.iter().any(|f| f.i > q.i && f.i < o.i1 && own(f, None, None));
                            if !any {
                                rep.judge(13, "does not give up early", o.t1 >= q.t + 8_000, o.t1, || {
                                    format!("client {}: connection status query of {} failed after {} ms: {:?}", v.inst, q.t, o.t1 - q.t, o.out)
                                });
                            }
                        }
                    } else if sent.is_none() && healthy_at_end.is_some() {
                        rep.judge(13, "a query over a working tunnel goes out", false, o.t1, || {
                            format!("client {}: connection status failed ({:?}) without asking although the tunnel was up", v.inst, o.out)
                        });
                    }
                } else if o.ok() {
                    rep.ev(13, "answered query succeeds");
                }
            }
            (OpKind::IsConnected, Kind::Monitor) => {
                let s = v.slack(o.t0.saturating_sub(2000), o.t1);
                let back = o.t0.saturating_sub(1000 + s);
                match o.out {
                    Some(Out::Bool(true)) => {
                        let ok = v.epochs.iter().any(|e| e.t <= o.t1 && e.end_t >= back)
                            && !disconnected_before(v, back);
                        rep.judge(15, "says connected only with a tunnel", ok, o.t1, || {
                            format!("monitor {}: says it is connected at {} but it has no tunnel", v.inst, o.t1)
                        });
                    }
                    Some(Out::Bool(false)) => {
                        let ok = healthy(v, back, o.t1).is_none();
                        rep.judge(15, "says disconnected only without a tunnel", ok, o.t1, || {
                            format!("monitor {}: says it is not connected at {} but its tunnel is up", v.inst, o.t1)
                        });
                    }
                    _ => {}
                }
            }
            (OpKind::Disconnect, _) => check_disconnect(v, k, reqs, rep),
            _ => {}
        }
        // ---- C11: after a disconnect
        if let Some(d) = ok_disconnect(v) {
            let s = v.slack(d, o.t1);
            if o.t0 > d + 1000 + s && o.out.is_some() && !o.cancelled() {
                let fine = match (&o.kind, &o.out) {
                    (OpKind::Flush, _) => true,
                    (OpKind::IsConnected, Some(Out::Bool(b))) => !*b,
                    (_, Some(Out::Err(_))) => true,
                    _ => false,
                };
                rep.judge(11, "calls fail after disconnect", fine && o.t1 - o.t0 <= 1000 + s, o.t1, || {
                    format!(
                        "{:?} {}: disconnected at {}, yet {:?} at {} ended as {:?} after {} ms",
                        v.kind,
                        v.inst,
                        d,
                        o.kind,
                        o.t0,
                        o.out,
                        o.t1 - o.t0
                    )
                });
            }
        }
    }
    let _ = plan;
}

fn ok_disconnect(v: &View) -> Option<u64> {
    v.ops.iter().filter(|o| o.kind == OpKind::Disconnect && o.ok()).map(|o| o.t1).min()
}
fn disconnected_before(v: &View, t: u64) -> bool {
    ok_disconnect(v).map(|d| d < t).unwrap_or(false)
}

fn pos_con(x: &Item, key: &Key) -> bool {
    x.tel
        .as_ref()
        .map(|t| t.code == wire::L_CON && t.ctrl1 & 1 == 0 && t.group() && tel_key(t) == *key)
        .unwrap_or(false)
}
fn neg_con(x: &Item, key: &Key) -> bool {
    x.tel
        .as_ref()
        .map(|t| t.code == wire::L_CON && t.ctrl1 & 1 == 1 && tel_key(t) == *key)
        .unwrap_or(false)
}

/// The client may have given up this tunnel by `t` because a request stayed without acknowledgement.
fn gave_up(v: &View, reqs: &[Req], epoch: usize, t: u64) -> bool {
    let held = v.slack(v.epochs[epoch].t, t);
    reqs.iter()
        .any(|q| q.epoch == epoch && q.t + 1900 <= t && q.ack.map(|a| a + held > q.t + 1900).unwrap_or(true))
}

fn check_disconnect(v: &View, k: usize, reqs: &[Req], rep: &mut Report) {
    let o = &v.ops[k];
    let req = v.sent.iter().find(|f| f.i > o.i0 && f.i < o.i1 && matches!(f.f, Some(Frame::DiscReq { .. })));
    let resp_of = |from: usize| {
        v.recv.iter().find(move |f| {
            f.i > from
                && v.last_epoch_before(f.i)
                    .map(|e| matches!(&f.f, Some(Frame::DiscResp { ch, .. }) if *ch == v.epochs[e].ch))
                    .unwrap_or(false)
        })
    };
    if o.ok() {
        // a tunnel may be given up, with a disconnect request of its own, while the call waits
        let mut answers: Vec<u8> = vec![];
        for q in v.sent.iter().filter(|f| f.i > o.i0 && f.i < o.i1) {
            let Some(Frame::DiscReq { ch: asked, .. }) = &q.f else { continue };
            for f in v.recv.iter().filter(|f| f.i > q.i && f.i < o.i1) {
                if let Some(Frame::DiscResp { ch, status }) = &f.f {
                    if ch == asked {
                        answers.push(*status);
                    }
                }
            }
        }
        // two disconnects at once may share the answer
        let others = v.ops.iter().enumerate().any(|(j, p)| j != k && p.kind == OpKind::Disconnect && p.t0 <= o.t1 && p.t1 >= o.t0);
        rep.judge(11, "confirmed by the gateway", !answers.is_empty() || others, o.t1, || {
            format!("{:?} {}: disconnect reported success at {} without the gateway's answer", v.kind, v.inst, o.t1)
        });
        if let (Some(Out::Code(c)), false, false) = (&o.out, answers.is_empty(), others) {
            rep.judge(11, "gateway's status returned", answers.contains(c), o.t1, || {
                format!("monitor {}: disconnect returned {} but the gateway said {:?}", v.inst, c, answers)
            });
        }
        // silence afterwards
        let s = v.slack(o.t1, o.t1 + 2000);
        let late = v.sent.iter().find(|f| f.t > o.t1 + 1000 + s);
        rep.judge(11, "silent after disconnect", late.is_none(), late.map(|f| f.t).unwrap_or(0), || {
            let f = late.unwrap();
            format!("{:?} {}: disconnected at {} and still sent {} at {}", v.kind, v.inst, o.t1, wire::hex(&f.bytes), f.t)
        });
        if v.kind == Kind::Monitor && v.consuming(o.t1, o.t1 + 8000 + s) && v.end > o.t1 + 8000 + s {
            rep.judge(11, "waiting ends after disconnect", v.got_err.iter().any(|t| *t >= o.t1 - o.t1.min(1000) && *t <= o.t1 + 8000 + s), o.t1, || {
                format!("monitor {}: disconnected at {} and a consumer is still waiting", v.inst, o.t1)
            });
        }
    } else if o.err() {
        let alone = !v.ops.iter().enumerate().any(|(j, p)| j != k && p.kind == OpKind::Disconnect);
        if let (Some(q), true) = (req, alone) {
            let s = v.slack(q.t, o.t1);
            let calm = !v.trouble_in(q.t, o.t1);
            let whole = v
                .epoch_at(q.i)
                .map(|e| v.epochs[e].end_t > o.t1 && !gave_up(v, reqs, e, o.t1))
                .unwrap_or(false);
            let hit = resp_of(q.i).filter(|f| f.t <= q.t + 8000 && f.t + 300 + s <= o.t1);
            if calm && whole {
                if let Some(f) = hit {
                    rep.judge(11, "answered disconnect succeeds", false, o.t1, || {
                        format!(
                            "{:?} {}: disconnect of {} failed ({:?}) although the gateway confirmed it at {}",
                            v.kind, v.inst, q.t, o.out, f.t
                        )
                    });
                } else if resp_of(q.i).filter(|f| f.i < o.i1).is_none() && !v.recv.iter().any(|f| f.i > q.i && f.i < o.i1 && matches!(f.f, Some(Frame::DiscReq{..}) | Some(Frame::StateResp{..}))) {
                    rep.judge(11, "does not give up early", o.t1 >= q.t + 8_000, o.t1, || {
                        format!("{:?} {}: disconnect of {} failed after {} ms: {:?}", v.kind, v.inst, q.t, o.t1 - q.t, o.out)
                    });
                }
            }
        } else if req.is_some() && !alone {
            // several at once: whoever asked, an answer in time is a success for one of them
            for q in v.sent.iter().filter(|f| f.i > o.i0 && f.i < o.i1 && matches!(f.f, Some(Frame::DiscReq { .. }))) {
                let s = v.slack(q.t, o.t1);
                let whole = v
                    .epoch_at(q.i)
                    .map(|e| v.epochs[e].end_t > o.t1 && !gave_up(v, reqs, e, o.t1))
                    .unwrap_or(false);
                let hit = resp_of(q.i).filter(|f| f.t <= q.t + 8000 && f.t + 300 + s <= o.t1);
                if let (Some(f), true, false) = (hit, whole, v.trouble_in(q.t, o.t1)) {
                    let one = v.ops.iter().any(|p| p.kind == OpKind::Disconnect && p.ok() && p.t1 >= q.t);
                    rep.judge(11, "answered disconnect succeeds", one, o.t1, || {
                        format!(
                            "{:?} {}: disconnect of {} failed ({:?}), and none other succeeded, although the gateway confirmed it at {}",
                            v.kind, v.inst, q.t, o.out, f.t
                        )
                    });
                }
            }
        } else if req.is_none() && alone && !v.trouble_in(o.t0, o.t1) {
            // up before and after, and nothing was even tried
            let e = v.epochs.iter().rposition(|e| e.t + 1000 + v.slack(e.t, o.t0) <= o.t0);
            if let Some(e) = e {
                let e = &v.epochs[e];
                let s = v.slack(o.t1, o.t1 + 6000);
                let dead = v.recv.iter().any(|f| f.i > e.i && f.i < e.end_i && f.t <= o.t1 && death(f, e.ch)) || v.trouble_in(e.t, o.t1);
                let quit = e.quit_t.map(|q| q <= o.t1).unwrap_or(false);
                if e.end_t > o.t1 + 6000 + s && v.end > o.t1 + 6000 + s && !dead && !quit && v.released.map(|r| r > o.t1 + 100).unwrap_or(true) {
                    rep.judge(11, "a disconnect over a working tunnel goes out", false, o.t1, || {
                        format!("{:?} {}: disconnect failed ({:?}) without asking although the tunnel was up", v.kind, v.inst, o.out)
                    });
                }
            }
        }
    }
}

fn check_bus(r: &RunResult, v: &View, rep: &mut Report) {
    let mut outs: Vec<(u64, usize, Key, bool)> = vec![]; // time, index, key, group
    for (i, rec) in r.hist.iter().enumerate() {
        if let Ev::BusOut { inst, tel, .. } = &rec.ev {
            if *inst == v.inst {
                outs.push((rec.t, i, tel_key(tel), tel.group()));
            }
        }
    }
    // which of two equal telegrams was whose cannot be told: any assignment that works will do
    let keys: Vec<Option<Key>> = v.ops.iter().map(|o| o.key()).collect();
    let edge = |n: usize, k: usize| {
        let (t, i, key, _) = &outs[n];
        let o = &v.ops[k];
        if keys[k].as_ref() != Some(key) || o.i0 > *i {
            return false;
        }
        if o.ok() {
            return *i < o.i1; // its own was there before it returned
        }
        o.t1 + 25_000 + v.slack(t.saturating_sub(30_000), *t) >= *t
    };
    let placed = assign(outs.len(), v.ops.len(), &edge);
    for (n, (t, i, key, _)) in outs.iter().enumerate() {
        rep.judge(3, "one telegram per call", placed[n].is_some(), *t, || {
            let twice = v.ops.iter().any(|o| o.i0 < *i && o.key().as_ref() == Some(key));
            format!(
                "{:?} {}: telegram {:?} reached the bus at {} {}",
                v.kind,
                v.inst,
                key,
                t,
                if twice { "once more than it was asked for" } else { "and no call asked for it" }
            )
        });
    }
    let due: Vec<usize> = (0..v.ops.len()).filter(|k| v.ops[*k].ok() && keys[*k].is_some()).collect();
    let placed = assign(due.len(), outs.len(), &|d, n| edge(n, due[d]));
    for (d, k) in due.iter().enumerate() {
        let o = &v.ops[*k];
        rep.judge(3, "success means it reached the bus", placed[d].is_some(), o.t1, || {
            format!("{:?} {}: {:?} ({}..{} ms) reported success but its telegram never reached the bus by then", v.kind, v.inst, o.kind, o.t0, o.t1)
        });
    }
}

/// A largest assignment of `n` things to `m` others along `edge`, each used at most once.
fn assign(n: usize, m: usize, edge: &dyn Fn(usize, usize) -> bool) -> Vec<Option<usize>> {
    fn go(a: usize, m: usize, edge: &dyn Fn(usize, usize) -> bool, seen: &mut [bool], of: &mut [Option<usize>]) -> bool {
        for b in 0..m {
            if !seen[b] && edge(a, b) {
                seen[b] = true;
                if of[b].is_none() || go(of[b].unwrap(), m, edge, seen, of) {
                    of[b] = Some(a);
                    return true;
                }
            }
        }
        false
    }
    let mut of: Vec<Option<usize>> = vec![None; m];
    for a in 0..n {
        let mut seen = vec![false; m];
        go(a, m, edge, &mut seen, &mut of);
    }
    let mut out = vec![None; n];
    for (b, a) in of.iter().enumerate() {
        if let Some(a) = a {
            out[*a] = Some(b);
        }
    }
    out
}

fn check_heartbeat(v: &View, rep: &mut Report, slow: bool) {
    for e in &v.epochs {
        // the span in which the application still wants the tunnel
        let mut stop = e.end_t;
        if let Some(d) = v.disc_start {
            stop = stop.min(d);
        }
        if let Some(d) = v.released {
            stop = stop.min(d);
        }
        if let Some(x) = v.send_err.iter().find(|x| x.1 > e.i && x.1 < e.end_i) {
            stop = stop.min(x.0);
        }
        if let Some(x) = v.recv_err.iter().find(|x| x.1 > e.i && x.1 < e.end_i) {
            stop = stop.min(x.0);
        }
        if let Some(f) = v.recv.iter().find(|f| f.i > e.i && f.i < e.end_i && death(f, e.ch)) {
            stop = stop.min(f.t);
        }
        let beats: Vec<u64> = v
            .sent
            .iter()
            .filter(|f| f.i > e.i && f.i < e.end_i && matches!(&f.f, Some(Frame::StateReq { ch, .. }) if *ch == e.ch))
            .map(|f| f.t)
            .collect();
        let mut last = e.t;
        for b in beats.iter().copied().chain(std::iter::once(stop)) {
            let upto = b.min(stop);
            if upto > last {
                let s = v.slack(last, last + 62_000);
                let ok = upto - last <= 62_000 + s;
                rep.judge(9, "at least every 60 s", ok, last + 62_000 + s, || {
                    format!(
                        "{:?} {}: no connection state request between {} and {} on channel {}",
                        v.kind, v.inst, last, upto, e.ch
                    )
                });
                if !ok && slow {
                    rep.bad(15, "slow listener stalls", last + 62_000, format!("monitor {}: heartbeat stopped at {}", v.inst, last));
                }
            }
            last = b;
        }
        // those no call asked for
        let own: Vec<u64> = beats
            .iter()
            .copied()
            .filter(|b| !v.ops.iter().any(|o| o.kind == OpKind::Status && o.t0 <= *b && *b <= o.t1))
            .collect();
        for w in own.windows(2) {
            let s = v.slack(w[0].saturating_sub(10_000), w[1]);
            rep.judge(9, "not more often than it should", w[1] - w[0] + s >= 30_000, w[1], || {
                format!("{:?} {}: connection state requests at {} and {}", v.kind, v.inst, w[0], w[1])
            });
        }
        // an error answer ends the tunnel
        if let Some(f) = v
            .recv
            .iter()
            .find(|f| f.i > e.i && f.i < e.end_i && matches!(&f.f, Some(Frame::StateResp { ch, status }) if *ch == e.ch && *status != 0))
        {
            let s = v.slack(f.t, f.t + 5000);
            let by = f.t + 5000 + s;
            if !v.leaving(by) && v.end > by && !v.trouble_in(f.t, by) {
                rep.judge(9, "error answer replaces the tunnel", v.connect_in(f.t, by), by, || {
                    format!("{:?} {}: gateway reported an error for channel {} at {}, no reconnection", v.kind, v.inst, e.ch, f.t)
                });
            }
        }
    }
    // requests on the right channel, with an address answers can come back to
    for f in &v.sent {
        if let Some(Frame::StateReq { ch, .. }) = &f.f {
            let e = v.last_epoch_before(f.i);
            let ok = e.map(|e| v.epochs[e].ch == *ch).unwrap_or(false) || v.just_lost(*ch, f.t);
            rep.judge(9, "own channel", ok, f.t, || {
                format!("{:?} {}: connection state request for channel {} which is not its tunnel", v.kind, v.inst, ch)
            });
        }
    }
}

/// The client closes only channels that are its own.
fn check_own_disconnects(v: &View, rep: &mut Report) {
    for f in &v.sent {
        if let Some(Frame::DiscReq { ch, .. }) = &f.f {
            let e = v.last_epoch_before(f.i);
            let ok = e.map(|e| v.epochs[e].ch == *ch).unwrap_or(false) || v.just_lost(*ch, f.t);
            rep.judge(11, "own channel", ok, f.t, || {
                format!("{:?} {}: disconnect request for channel {} which is not its tunnel", v.kind, v.inst, ch)
            });
        }
    }
}

fn check_ends(v: &View, reqs: &[Req], rep: &mut Report) {
    for (k, e) in v.epochs.iter().enumerate() {
        let Some(f) = v
            .recv
            .iter()
            .find(|f| f.i > e.i && f.i < e.end_i && matches!(&f.f, Some(Frame::DiscReq { ch, .. }) if *ch == e.ch))
        else {
            continue;
        };
        let s = v.slack(f.t, f.t + 5000);
        let by = f.t + 1000 + s;
        let quit = e.quit_t.map(|q| q <= by).unwrap_or(false) && gave_up(v, reqs, k, by);
        if !v.leaving(by) && v.end > by && !v.trouble_in(f.t, by) && !quit {
            let ok = v
                .sent
                .iter()
                .any(|g| g.i > f.i && g.t <= by && matches!(&g.f, Some(Frame::DiscResp { ch, status: 0 }) if *ch == e.ch));
            rep.judge(12, "gateway's disconnect answered", ok, by, || {
                format!("{:?} {}: gateway closed channel {} at {} and got no answer", v.kind, v.inst, e.ch, f.t)
            });
        }
        let by = f.t + 5000 + s;
        if !v.leaving(by) && v.end > by && !v.trouble_in(f.t, by) {
            rep.judge(12, "reconnects after gateway's disconnect", v.connect_in(f.t, by), by, || {
                format!("{:?} {}: gateway closed channel {} at {}, no reconnection", v.kind, v.inst, e.ch, f.t)
            });
        }
    }
    // an answer only to what was asked
    for g in &v.sent {
        if let Some(Frame::DiscResp { ch, .. }) = &g.f {
            let ok = v
                .recv
                .iter()
                .any(|f| f.i < g.i && matches!(&f.f, Some(Frame::DiscReq { ch: c, .. }) if c == ch));
            rep.judge(12, "no unasked disconnect answer", ok, g.t, || {
                format!("{:?} {}: sent a disconnect answer for channel {} nobody asked for", v.kind, v.inst, ch)
            });
            let e = v.last_epoch_before(g.i);
            let own = e.map(|e| v.epochs[e].ch == *ch).unwrap_or(false) || v.just_lost(*ch, g.t);
            rep.judge(12, "answers for the own channel only", own, g.t, || {
                format!("{:?} {}: sent a disconnect answer for channel {} which is not its tunnel", v.kind, v.inst, ch)
            });
        }
    }
}

fn check_reconnects(v: &View, reqs: &[Req], rep: &mut Report, plan: &Plan) {
    for (ei, e) in v.epochs.iter().enumerate() {
        if !e.replaced {
            continue;
        }
        let cause = v.recv.iter().any(|f| f.i > e.i && f.i < e.end_i && death(f, e.ch))
            || v.send_err.iter().any(|x| x.1 > e.i && x.1 < e.end_i)
            || v.recv_err.iter().any(|x| x.1 > e.i && x.1 < e.end_i)
            || reqs
                .iter()
                .any(|q| {
                    // a caller that was held up may find its time over together with the acknowledgement
                    let held = v.slack(q.t, e.end_t) > 100;
                    q.epoch == ei && q.t + 1900 <= e.end_t && q.ack.map(|a| held || a > q.t + 1900).unwrap_or(true)
                });
        rep.judge(10, "no reconnection without a cause", cause, e.end_t, || {
            format!(
                "{:?} {}: gave up channel {} at {} though nothing had gone wrong with it",
                v.kind, v.inst, e.ch, e.end_t
            )
        });
        if !cause {
            let p = plan.profile.as_str();
            if p.starts_with("cancel") {
                rep.bad(16, "tunnel survives abandoned calls", e.end_t, format!("{:?} {}: gave up channel {} at {}", v.kind, v.inst, e.ch, e.end_t));
            }
            if p.starts_with("overload") && v.kind == Kind::Client {
                rep.bad(18, "tunnel survives unread traffic", e.end_t, format!("client {}: gave up channel {} at {}", v.inst, e.ch, e.end_t));
            }
        }
    }
}

fn check_listeners(v: &View, rep: &mut Report) {
    if v.kind != Kind::Monitor {
        return;
    }
    for (l, x) in &v.listeners {
        if !x.drain {
            continue;
        }
        let gone = x.gone.unwrap_or(v.end);
        let edge = |n: usize, k: usize| {
            let (n, e) = (x.notes[n], &v.epochs[k]);
            // what it could not read while it did not read, it reads afterwards
            let late = x
                .pause
                .map(|(a, b)| e.t + 1000 + v.slack(e.t, a) >= a && e.t <= b && n <= b + 1000 + v.slack(b, n))
                .unwrap_or(false);
            e.t <= n && (n <= e.t + 1000 + v.slack(e.t, e.t + 1000) || late)
        };
        let placed = assign(x.notes.len(), v.epochs.len(), &edge);
        for (k, n) in x.notes.iter().enumerate() {
            rep.judge(15, "told once per tunnel", placed[k].is_some(), *n, || {
                format!("monitor {}: listener {} was told at {} of a connection that had not just been made", v.inst, l, n)
            });
        }
        let must: Vec<usize> = (0..v.epochs.len())
            .filter(|k| {
                let e = &v.epochs[*k];
                let s = v.slack(e.t.saturating_sub(2000), e.t + 1000);
                let by = e.t + 1000 + s;
                let reads = x.pause.map(|(a, b)| by + 1000 < a || e.t > b + 1000 + s).unwrap_or(true);
                // more tunnels at the same moment than it has room for
                let many = v.epochs.iter().enumerate().filter(|(j, f)| j != k && f.t <= by && f.t + 100 + s >= e.t).count() >= x.cap;
                e.t >= x.add + 1000 + s
                    && reads
                    && !many
                    && gone >= by + 100
                    && v.end >= by
                    && !v.trouble_in(e.t, by)
                    && v.released.map(|r| r > by).unwrap_or(true)
                    && v.disc_start.map(|d| d > by).unwrap_or(true)
            })
            .collect();
        let told = assign(must.len(), x.notes.len(), &|k, n| edge(n, must[k]));
        for (k, e) in v.epochs.iter().enumerate() {
            if !must.contains(&k) {
                continue;
            }
            let place = must.iter().position(|x| *x == k).unwrap();
            let by = e.t + 1000 + v.slack(e.t.saturating_sub(2000), e.t + 1000);
            rep.judge(15, "told of every tunnel", told[place].is_some(), by, || {
                format!("monitor {}: listener {} was not told of the tunnel made at {}", v.inst, l, e.t)
            });
        }
    }
}

fn check_wire(r: &RunResult, v: &View, rep: &mut Report) {
    for f in &v.sent {
        let port = r.socks[f.sock as usize].1;
        let own = |h: &wire::Hpai| {
            h.proto == 1
                && (h.addr.ip().is_unspecified() || *h.addr.ip() == CLIENT_IP)
                && (h.addr.port() == 0 || h.addr.port() == port)
        };
        let why: Option<&'static str> = match &f.f {
            None => Some("not a complete frame"),
            Some(Frame::ConnectReq { control, data, cri }) => {
                if !own(control) || !own(data) {
                    Some("endpoint is not the client's own")
                } else if cri[..] != [4, 4, 2, 0] {
                    Some("not a link layer tunnel request")
                } else {
                    None
                }
            }
            Some(Frame::StateReq { reserved, hpai, .. }) | Some(Frame::DiscReq { reserved, hpai, .. }) => {
                if !own(hpai) {
                    Some("endpoint is not the client's own")
                } else if *reserved != 0 {
                    Some("reserved octet not zero")
                } else {
                    None
                }
            }
            Some(Frame::DiscResp { .. }) => None,
            Some(Frame::TunAck { status, .. }) => {
                if *status != 0 {
                    Some("acknowledgement with an error")
                } else {
                    None
                }
            }
            Some(Frame::TunReq { reserved, cemi, .. }) => match Tel::decode(cemi) {
                None => Some("telegram is not complete"),
                Some(t) => {
                    let std_frame = t.ctrl1 & 0x80 != 0;
                    if *reserved != 0 {
                        Some("reserved octet not zero")
                    } else if t.code != wire::L_REQ || !t.addinfo.is_empty() {
                        Some("not a plain data request")
                    } else if !t.group() {
                        Some("not group addressed")
                    } else if !std_frame && t.value.len() <= 14 {
                        Some("not a standard frame")
                    } else if std_frame && t.value.len() > 14 {
                        Some("too long for a standard frame")
                    } else if t.src != 0 || t.tpci != 0 {
                        Some("source or transport control not zero")
                    } else if t.apci != wire::APCI_READ && t.apci != wire::APCI_WRITE {
                        Some("neither a read nor a write")
                    } else if t.apci == wire::APCI_READ && (!t.small || t.value != [0]) {
                        Some("a read with a value")
                    } else {
                        None
                    }
                }
            },
            Some(Frame::Feature { code: 0x0424, status, body, .. }) => {
                if *status != 0 || body.len() < 3 || body[1] != 0 {
                    Some("bad feature request")
                } else {
                    None
                }
            }
            Some(_) => Some("not a service a client sends"),
        };
        rep.judge(19, "well-formed", why.is_none(), f.t, || {
            format!("{:?} {}: sent {} ({})", v.kind, v.inst, wire::hex(&f.bytes), why.unwrap())
        });
        rep.judge(19, "to the gateway", f.dest == Some(SocketAddr::V4(GW)), f.t, || {
            format!("{:?} {}: sent {} to {:?}", v.kind, v.inst, wire::hex(&f.bytes), f.dest)
        });
    }
}

/// C22: how often a client or monitor without a tunnel asks for one.
fn check_attempts(v: &View, rep: &mut Report, end: u64) {
    let mut at: Vec<(u64, usize)> = v.connects.clone();
    at.extend(v.send_err.iter().filter(|e| e.2 == 0x0205).map(|e| (e.0, e.1)));
    at.sort_by_key(|a| a.1);
    for (k, a) in at.iter().enumerate() {
        let next = at.get(k + 1);
        // anything that may have been taken for a tunnel
        let granted = v
            .recv
            .iter()
            .find(|f| f.i > a.1 && next.map(|n| f.i < n.1).unwrap_or(true) && f.bytes.get(2..4) == Some(&[2, 6]) && f.bytes.get(7).map(|s| *s == 0).unwrap_or(true));
        if granted.is_some() {
            continue;
        }
        if let Some(n) = next {
            rep.judge(22, "pause after an attempt that failed", n.0 >= a.0 + 9_000, n.0, || {
                format!("{:?} {}: asked for a tunnel at {} and, refused or unanswered, again at {}", v.kind, v.inst, a.0, n.0)
            });
        }
        let due = a.0 + 45_000;
        // a socket error that waited may have been the end of an attempt of its own
        let mut due = due + v.slack(a.0, due);
        for e in v.recv_err.iter().filter(|e| e.0 >= a.0) {
            if e.0 <= due {
                due += 12_000;
            }
        }
        let over = v.released.unwrap_or(end).min(end);
        if due >= over {
            continue;
        }
        rep.judge(22, "asks again", next.map(|n| n.0 <= due).unwrap_or(false), due, || {
            format!("{:?} {}: asked for a tunnel at {}, got none and did not ask again by {}", v.kind, v.inst, a.0, due)
        });
    }
}

/// C24: bytes one client or monitor may hold.
const MEM_EACH: i64 = 512 * 1024;

fn check_memory(r: &RunResult, rep: &mut Report) {
    let most = MEM_EACH * r.plan.insts.len().max(1) as i64;
    let (t, peak) = r.peak_mem;
    rep.judge(24, "memory stays bounded", peak <= most, t, || {
        format!("{} clients and monitors held {} bytes by {}; the telegrams, tunnels and calls so far should leave no more than {}", r.plan.insts.len(), peak, t, most)
    });
}

/// C23: tasks and sockets at every moment.
fn check_resources(r: &RunResult, v: &View, rep: &mut Report) {
    let (mut tasks, mut socks, mut calls) = (0i64, 0i64, 0i64);
    let (mut mine, mut ops) = (std::collections::HashSet::new(), std::collections::HashSet::new());
    let mut told = false;
    let by = v.released.map(|rel| (rel, rel + 5000 + v.slack(rel.saturating_sub(1000), rel + 5000)));
    let mut checked = false;
    for rec in &r.hist {
        if let (Some((rel, by)), false) = (by, checked) {
            if rec.t > by {
                checked = true;
                rep.judge(23, "no task left after release", tasks == 0, by, || {
                    format!("{:?} {}: released at {}, and {} of its tasks still run at {}", v.kind, v.inst, rel, tasks, by)
                });
            }
        }
        match &rec.ev {
            Ev::TaskUp { inst } if *inst == v.inst => tasks += 1,
            Ev::TaskDown { inst } if *inst == v.inst => tasks -= 1,
            Ev::Bind { sock, inst } if *inst == v.inst => {
                mine.insert(*sock);
                socks += 1;
            }
            Ev::Closed { sock } if mine.remove(sock) => socks -= 1,
            Ev::OpStart { op, inst, .. } if *inst == v.inst => {
                ops.insert(*op);
                calls += 1;
            }
            Ev::OpEnd { op, .. } if ops.remove(op) => calls -= 1,
            _ => continue,
        }
        if told {
            continue;
        }
        if tasks > 8 + 2 * calls {
            told = true;
            rep.judge(23, "tasks stay few", false, rec.t, || {
                format!("{:?} {}: {} tasks at {} with {} calls in progress, after {} tunnels", v.kind, v.inst, tasks, rec.t, calls, v.epochs.len())
            });
        }
        if socks > 2 {
            told = true;
            rep.judge(23, "sockets stay few", false, rec.t, || {
                format!("{:?} {}: {} sockets at {}, after {} tunnels", v.kind, v.inst, socks, rec.t, v.epochs.len())
            });
        }
    }
    if v.epochs.len() > 8 {
        rep.ev(23, "tasks stay few");
        rep.ev(23, "sockets stay few");
    }
}

fn check_recovery(r: &RunResult, v: &View, items: &[Item], rep: &mut Report, end: u64) {
    let plan = &r.plan;
    // a disconnect that failed in time leaves everything as it was
    let closing = v.ops.iter().any(|o| o.kind == OpKind::Disconnect && !(o.err() && o.t1 < plan.quiet_at + 100_000));
    if closing || v.released.is_some() {
        return;
    }
    let from = plan.quiet_at + 300_000;
    let answering = |a: u16| plan.devices.iter().any(|d| d.addr == a && d.answers);
    for o in &v.ops {
        if o.t0 < from || o.out.is_none() || o.cancelled() {
            continue;
        }
        if !expect_ok(plan, v, o, &answering) {
            continue;
        }
        rep.judge(8, "calls succeed again", o.ok(), o.t1, || {
            format!(
                "{:?} {}: faults stopped at {}, {:?} at {} still ended as {:?}",
                v.kind, v.inst, plan.quiet_at, o.kind, o.t0, o.out
            )
        });
    }
    if v.kind == Kind::Monitor {
        for s in &plan.steps {
            if s.at < from || s.at + 7000 > end {
                continue;
            }
            if let Action::Bus(spec) = &s.act {
                let think = plan.insts[v.inst].think_ms as u64 * 20;
                if !v.consuming(s.at.saturating_sub(40_000), s.at + 5000 + think) || s.at + 5000 + think > end {
                    continue;
                }
                let ok = v.got.iter().any(|g| {
                    g.0 >= s.at && g.0 <= s.at + 5000 + think && g.2.dest == spec.dest && g.2.src == spec.src && g.2.value == spec.value
                });
                rep.judge(8, "telegrams arrive again", ok, s.at + 5000, || {
                    format!(
                        "monitor {}: faults stopped at {}, the telegram on the bus at {} for {:04x} was not handed out",
                        v.inst, plan.quiet_at, s.at, spec.dest
                    )
                });
            }
        }
    }
    let _ = items;
}

/// In a world without faults this call must succeed.
fn expect_ok(plan: &Plan, v: &View, o: &OpV, answering: &dyn Fn(u16) -> bool) -> bool {
    match &o.kind {
        OpKind::Read { addr, .. } => v.kind == Kind::Monitor || answering(*addr),
        OpKind::Write { value, small, .. } => encodable(value, *small),
        OpKind::Solicit { .. } | OpKind::Status | OpKind::Flush => true,
        OpKind::IsConnected => false,
        OpKind::Disconnect => false,
    }
    .then_some(())
    .map(|_| {
        // the device may be slow to answer
        let _ = plan;
        true
    })
    .unwrap_or(false)
}

fn check_release(v: &View, reqs: &[Req], rep: &mut Report) {
    let Some(rel) = v.released else { return };
    let s = v.slack(rel.saturating_sub(1000), rel + 5000);
    if v.disc_start.is_none() {
        if let Some(k) = v.epochs.iter().rposition(|e| e.t + 1000 <= rel && e.end_t > rel) {
            let e = &v.epochs[k];
            let by = rel + 2000 + s;
            // already given back, because a request stayed without acknowledgement
            let quit = e.quit_t.map(|q| q < rel).unwrap_or(false) && gave_up(v, reqs, k, rel);
            let dead = v.recv.iter().any(|f| f.i > e.i && f.i < e.end_i && f.t <= by && death(f, e.ch));
            if !dead && !quit && !v.trouble_in(e.t, by) && v.end > by && e.end_t > by {
                let ok = v
                    .sent
                    .iter()
                    .any(|f| f.t + 100 >= rel && f.t <= by && matches!(&f.f, Some(Frame::DiscReq { ch, .. }) if *ch == e.ch));
                rep.judge(17, "tunnel given back", ok, by, || {
                    format!("{:?} {}: released at {} and channel {} was not closed", v.kind, v.inst, rel, e.ch)
                });
            }
        }
    }
    let by = rel + 5000 + s;
    if v.end > by {
        for sock in &v.socks {
            let ok = v.closed.iter().any(|(k, t)| k == sock && *t <= by);
            rep.judge(17, "socket closed", ok, by, || {
                format!("{:?} {}: released at {} and its socket is still open", v.kind, v.inst, rel)
            });
        }
        let late = v.sent.iter().find(|f| f.t > by);
        rep.judge(17, "silent after release", late.is_none(), by, || {
            format!("{:?} {}: released at {} and still sends at {}", v.kind, v.inst, rel, late.unwrap().t)
        });
    }
}

/// Claims that need a world in which only one kind of thing goes wrong.
fn check_profile(plan: &Plan, v: &View, items: &[Item], rep: &mut Report) {
    let base = plan.profile.split('-').next().unwrap_or("");
    let answering = |a: u16| plan.devices.iter().any(|d| d.addr == a && d.answers);
    let up = v.epochs.first().map(|e| e.t + 1000).unwrap_or(u64::MAX);
    let con_fault = plan
        .steps
        .iter()
        .any(|s| matches!(s.act, Action::GwConNeg { .. } | Action::GwConNone { .. } | Action::GwConLate { .. }));
    match base {
        "cancel" => {
            let Some(first) = v.ops.iter().filter(|o| o.cancelled()).map(|o| o.t1).min() else { return };
            for o in &v.ops {
                if o.t0 < first || o.t0 < up || o.cancelled() || o.out.is_none() || !expect_ok(plan, v, o, &answering) {
                    continue;
                }
                rep.judge(16, "calls after an abandoned one succeed", o.ok(), o.t1, || {
                    format!(
                        "{:?} {}: a call was abandoned at {}, then {:?} at {} ended as {:?}",
                        v.kind, v.inst, first, o.kind, o.t0, o.out
                    )
                });
            }
            rep.ev(16, "tunnel survives abandoned calls");
        }
        "overload" => {
            let paused = v.consumer.iter().any(|c| !c.1);
            let hundred = items.iter().filter(|x| x.acked).nth(99).map(|x| x.t);
            let Some(h) = hundred else { return };
            if v.kind == Kind::Client {
                for o in &v.ops {
                    if o.t1 < h || o.t0 < up || o.out.is_none() || !expect_ok(plan, v, o, &answering) || o.cancelled() {
                        continue;
                    }
                    rep.judge(18, "client works amid traffic", o.ok(), o.t1, || {
                        format!("client {}: after {} telegrams, {:?} at {} ended as {:?}", v.inst, 100, o.kind, o.t0, o.out)
                    });
                }
                rep.ev(18, "tunnel survives unread traffic");
            } else {
                let resume = v.consumer.iter().filter(|c| c.1).map(|c| c.0).max().unwrap_or(0);
                let flood_end = plan
                    .steps
                    .iter()
                    .filter_map(|s| match &s.act {
                        Action::Flood { n, gap_ms, .. } => Some(s.at + *n as u64 * *gap_ms as u64),
                        _ => None,
                    })
                    .max()
                    .unwrap_or(0);
                let from = resume.max(flood_end) + 60_000;
                for s in &plan.steps {
                    if s.at < from || s.at + 8000 > v.end {
                        continue;
                    }
                    if let Action::Bus(spec) = &s.act {
                        if spec.code != wire::L_IND || !spec.addinfo.is_empty() {
                            continue;
                        }
                        let ok = v
                            .got
                            .iter()
                            .any(|g| g.0 >= s.at && g.0 <= s.at + 8000 && g.2.dest == spec.dest && g.2.src == spec.src && g.2.value == spec.value);
                        rep.judge(18, "monitor recovers after a pause", ok, s.at + 8000, || {
                            format!("monitor {}: reading again since {}, the telegram at {} was not handed out", v.inst, resume, s.at)
                        });
                    }
                }
                if paused {
                    rep.ev(18, "paused reader");
                }
            }
        }
        "hostile" | "noise" | "calm" | "dense" => {
            let p10 = base == "hostile" || base == "noise";
            for o in &v.ops {
                if o.t0 < up || o.out.is_none() || o.cancelled() || !expect_ok(plan, v, o, &answering) {
                    continue;
                }
                let con = con_fault && matches!(o.kind, OpKind::Write { .. } | OpKind::Read { .. });
                let after = o.t0 > plan.quiet_at;
                if p10 && (after || !con) {
                    rep.judge(10, "calls succeed despite the noise", o.ok(), o.t1, || {
                        format!("{:?} {}: {:?} at {} ended as {:?}", v.kind, v.inst, o.kind, o.t0, o.out)
                    });
                }
                if !p10 && !con {
                    let p = match o.kind {
                        OpKind::Read { .. } if v.kind == Kind::Client => 1,
                        OpKind::Write { .. } if v.kind == Kind::Client => 2,
                        OpKind::Status => 13,
                        _ => 3,
                    };
                    rep.judge(p, "succeeds when nothing goes wrong", o.ok(), o.t1, || {
                        format!("{:?} {}: {:?} at {} ended as {:?} in a world without faults", v.kind, v.inst, o.kind, o.t0, o.out)
                    });
                }
            }
        }
        _ => {}
    }
}

fn check_search(r: &RunResult, rep: &mut Report) {
    for (idx, s) in r.plan.steps.iter().enumerate() {
        let Action::Search {
            timeout_ms,
            devices,
            send_err,
            bind_err,
        } = &s.act
        else {
            continue;
        };
        let Some((i0, t0, mine)) = r.hist.iter().enumerate().find_map(|(i, x)| match x.ev {
            Ev::SearchStart { op, inst, .. } if op == idx => Some((i, x.t, inst)),
            _ => None,
        }) else {
            continue;
        };
        let endrec = r.hist.iter().enumerate().find_map(|(i, x)| match &x.ev {
            Ev::OpEnd { op, out } if *op == idx && i > i0 => Some((i, x.t, out.clone())),
            _ => None,
        });
        let limit = t0 + *timeout_ms as u64 + 1000;
        let Some((i1, t1, out)) = endrec else {
            if r.sim_ms > limit {
                rep.judge(14, "ends in time", false, limit, || {
                    format!("search with a timeout of {} ms started at {} did not end", timeout_ms, t0)
                });
            }
            continue;
        };
        rep.judge(14, "ends in time", t1 <= limit, t1, || {
            format!("search with a timeout of {} ms took {} ms", timeout_ms, t1 - t0)
        });
        // sockets bound by this search
        let socks: Vec<u64> = r.hist[i0..i1]
            .iter()
            .filter_map(|x| match x.ev {
                Ev::Bind { sock, inst } if inst >= SEARCH_BASE => Some((sock, inst)),
                _ => None,
            })
            .filter(|(_, inst)| {
                *inst == mine
            })
            .map(|x| x.0)
            .collect();
        if *bind_err && socks.is_empty() {
            rep.judge(14, "failure reported", matches!(out, Out::Err(_)), t1, || format!("search got no socket and ended as {:?}", out));
            continue;
        }
        let failed = r.hist[i0..i1].iter().any(|x| matches!(&x.ev, Ev::SendErr { sock, .. } if socks.contains(sock)));
        if *send_err || failed {
            if failed {
                rep.judge(14, "failure reported", matches!(out, Out::Err(_)), t1, || {
                    format!("search could not send its request and ended as {:?}", out)
                });
            }
            continue;
        }
        let mut want: Vec<(usize, u64)> = vec![]; // device, time the datagram was delivered to the code
        let mut req_ok = false;
        for rec in &r.hist[i0..i1] {
            match &rec.ev {
                Ev::Recv { sock, dg } if socks.contains(sock) => {
                    let b = &r.dgs[*dg as usize].bytes;
                    if let Some(k) = devices.iter().position(|d| d.well_formed && d.bytes == *b) {
                        want.push((k, rec.t));
                    }
                }
                Ev::Sent { sock, dg } if socks.contains(sock) => {
                    let d = &r.dgs[*dg as usize];
                    let port = r.socks[*sock as usize].1;
                    let ok = d.dest == Some(SocketAddr::V4(MCAST))
                        && matches!(wire::decode(&d.bytes), Some(Frame::SearchReq { hpai }) if hpai.proto == 1 && hpai.addr.port() == port);
                    rep.judge(14, "request well-formed", ok, rec.t, || format!("search sent {} to {:?}", wire::hex(&d.bytes), d.dest));
                    rep.judge(19, "search request well-formed", ok, rec.t, || format!("search sent {} to {:?}", wire::hex(&d.bytes), d.dest));
                    req_ok = true;
                }
                _ => {}
            }
        }
        rep.judge(14, "asks", req_ok, t1, || "search sent no request".to_string());
        // everything a device delivered in time has been taken out of the socket: the code must
        // have kept listening for the whole of its timeout
        rep.judge(14, "listens to the end", t1 + 20 >= t0 + *timeout_ms as u64 || !out.is_ok(), t1, || {
            format!("search with a timeout of {} ms returned after {} ms", timeout_ms, t1 - t0)
        });
        let expect: Vec<wire::SearchInfo> = want.iter().filter_map(|(k, _)| wire::parse_search(&devices[*k].bytes)).collect();
        let clean = |v: &[wire::SearchInfo]| -> Vec<wire::SearchInfo> {
            v.iter()
                .cloned()
                .map(|mut x| {
                    x.extra.clear();
                    // the other bits of the device status are reserved
                    x.status &= 1;
                    x
                })
                .collect()
        };
        let ok = match &out {
            Out::Search(v) => clean(v) == clean(&expect),
            _ => false,
        };
        rep.judge(14, "exactly the answers received", ok, t1, || {
            format!(
                "search received {} well-formed answers of {} datagrams and ended as {}",
                expect.len(),
                r.hist[i0..i1].iter().filter(|x| matches!(&x.ev, Ev::Recv { sock, .. } if socks.contains(sock))).count(),
                match &out {
                    Out::Search(v) => format!("{} devices", v.len()),
                    o => format!("{:?}", o),
                }
            )
        });
        // nothing that arrived well within the time is left unread
        let unread = devices
            .iter()
            .enumerate()
            .filter(|(k, d)| {
                d.well_formed
                    && t0 + d.delay_ms as u64 + 2 * r.plan.knobs.latency_ms as u64 + r.plan.rates.jitter_ms as u64 * 3 + 50 < t1
                    && !want.iter().any(|w| w.0 == *k || devices[w.0].bytes == d.bytes)
            })
            .count();
        rep.judge(14, "nothing left unread", unread == 0, t1, || format!("search left {} answers unread", unread));
    }
}
