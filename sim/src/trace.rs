//! Readable event logs, their digests, and the state measure of the evidence.

use crate::app::RunResult;
use crate::rng::mix;
use crate::wire;
use crate::world::*;

fn dg(r: &RunResult, d: u64) -> String {
    let b = &r.dgs[d as usize].bytes;
    let h = if r.dgs[d as usize].hostile { " (injected)" } else { "" };
    match wire::decode(b) {
        Some(wire::Frame::TunReq { ch, seq, cemi, .. }) => match wire::Tel::decode(&cemi) {
            Some(t) => format!(
                "#{} TUNNELING_REQUEST ch={} seq={} code={:02x} {} apci={} ctrl1={:02x} value={}{}{}",
                d,
                ch,
                seq,
                t.code,
                crate::app::address_text(t.dest, 3),
                t.apci,
                t.ctrl1,
                wire::hex(&t.value),
                if t.small { " (6 bit)" } else { "" },
                h
            ),
            None => format!("#{} TUNNELING_REQUEST ch={} seq={} cemi={}{}", d, ch, seq, wire::hex(&cemi), h),
        },
        Some(f) => {
            let s = format!("{:?}", f);
            format!("#{} {}{}", d, s.chars().take(160).collect::<String>(), h)
        }
        None => format!("#{} raw {}{}", d, wire::hex(b), h),
    }
}

pub fn line(r: &RunResult, rec: &Rec) -> String {
    let s = match &rec.ev {
        Ev::Sent { sock, dg: d } => format!("sock{} > {}", sock, dg(r, *d)),
        Ev::Recv { sock, dg: d } => format!("sock{} < {}", sock, dg(r, *d)),
        Ev::GwRx { dg: d } => format!("gateway < #{}", d),
        Ev::Lost { dg: d, why } => format!("lost ({}) {}", why, dg(r, *d)),
        e => format!("{:?}", e),
    };
    format!("{:>9} {}", rec.t, s)
}

pub fn lines(r: &RunResult) -> Vec<String> {
    r.hist.iter().map(|rec| line(r, rec)).collect()
}

pub fn digest(r: &RunResult) -> u64 {
    let mut h = r.sched_hash;
    for rec in &r.hist {
        for b in format!("{} {:?}", rec.t, rec.ev).bytes() {
            h = mix(h ^ b as u64).wrapping_add(0x9e37);
        }
    }
    for d in &r.dgs {
        for b in &d.bytes {
            h = mix(h ^ *b as u64).wrapping_add(0x79b9);
        }
    }
    h
}

/// Abstract protocol states passed through.
pub fn states(r: &RunResult) -> Vec<u64> {
    let n = r.plan.insts.len();
    let mut up = vec![0u64; n];
    let mut flight = vec![0u64; n];
    let mut unacked = vec![0u64; n];
    let mut since = vec![0u64; n];
    let mut gw = 1u64;
    let mut opi = std::collections::HashMap::new();
    let mut out = vec![];
    for rec in &r.hist {
        let (inst, kind): (usize, u64) = match &rec.ev {
            Ev::GwDown => {
                gw = 0;
                continue;
            }
            Ev::GwUp => {
                gw = 1;
                continue;
            }
            Ev::OpStart { op, inst, kind } => {
                opi.insert(*op, *inst);
                flight[*inst] += 1;
                (
                    *inst,
                    10 + match kind {
                        crate::plan::OpKind::Read { .. } => 0,
                        crate::plan::OpKind::Write { .. } => 1,
                        crate::plan::OpKind::Status => 2,
                        crate::plan::OpKind::Disconnect => 3,
                        _ => 4,
                    },
                )
            }
            Ev::OpEnd { op, out: o } => {
                let Some(&i) = opi.get(op) else { continue };
                flight[i] = flight[i].saturating_sub(1);
                (i, 20 + o.is_ok() as u64 + 2 * (*o == Out::Cancelled) as u64)
            }
            Ev::Sent { sock, dg } | Ev::Recv { sock, dg } => {
                let i = r.socks[*sock as usize].0;
                if i >= n {
                    continue;
                }
                let sent = matches!(rec.ev, Ev::Sent { .. });
                let b = &r.dgs[*dg as usize].bytes;
                let svc = if b.len() >= 4 { u16::from_be_bytes([b[2], b[3]]) as u64 } else { 0 };
                match (sent, svc) {
                    (true, 0x0205) => {
                        up[i] = 0;
                        since[i] = 0;
                        unacked[i] = 0;
                    }
                    (false, 0x0206) if b.len() >= 8 && b[7] == 0 => up[i] = 1,
                    (true, 0x0420) => unacked[i] += 1,
                    (false, 0x0421) => unacked[i] = unacked[i].saturating_sub(1),
                    _ => {}
                }
                since[i] += 1;
                (i, 100 + svc * 2 + sent as u64)
            }
            Ev::Got { inst, .. } => (*inst, 30),
            Ev::Released { inst } => (*inst, 31),
            _ => continue,
        };
        if inst >= n {
            continue;
        }
        let s = [
            r.plan.insts[inst].kind as u64,
            kind,
            up[inst],
            flight[inst].min(4),
            unacked[inst].min(3),
            since[inst].min(40) / 4,
            gw,
        ];
        let mut h = 7u64;
        for x in s {
            h = mix(h.wrapping_mul(31).wrapping_add(x));
        }
        out.push(h);
    }
    out.sort_unstable();
    out.dedup();
    out
}
