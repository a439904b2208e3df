//! Builds a plan from a profile name and a seed. One (profile, seed) pair is one plan.

use crate::plan::*;
use crate::rng::Rng;
use crate::wire::{self, SearchInfo};
use std::net::{Ipv4Addr, SocketAddrV4};

pub const PROFILES: &[&str] = &[
    "calm", "dense", "lossy", "outage", "hostile", "noise", "cancel", "overload", "flooded", "lifecycle", "search", "mixed", "wrap", "churn", "deluge",
];

struct G {
    r: Rng,
    steps: Vec<Step>,
    devices: Vec<Device>,
    kinds: Vec<Kind>,
}

fn level_of(r: &mut Rng, addr: u16) -> u8 {
    match r.below(10) {
        0 | 1 => 1,
        2..=4 if addr & 0x7ff <= 255 => 2,
        _ => 3,
    }
}

impl G {
    fn at(&mut self, at: u64, act: Action) {
        self.steps.push(Step { at, act });
    }
    fn addr(&mut self) -> u16 {
        let k = self.r.below(self.devices.len() as u64 + 1) as usize;
        if k < self.devices.len() {
            self.devices[k].addr
        } else {
            (1 + self.r.below(65535)) as u16
        }
    }
    fn dev_addr(&mut self) -> u16 {
        let k = self.r.below(self.devices.len() as u64) as usize;
        self.devices[k].addr
    }
    fn answering(&mut self) -> u16 {
        let v: Vec<u16> = self.devices.iter().filter(|d| d.answers).map(|d| d.addr).collect();
        *self.r.pick(&v)
    }
    fn value(&mut self) -> (Vec<u8>, bool) {
        if self.r.chance(400) {
            (vec![self.r.below(64) as u8], true)
        } else {
            let n = *self.r.pick(&[1usize, 1, 1, 2, 2, 3, 4, 4, 6, 8, 13, 14]);
            let mut v = self.r.bytes(n);
            if self.r.chance(120) {
                // the values that are easily taken for something else
                let b = *self.r.pick(&[0u8, 1, 0x3f, 0x40, 0x80, 0xff]);
                v.iter_mut().for_each(|x| *x = b);
            }
            (v, false)
        }
    }
    /// Longer than a standard frame can carry.
    fn long_value(&mut self) -> Vec<u8> {
        let n = match self.r.below(3) {
            0 => *self.r.pick(&[15usize, 16, 17, 31, 32, 63, 64, 127, 128, 252, 253]),
            1 => self.r.range(230, 253) as usize,
            _ => self.r.range(15, 253) as usize,
        };
        self.r.bytes(n)
    }
    fn write_op(&mut self) -> OpKind {
        let addr = self.addr();
        let level = level_of(&mut self.r, addr);
        let (mut value, small) = if self.r.chance(40) { (self.long_value(), false) } else { self.value() };
        if small && self.r.chance(100) {
            // more than six bits: only the low six can travel
            value[0] |= *self.r.pick(&[0x40u8, 0x80, 0xc0]);
        }
        OpKind::Write { addr, level, value, small }
    }
    fn read_op(&mut self) -> OpKind {
        let addr = if self.r.chance(900) { self.answering() } else { self.addr() };
        let level = level_of(&mut self.r, addr);
        OpKind::Read { addr, level }
    }
    fn op(&mut self, inst: usize) -> OpKind {
        match self.kinds[inst] {
            Kind::Client => match self.r.below(100) {
                0..=46 => self.read_op(),
                47..=84 => self.write_op(),
                85..=96 => OpKind::Status,
                _ => OpKind::Flush,
            },
            Kind::Monitor => match self.r.below(100) {
                0..=39 => self.write_op(),
                40..=74 => {
                    let addr = self.addr();
                    let level = level_of(&mut self.r, addr);
                    OpKind::Solicit { addr, level }
                }
                _ => OpKind::IsConnected,
            },
        }
    }
    fn near(&mut self, addr: u16) -> u16 {
        let a = addr ^ 1 << self.r.below(16);
        if a == 0 {
            addr ^ 0x8001
        } else {
            a
        }
    }
    /// Something on the bus that differs from what the call waits for in one respect.
    fn lookalike(&mut self, at: u64, inst: usize, op: &OpKind) {
        let d = self.r.below(400);
        match op {
            OpKind::Read { addr, .. } => {
                let a = self.near(*addr);
                let mut t = self.tel_to(a);
                t.apci = *self.r.pick(&[wire::APCI_WRITE, wire::APCI_RESPONSE]);
                if self.r.chance(200) {
                    // the address, but as an individual one
                    t.dest = *addr;
                    t.ctrl2 = 0x60;
                }
                self.at(at + d, Action::Bus(t));
            }
            OpKind::Write { addr, value, small, .. } if !value.is_empty() && value.len() <= 253 => {
                let mut t = TelSpec {
                    code: wire::L_CON,
                    addinfo: vec![],
                    ctrl1: if value.len() <= 14 { 0xbc } else { 0x3c },
                    ctrl2: 0xe0,
                    src: 0x11f0,
                    dest: *addr,
                    apci: wire::APCI_WRITE,
                    small: *small,
                    value: if *small { vec![value[0] & 0x3f] } else { value.clone() },
                };
                let n = t.value.len() as u64;
                match self.r.below(6) {
                    0 => t.dest = self.near(*addr),
                    1 if *small => t.value[0] ^= 1 << self.r.below(6),
                    1 => {
                        let k = self.r.below(n) as usize;
                        t.value[k] ^= 1 << self.r.below(8);
                    }
                    2 if !*small && n > 1 => {
                        t.value.pop();
                    }
                    2 if !*small && n < 14 => t.value.push(0),
                    3 => t.apci = wire::APCI_RESPONSE,
                    4 => {
                        let mut cemi = t.tel().encode();
                        let k = self.r.range(1, n.min(4)) as usize;
                        cemi.truncate(cemi.len() - k);
                        self.at(at + d / 8, Action::WeirdCemi { inst, cemi });
                        return;
                    }
                    _ => t.code = wire::L_IND,
                }
                if self.r.chance(300) {
                    t.ctrl1 |= 1;
                }
                self.at(at + d / 8, Action::StrayCon { inst, spec: t });
            }
            _ => {}
        }
    }
    fn do_op(&mut self, at: u64, inst: usize) {
        let op = self.op(inst);
        if self.kinds[inst] == Kind::Client && self.r.chance(60) {
            self.lookalike(at, inst, &op);
        }
        self.at(at, Action::Op { inst, op, cancel_ms: None });
    }
    /// A burst of concurrent calls on one handle.
    fn burst(&mut self, at: u64, inst: usize, n: u64) {
        for _ in 0..n {
            let d = self.r.below(4) * self.r.below(30);
            self.do_op(at + d, inst);
        }
    }
    fn addinfo(&mut self, big: bool) -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..self.r.range(1, 2) {
            let t = *self.r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xfe]);
            let n = if big { self.r.range(20, 110) } else { self.r.range(1, 8) } as usize;
            v.push(t);
            v.push(n as u8);
            let b = self.r.bytes(n);
            v.extend(b);
        }
        v
    }
    fn tel(&mut self) -> TelSpec {
        let dest = if self.r.chance(650) { self.dev_addr() } else { self.addr() };
        self.tel_to(dest)
    }
    fn tel_to(&mut self, dest: u16) -> TelSpec {
        let apci = match self.r.below(20) {
            0..=10 => wire::APCI_WRITE,
            11..=14 => wire::APCI_RESPONSE,
            15..=18 => wire::APCI_READ,
            _ => *self.r.pick(&[3u8, 5, 8, 10]),
        };
        let (value, small, ext) = if apci == wire::APCI_READ {
            if self.r.chance(80) {
                // nothing forbids it
                let (v, _) = self.value();
                (v, false, false)
            } else {
                (vec![0], true, false)
            }
        } else if self.r.chance(80) {
            (self.long_value(), false, true)
        } else {
            let (v, s) = self.value();
            (v, s, false)
        };
        let addinfo = match self.r.below(20) {
            0 | 1 => self.addinfo(false),
            2 => self.addinfo(true),
            _ => vec![],
        };
        let group = !self.r.chance(80);
        TelSpec {
            code: if self.r.chance(60) { wire::L_BUSMON } else { wire::L_IND },
            addinfo,
            ctrl1: if ext {
                *self.r.pick(&[0x3cu8, 0x1c, 0x30])
            } else {
                *self.r.pick(&[0xbcu8, 0xbc, 0x9c, 0xb0, 0xbe, 0xac, 0x90])
            },
            ctrl2: if group { *self.r.pick(&[0xe0u8, 0xe0, 0xd0, 0x80]) } else { 0x60 },
            src: if self.r.chance(200) { self.r.next() as u16 } else { 0x1100 + self.r.below(250) as u16 },
            dest,
            apci,
            small,
            value,
        }
    }
    /// A plain group value write, the kind every consumer must see.
    fn plain_tel(&mut self) -> TelSpec {
        let dest = self.dev_addr();
        let (value, small) = self.value();
        TelSpec {
            code: wire::L_IND,
            addinfo: vec![],
            ctrl1: 0xbc,
            ctrl2: 0xe0,
            src: 0x1100 + self.r.below(250) as u16,
            dest,
            apci: wire::APCI_WRITE,
            small,
            value,
        }
    }
    fn bus(&mut self, at: u64) {
        let t = self.tel();
        self.at(at, Action::Bus(t));
    }
    /// Telegrams around `at`, close together.
    fn bus_burst(&mut self, at: u64, n: u64) {
        for _ in 0..n {
            let d = self.r.below(60);
            self.bus(at + d);
        }
    }
    fn time(&mut self, lo: u64, hi: u64) -> u64 {
        self.r.range(lo, hi.max(lo))
    }
    fn insts(&self) -> usize {
        self.kinds.len()
    }
    fn any_inst(&mut self) -> usize {
        self.r.below(self.kinds.len() as u64) as usize
    }
    /// Ordinary work for every instance between `lo` and `hi`.
    fn work(&mut self, lo: u64, hi: u64, n_ops: u64, n_bus: u64) {
        for inst in 0..self.insts() {
            let mut left = n_ops;
            while left > 0 {
                let at = self.time(lo, hi);
                if self.r.chance(250) && left >= 3 {
                    let n = self.r.range(2, 5.min(left));
                    self.burst(at, inst, n);
                    left -= n;
                } else {
                    self.do_op(at, inst);
                    left -= 1;
                }
            }
        }
        let mut left = n_bus;
        while left > 0 {
            let at = self.time(lo, hi);
            if self.r.chance(200) && left >= 4 {
                let n = self.r.range(2, 8.min(left));
                self.bus_burst(at, n);
                left -= n;
            } else {
                self.bus(at);
                left -= 1;
            }
        }
    }
    /// Calls and telegrams after the faults stop, from `from` to `to`.
    fn tail(&mut self, from: u64, to: u64, every: u64) {
        let mut t = from + self.time(50, 900);
        while t < to {
            for inst in 0..self.insts() {
                let d = self.r.below(200);
                let op = match self.kinds[inst] {
                    Kind::Client => {
                        if self.r.chance(600) {
                            let addr = self.answering();
                            OpKind::Read { addr, level: 3 }
                        } else {
                            self.write_op()
                        }
                    }
                    Kind::Monitor => self.op(inst),
                };
                self.at(t + d, Action::Op { inst, op, cancel_ms: None });
            }
            let s = self.plain_tel();
            let at = t + 8_000 + self.r.below(1000);
            if at < to {
                self.at(at, Action::Bus(s));
            }
            t += every + self.r.below(700);
        }
    }
    fn svc(&mut self) -> (Dir, u16) {
        match self.r.below(17) {
            12 => (Dir::C2G, 0x0209),
            13 => (Dir::G2C, 0x020a),
            14 => (Dir::G2C, 0x0209),
            15 => (Dir::G2C, 0x0423),
            0 | 1 => (Dir::C2G, 0x0420),
            2 | 3 => (Dir::G2C, 0x0421),
            4 | 5 => (Dir::G2C, 0x0420),
            6 | 7 => (Dir::C2G, 0x0421),
            8 => (Dir::C2G, 0x0205),
            9 => (Dir::G2C, 0x0206),
            10 => (Dir::C2G, 0x0207),
            11 => (Dir::G2C, 0x0208),
            _ => (Dir::C2G, 0x0424),
        }
    }
    fn targeted(&mut self, at: u64) {
        let (dir, svc) = self.svc();
        let n = *self.r.pick(&[1u32, 1, 1, 2, 2, 3]);
        let act = match self.r.below(6) {
            0..=2 => Action::LoseNext { dir, svc, n },
            3 => {
                let ms = self.time(200, 2500) as u32;
                Action::DelayNext { dir, svc, n: 1, ms }
            }
            _ => {
                let ms = self.time(1, 1500) as u32;
                Action::DupNext { dir, svc, n, ms }
            }
        };
        self.at(at, act);
        // something for it to hit
        if svc == 0x0420 || svc == 0x0421 {
            let d = self.r.below(300);
            if dir == Dir::C2G && svc == 0x0420 || dir == Dir::G2C && svc == 0x0421 {
                let i = self.any_inst();
                self.do_op(at + d, i);
            } else {
                self.bus(at + d);
            }
        }
    }
    /// Something happens just when a datagram of some kind is sent or received.
    fn when(&mut self, at: u64, profile: &str) {
        let inst = self.any_inst();
        let (send, svc) = *self.r.pick(&[
            (true, 0x0205u16), (true, 0x0207), (true, 0x0207), (true, 0x0207), (true, 0x0209), (true, 0x020a), (true, 0x0420), (true, 0x0420), (true, 0x0421), (true, 0x0424),
            (false, 0x0206), (false, 0x0206), (false, 0x0208), (false, 0x0209), (false, 0x020a), (false, 0x0420), (false, 0x0421), (false, 0x0423),
        ]);
        let ms = *self.r.pick(&[0u32, 0, 0, 0, 1, 2, 3, 10, 998, 999, 1000, 1001, 1002, 1999, 2000, 2001]);
        let k = self.r.below(12);
        let act = match profile {
            "lifecycle" if k < 4 => Action::Drop { inst },
            "lifecycle" if k < 7 => Action::Op { inst, op: OpKind::Disconnect, cancel_ms: None },
            "outage" | "mixed" | "churn" | "lifecycle" if k < 8 => Action::GwClose { inst },
            "outage" | "mixed" | "churn" | "lifecycle" if k < 9 => Action::Icmp { inst },
            _ if k < 10 => {
                let cancel_ms = if profile == "cancel" { Some(CANCEL_POLLS + self.r.below(30) as u32) } else { None };
                Action::Op { inst, op: self.op(inst), cancel_ms }
            }
            _ => Action::Bus(self.tel()),
        };
        self.at(at, Action::When { inst, send, svc, ms, act: Box::new(act) });
    }
    /// A task stops at an awkward place while its tunnel is closed.
    fn stall_at(&mut self, at: u64) {
        let inst = self.any_inst();
        let (send, svc) = *self.r.pick(&[(true, 0x0420u16), (true, 0x0420), (true, 0x0209), (true, 0x0209), (true, 0x0207), (true, 0x0421), (true, 0x0205), (true, 0x0424), (false, 0x0420), (false, 0x0421), (false, 0x0208), (false, 0x0206), (false, 0x020a), (false, 0x0209)]);
        let skip = self.r.below(4) as u32;
        let ms = *self.r.pick(&[1u32, 20, 300, 1100, 1500, 2500, 4000]);
        let close = self.r.chance(700);
        self.at(at, Action::StallAt { inst, send, svc, skip, ms, close });
        match svc {
            0x0209 | 0x0420 | 0x0421 if send || svc == 0x0421 => {
                if svc == 0x0209 || self.r.chance(600) {
                    // not acknowledged in time
                    let n = *self.r.pick(&[1u32, 2, 2]);
                    self.at(at, Action::LoseNext { dir: Dir::G2C, svc: 0x0421, n });
                }
                let d = 1 + self.r.below(50);
                self.do_op(at + d, inst);
                self.bus(at + d);
            }
            0x0207 | 0x0208 | 0x020a => {
                let d = 1 + self.r.below(50);
                self.do_op(at + d, inst);
            }
            0x0205 | 0x0206 | 0x0424 => self.at(at + 1, Action::GwClose { inst }),
            _ => self.bus(at + 1),
        }
        // and one that sees what is left
        let d = 2200 + self.r.below(3500);
        self.do_op(at + d, inst);
    }
    fn outage_fault(&mut self, at: u64, quiet: u64) {
        let i = self.any_inst();
        let long = |g: &mut G| -> u32 {
            match g.r.below(4) {
                0 => g.time(200, 3000) as u32,
                1 => g.time(3000, 15_000) as u32,
                2 => g.time(15_000, 70_000) as u32,
                _ => g.time(60_000, 150_000) as u32,
            }
        };
        let act = match self.r.below(20) {
            18 => {
                let n = self.r.range(1, 2) as u32;
                let code = *self.r.pick(&[0x29u8, 0x21, 0x22]);
                let d = self.r.below(300);
                self.do_op(at + d, i);
                Action::GwAckErr { n, code }
            }
            19 => {
                let ms = self.time(20_000, 90_000) as u32;
                let gap_ms = *self.r.pick(&[50u32, 200, 450, 700, 950]);
                let refuse = self.r.chance(400);
                for _ in 0..self.r.range(2, 6) {
                    let d = self.r.below(ms as u64);
                    self.do_op(at + d, i);
                }
                Action::AckStorm { inst: i, ms, gap_ms, refuse }
            }
            0 | 1 => {
                let ms = long(self);
                Action::Partition { ms, c2g: true, g2c: true }
            }
            2 => {
                let ms = long(self);
                Action::Partition { ms, c2g: true, g2c: false }
            }
            3 => {
                let ms = long(self);
                Action::Partition { ms, c2g: false, g2c: true }
            }
            4 | 5 => {
                let down_ms = long(self);
                let icmp = self.r.chance(400);
                Action::GwCrash { down_ms, icmp }
            }
            6 => {
                let ms = self.time(200, 20_000) as u32;
                Action::GwFreeze { ms }
            }
            7 => {
                let ms = long(self);
                let code = *self.r.pick(&[0x22u8, 0x23, 0x24, 0x29, 0x25, 0x21]);
                Action::GwRefuse { ms, code }
            }
            8..=10 => Action::GwClose { inst: i },
            11 | 12 => {
                let code = *self.r.pick(&[0x21u8, 0x26, 0x27, 0x01]);
                let n = self.r.range(1, 2) as u32;
                Action::GwStatusErr { code, n }
            }
            13 => Action::GwStatusMute { n: self.r.range(1, 2) as u32 },
            14 => Action::Icmp { inst: i },
            _ => {
                let svc = *self.r.pick(&[0u16, 0x0420, 0x0421, 0x0205, 0x0207, 0x020a, 0x0424]);
                let n = self.r.range(1, 3) as u32;
                Action::SendErr { inst: i, n, svc }
            }
        };
        if at < quiet {
            // a refusal matters only around a reconnect
            if matches!(act, Action::GwRefuse { .. }) {
                let inst = self.any_inst();
                self.at(at, act);
                let d = self.r.below(500);
                self.at(at + 1 + d, Action::GwClose { inst });
                return;
            }
            self.at(at, act);
        }
    }
    /// A cEMI whose layout is not an L_Data telegram, or not a complete one.
    fn weird_cemi(&mut self) -> Vec<u8> {
        match self.r.below(12) {
            0 => vec![],
            1 => vec![0x29],
            2 => vec![0x29, 0],
            3 => {
                // additional information longer than the frame
                let n = self.r.range(1, 255) as u8;
                let mut v = vec![0x29, n];
                let k = self.r.below(12) as usize;
                v.extend(self.r.bytes(k));
                v
            }
            4 => {
                // one block that says 254/255 bytes
                let n = *self.r.pick(&[253u8, 254, 255]);
                let mut v = vec![0x29, 0xff, 4, n];
                let k = self.r.below(40) as usize;
                v.extend(self.r.bytes(k));
                v
            }
            5 => {
                let mut v = vec![0x29, 3, 0x0b, 1, 0];
                v.extend(self.plain_tel().tel().service_info());
                v
            }
            6 => {
                // value shorter than it says
                let mut s = self.plain_tel();
                s.small = false;
                s.value = self.r.bytes(4);
                let mut v = s.tel().encode();
                let n = v.len() - self.r.range(1, 4) as usize;
                v.truncate(n);
                v
            }
            7 => {
                // cut anywhere
                let v = self.tel().tel().encode();
                let n = self.r.below(v.len() as u64) as usize;
                v[..n].to_vec()
            }
            8 => {
                let code = *self.r.pick(&[0xf0u8, 0xfb, 0x2d, 0x2f, 0x25, 0x89, 0x00, 0x11]);
                let mut v = vec![code, 0];
                let k = self.r.below(20) as usize;
                v.extend(self.r.bytes(k));
                v
            }
            9 => {
                // truncated confirmation
                let k = self.r.below(6) as usize;
                let mut v = vec![0x2e, 0];
                v.extend(self.r.bytes(k));
                v
            }
            10 => {
                // data length zero
                let mut v = self.plain_tel().tel().encode();
                v.truncate(11);
                v[8] = 0;
                v
            }
            _ => {
                let k = self.r.below(60) as usize;
                self.r.bytes(k)
            }
        }
    }
    fn hostile(&mut self, at: u64) {
        let inst = self.any_inst();
        let spec = match self.r.below(20) {
            19 => {
                let svc = *self.r.pick(&[0x0208u16, 0x0208, 0x0209, 0x0209, 0x020a, 0x0421]);
                let status = if svc == 0x0421 { 0x29 } else { *self.r.pick(&[0u8, 0x21, 0x27]) };
                let cut = if self.r.chance(400) { self.r.range(1, 9) as u8 } else { 0 };
                let at = self.r.below(2) as u8;
                let val = *self.r.pick(&[0u8, 4, 5, 7, 8, 0x11, 0x12, 0x20, 0xff]);
                Inject::OwnBroken { svc, status, cut, at, val }
            }
            16 => {
                let status = *self.r.pick(&[0u8, 0x21]);
                Inject::Own { svc: 0x020a, status }
            }
            17 => {
                // an acknowledgement nobody is waiting for, or a refusal of what nobody sent
                let seq_off = self.r.range(2, 250) as u8;
                let status = *self.r.pick(&[0u8, 0, 0x29]);
                Inject::OwnAck { seq_off, status }
            }
            18 => {
                let spec = match self.r.below(5) {
                    0 => Inject::Own { svc: 0x0209, status: 0 },
                    1 => Inject::Own { svc: 0x0208, status: 0x21 },
                    2 => Inject::OwnAck { seq_off: 0, status: 0 },
                    3 => Inject::Own { svc: 0x0208, status: 0 },
                    _ => {
                        let cemi = self.plain_tel().tel().encode();
                        Inject::Tun { ch_off: 0, seq_off: 0, cemi, cut: 0, len_delta: 0 }
                    }
                };
                self.at(at, Action::Alien { inst, spec });
                return;
            }
            0 => {
                let k = self.r.below(24) as usize;
                Inject::Bytes(self.r.bytes(k))
            }
            1 => Inject::Bytes(vec![]),
            2 => {
                // valid header, unknown or unexpected service
                let svc = *self.r.pick(&[0x0201u16, 0x0202, 0x0203, 0x0204, 0x0205, 0x0207, 0x0310, 0x0530, 0x0422, 0x0424, 0xffff, 0x0740]);
                let k = self.r.below(40) as usize;
                Inject::Bytes(wire::raw(svc, &self.r.bytes(k)))
            }
            3 => {
                // a service the client knows, with a body that is too short
                let svc = *self.r.pick(&[0x0206u16, 0x0208, 0x0209, 0x020a, 0x0420, 0x0421, 0x0423, 0x0425]);
                let k = self.r.below(2) as usize;
                Inject::Bytes(wire::raw(svc, &self.r.bytes(k)))
            }
            4 => {
                // length field that lies
                let ch_off = self.r.below(2) as u8 * 7;
                let cemi = self.plain_tel().tel().encode();
                let real = 10 + cemi.len() as i16;
                let declared = *self.r.pick(&[0i16, 1, 5, 6, 8, 9, real + 1, real + 40, real + 1000, 30000]);
                let len_delta = declared - real;
                Inject::Tun { ch_off, seq_off: 0, cemi, cut: 0, len_delta }
            }
            5 => {
                let cemi = self.plain_tel().tel().encode();
                let cut = self.r.range(1, cemi.len() as u64 + 9) as u16;
                Inject::Tun { ch_off: 0, seq_off: 0, cemi, cut, len_delta: 0 }
            }
            6 | 7 => {
                // another tunnel's telegram
                let cemi = self.plain_tel().tel().encode();
                let seq_off = *self.r.pick(&[0u8, 0, 255, 1, 100]);
                Inject::Tun { ch_off: self.r.range(1, 200) as u8, seq_off, cemi, cut: 0, len_delta: 0 }
            }
            8 | 9 => {
                // far outside the window
                let cemi = self.plain_tel().tel().encode();
                let seq_off = self.r.range(10, 240) as u8;
                Inject::Tun { ch_off: 0, seq_off, cemi, cut: 0, len_delta: 0 }
            }
            10..=13 => {
                let svc = *self.r.pick(&[0x0208u16, 0x0208, 0x0209, 0x0209, 0x020a, 0x0421]);
                let status = *self.r.pick(&[0u8, 0x21, 0x26, 0x27]);
                let ch_off = self.r.range(1, 200) as u8;
                Inject::Foreign { svc, ch_off, status }
            }
            14 => {
                let ch_off = self.r.range(1, 200) as u8;
                let status = *self.r.pick(&[0u8, 0x24]);
                Inject::StrayConnect { ch_off, status }
            }
            _ => {
                // wrong header
                let mut b = wire::state_resp(1, 0x21);
                match self.r.below(3) {
                    0 => b[0] = self.r.range(7, 255) as u8,
                    1 => b[1] = self.r.range(0x11, 0xff) as u8,
                    _ => b.truncate(self.r.range(1, 7) as usize),
                }
                Inject::Bytes(b)
            }
        };
        self.at(at, Action::Inject { inst, spec });
    }
    /// As hostile, without what could be taken for an answer to a connection request.
    fn noise_at(&mut self, at: u64) {
        loop {
            self.hostile(at);
            if !matches!(self.steps.last(), Some(Step { act: Action::Inject { spec: Inject::StrayConnect { .. } | Inject::Bytes(_), .. }, .. })) {
                return;
            }
            self.steps.pop();
        }
    }
    fn stray_con(&mut self, at: u64) {
        let inst = self.any_inst();
        let addr = self.addr();
        let (value, small) = self.value();
        let neg = self.r.chance(300) as u8;
        self.at(
            at,
            Action::StrayCon {
                inst,
                spec: TelSpec {
                    code: wire::L_CON,
                    addinfo: vec![],
                    ctrl1: 0xbc | neg,
                    ctrl2: 0xe0,
                    src: 0x11f0,
                    dest: addr,
                    apci: wire::APCI_WRITE,
                    small,
                    value,
                },
            },
        );
    }
}

fn sched(r: &mut Rng, rates: &mut Rates) {
    match r.below(5) {
        0 => {}
        1 => {
            rates.poll_yield = 300;
            rates.site_yield = 300;
        }
        2 => {
            rates.poll_yield = 2000;
            rates.site_yield = 500;
        }
        3 => {
            rates.poll_yield = 500;
            rates.site_yield = 3000;
        }
        _ => {
            rates.poll_yield = 3000;
            rates.site_yield = 3000;
        }
    }
}

fn stalls(r: &mut Rng, rates: &mut Rates) {
    match r.below(4) {
        0 => {
            rates.stall = 60;
            rates.stall_ms = 400;
        }
        1 => {
            rates.stall = 15;
            rates.stall_ms = 3000;
        }
        _ => {}
    }
}

/// `name` is a profile, optionally followed by `-c` (a client only), `-m` (a monitor only) or
/// `-b` (both).
fn whens(g: &mut G, profile: &str, chance: u64, from: u64, to: u64) {
    if g.r.chance(chance) {
        for _ in 0..g.r.range(1, 6) {
            let at = g.time(from, to);
            g.when(at, profile);
        }
    }
}

pub fn generate(name: &str, seed: u64) -> Plan {
    let (profile, who) = match name.split_once('-') {
        Some((p, w)) => (p, w),
        None => (name, ""),
    };
    let mut r = Rng::new(seed, 1);
    let mut used = std::collections::HashSet::new();
    let ndev = r.range(2, 6);
    let mut devices = vec![];
    for k in 0..ndev {
        let addr = loop {
            let a = match r.below(4) {
                0 => (r.range(1, 31) << 11 | r.below(256)) as u16,
                1 => r.range(1, 255) as u16,
                _ => r.range(1, 65535) as u16,
            };
            if used.insert(a) {
                break a;
            }
        };
        devices.push(Device {
            addr,
            small: r.chance(400),
            len: *r.pick(&[1usize, 1, 1, 2, 2, 3, 4, 8, 14, 15, 40, 200]),
            ctrl1: *r.pick(&[0x3cu8, 0x3c, 0x3c, 0x1c, 0x30, 0x10]),
            delay_ms: *r.pick(&[0u32, 5, 30, 120, 400, 1500]),
            answers: k == 0 || r.chance(850),
            feedback_ms: if r.chance(300) { Some(*r.pick(&[0u32, 10, 200, 2500])) } else { None },
            addinfo: if r.chance(120) { vec![4, 2, r.next() as u8, r.next() as u8] } else { vec![] },
        });
    }
    let kinds = match who {
        "c" => vec![Kind::Client],
        "m" => vec![Kind::Monitor],
        "b" => vec![Kind::Client, Kind::Monitor],
        "cc" => vec![Kind::Client, Kind::Client],
        _ => match r.below(12) {
            10 => vec![Kind::Monitor, Kind::Monitor],
            11 => vec![Kind::Client, Kind::Monitor, Kind::Client],
            0..=3 => vec![Kind::Client],
            4..=5 => vec![Kind::Monitor],
            6 => vec![Kind::Client, Kind::Client],
            _ => vec![Kind::Client, Kind::Monitor],
        },
    };
    let mut g = G {
        r: Rng::new(seed, 2),
        steps: vec![],
        devices,
        kinds,
    };
    let n = g.insts();
    let mut insts: Vec<InstSpec> = g
        .kinds
        .clone()
        .into_iter()
        .map(|kind| InstSpec {
            kind,
            wait_cancel_ms: if g.r.chance(200) { g.r.range(5, 3000) as u32 } else { 0 },
            think_ms: if g.r.chance(200) { g.r.range(1, 40) as u32 } else { 0 },
        })
        .collect();
    let mut rates = Rates::default();
    let mut knobs = Knobs {
        latency_ms: *g.r.pick(&[0u32, 1, 1, 3, 10, 40, 120]),
        con_delay_ms: *g.r.pick(&[0u32, 5, 20, 60, 300]),
        first_channel: g.r.range(1, 255) as u8,
        capacity: n + g.r.below(3) as usize,
        endpoint_in_response: g.r.chance(800),
        long_refusal: g.r.chance(300),
        feature_replies: g.r.chance(700),
        feature_refused: g.r.chance(250),
        feature_unknown: matches!(profile, "lossy" | "outage" | "mixed") && g.r.chance(100),
        // an old tunnel's datagrams cannot be told from the new one's if they arrive late
        reuse_channel: matches!(profile, "outage" | "hostile" | "flooded" | "lifecycle") && g.r.chance(250),
        con_addinfo: if g.r.chance(100) { g.addinfo(false) } else { vec![] },
        con_ctrl: if g.r.chance(200) {
            (*g.r.pick(&[0u8, 0x20, 0x08, 0x0c]), *g.r.pick(&[0u8, 0x10, 0x20]))
        } else {
            (0, 0)
        },
    };
    sched(&mut g.r, &mut rates);
    if g.r.chance(300) {
        rates.jitter_ms = *g.r.pick(&[2u32, 20, 80]);
    }
    for inst in 0..n {
        let t = if inst == 0 { 0 } else { g.time(0, 1500) };
        if matches!(profile, "outage" | "mixed") && g.r.chance(20) {
            let act = if g.r.chance(500) { Action::BindErr { inst, n: 1 } } else { Action::RouteErr { inst, n: 1 } };
            g.at(t, act);
        }
        g.at(t, Action::Connect { inst });
        if g.kinds[inst] == Kind::Monitor && g.r.chance(500) {
            let t2 = t + g.r.below(400);
            g.at(
                t2,
                Action::Listener {
                    inst,
                    cap: 8,
                    drain: true,
                    life_ms: None,
                    pause: None,
                },
            );
        }
    }
    let quiet;
    let mut end;
    match profile {
        "calm" => {
            quiet = 0;
            end = g.time(60_000, 260_000);
            stalls_light(&mut g.r, &mut rates);
            let (a, b) = (g.time(8, 40), g.time(5, 60));
            g.work(1500, end - 15_000, a, b);
            whens(&mut g, profile, 300, 100, end - 30_000);
            if g.r.chance(300) {
                // arguments that fit no telegram
                for _ in 0..g.r.range(1, 3) {
                    let inst = g.any_inst();
                    let at = g.time(2000, end - 15_000);
                    let addr = g.addr();
                    let (value, small) = if g.r.chance(500) {
                        (vec![], true)
                    } else {
                        let n = *g.r.pick(&[254usize, 255, 256, 257, 300, 511, 512, 700]);
                        (g.r.bytes(n), false)
                    };
                    let op = OpKind::Write { addr, level: 3, value, small };
                    g.at(at, Action::Op { inst, op, cancel_ms: None });
                }
            }
            for _ in 0..g.r.below(4) {
                let at = g.time(2000, end - 15_000);
                let n = g.r.range(1, 2) as u32;
                let ms = g.time(300, 4000) as u32;
                let act = match g.r.below(3) {
                    0 => Action::GwConNeg { n },
                    1 => Action::GwConNone { n },
                    _ => Action::GwConLate { n, ms },
                };
                g.at(at, act);
            }
            for _ in 0..g.r.below(3) {
                let inst = g.any_inst();
                let at = g.time(2000, end - 15_000);
                let (feature, k) = (*g.r.pick(&[1u8, 2, 3, 5, 6, 8]), g.r.range(1, 6) as usize);
                let value = g.r.bytes(k);
                g.at(at, Action::FeatureInfo { inst, feature, value });
            }
        }
        "dense" | "wrap" => {
            // enough of everything to wrap both sequence counters
            knobs.latency_ms = *g.r.pick(&[0u32, 1, 4]);
            knobs.con_delay_ms = *g.r.pick(&[0u32, 2, 8]);
            rates.jitter_ms = rates.jitter_ms.min(2);
            for d in &mut g.devices {
                d.delay_ms = d.delay_ms.min(10);
                d.answers = true;
                d.feedback_ms = d.feedback_ms.map(|x| x.min(20));
            }
            for i in &mut insts {
                i.think_ms = 0;
            }
            let ops = g.time(270, 330);
            let mut t = 2000;
            for _ in 0..ops {
                for inst in 0..n {
                    let op = match g.kinds[inst] {
                        Kind::Client => {
                            if g.r.chance(600) {
                                g.write_op()
                            } else {
                                let addr = g.answering();
                                OpKind::Read { addr, level: 3 }
                            }
                        }
                        Kind::Monitor => {
                            if g.r.chance(500) {
                                g.write_op()
                            } else {
                                let addr = g.answering();
                                OpKind::Solicit { addr, level: 3 }
                            }
                        }
                    };
                    g.at(t, Action::Op { inst, op, cancel_ms: None });
                }
                if g.r.chance(300) {
                    g.bus(t + 20);
                }
                t += g.time(30, 90);
            }
            end = t + 20_000;
            if profile == "wrap" {
                // single faults just where the numbers come round
                quiet = end;
                for _ in 0..g.r.range(1, 6) {
                    let (dir, svc) = *g.r.pick(&[(Dir::C2G, 0x0420u16), (Dir::G2C, 0x0421), (Dir::G2C, 0x0420), (Dir::C2G, 0x0421)]);
                    let seq = *g.r.pick(&[0u8, 0, 0, 255, 255, 254, 1]);
                    let dup = if g.r.chance(500) { Some(g.r.below(300) as u32) } else { None };
                    // some hit the first round, most the second
                    let at = if g.r.chance(200) { 0 } else { 2500 + g.r.below(8000) };
                    g.at(at, Action::SeqFault { dir, svc, seq, dup });
                }
                end += 30_000;
            } else {
                quiet = 0;
            }
        }
        "lossy" => {
            quiet = g.time(60_000, 150_000);
            let lvl = g.r.below(4);
            let k = [50u64, 200, 600, 1500][lvl as usize];
            let one_sided = g.r.below(4);
            rates.loss_c2g = if one_sided == 0 { 0 } else { g.r.below(k + 1) as u32 };
            rates.loss_g2c = if one_sided == 1 { 0 } else { g.r.below(k + 1) as u32 };
            rates.dup = g.r.below(k + 1) as u32;
            rates.reorder = g.r.below(k + 1) as u32;
            rates.reorder_ms = *g.r.pick(&[20u32, 200, 900, 2500]);
            stalls(&mut g.r, &mut rates);
            let (a, b) = (g.time(8, 30), g.time(5, 40));
            g.work(1500, quiet, a, b);
            for _ in 0..g.r.range(0, 8) {
                let at = g.time(500, quiet);
                g.targeted(at);
            }
            end = quiet + 390_000;
            g.tail(quiet, end - 20_000, 19_000);
        }
        "outage" => {
            quiet = g.time(90_000, 320_000);
            stalls(&mut g.r, &mut rates);
            if g.r.chance(300) {
                rates.loss_c2g = 200;
                rates.loss_g2c = 200;
            }
            let (a, b) = (g.time(8, 40), g.time(5, 50));
            g.work(1000, quiet, a, b);
            for _ in 0..g.r.range(1, 7) {
                let at = g.time(0, quiet - 2000);
                g.outage_fault(at, quiet);
            }
            if g.r.chance(300) {
                let at = g.time(500, quiet);
                g.targeted(at);
            }
            if g.r.chance(300) {
                for _ in 0..g.r.range(1, 3) {
                    let at = g.time(2000, quiet);
                    g.stall_at(at);
                }
            }
            whens(&mut g, profile, 500, 100, quiet);
            listeners(&mut g, quiet);
            end = quiet + 400_000;
            if g.r.chance(200) {
                // a disconnect nobody answers, or too late, changes nothing
                let inst = g.any_inst();
                let at = g.time(1000, quiet);
                g.at(at, Action::GwDiscMute { n: 3 });
                let d = g.r.below(200);
                g.at(at + d, Action::Op { inst, op: OpKind::Disconnect, cancel_ms: None });
                if g.r.chance(600) {
                    let d = g.time(10_500, 40_000);
                    let status = *g.r.pick(&[0u8, 0x21]);
                    g.at(at + d, Action::Inject { inst, spec: Inject::Own { svc: 0x020a, status } });
                }
            }
            g.tail(quiet, end - 25_000, 19_000);
            if g.r.chance(300) {
                // harmless noise that never stops
                for _ in 0..g.r.range(3, 40) {
                    let at = g.time(quiet, end - 10_000);
                    g.noise_at(at);
                }
            }
        }
        "churn" => {
            // one tunnel after the other
            let losses = g.r.range(10, 40);
            stalls_light(&mut g.r, &mut rates);
            let mut t = g.time(1500, 6000);
            for _ in 0..losses {
                if g.r.chance(100) {
                    let at = t + g.r.below(1500);
                    g.stall_at(at);
                }
                for inst in 0..n {
                    let at = t + g.r.below(1500);
                    match g.r.below(12) {
                        0..=4 => g.at(at, Action::GwClose { inst }),
                        5 => {
                            // nothing is acknowledged: the tunnel is given up
                            g.at(at, Action::LoseNext { dir: Dir::G2C, svc: 0x0421, n: 2 });
                            g.do_op(at + 1, inst);
                        }
                        6 => {
                            let icmp = g.r.chance(500);
                            let down_ms = g.time(100, 4000) as u32;
                            g.at(at, Action::GwCrash { down_ms, icmp });
                            g.do_op(at + 1, inst);
                        }
                        7 => g.at(at, Action::Icmp { inst }),
                        8 => {
                            g.at(at, Action::SendErr { inst, n: 1, svc: 0x0421 });
                            g.bus(at + 1);
                        }
                        9 => {
                            let code = *g.r.pick(&[0x21u8, 0x26, 0x27, 0x01]);
                            g.at(at, Action::GwStatusErr { code, n: 1 });
                            if g.kinds[inst] == Kind::Client {
                                g.at(at + 1, Action::Op { inst, op: OpKind::Status, cancel_ms: None });
                            }
                        }
                        10 => {
                            // the feature request of a monitor is lost
                            g.at(at, Action::LoseNext { dir: Dir::C2G, svc: 0x0424, n: 2 });
                            g.at(at + 1, Action::GwClose { inst });
                        }
                        _ => {
                            let ms = g.time(500, 25_000) as u32;
                            g.at(at, Action::GwRefuse { ms, code: 0x24 });
                            g.at(at + 1, Action::GwClose { inst });
                        }
                    }
                    if g.r.chance(400) {
                        let d = g.r.below(5000);
                        g.do_op(at + d, inst);
                    }
                    if g.r.chance(150) {
                        // a call somebody has no patience for
                        let d = g.r.below(3000);
                        let op = g.op(inst);
                        let ms = g.time(0, 2500) as u32;
                        g.at(at + d, Action::Op { inst, op, cancel_ms: Some(ms) });
                    }
                }
                if g.r.chance(300) {
                    g.bus(t + 700);
                }
                t += match g.r.below(4) {
                    0 => g.time(100, 1500),
                    1 | 2 => g.time(1500, 15_000),
                    _ => g.time(12_000, 40_000),
                };
            }
            quiet = t;
            listeners(&mut g, quiet);
            end = quiet + 380_000;
            g.tail(quiet + 250_000, end - 25_000, 19_000);
            if g.r.chance(250) {
                let inst = g.any_inst();
                g.at(end - 22_000, Action::Drop { inst });
            }
        }
        "hostile" => {
            // nothing else goes wrong: the tunnel must not even notice
            quiet = g.time(60_000, 150_000);
            stalls_light(&mut g.r, &mut rates);
            let (a, b) = (g.time(8, 30), g.time(5, 40));
            g.work(3000, quiet, a, b);
            for _ in 0..g.r.range(5, 60) {
                let at = g.time(2500, quiet);
                g.hostile(at);
            }
            for _ in 0..g.r.below(8) {
                // just ahead of the window; nothing overtakes anything here
                let at = g.time(2500, quiet);
                let (inst, cemi) = (g.any_inst(), g.plain_tel().tel().encode());
                let seq_off = *g.r.pick(&[1u8, 1, 1, 2, 3, 9]);
                g.at(at, Action::Inject { inst, spec: Inject::Tun { ch_off: 0, seq_off, cemi, cut: 0, len_delta: 0 } });
            }
            end = quiet + 90_000;
            g.tail(quiet, end - 20_000, 9_000);
        }
        "noise" => {
            // cEMI of every shape, stray confirmations and feature notices in sequence
            quiet = g.time(60_000, 150_000);
            stalls_light(&mut g.r, &mut rates);
            let (a, b) = (g.time(8, 40), g.time(5, 40));
            g.work(3000, quiet, a, b);
            for _ in 0..g.r.range(3, 40) {
                let at = g.time(2500, quiet);
                match g.r.below(10) {
                    0..=4 => {
                        let inst = g.any_inst();
                        let cemi = g.weird_cemi();
                        g.at(at, Action::WeirdCemi { inst, cemi });
                    }
                    5..=7 => g.stray_con(at),
                    8 => {
                        let inst = g.any_inst();
                        let (feature, k) = (*g.r.pick(&[1u8, 2, 3, 5, 6, 8]), g.r.range(1, 6) as usize);
                        let value = g.r.bytes(k);
                        g.at(at, Action::FeatureInfo { inst, feature, value });
                    }
                    _ => {
                        let n = g.r.range(1, 2) as u32;
                        let ms = g.time(300, 9000) as u32;
                        let act = match g.r.below(3) {
                            0 => Action::GwConNeg { n },
                            1 => Action::GwConNone { n },
                            _ => Action::GwConLate { n, ms },
                        };
                        g.at(at, act);
                        // and a write for it to hit, with another right behind
                        if let Some(inst) = g.kinds.iter().position(|k| *k == Kind::Client) {
                            for _ in 0..2 {
                                let op = g.write_op();
                                let d = g.r.below(100);
                                g.at(at + d, Action::Op { inst, op, cancel_ms: None });
                            }
                        }
                    }
                }
            }
            end = quiet + 90_000;
            g.tail(quiet, end - 20_000, 9_000);
        }
        "cancel" => {
            quiet = 0;
            end = g.time(90_000, 260_000);
            stalls_light(&mut g.r, &mut rates);
            let (a, b) = (g.time(4, 15), g.time(3, 30));
            g.work(2500, end - 15_000, a, b);
            whens(&mut g, profile, 600, 2500, end - 40_000);
            for _ in 0..g.r.range(2, 20) {
                let inst = g.any_inst();
                let at = g.time(2500, end - 40_000);
                let op = g.op(inst);
                let ms = match g.r.below(4) {
                    0 => 0,
                    1 => g.r.below(3),
                    2 => g.r.below(60),
                    _ => g.r.below(2500),
                } as u32;
                let polls = g.r.chance(500);
                let cancel = if polls { CANCEL_POLLS + g.r.below(16) as u32 } else { ms };
                g.at(at, Action::Op { inst, op, cancel_ms: Some(cancel) });
                if g.r.chance(500) {
                    let d = ms as u64 + g.r.below(5);
                    g.do_op(at + d, inst);
                }
            }
            for i in &mut insts {
                if g.r.chance(500) {
                    i.wait_cancel_ms = *g.r.pick(&[11u32, 40, 90, 333]);
                }
            }
        }
        "overload" => {
            quiet = 0;
            end = g.time(150_000, 300_000);
            knobs.latency_ms = *g.r.pick(&[0u32, 1]);
            rates.jitter_ms = 0;
            let (a, b) = (g.time(4, 15), g.time(3, 15));
            g.work(2500, end - 100_000, a, b);
            for _ in 0..g.r.range(1, 3) {
                let at = g.time(3000, end - 130_000);
                let mut spec = g.plain_tel();
                if g.r.chance(700) {
                    // nobody reads this address
                    spec.dest = 0x7ffe;
                }
                let nn = g.time(90, 400) as u32;
                let gap_ms = *g.r.pick(&[1u32, 5, 20, 50]);
                g.at(at, Action::Flood { spec, n: nn, gap_ms });
                for inst in 0..n {
                    let d = nn as u64 * gap_ms as u64;
                    let k = g.r.range(1, 4);
                    for _ in 0..k {
                        let dd = g.r.below(d + 8000);
                        g.do_op(at + dd, inst);
                    }
                }
            }
            for inst in 0..n {
                if g.kinds[inst] == Kind::Monitor && g.r.chance(800) {
                    let at = g.time(2500, end - 140_000);
                    let len = g.time(1000, 90_000).min(end - 100_000 - at);
                    g.at(at, Action::Consumer { inst, run: false });
                    g.at(at + len, Action::Consumer { inst, run: true });
                }
            }
            let from = end - 90_000;
            g.tail(from, end - 12_000, 9_000);
        }
        "deluge" => {
            // more long telegrams than anyone should want to keep
            end = g.time(120_000, 200_000);
            quiet = end;
            knobs.latency_ms = *g.r.pick(&[0u32, 0, 1]);
            rates.jitter_ms = 0;
            let (a, b) = (g.time(1, 5), g.time(0, 5));
            g.work(2500, end - 20_000, a, b);
            let at = g.time(3000, 30_000);
            let mut spec = g.plain_tel();
            if g.r.chance(500) {
                spec.dest = 0x7ffe;
            }
            spec.small = false;
            spec.ctrl1 = 0x3c;
            spec.value = vec![0; g.time(200, 250) as usize];
            let nn = g.time(2500, 5000) as u32;
            let gap_ms = *g.r.pick(&[3u32, 5, 10]);
            g.at(at, Action::Flood { spec, n: nn, gap_ms });
            let d = nn as u64 * gap_ms as u64;
            for inst in 0..n {
                if g.kinds[inst] == Kind::Monitor && g.r.chance(800) {
                    g.at(at - 200, Action::Consumer { inst, run: false });
                    if g.r.chance(600) {
                        let dd = d / 2 + g.r.below(d + 4000);
                        g.at(at + dd, Action::Consumer { inst, run: true });
                    }
                }
                for _ in 0..g.r.below(3) {
                    let dd = d / 2 + g.r.below(d + 4000);
                    g.do_op(at + dd, inst);
                }
                if g.r.chance(200) {
                    let dd = d / 2 + g.r.below(d + 4000);
                    g.at(at + dd, Action::GwClose { inst });
                }
            }
        }
        "flooded" => {
            // telegrams pile up unread while the tunnel is closed, the monitor left or a call made
            end = g.time(120_000, 200_000);
            quiet = end;
            knobs.latency_ms = *g.r.pick(&[0u32, 1, 10]);
            rates.jitter_ms = 0;
            stalls_light(&mut g.r, &mut rates);
            let (a, b) = (g.time(2, 8), g.time(2, 8));
            g.work(2500, end - 20_000, a, b);
            for _ in 0..g.r.range(1, 2) {
                let at = g.time(3000, end - 60_000);
                let mut spec = g.plain_tel();
                if g.r.chance(500) {
                    spec.dest = 0x7ffe;
                }
                let nn = g.time(80, 240) as u32;
                let gap_ms = *g.r.pick(&[1u32, 5, 20]);
                g.at(at, Action::Flood { spec, n: nn, gap_ms });
                for inst in 0..n {
                    if g.kinds[inst] == Kind::Monitor && g.r.chance(800) {
                        g.at(at - 200, Action::Consumer { inst, run: false });
                        let d = g.time(1000, 40_000);
                        g.at(at + d, Action::Consumer { inst, run: true });
                    }
                    let d = nn as u64 * gap_ms as u64;
                    for _ in 0..g.r.below(3) {
                        let dd = d / 2 + g.r.below(d + 4000);
                        g.do_op(at + dd, inst);
                    }
                    let dd = d / 2 + g.r.below(d + 4000);
                    match g.r.below(8) {
                        0..=3 => g.at(at + dd, Action::GwClose { inst }),
                        4 => {
                            g.at(at + dd, Action::GwStatusErr { code: 0x27, n: 1 });
                            if g.kinds[inst] == Kind::Client {
                                g.at(at + dd + 1, Action::Op { inst, op: OpKind::Status, cancel_ms: None });
                            }
                        }
                        5 => g.at(at + dd, Action::Op { inst, op: OpKind::Disconnect, cancel_ms: None }),
                        6 => g.at(at + dd, Action::Drop { inst }),
                        _ => {}
                    }
                }
            }
            listeners(&mut g, end - 30_000);
        }
        "lifecycle" => {
            quiet = g.time(40_000, 140_000);
            stalls(&mut g.r, &mut rates);
            if g.r.chance(400) {
                rates.loss_c2g = g.r.below(800) as u32;
                rates.loss_g2c = g.r.below(800) as u32;
                rates.dup = g.r.below(500) as u32;
            }
            let (a, b) = (g.time(3, 15), g.time(2, 20));
            g.work(1000, quiet, a, b);
            whens(&mut g, profile, 400, 0, quiet);
            listeners(&mut g, quiet);
            for _ in 0..g.r.below(4) {
                let at = g.time(0, quiet - 1000);
                g.outage_fault(at, quiet);
            }
            for _ in 0..g.r.below(3) {
                let at = g.time(0, quiet - 1000);
                let n = g.r.range(1, 2) as u32;
                let act = if g.r.chance(500) {
                    Action::GwDiscMute { n }
                } else {
                    Action::GwDiscStatus {
                        code: *g.r.pick(&[0x21u8, 0x26, 0x27]),
                        n,
                    }
                };
                g.at(at, act);
            }
            for inst in 0..n {
                let at = match g.r.below(4) {
                    0 => g.time(0, 3000),
                    1 => g.time(0, quiet),
                    2 => g.time(quiet, quiet + 60_000),
                    _ => g.time(quiet / 2, quiet + 20_000),
                };
                if g.r.chance(150) {
                    // more answers than anybody asked for, around the one that matters; a client may
                    // keep only so many (DESIGN.md)
                    let d = g.r.below(2 * knobs.latency_ms as u64 + 4);
                    for _ in 0..g.r.range(1, 6) {
                        let d = d + g.r.below(3);
                        g.at(at + d, Action::Inject { inst, spec: Inject::Own { svc: 0x0208, status: 0 } });
                    }
                }
                if g.r.chance(200) {
                    // a task stops halfway through
                    let (send, svc) = *g.r.pick(&[(true, 0x0209u16), (true, 0x0209), (true, 0x020a), (false, 0x020a), (false, 0x020a), (false, 0x0209), (true, 0x0205), (false, 0x0206)]);
                    let (skip, ms) = (g.r.below(3) as u32, *g.r.pick(&[1u32, 20, 300, 1100, 2500, 4000]));
                    let close = g.r.chance(500);
                    g.at(at.saturating_sub(1), Action::StallAt { inst, send, svc, skip, ms, close });
                    if svc == 0x0205 || svc == 0x0206 {
                        g.at(at.saturating_sub(1), Action::GwClose { inst });
                    }
                }
                match g.r.below(6) {
                    5 => {
                        // disconnects one upon the other, the first of them in vain
                        let n = g.r.range(1, 2) as u32;
                        g.at(at, Action::GwDiscMute { n });
                        for k in 0..=n as u64 + g.r.below(2) {
                            let d = if k == 0 { g.r.below(5) } else { g.r.below(9_900) };
                            g.at(
                                at + d,
                                Action::Op {
                                    inst,
                                    op: OpKind::Disconnect,
                                    cancel_ms: None,
                                },
                            );
                        }
                    }
                    0 | 1 => {
                        let cancel_ms = if g.r.chance(100) { Some(g.r.below(300) as u32) } else { None };
                        g.at(
                            at,
                            Action::Op {
                                inst,
                                op: OpKind::Disconnect,
                                cancel_ms,
                            },
                        );
                        if g.r.chance(400) {
                            let d = g.r.below(40);
                            g.burst(at + d, inst, 3);
                        }
                        for _ in 0..g.r.below(5) {
                            let d = g.time(1000, 40_000);
                            g.do_op(at + d, inst);
                        }
                        if g.r.chance(300) {
                            let d = g.time(100, 30_000);
                            g.at(
                                at + d,
                                Action::Op {
                                    inst,
                                    op: OpKind::Disconnect,
                                    cancel_ms: None,
                                },
                            );
                        }
                        if g.r.chance(500) {
                            let d = g.time(100, 30_000);
                            g.at(at + d, Action::Drop { inst });
                        }
                    }
                    2 | 3 => g.at(at, Action::Drop { inst }),
                    _ => {}
                }
            }
            end = quiet + 150_000;
            g.tail(quiet, end - 20_000, 23_000);
        }
        "search" => {
            quiet = 60_000;
            end = 30_000;
            knobs.latency_ms = *g.r.pick(&[0u32, 1, 10]);
            if g.r.chance(500) {
                g.work(1500, 15_000, 4, 6);
            }
            for _ in 0..g.r.range(1, 3) {
                let at = g.time(100, 10_000);
                let timeout_ms = *g.r.pick(&[50u32, 500, 1000, 3000, 5000]);
                let mut devs = vec![];
                for _ in 0..g.r.below(12) {
                    let delay_ms = match g.r.below(3) {
                        0 => g.r.below(20),
                        1 => g.r.below(timeout_ms as u64),
                        _ => g.r.below(timeout_ms as u64 * 3 / 2),
                    } as u32;
                    devs.push(search_dev(&mut g.r, delay_ms));
                    if g.r.chance(150) && devs.last().unwrap().well_formed {
                        // nearly the same once more: a device with two endpoints, or a renamed one
                        let mut d = devs.last().unwrap().clone();
                        d.delay_ms = g.r.below(timeout_ms as u64) as u32;
                        let k = *g.r.pick(&[8usize, 11, 13, 18, 21, 27, 35, 45, 55]);
                        d.bytes[k] ^= 1;
                        if wire::parse_search(&d.bytes).is_some() {
                            devs.push(d);
                        }
                    }
                }
                let send_err = g.r.chance(80);
                let bind_err = !send_err && g.r.chance(30);
                g.at(
                    at,
                    Action::Search {
                        timeout_ms,
                        devices: devs,
                        send_err,
                        bind_err,
                    },
                );
            }
        }
        _ => {
            // mixed: a little of everything at once
            quiet = g.time(60_000, 250_000);
            let k = *g.r.pick(&[0u64, 100, 400, 1000]);
            rates.loss_c2g = g.r.below(k + 1) as u32;
            rates.loss_g2c = g.r.below(k + 1) as u32;
            rates.dup = g.r.below(k + 1) as u32;
            rates.reorder = g.r.below(k + 1) as u32;
            rates.reorder_ms = *g.r.pick(&[20u32, 200, 900, 2500]);
            stalls(&mut g.r, &mut rates);
            let (a, b) = (g.time(8, 40), g.time(5, 50));
            g.work(1000, quiet, a, b);
            if g.r.chance(200) {
                let at = g.time(2000, quiet);
                g.stall_at(at);
            }
            whens(&mut g, profile, 500, 100, quiet);
            for _ in 0..g.r.below(5) {
                let at = g.time(0, quiet - 2000);
                g.outage_fault(at, quiet);
            }
            for _ in 0..g.r.below(6) {
                let at = g.time(500, quiet);
                g.targeted(at);
            }
            for _ in 0..g.r.below(15) {
                let at = g.time(500, quiet);
                g.hostile(at);
            }
            for _ in 0..g.r.below(10) {
                let at = g.time(500, quiet);
                if g.r.chance(500) {
                    let inst = g.any_inst();
                    let cemi = g.weird_cemi();
                    g.at(at, Action::WeirdCemi { inst, cemi });
                } else {
                    g.stray_con(at);
                }
            }
            for _ in 0..g.r.below(6) {
                let inst = g.any_inst();
                let at = g.time(2500, quiet);
                let op = g.op(inst);
                let ms = g.r.below(1500) as u32;
                g.at(at, Action::Op { inst, op, cancel_ms: Some(ms) });
            }
            listeners(&mut g, quiet);
            for inst in 0..n {
                if g.kinds[inst] == Kind::Monitor && g.r.chance(150) {
                    let at = g.time(2500, quiet);
                    let len = g.time(1000, 60_000);
                    g.at(at, Action::Consumer { inst, run: false });
                    g.at(at + len, Action::Consumer { inst, run: true });
                }
            }
            end = quiet + 400_000;
            g.tail(quiet, end - 25_000, 19_000);
        }
    }
    if end < 20_000 {
        end = 20_000;
    }
    if !matches!(profile, "search" | "dense" | "wrap") && g.r.chance(500) {
        // calls just when a heartbeat is due, which for the first is known
        for _ in 0..g.r.range(1, 4) {
            let at = 60_000 * g.r.range(1, (end / 60_000).max(1)) + g.r.below(2 * knobs.latency_ms as u64 + 4);
            if at + 15_000 < end {
                g.do_op(at, 0);
            }
        }
    }
    let mut steps = g.steps;
    steps.retain(|s| s.at < end);
    steps.sort_by_key(|s| s.at);
    Plan {
        profile: name.to_string(),
        seed,
        select_seed: crate::rng::hash(seed, 3, 3),
        knobs,
        rates,
        insts,
        devices: g.devices,
        steps,
        quiet_at: quiet,
        end_at: end,
        explicit: None,
    }
}

fn stalls_light(r: &mut Rng, rates: &mut Rates) {
    if r.chance(300) {
        rates.stall = 30;
        rates.stall_ms = 150;
    }
}

fn listeners(g: &mut G, quiet: u64) {
    for inst in 0..g.insts() {
        if g.kinds[inst] != Kind::Monitor {
            continue;
        }
        for _ in 0..g.r.below(4) {
            let at = g.time(0, quiet);
            let drain = g.r.chance(600);
            let life_ms = if g.r.chance(500) { Some(g.time(10, 60_000) as u32) } else { None };
            let pause = if drain && g.r.chance(350) {
                Some((g.time(500, 20_000) as u32, g.time(1000, 70_000) as u32))
            } else {
                None
            };
            let cap = if drain && pause.is_none() { 16 } else { g.r.range(1, 2) as usize };
            g.at(at, Action::Listener { inst, cap, drain, life_ms, pause });
            if let Some((a, len)) = pause {
                // more tunnels than it has room for, then some it must hear of
                let (a, len) = (at + a as u64, len as u64);
                for _ in 0..g.r.range(1, 4) {
                    let t = g.time(a, a + len);
                    if t < quiet {
                        g.at(t, Action::GwClose { inst });
                    }
                }
                for _ in 0..g.r.range(1, 2) {
                    let t = a + len + g.time(500, 15_000);
                    if t < quiet {
                        g.at(t, Action::GwClose { inst });
                    }
                }
            }
        }
        // reconnections to be told about
        for _ in 0..g.r.below(3) {
            let at = g.time(1000, quiet);
            g.at(at, Action::GwClose { inst });
        }
    }
}

fn search_dev(r: &mut Rng, delay_ms: u32) -> SearchDev {
    let nf = *r.pick(&[0usize, 1, 3, 4, 6, 12, 30, 126]);
    let mut name: Vec<u8> = (0..r.below(31)).map(|_| if r.chance(200) { r.range(0xa0, 0xff) } else { r.range(0x20, 0x7e) } as u8).collect();
    name.resize(30, 0);
    let mut a6 = [0u8; 6];
    let mut b6 = [0u8; 6];
    a6.copy_from_slice(&r.bytes(6));
    b6.copy_from_slice(&r.bytes(6));
    let info = SearchInfo {
        endpoint: SocketAddrV4::new(Ipv4Addr::new(192, 168, r.next() as u8, r.next() as u8), r.range(1, 65535) as u16),
        medium: *r.pick(&[2u8, 4, 16, 32]),
        status: if r.chance(200) { r.next() as u8 } else { r.below(2) as u8 },
        ia: r.next() as u16,
        project: r.next() as u16,
        serial: a6,
        mcast: [224, 0, 23, r.next() as u8],
        mac: b6,
        name,
        families: (0..nf).map(|_| if r.chance(50) { (r.next() as u8, r.next() as u8) } else { (r.range(2, 9) as u8, r.range(1, 2) as u8) }).collect(),
        extra: if r.chance(200) {
            // further description blocks, known to the library or not
            let mut v = vec![8, *r.pick(&[0xfeu8, 0xfe, 0x03, 0x05, 0x06, 0x07, 0x08])];
            v.extend(r.bytes(6));
            if r.chance(300) {
                v.extend([4, 0x05]);
                v.extend(r.bytes(2));
            }
            v
        } else {
            vec![]
        },
    };
    let good = info.encode();
    if r.chance(700) {
        return SearchDev {
            delay_ms,
            bytes: good,
            well_formed: true,
        };
    }
    let mut b = good;
    match r.below(6) {
        0 => b.truncate(r.below(70) as usize),
        1 => b[0] = r.range(7, 200) as u8,
        2 => b[3] = 0x03,
        3 => b[68] = r.below(2) as u8,          // families block shorter than its own header
        4 => {
            b[68] = 255;                        // families block longer than the datagram
            let n = b.len().min(72);
            b.truncate(n);
        }
        _ => {
            let k = r.below(40) as usize;
            b = r.bytes(k);
        }
    }
    SearchDev {
        delay_ms,
        bytes: b,
        well_formed: false,
    }
}
