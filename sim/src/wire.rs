//! An independent, strict KNXnet/IP codec: the reference the gateway model and the oracles use.
//! Nothing in here calls the crate under test.

use std::net::{Ipv4Addr, SocketAddrV4};

pub const E_CONNECTION_ID: u8 = 0x21;
pub const E_NO_MORE_CONNECTIONS: u8 = 0x24;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hpai {
    pub proto: u8,
    pub addr: SocketAddrV4,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Frame {
    SearchReq { hpai: Hpai },
    SearchResp { body: Vec<u8> },
    ConnectReq { control: Hpai, data: Hpai, cri: Vec<u8> },
    ConnectResp { ch: u8, status: u8, rest: Vec<u8> },
    StateReq { ch: u8, reserved: u8, hpai: Hpai },
    StateResp { ch: u8, status: u8 },
    DiscReq { ch: u8, reserved: u8, hpai: Hpai },
    DiscResp { ch: u8, status: u8 },
    TunReq { ch: u8, seq: u8, reserved: u8, cemi: Vec<u8> },
    TunAck { ch: u8, seq: u8, status: u8 },
    /// TUNNELING_FEATURE_RESPONSE / SET / INFO; `code` is the service.
    Feature { code: u16, ch: u8, seq: u8, status: u8, body: Vec<u8> },
    Other { code: u16, body: Vec<u8> },
}

fn hpai(b: &[u8]) -> Option<Hpai> {
    if b.len() != 8 || b[0] != 8 {
        return None;
    }
    Some(Hpai {
        proto: b[1],
        addr: SocketAddrV4::new(Ipv4Addr::new(b[2], b[3], b[4], b[5]), u16::from_be_bytes([b[6], b[7]])),
    })
}

pub fn hpai_bytes(a: SocketAddrV4) -> Vec<u8> {
    let mut v = vec![8, 1];
    v.extend_from_slice(&a.ip().octets());
    v.extend_from_slice(&a.port().to_be_bytes());
    v
}

/// Strict: header, declared length == datagram length, every fixed-size field present.
pub fn decode(b: &[u8]) -> Option<Frame> {
    if b.len() < 6 || b[0] != 6 || b[1] != 0x10 {
        return None;
    }
    let code = u16::from_be_bytes([b[2], b[3]]);
    let len = u16::from_be_bytes([b[4], b[5]]) as usize;
    if len != b.len() {
        return None;
    }
    let p = &b[6..];
    Some(match code {
        0x0201 => Frame::SearchReq { hpai: hpai(p)? },
        0x0202 => Frame::SearchResp { body: p.to_vec() },
        0x0205 => {
            if p.len() < 18 {
                return None;
            }
            Frame::ConnectReq {
                control: hpai(&p[..8])?,
                data: hpai(&p[8..16])?,
                cri: p[16..].to_vec(),
            }
        }
        0x0206 => {
            if p.len() < 2 {
                return None;
            }
            Frame::ConnectResp {
                ch: p[0],
                status: p[1],
                rest: p[2..].to_vec(),
            }
        }
        0x0207 | 0x0209 => {
            if p.len() != 10 {
                return None;
            }
            let (ch, reserved, hpai) = (p[0], p[1], hpai(&p[2..])?);
            if code == 0x0207 {
                Frame::StateReq { ch, reserved, hpai }
            } else {
                Frame::DiscReq { ch, reserved, hpai }
            }
        }
        0x0208 | 0x020a => {
            if p.len() != 2 {
                return None;
            }
            if code == 0x0208 {
                Frame::StateResp { ch: p[0], status: p[1] }
            } else {
                Frame::DiscResp { ch: p[0], status: p[1] }
            }
        }
        0x0420 => {
            if p.len() < 4 || p[0] != 4 {
                return None;
            }
            Frame::TunReq {
                ch: p[1],
                seq: p[2],
                reserved: p[3],
                cemi: p[4..].to_vec(),
            }
        }
        0x0421 => {
            if p.len() != 4 || p[0] != 4 {
                return None;
            }
            Frame::TunAck {
                ch: p[1],
                seq: p[2],
                status: p[3],
            }
        }
        0x0422..=0x0425 => {
            if p.len() < 6 || p[0] != 4 {
                return None;
            }
            Frame::Feature {
                code,
                ch: p[1],
                seq: p[2],
                status: p[3],
                body: p[4..].to_vec(),
            }
        }
        _ => Frame::Other { code, body: p.to_vec() },
    })
}

fn frame(code: u16, body: &[u8]) -> Vec<u8> {
    let mut v = vec![6, 0x10];
    v.extend_from_slice(&code.to_be_bytes());
    v.extend_from_slice(&((body.len() + 6) as u16).to_be_bytes());
    v.extend_from_slice(body);
    v
}

pub fn connect_resp_ok(ch: u8, data: SocketAddrV4, ia: u16) -> Vec<u8> {
    let mut p = vec![ch, 0];
    p.extend(hpai_bytes(data));
    p.extend_from_slice(&[4, 4]);
    p.extend_from_slice(&ia.to_be_bytes());
    frame(0x0206, &p)
}
pub fn connect_resp_err(status: u8) -> Vec<u8> {
    frame(0x0206, &[0, status])
}
pub fn state_resp(ch: u8, status: u8) -> Vec<u8> {
    frame(0x0208, &[ch, status])
}
pub fn disc_req(ch: u8, control: SocketAddrV4) -> Vec<u8> {
    let mut p = vec![ch, 0];
    p.extend(hpai_bytes(control));
    frame(0x0209, &p)
}
pub fn disc_resp(ch: u8, status: u8) -> Vec<u8> {
    frame(0x020a, &[ch, status])
}
pub fn tun_req(ch: u8, seq: u8, cemi: &[u8]) -> Vec<u8> {
    let mut p = vec![4, ch, seq, 0];
    p.extend_from_slice(cemi);
    frame(0x0420, &p)
}
pub fn tun_ack(ch: u8, seq: u8, status: u8) -> Vec<u8> {
    frame(0x0421, &[4, ch, seq, status])
}
pub fn feature(code: u16, ch: u8, seq: u8, body: &[u8]) -> Vec<u8> {
    let mut p = vec![4, ch, seq, 0];
    p.extend_from_slice(body);
    frame(code, &p)
}
pub fn raw(code: u16, body: &[u8]) -> Vec<u8> {
    frame(code, body)
}

/// A link-layer data telegram inside cEMI.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tel {
    pub code: u8,
    pub addinfo: Vec<u8>,
    pub ctrl1: u8,
    pub ctrl2: u8,
    pub src: u16,
    pub dest: u16,
    pub tpci: u8,
    pub apci: u8,
    /// true: value in the low six bits of the APCI octet
    pub small: bool,
    pub value: Vec<u8>,
}

pub const APCI_READ: u8 = 0;
pub const APCI_RESPONSE: u8 = 1;
pub const APCI_WRITE: u8 = 2;

pub const L_REQ: u8 = 0x11;
pub const L_CON: u8 = 0x2e;
pub const L_IND: u8 = 0x29;
pub const L_BUSMON: u8 = 0x2b;

impl Tel {
    pub fn group(&self) -> bool {
        self.ctrl2 & 0x80 != 0
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![self.code, self.addinfo.len() as u8];
        v.extend_from_slice(&self.addinfo);
        v.extend(self.service_info());
        v
    }
    pub fn service_info(&self) -> Vec<u8> {
        let mut v = vec![self.ctrl1, self.ctrl2];
        v.extend_from_slice(&self.src.to_be_bytes());
        v.extend_from_slice(&self.dest.to_be_bytes());
        let hi = (self.tpci << 2) | ((self.apci >> 2) & 3);
        let mut lo = (self.apci & 3) << 6;
        if self.small {
            v.push(1);
            lo |= self.value.first().copied().unwrap_or(0) & 0x3f;
            v.push(hi);
            v.push(lo);
        } else {
            v.push(1 + self.value.len() as u8);
            v.push(hi);
            v.push(lo);
            v.extend_from_slice(&self.value);
        }
        v
    }
    /// Strict decode of an L_Data.req/con/ind (or L_Busmon.ind in the same layout).
    pub fn decode(b: &[u8]) -> Option<Tel> {
        if b.len() < 2 || ![L_REQ, L_CON, L_IND, L_BUSMON].contains(&b[0]) {
            return None;
        }
        let ai = b[1] as usize;
        if b.len() < 2 + ai + 9 {
            return None;
        }
        let addinfo = b[2..2 + ai].to_vec();
        // every additional-information block must fit exactly
        let mut i = 0;
        while i < addinfo.len() {
            if i + 2 > addinfo.len() {
                return None;
            }
            i += 2 + addinfo[i + 1] as usize;
        }
        if i != addinfo.len() {
            return None;
        }
        let p = &b[2 + ai..];
        let len = p[6] as usize;
        if len == 0 || p.len() != 8 + len {
            return None;
        }
        let small = len == 1;
        let value = if small { vec![p[8] & 0x3f] } else { p[9..].to_vec() };
        Some(Tel {
            code: b[0],
            addinfo,
            ctrl1: p[0],
            ctrl2: p[1],
            src: u16::from_be_bytes([p[2], p[3]]),
            dest: u16::from_be_bytes([p[4], p[5]]),
            tpci: p[7] >> 2,
            apci: ((p[7] & 3) << 2) | (p[8] >> 6),
            small,
            value,
        })
    }
}

/// A search response as a device sends it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SearchInfo {
    pub endpoint: SocketAddrV4,
    pub medium: u8,
    pub status: u8,
    pub ia: u16,
    pub project: u16,
    pub serial: [u8; 6],
    pub mcast: [u8; 4],
    pub mac: [u8; 6],
    pub name: Vec<u8>,
    pub families: Vec<(u8, u8)>,
    pub extra: Vec<u8>,
}

impl SearchInfo {
    pub fn encode(&self) -> Vec<u8> {
        let mut p = hpai_bytes(self.endpoint);
        p.extend_from_slice(&[54, 1, self.medium, self.status]);
        p.extend_from_slice(&self.ia.to_be_bytes());
        p.extend_from_slice(&self.project.to_be_bytes());
        p.extend_from_slice(&self.serial);
        p.extend_from_slice(&self.mcast);
        p.extend_from_slice(&self.mac);
        let mut n = self.name.clone();
        n.resize(30, 0);
        p.extend_from_slice(&n);
        p.push(2 + 2 * self.families.len() as u8);
        p.push(2);
        for (f, v) in &self.families {
            p.push(*f);
            p.push(*v);
        }
        p.extend_from_slice(&self.extra);
        frame(0x0202, &p)
    }
}

/// Reads back what `SearchInfo::encode` wrote.
pub fn parse_search(b: &[u8]) -> Option<SearchInfo> {
    let Some(Frame::SearchResp { body }) = decode(b) else { return None };
    let p = body;
    if p.len() < 64 || p[8] != 54 || p[9] != 1 {
        return None;
    }
    let h = hpai(&p[..8])?;
    let n = p[62] as usize;
    if n < 2 || p.len() < 62 + n || p[63] != 2 {
        return None;
    }
    let mut serial = [0u8; 6];
    serial.copy_from_slice(&p[16..22]);
    let mut mcast = [0u8; 4];
    mcast.copy_from_slice(&p[22..26]);
    let mut mac = [0u8; 6];
    mac.copy_from_slice(&p[26..32]);
    Some(SearchInfo {
        endpoint: h.addr,
        medium: p[10],
        status: p[11],
        ia: u16::from_be_bytes([p[12], p[13]]),
        project: u16::from_be_bytes([p[14], p[15]]),
        serial,
        mcast,
        mac,
        name: p[32..62].to_vec(),
        families: p[64..62 + n].chunks(2).map(|c| (c[0], c[1])).collect(),
        extra: p[62 + n..].to_vec(),
    })
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
