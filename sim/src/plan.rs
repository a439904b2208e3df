//! A plan is one complete, replayable run: knobs, steps, fault rates and (after minimisation)
//! the explicit list of every non-default decision.

use crate::wire::Tel;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Client,
    Monitor,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TelSpec {
    pub code: u8,
    pub addinfo: Vec<u8>,
    pub ctrl1: u8,
    pub ctrl2: u8,
    pub src: u16,
    pub dest: u16,
    pub apci: u8,
    pub small: bool,
    pub value: Vec<u8>,
}

impl TelSpec {
    pub fn tel(&self) -> Tel {
        Tel {
            code: self.code,
            addinfo: self.addinfo.clone(),
            ctrl1: self.ctrl1,
            ctrl2: self.ctrl2,
            src: self.src,
            dest: self.dest,
            tpci: 0,
            apci: self.apci,
            small: self.small,
            value: self.value.clone(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum OpKind {
    Read { addr: u16, level: u8 },
    Write { addr: u16, level: u8, value: Vec<u8>, small: bool },
    Status,
    Disconnect,
    Solicit { addr: u16, level: u8 },
    IsConnected,
    Flush,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dir {
    C2G,
    G2C,
}

/// `cancel_ms` from here on: the call is abandoned after so many polls, whatever the time.
pub const CANCEL_POLLS: u32 = 1 << 24;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Action {
    Connect { inst: usize },
    Op { inst: usize, op: OpKind, cancel_ms: Option<u32> },
    /// Release every handle of the instance.
    Drop { inst: usize },
    Consumer { inst: usize, run: bool },
    /// A connection listener. `drain`: reads its notifications. `life_ms`: closes after that long.
    /// `pause`: it stops reading that long after it registered, for that long.
    Listener { inst: usize, cap: usize, drain: bool, life_ms: Option<u32>, pause: Option<(u32, u32)> },
    /// A telegram on the bus, seen by every tunnel.
    Bus(TelSpec),
    /// `n` telegrams, `gap_ms` apart, values derived from the counter.
    Flood { spec: TelSpec, n: u32, gap_ms: u32 },
    /// Raw bytes straight into the instance's socket, apparently from the gateway.
    Inject { inst: usize, spec: Inject },
    /// A cEMI of any content through the gateway's normal numbered sending.
    WeirdCemi { inst: usize, cemi: Vec<u8> },
    /// TUNNELING_FEATURE_INFO through the normal numbered sending.
    FeatureInfo { inst: usize, feature: u8, value: Vec<u8> },
    Partition { ms: u32, c2g: bool, g2c: bool },
    /// The next `n` datagrams of service `svc` (0: any) in that direction are lost / late / doubled.
    LoseNext { dir: Dir, svc: u16, n: u32 },
    DelayNext { dir: Dir, svc: u16, n: u32, ms: u32 },
    DupNext { dir: Dir, svc: u16, n: u32, ms: u32 },
    /// The next datagram of that service with that sequence number is lost (None) or doubled.
    SeqFault { dir: Dir, svc: u16, seq: u8, dup: Option<u32> },
    SendErr { inst: usize, n: u32, svc: u16 },
    /// The next `n` sockets of this instance cannot be bound.
    BindErr { inst: usize, n: u32 },
    /// The next `n` sockets of this instance cannot be connected: no route.
    RouteErr { inst: usize, n: u32 },
    /// When a task of the instance next sends (or receives) a datagram of that service, it stops for
    /// `ms` at its `skip`-th lock or send after that; with `close` the gateway closes the tunnel
    /// right then.
    StallAt { inst: usize, send: bool, svc: u16, skip: u32, ms: u32, close: bool },
    /// The action happens `ms` after the instance next sends (or receives) a datagram of that service.
    When { inst: usize, send: bool, svc: u16, ms: u32, act: Box<Action> },
    /// A datagram from somebody else than the gateway; the network stack keeps it from a connected socket.
    Alien { inst: usize, spec: Inject },
    Icmp { inst: usize },
    GwCrash { down_ms: u32, icmp: bool },
    GwFreeze { ms: u32 },
    GwRefuse { ms: u32, code: u8 },
    GwClose { inst: usize },
    GwStatusErr { code: u8, n: u32 },
    GwStatusMute { n: u32 },
    /// Next `n` confirmations: negative / missing / late.
    GwConNeg { n: u32 },
    GwConNone { n: u32 },
    GwConLate { n: u32, ms: u32 },
    /// The next `n` numbered requests are refused: acknowledged with an error, not taken.
    GwAckErr { n: u32, code: u8 },
    /// For so long numbered requests are not taken; instead acknowledgements with a wrong number
    /// (`refuse` false) or the right number and an error arrive every `gap_ms`.
    AckStorm { inst: usize, ms: u32, gap_ms: u32, refuse: bool },
    GwDiscMute { n: u32 },
    GwDiscStatus { code: u8, n: u32 },
    /// An L_Data.con nobody asked for (another address, or an old one), positive or negative.
    StrayCon { inst: usize, spec: TelSpec },
    Search { timeout_ms: u32, devices: Vec<SearchDev>, send_err: bool, bind_err: bool },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Inject {
    Bytes(Vec<u8>),
    /// A TUNNELING_REQUEST with this channel offset (0: the live channel) and sequence offset
    /// from what the gateway would send next.
    Tun { ch_off: u8, seq_off: u8, cemi: Vec<u8>, cut: u16, len_delta: i16 },
    /// A STATE_RESPONSE / DISCONNECT_REQUEST / DISCONNECT_RESPONSE / ACK for a foreign channel.
    Foreign { svc: u16, ch_off: u8, status: u8 },
    /// A STATE_RESPONSE / DISCONNECT_REQUEST / DISCONNECT_RESPONSE for the live channel.
    Own { svc: u16, status: u8 },
    /// As Own, cut short by `cut` bytes or with byte `at` of the header changed to `val`.
    OwnBroken { svc: u16, status: u8, cut: u8, at: u8, val: u8 },
    /// An acknowledgement for the live channel: `seq_off` from the number due next.
    OwnAck { seq_off: u8, status: u8 },
    /// A CONNECT_RESPONSE nobody asked for.
    StrayConnect { ch_off: u8, status: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SearchDev {
    pub delay_ms: u32,
    pub bytes: Vec<u8>,
    pub well_formed: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Step {
    pub at: u64,
    pub act: Action,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Device {
    pub addr: u16,
    pub small: bool,
    pub len: usize,
    pub delay_ms: u32,
    pub answers: bool,
    /// Reacts to a write with a telegram of its own on the same address after this long.
    pub feedback_ms: Option<u32>,
    /// Answers carry additional information.
    pub addinfo: Vec<u8>,
    /// First control octet of its telegrams, without the frame type.
    pub ctrl1: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct InstSpec {
    pub kind: Kind,
    /// Monitor consumer: give up a wait after this long and wait again (0: never).
    pub wait_cancel_ms: u32,
    /// Monitor consumer: pause after each telegram.
    pub think_ms: u32,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Rates {
    /// per mille
    pub loss_c2g: u32,
    pub loss_g2c: u32,
    pub dup: u32,
    pub reorder: u32,
    pub reorder_ms: u32,
    pub jitter_ms: u32,
    pub poll_yield: u32,
    pub site_yield: u32,
    pub stall: u32,
    pub stall_ms: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Knobs {
    pub latency_ms: u32,
    pub con_delay_ms: u32,
    pub first_channel: u8,
    pub capacity: usize,
    pub endpoint_in_response: bool,
    pub long_refusal: bool,
    pub feature_replies: bool,
    pub feature_refused: bool,
    /// The gateway leaves requests of the feature service unanswered and unacknowledged.
    #[serde(default)]
    pub feature_unknown: bool,
    /// The gateway hands out the lowest free channel, so that a new tunnel often has the old one's.
    pub reuse_channel: bool,
    /// Additional information in the confirmations.
    #[serde(default)]
    pub con_addinfo: Vec<u8>,
    /// Bits of the control octets that differ between request and confirmation (repetition,
    /// priority, hop count).
    #[serde(default)]
    pub con_ctrl: (u8, u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Choice {
    pub s: u8,
    pub i: u64,
    pub v: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Plan {
    pub profile: String,
    pub seed: u64,
    pub select_seed: u64,
    pub knobs: Knobs,
    pub rates: Rates,
    pub insts: Vec<InstSpec>,
    pub devices: Vec<Device>,
    pub steps: Vec<Step>,
    /// No fault is injected from here on.
    pub quiet_at: u64,
    pub end_at: u64,
    /// Some: replay exactly these decisions, everything else default. None: draw from the seed.
    pub explicit: Option<Vec<Choice>>,
}
