//! Runs one plan: the applications (real code under test) inside the simulated world.

use crate::plan::*;
use crate::wire::SearchInfo;
use crate::world::*;
use knx_ip_client::packets::addresses::KnxAddress;
use knx_ip_client::packets::core::SearchResponse;
use knx_ip_client::packets::emi::LDataInd;
use knx_ip_client::transport::udp::UdpClient;
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::sim::{self, spawn_tagged};

pub struct RunResult {
    pub plan: Plan,
    pub hist: Vec<Rec>,
    pub dgs: Vec<DgInfo>,
    /// socket -> (instance, port)
    pub socks: Vec<(InstId, u16)>,
    pub taken: Vec<Choice>,
    pub stats: Counters,
    pub sched_hash: u64,
    pub polls: u64,
    pub sim_ms: u64,
    pub peak_mem: (u64, i64),
    pub end_mem: i64,
}

thread_local! {
    static PANICS: RefCell<Vec<(u64, u32, String)>> = const { RefCell::new(Vec::new()) };
    static IN_RUN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_run = IN_RUN.try_with(|c| c.get()).unwrap_or(false);
        let tag = if in_run { sim::current_tag() } else { 0 };
        if in_run && tag != 0 {
            let text = match info.payload().downcast_ref::<&str>() {
                Some(s) => s.to_string(),
                None => match info.payload().downcast_ref::<String>() {
                    Some(s) => s.clone(),
                    None => "panic".into(),
                },
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANICS.with(|p| p.borrow_mut().push((crate::clock::now_ms(), tag, format!("{} at {}", text, loc))));
        } else {
            prev(info);
        }
    }));
}

enum Handle {
    Client(UdpClient),
    Monitor(UdpMonitor),
}

/// The application's handle; records the moment the last reference goes.
struct Owned {
    inst: InstId,
    world: Arc<Shared>,
    h: Option<Handle>,
}
impl Drop for Owned {
    fn drop(&mut self) {
        self.world.lock().rec(Ev::Released { inst: self.inst });
        self.h = None;
    }
}
impl Owned {
    fn h(&self) -> &Handle {
        self.h.as_ref().unwrap()
    }
}

struct Inst {
    owned: Option<Arc<Owned>>,
    run: Option<tokio::sync::watch::Sender<u8>>,
    listeners: usize,
}

struct Catch<F>(Pin<Box<F>>);
impl<F: Future> Future for Catch<F> {
    type Output = Result<F::Output, ()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match catch_unwind(AssertUnwindSafe(|| self.0.as_mut().poll(cx))) {
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Ok(Poll::Pending) => Poll::Pending,
            Err(_) => Poll::Ready(Err(())),
        }
    }
}

pub fn address_text(addr: u16, level: u8) -> String {
    match level {
        3 => format!("{}/{}/{}", addr >> 11, (addr >> 8) & 7, addr & 0xff),
        2 => format!("{}/{}", addr >> 11, addr & 0x7ff),
        _ => format!("{}", addr),
    }
}

fn address(addr: u16, level: u8) -> Result<KnxAddress, Out> {
    KnxAddress::try_from(address_text(addr, level).as_str()).map_err(|e| Out::Err(format!("address {}", e)))
}

async fn do_op(o: &Owned, op: &OpKind) -> Out {
    fn e<E: std::fmt::Display>(e: E) -> Out {
        Out::Err(e.to_string())
    }
    match (o.h(), op) {
        (Handle::Client(c), OpKind::Read { addr, level }) => {
            let a = match address(*addr, *level) {
                Ok(a) => a,
                Err(o) => return o,
            };
            match c.read_group_address_value(a).await {
                Ok(v) => Out::Bytes(v),
                Err(x) => e(x),
            }
        }
        (h, OpKind::Write { addr, level, value, small }) => {
            let a = match address(*addr, *level) {
                Ok(a) => a,
                Err(o) => return o,
            };
            let r = match h {
                Handle::Client(c) => c.write_group_address_value(a, value.clone(), *small).await,
                Handle::Monitor(m) => m.write_group_address_value(a, value.clone(), *small).await,
            };
            match r {
                Ok(()) => Out::Unit,
                Err(x) => e(x),
            }
        }
        (Handle::Client(c), OpKind::Status) => match c.get_connection_status().await {
            Ok(r) => Out::Status {
                ch: r.communication_channel_id,
                status: r.status,
            },
            Err(x) => e(x),
        },
        (Handle::Client(c), OpKind::Flush) => match c.flush().await {
            Ok(()) => Out::Unit,
            Err(x) => e(x),
        },
        (Handle::Client(c), OpKind::Disconnect) => match c.disconnect().await {
            Ok(()) => Out::Unit,
            Err(x) => e(x),
        },
        (Handle::Monitor(m), OpKind::Disconnect) => match m.disconnect().await {
            Ok(c) => Out::Code(c),
            Err(x) => e(x),
        },
        (Handle::Monitor(m), OpKind::Solicit { addr, level }) | (Handle::Monitor(m), OpKind::Read { addr, level }) => {
            let a = match address(*addr, *level) {
                Ok(a) => a,
                Err(o) => return o,
            };
            match m.solecitate_group_read(a).await {
                Ok(()) => Out::Unit,
                Err(x) => e(x),
            }
        }
        (Handle::Monitor(m), OpKind::IsConnected) => Out::Bool(m.is_connected().await),
        _ => Out::Unit,
    }
}

fn msg(i: &LDataInd) -> Msg {
    Msg {
        code: i.cemi.msg_code,
        addinfo: i
            .cemi
            .additional_infos
            .iter()
            .map(|a| {
                let name = format!("{:?}", a.info_type);
                let code = match name.as_str() {
                    "PLMediumInfo" => 1,
                    "RFMediumInfo" => 2,
                    "BusmonitorStatusInfo" => 3,
                    "TimestampRelative" => 4,
                    "TimeDelayUnitlSending" => 5,
                    "ExtendedRelativeTime" => 6,
                    "BiBatInfo" => 7,
                    "RFMultiInfo" => 8,
                    "PreambleAndPostamble" => 9,
                    "RFFastAckInfo" => 10,
                    "ManufacturerSpecificData" => 0xfe,
                    _ => 0,
                };
                (code, a.value.clone())
            })
            .collect(),
        service_info: i.cemi.service_info.clone(),
        flags: [i.l_data.frame_type, i.l_data.repetition, i.l_data.system_broadcast, i.l_data.ack_request],
        src: i.l_data.src,
        dest: i.l_data.dest,
        value: i.value.clone(),
    }
}

fn search_info(r: &SearchResponse) -> SearchInfo {
    let d = &r.device_hardware;
    SearchInfo {
        endpoint: r.control_endpoint.address,
        medium: d.knx_medium as u8,
        status: d.knx_device_status.bits(),
        ia: d.knx_individual_address.to_u16(),
        project: d.project_installation_identifier,
        serial: d.serial_number,
        mcast: d.routing_multicast_address.octets(),
        mac: d.mac_address,
        name: d.friendly_name.to_vec(),
        families: r
            .supported_service_families
            .service_families
            .iter()
            .map(|f| (f.service_family, f.version))
            .collect(),
        extra: vec![],
    }
}

async fn consumer(world: Arc<Shared>, o: Arc<Owned>, spec: InstSpec, mut run: tokio::sync::watch::Receiver<u8>) {
    // 0: paused, 1: running, 2: stop
    let inst = o.inst;
    let Handle::Monitor(m) = o.h() else { return };
    let mut errs = 0;
    loop {
        let state = *run.borrow();
        if state == 2 {
            return;
        }
        if state == 0 {
            if run.changed().await.is_err() {
                return;
            }
            continue;
        }
        world.lock().rec(Ev::WaitStart { inst });
        let cancel = if spec.wait_cancel_ms > 0 { spec.wait_cancel_ms as u64 } else { 3_600_000 };
        let r = tokio::select! {
            biased;
            r = m.next_msg() => Some(r.map(|i| msg(&i)).map_err(|_| ())),
            _ = run.changed() => None,
            _ = tokio::time::sleep(Duration::from_millis(cancel)) => None,
        };
        match r {
            Some(Ok(i)) => {
                errs = 0;
                world.lock().rec(Ev::Got { inst, msg: i });
                if spec.think_ms > 0 {
                    tokio::time::sleep(Duration::from_millis(spec.think_ms as u64)).await;
                }
            }
            Some(Err(_)) => {
                errs += 1;
                world.lock().rec(Ev::GotErr { inst });
                if errs > 50 {
                    return;
                }
                tokio::time::sleep(Duration::from_millis(20)).await;
            }
            None => {}
        }
    }
}

struct Driver {
    world: Arc<Shared>,
    insts: Arc<Mutex<Vec<Inst>>>,
    searches: usize,
    ops: u32,
}

impl Driver {
    fn app_step(&mut self, idx: usize, act: &Action) {
        let world = self.world.clone();
        match act.clone() {
            Action::Connect { inst } => {
                let insts = self.insts.clone();
                let spec = world.lock().plan.insts[inst].clone();
                let w2 = world.clone();
                spawn_tagged(tag_of(inst, 1), async move {
                    w2.lock().rec(Ev::ConnectStart { inst });
                    let h = match spec.kind {
                        Kind::Client => {
                            if inst % 2 == 0 {
                                UdpClient::connect(GW.to_string()).await.map(Handle::Client)
                            } else {
                                UdpClient::connect(GW).await.map(Handle::Client)
                            }
                        }
                        Kind::Monitor => UdpMonitor::connect(&GW.to_string()).await.map(Handle::Monitor),
                    };
                    w2.lock().rec(Ev::ConnectEnd { inst, ok: h.is_ok() });
                    let Ok(h) = h else { return };
                    let o = Arc::new(Owned {
                        inst,
                        world: w2.clone(),
                        h: Some(h),
                    });
                    let mut g = insts.lock().unwrap();
                    if spec.kind == Kind::Monitor {
                        let (tx, rx) = tokio::sync::watch::channel(1);
                        w2.lock().rec(Ev::Consumer { inst, run: true });
                        g[inst].run = Some(tx);
                        spawn_tagged(tag_of(inst, 2), consumer(w2.clone(), o.clone(), spec, rx));
                    }
                    g[inst].owned = Some(o);
                });
            }
            Action::Op { inst, op, cancel_ms } => {
                let Some(o) = self.insts.lock().unwrap().get(inst).and_then(|i| i.owned.clone()) else {
                    return;
                };
                self.ops += 1;
                let tag = tag_of(inst, 16 + self.ops % 200);
                spawn_tagged(tag, async move {
                    world.lock().rec(Ev::OpStart {
                        op: idx,
                        inst,
                        kind: op.clone(),
                    });
                    let fut = Catch(Box::pin(do_op(&o, &op)));
                    let out = match cancel_ms {
                        None => fut.await.unwrap_or(Out::Panicked),
                        Some(n) if n >= CANCEL_POLLS => {
                            let mut fut = Box::pin(fut);
                            let mut left = n - CANCEL_POLLS;
                            std::future::poll_fn(|cx| {
                                if let Poll::Ready(r) = fut.as_mut().poll(cx) {
                                    return Poll::Ready(r.unwrap_or(Out::Panicked));
                                }
                                if left == 0 {
                                    return Poll::Ready(Out::Cancelled);
                                }
                                left -= 1;
                                Poll::Pending
                            })
                            .await
                        }
                        Some(ms) => {
                            tokio::select! {
                                biased;
                                _ = tokio::time::sleep(Duration::from_millis(ms as u64)) => Out::Cancelled,
                                r = fut => r.unwrap_or(Out::Panicked),
                            }
                        }
                    };
                    {
                        let mut w = world.lock();
                        if out == Out::Cancelled {
                            w.count("call_cancelled");
                        }
                        w.rec(Ev::OpEnd { op: idx, out });
                    }
                    drop(o);
                });
            }
            Action::Drop { inst } => {
                let mut g = self.insts.lock().unwrap();
                if let Some(i) = g.get_mut(inst) {
                    if let Some(r) = i.run.take() {
                        let _ = r.send(2);
                    }
                    let o = i.owned.take();
                    drop(g);
                    if o.is_some() {
                        world.lock().fault("handle_dropped");
                    }
                    drop(o);
                }
            }
            Action::Consumer { inst, run } => {
                let g = self.insts.lock().unwrap();
                if let Some(Some(r)) = g.get(inst).map(|i| i.run.as_ref()) {
                    world.lock().rec(Ev::Consumer { inst, run });
                    if !run {
                        world.lock().fault("reader_paused");
                    }
                    let _ = r.send(run as u8);
                }
            }
            Action::Listener { inst, cap, drain, life_ms, pause } => {
                let mut g = self.insts.lock().unwrap();
                let Some(i) = g.get_mut(inst) else { return };
                let Some(o) = i.owned.clone() else { return };
                let l = i.listeners;
                i.listeners += 1;
                drop(g);
                spawn_tagged(tag_of(inst, 3), async move {
                    let (tx, mut rx) = tokio::sync::mpsc::channel(cap);
                    match o.h() {
                        Handle::Monitor(m) => m.add_on_connect(tx).await,
                        _ => return,
                    }
                    drop(o);
                    world.lock().rec(Ev::ListenerAdd { inst, l, drain, cap });
                    let end = async {
                        match life_ms {
                            Some(ms) => tokio::time::sleep(Duration::from_millis(ms as u64)).await,
                            None => std::future::pending().await,
                        }
                    };
                    tokio::pin!(end);
                    let mut stop = pause.map(|(a, _)| tokio::time::Instant::now() + Duration::from_millis(a as u64));
                    if drain {
                        loop {
                            let halt = async {
                                match stop {
                                    Some(t) => tokio::time::sleep_until(t).await,
                                    None => std::future::pending().await,
                                }
                            };
                            tokio::select! {
                                _ = halt => {
                                    stop = None;
                                    world.lock().rec(Ev::ListenerPause { inst, l, on: true });
                                    let (_, len) = pause.unwrap();
                                    tokio::select! {
                                        _ = tokio::time::sleep(Duration::from_millis(len as u64)) => {}
                                        _ = &mut end => break,
                                    }
                                    world.lock().rec(Ev::ListenerPause { inst, l, on: false });
                                }
                                r = rx.recv() => match r {
                                    Some(()) => world.lock().rec(Ev::Notified { inst, l }),
                                    // the library let go of it: it still waits to be told
                                    None => {
                                        end.as_mut().await;
                                        break;
                                    }
                                },
                                _ = &mut end => break,
                            }
                        }
                    } else {
                        end.await;
                    }
                    world.lock().rec(Ev::ListenerGone { inst, l });
                    drop(rx);
                });
            }
            Action::Search {
                timeout_ms,
                send_err,
                bind_err,
                ..
            } => {
                let inst = SEARCH_BASE + self.searches;
                self.searches += 1;
                {
                    let mut w = world.lock();
                    w.set_search(inst, idx);
                    if send_err {
                        w.add_send_err(inst, 1);
                    }
                    if bind_err {
                        w.add_bind_err(inst);
                    }
                }
                spawn_tagged(tag_of(inst, 1), async move {
                    world.lock().rec(Ev::SearchStart { op: idx, inst, timeout_ms });
                    let fut = Catch(Box::pin(UdpClient::search(Duration::from_millis(timeout_ms as u64))));
                    let out = match fut.await {
                        Ok(Ok(v)) => Out::Search(v.iter().map(search_info).collect()),
                        Ok(Err(e)) => Out::Err(e.to_string()),
                        Err(()) => Out::Panicked,
                    };
                    world.lock().rec(Ev::OpEnd { op: idx, out });
                });
            }
            _ => {}
        }
    }

    async fn run(mut self) {
        loop {
            let (due, next) = {
                let mut w = self.world.lock();
                if w.over {
                    return;
                }
                (w.pop_due(), w.next_time())
            };
            match due {
                Some(Task::End) => return,
                Some(t @ (Task::Step(i) | Task::Fire(i))) => {
                    let act = {
                        let mut w = self.world.lock();
                        let mut act = w.plan.steps[i].act.clone();
                        if let (Task::Fire(_), Action::When { act: then, .. }) = (t, &act) {
                            w.count("timed_to_a_datagram");
                            act = (**then).clone();
                        }
                        w.step(i, act.clone());
                        act
                    };
                    self.app_step(i, &act);
                    // tasks spawned by a step get to run before the next event
                }
                Some(t) => self.world.lock().exec(t),
                None => {
                    let Some(next) = next else { return };
                    let at = self.world.lock().instant_of(next);
                    tokio::select! {
                        biased;
                        _ = self.world.wake.notified() => {}
                        _ = tokio::time::sleep_until(at) => {}
                    }
                }
            }
        }
    }
}

/// Run a plan on this thread (which must be fresh).
pub fn run_here(plan: Plan) -> RunResult {
    crate::clock::enter(plan.seed);
    IN_RUN.with(|c| c.set(true));
    PANICS.with(|p| p.borrow_mut().clear());
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&plan.select_seed.to_le_bytes()))
        .build()
        .expect("runtime");
    let (world, sim_ms, insts, end_mem) = rt.block_on(async {
        let n = plan.insts.len();
        sim::mem::reset();
        let world = Shared::new(plan);
        sim::set_host(Some(world.clone()));
        let d = Driver {
            world: world.clone(),
            insts: Arc::new(Mutex::new(
                (0..n)
                    .map(|_| Inst {
                        owned: None,
                        run: None,
                        listeners: 0,
                    })
                    .collect(),
            )),
            searches: 0,
            ops: 0,
        };
        let insts = d.insts.clone();
        d.run().await;
        let ms = {
            let mut w = world.lock();
            w.over = true;
            w.now()
        };
        (world, ms, insts, sim::mem::live())
    });
    let (hist, dgs, socks, taken, stats, sched_hash, polls, plan) = {
        let mut w = world.lock();
        let panics: Vec<(u64, u32, String)> = PANICS.with(|p| p.borrow_mut().drain(..).collect());
        for (t, tag, text) in panics {
            w.hist.push(Rec {
                t,
                ev: Ev::Panic { tag, text },
            });
        }
        let socks = w.socks.iter().map(|s| (s.inst, s.port)).collect();
        (
            std::mem::take(&mut w.hist),
            std::mem::take(&mut w.dgs),
            socks,
            std::mem::take(&mut w.taken),
            std::mem::take(&mut w.stats),
            w.sched_hash,
            w.polls,
            w.plan.clone(),
        )
    };
    let peak_mem = world.lock().peak_mem;
    // nothing of the finished run may call back into the world
    sim::set_host(None);
    drop(insts);
    drop(rt);
    IN_RUN.with(|c| c.set(false));
    crate::clock::leave();
    RunResult {
        plan,
        hist,
        dgs,
        socks,
        taken,
        stats,
        sched_hash,
        polls,
        sim_ms,
        peak_mem,
        end_mem,
    }
}
