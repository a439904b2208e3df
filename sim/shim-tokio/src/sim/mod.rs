//! The seam between the shimmed API and the simulator (the "host").

pub mod sync;
pub mod udp;

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use real_tokio::time::Sleep;

/// Where a scheduling decision is taken.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Site {
    Poll,
    Lock,
    ChanSend,
    ChanRecv,
    SockSend,
    SockRecv,
}

/// What the scheduler does with a task at a site.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Disturb {
    None,
    /// Go to the back of the run queue this many times.
    Yields(u32),
    /// Do not run for this many simulated milliseconds.
    StallMs(u32),
}

/// The simulator.
pub trait Host: Send + Sync + 'static {
    /// Scheduling decision for the task with this tag at this site.
    fn disturb(&self, tag: u32, site: Site) -> Disturb;
    /// Called before every poll of a simulated task. False: the run is over, never poll again.
    fn polled(&self, tag: u32) -> bool;
    /// The code under test spawned a task, and one of its tasks is gone.
    fn spawned(&self, tag: u32);
    fn ended(&self, tag: u32);
    fn bind(&self, tag: u32, sock: &Arc<udp::Sock>, want: SocketAddr) -> io::Result<SocketAddr>;
    fn connect(&self, sock: &Arc<udp::Sock>) -> io::Result<()>;
    fn send(&self, sock: &Arc<udp::Sock>, to: SocketAddr, buf: &[u8]) -> io::Result<usize>;
    /// The code under test took a datagram (or an error) out of the socket.
    fn received(&self, sock: &udp::Sock, dg: u64);
    fn received_err(&self, sock: &udp::Sock, kind: io::ErrorKind);
    fn closed(&self, sock: &udp::Sock);
}

thread_local! {
    static HOST: RefCell<Option<Arc<dyn Host>>> = const { RefCell::new(None) };
    static TAG: Cell<u32> = const { Cell::new(0) };
}

pub mod mem;

pub fn set_host(h: Option<Arc<dyn Host>>) {
    HOST.with(|c| *c.borrow_mut() = h);
}

pub fn host() -> Option<Arc<dyn Host>> {
    HOST.try_with(|c| c.borrow().clone()).ok().flatten()
}

pub fn current_tag() -> u32 {
    TAG.with(|t| t.get())
}

/// A task whose polls the simulator may defer or stall.
pub struct SimTask<F> {
    tag: u32,
    yields: u32,
    stall: Option<Pin<Box<Sleep>>>,
    fut: Pin<Box<F>>,
    // last: the future goes first
    _gone: Option<Gone>,
}

impl<F: Future> SimTask<F> {
    pub fn new(tag: u32, fut: F) -> Self {
        Self {
            tag,
            _gone: None,
            yields: 0,
            stall: None,
            fut: Box::pin(fut),
        }
    }
}

impl<F: Future> SimTask<F> {
    /// A task of the code under test.
    pub fn counted(tag: u32, fut: F) -> Self {
        if let Some(h) = host() {
            h.spawned(tag);
        }
        Self {
            _gone: Some(Gone(tag)),
            ..Self::new(tag, fut)
        }
    }
}

/// Tells when a task is gone, however it ended.
struct Gone(u32);
impl Drop for Gone {
    fn drop(&mut self) {
        if let Some(h) = host() {
            h.ended(self.0);
        }
    }
}

struct TagGuard(u32);
impl Drop for TagGuard {
    fn drop(&mut self) {
        let _ = TAG.try_with(|t| t.set(self.0));
    }
}

impl<F: Future> Future for SimTask<F> {
    type Output = F::Output;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let this = &mut *self;
        let host = host();
        if let Some(h) = &host {
            if !h.polled(this.tag) {
                return Poll::Pending;
            }
        }
        if this.yields > 0 {
            this.yields -= 1;
            if this.yields > 0 {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        } else if let Some(s) = &mut this.stall {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            this.stall = None;
        } else if let Some(h) = &host {
            match h.disturb(this.tag, Site::Poll) {
                Disturb::None => {}
                Disturb::Yields(n) => {
                    // n deferrals, then one poll of the task itself
                    this.yields = n + 1;
                    this.yields -= 1;
                    if this.yields > 0 {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
                Disturb::StallMs(ms) => {
                    let mut s = Box::pin(real_tokio::time::sleep(Duration::from_millis(ms as u64)));
                    if s.as_mut().poll(cx).is_pending() {
                        this.stall = Some(s);
                        return Poll::Pending;
                    }
                }
            }
        }
        let _g = TagGuard(TAG.with(|t| t.replace(this.tag)));
        let _m = mem::scope(true);
        this.fut.as_mut().poll(cx)
    }
}

struct OneThread<F>(Pin<Box<F>>);
// SAFETY: every simulated run lives on one thread: the runtime is current-thread, and it is
// created, driven and dropped there.
unsafe impl<F> Send for OneThread<F> {}
impl<F: Future> Future for OneThread<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        self.0.as_mut().poll(cx)
    }
}

/// Spawn an application task under a tag of its own.
pub fn spawn_tagged<F>(tag: u32, fut: F)
where
    F: Future<Output = ()> + 'static,
{
    real_tokio::task::spawn(SimTask::new(tag, OneThread(Box::pin(fut))));
}

/// The seeded yield point in front of every synchronisation operation.
pub async fn point(site: Site) {
    let Some(h) = host() else { return };
    match h.disturb(current_tag(), site) {
        Disturb::None => {}
        Disturb::Yields(n) => {
            for _ in 0..n {
                yield_once().await;
            }
        }
        Disturb::StallMs(ms) => real_tokio::time::sleep(Duration::from_millis(ms as u64)).await,
    }
}

async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}
