//! The simulated UDP socket.

use super::{current_tag, host, point, Site};
use real_tokio::io::{Interest, ReadBuf, Ready};
use real_tokio::net::{lookup_host, ToSocketAddrs};
use std::collections::VecDeque;
use std::future::poll_fn;
use std::io;
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub struct Datagram {
    pub id: u64,
    pub from: SocketAddr,
    pub bytes: Vec<u8>,
}

#[derive(Default)]
struct State {
    local: Option<SocketAddr>,
    peer: Option<SocketAddr>,
    queue: VecDeque<Datagram>,
    error: Option<io::ErrorKind>,
    wakers: Vec<Waker>,
}

/// The kernel side of a simulated socket.
pub struct Sock {
    pub id: AtomicU64,
    pub tag: u32,
    state: Mutex<State>,
}

impl Sock {
    pub fn id(&self) -> u64 {
        self.id.load(Ordering::Relaxed)
    }
    pub fn peer(&self) -> Option<SocketAddr> {
        self.state.lock().unwrap().peer
    }
    pub fn local(&self) -> Option<SocketAddr> {
        self.state.lock().unwrap().local
    }
    pub fn queued(&self) -> usize {
        self.state.lock().unwrap().queue.len()
    }
    /// Deliver a datagram; `rotate` picks which of several waiting tasks is woken first.
    pub fn deliver(&self, d: Datagram, rotate: usize) {
        let mut s = self.state.lock().unwrap();
        if s.peer.map(|p| p != d.from).unwrap_or(false) {
            return; // a connected socket takes nothing from others
        }
        s.queue.push_back(d);
        let mut w = std::mem::take(&mut s.wakers);
        drop(s);
        if !w.is_empty() {
            let n = rotate % w.len();
            w.rotate_left(n);
        }
        for w in w {
            w.wake();
        }
    }
    /// Post an asynchronous socket error (ICMP).
    pub fn post_error(&self, kind: io::ErrorKind) {
        let mut s = self.state.lock().unwrap();
        s.error = Some(kind);
        let w = std::mem::take(&mut s.wakers);
        drop(s);
        for w in w {
            w.wake();
        }
    }
    fn take_error(&self) -> Option<io::ErrorKind> {
        self.state.lock().unwrap().error.take()
    }
    fn register(&self, w: &Waker) {
        let mut s = self.state.lock().unwrap();
        if !s.wakers.iter().any(|x| x.will_wake(w)) {
            s.wakers.push(w.clone());
        }
    }
}

pub struct UdpSocket {
    sock: Arc<Sock>,
}

impl Drop for UdpSocket {
    fn drop(&mut self) {
        if let Some(h) = host() {
            h.closed(&self.sock);
        }
    }
}

impl std::fmt::Debug for UdpSocket {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimUdpSocket({})", self.sock.id())
    }
}

fn no_host() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "no simulator on this thread")
}

async fn resolve<A: ToSocketAddrs>(addr: A) -> io::Result<SocketAddr> {
    lookup_host(addr)
        .await?
        .next()
        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "no address"))
}

impl UdpSocket {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<UdpSocket> {
        let want = resolve(addr).await?;
        let h = host().ok_or_else(no_host)?;
        let tag = current_tag();
        let sock = Arc::new(Sock {
            id: AtomicU64::new(0),
            tag,
            state: Mutex::new(State::default()),
        });
        let local = h.bind(tag, &sock, want)?;
        sock.state.lock().unwrap().local = Some(local);
        Ok(UdpSocket { sock })
    }

    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.sock.local().ok_or_else(|| io::ErrorKind::NotConnected.into())
    }

    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.sock.peer().ok_or_else(|| io::ErrorKind::NotConnected.into())
    }

    pub async fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
        let peer = resolve(addr).await?;
        host().ok_or_else(no_host)?.connect(&self.sock)?;
        let mut s = self.sock.state.lock().unwrap();
        s.peer = Some(peer);
        if let Some(l) = &mut s.local {
            if l.ip().is_unspecified() {
                // routing picks the interface address, as connect(2) does
                l.set_ip(std::net::IpAddr::V4(Ipv4Addr::new(10, 0, 0, 2)));
            }
        }
        // datagrams from other sources queued before connect() stay queued, as in the kernel
        Ok(())
    }

    fn do_send(&self, to: Option<SocketAddr>, buf: &[u8]) -> io::Result<usize> {
        let h = host().ok_or_else(no_host)?;
        if let Some(kind) = self.sock.take_error() {
            h.received_err(&self.sock, kind);
            return Err(kind.into());
        }
        let to = match to.or_else(|| self.sock.peer()) {
            Some(a) => a,
            None => return Err(io::ErrorKind::NotConnected.into()),
        };
        h.send(&self.sock, to, buf)
    }

    fn do_recv(&self, buf: &mut [u8], peek: bool) -> Option<io::Result<(usize, SocketAddr)>> {
        let h = host();
        if let Some(kind) = self.sock.take_error() {
            if let Some(h) = &h {
                h.received_err(&self.sock, kind);
            }
            return Some(Err(kind.into()));
        }
        let mut s = self.sock.state.lock().unwrap();
        let d = s.queue.front()?;
        let n = d.bytes.len().min(buf.len());
        buf[..n].copy_from_slice(&d.bytes[..n]);
        let from = d.from;
        if !peek {
            let d = s.queue.pop_front().unwrap();
            drop(s);
            if let Some(h) = &h {
                h.received(&self.sock, d.id);
            }
        }
        Some(Ok((n, from)))
    }

    fn poll_do_recv(&self, cx: &mut Context<'_>, buf: &mut [u8], peek: bool) -> Poll<io::Result<(usize, SocketAddr)>> {
        let coop = match real_tokio::task::coop::poll_proceed(cx) {
            Poll::Ready(c) => c,
            Poll::Pending => return Poll::Pending,
        };
        match self.do_recv(buf, peek) {
            Some(r) => {
                coop.made_progress();
                Poll::Ready(r)
            }
            None => {
                self.sock.register(cx.waker());
                Poll::Pending
            }
        }
    }

    pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
        real_tokio::task::coop::consume_budget().await;
        point(Site::SockSend).await;
        self.do_send(None, buf)
    }

    pub fn try_send(&self, buf: &[u8]) -> io::Result<usize> {
        self.do_send(None, buf)
    }

    pub fn poll_send(&self, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(self.do_send(None, buf))
    }

    pub async fn send_to<A: ToSocketAddrs>(&self, buf: &[u8], addr: A) -> io::Result<usize> {
        let to = resolve(addr).await?;
        real_tokio::task::coop::consume_budget().await;
        point(Site::SockSend).await;
        self.do_send(Some(to), buf)
    }

    pub fn try_send_to(&self, buf: &[u8], target: SocketAddr) -> io::Result<usize> {
        self.do_send(Some(target), buf)
    }

    pub fn poll_send_to(&self, _cx: &mut Context<'_>, buf: &[u8], target: SocketAddr) -> Poll<io::Result<usize>> {
        Poll::Ready(self.do_send(Some(target), buf))
    }

    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        Ok(self.recv_from(buf).await?.0)
    }

    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        point(Site::SockRecv).await;
        poll_fn(|cx| self.poll_do_recv(cx, buf, false)).await
    }

    pub fn try_recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.try_recv_from(buf).map(|r| r.0)
    }

    pub fn try_recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        match self.do_recv(buf, false) {
            Some(r) => r,
            None => Err(io::ErrorKind::WouldBlock.into()),
        }
    }

    pub async fn recv_buf<B: BufMutLike>(&self, buf: &mut B) -> io::Result<usize> {
        let mut tmp = vec![0; 65536];
        let n = self.recv(&mut tmp).await?;
        buf.put(&tmp[..n]);
        Ok(n)
    }

    pub async fn recv_buf_from<B: BufMutLike>(&self, buf: &mut B) -> io::Result<(usize, SocketAddr)> {
        let mut tmp = vec![0; 65536];
        let (n, a) = self.recv_from(&mut tmp).await?;
        buf.put(&tmp[..n]);
        Ok((n, a))
    }

    pub fn poll_recv(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.poll_recv_from(cx, buf).map(|r| r.map(|_| ()))
    }

    pub fn poll_recv_from(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<SocketAddr>> {
        let mut tmp = vec![0; buf.remaining()];
        match self.poll_do_recv(cx, &mut tmp, false) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok((n, a))) => {
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(a))
            }
        }
    }

    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        Ok(self.peek_from(buf).await?.0)
    }

    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        poll_fn(|cx| self.poll_do_recv(cx, buf, true)).await
    }

    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| {
            let s = self.sock.state.lock().unwrap();
            if !s.queue.is_empty() || s.error.is_some() {
                return Poll::Ready(Ok(()));
            }
            drop(s);
            self.sock.register(cx.waker());
            Poll::Pending
        })
        .await
    }

    pub async fn writable(&self) -> io::Result<()> {
        Ok(())
    }

    pub async fn ready(&self, interest: Interest) -> io::Result<Ready> {
        if interest.is_writable() {
            return Ok(Ready::WRITABLE);
        }
        self.readable().await?;
        Ok(Ready::READABLE)
    }

    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(self.sock.take_error().map(|k| k.into()))
    }

    pub fn broadcast(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_broadcast(&self, _on: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn multicast_loop_v4(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_multicast_loop_v4(&self, _on: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn multicast_ttl_v4(&self) -> io::Result<u32> {
        Ok(1)
    }
    pub fn set_multicast_ttl_v4(&self, _ttl: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _ttl: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn join_multicast_v4(&self, _m: Ipv4Addr, _i: Ipv4Addr) -> io::Result<()> {
        Ok(())
    }
    pub fn leave_multicast_v4(&self, _m: Ipv4Addr, _i: Ipv4Addr) -> io::Result<()> {
        Ok(())
    }
    pub fn join_multicast_v6(&self, _m: &Ipv6Addr, _i: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn leave_multicast_v6(&self, _m: &Ipv6Addr, _i: u32) -> io::Result<()> {
        Ok(())
    }
}

/// Stand-in for bytes::BufMut, enough for `Vec<u8>`.
pub trait BufMutLike {
    fn put(&mut self, b: &[u8]);
}

impl BufMutLike for Vec<u8> {
    fn put(&mut self, b: &[u8]) {
        self.extend_from_slice(b)
    }
}
