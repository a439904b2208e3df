//! tokio::sync types with a yield point in front of the operations that may wait.

use super::{point, Site};
use real_tokio::sync as real;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::Arc;
use std::task::{Context, Poll};

pub struct Mutex<T> {
    inner: Arc<real::Mutex<T>>,
}

impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Self {
            inner: Arc::new(real::Mutex::new(t)),
        }
    }
    pub async fn lock(&self) -> real::MutexGuard<'_, T> {
        point(Site::Lock).await;
        self.inner.lock().await
    }
    pub async fn lock_owned(self: Arc<Self>) -> real::OwnedMutexGuard<T> {
        point(Site::Lock).await;
        self.inner.clone().lock_owned().await
    }
    pub fn try_lock_owned(self: Arc<Self>) -> Result<real::OwnedMutexGuard<T>, real::TryLockError> {
        self.inner.clone().try_lock_owned()
    }
    pub fn get_mut(&mut self) -> &mut T {
        Arc::get_mut(&mut self.inner).expect("an owned guard is alive").get_mut()
    }
    pub fn into_inner(self) -> T {
        match Arc::try_unwrap(self.inner) {
            Ok(m) => m.into_inner(),
            Err(_) => panic!("an owned guard is alive"),
        }
    }
}

impl<T> Deref for Mutex<T> {
    type Target = real::Mutex<T>;
    fn deref(&self) -> &real::Mutex<T> {
        &self.inner
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}

impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

pub struct RwLock<T> {
    inner: Arc<real::RwLock<T>>,
}

impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        Self {
            inner: Arc::new(real::RwLock::new(t)),
        }
    }
    pub async fn read(&self) -> real::RwLockReadGuard<'_, T> {
        point(Site::Lock).await;
        self.inner.read().await
    }
    pub async fn write(&self) -> real::RwLockWriteGuard<'_, T> {
        point(Site::Lock).await;
        self.inner.write().await
    }
    pub async fn read_owned(self: Arc<Self>) -> real::OwnedRwLockReadGuard<T> {
        point(Site::Lock).await;
        self.inner.clone().read_owned().await
    }
    pub async fn write_owned(self: Arc<Self>) -> real::OwnedRwLockWriteGuard<T> {
        point(Site::Lock).await;
        self.inner.clone().write_owned().await
    }
    pub fn get_mut(&mut self) -> &mut T {
        Arc::get_mut(&mut self.inner).expect("an owned guard is alive").get_mut()
    }
}

impl<T> Deref for RwLock<T> {
    type Target = real::RwLock<T>;
    fn deref(&self) -> &real::RwLock<T> {
        &self.inner
    }
}

impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}

impl<T: fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

pub fn channel<T>(buffer: usize) -> (Sender<T>, Receiver<T>) {
    let (s, r) = real::mpsc::channel(buffer);
    (Sender(s), Receiver(r))
}

pub struct Sender<T>(real::mpsc::Sender<T>);

impl<T> Sender<T> {
    pub async fn send(&self, value: T) -> Result<(), real::mpsc::error::SendError<T>> {
        point(Site::ChanSend).await;
        self.0.send(value).await
    }
    pub async fn reserve(&self) -> Result<real::mpsc::Permit<'_, T>, real::mpsc::error::SendError<()>> {
        point(Site::ChanSend).await;
        self.0.reserve().await
    }
    pub async fn reserve_owned(self) -> Result<real::mpsc::OwnedPermit<T>, real::mpsc::error::SendError<()>> {
        point(Site::ChanSend).await;
        self.0.reserve_owned().await
    }
    pub fn try_reserve_owned(self) -> Result<real::mpsc::OwnedPermit<T>, real::mpsc::error::TrySendError<Self>> {
        use real::mpsc::error::TrySendError as E;
        self.0.try_reserve_owned().map_err(|e| match e {
            E::Full(s) => E::Full(Sender(s)),
            E::Closed(s) => E::Closed(Sender(s)),
        })
    }
    pub fn downgrade(&self) -> WeakSender<T> {
        WeakSender(self.0.downgrade())
    }
    pub fn same_channel(&self, other: &Self) -> bool {
        self.0.same_channel(&other.0)
    }
}

pub struct WeakSender<T>(real::mpsc::WeakSender<T>);

impl<T> WeakSender<T> {
    pub fn upgrade(&self) -> Option<Sender<T>> {
        self.0.upgrade().map(Sender)
    }
    pub fn strong_count(&self) -> usize {
        self.0.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        self.0.weak_count()
    }
}

impl<T> Clone for WeakSender<T> {
    fn clone(&self) -> Self {
        WeakSender(self.0.clone())
    }
}

impl<T> fmt::Debug for WeakSender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Sender(self.0.clone())
    }
}

impl<T> Deref for Sender<T> {
    type Target = real::mpsc::Sender<T>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub struct Receiver<T>(real::mpsc::Receiver<T>);

impl<T> Receiver<T> {
    pub async fn recv(&mut self) -> Option<T> {
        point(Site::ChanRecv).await;
        self.0.recv().await
    }
    pub async fn recv_many(&mut self, buffer: &mut Vec<T>, limit: usize) -> usize {
        point(Site::ChanRecv).await;
        self.0.recv_many(buffer, limit).await
    }
    pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
        self.0.poll_recv(cx)
    }
}

impl<T> Deref for Receiver<T> {
    type Target = real::mpsc::Receiver<T>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

impl<T> DerefMut for Receiver<T> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}

impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
