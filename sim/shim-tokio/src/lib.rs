//! Simulation shim standing in for the `tokio` crate when /repo is built by the simulator.
//!
//! Everything is the real tokio 1.54.1 (timers, select!, channels, runtime) except:
//!  * `net::UdpSocket` is an in-process socket whose every datagram goes through the simulator;
//!  * `spawn`/`task::spawn` wrap the task so the simulator can defer or stall any poll;
//!  * `sync::Mutex::lock`, `sync::RwLock`, and `sync::mpsc` send/recv have a seeded yield point in
//!    front of them, standing in for preemption on a multi-threaded runtime.

pub use real_tokio::*;
pub use real_tokio::{join, pin, select, task_local, try_join};

pub mod sim;

pub use crate::task::spawn;

pub mod task {
    pub use real_tokio::task::*;

    use std::future::Future;

    #[track_caller]
    pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let tag = crate::sim::current_tag();
        real_tokio::task::spawn(crate::sim::SimTask::counted(tag, future))
    }
}

pub mod net {
    pub use crate::sim::udp::UdpSocket;
    pub use real_tokio::net::*;
}

pub mod sync {
    pub use crate::sim::sync::{Mutex, RwLock};
    pub use real_tokio::sync::*;

    pub mod mpsc {
        pub use crate::sim::sync::{channel, Receiver, Sender, WeakSender};
        pub use real_tokio::sync::mpsc::*;
    }
}
