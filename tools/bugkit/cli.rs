#![allow(dead_code)]
//! A broker and clients of it.
use aldrin::{Client, Handle};
use aldrin_broker::{Broker, BrokerHandle};
use std::future::Future;
use std::time::Duration;

pub fn run<F: Future>(f: F) -> F::Output {
    ::tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap().block_on(async {
        ::tokio::time::timeout(Duration::from_secs(60), f).await.expect("the demonstration hangs")
    })
}

pub async fn soon<F: Future>(what: &str, f: F) -> F::Output {
    match ::tokio::time::timeout(Duration::from_secs(10), f).await {
        Ok(r) => r,
        Err(_) => panic!("{what}: does not complete"),
    }
}

/// Whether nothing comes of it for a while.
pub async fn never<F: Future>(f: F) -> bool {
    ::tokio::time::timeout(Duration::from_millis(400), f).await.is_err()
}

pub fn broker() -> BrokerHandle {
    let broker = Broker::new();
    let handle = broker.handle().clone();
    ::tokio::spawn(broker.run());
    handle
}

pub async fn client(handle: &BrokerHandle) -> Handle {
    let (t1, t2) = aldrin_core::channel::unbounded();
    let mut h = handle.clone();
    let accept = ::tokio::spawn(async move {
        let conn = h.connect(t1).await.expect("the broker refused the connection");
        ::tokio::spawn(conn.run());
    });
    let client = Client::connect(t2).await.expect("cannot connect");
    let handle = client.handle().clone();
    ::tokio::spawn(client.run());
    accept.await.unwrap();
    handle
}
