#![allow(dead_code)]
//! A broker and raw protocol connections to it.
use aldrin_broker::{Broker, BrokerHandle};
use aldrin_core::channel::Unbounded;
use aldrin_core::message::*;
use aldrin_core::transport::{AsyncTransportExt, BoxedTransport};
use aldrin_core::*;
use std::time::Duration;

pub fn run<F: std::future::Future>(f: F) -> F::Output {
    ::tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap().block_on(async {
        ::tokio::time::timeout(Duration::from_secs(60), f).await.expect("the demonstration hangs")
    })
}

pub fn broker() -> BrokerHandle {
    let broker = Broker::new();
    let handle = broker.handle().clone();
    ::tokio::spawn(broker.run());
    handle
}

pub struct Raw {
    pub t: Unbounded,
    serial: u32,
}

pub async fn connect(handle: &mut BrokerHandle, minor: u32) -> Raw {
    let (t1, mut t2) = aldrin_core::channel::unbounded();
    let mut h = handle.clone();
    let accept = ::tokio::spawn(async move {
        let conn = h.connect(t1).await.expect("the broker refused the connection");
        ::tokio::spawn(conn.run());
    });
    let mut data = ConnectData::new();
    data.user = None;
    let msg = Connect2 {
        major_version: 1,
        minor_version: minor,
        value: SerializedValue::serialize(data).unwrap(),
    };
    t2.send_and_flush(Message::Connect2(msg)).await.unwrap();
    match t2.receive().await.unwrap() {
        Message::ConnectReply2(r) => assert!(matches!(r.result, ConnectResult::Ok(_)), "{r:?}"),
        m => panic!("unexpected {m:?}"),
    }
    accept.await.unwrap();
    Raw { t: t2, serial: 1000 }
}

impl Raw {
    pub fn serial(&mut self) -> u32 {
        self.serial += 1;
        self.serial
    }

    pub async fn send(&mut self, msg: impl Into<Message>) {
        self.t.send_and_flush(msg.into()).await.unwrap();
    }

    /// The next message, None if nothing comes for a while or the connection is closed.
    pub async fn recv(&mut self) -> Option<Message> {
        match ::tokio::time::timeout(Duration::from_millis(400), self.t.receive()).await {
            Ok(Ok(msg)) => Some(msg),
            _ => None,
        }
    }

    /// Everything the broker sent up to now.
    pub async fn sync(&mut self) -> Vec<Message> {
        let serial = self.serial();
        let _ = self.t.send_and_flush(Message::Sync(Sync { serial })).await;
        let mut all = vec![];
        loop {
            match ::tokio::time::timeout(Duration::from_secs(10), self.t.receive()).await {
                Ok(Ok(Message::SyncReply(r))) if r.serial == serial => return all,
                Ok(Ok(msg)) => all.push(msg),
                _ => panic!("no answer to a sync; got {all:?}"),
            }
        }
    }

    pub async fn object(&mut self, uuid: ObjectUuid) -> ObjectCookie {
        let serial = self.serial();
        self.send(CreateObject { serial, uuid }).await;
        for m in self.sync().await {
            if let Message::CreateObjectReply(CreateObjectReply { result: CreateObjectResult::Ok(c), .. }) = m {
                return c;
            }
        }
        panic!("object not created");
    }

    /// A service; info of version 1 with subscribe_all set if possible.
    pub async fn service(&mut self, object_cookie: ObjectCookie, uuid: ServiceUuid, new: bool) -> ServiceCookie {
        let serial = self.serial();
        if new {
            let info = ServiceInfo::new(1).set_subscribe_all(true);
            self.send(CreateService2 { serial, object_cookie, uuid, value: SerializedValue::serialize(info).unwrap() }).await;
        } else {
            self.send(CreateService { serial, object_cookie, uuid, version: 1 }).await;
        }
        for m in self.sync().await {
            if let Message::CreateServiceReply(CreateServiceReply { result: CreateServiceResult::Ok(c), .. }) = m {
                return c;
            }
        }
        panic!("service not created");
    }
}
