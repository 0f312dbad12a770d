// A three-party network inside one thread: deterministic, detects deadlock, counts left-over
// messages and lets an adversary rewrite any message.
use crate::error::Error;
use crate::traits::network_trait::NetworkTrait;
use bytes::{Bytes, BytesMut};
use std::collections::VecDeque;
use std::future::Future;
use std::io::{Error as IOError, ErrorKind};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub type Tamper = Box<dyn FnMut(usize, usize, usize, &mut Vec<u8>) + Send>;

#[derive(Default)]
pub struct HubIn {
    pub q: [[VecDeque<Bytes>; 3]; 3], // [from][to]
    pub closed: [bool; 3],
    pub count: [usize; 3], // messages sent per party
    pub events: usize,
    pub log: Vec<(usize, usize, usize)>, // from, to, bytes
    pub tamper: Option<Tamper>,
    pub record: bool,
}

#[derive(Clone, Default)]
pub struct Hub(pub Arc<Mutex<HubIn>>);

impl Hub {
    pub fn new() -> (Hub, [HNet; 3]) {
        let h = Hub::default();
        let n = [0, 1, 2].map(|id| HNet { id, hub: h.clone() });
        (h, n)
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, HubIn> { self.0.lock().unwrap_or_else(|e| e.into_inner()) }
    /// unread messages
    pub fn leftover(&self) -> usize {
        let h = self.lock();
        h.q.iter().flatten().map(|q| q.len()).sum()
    }
    pub fn sent(&self) -> [usize; 3] { self.lock().count }
    pub fn set_tamper(&self, t: Option<Tamper>) { self.lock().tamper = t; }
}

pub struct HNet {
    id: usize,
    hub: Hub,
}

impl HNet {
    fn push(&self, to: usize, data: Bytes) -> Result<(), IOError> {
        if to >= 3 || to == self.id {
            return Err(IOError::new(ErrorKind::Other, "Invalid ID"));
        }
        let mut h = self.hub.lock();
        let k = h.count[self.id];
        h.count[self.id] += 1;
        h.events += 1;
        let mut data = data;
        if let Some(mut t) = h.tamper.take() {
            drop(h);
            let mut v = data.to_vec();
            t(self.id, to, k, &mut v);
            data = Bytes::from(v);
            h = self.hub.lock();
            h.tamper = Some(t);
        }
        if h.record { let l = data.len(); h.log.push((self.id, to, l)); }
        if h.closed[to] { return Err(IOError::new(ErrorKind::Other, "Send failed")); }
        h.q[self.id][to].push_back(data);
        Ok(())
    }
    async fn pop(&self, from: usize) -> Result<BytesMut, IOError> {
        if from >= 3 || from == self.id {
            return Err(IOError::new(ErrorKind::Other, "Invalid ID"));
        }
        std::future::poll_fn(|_| {
            let mut h = self.hub.lock();
            if let Some(d) = h.q[from][self.id].pop_front() {
                h.events += 1;
                return Poll::Ready(Ok(BytesMut::from(d.as_ref())));
            }
            if h.closed[from] {
                return Poll::Ready(Err(IOError::new(ErrorKind::Other, "Receive failed")));
            }
            Poll::Pending
        })
        .await
    }
}

impl NetworkTrait for HNet {
    fn get_id(&self) -> usize { self.id }
    fn get_num_parties(&self) -> usize { 3 }
    fn print_connection_stats(&self, _out: &mut impl std::io::Write) -> Result<(), IOError> { Ok(()) }
    async fn shutdown(self) -> Result<(), IOError> { Ok(()) }
    async fn send(&mut self, id: usize, data: Bytes) -> Result<(), IOError> { self.push(id, data) }
    async fn send_next_id(&mut self, data: Bytes) -> Result<(), IOError> { self.push((self.id + 1) % 3, data) }
    async fn send_prev_id(&mut self, data: Bytes) -> Result<(), IOError> { self.push((self.id + 2) % 3, data) }
    async fn receive(&mut self, id: usize) -> Result<BytesMut, IOError> { self.pop(id).await }
    async fn receive_prev_id(&mut self) -> Result<BytesMut, IOError> { self.pop((self.id + 2) % 3).await }
    async fn receive_next_id(&mut self) -> Result<BytesMut, IOError> { self.pop((self.id + 1) % 3).await }
    async fn broadcast(&mut self, data: Bytes) -> Result<Vec<BytesMut>, IOError> {
        for id in 0..3 {
            if id != self.id { self.push(id, data.clone())?; }
        }
        let mut r = vec![];
        for id in 0..3 {
            if id == self.id { r.push(BytesMut::from(data.as_ref())); } else { r.push(self.pop(id).await?); }
        }
        Ok(r)
    }
}

/// Polls the three parties round-robin until all are done; Err on deadlock.
pub fn join3<R>(
    hub: &Hub,
    f0: impl Future<Output = Result<R, Error>>,
    f1: impl Future<Output = Result<R, Error>>,
    f2: impl Future<Output = Result<R, Error>>,
) -> Result<[Result<R, Error>; 3], String> {
    let mut fs: [Pin<Box<dyn Future<Output = Result<R, Error>> + '_>>; 3] = [Box::pin(f0), Box::pin(f1), Box::pin(f2)];
    let mut out: [Option<Result<R, Error>>; 3] = [None, None, None];
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        let before = hub.lock().events;
        let mut progress = false;
        for i in 0..3 {
            if out[i].is_none() {
                if let Poll::Ready(r) = fs[i].as_mut().poll(&mut cx) {
                    if r.is_err() { hub.lock().closed[i] = true; }
                    out[i] = Some(r);
                    progress = true;
                }
            }
        }
        if out.iter().all(|o| o.is_some()) { break; }
        if !progress && hub.lock().events == before {
            let w: Vec<usize> = (0..3).filter(|i| out[*i].is_none()).collect();
            return Err(format!("deadlock: parties {:?} wait for messages that are never sent", w));
        }
    }
    Ok(out.map(|o| o.unwrap()))
}

/// all three Ok or a description of who failed
pub fn all_ok<R>(r: Result<[Result<R, Error>; 3], String>) -> Result<[R; 3], String> {
    let r = r?;
    let mut v = vec![];
    for (i, x) in r.into_iter().enumerate() {
        match x {
            Ok(x) => v.push(x),
            Err(e) => return Err(format!("party {} reports an error in an honest run: {:?}", i, e)),
        }
    }
    Ok(v.try_into().ok().unwrap())
}
