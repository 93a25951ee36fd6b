//! A virtual clock, a simulated link between two half connections, and a relay between a real client
//! and a real server over the loopback network.
#![allow(dead_code)]
use std::collections::VecDeque;
use std::net::{SocketAddr, UdpSocket};
use std::sync::atomic::{AtomicU64, Ordering};

pub use uflow::verif::*;
pub use uflow::{SendMode, EndpointConfig};

static NOW_NS: AtomicU64 = AtomicU64::new(1_000_000_000_000);

#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_id: i32, ts: *mut Timespec) -> i32 {
    let t = NOW_NS.load(Ordering::SeqCst);
    (*ts).sec = (t / 1_000_000_000) as i64;
    (*ts).nsec = (t % 1_000_000_000) as i64;
    0
}

pub fn sleep(ms: u64) { NOW_NS.fetch_add(ms * 1_000_000, Ordering::SeqCst); }
pub fn now() -> u64 { NOW_NS.load(Ordering::SeqCst) / 1_000_000 - 1_000_000 }

pub fn fail(what: &str) -> ! { eprintln!("BROKEN: {}", what); std::process::exit(1) }
pub fn check(ok: bool, what: &str) { if !ok { fail(what) } }

// ---- half connections ----

#[derive(Default)]
pub struct Frames(pub Vec<Vec<u8>>);
impl FrameSink for Frames { fn send(&mut self, d: &[u8]) { self.0.push(d.to_vec()); } }
#[derive(Default)]
pub struct Packets(pub Vec<Vec<u8>>);
impl PacketSink for Packets { fn send(&mut self, d: Box<[u8]>) { self.0.push(d.to_vec()); } }

pub fn config(tx: u32, rx: u32) -> Config {
    Config {
        tx_frame_base_id: tx, rx_frame_base_id: rx, tx_frame_window_size: 4096, rx_frame_window_size: 4096,
        tx_packet_base_id: tx & 0xFFFFF, rx_packet_base_id: rx & 0xFFFFF, tx_packet_window_size: 4096, rx_packet_window_size: 4096,
        tx_bandwidth_limit: 10_000_000, tx_alloc_limit: 1_000_000, rx_alloc_limit: 1_000_000, keepalive_interval_ms: Some(5000),
    }
}

pub fn put(h: &mut HalfConnection, d: &[u8]) {
    match Frame::read(d) {
        Some(Frame::DataFrame(f)) => h.handle_data_frame(f),
        Some(Frame::SyncFrame(f)) => h.handle_sync_frame(f),
        Some(Frame::AckFrame(f)) => h.handle_ack_frame(f),
        _ => (),
    }
}

pub fn frame(d: &[u8]) -> Frame { Frame::read(d).unwrap() }

pub struct Pair {
    pub h: [HalfConnection; 2],
    pub lat: u64,
    pub fly: VecDeque<(u64, usize, Vec<u8>)>,
    pub got: [Vec<Vec<u8>>; 2],
    /// all frames sent: time, sender, bytes
    pub log: Vec<(u64, usize, Vec<u8>)>,
}

impl Pair {
    pub fn new(a: Config, b: Config, lat: u64) -> Pair {
        Pair { h: [HalfConnection::new(a), HalfConnection::new(b)], lat, fly: VecDeque::new(), got: [Vec::new(), Vec::new()], log: Vec::new() }
    }
    pub fn simple(lat: u64) -> Pair { Pair::new(config(1000, 2000), config(2000, 1000), lat) }
    /// One round of both ends, then `ms` pass. `f` decides about each frame: lose it (None), or delay
    /// it by that much in addition.
    pub fn round(&mut self, ms: u64, mut f: impl FnMut(usize, &Frame) -> Option<u64>) {
        for i in 0..2 {
            let mut s = Frames::default();
            self.h[i].flush(&mut s);
            self.emit(i, s, &mut f);
            let t = now();
            let mut k = 0;
            while k < self.fly.len() {
                if self.fly[k].1 == i && self.fly[k].0 <= t { let (_, _, d) = self.fly.remove(k).unwrap(); put(&mut self.h[i], &d); } else { k += 1; }
            }
            self.h[i].step();
            let mut p = Packets::default();
            self.h[i].receive(&mut p);
            self.got[i].extend(p.0);
        }
        sleep(ms);
    }
    pub fn emit(&mut self, i: usize, s: Frames, f: &mut impl FnMut(usize, &Frame) -> Option<u64>) {
        for d in s.0 {
            self.log.push((now(), i, d.clone()));
            if let Some(x) = f(i, &frame(&d)) { self.fly.push_back((now() + self.lat + x, 1 - i, d)); }
        }
    }
    pub fn run(&mut self, total: u64, ms: u64) { let end = now() + total; while now() < end { self.round(ms, |_, _| Some(0)); } }
    pub fn send(&mut self, i: usize, d: Vec<u8>, ch: u8, m: SendMode) { self.h[i].send(d.into_boxed_slice(), ch, m); }
}

// ---- relay for real endpoints ----

pub struct Relay { pub front: UdpSocket, pub back: UdpSocket, pub server: SocketAddr, pub client: Option<SocketAddr>, hold: Vec<(u64, bool, Vec<u8>)> }

impl Relay {
    pub fn new(server: SocketAddr) -> Relay {
        let s = || { let s = UdpSocket::bind("127.0.0.1:0").unwrap(); s.set_nonblocking(true).unwrap(); s };
        Relay { front: s(), back: s(), server, client: None, hold: Vec::new() }
    }
    pub fn addr(&self) -> SocketAddr { self.front.local_addr().unwrap() }
    /// the client's address as seen by the server
    pub fn seen(&self) -> SocketAddr { self.back.local_addr().unwrap() }
    /// Passes on what has arrived; `f(to_server, frame)` is the delay, or None to lose it.
    pub fn pump(&mut self, mut f: impl FnMut(bool, &[u8]) -> Option<u64>) {
        let mut b = [0u8; 2000];
        while let Ok((n, a)) = self.front.recv_from(&mut b) { self.client = Some(a); if let Some(d) = f(true, &b[..n]) { self.hold.push((now() + d, true, b[..n].to_vec())); } }
        while let Ok((n, _)) = self.back.recv_from(&mut b) { if let Some(d) = f(false, &b[..n]) { self.hold.push((now() + d, false, b[..n].to_vec())); } }
        let t = now();
        let mut k = 0;
        while k < self.hold.len() {
            if self.hold[k].0 <= t {
                let (_, up, d) = self.hold.remove(k);
                if up { self.to_server(&d); } else { self.to_client(&d); }
            } else { k += 1; }
        }
    }
    pub fn to_server(&self, d: &[u8]) { let _ = self.back.send_to(d, self.server); }
    pub fn to_client(&self, d: &[u8]) { if let Some(c) = self.client { let _ = self.front.send_to(d, c); } }
}

/// A peer which speaks the protocol by hand.
pub struct Raw { pub s: UdpSocket }
impl Raw {
    pub fn new() -> Raw { let s = UdpSocket::bind("127.0.0.1:0").unwrap(); s.set_nonblocking(true).unwrap(); Raw { s } }
    pub fn addr(&self) -> SocketAddr { self.s.local_addr().unwrap() }
    pub fn send(&self, to: SocketAddr, f: Frame) { let _ = self.s.send_to(&f.write(), to); }
    pub fn recv(&self) -> Vec<Vec<u8>> { let mut v = Vec::new(); let mut b = [0u8; 2000]; while let Ok((n, _)) = self.s.recv_from(&mut b) { v.push(b[..n].to_vec()); } v }
    pub fn syn(nonce: u32) -> Frame { Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce, max_receive_rate: 1_000_000, max_packet_size: 10_000, max_receive_alloc: 1_000_000 }) }
    pub fn ack(n: u32) -> Frame { Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: n }) }
}

pub fn endpoint() -> EndpointConfig {
    EndpointConfig { max_send_rate: 2_000_000, max_receive_rate: 2_000_000, max_packet_size: 10_000, max_receive_alloc: 1_000_000, keepalive: true, keepalive_interval_ms: 5000, active_timeout_ms: 20000 }
}
pub fn server(total: usize, active: usize, e: EndpointConfig) -> uflow::server::Server {
    uflow::server::Server::bind("127.0.0.1:0", uflow::server::Config { max_total_connections: total, max_active_connections: active, enable_handshake_errors: true, endpoint_config: e }).unwrap()
}
pub fn client(to: SocketAddr, e: EndpointConfig) -> uflow::client::Client {
    uflow::client::Client::connect(to, uflow::client::Config { endpoint_config: e }).unwrap()
}
