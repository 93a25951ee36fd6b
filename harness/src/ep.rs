//! Endpoint simulator: a real `Server`, real `Client`s and raw peers over the interposed sockets and
//! clock. Every datagram, application call and event is recorded; per connection the record has the
//! form of a `hc::Sim` trace, so that the oracles of the connection level apply unchanged.

use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::rc::Rc;

use uflow::client::{self, Client};
use uflow::server::{self, RemoteClient, Server};
use uflow::{EndpointConfig, SendMode};

use crate::engine::{mix, CaseResult, Cx, Src};
use crate::hc::{payload, Emission, Ev, Got, Link, Pkt, Sim, MS, PSPAN};
use crate::wire::{self, W};
use crate::{call, sys};

pub const NONE: usize = usize::MAX;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Connect,
    Disconnect,
    Receive,
    Timeout,
    Version,
    Config,
    Full,
}

impl K {
    pub fn terminal(self) -> bool {
        !matches!(self, K::Connect | K::Receive)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Api {
    Send,
    Disc,
    DiscNow,
    /// Server::drop, or the client object was dropped
    Drop,
    New,
    Flush,
}

/// node 0 is the server, node k+1 client object k.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lg {
    StepBegin(usize),
    /// datagram consumed by the step of a node; second: unaltered
    In(usize, u32, bool),
    Out(usize, u32),
    Ev(usize, K, SocketAddrV4, u32),
    StepEnd(usize),
    Api(usize, Api, SocketAddrV4),
    /// connections tracked and active at the server after a call: bit sets over `addrs`
    Track(u64, u64),
    /// client object: send_buffer_size
    Size(usize, u64),
}

pub struct Wire {
    pub t: u64,
    pub src: SocketAddrV4,
    pub dst: SocketAddrV4,
    pub data: Rc<[u8]>,
    pub w: Option<W>,
    /// sent by an endpoint (otherwise by a raw peer or forger)
    pub real: bool,
    /// object whose connection it belongs to, and the emission index in its trace
    pub obj: usize,
    pub em: u32,
}

pub struct Obj {
    pub client: Option<Client>,
    pub addr: SocketAddrV4,
    pub cfg: EndpointConfig,
    pub nonce: u32,
    pub born: u64,
    pub connected: Option<(u64, u32)>,
    pub srv_connected: Option<(u64, u32)>,
    pub terminal: Option<(u64, K)>,
    pub srv_terminal: Option<(u64, K)>,
    pub disc: Option<(u64, bool)>,
    pub srv_disc: Option<(u64, bool)>,
    pub srv_dropped: Option<u64>,
    pub killed: Option<u64>,
    pub steps: u32,
    pub step_t: u64,
    pub tr: Sim,
    pub due: u64,
    pub cadence: u64,
}

pub struct SrvCfg {
    pub total: usize,
    pub active: usize,
    pub errors: bool,
    pub ep: EndpointConfig,
}

struct Flight {
    wire: u32,
    data: Option<Vec<u8>>,
}

pub struct Ep {
    pub now: u64,
    pub seed: u64,
    /// how long the objects under test have existed at time 0
    pub age: u64,
    pub srv: Option<Server>,
    pub saddr: SocketAddrV4,
    pub scfg: SrvCfg,
    pub srv_steps: u32,
    pub srv_step_t: u64,
    pub srv_due: u64,
    pub srv_cadence: u64,
    pub obj: Vec<Obj>,
    pub raws: Vec<SocketAddrV4>,
    pub wires: Vec<Wire>,
    pub lg: Vec<(u64, Lg)>,
    queue: BinaryHeap<Reverse<(u64, u64)>>,
    flights: HashMap<u64, Flight>,
    nflight: u64,
    pub link: HashMap<SocketAddrV4, [Link; 2]>,
    pub conns: HashMap<SocketAddrV4, usize>,
    pub handles: Vec<(SocketAddrV4, Rc<RefCell<RemoteClient>>)>,
    pub addrs: Vec<SocketAddrV4>,
    pub lost: u64,
    pub altered: u64,
    pub dupped: u64,
    pub delayed: u64,
    /// arrivals ready for the next step of a node, by destination address
    inbox: HashMap<SocketAddrV4, Vec<u64>>,
    pub raw_in: HashMap<SocketAddrV4, Vec<u32>>,
    /// what the server received from raw peers
    pub raw_got: HashMap<SocketAddrV4, Vec<Vec<u8>>>,
    pub sizes: bool,
    /// next nonce of the server, used while it has no connection
    pub force_srv: Option<u32>,
}

pub fn saddr() -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 1), 9000)
}

pub fn addr_of(i: usize) -> SocketAddrV4 {
    // different hosts, and different ports of one host
    if i % 3 == 2 { SocketAddrV4::new(Ipv4Addr::new(10, 0, 1, (i / 3) as u8), 5001) } else { SocketAddrV4::new(Ipv4Addr::new(10, 0, 1, (i / 3) as u8), 5002 + (i % 3) as u16) }
}

fn ckind(e: client::ErrorType) -> K {
    match e { client::ErrorType::Timeout => K::Timeout, client::ErrorType::Version => K::Version, client::ErrorType::Config => K::Config, client::ErrorType::ServerFull => K::Full }
}
fn skind(e: server::ErrorType) -> K {
    match e { server::ErrorType::Timeout => K::Timeout, server::ErrorType::Version => K::Version, server::ErrorType::Config => K::Config, server::ErrorType::ServerFull => K::Full }
}

impl Ep {
    pub fn new(scfg: SrvCfg, seed: u64) -> Ep {
        sys::set_clock(sys::T0_NS);
        sys::net_on();
        let a = saddr();
        sys::set_next_host(*a.ip());
        let cfg = server::Config { max_total_connections: scfg.total, max_active_connections: scfg.active, enable_handshake_errors: scfg.errors, endpoint_config: scfg.ep.clone() };
        let srv = call!("Server::bind", Server::bind(SocketAddr::V4(a), cfg)).expect("bind");
        Ep {
            now: 0,
            seed,
            age: 0,
            srv: Some(srv),
            saddr: a,
            scfg,
            srv_steps: 0,
            srv_step_t: 0,
            srv_due: 0,
            srv_cadence: 20 * MS,
            obj: Vec::new(),
            raws: Vec::new(),
            wires: Vec::new(),
            lg: Vec::new(),
            queue: BinaryHeap::new(),
            flights: HashMap::new(),
            nflight: 0,
            link: HashMap::new(),
            conns: HashMap::new(),
            handles: Vec::new(),
            addrs: Vec::new(),
            lost: 0,
            altered: 0,
            dupped: 0,
            delayed: 0,
            inbox: HashMap::new(),
            raw_in: HashMap::new(),
            raw_got: HashMap::new(),
            sizes: false,
            force_srv: None,
        }
    }

    pub fn set_age(&mut self, age: u64) {
        self.age = age;
        self.set_now(self.now);
    }

    pub fn set_now(&mut self, t: u64) {
        self.now = t;
        sys::set_clock(sys::T0_NS + self.age + t);
    }

    pub fn know(&mut self, a: SocketAddrV4) {
        if !self.addrs.contains(&a) {
            assert!(self.addrs.len() < 64);
            self.addrs.push(a);
        }
    }

    pub fn links(&mut self, a: SocketAddrV4) -> &mut [Link; 2] {
        self.link.entry(a).or_insert_with(|| [Link::ideal(10 * MS), Link::ideal(10 * MS)])
    }

    /// Creates a client object bound to `addr`.
    pub fn connect(&mut self, addr: SocketAddrV4, cfg: EndpointConfig, src: &mut Src) -> usize {
        self.know(addr);
        sys::set_next_host(*addr.ip());
        sys::set_next_port(addr.port());
        let k = self.obj.len();
        let c = client::Config { endpoint_config: cfg.clone() };
        let to = SocketAddr::V4(self.saddr);
        let client = call!("Client::connect", Client::connect(to, c)).expect("connect");
        let tr = Sim::trace_only(mix(self.seed ^ (k as u64 + 77)));
        self.obj.push(Obj { client: Some(client), addr, cfg, nonce: 0, born: self.now, connected: None, srv_connected: None, terminal: None, srv_terminal: None, disc: None, srv_disc: None, srv_dropped: None, killed: None, steps: 0, step_t: self.now, tr, due: self.now, cadence: 20 * MS });
        self.lg.push((self.now, Lg::Api(k + 1, Api::New, addr)));
        let first = self.wires.len();
        self.collect(k + 1, src);
        for w in &self.wires[first..] {
            if let Some(W::Syn { nonce, .. }) = &w.w { self.obj[k].nonce = *nonce; }
        }
        k
    }

    /// Records what the endpoints have sent and puts it on the links.
    fn collect(&mut self, node: usize, src: &mut Src) {
        for d in sys::take_out() {
            let w = wire::read(&d.data);
            let conn_frame = matches!(w, Some(W::Data { .. } | W::Sync { .. } | W::Acks { .. }));
            let obj = if node > 0 { node - 1 } else { self.conns.get(&d.dst).copied().unwrap_or(NONE) };
            let id = self.wires.len() as u32;
            let mut em = u32::MAX;
            let data: Rc<[u8]> = Rc::from(&d.data[..]);
            if conn_frame && obj != NONE {
                let side = if node > 0 { 0 } else { 1 };
                let (st, epoch) = if node > 0 { (self.obj[obj].step_t, self.obj[obj].steps) } else { (self.srv_step_t, self.obj[obj].tr.epoch[1]) };
                let tr = &mut self.obj[obj].tr;
                em = tr.em.len() as u32;
                tr.em.push(Emission { t: self.now, st, from: side, epoch, data: data.clone(), w: w.clone() });
                tr.ev.push((self.now, Ev::Emit(em)));
            }
            if let Some(W::SynAck { nonce_ack, nonce, rate, alloc, .. }) = &w {
                // what the endpoints have to agree on
                for k in 0..self.obj.len() {
                    let smax = self.scfg.ep.max_send_rate;
                    let o = &mut self.obj[k];
                    if node == 0 && o.addr == d.dst && o.nonce == *nonce_ack && o.connected.is_none() && o.terminal.is_none() {
                        let c = &mut o.tr.cfg;
                        let cap = |v: usize| v.min(u32::MAX as usize) as u32;
                        c[0].tx_frame_base_id = o.nonce;
                        c[0].rx_frame_base_id = *nonce;
                        c[0].tx_packet_base_id = o.nonce & (PSPAN - 1);
                        c[0].rx_packet_base_id = *nonce & (PSPAN - 1);
                        c[0].tx_bandwidth_limit = cap(o.cfg.max_send_rate).min(*rate);
                        c[0].tx_alloc_limit = *alloc as usize;
                        c[0].rx_alloc_limit = o.cfg.max_receive_alloc;
                        c[1].tx_frame_base_id = *nonce;
                        c[1].rx_frame_base_id = o.nonce;
                        c[1].tx_packet_base_id = *nonce & (PSPAN - 1);
                        c[1].rx_packet_base_id = o.nonce & (PSPAN - 1);
                        c[1].tx_bandwidth_limit = cap(smax).min(cap(o.cfg.max_receive_rate));
                        c[1].tx_alloc_limit = cap(o.cfg.max_receive_alloc) as usize;
                        c[1].rx_alloc_limit = *alloc as usize;
                    }
                }
            }
            self.wires.push(Wire { t: self.now, src: d.src, dst: d.dst, data, w, real: true, obj, em });
            self.lg.push((self.now, Lg::Out(node, id)));
            self.transmit(id, src);
        }
    }

    /// A datagram of a raw peer or forger, sent over the link of the client-side address.
    pub fn raw_send(&mut self, from: SocketAddrV4, to: SocketAddrV4, data: &[u8], src: &mut Src) -> u32 {
        let id = self.wires.len() as u32;
        let peer = if to == self.saddr { from } else { to };
        self.know(peer);
        self.wires.push(Wire { t: self.now, src: from, dst: to, data: Rc::from(data), w: wire::read(data), real: false, obj: NONE, em: u32::MAX });
        self.transmit(id, src);
        id
    }

    /// The same without the faults of the link.
    pub fn raw_send_plain(&mut self, from: SocketAddrV4, to: SocketAddrV4, data: &[u8]) -> u32 {
        let id = self.wires.len() as u32;
        let peer = if to == self.saddr { from } else { to };
        self.know(peer);
        self.wires.push(Wire { t: self.now, src: from, dst: to, data: Rc::from(data), w: wire::read(data), real: false, obj: NONE, em: u32::MAX });
        let dir = (to != self.saddr) as usize;
        let lat = self.links(peer)[dir].lat;
        self.replay(id, lat);
        id
    }

    /// The same without any latency.
    pub fn raw_send_now(&mut self, from: SocketAddrV4, to: SocketAddrV4, data: &[u8]) {
        let id = self.wires.len() as u32;
        self.know(if to == self.saddr { from } else { to });
        self.wires.push(Wire { t: self.now, src: from, dst: to, data: Rc::from(data), w: wire::read(data), real: false, obj: NONE, em: u32::MAX });
        self.replay(id, 0);
    }

    /// Uses a handle of a connection which may have ended long ago.
    pub fn poke_handle(&mut self, i: usize, src: &mut Src) {
        let (a, rc) = self.handles[i].clone();
        let current = self.remote(a).map_or(false, |r| Rc::ptr_eq(&r, &rc));
        if current { return; }
        match src.below(6) {
            0 => { call!("RemoteClient::is_active", rc.borrow().is_active()); }
            1 => { call!("RemoteClient::send", rc.borrow_mut().send(vec![1].into_boxed_slice(), 0, SendMode::Reliable)); }
            2 => { call!("RemoteClient::disconnect", rc.borrow_mut().disconnect()); }
            3 => { call!("RemoteClient::disconnect_now", rc.borrow_mut().disconnect_now()); }
            4 => { call!("RemoteClient::rtt_s", rc.borrow().rtt_s()); }
            _ => { call!("RemoteClient::send_buffer_size", rc.borrow().send_buffer_size()); }
        }
    }

    /// Puts a copy of an earlier datagram on the network, arriving after `delay`.
    pub fn replay(&mut self, id: u32, delay: u64) {
        let at = self.now + delay;
        self.put(at, Flight { wire: id, data: None });
    }

    fn put(&mut self, at: u64, f: Flight) {
        let n = self.nflight;
        self.nflight += 1;
        self.flights.insert(n, f);
        self.queue.push(Reverse((at, n)));
    }

    fn transmit(&mut self, id: u32, src: &mut Src) {
        let (wsrc, wdst) = (self.wires[id as usize].src, self.wires[id as usize].dst);
        let (peer, dir) = if wdst == self.saddr { (wsrc, 0) } else { (wdst, 1) };
        let now = self.now;
        let l = &mut self.links(peer)[dir];
        if l.black.iter().any(|b| now >= b.0 && now < b.1) {
            self.lost += 1;
            return;
        }
        let total = l.loss + l.dup + l.corrupt + l.delay;
        let (mut copies, mut alter, mut extra, mut lose) = (1, false, 0, false);
        let (loss, dup, corrupt, delay, delay_max, lat, jitter, fifo) = (l.loss, l.dup, l.corrupt, l.delay, l.delay_max, l.lat, l.jitter, l.fifo);
        if total > 0 {
            let v = src.below(1024);
            let mut top = 1024;
            let mut hit = |p: u64| {
                top -= p.min(top);
                v >= top && v < top + p
            };
            if hit(loss) { lose = true; }
            if hit(dup) { copies = 2 + src.below(2); }
            if hit(corrupt) { alter = true; }
            if hit(delay) { extra = src.below(delay_max.max(1)); }
        }
        if lose { self.lost += 1; return; }
        if copies > 1 { self.dupped += 1; }
        if extra > 0 { self.delayed += 1; }
        for c in 0..copies {
            let mut at = now + lat + extra;
            if jitter > 0 { at += src.below(jitter / 1000 + 1) * 1000; }
            if c > 0 { at += src.below(delay_max.max(1)); }
            if fifo && extra == 0 && c == 0 {
                let l = &mut self.links(peer)[dir];
                at = at.max(l.last_arrival);
                l.last_arrival = at;
            }
            let mut data = None;
            if alter && c == 0 {
                let mut d = self.wires[id as usize].data.to_vec();
                for _ in 0..1 + src.below(4) {
                    if d.is_empty() { break; }
                    let b = src.below(d.len() as u64 * 8) as usize;
                    d[b / 8] ^= 1 << (b % 8);
                }
                if d[..] != self.wires[id as usize].data[..] {
                    self.altered += 1;
                    data = Some(d);
                }
            }
            self.put(at, Flight { wire: id, data });
        }
    }

    /// Sorts what has arrived by now into the inboxes.
    pub fn arrive(&mut self) {
        while let Some(&Reverse((at, n))) = self.queue.peek() {
            if at > self.now { break; }
            self.queue.pop();
            let dst = self.wires[self.flights[&n].wire as usize].dst;
            if self.raws.contains(&dst) && !self.obj.iter().any(|o| o.addr == dst && o.client.is_some()) {
                let f = self.flights.remove(&n).unwrap();
                if f.data.is_none() { self.raw_in.entry(dst).or_default().push(f.wire); }
            } else {
                self.inbox.entry(dst).or_default().push(n);
            }
        }
    }

    pub fn in_flight(&self) -> usize {
        self.queue.len()
    }

    /// Hands the arrived datagrams to the socket of a node.
    fn hand_over(&mut self, node: usize, dst: SocketAddrV4) -> Vec<(u32, bool)> {
        self.arrive();
        let list = self.inbox.remove(&dst).unwrap_or_default();
        let mut ins = Vec::new();
        for n in list {
            let f = self.flights.remove(&n).unwrap();
            let w = &self.wires[f.wire as usize];
            let intact = f.data.is_none();
            if sys::deliver(w.src, w.dst, f.data.as_deref().unwrap_or(&w.data)) {
                ins.push((f.wire, intact));
                self.lg.push((self.now, Lg::In(node, f.wire, intact)));
            }
        }
        ins
    }

    fn log_arrivals(&mut self, ins: &[(u32, bool)]) {
        for &(id, intact) in ins {
            let w = &self.wires[id as usize];
            if w.obj == NONE || w.em == u32::MAX { continue; }
            let to = if w.dst == self.saddr { 1 } else { 0 };
            // only while it is the current connection of its address
            if to == 1 && self.conns.get(&w.src) != Some(&w.obj) { continue; }
            let o = &mut self.obj[w.obj];
            o.tr.ev.push((self.now, Ev::Arrive(to, w.em, intact)));
        }
    }

    pub fn step_client(&mut self, k: usize, src: &mut Src) {
        if self.obj[k].client.is_none() { return; }
        let addr = self.obj[k].addr;
        self.lg.push((self.now, Lg::StepBegin(k + 1)));
        let ins = self.hand_over(k + 1, addr);
        let c = self.obj[k].client.as_mut().unwrap();
        let evs: Vec<client::Event> = { let it = call!("Client::step", c.step()); it.collect() };
        self.collect(k + 1, src);
        let before = self.obj[k].connected.is_some();
        self.log_arrivals_client(k, &ins, before);
        self.obj[k].steps += 1;
        let (now, n) = (self.now, self.obj[k].steps);
        self.obj[k].step_t = now;
        let rtt = { let c = self.obj[k].client.as_ref().unwrap(); call!("Client::rtt_s", c.rtt_s()) };
        {
            let tr = &mut self.obj[k].tr;
            tr.epoch[0] = n;
            tr.ev.push((now, Ev::Step(0)));
            tr.ev.push((now, Ev::Rtt(0, rtt.unwrap_or(f64::NAN).to_bits())));
        }
        for e in evs {
            let o = &mut self.obj[k];
            let (kind, mut idx) = match &e {
                client::Event::Connect => (K::Connect, 0),
                client::Event::Disconnect => (K::Disconnect, 0),
                client::Event::Receive(_) => (K::Receive, o.tr.got[0].len() as u32),
                client::Event::Error(_) => (K::Timeout, 0),
            };
            let kind = match e {
                client::Event::Error(t) => ckind(t),
                client::Event::Receive(d) => {
                    o.tr.got[0].push(Got { t: now, data: Rc::from(&d[..]) });
                    o.tr.ev.push((now, Ev::Recv(0, idx)));
                    kind
                }
                _ => kind,
            };
            if kind == K::Connect {
                let nonce = o.nonce;
                let wires = &self.wires;
                let n = ins.iter().filter(|i| i.1).find_map(|i| match &wires[i.0 as usize].w { Some(W::SynAck { nonce_ack, nonce: n, .. }) if *nonce_ack == nonce => Some(*n), _ => None });
                idx = n.unwrap_or(0);
                if o.connected.is_none() { o.connected = Some((now, idx)); }
            }
            if kind.terminal() && o.terminal.is_none() { o.terminal = Some((now, kind)); }
            self.lg.push((now, Lg::Ev(k + 1, kind, addr, idx)));
        }
        if self.sizes { self.size_client(k); }
        self.lg.push((self.now, Lg::StepEnd(k + 1)));
    }

    fn log_arrivals_client(&mut self, k: usize, ins: &[(u32, bool)], _connected_before: bool) {
        for &(id, intact) in ins {
            let w = &self.wires[id as usize];
            if w.obj != k || w.em == u32::MAX { continue; }
            let em = w.em;
            self.obj[k].tr.ev.push((self.now, Ev::Arrive(0, em, intact)));
        }
    }

    pub fn step_server(&mut self, src: &mut Src) {
        if self.srv.is_none() { return; }
        self.lg.push((self.now, Lg::StepBegin(0)));
        let sa = self.saddr;
        let ins = self.hand_over(0, sa);
        let force = if ins.is_empty() || !self.conns.is_empty() { None } else { self.force_srv.take() };
        if let Some(v) = force { rand::rngs::shim::force(v); }
        let s = self.srv.as_mut().unwrap();
        let evs: Vec<server::Event> = { let it = call!("Server::step", s.step()); it.collect() };
        if force.is_some() { rand::rngs::shim::clear_forced(); }
        let now = self.now;
        // which connection a Connect event announces
        let mut conn_nonce: HashMap<SocketAddrV4, u32> = HashMap::new();
        for e in &evs {
            if let server::Event::Connect(a) = e {
                let a = sys::v4(*a);
                let acks: HashSet<u32> = ins.iter().filter(|i| i.1 && self.wires[i.0 as usize].src == a).filter_map(|i| match &self.wires[i.0 as usize].w { Some(W::HsAck { nonce_ack }) => Some(*nonce_ack), _ => None }).collect();
                let sa = self.wires.iter().rev().filter(|w| w.real && w.dst == a).find_map(|w| match &w.w { Some(W::SynAck { nonce_ack, nonce, .. }) if acks.contains(nonce) => Some((*nonce_ack, *nonce)), _ => None });
                if let Some((m, n)) = sa {
                    conn_nonce.insert(a, n);
                    let k = self.obj.iter().rposition(|o| o.addr == a && o.nonce == m);
                    self.conns.insert(a, k.unwrap_or(NONE));
                } else {
                    self.conns.insert(a, NONE);
                }
            }
        }
        self.collect(0, src);
        self.log_arrivals(&ins);
        self.srv_steps += 1;
        self.srv_step_t = now;
        let active: Vec<(SocketAddrV4, usize)> = self.conns.iter().filter(|c| *c.1 != NONE).map(|c| (*c.0, *c.1)).collect();
        for (a, k) in active {
            let rtt = self.remote(a).and_then(|rc| call!("RemoteClient::rtt_s", rc.borrow().rtt_s()));
            let tr = &mut self.obj[k].tr;
            tr.epoch[1] += 1;
            tr.ev.push((now, Ev::Step(1)));
            tr.ev.push((now, Ev::Rtt(1, rtt.unwrap_or(f64::NAN).to_bits())));
        }
        for e in evs {
            let (kind, a) = match &e {
                server::Event::Connect(a) => (K::Connect, *a),
                server::Event::Disconnect(a) => (K::Disconnect, *a),
                server::Event::Receive(a, _) => (K::Receive, *a),
                server::Event::Error(a, _) => (K::Timeout, *a),
            };
            let a = sys::v4(a);
            let k = self.conns.get(&a).copied().unwrap_or(NONE);
            let mut idx = 0;
            let kind = match e {
                server::Event::Error(_, t) => skind(t),
                server::Event::Receive(_, d) => {
                    if k != NONE {
                        let tr = &mut self.obj[k].tr;
                        idx = tr.got[1].len() as u32;
                        tr.got[1].push(Got { t: now, data: Rc::from(&d[..]) });
                        tr.ev.push((now, Ev::Recv(1, idx)));
                    } else {
                        let v = self.raw_got.entry(a).or_default();
                        if v.len() < 10_000 { v.push(d.to_vec()); }
                    }
                    kind
                }
                _ => kind,
            };
            if kind == K::Connect {
                idx = conn_nonce.get(&a).copied().unwrap_or(0);
                if k != NONE { self.obj[k].srv_connected.get_or_insert((now, idx)); }
                if let Some(rc) = self.remote(a) { if self.handles.len() < 40 { self.handles.push((a, rc)); } }
            }
            if kind.terminal() && matches!(kind, K::Disconnect | K::Timeout) {
                if k != NONE { self.obj[k].srv_terminal.get_or_insert((now, kind)); }
                self.conns.remove(&a);
            }
            self.lg.push((now, Lg::Ev(0, kind, a, idx)));
        }
        self.count();
        self.size_all();
        self.lg.push((self.now, Lg::StepEnd(0)));
    }

    pub fn remote(&self, a: SocketAddrV4) -> Option<Rc<RefCell<RemoteClient>>> {
        let s = self.srv.as_ref()?;
        call!("Server::client", s.client(&SocketAddr::V4(a))).map(Rc::clone)
    }

    pub fn tracked(&self, a: SocketAddrV4) -> Option<bool> {
        self.remote(a).map(|rc| call!("RemoteClient::is_active", rc.borrow().is_active()))
    }

    /// Records which addresses the server tracks, and which of them are active.
    pub fn count(&mut self) -> (u32, u32) {
        let (mut t, mut ac) = (0u64, 0u64);
        for (i, a) in self.addrs.iter().enumerate() {
            if let Some(x) = self.tracked(*a) {
                t |= 1 << i;
                ac |= (x as u64) << i;
            }
        }
        self.lg.push((self.now, Lg::Track(t, ac)));
        (t.count_ones(), ac.count_ones())
    }

    // ---- application calls -----------------------------------------------------------------

    pub fn send_c(&mut self, k: usize, chan: u8, mode: SendMode, len: usize) {
        let o = &mut self.obj[k];
        if o.client.is_none() { return; }
        let len = len.min(o.cfg.max_packet_size);
        let idx = o.tr.sent[0].len() as u32;
        let v = payload(o.tr.seed, 0, idx, len);
        let live = o.terminal.is_none() && o.disc.map_or(true, |_| o.connected.is_some());
        // packets given to an object which is closing or dead are discarded silently
        let c = o.client.as_mut().unwrap();
        let active = call!("Client::is_active", c.is_active());
        if (o.connected.is_none() && live && o.disc.is_none()) || active {
            o.tr.sent[0].push(Pkt { chan, mode, data: Rc::from(&v[..]), t: self.now, epoch: o.steps });
            o.tr.ev.push((self.now, Ev::Send(0, idx)));
        }
        let b = v.clone().into_boxed_slice();
        call!("Client::send", c.send(b, chan as usize, mode));
        self.lg.push((self.now, Lg::Api(k + 1, Api::Send, self.obj[k].addr)));
        if self.sizes { self.size_client(k); }
    }

    pub fn size_client(&mut self, k: usize) -> u64 {
        let o = &mut self.obj[k];
        let c = match &o.client { Some(c) => c, None => return 0 };
        let v = call!("Client::send_buffer_size", c.send_buffer_size()) as u64;
        // no model of a connection which has ended
        if call!("Client::is_active", c.is_active()) || (o.connected.is_none() && o.terminal.is_none() && o.disc.is_none()) {
            o.tr.ev.push((self.now, Ev::Size(0, v)));
        }
        self.lg.push((self.now, Lg::Size(k + 1, v)));
        v
    }

    fn size_all(&mut self) {
        if !self.sizes { return; }
        let mut list: Vec<SocketAddrV4> = self.conns.keys().cloned().collect();
        list.sort();
        for a in list { self.size_remote(a); }
    }

    pub fn size_remote(&mut self, a: SocketAddrV4) -> Option<u64> {
        let rc = self.remote(a)?;
        let v = call!("RemoteClient::send_buffer_size", rc.borrow().send_buffer_size()) as u64;
        if let Some(&k) = self.conns.get(&a) {
            let active = call!("RemoteClient::is_active", rc.borrow().is_active());
            if k != NONE && active { self.obj[k].tr.ev.push((self.now, Ev::Size(1, v))); }
        }
        Some(v)
    }

    pub fn send_s(&mut self, a: SocketAddrV4, chan: u8, mode: SendMode, len: usize) {
        let rc = match self.remote(a) { Some(r) => r, None => return };
        let len = len.min(self.scfg.ep.max_packet_size);
        let k = self.conns.get(&a).copied().unwrap_or(NONE);
        let active = call!("RemoteClient::is_active", rc.borrow().is_active());
        let v = if k != NONE {
            let tr = &mut self.obj[k].tr;
            let steps = tr.epoch[1];
            let idx = tr.sent[1].len() as u32;
            let v = payload(tr.seed, 1, idx, len);
            if active {
                tr.sent[1].push(Pkt { chan, mode, data: Rc::from(&v[..]), t: self.now, epoch: steps });
                tr.ev.push((self.now, Ev::Send(1, idx)));
            }
            v
        } else {
            vec![7; len]
        };
        call!("RemoteClient::send", rc.borrow_mut().send(v.clone().into_boxed_slice(), chan as usize, mode));
        self.lg.push((self.now, Lg::Api(0, Api::Send, a)));
        if self.sizes { self.size_remote(a); }
    }

    pub fn disc_c(&mut self, k: usize, now: bool) {
        let o = &mut self.obj[k];
        let c = match &mut o.client { Some(c) => c, None => return };
        if o.terminal.is_none() && (o.disc.is_none() || now) { o.disc = Some((self.now, now)); }
        if now { call!("Client::disconnect_now", c.disconnect_now()) } else { call!("Client::disconnect", c.disconnect()) }
        self.lg.push((self.now, Lg::Api(k + 1, if now { Api::DiscNow } else { Api::Disc }, self.obj[k].addr)));
    }

    pub fn disc_s(&mut self, a: SocketAddrV4, now: bool) {
        let rc = match self.remote(a) { Some(r) => r, None => return };
        let active = call!("RemoteClient::is_active", rc.borrow().is_active());
        if let Some(&k) = self.conns.get(&a) {
            if k != NONE && active && (self.obj[k].srv_disc.is_none() || now) { self.obj[k].srv_disc = Some((self.now, now)); }
        }
        if now { call!("RemoteClient::disconnect_now", rc.borrow_mut().disconnect_now()) } else { call!("RemoteClient::disconnect", rc.borrow_mut().disconnect()) }
        self.lg.push((self.now, Lg::Api(0, if now { Api::DiscNow } else { Api::Disc }, a)));
    }

    pub fn drop_s(&mut self, a: SocketAddrV4) {
        let s = self.srv.as_mut().unwrap();
        call!("Server::drop", s.drop(&SocketAddr::V4(a)));
        if let Some(k) = self.conns.remove(&a) {
            if k != NONE { self.obj[k].srv_dropped.get_or_insert(self.now); }
        }
        self.lg.push((self.now, Lg::Api(0, Api::Drop, a)));
        self.count();
    }

    pub fn flush_c(&mut self, k: usize, src: &mut Src) {
        let c = match &mut self.obj[k].client { Some(c) => c, None => return };
        call!("Client::flush", c.flush());
        self.lg.push((self.now, Lg::Api(k + 1, Api::Flush, self.obj[k].addr)));
        self.collect(k + 1, src);
        if self.sizes { self.size_client(k); }
    }

    pub fn flush_s(&mut self, src: &mut Src) {
        let s = self.srv.as_mut().unwrap();
        call!("Server::flush", s.flush());
        self.lg.push((self.now, Lg::Api(0, Api::Flush, self.saddr)));
        self.collect(0, src);
        self.size_all();
    }

    /// Drops the client object without any disconnection.
    pub fn kill_c(&mut self, k: usize) {
        if let Some(c) = self.obj[k].client.take() {
            call!("drop(Client)", drop(c));
            self.obj[k].killed = Some(self.now);
            self.lg.push((self.now, Lg::Api(k + 1, Api::Drop, self.obj[k].addr)));
            self.inbox.remove(&self.obj[k].addr);
        }
    }

    /// Steps all nodes at their cadence until `until`; `app` runs after each step (node 0 is the
    /// server, k+1 a client object).
    pub fn run(&mut self, until: u64, jit: u64, src: &mut Src, cx: &mut Cx, mut app: impl FnMut(&mut Ep, usize, &mut Src, &mut Cx) -> Result<bool, String>) -> CaseResult {
        loop {
            let mut node = 0;
            let mut t = if self.srv.is_some() { self.srv_due } else { u64::MAX };
            for (k, o) in self.obj.iter().enumerate() {
                if o.client.is_some() && o.due < t {
                    t = o.due;
                    node = k + 1;
                }
            }
            let t = t.max(self.now);
            if t > until { self.set_now(until); return Ok(()); }
            self.set_now(t);
            if node == 0 { self.step_server(src); } else { self.step_client(node - 1, src); }
            let cad = if node == 0 { self.srv_cadence } else { self.obj[node - 1].cadence };
            let mut dt = cad;
            if jit > 0 { dt += src.below(jit / 1000 + 1) * 1000; }
            let due = t + dt.max(1);
            if node == 0 { self.srv_due = due; } else { self.obj[node - 1].due = due; }
            if !app(self, node, src, cx)? { return Ok(()); }
        }
    }

    /// Destroys every object; all memory has to come back.
    pub fn teardown(&mut self, order: u64) {
        let handles = std::mem::take(&mut self.handles);
        if order & 1 == 0 { call!("drop(RemoteClient)", drop(handles)); } else {
            if let Some(s) = self.srv.take() { call!("drop(Server)", drop(s)); }
            call!("drop(RemoteClient)", drop(handles));
        }
        for k in 0..self.obj.len() {
            if let Some(c) = self.obj[k].client.take() { call!("drop(Client)", drop(c)); }
        }
        if let Some(s) = self.srv.take() { call!("drop(Server)", drop(s)); }
    }

    pub fn name(node: usize) -> String {
        if node == 0 { "server".into() } else { format!("client{}", node - 1) }
    }

    pub fn dump(&self, cx: &mut Cx) {
        if !cx.verbose { return; }
        for (k, o) in self.obj.iter().enumerate() {
            cx.log(|| format!("client{} at {} nonce {:#x} config {:?}", k, o.addr, o.nonce, o.cfg));
        }
        cx.log(|| format!("server limits total {} active {} errors {} config {:?}", self.scfg.total, self.scfg.active, self.scfg.errors, self.scfg.ep));
        for (t, l) in &self.lg {
            let t = *t as f64 / 1e6;
            cx.log(|| match l {
                Lg::StepBegin(n) => format!("{:.3}ms {} step {{", t, Ep::name(*n)),
                Lg::StepEnd(n) => format!("{:.3}ms {} }}", t, Ep::name(*n)),
                Lg::In(n, i, ok) => { let w = &self.wires[*i as usize]; format!("{:.3}ms   {} in  w{} {}{} {}", t, Ep::name(*n), i, if w.real { "" } else { "(forged/raw) " }, w.src, if *ok { w.w.as_ref().map(wire::show).unwrap_or(format!("{} odd bytes", w.data.len())) } else { "(altered)".into() }) }
                Lg::Out(n, i) => { let w = &self.wires[*i as usize]; format!("{:.3}ms   {} out w{} -> {} {}B {}", t, Ep::name(*n), i, w.dst, w.data.len(), w.w.as_ref().map(wire::show).unwrap_or_default()) }
                Lg::Ev(n, k, a, i) => format!("{:.3}ms   {} EVENT {:?} {} {:#x}", t, Ep::name(*n), k, a, i),
                Lg::Api(n, k, a) => format!("{:.3}ms {} calls {:?} {}", t, Ep::name(*n), k, a),
                Lg::Track(a, b) => format!("{:.3}ms server tracks {:b} (active {:b})", t, a, b),
                Lg::Size(n, v) => format!("{:.3}ms {} send_buffer_size {}", t, Ep::name(*n), v),
            });
        }
    }
}
