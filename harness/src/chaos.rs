//! Generated histories of a server, several clients, raw peers and forgers.

use std::net::SocketAddrV4;

use uflow::{EndpointConfig, SendMode};

use crate::engine::{mix, CaseResult, Cx, Rng, Src};
use crate::ep::*;
use crate::hc::{Link, MODES, MS, SEC};
use crate::props::hostile;
use crate::wire::{self, W};
use crate::world::gen_len;

#[derive(Clone, Copy)]
pub struct Prof {
    /// client-side addresses
    pub addrs: u64,
    pub faults: bool,
    /// copies of datagrams from before, of any connection
    pub stale: bool,
    pub stale_disc: bool,
    /// forged handshake frames and garbage (seed of the forger)
    pub forge: bool,
    pub raws: u64,
    pub limits: bool,
    pub mismatch: bool,
    /// disconnections by either side
    pub disc: u64,
    pub drop: u64,
    pub kill: u64,
    pub reconnect: bool,
    /// bytes per connection and direction
    pub work: usize,
    pub secs: (u64, u64),
    pub pause: bool,
    pub timeouts: bool,
    pub extreme: bool,
    /// seconds without faults or calls at the end
    pub tail: u64,
    pub sizes: bool,
    pub coarse: bool,
    pub ts: bool,
    /// API calls other than the ordinary loop
    pub api: bool,
    pub keep: bool,
    pub tail_settle: bool,
    /// the first client is well-behaved, on a perfect link, and nothing is done to it
    pub witness: bool,
    /// receive calls fail now and then
    pub fail: bool,
    /// acknowledgements of disconnect requests which have yet to be transmitted
    pub early_ack: bool,
}

pub const BASE: Prof = Prof { addrs: 3, faults: true, stale: false, stale_disc: false, forge: false, raws: 0, limits: false, mismatch: false, disc: 0, drop: 0, kill: 0, reconnect: false, work: 20_000, secs: (1, 12), pause: false, timeouts: false, extreme: false, tail: 0, sizes: false, coarse: false, ts: true, api: false, keep: false, tail_settle: false, witness: false, fail: false, early_ack: false };

pub const VERSION: u8 = 3;

pub struct Job {
    pub chans: Vec<u8>,
    pub w: [u64; 4],
    pub burst_p: u64,
    pub burst: u64,
    pub style: u64,
    pub bytes: usize,
    pub pkts: usize,
}

pub fn gen_job(src: &mut Src, bytes: usize, ts: bool) -> Job {
    let n = src.range(1, 4) as usize;
    let chans = (0..n).map(|_| *src.pick(&[0u8, 1, 2, 15, 16, 31, 32, 47, 48, 63])).collect();
    let mut w = *src.pick(&[[4u64, 1, 1, 1], [1, 1, 1, 1], [1, 0, 0, 0], [1, 4, 1, 0], [1, 1, 6, 0], [1, 1, 1, 6]]);
    if !ts { w[3] = 0; }
    Job { chans, w, burst_p: *src.pick(&[100u64, 20, 500, 1000]), burst: src.log(1, 20), style: src.below(3), bytes, pkts: 400 }
}

pub fn gen_size(src: &mut Src) -> usize {
    *src.pick(&[100_000usize, 20_000, 3000, 1448, 1449, 100, 1])
}

pub fn gen_ep(src: &mut Src, p: &Prof, size: usize, alloc_min: usize) -> EndpointConfig {
    let rate = |src: &mut Src| *src.pick(&[2_000_000usize, 2_000_000, 200_000, 50_000, 10_000, 3000]);
    let mut c = EndpointConfig {
        max_send_rate: rate(src),
        max_receive_rate: rate(src),
        max_packet_size: size,
        max_receive_alloc: alloc_min.max(*src.pick(&[1_000_000usize, 20_000, 1, 3000])),
        keepalive: p.keep || src.below(4) < 3,
        keepalive_interval_ms: *src.pick(&[5000u64, 2500, 4000, 10_000]),
        active_timeout_ms: 20_000,
    };
    if p.timeouts {
        c.active_timeout_ms = *src.pick(&[20_000u64, 8000, 3000, 1000, 500, 15_000, 40_000, 100]);
        c.keepalive_interval_ms = *src.pick(&[5000u64, 2500, 2000, 1000, 10_000, 100]);
    }
    if p.extreme {
        let e = |src: &mut Src, v: usize| match src.below(6) { 0 => v, 1 => 1, 2 => usize::MAX, 3 => u32::MAX as usize + src.below(3) as usize, 4 => src.log(1, 1 << 40) as usize, _ => v };
        c.max_send_rate = e(src, c.max_send_rate);
        c.max_receive_rate = e(src, c.max_receive_rate);
        c.max_receive_alloc = e(src, c.max_receive_alloc);
        c.max_packet_size = if src.flip() { c.max_packet_size } else { e(src, c.max_packet_size).min(uflow::MAX_PACKET_SIZE) };
        c.keepalive_interval_ms = *src.pick(&[5000u64, 0, 1, u64::MAX, 2000]);
        c.active_timeout_ms = *src.pick(&[20_000u64, 0, 1, u64::MAX, u64::MAX - 100_000, 5000]);
    }
    c
}

pub fn witness_config() -> EndpointConfig {
    EndpointConfig { max_packet_size: 40, max_receive_alloc: uflow::MAX_PACKET_SIZE, ..EndpointConfig::default() }
}

/// A well-behaved client is served whatever happens to the others.
pub fn check_witness(w: &World, cx: &mut Cx) -> CaseResult {
    let ep = &w.ep;
    let c = &ep.scfg.ep;
    let o = match ep.obj.first() { Some(o) => o, None => return Ok(()) };
    if w.hard || c.active_timeout_ms < 7000 || c.max_send_rate < 10_000 || c.max_receive_rate < 10_000 || c.max_receive_alloc < 3000 { return Ok(()); }
    let t0 = match (o.connected, o.srv_connected) { (Some(x), Some(y)) => x.0.max(y.0), _ => return Ok(()) };
    cx.label("witness connected");
    for (who, t) in [("itself", o.terminal), ("the server", o.srv_terminal)] {
        if let Some((t, k)) = t { return Err(format!("the connection of a well-behaved client on a perfect link ends: {} reports {:?} at {:.3} ms", who, k, t as f64 / 1e6)); }
    }
    let mut n = 0;
    for (i, p) in o.tr.sent[0].iter().enumerate() {
        let due = p.t.max(t0) + 10 * SEC;
        if due > ep.now { continue; }
        match o.tr.got[1].iter().find(|g| g.data == p.data) {
            Some(g) if g.t <= due => n += 1,
            x => return Err(format!("a well-behaved client on a perfect link is not served: its packet #{} sent at {:.3} ms was {}", i, p.t as f64 / 1e6, match x { Some(g) => format!("delivered at {:.3} ms", g.t as f64 / 1e6), None => "not delivered".into() })),
        }
    }
    cx.count("packets of well-behaved clients", n);
    Ok(())
}

pub struct Raw {
    pub addr: SocketAddrV4,
    pub kind: u64,
    pub nonce: u32,
    pub snonce: Option<u32>,
    pub acked: bool,
    pub seen: usize,
    pub tx: Vec<(u32, bool)>,
    pub sent: u32,
    pub p: u64,
}

pub fn syn(nonce: u32, c: &EndpointConfig) -> W {
    let u = |v: usize| v.min(u32::MAX as usize) as u32;
    W::Syn { version: VERSION, nonce, rate: u(c.max_receive_rate), size: u(c.max_packet_size), alloc: u(c.max_receive_alloc) }
}

/// A connection request which is too short, with a valid checksum over what is there.
pub fn short_syn(src: &mut Src, nonce: u32, c: &EndpointConfig) -> Vec<u8> {
    let full = wire::body(&syn(nonce, c));
    let len = match src.below(5) { 0 => 18, 1 => full.len() - 1 - src.below(4) as usize, 2 => src.range(1, 1400) as usize, 3 => full.len() - 1 - src.below(64) as usize, _ => 17 + src.below(10) as usize };
    wire::seal(full[..len].to_vec())
}

impl Raw {
    pub fn new(addr: SocketAddrV4, src: &mut Src, kinds: &[u64]) -> Raw {
        Raw { addr, kind: *src.pick(kinds), nonce: src.u32(), snonce: None, acked: false, seen: 0, tx: Vec::new(), sent: 0, p: *src.pick(&[200u64, 30, 700]) }
    }

    /// One decision of a raw peer; called after each step of the server.
    pub fn act(&mut self, ep: &mut Ep, src: &mut Src, cx: &mut Cx) {
        let list = ep.raw_in.get(&self.addr).map(|v| v[self.seen..].to_vec()).unwrap_or_default();
        self.seen += list.len();
        for id in list {
            match &ep.wires[id as usize].w {
                Some(W::SynAck { nonce_ack, nonce, .. }) if *nonce_ack == self.nonce => self.snonce = Some(*nonce),
                Some(W::Data { id, nonce, .. }) => self.tx.push((*id, *nonce)),
                _ => (),
            }
        }
        if !src.chance(self.p) { return; }
        let to = ep.saddr;
        let from = self.addr;
        let mut c = ep.scfg.ep.clone();
        c.max_receive_alloc = c.max_receive_alloc.max(c.max_packet_size);
        c.max_packet_size = c.max_packet_size.min(c.max_receive_alloc).min(ep.scfg.ep.max_receive_alloc);
        let mut put = |ep: &mut Ep, src: &mut Src, w: &W| { let d = wire::write(w); ep.raw_send(from, to, &d, src); };
        self.sent += 1;
        match self.kind {
            // requests without an answer to the reply
            0 => { put(ep, src, &syn(self.nonce, &c)); if src.below(8) == 1 { self.nonce = src.u32(); } }
            // requests which are refused
            1 => {
                let mut w = syn(src.u32(), &c);
                if let W::Syn { version, size, alloc, .. } = &mut w {
                    match src.below(3) { 0 => *version = *src.pick(&[2u8, 4, 0, 255]), 1 => *size = u32::MAX, _ => *alloc = (ep.scfg.ep.max_packet_size.saturating_sub(1)).min(u32::MAX as usize) as u32 }
                }
                put(ep, src, &w);
                cx.count("requests to be refused", 1);
            }
            // undersized requests
            2 => { let d = short_syn(src, self.nonce, &c); ep.raw_send(from, to, &d, src); cx.count("undersized requests", 1); }
            // stray frames
            3 => {
                let w = stray(src);
                put(ep, src, &w);
            }
            // completes the handshake, then sends arbitrary frames / nothing / disconnects
            _ => match (self.snonce, self.acked) {
                (None, _) => { if self.sent % 4 == 1 { put(ep, src, &syn(self.nonce, &c)); } }
                (Some(n), false) => {
                    let wrong = src.below(4) == 3;
                    put(ep, src, &W::HsAck { nonce_ack: if wrong { n.wrapping_add(1) } else { n } });
                    self.acked |= !wrong;
                }
                (Some(n), true) => {
                    if self.kind == 5 {
                        if src.below(16) == 1 {
                            put(ep, src, &W::Disc);
                            self.snonce = None; self.acked = false; self.nonce = src.u32();
                        } else {
                            let id = self.nonce.wrapping_add(self.sent);
                            put(ep, src, &W::Sync { frame: Some(id), packet: None });
                        }
                    } else {
                        let rxf = self.nonce.wrapping_add(self.sent);
                        let rxp = self.nonce & 0xFFFFF;
                        let d = match src.below(5) {
                            0 => wire::write(&hostile::gen_data(src, rxf, rxp, 300)),
                            1 => { let w = hostile::gen_ack(src, &self.tx, n, n & 0xFFFFF); wire::write(&w) }
                            2 => wire::write(&W::Sync { frame: if src.flip() { Some(hostile::near(src, rxf, 1 << 31)) } else { None }, packet: if src.flip() { Some(hostile::near(src, rxp, 1 << 20)) } else { None } }),
                            3 => { let old: Vec<Vec<u8>> = Vec::new(); hostile::gen_raw(src, &old) }
                            _ => wire::write(&stray(src)),
                        };
                        if d.len() <= 1500 { ep.raw_send(from, to, &d, src); cx.count("hostile frames of a connected peer", 1); }
                    }
                }
            },
        }
    }
}

pub fn stray(src: &mut Src) -> W {
    match src.below(8) {
        0 => W::Disc,
        1 => W::DiscAck,
        2 => W::HsAck { nonce_ack: src.edgy32() },
        3 => W::HsErr { nonce_ack: src.edgy32(), code: src.below(3) as u8 },
        4 => W::SynAck { nonce_ack: src.edgy32(), nonce: src.u32(), rate: src.edgy32(), size: src.edgy32(), alloc: src.edgy32() },
        5 => W::Sync { frame: Some(src.edgy32()), packet: Some(src.edgy32() & 0xFFFFF) },
        6 => W::Acks { fbase: src.edgy32(), pbase: src.edgy32() & 0xFFFFF, groups: vec![(src.edgy32(), src.edgy32(), src.flip())] },
        _ => W::Data { id: src.edgy32(), nonce: src.flip(), dgs: Vec::new() },
    }
}

/// Forged handshake frames, claimed to come from a client (to the server) or the server.
pub fn forge(ep: &mut Ep, rng: &mut Rng, cx: &mut Cx) {
    if ep.obj.is_empty() { return; }
    let k = rng.below(ep.obj.len() as u64) as usize;
    let o = &ep.obj[k];
    let a = o.addr;
    let to_srv = rng.below(2) == 0;
    let r = rng.next() as u32;
    // nonces which were used before at this address are likely
    let mut known: Vec<u32> = vec![o.nonce];
    for w in ep.wires.iter().rev().filter(|w| w.real && (w.src == a || w.dst == a)).take(200) {
        match &w.w {
            Some(W::SynAck { nonce, nonce_ack, .. }) => { known.push(*nonce); known.push(*nonce_ack); }
            Some(W::Syn { nonce, .. }) => known.push(*nonce),
            _ => (),
        }
    }
    let kn = known[rng.below(known.len() as u64) as usize];
    let cfg = ep.scfg.ep.clone();
    let mut w = if to_srv {
        match rng.below(8) {
            0 | 1 => {
                let mut w = syn(if rng.below(3) == 0 { kn } else { r }, &EndpointConfig { max_receive_alloc: usize::MAX, max_packet_size: 1, ..cfg });
                if let W::Syn { version, size, alloc, .. } = &mut w {
                    match rng.below(6) { 0 => *version = 2 + 2 * rng.below(2) as u8, 1 => *size = u32::MAX, 2 => *alloc = 0, _ => () }
                }
                w
            }
            2 | 3 => W::HsAck { nonce_ack: match rng.below(4) { 0 => r, 1 => kn.wrapping_add(1), 2 => 0, _ => kn ^ (1 << rng.below(32)) } },
            4 => W::HsErr { nonce_ack: kn, code: rng.below(3) as u8 },
            5 => W::SynAck { nonce_ack: kn, nonce: r, rate: r, size: 1, alloc: u32::MAX },
            6 => W::HsAck { nonce_ack: o.nonce },
            _ => W::HsAck { nonce_ack: kn.wrapping_sub(1) },
        }
    } else {
        let guess = match rng.below(3) { 0 => r, 1 => kn, _ => o.nonce ^ (1 << rng.below(32)) };
        // the client's own nonce ends or begins its handshake by design
        let guess = if guess == o.nonce && o.connected.is_none() { guess.wrapping_add(1) } else { guess };
        let own = if o.connected.is_some() && rng.below(2) == 0 { o.nonce } else { guess };
        match rng.below(6) {
            0 | 1 => W::SynAck { nonce_ack: own, nonce: r, rate: r, size: 1, alloc: u32::MAX },
            2 | 3 => W::HsErr { nonce_ack: own, code: rng.below(3) as u8 },
            4 => W::HsAck { nonce_ack: own },
            _ => syn(own, &cfg),
        }
    };
    if rng.below(10) == 0 { w = W::HsAck { nonce_ack: r }; }
    // The right answer to the server's nonce is only for its recipient to give.
    if to_srv {
        if let W::HsAck { nonce_ack } = &mut w {
            // nor are the forced nonces to be guessed
            if *nonce_ack > u32::MAX - 64 { *nonce_ack -= 1000; }
            while ep.wires.iter().any(|x| x.real && x.dst == a && matches!(&x.w, Some(W::SynAck { nonce, .. }) if *nonce == *nonce_ack)) { *nonce_ack = nonce_ack.wrapping_add(0x9E3779B9); }
        }
    }
    let d = wire::write(&w);
    let (from, to) = if to_srv { (a, ep.saddr) } else { (ep.saddr, a) };
    ep.raw_send_plain(from, to, &d);
    cx.count(if to_srv { "forged frames to the server" } else { "forged frames to clients" }, 1);
}

/// An acknowledgement of a disconnect request reaches an end which has been told to disconnect, but
/// has yet to transmit its request.
fn early_ack(ep: &mut Ep, cx: &mut Cx) {
    let mut put = Vec::new();
    for o in ep.obj.iter().filter(|o| o.connected.is_some() && o.killed.is_none()) {
        let none = |from: SocketAddrV4, to: SocketAddrV4, t: u64| !ep.wires.iter().rev().take_while(|w| w.t >= t).any(|w| w.real && w.src == from && w.dst == to && matches!(w.w, Some(W::Disc)));
        if let (Some((t, _)), None) = (o.disc, o.terminal) { if none(o.addr, ep.saddr, t) { put.push((ep.saddr, o.addr)); } }
        if let (Some((t, _)), None, None, Some(_)) = (o.srv_disc, o.srv_terminal, o.srv_dropped, o.srv_connected) { if none(ep.saddr, o.addr, t) { put.push((o.addr, ep.saddr)); } }
    }
    for (from, to) in put {
        ep.raw_send_now(from, to, &wire::write(&W::DiscAck));
        cx.count("early disconnect acknowledgements", 1);
    }
}

pub fn sends_client(ep: &mut Ep, k: usize, j: &mut Job, src: &mut Src) {
    if j.pkts == 0 || j.bytes == 0 || ep.obj[k].client.is_none() || ep.obj[k].terminal.is_some() || !src.chance(j.burst_p) { return; }
    for _ in 0..1 + src.below(j.burst) {
        if j.pkts == 0 || j.bytes == 0 { break; }
        let max = ep.obj[k].cfg.max_packet_size.min(1 << 20);
        let (chan, mode, len) = packet(j, src, max);
        ep.send_c(k, chan, mode, len);
    }
}

pub fn sends_server(ep: &mut Ep, a: SocketAddrV4, j: &mut Job, src: &mut Src) {
    if j.pkts == 0 || j.bytes == 0 || !src.chance(j.burst_p) || ep.tracked(a) != Some(true) { return; }
    for _ in 0..1 + src.below(j.burst) {
        if j.pkts == 0 || j.bytes == 0 { break; }
        let max = ep.scfg.ep.max_packet_size.min(1 << 20);
        let (chan, mode, len) = packet(j, src, max);
        ep.send_s(a, chan, mode, len);
    }
}

fn packet(j: &mut Job, src: &mut Src, max: usize) -> (u8, SendMode, usize) {
    let mut mode = MODES[src.weighted(&j.w)];
    let mut chan = *src.pick(&j.chans);
    let len = gen_len(src, j.style, max.min(j.bytes.max(8)));
    // short payloads are not unique: one channel, and modes which are not skipped silently
    if len < 8 { chan = j.chans[0]; if mode == SendMode::TimeSensitive { mode = SendMode::Unreliable; } }
    j.pkts -= 1;
    j.bytes = j.bytes.saturating_sub(len + 16);
    (chan, mode, len)
}

pub struct World {
    pub ep: Ep,
    pub p: Prof,
    pub traffic_end: u64,
    pub faulty: bool,
    pub hard: bool,
}

fn gen_link(src: &mut Src, p: &Prof) -> (Link, bool) {
    let lat = *src.pick(&[10u64, 0, 1, 50, 100, 250]) * MS;
    let mut l = Link::ideal(lat);
    if !p.faults { return (l, false); }
    match src.below(4) {
        0 => (),
        1 => { l.loss = *src.pick(&[50u64, 200, 500]); }
        2 => {
            l.fifo = false;
            l.loss = *src.pick(&[0u64, 50, 300, 700]);
            l.dup = *src.pick(&[0u64, 50, 300]);
            l.corrupt = *src.pick(&[0u64, 30]);
            l.delay = *src.pick(&[0u64, 50, 200]);
            l.delay_max = *src.pick(&[20u64, 200, 2000, 10_000]) * MS;
            l.jitter = *src.pick(&[0u64, 5, 100]) * MS;
        }
        _ => {
            for _ in 0..1 + src.below(3) {
                let f = src.below(20_000) * MS;
                l.black.push((f, f + src.log(1, 40_000) * MS));
            }
        }
    }
    let any = l.loss + l.dup + l.corrupt + l.delay + l.jitter > 0 || !l.black.is_empty();
    (l, any)
}

/// Builds the world; clients are created during the run.
pub fn run(src: &mut Src, cx: &mut Cx, p: &Prof) -> Result<World, String> {
    let m = gen_size(src);
    let sz = |src: &mut Src| if src.flip() { m } else { gen_size(src).min(m) };
    let ssz = sz(src);
    let mut sep = gen_ep(src, p, ssz, m);
    if p.mismatch && src.below(3) == 2 { sep.max_receive_alloc = gen_size(src); sep.max_packet_size = gen_size(src); }
    let (total, active) = if p.limits { (*src.pick(&[4usize, 1, 2, 3, 6, 1000]), *src.pick(&[2usize, 1, 3, 4, 1000])) } else { (4096, 32) };
    let scfg = SrvCfg { total, active, errors: src.flip(), ep: sep };
    let mut ep = Ep::new(scfg, cx.seed);
    ep.sizes = p.sizes;
    ep.set_age(crate::hc::gen_age(src));
    if ep.age > 0 { cx.label("old server"); }
    let cads: &[u64] = if p.coarse { &[100, 50, 250, 500, 20] } else { &[20, 50, 10, 100, 200] };
    ep.srv_cadence = *src.pick(cads) * MS;
    if src.below(4) == 1 { ep.force_srv = Some(u32::MAX.wrapping_sub(src.below(40) as u32)); }
    let na = 1 + src.below(p.addrs);
    let mut faulty = false;
    let mut start = Vec::new();
    for i in 0..na as usize {
        let a = addr_of(i);
        ep.know(a);
        let (l0, f0) = gen_link(src, p);
        let (l1, f1) = gen_link(src, p);
        faulty |= f0 || f1;
        ep.link.insert(a, [l0, l1]);
        start.push(if i == 0 || p.limits && src.flip() { 0 } else { src.below(2000) * MS });
    }
    if p.witness {
        ep.link.insert(addr_of(0), [Link::ideal(10 * MS), Link::ideal(10 * MS)]);
        start[0] = 0;
    }
    let mut raws: Vec<Raw> = Vec::new();
    let nr = if p.raws > 0 { src.below(p.raws + 1) } else { 0 };
    for i in 0..nr as usize {
        let a = addr_of(30 + i);
        ep.know(a);
        ep.raws.push(a);
        ep.link.insert(a, [Link::ideal(*src.pick(&[0u64, 10, 50]) * MS), Link::ideal(*src.pick(&[0u64, 10, 50]) * MS)]);
        raws.push(Raw::new(a, src, if p.fail { &[4, 4, 4, 3, 5, 2, 0, 1] } else { &[4, 0, 1, 2, 3, 5, 4] }));
    }
    let secs = src.range(p.secs.0, p.secs.1);
    let end = secs * SEC;
    let jit = *src.pick(&[0u64, 5 * MS, 60 * MS]);
    let mut rng = Rng(mix(cx.seed ^ 0xf0));
    let forge_p = if p.forge { *src.pick(&[300u64, 30, 1000, 0]) } else { 0 };
    let early_p = if p.early_ack { *src.pick(&[300u64, 30, 1000, 0]) } else { 0 };
    let stale_p = if p.stale || p.stale_disc { *src.pick(&[100u64, 20, 500, 0]) } else { 0 };
    let disc_p = if p.disc > 0 { p.disc * *src.pick(&[1u64, 3, 10]) } else { 0 };
    let (pause_p, api) = (if p.pause { *src.pick(&[4u64, 0, 20]) } else { 0 }, p.api && src.flip());
    let mut jobs_c: Vec<Job> = Vec::new();
    let mut jobs_s: Vec<Job> = Vec::new();
    let mut job_of: Vec<usize> = Vec::new();
    let quick_kill = p.kill;
    // the clients of this address which are still to come
    let mut wait: Vec<u64> = start;
    let mut left: Vec<u64> = (0..na).map(|_| if p.reconnect { 1 + src.below(3) } else { 1 }).collect();
    if p.witness { left[0] = 1; }
    let mut next_word = 0u64;
    let spared = |a: SocketAddrV4| p.witness && a == addr_of(0);
    let mut hard = false;
    loop {
        // clients due now
        for i in 0..na as usize {
            let a = addr_of(i);
            if left[i] == 0 || ep.now < wait[i] { continue; }
            let busy = ep.obj.iter().rposition(|o| o.addr == a && o.client.is_some());
            if let Some(k) = busy {
                if ep.obj[k].terminal.is_none() && ep.obj[k].disc.map_or(true, |_| ep.obj[k].connected.is_some()) { wait[i] = ep.now + 500 * MS; continue; }
                ep.kill_c(k);
            }
            left[i] -= 1;
            let csz = if m <= ep.scfg.ep.max_receive_alloc { sz(src) } else { gen_size(src) };
            let mut c = gen_ep(src, p, csz, m.max(ep.scfg.ep.max_packet_size));
            if p.mismatch && src.below(3) == 2 { c.max_receive_alloc = gen_size(src); c.max_packet_size = gen_size(src); }
            if p.witness && i == 0 { c = witness_config(); }
            let first = !ep.obj.iter().any(|o| o.addr == a);
            if first && src.below(4) == 1 { rand::rngs::shim::clear_forced(); rand::rngs::shim::force(u32::MAX.wrapping_sub(src.below(40) as u32)); }
            let k = ep.connect(a, c, src);
            rand::rngs::shim::clear_forced();
            ep.obj[k].cadence = if spared(a) { 50 * MS } else { *src.pick(cads) * MS };
            jobs_c.push(gen_job(src, p.work, p.ts));
            jobs_s.push(gen_job(src, p.work, p.ts));
            if p.work > 0 && src.below(3) == 2 { let j = &mut jobs_s[k]; j.bytes = 0; }
            if spared(a) { jobs_c[k].bytes = 0; jobs_s[k].bytes = 0; }
            job_of.push(k);
            wait[i] = ep.now + src.log(10, 15_000) * MS;
        }
        let next = (0..na as usize).filter(|i| left[*i] > 0).map(|i| wait[i]).min().unwrap_or(u64::MAX).max(ep.now + 1);
        let until = end.min(next);
        ep.run(until, jit, src, cx, |ep, node, src, cx| {
            if node == 0 {
                for r in raws.iter_mut() { r.act(ep, src, cx); }
                for k in 0..ep.obj.len() {
                    let a = ep.obj[k].addr;
                    if ep.conns.get(&a) != Some(&k) { continue; }
                    sends_server(ep, a, &mut jobs_s[k], src);
                    if spared(a) { continue; }
                    if disc_p > 0 && src.chance(disc_p) { let now = src.flip(); ep.disc_s(a, now); if src.below(4) == 3 { ep.disc_s(a, !now); } }
                    if p.drop > 0 && src.chance(p.drop) { ep.drop_s(a); }
                }
                if p.drop > 0 && src.chance(p.drop) { let i = src.below(ep.addrs.len() as u64) as usize; let a = ep.addrs[i]; if !spared(a) { ep.drop_s(a); } }
                if p.fail && src.below(20) == 1 { crate::sys::fail_recv(ep.saddr, 1 + src.below(3) as u32); }
                if api && src.below(6) == 1 { ep.flush_s(src); }
                if api && src.below(20) == 1 && !ep.handles.is_empty() {
                    // handles of connections which may have ended
                    let i = src.below(ep.handles.len() as u64) as usize;
                    ep.poke_handle(i, src);
                }
                if pause_p > 0 && src.chance(pause_p) { ep.srv_due += src.log(1, 30_000) * MS; hard = true; }
            } else {
                let k = node - 1;
                if spared(ep.obj[k].addr) {
                    if ep.now >= next_word { next_word = ep.now + 3 * SEC; ep.send_c(k, (ep.now / SEC % 64) as u8, SendMode::Reliable, 40); }
                    return Ok(true);
                }
                if p.fail && src.below(20) == 1 { let a = ep.obj[k].addr; crate::sys::fail_recv(a, 1 + src.below(3) as u32); }
                sends_client(ep, k, &mut jobs_c[k], src);
                if disc_p > 0 && src.chance(disc_p) { let now = src.flip(); ep.disc_c(k, now); if src.below(4) == 3 { ep.disc_c(k, !now); } }
                if api && src.below(6) == 1 { ep.flush_c(k, src); }
                if quick_kill > 0 && src.chance(quick_kill) { ep.kill_c(k); return Ok(true); }
                if pause_p > 0 && src.chance(pause_p) { ep.obj[k].due += src.log(1, 30_000) * MS; hard = true; }
            }
            if early_p > 0 && rng.below(1024) < early_p { early_ack(ep, cx); }
            if forge_p > 0 && rng.below(1024) < forge_p { forge(ep, &mut rng, cx); }
            if stale_p > 0 && rng.below(1024) < stale_p && !ep.wires.is_empty() {
                let n = ep.wires.len() as u64;
                let back = if rng.below(2) == 0 { rng.below(n.min(20)) } else { rng.below(n) };
                let id = (n - 1 - back) as u32;
                let disc = matches!(ep.wires[id as usize].w, Some(W::Disc | W::DiscAck));
                let hs = matches!(ep.wires[id as usize].w, Some(W::Syn { .. } | W::SynAck { .. } | W::HsAck { .. } | W::HsErr { .. }));
                if if disc { p.stale_disc } else { p.stale || hs } {
                    let d = rng.below(500) * MS;
                    ep.replay(id, d);
                    cx.count("stale datagrams replayed", 1);
                }
            }
            Ok(true)
        })?;
        if ep.now >= end { break; }
    }
    let traffic_end = ep.now;
    if p.tail > 0 {
        for l in ep.link.values_mut() {
            for d in l.iter_mut() { *d = Link::ideal(d.lat); }
        }
        if p.tail_settle {
            // the faults end; everything else goes on by itself
            let e = ep.now + 2 * SEC;
            ep.run(e, 0, src, cx, |_, _, _, _| Ok(true))?;
        }
        ep.srv_cadence = ep.srv_cadence.max(100 * MS);
        for o in ep.obj.iter_mut() { o.cadence = o.cadence.max(100 * MS); }
        let e = ep.now + p.tail * SEC;
        ep.run(e, 0, src, cx, |_, _, _, _| Ok(true))?;
    }
    if faulty { cx.label("faulty links"); }
    cx.count("datagrams", ep.wires.len() as u64);
    cx.count("datagrams lost", ep.lost);
    cx.count("datagrams duplicated", ep.dupped);
    cx.count("datagrams altered", ep.altered);
    cx.count("client objects", ep.obj.len() as u64);
    cx.count("connections established", ep.lg.iter().filter(|l| matches!(l.1, Lg::Ev(0, K::Connect, _, _))).count() as u64);
    cx.count("packets received", ep.obj.iter().map(|o| (o.tr.got[0].len() + o.tr.got[1].len()) as u64).sum());
    Ok(World { ep, p: *p, traffic_end, faulty, hard })
}

pub fn finish(w: &World, cx: &mut Cx, r: CaseResult) -> CaseResult {
    w.ep.dump(cx);
    r
}
