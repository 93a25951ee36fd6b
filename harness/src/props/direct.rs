//! Directed histories between a real endpoint and a scripted peer: what the chaos of `endpoints.rs`
//! reaches too rarely.

use std::collections::{HashMap, HashSet};
use std::net::SocketAddrV4;

use uflow::{EndpointConfig, SendMode};

use super::hostile;
use super::endpoints::{check_c08, check_flushed, check_timers, Timers};
use crate::chaos::{self, Prof, World, BASE, VERSION};
use crate::engine::{mix, CaseResult, Cx, Prop, Rng, Src, Test};
use crate::ep::*;
use crate::hc::{payload, Ev, Link, MS, SEC};
use crate::wire::{self, Dg, W};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C03", rule: "server, client: at least 20 datagrams of scripted peers or forgers, or altered ones, arrived", tests: vec![
            Test { name: "server", quick: 12_000, thorough: 800_000, f: c03_server },
            Test { name: "client", quick: 12_000, thorough: 800_000, f: c03_client },
        ] },
        Prop { id: "C07", rule: "scripted peers: the handshake completed, or an incompatible peer was refused; nonces: always", tests: vec![
            Test { name: "agree_server", quick: 3000, thorough: 150_000, f: agree_server },
            Test { name: "agree_client", quick: 3000, thorough: 150_000, f: agree_client },
            Test { name: "nonces", quick: 300, thorough: 5000, f: nonces },
        ] },
        Prop { id: "C10", rule: "idle: a connection with keepalive was idle for at least 10 times the timeout of an end", tests: vec![
            Test { name: "idle", quick: 1500, thorough: 60_000, f: c10_idle },
            Test { name: "keepalive_short", quick: 1, thorough: 1, f: c10_keepalive_short },
        ] },
        Prop { id: "C09", rule: "closing: a disconnect request or its answer was lost, or both ends asked for the end", tests: vec![Test { name: "closing", quick: 15_000, thorough: 600_000, f: closing }] },
    ]
}

fn ms(t: u64) -> String {
    format!("{:.3} ms", t as f64 / 1e6)
}

const MASK: u32 = 0xFFFFF;

// ---- a scripted peer ------------------------------------------------------------------------

/// The half of a connection which a scripted peer plays: it numbers frames from its nonce, delivers
/// one packet per frame, and acknowledges what it receives.
struct Peer {
    at: SocketAddrV4,
    to: SocketAddrV4,
    me: u32,
    other: u32,
    sent: u32,
    seen: usize,
    /// frames received and not yet acknowledged: id, nonce
    owed: Vec<(u32, bool)>,
    /// one past the highest frame / packet received
    fnext: u32,
    pnext: u32,
    /// packets received, fragment-rounded bytes, up to each packet
    sizes: HashMap<u32, usize>,
    hold: bool,
    pbase: u32,
    first: Option<(u32, Option<u32>)>,
    log: Vec<(u64, usize)>,
    rx_bytes: usize,
    dups: u64,
    outstanding: usize,
    max_outstanding: usize,
}

impl Peer {
    fn new(at: SocketAddrV4, to: SocketAddrV4, me: u32, other: u32) -> Peer {
        Peer { at, to, me, other, sent: 0, seen: 0, owed: Vec::new(), fnext: other, pnext: other & MASK, sizes: HashMap::new(), hold: false, pbase: other & MASK, first: None, log: Vec::new(), rx_bytes: 0, dups: 0, outstanding: 0, max_outstanding: 0 }
    }

    fn put(&self, ep: &mut Ep, w: &W) {
        let d = wire::write(w);
        ep.raw_send_plain(self.at, self.to, &d);
    }

    /// A frame with one whole packet.
    fn data(&mut self, ep: &mut Ep, chan: u8, data: Vec<u8>) {
        let seq = (self.me & MASK).wrapping_add(self.sent) & MASK;
        let id = self.me.wrapping_add(self.sent);
        self.sent += 1;
        let w = W::Data { id, nonce: id & 4 == 0, dgs: vec![Dg { seq, chan, wlead: 0, clead: 0, frag: 0, last: 0, data }] };
        self.put(ep, &w);
    }

    /// Takes in what arrived since the last call. Everything arrives in order.
    fn take(&mut self, ep: &Ep, key: SocketAddrV4) {
        let list = ep.raw_in.get(&key).map(|v| v[self.seen..].to_vec()).unwrap_or_default();
        self.seen += list.len();
        for i in list {
            let x = &ep.wires[i as usize];
            if !matches!(x.w, Some(W::Data { .. } | W::Sync { .. } | W::Acks { .. })) { continue; }
            if x.src != self.to || x.dst != self.at { continue; }
            self.log.push((x.t, x.data.len()));
            if let Some(W::Data { id, nonce, dgs }) = &x.w {
                self.first.get_or_insert((*id, dgs.first().map(|d| d.seq)));
                self.owed.push((*id, *nonce));
                if id.wrapping_sub(self.fnext) < 1 << 31 { self.fnext = id.wrapping_add(1); }
                for d in dgs {
                    self.rx_bytes += d.data.len();
                    let frags = (d.last as usize + 1) * 1448;
                    let size = if d.last == 0 { d.data.len() } else { frags };
                    if self.sizes.insert(d.seq, size).is_none() { self.outstanding += size; } else { self.dups += 1; }
                    if d.seq.wrapping_sub(self.pnext) & MASK < 1 << 19 && d.frag == d.last { self.pnext = d.seq.wrapping_add(1) & MASK; }
                }
                self.max_outstanding = self.max_outstanding.max(self.outstanding);
            }
        }
    }

    /// Acknowledges everything; the packet window stays where it is while `hold`.
    fn ack(&mut self, ep: &mut Ep) {
        if self.owed.is_empty() { return; }
        let mut groups: Vec<(u32, u32, bool)> = Vec::new();
        for (id, nonce) in self.owed.drain(..) {
            match groups.last_mut() {
                Some(g) if id.wrapping_sub(g.0) < 32 => { if g.1 >> id.wrapping_sub(g.0) & 1 == 0 { g.1 |= 1 << id.wrapping_sub(g.0); g.2 ^= nonce; } }
                _ => groups.push((id, 1, nonce)),
            }
        }
        if !self.hold {
            self.pbase = self.pnext;
            self.sizes.clear();
            self.outstanding = 0;
        }
        for g in groups.chunks(100) {
            let w = W::Acks { fbase: self.fnext, pbase: self.pbase, groups: g.to_vec() };
            self.put(ep, &w);
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct Limits {
    rate: u32,
    size: u32,
    alloc: u32,
}

fn gen_limits(src: &mut Src) -> Limits {
    let rate = *src.pick(&[10_000u32, 1500, 3000, 100_000, 1_000_000]);
    let alloc = *src.pick(&[20_000u32, 3000, 6000, 100_000, 1448]);
    Limits { rate, size: *src.pick(&[1448u32, 100, 1]), alloc }
}

fn syn_of(nonce: u32, l: Limits) -> W {
    W::Syn { version: VERSION, nonce, rate: l.rate, size: l.size, alloc: l.alloc }
}

fn round_frag(n: usize) -> usize {
    (n + 1447) / 1448 * 1448
}

/// The sender keeps to the limits its peer has stated, and makes use of them.
fn check_limits(who: &str, p: &Peer, rate: u32, alloc: usize, rtt: u64, sat: (u64, u64), cx: &mut Cx) -> CaseResult {
    if p.max_outstanding > round_frag(alloc) {
        return Err(format!("{} has {} bytes of unacknowledged packets outstanding, its peer's max_receive_alloc is {}", who, p.max_outstanding, alloc));
    }
    // prefix sums over all intervals
    let mut low = f64::MAX;
    let mut sum = 0f64;
    for (t, n) in &p.log {
        let x = sum - rate as f64 * (*t as f64 / 1e9);
        low = low.min(x);
        sum += *n as f64;
        let x = sum - rate as f64 * (*t as f64 / 1e9);
        let over = x - low - rate as f64 * (rtt as f64 / 1e9) - 1472.0;
        if over > 1.0 { return Err(format!("{} exceeds the agreed rate of {} B/s by {:.0} bytes at {}", who, rate, over, ms(*t))); }
    }
    if sat.1 > sat.0 && rate <= 10_000 {
        let n: usize = p.log.iter().filter(|x| x.0 >= sat.0 && x.0 < sat.1).map(|x| x.1).sum();
        let want = rate as f64 * ((sat.1 - sat.0) as f64 / 1e9);
        if (n as f64) < want * 0.4 { return Err(format!("{} sends {} bytes from {} to {}; the agreed rate of {} B/s allows {:.0}, everything is acknowledged and more is queued", who, n, ms(sat.0), ms(sat.1), rate, want)); }
        cx.label("rate reached");
    }
    Ok(())
}

fn ideal(src: &mut Src) -> [Link; 2] {
    [Link::ideal(*src.pick(&[10u64, 0, 1, 60]) * MS), Link::ideal(*src.pick(&[10u64, 0, 1, 60]) * MS)]
}

fn srv_ep(src: &mut Src) -> EndpointConfig {
    EndpointConfig {
        max_send_rate: *src.pick(&[1_000_000usize, 10_000, 3000, 100_000, 1 << 32, (1 << 32) + 5000, usize::MAX]),
        max_receive_rate: *src.pick(&[2_000_000usize, 5000]),
        max_packet_size: *src.pick(&[1448usize, 100, 3000]),
        max_receive_alloc: *src.pick(&[1_000_000usize, 3000]),
        keepalive: true,
        keepalive_interval_ms: 5000,
        active_timeout_ms: 20_000,
    }
}

// ---- C07 ------------------------------------------------------------------------------------

fn agree_server(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut sep = srv_ep(src);
    if sep.max_packet_size > 1448 { sep.max_receive_alloc = sep.max_receive_alloc.max(3000); }
    let scfg = SrvCfg { total: *src.pick(&[4096usize, 1, 2]), active: *src.pick(&[32usize, 1]), errors: src.flip(), ep: sep.clone() };
    let mut ep = Ep::new(scfg, cx.seed);
    let r = agree_server_run(&mut ep, sep, src, cx);
    ep.dump(cx);
    ep.teardown(0);
    r
}

fn agree_server_run(ep: &mut Ep, sep: EndpointConfig, src: &mut Src, cx: &mut Cx) -> CaseResult {
    let a = addr_of(0);
    ep.know(a);
    ep.raws.push(a);
    let l = ideal(src);
    let rtt = l[0].lat + l[1].lat;
    ep.link.insert(a, l);
    ep.srv_cadence = *src.pick(&[20u64, 5, 50]) * MS;
    if src.below(3) == 1 { ep.force_srv = Some(u32::MAX.wrapping_sub(src.below(20) as u32)); }
    let to = ep.saddr;
    let n1 = if ep.force_srv.is_none() && src.below(3) == 1 { u32::MAX - src.below(20) as u32 } else { src.u32() };
    let mut lim = gen_limits(src);
    // compatible, except sometimes
    let bad = src.below(8);
    if bad != 1 { lim.alloc = lim.alloc.max(sep.max_packet_size as u32); }
    lim.size = if bad == 2 { (sep.max_receive_alloc + 1) as u32 } else { lim.size.min(sep.max_receive_alloc as u32) };
    let version = if bad == 3 { *src.pick(&[2u8, 4, 0, 255]) } else { VERSION };
    let compat = lim.alloc as usize >= sep.max_packet_size && lim.size as usize <= sep.max_receive_alloc;
    let want_err = if version != VERSION { Some(0u8) } else if !compat { Some(1) } else { None };
    let send = |ep: &mut Ep, w: &W| { let d = wire::write(w); ep.raw_send_plain(a, to, &d); };
    let mut first = syn_of(n1, lim);
    if let W::Syn { version: v, .. } = &mut first { *v = version; }
    send(ep, &first);
    // what follows is noise until the nonce is returned
    let noise = src.below(6);
    let mut rng = Rng(mix(cx.seed ^ 0x51));
    let other_limits = Limits { rate: if lim.rate > 50_000 { 1500 } else { 1_000_000 }, size: 1, alloc: if lim.alloc > 50_000 { 3000 } else { 1_000_000 } };
    let make = |rng: &mut Rng, known: Option<u32>| -> W {
        match rng.below(9) {
            0 | 1 | 2 => syn_of(rng.next() as u32, other_limits),
            3 => syn_of(n1, other_limits),
            4 => syn_of(n1, lim),
            5 => { let v = rng.next() as u32; W::HsAck { nonce_ack: if Some(v) == known { v ^ 1 } else { v } } }
            6 => W::HsErr { nonce_ack: if rng.below(2) == 0 { n1 } else { rng.next() as u32 }, code: rng.below(3) as u8 },
            7 => W::SynAck { nonce_ack: n1, nonce: rng.next() as u32, rate: 1_000_000, size: 1, alloc: 1_000_000 },
            // not for the server to accept: the client's own nonce
            _ => W::HsAck { nonce_ack: if Some(n1) == known { n1 ^ 1 } else { n1 } },
        }
    };
    let e = ep.now + 10 * MS;
    ep.run(e, 0, src, cx, |_, _, _, _| Ok(true))?;
    if want_err.is_none() {
        for _ in 0..noise { let w = make(&mut rng, None); send(ep, &w); }
    }
    let wait = src.log(1, 6000) * MS;
    let e = ep.now + rtt + 60 * MS + wait;
    ep.run(e, 0, src, cx, |_, _, _, _| Ok(true))?;
    // the answers
    let replies: Vec<W> = ep.wires.iter().filter(|x| x.real && x.dst == a).filter_map(|x| x.w.clone()).collect();
    let evs = |ep: &Ep, k: K| ep.lg.iter().filter(|x| matches!(x.1, Lg::Ev(0, kk, aa, _) if kk == k && aa == a)).count();
    if let Some(code) = want_err {
        if !replies.iter().any(|w| *w == W::HsErr { nonce_ack: n1, code }) { return Err(format!("a request of version {} with {:?} is not refused with error {} (answers: {:?})", version, lim, code, replies)); }
        if replies.iter().any(|w| matches!(w, W::SynAck { nonce_ack, .. } if *nonce_ack == n1)) { return Err(format!("a request of version {} with {:?} is accepted", version, lim)); }
        if evs(ep, K::Connect) > 0 { return Err("server reports Connect for a refused request".into()); }
        let k = [K::Version, K::Config][code as usize];
        if ep.scfg.errors && evs(ep, k) != 1 { return Err(format!("server reports {:?} {} times for a refused request", k, evs(ep, k))); }
        cx.nontrivial = true;
        cx.label("refused");
        return Ok(());
    }
    let mut other = None;
    for w in &replies {
        match w {
            W::SynAck { nonce_ack, nonce, .. } if *nonce_ack == n1 && other.map_or(true, |o| o == *nonce) => other = Some(*nonce),
            W::SynAck { .. } => return Err(format!("server answers later requests of {} with another SYN-ACK: {:?}", a, replies)),
            _ => return Err(format!("server answers the handshake of {} with {:?}", a, w)),
        }
    }
    let other = match other { Some(o) => o, None => return Err(format!("server does not answer the request of {}", a)) };
    if evs(ep, K::Connect) > 0 { return Err(format!("server reports Connect for {} although its nonce {:#x} was not returned", a, other)); }
    // wrong answers, then the right one, perhaps repeated
    for _ in 0..src.below(3) { let w = make(&mut rng, Some(other)); send(ep, &w); }
    for d in [1u32, 2, 0x8000_0000] { if src.flip() { send(ep, &W::HsAck { nonce_ack: other ^ d }); } }
    let e = ep.now + rtt + 60 * MS;
    ep.run(e, 0, src, cx, |_, _, _, _| Ok(true))?;
    if evs(ep, K::Connect) > 0 { return Err(format!("server reports Connect for {} although its nonce {:#x} was not returned", a, other)); }
    for _ in 0..1 + src.below(3) { send(ep, &W::HsAck { nonce_ack: other }); }
    // frames from the starting point agreed on
    let mut p = Peer::new(a, to, n1, other);
    p.seen = ep.raw_in.get(&a).map_or(0, |v| v.len());
    let m = 1 + src.below(8);
    let mut sent: Vec<Vec<u8>> = Vec::new();
    let put = |ep: &mut Ep, p: &mut Peer, sent: &mut Vec<Vec<u8>>, src: &mut Src| {
        let v = payload(77, 0, p.sent, (8 + src.below(40) as usize).min(lim.size.max(8) as usize));
        p.data(ep, (p.sent % 64) as u8, v.clone());
        sent.push(v);
    };
    for _ in 0..m { put(ep, &mut p, &mut sent, src); }
    let mut after = src.below(6);
    let phase = src.below(3);
    let start = ep.now;
    let secs = if phase == 0 { 3 } else { 30 };
    let len = sep.max_packet_size.min(1448);
    let agreed = (sep.max_send_rate.min(u32::MAX as usize) as u32).min(lim.rate);
    let e = start + secs * SEC;
    let hold_at = start + 20 * SEC;
    let mut max_rtt = rtt;
    ep.run(e, 0, src, cx, |ep, _, src, _| {
        p.take(ep, a);
        p.ack(ep);
        if phase == 2 && ep.now > hold_at { p.hold = true; }
        if after > 0 && ep.now + SEC < e && src.below(8) == 0 {
            after -= 1;
            let w = make(&mut rng, Some(other));
            send(ep, &w);
            put(ep, &mut p, &mut sent, src);
        }
        if let Some(rc) = ep.remote(a) {
            if let Some(r) = rc.borrow().rtt_s() { max_rtt = max_rtt.max((r * 1e9) as u64); }
            let mut q = rc.borrow().send_buffer_size();
            while phase > 0 && q < 60_000 { ep.send_s(a, 3, SendMode::Unreliable, len); q += len.max(100); }
        }
        Ok(true)
    })?;
    p.take(ep, a);
    if evs(ep, K::Connect) != 1 { return Err(format!("server reports Connect for {} {} times after its nonce was returned", a, evs(ep, K::Connect))); }
    let got: Vec<Vec<u8>> = ep.raw_got.get(&a).cloned().unwrap_or_default();
    if got.len() < sent.len().saturating_sub(after as usize) || got[..] != sent[..got.len()] {
        return Err(format!("server delivered {} of the {} packets which {} sent in frames starting from {:#x} (the nonce of the request it accepted)", got.len(), sent.len(), a, n1));
    }
    for k in [K::Disconnect, K::Timeout] { if evs(ep, k) > 0 { return Err(format!("server reports {:?} for {}: a stale or forged handshake frame ended the connection", k, a)); } }
    if let Some((id, seq)) = p.first {
        if id != other || seq.map_or(false, |s| s != other & MASK) { return Err(format!("server's first frame is {:#x} with packet {:x?}, its nonce is {:#x}", id, seq, other)); }
    } else if phase > 0 { return Err("server sends no data".into()); }
    let sat = if phase == 1 { (start + 22 * SEC, start + 30 * SEC) } else { (0, 0) };
    check_limits("server", &p, agreed, lim.alloc as usize, max_rtt, sat, cx)?;
    cx.nontrivial = true;
    if noise + after > 0 { cx.label("stray handshake frames before the end of the handshake"); }
    Ok(())
}

fn agree_client(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut ep = Ep::new(SrvCfg { total: 1, active: 1, errors: false, ep: EndpointConfig::default() }, cx.seed);
    ep.srv = None;
    let r = agree_client_run(&mut ep, src, cx);
    ep.dump(cx);
    ep.teardown(0);
    r
}

fn agree_client_run(ep: &mut Ep, src: &mut Src, cx: &mut Cx) -> CaseResult {
    let a = addr_of(0);
    let s = ep.saddr;
    ep.raws.push(s);
    let l = ideal(src);
    let rtt = l[0].lat + l[1].lat;
    ep.link.insert(a, l);
    let cfg = srv_ep(src);
    if src.below(3) == 1 { rand::rngs::shim::force(u32::MAX - src.below(20) as u32); }
    let k = ep.connect(a, cfg.clone(), src);
    rand::rngs::shim::clear_forced();
    ep.obj[k].cadence = *src.pick(&[20u64, 5, 50]) * MS;
    let other = ep.obj[k].nonce;
    let me = if other < u32::MAX - 64 && src.below(3) == 1 { u32::MAX - src.below(20) as u32 } else { src.u32() };
    let mut lim = gen_limits(src);
    let bad = src.below(6);
    if bad != 1 { lim.alloc = lim.alloc.max(cfg.max_packet_size as u32); }
    lim.size = if bad == 2 { cfg.max_receive_alloc as u32 + 1 } else { lim.size.min(cfg.max_receive_alloc as u32) };
    let compat = lim.alloc as usize >= cfg.max_packet_size && lim.size as usize <= cfg.max_receive_alloc;
    let code = if src.below(6) == 1 { Some(src.below(3) as u8) } else { None };
    let mut rng = Rng(mix(cx.seed ^ 0x52));
    let send = |ep: &mut Ep, w: &W| { let d = wire::write(w); ep.raw_send_plain(s, a, &d); };
    let other_limits = Limits { rate: if lim.rate > 50_000 { 1500 } else { 1_000_000 }, size: 1, alloc: if lim.alloc > 50_000 { 3000 } else { 1_000_000 } };
    // frames which must not matter, before (`own`: also after) the answer
    let make = |rng: &mut Rng, own: bool| -> W {
        let na = if own && rng.below(2) == 0 { other } else { match rng.below(3) { 0 => other ^ (1 << rng.below(32)), 1 => other.wrapping_add(1), _ => (rng.next() as u32) ^ (other & 1) ^ 1 } };
        let na = if !own && na == other { na ^ 1 } else { na };
        match rng.below(5) {
            0 | 1 => W::SynAck { nonce_ack: na, nonce: rng.next() as u32, rate: other_limits.rate, size: other_limits.size, alloc: other_limits.alloc },
            2 => W::HsErr { nonce_ack: na, code: rng.below(3) as u8 },
            3 => W::HsAck { nonce_ack: other },
            _ => syn_of(rng.next() as u32, other_limits),
        }
    };
    let queued = src.below(4);
    let len = cfg.max_packet_size.min(1448);
    for _ in 0..queued { ep.send_c(k, 5, SendMode::Reliable, len); }
    for _ in 0..src.below(5) { let w = make(&mut rng, false); send(ep, &w); }
    let wait = src.log(1, 15_000) * MS;
    let e = ep.now + rtt + 60 * MS + wait;
    ep.run(e, 0, src, cx, |_, _, _, _| Ok(true))?;
    let evs = |ep: &Ep, kk: K| ep.lg.iter().filter(|x| matches!(x.1, Lg::Ev(n, q, _, _) if n == k + 1 && q == kk)).count();
    let all = |ep: &Ep| ep.lg.iter().filter(|x| matches!(x.1, Lg::Ev(n, _, _, _) if n == k + 1)).count();
    if all(ep) > 0 { return Err(format!("client reports an event although its nonce {:#x} was not returned", other)); }
    let syn_ack = W::SynAck { nonce_ack: other, nonce: me, rate: lim.rate, size: lim.size, alloc: lim.alloc };
    if let Some(c) = code {
        send(ep, &W::HsErr { nonce_ack: other, code: c });
        send(ep, &syn_ack);
        let e = ep.now + rtt + 3 * SEC;
        ep.run(e, 0, src, cx, |_, _, _, _| Ok(true))?;
        let kk = [K::Version, K::Config, K::Full][c as usize];
        if evs(ep, kk) != 1 || all(ep) != 1 { return Err(format!("client does not report {:?} (once, and nothing else) when its request is refused so", kk)); }
        cx.nontrivial = true;
        cx.label("refused");
        return Ok(());
    }
    if !compat {
        send(ep, &syn_ack);
        let e = ep.now + rtt + 3 * SEC;
        ep.run(e, 0, src, cx, |_, _, _, _| Ok(true))?;
        if evs(ep, K::Config) != 1 || all(ep) != 1 { return Err(format!("client does not report Error(Config) (once, and nothing else) for a server with {:?}, its own configuration is {:?}", lim, cfg)); }
        cx.nontrivial = true;
        cx.label("refused");
        return Ok(());
    }
    for _ in 0..1 + src.below(2) { send(ep, &syn_ack); }
    let mut p = Peer::new(s, a, me, other);
    p.seen = ep.raw_in.get(&s).map_or(0, |v| v.len());
    let mut sent: Vec<Vec<u8>> = Vec::new();
    let put = |ep: &mut Ep, p: &mut Peer, sent: &mut Vec<Vec<u8>>, src: &mut Src| {
        let v = payload(78, 1, p.sent, (8 + src.below(40) as usize).min(lim.size.max(8) as usize));
        p.data(ep, (p.sent % 64) as u8, v.clone());
        sent.push(v);
    };
    for _ in 0..1 + src.below(8) { put(ep, &mut p, &mut sent, src); }
    let mut after = src.below(8);
    let phase = src.below(3);
    let start = ep.now;
    let secs = if phase == 0 { 3 } else { 30 };
    let agreed = (cfg.max_send_rate.min(u32::MAX as usize) as u32).min(lim.rate);
    let hold_at = start + 20 * SEC;
    let mut max_rtt = rtt;
    ep.run(start + secs * SEC, 0, src, cx, |ep, _, src, _| {
        p.take(ep, s);
        p.ack(ep);
        if phase == 2 && ep.now > hold_at { p.hold = true; }
        if after > 0 && ep.now > start + rtt + 60 * MS && ep.now + SEC < start + secs * SEC && src.below(8) == 0 {
            after -= 1;
            let w = make(&mut rng, true);
            send(ep, &w);
            put(ep, &mut p, &mut sent, src);
        }
        let (r, mut q) = { let c = ep.obj[k].client.as_ref().unwrap(); (c.rtt_s(), c.send_buffer_size()) };
        if let Some(r) = r { max_rtt = max_rtt.max((r * 1e9) as u64); }
        while phase > 0 && q < 60_000 { ep.send_c(k, 3, SendMode::Unreliable, len); q += len.max(100); }
        Ok(true)
    })?;
    p.take(ep, s);
    if evs(ep, K::Connect) != 1 { return Err(format!("client reports Connect {} times after a SYN-ACK with its nonce", evs(ep, K::Connect))); }
    let acks: HashSet<u32> = ep.wires.iter().filter(|x| x.real).filter_map(|x| match x.w { Some(W::HsAck { nonce_ack }) => Some(nonce_ack), _ => None }).collect();
    if acks != HashSet::from([me]) { return Err(format!("client returns the nonces {:x?}, the SYN-ACK it accepted carries {:#x}", acks, me)); }
    let got: Vec<Vec<u8>> = ep.obj[k].tr.got[0].iter().map(|g| g.data.to_vec()).collect();
    if got.len() < sent.len().saturating_sub(1) || got[..] != sent[..got.len()] {
        return Err(format!("client delivered {} of the {} packets which the server sent in frames starting from {:#x} (its nonce)", got.len(), sent.len(), me));
    }
    for kk in [K::Disconnect, K::Timeout, K::Config, K::Version, K::Full] { if evs(ep, kk) > 0 { return Err(format!("client reports {:?}: a stale or forged handshake frame ended the connection", kk)); } }
    if let Some((id, seq)) = p.first {
        if id != other || seq.map_or(false, |s| s != other & MASK) { return Err(format!("client's first frame is {:#x} with packet {:x?}, its nonce is {:#x}", id, seq, other)); }
    } else if phase > 0 || queued > 0 { return Err("client sends no data".into()); }
    let sat = if phase == 1 { (start + 22 * SEC, start + 30 * SEC) } else { (0, 0) };
    check_limits("client", &p, agreed, lim.alloc as usize, max_rtt, sat, cx)?;
    cx.nontrivial = true;
    Ok(())
}

/// Nonces cannot be foretold from what else an address sees.
fn nonces(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut ep = Ep::new(SrvCfg { total: 4096, active: 4096, errors: false, ep: EndpointConfig::default() }, cx.seed);
    let same = src.flip();
    let base = src.u32();
    let step = src.below(5);
    let mut list: Vec<(u32, u32)> = Vec::new();
    let to = ep.saddr;
    let n = 40;
    for i in 0..n {
        let a = addr_of(i);
        ep.know(a);
        ep.raws.push(a);
        let m = match step { 0 => base, 1 => base.wrapping_add(i as u32), _ => base.wrapping_add((i as u32).wrapping_mul(0x01234567)) };
        let d = wire::write(&chaos::syn(m, &EndpointConfig::default()));
        ep.raw_send_plain(a, to, &d);
        if same { ep.set_now(ep.now + 20 * MS); ep.step_server(src); }
        list.push((m, 0));
    }
    ep.set_now(ep.now + 20 * MS);
    ep.step_server(src);
    for x in &ep.wires {
        if let Some(W::SynAck { nonce_ack, nonce, .. }) = &x.w {
            let i = (0..n).position(|i| addr_of(i) == x.dst).unwrap();
            if list[i].0 == *nonce_ack && list[i].1 == 0 { list[i].1 = *nonce; }
        }
    }
    let srv: Vec<u32> = list.iter().map(|x| x.1).collect();
    let r = random("server's", &srv).and_then(|_| {
        for (what, f) in [("difference to", (|a: u32, b: u32| b.wrapping_sub(a)) as fn(u32, u32) -> u32), ("exclusive or with", |a, b| a ^ b)] {
            let v: HashSet<u32> = list.iter().map(|x| f(x.0, x.1)).collect();
            if v.len() < n / 2 { return Err(format!("the server's nonces have a constant {} the clients'", what)); }
        }
        Ok(())
    });
    let r = r.and_then(|_| {
        let mut v = Vec::new();
        for i in 0..n {
            let k = ep.connect(addr_of(i), EndpointConfig::default(), src);
            v.push(ep.obj[k].nonce);
            if same { ep.set_now(ep.now + 20 * MS); }
        }
        random("clients'", &v)
    });
    ep.teardown(0);
    cx.nontrivial = true;
    r
}

fn random(who: &str, v: &[u32]) -> CaseResult {
    let set: HashSet<u32> = v.iter().cloned().collect();
    if set.len() != v.len() { return Err(format!("the {} nonces repeat: {:x?}", who, v)); }
    let diff: HashSet<u32> = v.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
    if diff.len() < v.len() / 2 { return Err(format!("the {} nonces follow each other by a constant: {:x?}", who, v)); }
    let bits = v.iter().fold(0, |b, x| b | (x ^ v[0]));
    if bits != u32::MAX { return Err(format!("bits of the {} nonces never change: {:#x}", who, !bits)); }
    Ok(())
}

// ---- C09: the end of a connection under blackouts --------------------------------------------

fn closing(src: &mut Src, cx: &mut Cx) -> CaseResult {
    // the ends may talk all the time, which allows of short timeouts
    let chatty = src.below(3) == 2;
    let mk = |src: &mut Src| EndpointConfig { active_timeout_ms: if chatty { *src.pick(&[2500u64, 1000, 500, 20_000]) } else { *src.pick(&[20_000u64, 60_000, 5000]) }, keepalive: src.below(4) > 0, ..EndpointConfig::default() };
    let sep = mk(src);
    let ccfg = mk(src);
    let mut ep = Ep::new(SrvCfg { total: 4, active: 4, errors: src.flip(), ep: sep }, cx.seed);
    ep.srv_cadence = *src.pick(&[20u64, 50, 100, 200]) * MS;
    let a = addr_of(0);
    let l = ideal(src);
    let lat = [l[0].lat, l[1].lat];
    ep.link.insert(a, l);
    let k = ep.connect(a, ccfg, src);
    ep.obj[k].cadence = *src.pick(&[20u64, 50, 100, 200]) * MS;
    ep.sizes = true;
    let chat = move |ep: &mut Ep, node: usize, src: &mut Src| {
        if !chatty { return; }
        if node == 0 {
            if ep.obj[k].srv_disc.is_none() && src.below(4) > 0 { ep.send_s(a, 2, SendMode::Unreliable, 8); }
        } else if ep.obj[k].disc.is_none() && src.below(4) > 0 {
            ep.send_c(k, 2, SendMode::Unreliable, 8);
        }
    };
    ep.run(SEC, 0, src, cx, |ep, n, src, _| { chat(ep, n, src); Ok(true) })?;
    let t0 = ep.now + src.below(500) * MS;
    for _ in 0..src.below(4) { ep.send_c(k, 0, SendMode::Reliable, 8 + src.below(3000) as usize); }
    for _ in 0..src.below(4) { ep.send_s(a, 1, SendMode::Reliable, 8 + src.below(3000) as usize); }
    // blackouts from the first call on
    let dark = src.below(4);
    for dir in 0..2 {
        let mut t = t0.saturating_sub(src.below(200) * MS);
        for _ in 0..match dark { 0 => 0, 1 => src.below(2), _ => 1 + src.below(3) } {
            t += src.log(1, 12_000) * MS - MS;
            let e = t + src.log(10, 12_000) * MS;
            ep.link.get_mut(&a).unwrap()[dir].black.push((t, e));
            t = e;
        }
    }
    // who asks, when and how
    let both = src.below(3) > 0;
    let lag = match src.below(4) { 0 => 0, 1 => src.below(300) * MS, 2 => src.below(5000) * MS, _ => src.below(25_000) * MS };
    let side = src.below(2);
    let (n0, n1) = (src.flip(), src.flip());
    let mut calls: Vec<(u64, u64, bool)> = vec![(t0, side, n0)];
    if both { calls.push((t0 + lag, 1 - side, n1)); }
    calls.sort();
    for (t, s, now) in &calls {
        let t = (*t).max(ep.now);
        ep.run(t, 0, src, cx, |ep, n, src, _| { chat(ep, n, src); Ok(true) })?;
        if *s == 0 { ep.disc_c(k, *now); } else { ep.disc_s(a, *now); }
    }
    let e = t0 + 100 * SEC;
    ep.run(e, 0, src, cx, |ep, n, src, _| { chat(ep, n, src); Ok(ep.obj[k].terminal.is_none() || ep.obj[k].srv_terminal.is_none() || !chatty) })?;
    let wd = World { traffic_end: e, faulty: dark > 0, hard: false, p: BASE, ep };
    let r = check_closing(&wd.ep, k, lat, cx).and_then(|_| if dark == 0 { check_drained(&wd.ep, k, cx) } else { Ok(()) }).and_then(|_| check_timers(&wd.ep, &Timers { c09: true, c10: false }, cx)).and_then(|_| check_flushed(&wd, cx)).and_then(|_| check_c08(&wd.ep, &mut Cx::new(cx.tier, cx.seed, false)));
    cx.nontrivial = both || wd.ep.lost > 0;
    let r = chaos::finish(&wd, cx, r);
    let mut wd = wd;
    wd.ep.teardown(0);
    r
}

/// On a faultless network, with little to send, the request follows at once when everything
/// submitted has been acknowledged.
fn check_drained(ep: &Ep, k: usize, cx: &mut Cx) -> CaseResult {
    let o = &ep.obj[k];
    for side in 0..2 {
        let (disc, term) = if side == 0 { (o.disc, o.terminal) } else { (o.srv_disc, o.srv_terminal) };
        let td = match disc { Some((t, false)) => t, _ => continue };
        let cad = if side == 0 { o.cadence } else { ep.srv_cadence };
        let mut drained = None;
        for (t, e) in &o.tr.ev {
            match e {
                Ev::Size(s, v) if *s == side && *t >= td => if *v > 0 { drained = None } else if drained.is_none() { drained = Some(*t) },
                _ => (),
            }
        }
        let t0 = match drained { Some(t) => t, None => continue };
        let bound = t0 + 3 * cad + 15 * SEC; // acknowledgements owed come first, at 1472 bytes per second to begin with
        let asked = ep.lg.iter().find_map(|(t, l)| match l { Lg::Out(n, id) if *n == (if side == 0 { k + 1 } else { 0 }) && ep.wires[*id as usize].w == Some(W::Disc) && *t >= td => Some(*t), _ => None });
        let end = asked.unwrap_or(u64::MAX).min(term.map_or(u64::MAX, |x| x.0));
        if end > bound && ep.now > bound { return Err(format!("the {} was told to disconnect at {} and all it had submitted has been acknowledged by {}, but it does not request the end of the connection by {}", ["client", "server"][side], ms(td), ms(t0), ms(bound))); }
        if asked.is_some() { cx.count("drained before the request", 1); }
    }
    Ok(())
}

/// An end whose request reaches its peer, and whom an answer could reach in time, sees Disconnect.
fn check_closing(ep: &Ep, k: usize, lat: [u64; 2], cx: &mut Cx) -> CaseResult {
    let o = &ep.obj[k];
    let a = o.addr;
    let black = |dir: usize, t: u64| ep.link[&a][dir].black.iter().any(|b| t >= b.0 && t < b.1);
    let mut checked = 0;
    for side in 0..2 {
        // side 0: the client asks; 1: the server
        let (node, peer) = if side == 0 { (k + 1, 0) } else { (0, k + 1) };
        let (term, pterm) = if side == 0 { (o.terminal, o.srv_terminal) } else { (o.srv_terminal, o.terminal) };
        let (conn, pconn) = (o.connected.map(|c| c.0), o.srv_connected.map(|c| c.0));
        let (conn, pconn) = match (conn, pconn) { (Some(x), Some(y)) => (x, y), _ => continue };
        let asked = ep.lg.iter().find_map(|(t, l)| match l { Lg::Out(n, id) if *n == node && ep.wires[*id as usize].w == Some(W::Disc) => Some(*t), _ => None });
        let first = match asked { Some(t) => t, None => continue };
        let cad = if side == 0 { o.cadence } else { ep.srv_cadence };
        let pcad = if side == 0 { ep.srv_cadence } else { o.cadence };
        let tend = match term { Some((t, _)) => t, None => return Err(format!("the {} transmits a disconnect request at {} and reports no end", ["client", "server"][side], ms(first))) };
        for (t, l) in &ep.lg {
            let id = match l { Lg::In(n, id, true) if *n == peer => *id, _ => continue };
            let x = &ep.wires[id as usize];
            if x.w != Some(W::Disc) || !x.real || *t <= pconn.max(conn) { continue; }
            // the peer is there to answer: established, closing, or closed by agreement not long ago
            let there = match pterm { None => true, Some((q, _)) if *t <= q => true, Some((q, K::Disconnect)) => *t + SEC + pcad < q + 20 * SEC, _ => false };
            if !there { continue; }
            if black(1 - side, *t) { continue; }
            let back = *t + lat[1 - side] + cad;
            if back + MS < first + 22 * SEC {
                checked += 1;
                if term.unwrap().1 != K::Disconnect {
                    return Err(format!("the {} reports {:?} at {} although its disconnect request (first sent at {}) arrived at {}, while its peer was {} and an answer would have arrived by {}", ["client", "server"][side], term.unwrap().1, ms(tend), ms(first), ms(*t), match pterm { Some((q, kk)) if *t > q => format!("closed since {} ({:?})", ms(q), kk), _ => "not closed".into() }, ms(back)));
                }
            }
        }
    }
    cx.count("answered disconnect requests", checked);
    Ok(())
}

// ---- C03 ------------------------------------------------------------------------------------

fn c03_server(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let f = src.below(16);
    let p = Prof {
        addrs: 3, faults: true, stale: f & 1 == 1, stale_disc: f & 1 == 1, forge: f & 2 == 2, raws: *src.pick(&[4u64, 8, 1]), limits: src.below(3) == 0, mismatch: src.below(3) == 0,
        disc: src.below(3), drop: src.below(3), kill: src.below(2), reconnect: true, api: true, pause: f & 4 == 4, timeouts: src.flip(), extreme: f & 8 == 8, sizes: src.below(4) == 0,
        secs: (5, 40), work: 20_000, tail: *src.pick(&[0u64, 12]), witness: true, fail: true, ..BASE
    };
    let mut wd = chaos::run(src, cx, &p)?;
    let r = chaos::check_witness(&wd, cx).and_then(|_| check_c08(&wd.ep, &mut Cx::new(cx.tier, cx.seed, false)));
    let odd = wd.ep.wires.iter().filter(|w| !w.real).count() as u64 + wd.ep.altered;
    if odd >= 20 { cx.nontrivial = true; }
    let r = chaos::finish(&wd, cx, r);
    wd.ep.teardown(src.below(2));
    r
}

/// A client whose server does as it likes.
fn c03_client(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut ep = Ep::new(SrvCfg { total: 1, active: 1, errors: false, ep: EndpointConfig::default() }, cx.seed);
    ep.srv = None;
    let s = ep.saddr;
    ep.raws.push(s);
    let a = addr_of(0);
    ep.link.insert(a, ideal(src));
    let pr = Prof { timeouts: true, extreme: src.flip(), ..BASE };
    let size = chaos::gen_size(src);
    let cfg = chaos::gen_ep(src, &pr, size, 1);
    let k = ep.connect(a, cfg.clone(), src);
    ep.obj[k].cadence = *src.pick(&[20u64, 5, 100, 500]) * MS;
    let other = ep.obj[k].nonce;
    let mut me = src.edgy32();
    let mut p = Peer::new(s, a, me, other);
    let mut tx: Vec<(u32, bool)> = Vec::new();
    let mut old: Vec<Vec<u8>> = Vec::new();
    let genuine = src.below(4) > 0;
    let e32 = |src: &mut Src| src.edgy32();
    let mut job = chaos::gen_job(src, 60_000, true);
    let (ack_p, odd_p) = (*src.pick(&[1000u64, 300, 0]), *src.pick(&[300u64, 1000, 50]));
    let end = src.range(3, 40) * SEC;
    let end_p = if src.flip() { 2 } else { 0 };
    let mut n = 0u64;
    let mut offered = 0;
    ep.run(end, *src.pick(&[0u64, 3000 * MS]), src, cx, |ep, _, src, _| {
        let before = p.seen;
        p.take(ep, s);
        for i in &ep.raw_in.get(&s).map(|v| v[before..].to_vec()).unwrap_or_default() {
            if let Some(W::Data { id, nonce, .. }) = &ep.wires[*i as usize].w { tx.push((*id, *nonce)); }
            if old.len() < 40 { old.push(ep.wires[*i as usize].data.to_vec()); }
        }
        if ep.obj[k].connected.is_none() && offered < 20 && src.below(4) > 0 {
            offered += 1;
            let w = if genuine {
                W::SynAck { nonce_ack: other, nonce: me, rate: e32(src), size: (e32(src)).min(cfg.max_receive_alloc.min(u32::MAX as usize) as u32), alloc: e32(src).max(cfg.max_packet_size.min(u32::MAX as usize) as u32) }
            } else {
                W::SynAck { nonce_ack: if src.below(8) > 0 { other } else { other ^ 1 }, nonce: me, rate: e32(src), size: e32(src), alloc: e32(src) }
            };
            p.put(ep, &w);
        }
        if src.chance(ack_p) { p.ack(ep); }
        while src.chance(odd_p) && n < 4000 {
            n += 1;
            let rxf = me.wrapping_add(p.sent);
            let rxp = me & MASK;
            let d = match src.below(8) {
                0 | 1 => wire::write(&{ let m = *src.pick(&[300u64, 5, 5000]); hostile::gen_data(src, rxf, rxp, m) }),
                2 => { let w = hostile::gen_ack(src, &tx, other, other & MASK); wire::write(&w) }
                3 => wire::write(&W::Sync { frame: if src.flip() { Some(hostile::near(src, rxf, 1 << 31)) } else { None }, packet: if src.flip() { Some(hostile::near(src, rxp, 1 << 20)) } else { None } }),
                4 => hostile::gen_raw(src, &old),
                5 => { let l = 1 + src.below(200) as usize; let v = vec![n as u8; l]; p.data(ep, (n % 64) as u8, v); continue; }
                6 => { let w = chaos::stray(src); if matches!(w, W::Disc | W::DiscAck) && src.below(8) > 0 { continue; } wire::write(&w) }
                _ => { let w = match src.below(3) { 0 => W::SynAck { nonce_ack: other, nonce: me, rate: 5, size: 1, alloc: 1 }, 1 => W::HsErr { nonce_ack: other, code: src.below(3) as u8 }, _ => W::HsAck { nonce_ack: other } }; if ep.obj[k].connected.is_none() { continue; } wire::write(&w) }
            };
            if d.len() <= 1600 { ep.raw_send_plain(s, a, &d); }
        }
        chaos::sends_client(ep, k, &mut job, src);
        if src.below(50) == 1 { crate::sys::fail_recv(a, 1 + src.below(3) as u32); }
        if src.below(20) == 1 { ep.flush_c(k, src); }
        if end_p > 0 && src.chance(end_p) { let now = src.flip(); ep.disc_c(k, now); }
        if ep.obj[k].terminal.is_some() && src.below(100) == 1 { me = me.wrapping_add(1); return Ok(false); }
        Ok(true)
    })?;
    if n >= 20 && ep.obj[k].connected.is_some() { cx.nontrivial = true; }
    cx.count("frames of a hostile server", n);
    let r = check_c08(&ep, &mut Cx::new(cx.tier, cx.seed, false));
    ep.dump(cx);
    ep.teardown(0);
    r
}

// ---- C10 ------------------------------------------------------------------------------------

/// A connection over a network which loses nothing, and the applications idle for long.
fn c10_idle(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let rate = |src: &mut Src| *src.pick(&[2_000_000usize, 20_000, 1500, 100, 30, 1]);
    let one = src.below(6);
    let gap = |src: &mut Src| *src.pick(&[5000u64, 2000, 0, 1, 1999, 2001, 3000, 10_000, 30_000, 60_000]);
    let (ic, is) = (gap(src), gap(src));
    let (cad_c, cad_s) = (*src.pick(&[20u64, 5, 50, 200, 500]), *src.pick(&[20u64, 5, 50, 200, 500]));
    // the shortest silence between two frames of an end which keeps the connection alive
    let eff = match one { 1 => ic.max(2000), 2 => is.max(2000), 4 | 5 => ic.min(is).max(2000), _ => ic.max(is).max(2000) };
    // an end may be restricted to one frame each two seconds, and answers at the end of a round trip
    let (l0, l1) = (*src.pick(&[10u64, 0, 1, 100, 400]), *src.pick(&[10u64, 0, 1, 100, 400]));
    let slack = 2 * (cad_c + cad_s) + 2 * (l0 + l1) + if matches!(one, 1 | 2 | 4 | 5) { 4100 } else { 2100 };
    let mut cfg = |keep: bool, i: u64, src: &mut Src| EndpointConfig {
        max_send_rate: rate(src), max_receive_rate: rate(src), max_packet_size: 3000, max_receive_alloc: 1_000_000,
        keepalive: keep, keepalive_interval_ms: i,
        active_timeout_ms: eff + slack + *src.pick(&[1u64, 100, 1000, 5000]),
    };
    let cc = cfg(one != 2, ic, src);
    let sc = cfg(one != 1, is, src);
    let shortest = cc.active_timeout_ms.min(sc.active_timeout_ms);
    let mut ep = Ep::new(SrvCfg { total: 2, active: 2, errors: true, ep: sc }, cx.seed);
    let a = addr_of(0);
    ep.know(a);
    ep.link.insert(a, [Link::ideal(l0 * MS), Link::ideal(l1 * MS)]);
    ep.srv_cadence = cad_s * MS;
    if src.below(3) == 1 { ep.force_srv = Some(u32::MAX.wrapping_sub(src.below(20) as u32)); }
    let k = ep.connect(a, cc, src);
    ep.obj[k].cadence = cad_c * MS;
    let e = ep.now + 2 * SEC;
    ep.run(e, 0, src, cx, |_, _, _, _| Ok(true))?;
    // a few packets, then nothing
    let mut idle = 0;
    let rounds = 1 + src.below(3);
    for _ in 0..rounds {
        for _ in 0..src.below(4) {
            let (c, m, n) = (src.below(4) as u8, *src.pick(&[SendMode::Reliable, SendMode::Unreliable, SendMode::Persistent, SendMode::TimeSensitive]), *src.pick(&[10usize, 1448, 3000, 0]));
            if src.flip() { ep.send_c(k, c, m, n); } else if ep.remote(a).is_some() { ep.send_s(a, c, m, n); }
        }
        let t = src.range(1, 25) * shortest * MS + src.below(1000) * MS;
        // at most as many steps as that
        let t = t.min(6000 * cad_c.max(cad_s) * MS);
        idle += t;
        let e = ep.now + t;
        ep.run(e, 0, src, cx, |ep, _, _, _| Ok(ep.obj[k].terminal.is_none() && ep.obj[k].srv_terminal.is_none()))?;
    }
    ep.dump(cx);
    let o = &ep.obj[k];
    let mut r = Ok(());
    if o.connected.is_none() || o.srv_connected.is_none() { r = Err("no connection over a perfect link".to_string()); }
    for (who, t) in [("client", o.terminal), ("server", o.srv_terminal)] {
        if let Some((t, kind)) = t { r = r.and(Err(format!("{} reports {:?} at {}: an idle connection with keepalive (interval {} ms at the client, {} ms at the server; timeouts {} and {} ms) over a network which loses nothing", who, kind, ms(t), ic, is, o.cfg.active_timeout_ms, ep.scfg.ep.active_timeout_ms))); }
    }
    cx.nontrivial = idle >= 10 * shortest * MS;
    if one >= 4 && (ic >= shortest || is >= shortest) { cx.label("one end's interval exceeds a timeout"); }
    if one == 1 || one == 2 { cx.label("only one end keeps the connection alive"); }
    ep.teardown(0);
    r
}

/// Keepalive intervals and timeouts below two seconds.
fn c10_keepalive_short(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let cfg = EndpointConfig { keepalive: true, keepalive_interval_ms: 500, active_timeout_ms: 1500, ..EndpointConfig::default() };
    let mut ep = Ep::new(SrvCfg { total: 1, active: 1, errors: true, ep: cfg.clone() }, cx.seed);
    let a = addr_of(0);
    let k = ep.connect(a, cfg, src);
    ep.run(20 * SEC, 0, src, cx, |_, _, _, _| Ok(true))?;
    ep.dump(cx);
    let o = &ep.obj[k];
    let r = match o.terminal.or(o.srv_terminal) {
        Some((t, kind)) => Err(format!("{:?} at {}: an idle connection with a keepalive interval of 500 ms and a timeout of 1500 ms over a network which loses nothing", kind, ms(t))),
        None if o.connected.is_none() => Err("no connection".to_string()),
        None => Ok(()),
    };
    ep.teardown(0);
    r
}
