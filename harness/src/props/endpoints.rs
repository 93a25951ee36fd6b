//! Oracles over the record of a server with its clients: C07, C08, C09, C10, C17, C18, and the
//! endpoint side of C01, C02, C03, C05, C06, C12, C13, C19 and C20.

use std::collections::{HashMap, HashSet};
use std::net::SocketAddrV4;

use crate::chaos::{self, Prof, BASE, VERSION};
use crate::engine::{CaseResult, Cx, Prop, Src, Test};
use crate::ep::*;
use crate::hc::{MS, SEC};
use crate::wire::{self, W};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C07", rule: "handshakes were accepted, and at least one request was refused or a stale, duplicated or forged handshake frame arrived", tests: vec![Test { name: "chaos", quick: 20_000, thorough: 1_000_000, f: c07_chaos }] },
        Prop { id: "C08", rule: "at least two connections ended and a frame of the connection protocol arrived after an end", tests: vec![Test { name: "chaos", quick: 20_000, thorough: 1_000_000, f: c08_chaos }] },
        Prop { id: "C09", rule: "a connection with Reliable packets pending or sent was ended by disconnect() and its peer reported Disconnect, or a disconnection ran under its retry timer", tests: vec![Test { name: "chaos", quick: 20_000, thorough: 1_000_000, f: c09_chaos }] },
        Prop { id: "C10", rule: "at least one established connection or handshake timed out", tests: vec![Test { name: "chaos", quick: 20_000, thorough: 1_000_000, f: c10_chaos }] },
        Prop { id: "C17", rule: "at least one request was refused with ServerFull", tests: vec![Test { name: "chaos", quick: 20_000, thorough: 1_000_000, f: c17_chaos }] },
        Prop { id: "C18", rule: "at least five datagrams were sent to addresses which had not completed a handshake", tests: vec![Test { name: "chaos", quick: 20_000, thorough: 1_000_000, f: c18_chaos }] },
    ]
}

fn ms(t: u64) -> String {
    format!("{:.3} ms", t as f64 / 1e6)
}

// ---- one step of a node, as recorded --------------------------------------------------------

#[derive(Default)]
pub struct StepRec {
    pub t: u64,
    /// datagrams consumed: wire, unaltered
    pub ins: Vec<(u32, bool)>,
    pub outs: Vec<u32>,
    pub evs: Vec<(K, SocketAddrV4, u32)>,
}

fn w<'a>(ep: &'a Ep, id: u32) -> Option<&'a W> {
    ep.wires[id as usize].w.as_ref()
}

fn is_conn(w: &W) -> bool {
    matches!(w, W::Data { .. } | W::Sync { .. } | W::Acks { .. })
}

impl StepRec {
    fn parsed<'a>(&'a self, ep: &'a Ep) -> impl Iterator<Item = (SocketAddrV4, u32, &'a W)> + 'a {
        self.ins.iter().filter(|i| i.1).filter_map(move |i| { let x = &ep.wires[i.0 as usize]; x.w.as_ref().map(|w| (x.src, i.0, w)) })
    }
}

pub enum Item<'a> {
    Step(&'a StepRec),
    /// application call (or emission outside of a step)
    Api(u64, Api, SocketAddrV4),
    Out(u64, u32),
    Track(u64, u64, u64),
}

/// The record of one node in order.
fn walk(ep: &Ep, node: usize, mut f: impl FnMut(Item) -> CaseResult) -> CaseResult {
    let mut cur: Option<StepRec> = None;
    let mut track = None;
    for (t, l) in &ep.lg {
        match *l {
            Lg::StepBegin(n) if n == node => cur = Some(StepRec { t: *t, ..StepRec::default() }),
            Lg::In(n, id, ok) if n == node => if let Some(c) = &mut cur { c.ins.push((id, ok)); },
            Lg::Out(n, id) if n == node => match &mut cur { Some(c) => c.outs.push(id), None => f(Item::Out(*t, id))? },
            Lg::Ev(n, k, a, i) if n == node => if let Some(c) = &mut cur { c.evs.push((k, a, i)); },
            Lg::StepEnd(n) if n == node => {
                if let Some(c) = cur.take() { f(Item::Step(&c))?; }
                if let Some((x, y)) = track.take() { f(Item::Track(*t, x, y))?; }
            }
            Lg::Track(x, y) if node == 0 => if cur.is_some() { track = Some((x, y)); } else { f(Item::Track(*t, x, y))?; },
            Lg::Api(n, a, addr) if n == node => f(Item::Api(*t, a, addr))?,
            _ => (),
        }
    }
    Ok(())
}

// ---- C08 ----------------------------------------------------------------------------------

pub fn check_c08(ep: &Ep, cx: &mut Cx) -> CaseResult {
    // server: one automaton per address
    let mut open: HashMap<SocketAddrV4, bool> = HashMap::new();
    // tentative connections offered / resolved at an address
    let mut offered: HashMap<SocketAddrV4, HashSet<u32>> = HashMap::new();
    let mut resolved: HashMap<SocketAddrV4, u64> = HashMap::new();
    let (mut terminals, mut after) = (0, 0);
    let mut ended: HashSet<SocketAddrV4> = HashSet::new();
    walk(ep, 0, |it| {
        match it {
            Item::Api(_, Api::Drop, a) => { if open.remove(&a).is_some() { terminals += 1; ended.insert(a); } }
            Item::Step(s) => {
                for o in &s.outs {
                    if let Some(W::SynAck { nonce, .. }) = w(ep, *o) { offered.entry(ep.wires[*o as usize].dst).or_default().insert(*nonce); }
                }
                for (a, _, x) in s.parsed(ep) { if ended.contains(&a) && is_conn(x) { after += 1; } }
                for (k, a, _) in &s.evs {
                    let is_open = open.contains_key(a);
                    match k {
                        K::Connect => {
                            if is_open { return Err(format!("server reports a second Connect for {} at {} without a terminal event in between", a, ms(s.t))); }
                            open.insert(*a, true);
                            *resolved.entry(*a).or_default() += 1;
                        }
                        K::Receive | K::Disconnect if !is_open => return Err(format!("server reports {:?} for {} at {} without a connection (none was announced, or it has ended)", k, a, ms(s.t))),
                        K::Receive => (),
                        K::Timeout if !is_open => {
                            let r = resolved.entry(*a).or_default();
                            *r += 1;
                            let n = offered.get(a).map_or(0, |x| x.len() as u64);
                            if *r > n { return Err(format!("server reports Error(Timeout) for {} at {}: the connection has ended already or never existed ({} handshakes begun)", a, ms(s.t), n)); }
                        }
                        // refused requests
                        K::Version | K::Config | K::Full if !is_open => (),
                        _ => { open.remove(a); terminals += 1; ended.insert(*a); }
                    }
                }
            }
            _ => (),
        }
        Ok(())
    })?;
    for (k, o) in ep.obj.iter().enumerate() {
        let (mut conn, mut term) = (false, None);
        walk(ep, k + 1, |it| {
            if let Item::Step(s) = it {
                if term.is_some() { for (_, _, x) in s.parsed(ep) { if is_conn(x) { after += 1; } } }
                for (e, _, _) in &s.evs {
                    if let Some(t) = term { return Err(format!("client{} ({}) reports {:?} at {} after {:?}", k, o.addr, e, ms(s.t), t)); }
                    match e {
                        K::Connect => { if conn { return Err(format!("client{} ({}) reports a second Connect at {}", k, o.addr, ms(s.t))); } conn = true; }
                        K::Receive | K::Disconnect if !conn => return Err(format!("client{} ({}) reports {:?} at {} without a preceding Connect", k, o.addr, e, ms(s.t))),
                        K::Receive => (),
                        e => { term = Some(*e); terminals += 1; }
                    }
                }
            }
            Ok(())
        })?;
    }
    cx.count("terminal events", terminals);
    cx.count("frames arriving after the end", after);
    if terminals >= 2 && after > 0 { cx.nontrivial = true; }
    Ok(())
}

fn c08_chaos(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let f = src.below(4);
    let p = Prof { stale: f & 1 == 1, stale_disc: f & 1 == 1, forge: f & 2 == 2, raws: if f == 3 { 2 } else { 0 }, disc: 3, drop: 2, kill: 1, reconnect: true, api: true, pause: true, timeouts: true, coarse: true, limits: true, secs: (2, 40), work: 10_000, tail: 25, ..BASE };
    let mut wd = chaos::run(src, cx, &p)?;
    let r = check_c08(&wd.ep, cx);
    let r = chaos::finish(&wd, cx, r);
    wd.ep.teardown(0);
    r
}

// ---- C07 ----------------------------------------------------------------------------------

#[derive(Default)]
struct Pend {
    nonce: u32,
    syn: u32,
    t0: u64,
    bytes: Option<u32>,
    done: bool,
}

fn cap(v: usize) -> u32 {
    v.min(u32::MAX as usize) as u32
}

pub fn check_c07(ep: &Ep, cx: &mut Cx) -> CaseResult {
    let sc = &ep.scfg;
    let mut pend: HashMap<SocketAddrV4, Pend> = HashMap::new();
    let mut open: HashSet<SocketAddrV4> = HashSet::new();
    let (mut tracked, mut active) = (0u64, 0u64);
    let bit = |a: SocketAddrV4| ep.addrs.iter().position(|x| *x == a).map_or(0, |i| 1u64 << i);
    let (mut good, mut refused, mut odd) = (0u64, 0u64, 0u64);
    let mut kinds: HashSet<&'static str> = HashSet::new();
    walk(ep, 0, |it| {
        match it {
            Item::Track(_, t, a) => { tracked = t; active = a; }
            Item::Api(_, Api::Drop, a) => { open.remove(&a); pend.remove(&a); }
            Item::Step(s) => {
                let mut syns: HashMap<SocketAddrV4, Vec<(u8, u32, u32, u32)>> = HashMap::new();
                let mut acks: HashMap<SocketAddrV4, HashSet<u32>> = HashMap::new();
                let mut released: HashSet<SocketAddrV4> = HashSet::new();
                for (a, _, x) in s.parsed(ep) {
                    match x {
                        W::Syn { version, nonce, size, alloc, .. } => {
                            if open.contains(&a) { odd += 1; kinds.insert("SYN for an established connection"); }
                            syns.entry(a).or_default().push((*version, *nonce, *size, *alloc));
                        }
                        W::HsAck { nonce_ack } => {
                            if open.contains(&a) { odd += 1; kinds.insert("HandshakeAck for an established connection"); }
                            if pend.get(&a).map_or(false, |p| !p.done && p.nonce != *nonce_ack) { odd += 1; kinds.insert("HandshakeAck with a wrong nonce"); }
                            acks.entry(a).or_default().insert(*nonce_ack);
                        }
                        W::Disc | W::DiscAck => { released.insert(a); }
                        _ => (),
                    }
                }
                let was_tracked = |a: SocketAddrV4| tracked & bit(a) != 0;
                let compat = |q: &(u8, u32, u32, u32)| q.3 as u64 >= sc.ep.max_packet_size as u64 && q.2 as u64 <= sc.ep.max_receive_alloc as u64;
                let mut connects: HashSet<SocketAddrV4> = HashSet::new();
                for (k, a, i) in &s.evs {
                    match k {
                        K::Connect => {
                            connects.insert(*a);
                            let p = pend.get_mut(a);
                            let nonces = acks.get(a);
                            match p {
                                Some(p) if nonces.map_or(false, |n| n.contains(&p.nonce)) && !p.done => {
                                    p.done = true;
                                    open.insert(*a);
                                    // both ends agree
                                    let syn = p.syn;
                                    let n = p.nonce;
                                    if let Some(o) = ep.obj.iter().rev().find(|o| o.addr == *a && o.nonce == syn) {
                                        if o.connected.map(|c| c.1) != Some(n) { return Err(format!("server reports Connect for {} at {} (its nonce {:#x}), but the client with nonce {:#x} connected {}", a, ms(s.t), n, syn, match o.connected { Some(c) => format!("with nonce {:#x}", c.1), None => "never".into() })); }
                                    }
                                    let _ = i;
                                }
                                Some(p) => return Err(format!("server reports Connect for {} at {} although that address did not return the nonce {:#x} it was sent (received: {:x?}; used before: {})", a, ms(s.t), p.nonce, nonces.map(|n| n.iter().collect::<Vec<_>>()), p.done)),
                                None => return Err(format!("server reports Connect for {} at {} without having sent a nonce", a, ms(s.t))),
                            }
                        }
                        K::Receive => (),
                        K::Version | K::Config | K::Full => {
                            let ok = s.outs.iter().any(|o| ep.wires[*o as usize].dst == *a && matches!(w(ep, *o), Some(W::HsErr { code, .. }) if *code == match k { K::Version => 0, K::Config => 1, _ => 2 }));
                            if !ok { return Err(format!("server reports {:?} for {} at {} without refusing a request so", k, a, ms(s.t))); }
                        }
                        _ => {
                            if *k == K::Disconnect && open.contains(a) && !released.contains(a) && (syns.contains_key(a) || acks.contains_key(a)) {
                                return Err(format!("a handshake frame ends the established connection of {} at {}", a, ms(s.t)));
                            }
                            if !open.remove(a) { pend.remove(a); }
                        }
                    }
                }
                // the nonce was returned: the connection must exist
                for (a, n) in &acks {
                    if let Some(p) = pend.get(a) {
                        if !p.done && n.contains(&p.nonce) && s.t + MS < p.t0 + 22 * SEC && was_tracked(*a) && active & bit(*a) == 0 && !connects.contains(a) && (active.count_ones() as usize) < sc.active {
                            return Err(format!("{} returned the nonce {:#x} at {}, but the server reports no Connect", a, p.nonce, ms(s.t)));
                        }
                    }
                }
                // a request may follow the end of the previous connection in the same step
                let mut answered: HashMap<SocketAddrV4, u32> = HashMap::new();
                for o in &s.outs {
                    let x = &ep.wires[*o as usize];
                    let a = x.dst;
                    match &x.w {
                        Some(W::SynAck { nonce_ack, nonce, rate, size, alloc }) => {
                            if let Some(p) = pend.get(&a) {
                                if p.nonce == *nonce {
                                    if let Some(b) = p.bytes { if ep.wires[b as usize].data != x.data { return Err(format!("server repeats its SYN-ACK to {} with different contents at {}", a, ms(s.t))); } }
                                    continue;
                                }
                            }
                            *answered.entry(a).or_default() += 1;
                            good += 1;
                            let q = syns.get(&a).and_then(|v| v.iter().find(|q| q.1 == *nonce_ack && q.0 == VERSION && compat(q)).or_else(|| v.iter().find(|q| q.1 == *nonce_ack)));
                            let q = match q { Some(q) => q, None => return Err(format!("server answers {} with a SYN-ACK for nonce {:#x} at {}, which no request in this step carried", a, nonce_ack, ms(s.t))) };
                            if q.0 != VERSION { return Err(format!("server accepts a request of protocol version {} from {} at {}", q.0, a, ms(s.t))); }
                            if !compat(q) { return Err(format!("server accepts a request with incompatible limits (max packet {}, receive allocation {}) from {} at {}; its own are {} and {}", q.2, q.3, a, ms(s.t), sc.ep.max_packet_size, sc.ep.max_receive_alloc)); }
                            if (*rate, *size, *alloc) != (cap(sc.ep.max_receive_rate), cap(sc.ep.max_packet_size), cap(sc.ep.max_receive_alloc)) {
                                return Err(format!("server advertises limits to {} which are not its own: {:?}", a, x.w));
                            }
                            if open.contains(&a) && !released.contains(&a) { return Err(format!("a handshake frame replaces the established connection of {} at {}: new SYN-ACK", a, ms(s.t))); }
                            if let Some(p) = pend.get(&a) {
                                if !p.done && s.t + MS < p.t0 + 22 * SEC && was_tracked(a) { return Err(format!("a handshake frame replaces the handshake in progress with {} at {} (begun at {}): new SYN-ACK", a, ms(s.t), ms(p.t0))); }
                            }
                            pend.insert(a, Pend { nonce: *nonce, syn: *nonce_ack, t0: s.t, bytes: Some(*o), done: false });
                            open.remove(&a);
                        }
                        Some(W::HsErr { nonce_ack, code }) => {
                            *answered.entry(a).or_default() += 1;
                            refused += 1;
                            let q: Vec<_> = syns.get(&a).map(|v| v.iter().filter(|q| q.1 == *nonce_ack).collect()).unwrap_or_default();
                            if q.is_empty() { return Err(format!("server refuses a request of {} with nonce {:#x} at {}, which no request in this step carried", a, nonce_ack, ms(s.t))); }
                            let ok = q.iter().any(|q| match code { 0 => q.0 != VERSION, 1 => !compat(q), _ => true });
                            if !ok { return Err(format!("server refuses {} with the wrong error ({}) at {}: version {}, max packet {}, receive allocation {}", a, ["Version", "Config", "ServerFull"][*code as usize % 3], ms(s.t), q[0].0, q[0].2, q[0].3)); }
                        }
                        _ => (),
                    }
                }
                // each refusal is reported, if the application asked for it
                let mut told: HashMap<(SocketAddrV4, u8), i64> = HashMap::new();
                for o in &s.outs { if let Some(W::HsErr { code, .. }) = &ep.wires[*o as usize].w { *told.entry((ep.wires[*o as usize].dst, *code)).or_default() += sc.errors as i64; } }
                for (k, a, _) in &s.evs { if let Some(c) = match k { K::Version => Some(0), K::Config => Some(1), K::Full => Some(2), _ => None } { *told.entry((*a, c)).or_default() -= 1; } }
                if let Some(((a, c), n)) = told.iter().find(|x| *x.1 != 0) {
                    return Err(format!("handshake errors are {}, but the server refuses {} with error {} {} than it reports so at {}", if sc.errors { "enabled" } else { "disabled" }, a, ["Version", "Config", "ServerFull"][*c as usize % 3], if *n > 0 { "more often" } else { "less often" }, ms(s.t)));
                }
                for (a, v) in &syns {
                    if !was_tracked(*a) && answered.get(a).copied().unwrap_or(0) == 0 {
                        return Err(format!("server does not answer the request of {} at {} (version {}, nonce {:#x})", a, ms(s.t), v[0].0, v[0].1));
                    }
                }
            }
            _ => (),
        }
        Ok(())
    })?;
    for (k, o) in ep.obj.iter().enumerate() {
        let (mut conn, mut ended) = (None, false);
        walk(ep, k + 1, |it| {
            match it {
                Item::Api(_, Api::Disc | Api::DiscNow, _) if conn.is_none() => ended = true,
                Item::Out(t, id) => check_client_out(ep, k, t, id, conn)?,
                Item::Step(s) => {
                    // the first frame which decides the handshake
                    let mut want = None;
                    for (_, _, x) in s.parsed(ep) {
                        match x {
                            W::SynAck { nonce_ack, nonce, size, alloc, .. } => {
                                if conn.is_some() { odd += 1; kinds.insert("SYN-ACK for an established connection"); }
                                else if *nonce_ack != o.nonce { odd += 1; kinds.insert("SYN-ACK for another nonce"); }
                                if *nonce_ack == o.nonce && want.is_none() {
                                    let ok = *alloc as u64 >= o.cfg.max_packet_size as u64 && *size as u64 <= o.cfg.max_receive_alloc as u64;
                                    want = Some(if ok { (K::Connect, *nonce) } else { (K::Config, 0) });
                                }
                            }
                            W::HsErr { nonce_ack, code } => {
                                if conn.is_some() { odd += 1; kinds.insert("handshake error for an established connection"); }
                                else if *nonce_ack != o.nonce { odd += 1; kinds.insert("handshake error for another nonce"); }
                                if *nonce_ack == o.nonce && want.is_none() { want = Some(([K::Version, K::Config, K::Full][*code as usize % 3], 0)); }
                            }
                            _ => (),
                        }
                    }
                    let hs = s.evs.iter().find(|e| matches!(e.0, K::Connect | K::Version | K::Config | K::Full)).map(|e| e.0);
                    if conn.is_none() && !ended {
                        match (want, hs) {
                            (Some((a, _)), Some(b)) if a == b => (),
                            (None, None) => (),
                            (Some((a, n)), b) => return Err(format!("client{} ({}): the handshake's answer at {} calls for {:?}{}, the client reports {:?}", k, o.addr, ms(s.t), a, if a == K::Connect { format!(" (nonce {:#x})", n) } else { String::new() }, b)),
                            (None, Some(b)) => return Err(format!("client{} ({}) reports {:?} at {} without an answer to its request (nonce {:#x})", k, o.addr, b, ms(s.t), o.nonce)),
                        }
                        if let Some((K::Connect, n)) = want { conn = Some(n); }
                    } else if let Some(b) = hs {
                        return Err(format!("client{} ({}) reports {:?} at {}, after its handshake", k, o.addr, b, ms(s.t)));
                    }
                    if conn.is_some() && !ended && s.evs.iter().any(|e| e.0 == K::Disconnect) {
                        let (mut hs, mut disc) = (false, false);
                        for (_, _, x) in s.parsed(ep) {
                            hs |= matches!(x, W::SynAck { .. } | W::HsErr { .. } | W::Syn { .. } | W::HsAck { .. });
                            disc |= matches!(x, W::Disc | W::DiscAck);
                        }
                        if hs && !disc { return Err(format!("a handshake frame ends the established connection of client{} ({}) at {}", k, o.addr, ms(s.t))); }
                    }
                    if s.evs.iter().any(|e| e.0.terminal()) { ended = true; }
                    for id in &s.outs { check_client_out(ep, k, s.t, *id, conn)?; }
                }
                _ => (),
            }
            Ok(())
        })?;
        // what each end acknowledges lies in what its peer has sent, counted from the nonces exchanged
        if let (Some((_, n)), Some(_)) = (o.connected, o.srv_connected) {
            let base = [o.nonce, n];
            let (mut frames, mut packets) = ([0u32; 2], [0u32; 2]);
            // a connection of another client object with the same address may have reached this one's peer
            let until = ep.obj.iter().enumerate().filter(|(j, p)| *j != k && p.addr == o.addr && (p.connected.is_some() || p.srv_connected.is_some())).map(|(_, p)| p.born).min().unwrap_or(u64::MAX);
            for e in &o.tr.em {
                if e.t >= until { break; }
                let s = e.from;
                match &e.w {
                    Some(W::Data { dgs, .. }) => {
                        frames[s] += 1;
                        for d in dgs { packets[s] = packets[s].max((d.seq.wrapping_sub(base[s]) & 0xFFFFF) + 1); }
                    }
                    Some(W::Sync { packet: Some(p), .. }) => packets[s] = packets[s].max(p.wrapping_sub(base[s]) & 0xFFFFF),
                    Some(W::Acks { fbase, pbase, .. }) => {
                        let p = 1 - s;
                        let (f, q) = (fbase.wrapping_sub(base[p]), pbase.wrapping_sub(base[p]) & 0xFFFFF);
                        if f > frames[p] || q > packets[p] {
                            return Err(format!("client{} ({}): the {} states at {} that it expects frame {:#x} and packet {:#x} next; its peer has sent {} frames from {:#x} and {} packets from {:#x}", k, o.addr, ["client", "server"][s], ms(e.t), fbase, pbase, frames[p], base[p], packets[p], base[p] & 0xFFFFF));
                        }
                    }
                    _ => (),
                }
            }
        }
        // starting sequence numbers
        for side in 0..2 {
            let want = if side == 0 { Some(o.nonce) } else { o.connected.map(|c| c.1) };
            let first = o.tr.em.iter().filter(|e| e.from == side).find_map(|e| match &e.w { Some(W::Data { id, dgs, .. }) => Some((*id, dgs.first().map(|d| d.seq))), _ => None });
            if let (Some(n), Some((id, seq))) = (want, first) {
                if id != n || seq.map_or(false, |s| s != n & 0xFFFFF) {
                    return Err(format!("{} of the connection client{} ({}) starts with frame {:#x} and packet {:?}, the nonce exchanged is {:#x}", ["client", "server"][side], k, o.addr, id, seq, n));
                }
            }
        }
    }
    cx.count("handshakes accepted", good);
    cx.count("handshakes refused", refused);
    cx.count("stale, duplicate or forged handshake frames", odd);
    for k in kinds { cx.label(k); }
    if good > 0 && (odd > 0 || refused > 0) { cx.nontrivial = true; }
    Ok(())
}

fn check_client_out(ep: &Ep, k: usize, t: u64, id: u32, conn: Option<u32>) -> CaseResult {
    let o = &ep.obj[k];
    let x = &ep.wires[id as usize];
    match &x.w {
        Some(W::Syn { version, nonce, rate, size, alloc }) => {
            if *version != VERSION || *nonce != o.nonce || (*rate, *size, *alloc) != (cap(o.cfg.max_receive_rate), cap(o.cfg.max_packet_size), cap(o.cfg.max_receive_alloc)) || x.data.len() != wire::MAX_FRAME {
                return Err(format!("client{} sends a request at {} which does not state its configuration: {:?}", k, ms(t), x.w));
            }
        }
        Some(W::HsAck { nonce_ack }) => {
            if conn != Some(*nonce_ack) {
                return Err(format!("client{} ({}) acknowledges the nonce {:#x} at {}, it {}", k, o.addr, nonce_ack, ms(t), match conn { Some(c) => format!("connected with {:#x}", c), None => "is not connected".into() }));
            }
        }
        Some(W::SynAck { .. } | W::HsErr { .. }) => return Err(format!("client{} sends {:?} at {}", k, x.w, ms(t))),
        _ => (),
    }
    Ok(())
}

fn c07_chaos(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let f = src.below(4);
    let p = Prof { stale: f & 1 == 1, forge: f & 2 == 2, raws: if f == 3 { 3 } else { 0 }, mismatch: true, disc: 1, drop: 1, kill: 1, reconnect: true, pause: true, coarse: true, limits: true, secs: (2, 40), work: 5000, tail: 2, ..BASE };
    let mut wd = chaos::run(src, cx, &p)?;
    let r = check_c07(&wd.ep, cx);
    let r = chaos::finish(&wd, cx, r);
    wd.ep.teardown(0);
    r
}

// ---- C09, C10: timers -----------------------------------------------------------------------

/// A request which is repeated 10 times, 2 s apart, and given up another 2 s later.
#[derive(Clone, Default)]
struct Retry {
    n: u32,
    last: u64,
}

impl Retry {
    /// At the end of a step at `t`: `sent` transmissions in it, `over` whether it was given up (None:
    /// some other end).
    fn step(&mut self, t: u64, sent: u32, over: Option<bool>, what: &dyn Fn() -> String) -> CaseResult {
        if self.n > 0 && sent > 0 && t + MS < self.last + 2 * SEC { return Err(format!("{} is repeated at {}, less than 2 s after {}", what(), ms(t), ms(self.last))); }
        if sent > 1 { return Err(format!("{} is transmitted {} times at {}", what(), sent, ms(t))); }
        if over == Some(true) {
            if self.n + sent != 11 { return Err(format!("{} is given up at {} after {} transmissions", what(), ms(t), self.n + sent)); }
            if t + MS < self.last + 2 * SEC || sent > 0 { return Err(format!("{} is given up at {}, less than 2 s after {}", what(), ms(t), ms(if sent > 0 { t } else { self.last }))); }
        } else if over == Some(false) && self.n > 0 && sent == 0 && t >= self.last + 2 * SEC + MS {
            return Err(format!("{}: {} transmissions, the last one at {}, and at {} {}", what(), self.n, ms(self.last), ms(t), if self.n < 11 { "none follows" } else { "it is not given up" }));
        }
        if sent > 0 { self.n += sent; self.last = t; }
        if self.n > 11 { return Err(format!("{} is transmitted {} times", what(), self.n)); }
        Ok(())
    }
}

pub struct Timers {
    /// check silence and handshakes (C10) / disconnections (C09)
    pub c09: bool,
    pub c10: bool,
}

/// One end of an established connection, as seen in the record.
struct End {
    since: u64,
    /// last frame of the connection which this connection's peer sent / any frame at all
    rx: u64,
    rx_any: u64,
    disc_now: bool,
    disc: bool,
    closing: Option<Retry>,
}

impl End {
    fn new(t: u64) -> End { End { since: t, rx: t, rx_any: t, disc_now: false, disc: false, closing: None } }

    /// A step of this end; `discs` the disconnect requests it transmits in it.
    fn step(&mut self, t: u64, fr: &Frames, discs: u32, term: Option<K>, timeout_ms: u64, x: &Timers, who: &dyn Fn() -> String) -> CaseResult {
        let to = timeout_ms.saturating_mul(MS);
        if fr.conn { self.rx = t; }
        if fr.any { self.rx_any = t; }
        if let Some(r) = &mut self.closing {
            if fr.disc || fr.disc_ack {
                if x.c09 && term != Some(K::Disconnect) { return Err(format!("{}: its disconnect request is answered at {}, it reports {:?} instead of Disconnect", who(), ms(t), term)); }
            } else {
                if x.c09 && term == Some(K::Disconnect) { return Err(format!("{} reports Disconnect at {} although its request was not answered", who(), ms(t))); }
                r.step(t, discs, Some(term == Some(K::Timeout)), &|| format!("{}: disconnect request", who()))?;
            }
            return Ok(());
        }
        match term {
            Some(K::Disconnect) => { if x.c09 && !fr.disc { return Err(format!("{} reports Disconnect at {} without a request", who(), ms(t))); } return Ok(()); }
            Some(K::Timeout) => {
                if x.c10 && t - self.rx + MS <= to { return Err(format!("{} reports Error(Timeout) at {}, only {} after the latest frame ({}); the timeout is {} ms", who(), ms(t), ms(t - self.rx), ms(self.rx), timeout_ms)); }
                return Ok(());
            }
            _ => (),
        }
        if fr.disc {
            if x.c09 { return Err(format!("{} receives a disconnect request at {} but reports no Disconnect", who(), ms(t))); }
            return Ok(());
        }
        if x.c10 && t - self.rx_any >= to.saturating_add(MS) && t > self.since { return Err(format!("{} reports no Error(Timeout) at {}: the latest frame arrived {} earlier, the timeout is {} ms", who(), ms(t), ms(t - self.rx_any), timeout_ms)); }
        if discs > 0 {
            let mut r = Retry::default();
            r.step(t, discs, None, &|| format!("{}: disconnect request", who()))?;
            if x.c09 && !self.disc && !self.disc_now { return Err(format!("{} transmits a disconnect request at {} without having been told to", who(), ms(t))); }
            self.closing = Some(r);
        } else if x.c09 && self.disc_now {
            return Err(format!("{} does not transmit a disconnect request in the step at {} after disconnect_now()", who(), ms(t)));
        }
        Ok(())
    }
}

#[derive(Default, Clone)]
struct Frames { conn: bool, any: bool, disc: bool, disc_ack: bool }

pub fn check_timers(ep: &Ep, x: &Timers, cx: &mut Cx) -> CaseResult {
    let mut timeouts = 0u64;
    let mut closings = 0u64;
    let mut hs_over = 0u64;
    // server
    {
        let mut pend: HashMap<SocketAddrV4, (u32, Retry)> = HashMap::new();
        let mut ends: HashMap<SocketAddrV4, End> = HashMap::new();
        let mut closed: HashMap<SocketAddrV4, u64> = HashMap::new();
        let bit = |a: SocketAddrV4| ep.addrs.iter().position(|x| *x == a).map_or(0, |i| 1u64 << i);
        let errors = ep.scfg.errors;
        let mut given_up: Vec<SocketAddrV4> = Vec::new();
        let mut who_is: HashMap<SocketAddrV4, (usize, u32)> = HashMap::new();
        let mut at = 0u64;
        walk(ep, 0, |it| {
            match it {
                Item::Api(_, Api::Drop, a) => { ends.remove(&a); pend.remove(&a); closed.remove(&a); }
                Item::Api(_, Api::Disc, a) => if let Some(e) = ends.get_mut(&a) { e.disc = true; e.disc_now = false; },
                Item::Api(_, Api::DiscNow, a) => if let Some(e) = ends.get_mut(&a) { e.disc_now = true; },
                Item::Track(_, t, _) => {
                    for a in given_up.drain(..) {
                        if x.c10 && t & bit(a) != 0 { return Err(format!("server still tracks {} after its handshake was given up at {}", a, ms(at))); }
                    }
                }
                Item::Step(s) => {
                    at = s.t;
                    let mut fr: HashMap<SocketAddrV4, Frames> = HashMap::new();
                    for (a, id, y) in s.parsed(ep) {
                        let f = fr.entry(a).or_default();
                        f.any = true;
                        let real = &ep.wires[id as usize];
                        // genuine frames of this connection's client, or its answer to the nonce
                        if let (true, Some((k, n))) = (real.real, who_is.get(&a)) {
                            f.conn |= is_conn(y) && real.obj == *k || matches!(y, W::HsAck { nonce_ack } if nonce_ack == n);
                        }
                        f.disc |= *y == W::Disc;
                        f.disc_ack |= *y == W::DiscAck;
                    }
                    let mut synacks: HashMap<SocketAddrV4, Vec<u32>> = HashMap::new();
                    let mut discs: HashMap<SocketAddrV4, u32> = HashMap::new();
                    for o in &s.outs {
                        let a = ep.wires[*o as usize].dst;
                        match w(ep, *o) { Some(W::SynAck { nonce, .. }) => synacks.entry(a).or_default().push(*nonce), Some(W::Disc) => *discs.entry(a).or_default() += 1, _ => () }
                    }
                    let mut term: HashMap<SocketAddrV4, K> = HashMap::new();
                    let mut fresh: HashSet<SocketAddrV4> = HashSet::new();
                    for (k, a, n) in &s.evs {
                        match k {
                            K::Connect => {
                                pend.remove(a);
                                ends.insert(*a, End::new(s.t));
                                fresh.insert(*a);
                                who_is.insert(*a, (ep.obj.iter().position(|o| o.addr == *a && o.srv_connected == Some((s.t, *n))).unwrap_or(NONE), *n));
                            }
                            K::Disconnect | K::Timeout => { term.insert(*a, *k); }
                            _ => (),
                        }
                    }
                    let list: Vec<SocketAddrV4> = ends.keys().cloned().collect();
                    for a in list {
                        let e = ends.get_mut(&a).unwrap();
                        let mut f = fr.get(&a).cloned().unwrap_or_default();
                        let mut t = term.get(&a).copied();
                        if fresh.contains(&a) {
                            // frames may have preceded the handshake's end in this step
                            if t.is_none() { f.disc = false; }
                        }
                        if f.disc && f.disc_ack && e.closing.is_some() && t.is_none() { t = None; }
                        e.step(s.t, &f, discs.get(&a).copied().unwrap_or(0), t, ep.scfg.ep.active_timeout_ms, x, &|| format!("server, connection of {}", a))?;
                        if let Some(t) = t {
                            if t == K::Timeout { timeouts += 1; }
                            if ends[&a].closing.is_some() { closings += 1; }
                            ends.remove(&a);
                            if t == K::Disconnect { closed.insert(a, s.t); }
                            term.remove(&a);
                        }
                    }
                    // handshakes in progress
                    let list: Vec<SocketAddrV4> = pend.keys().cloned().collect();
                    for a in list {
                        let (n, mut r) = pend[&a].clone();
                        let v = synacks.get(&a).cloned().unwrap_or_default();
                        let sent = v.iter().filter(|x| **x == n).count() as u32;
                        let t = term.remove(&a);
                        if !x.c10 { if t.is_some() { pend.remove(&a); } else if sent > 0 { r.n += sent; r.last = s.t; pend.insert(a, (n, r)); } continue; }
                        let over = if errors { t == Some(K::Timeout) } else { r.n == 11 && s.t >= r.last + 2 * SEC + MS };
                        let known = errors || over || s.t + MS < r.last + 2 * SEC || r.n < 11;
                        r.step(s.t, sent, if known { Some(over) } else { None }, &|| format!("server: SYN-ACK to {}", a))?;
                        if over { pend.remove(&a); hs_over += 1; given_up.push(a); } else { pend.insert(a, (n, r)); }
                    }
                    if x.c10 {
                        for (a, k) in &term {
                            if *k == K::Timeout { return Err(format!("server reports Error(Timeout) for {} at {}, with no handshake in progress and no connection", a, ms(s.t))); }
                        }
                    }
                    for (a, v) in synacks {
                        if pend.contains_key(&a) || fresh.contains(&a) { continue; }
                        pend.insert(a, (v[0], Retry { n: 1, last: s.t }));
                        closed.remove(&a);
                        given_up.retain(|y| *y != a);
                    }
                }
                _ => (),
            }
            Ok(())
        })?;
    }
    for (k, o) in ep.obj.iter().enumerate() {
        let mut syn = Retry { n: 1, last: o.born };
        let mut end: Option<End> = None;
        let mut state = 0; // 0 pending, 1 established, 2 ended
        let who = || format!("client{} ({})", k, o.addr);
        walk(ep, k + 1, |it| {
            match it {
                Item::Api(_, Api::Disc | Api::DiscNow, _) if state == 0 => state = 2,
                Item::Api(_, Api::Disc, _) => if let Some(e) = &mut end { e.disc = true; e.disc_now = false; },
                Item::Api(_, Api::DiscNow, _) => if let Some(e) = &mut end { e.disc_now = true; },
                Item::Step(s) => {
                    let mut f = Frames::default();
                    let mut decided = false;
                    for (_, id, y) in s.parsed(ep) {
                        let real = &ep.wires[id as usize];
                        f.any = true;
                        f.conn |= real.real && (is_conn(y) && real.obj == k || matches!(y, W::SynAck { nonce_ack, nonce, .. } if *nonce_ack == o.nonce && o.connected.map(|c| c.1) == Some(*nonce)));
                        f.disc |= *y == W::Disc;
                        f.disc_ack |= *y == W::DiscAck;
                        decided |= matches!(y, W::SynAck { nonce_ack, .. } | W::HsErr { nonce_ack, .. } if *nonce_ack == o.nonce);
                    }
                    let syns = s.outs.iter().filter(|i| matches!(w(ep, **i), Some(W::Syn { .. }))).count() as u32;
                    let discs = s.outs.iter().filter(|i| matches!(w(ep, **i), Some(W::Disc))).count() as u32;
                    let term = s.evs.iter().find(|e| e.0.terminal()).map(|e| e.0);
                    if state == 0 {
                        if s.evs.iter().any(|e| e.0 == K::Connect) {
                            state = 1;
                            end = Some(End::new(s.t));
                            if term.is_none() { f.disc = false; }
                        } else {
                            if x.c10 && !decided { syn.step(s.t, syns, Some(term == Some(K::Timeout)), &|| format!("{}: connection request", who()))?; }
                            if term == Some(K::Timeout) { hs_over += 1; }
                            if term.is_some() { state = 2; }
                        }
                    }
                    if state == 1 {
                        let e = end.as_mut().unwrap();
                        e.step(s.t, &f, discs, term, o.cfg.active_timeout_ms, x, &who)?;
                        if term.is_some() {
                            if term == Some(K::Timeout) { timeouts += 1; }
                            if e.closing.is_some() { closings += 1; }
                            state = 2;
                        }
                    }
                }
                _ => (),
            }
            Ok(())
        })?;
    }
    cx.count("connections timed out", timeouts);
    cx.count("disconnections completed by the requester", closings);
    cx.count("handshakes given up", hs_over);
    if x.c10 && timeouts + hs_over > 0 { cx.nontrivial = true; }
    Ok(())
}

fn c10_chaos(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { disc: 1, drop: 1, kill: 1, reconnect: true, pause: true, timeouts: true, coarse: true, secs: (2, 60), work: 5000, tail: *src.pick(&[0u64, 30, 60]), ..BASE };
    let mut wd = chaos::run(src, cx, &p)?;
    let r = check_timers(&wd.ep, &Timers { c09: false, c10: true }, cx);
    let r = chaos::finish(&wd, cx, r);
    wd.ep.teardown(0);
    r
}

fn c09_chaos(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { disc: 4, pause: true, timeouts: src.below(4) == 1, coarse: true, secs: (2, 30), work: 30_000, tail: *src.pick(&[60u64, 0]), early_ack: src.below(3) == 1, ..BASE };
    let mut wd = chaos::run(src, cx, &p)?;
    let r = check_timers(&wd.ep, &Timers { c09: true, c10: false }, cx).and_then(|_| check_flushed(&wd, cx));
    let r = chaos::finish(&wd, cx, r);
    wd.ep.teardown(0);
    r
}

/// What was submitted in Reliable mode before disconnect() arrives before the peer's Disconnect.
pub fn check_flushed(wd: &chaos::World, cx: &mut Cx) -> CaseResult {
    let ep = &wd.ep;
    for (k, o) in ep.obj.iter().enumerate() {
        for side in 0..2 {
            let (disc, peer_disc, peer_term, term) = if side == 0 { (o.disc, o.srv_disc, o.srv_terminal, o.terminal) } else { (o.srv_disc, o.disc, o.terminal, o.srv_terminal) };
            let (td, now) = match disc { Some(d) => d, None => continue };
            if o.connected.is_none() || o.srv_connected.is_none() || o.killed.is_some() || o.srv_dropped.is_some() { continue; }
            let who = ["client", "server"][side];
            if !now && peer_disc.is_none() {
                if let Some((tp, K::Disconnect)) = peer_term {
                    let got: HashSet<&[u8]> = o.tr.got[1 - side].iter().map(|g| &g.data[..]).collect();
                    let mut n = 0;
                    for (i, p) in o.tr.sent[side].iter().enumerate() {
                        if p.mode == uflow::SendMode::Reliable && p.t <= td {
                            n += 1;
                            if p.data.len() >= 8 && !got.contains(&p.data[..]) { return Err(format!("client{} ({}): the {} called disconnect() at {}, its peer reports Disconnect at {}, but Reliable packet #{} submitted at {} was not delivered", k, o.addr, who, ms(td), ms(tp), i, ms(p.t))); }
                        }
                    }
                    if n > 0 { cx.nontrivial = true; cx.count("flushed disconnections with Reliable data", 1); }
                }
            }
            // both ends come to an end
            let first = ep.lg.iter().find_map(|(t, l)| match l { Lg::Out(n, id) if *n == (if side == 0 { k + 1 } else { 0 }) && matches!(w(ep, *id), Some(W::Disc)) && *t >= td && (side == 0 || ep.wires[*id as usize].dst == o.addr) => Some(*t), _ => None });
            if let (Some(tf), false) = (first, wd.hard) {
                let gap = 13 * SEC; // 11 intervals of at most one long step each, with jitter
                for (s2, t2, to) in [(side, term, 0), (1 - side, peer_term, if side == 0 { ep.scfg.ep.active_timeout_ms } else { o.cfg.active_timeout_ms })] {
                    let bound = tf + (22 * SEC).max(to.saturating_mul(MS)) + gap;
                    let end = t2.map(|x| x.0).unwrap_or(u64::MAX);
                    if end > bound && ep.now > bound { return Err(format!("client{} ({}): the {} first requests the end of the connection at {}, the {} has not seen it by {}", k, o.addr, who, ms(tf), ["client", "server"][s2], ms(bound))); }
                }
            }
        }
    }
    Ok(())
}

// ---- C17 ----------------------------------------------------------------------------------

pub fn check_c17(ep: &Ep, cx: &mut Cx) -> CaseResult {
    let sc = &ep.scfg;
    let (mut tracked, mut active) = (0u64, 0u64);
    let bit = |a: SocketAddrV4| ep.addrs.iter().position(|x| *x == a).map_or(0, |i| 1u64 << i);
    let mut open: HashMap<SocketAddrV4, bool> = HashMap::new();
    let mut pend: HashSet<SocketAddrV4> = HashSet::new();
    let mut last_syn: HashMap<SocketAddrV4, u64> = HashMap::new();
    let mut ended: HashMap<SocketAddrV4, u64> = HashMap::new();
    let (mut full, mut max_t, mut max_a, mut at_limit) = (0u64, 0, 0, 0u64);
    let mut last_step = 0;
    let mut gap = 0u64;
    let mut seen: HashSet<(SocketAddrV4, u32)> = HashSet::new();
    walk(ep, 0, |it| {
        match it {
            Item::Track(t, tr, ac) => {
                let (n, a) = (tr.count_ones() as usize, ac.count_ones() as usize);
                if n > sc.total { return Err(format!("server tracks {} connections at {}, max_total_connections is {}", n, ms(t), sc.total)); }
                if a > sc.active { return Err(format!("server has {} active connections at {}, max_active_connections is {}", a, ms(t), sc.active)); }
                max_t = max_t.max(n);
                max_a = max_a.max(a);
                if n == sc.total || a == sc.active { at_limit += 1; }
                tracked = tr;
                active = ac;
                for (i, ad) in ep.addrs.iter().enumerate() {
                    let (is_t, is_a) = (tr >> i & 1 == 1, ac >> i & 1 == 1);
                    match open.get(ad) {
                        None if is_a => return Err(format!("server considers {} active at {}, but has not announced it (or announced its end)", ad, ms(t))),
                        Some(false) if !is_a => return Err(format!("server considers {} inactive at {}, without any event", ad, ms(t))),
                        _ => (),
                    }
                    if is_t && !open.contains_key(ad) {
                        // handshakes are given up after 22 s, closed connections forgotten after 20 s
                        let since = last_syn.get(ad).copied().unwrap_or(0).max(ended.get(ad).copied().unwrap_or(0));
                        if t > since + 22 * SEC + 12 * gap + MS { return Err(format!("server still tracks {} at {}, {} after its latest activity: capacity is not returned", ad, ms(t), ms(t - since))); }
                    }
                }
            }
            Item::Api(t, Api::Drop, a) => { open.remove(&a); pend.remove(&a); ended.insert(a, t); }
            Item::Api(_, Api::Disc | Api::DiscNow, a) => { if let Some(v) = open.get_mut(&a) { *v = true; } }
            Item::Step(s) => {
                gap = gap.max(s.t - last_step);
                last_step = s.t;
                // whatever was tracked when the step began, or was accepted in it
                let mut set_t = tracked;
                let mut set_a = active;
                for a in &pend { set_a |= tracked & bit(*a); }
                for o in &s.outs {
                    let x = &ep.wires[*o as usize];
                    if let Some(W::SynAck { nonce, .. }) = &x.w {
                        if seen.insert((x.dst, *nonce)) { set_t |= bit(x.dst); set_a |= bit(x.dst); }
                    }
                }
                let (room_t, room_a) = (set_t.count_ones() as usize, set_a.count_ones() as usize);
                for (a, _, y) in s.parsed(ep) {
                    if let W::Syn { nonce, .. } = y {
                        last_syn.insert(a, s.t);
                        let refused = s.outs.iter().any(|o| ep.wires[*o as usize].dst == a && matches!(w(ep, *o), Some(W::HsErr { nonce_ack, code: 2 }) if nonce_ack == nonce));
                        if refused {
                            full += 1;
                            if room_t < sc.total && room_a < sc.active { return Err(format!("server refuses {} with ServerFull at {} although it tracks at most {} of {} connections, {} of {} active or being established", a, ms(s.t), room_t, sc.total, room_a, sc.active)); }
                        }
                    }
                }
                for (k, a, _) in &s.evs {
                    match k {
                        K::Connect => { open.insert(*a, false); pend.remove(a); }
                        K::Receive => (),
                        K::Timeout | K::Disconnect => { open.remove(a); pend.remove(a); ended.insert(*a, s.t); }
                        _ => (),
                    }
                }
                for o in &s.outs {
                    if let Some(W::SynAck { .. }) = w(ep, *o) { pend.insert(ep.wires[*o as usize].dst); }
                }
            }
            _ => (),
        }
        Ok(())
    })?;
    cx.count("requests refused with ServerFull", full);
    if full > 0 { cx.nontrivial = true; }
    if at_limit > 0 { cx.label("limit reached"); }
    Ok(())
}

fn c17_chaos(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { addrs: 6, raws: *src.pick(&[0u64, 3]), disc: 3, drop: 2, kill: 1, reconnect: true, api: true, pause: true, coarse: true, limits: true, secs: (2, 60), work: 2000, tail: *src.pick(&[50u64, 0]), ..BASE };
    let mut wd = chaos::run(src, cx, &p)?;
    let r = check_c17(&wd.ep, cx);
    let r = chaos::finish(&wd, cx, r);
    wd.ep.teardown(0);
    r
}

// ---- C18 ----------------------------------------------------------------------------------

pub fn check_c18(ep: &Ep, cx: &mut Cx) -> CaseResult {
    let mut book: HashMap<SocketAddrV4, (u64, u64, u64)> = HashMap::new(); // in, out, bytes of anything but undersized requests
    let mut verified: HashSet<SocketAddrV4> = HashSet::new();
    let mut sent = 0u64;
    walk(ep, 0, |it| {
        let (t, outs) = match &it { Item::Step(s) => (s.t, s.outs.clone()), Item::Out(t, o) => (*t, vec![*o]), _ => return Ok(()) };
        if let Item::Step(s) = &it {
            for (id, _) in &s.ins {
                let x = &ep.wires[*id as usize];
                let b = book.entry(x.src).or_default();
                b.0 += x.data.len() as u64;
                let short = x.data.first() == Some(&0) && x.data.len() < wire::MAX_FRAME;
                if !short { b.2 += 1; }
            }
            for (k, a, _) in &s.evs { if *k == K::Connect { verified.insert(*a); } }
        }
        for o in outs {
            let x = &ep.wires[o as usize];
            if verified.contains(&x.dst) { continue; }
            let b = book.entry(x.dst).or_default();
            b.1 += x.data.len() as u64;
            sent += 1;
            if b.2 == 0 { return Err(format!("server answers an undersized connection request of {} at {}: {:?}", x.dst, ms(t), x.w)); }
            if b.1 >= b.0 { return Err(format!("server has sent {} bytes to {}, which has sent {} and not completed a handshake, by {}", b.1, x.dst, b.0, ms(t))); }
        }
        Ok(())
    })?;
    // undersized requests leave no trace
    walk(ep, 0, |it| {
        if let Item::Track(t, tr, _) = it {
            for (i, a) in ep.addrs.iter().enumerate() {
                if tr >> i & 1 == 1 && book.get(a).map_or(true, |b| b.2 == 0) { return Err(format!("server tracks {} at {}, which has sent nothing but undersized requests", a, ms(t))); }
            }
        }
        Ok(())
    })?;
    cx.count("datagrams to unverified addresses", sent);
    if sent >= 5 { cx.nontrivial = true; }
    Ok(())
}

fn c18_chaos(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { addrs: 2, raws: 6, forge: src.flip(), mismatch: true, limits: true, coarse: true, pause: true, secs: (2, 40), work: 1000, tail: *src.pick(&[25u64, 0, 25, 200]), ..BASE };
    let mut wd = chaos::run(src, cx, &p)?;
    let r = check_c18(&wd.ep, cx);
    let r = chaos::finish(&wd, cx, r);
    wd.ep.teardown(0);
    r
}
