//! Hundreds of raw clients at one server: what a dozen connections cannot reach (counters of the
//! number of connections, bookkeeping over long lists of connections which end at the same time).

use std::collections::HashMap;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};

use uflow::server::{self, Server};
use uflow::{EndpointConfig, SendMode};

use crate::chaos::syn;
use crate::engine::{mix, CaseResult, Cx, Prop, Rng, Src, Test};
use crate::ep::saddr;
use crate::hc::{MS, SEC};
use crate::wire::{self, Dg, W};
use crate::{alloc, call, sys};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", rule: "crowd: at least 50 connections were established", tests: vec![Test { name: "crowd", quick: 500, thorough: 20_000, f: |s, c| crowd(s, c, 8) }] },
        Prop { id: "C10", rule: "crowd: at least 50 connections were established", tests: vec![Test { name: "crowd", quick: 500, thorough: 20_000, f: |s, c| crowd(s, c, 10) }] },
        Prop { id: "C17", rule: "crowd: at least 50 connections were established, a limit was reached", tests: vec![Test { name: "crowd", quick: 600, thorough: 25_000, f: |s, c| crowd(s, c, 17) }] },
        Prop { id: "C18", rule: "crowd: at least 50 connection requests arrived", tests: vec![Test { name: "crowd", quick: 500, thorough: 20_000, f: |s, c| crowd(s, c, 18) }] },
        Prop { id: "C19", rule: "crowd: at least 50 connections were established", tests: vec![Test { name: "crowd", quick: 400, thorough: 20_000, f: |s, c| crowd(s, c, 19) }] },
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// the server owes this address nothing
    Idle,
    /// the server answered a request with this nonce
    Pending(u32),
    Active,
    /// the application asked for the end, the server sends requests to disconnect
    Closing,
    /// the application has seen the end
    Closed,
}

struct Peer {
    at: SocketAddrV4,
    st: St,
    /// own nonce of the latest request
    nonce: u32,
    sent: u32,
    got: u32,
    /// when the server has last received a frame of the connection, or entered the state
    since: u64,
    /// requests answered since it was last idle
    ins: u64,
    outs: u64,
    verified: bool,
    /// the application asked for the end at a time
    disc: bool,
}

fn ms(t: u64) -> String {
    format!("{:.3} ms", t as f64 / 1e6)
}

fn addr(i: usize) -> SocketAddrV4 {
    // hosts with several ports, ports at many hosts
    let (h, p) = if i % 2 == 0 { (i / 2 % 251, 4000 + (i / 2 / 251) as u16) } else { (i / 2 / 256, 5000 + (i / 2 % 256) as u16) };
    SocketAddrV4::new(Ipv4Addr::new(10, 2, (i % 2) as u8, h as u8), p)
}

fn crowd(src: &mut Src, cx: &mut Cx, what: u32) -> CaseResult {
    cx.heap_contract = what == 19;
    let seed = cx.seed;
    let mut rng = Rng(mix(seed ^ src.below(1 << 20)));
    // mode 0: many which are only being established, 1: many established
    let many_pending = src.below(4) == 0;
    let top = if many_pending { 1500 } else { 360 };
    let limit = |src: &mut Src| match src.below(5) { 0 => src.urange(250, 262).min(top), 1 => src.log(1, top as u64) as usize, 2 => src.urange(1, 20), _ => src.urange(60, top) };
    let (a, b) = (limit(src), limit(src));
    let (active, total) = match src.below(4) { 0 => (a, a), 1 => (a.min(b), a.max(b)), 2 => (a, (2 * a).min(4096)), _ => (a.max(b), a.min(b)) };
    let errors = src.flip();
    let timeout = *src.pick(&[20_000u64, 5000, 1000, 60_000, 100]);
    let ep = EndpointConfig { max_send_rate: 100_000, max_receive_rate: 100_000, max_packet_size: 1000, max_receive_alloc: 4000, keepalive: src.flip(), keepalive_interval_ms: 5000, active_timeout_ms: timeout };
    let ccfg = EndpointConfig { ..ep.clone() };

    sys::set_clock(sys::T0_NS);
    sys::net_on();
    let sa = saddr();
    sys::set_next_host(*sa.ip());
    let cfg = server::Config { max_total_connections: total, max_active_connections: active, enable_handshake_errors: errors, endpoint_config: ep };
    let mut srv = call!("Server::bind", Server::bind(SocketAddr::V4(sa), cfg)).expect("bind");

    let n = (total.max(active) * 2 + 20).min(2 * top);
    let mut ps: Vec<Peer> = (0..n).map(|i| Peer { at: addr(i), st: St::Idle, nonce: 0, sent: 0, got: 0, since: 0, ins: 0, outs: 0, verified: false, disc: false }).collect();
    let index: HashMap<SocketAddrV4, usize> = ps.iter().enumerate().map(|(i, p)| (p.at, i)).collect();
    cx.log(|| format!("active {} total {} errors {} timeout {} ms, {} addresses", active, total, errors, timeout, n));

    let mut now = 0u64;
    let mut gap = 0u64;
    let mut idle = 0u64;
    let (mut established, mut peak, mut peak_t, mut refused, mut syns) = (0u64, 0usize, 0usize, 0u64, 0u64);
    let steps = src.urange(4, 24);
    let mut res: CaseResult = Ok(());
    macro_rules! bad { ($p:expr, $($x:tt)*) => { if res.is_ok() && what == $p { res = Err(format!($($x)*)); } } }
    // the last phases: silence until nothing can be left, then everybody comes again
    let calm = steps;
    let last = steps + 3 + 70;
    let mut k = 0;
    while k <= last && res.is_ok() {
        let mut now_in: Vec<(usize, W)> = Vec::new();
        let dt = if k > calm && k < last - 2 { (timeout / 8).max(3000) * MS } else if k >= last - 2 { 20 * MS } else {
            match src.below(10) { 0 => 0, 1..=5 => src.range(1, 60) * MS, 6 => 2000 * MS, 7 => src.range(1, 5000) * MS, 8 => timeout * MS, _ => src.range(5000, 25_000) * MS }
        };
        now += dt;
        gap = gap.max(dt);
        sys::set_clock(sys::T0_NS + now);
        // what happens before this step; established connections cost about a megabyte each
        let mut alive = ps.iter().filter(|p| matches!(p.st, St::Active)).count();
        let nops = if k == calm || (k > calm && k < last - 2) { 0 } else if k >= last - 2 { 1 } else { src.urange(1, 4) };
        for _ in 0..nops {
            let op = if k == last - 2 { 0 } else if k >= last - 1 { 1 } else { src.weighted(&[6, 6, 2, 2, 2, 1, 3, 2, 1, 1]) };
            let part = if k >= last - 2 { 100 } else { *src.pick(&[100u64, 100, 50, 10, 90, 3]) };
            let max = if k == last - 2 { active.min(total) } else if op == 0 { *src.pick(&[n, active, total, active + 1, total + 1, active / 2 + 1]) } else { n };
            let start = if op == 0 && k < last - 2 && src.flip() { src.urange(0, n - 1) } else { 0 };
            cx.log(|| format!("{}: op {} for {} % of at most {} from {}", ms(now), op, part, max, start));
            let mut done = 0;
            for j in 0..n {
                let i = (start + j) % n;
                if done >= max { break; }
                if rng.below(100) >= part { continue; }
                let p = &mut ps[i];
                let fr = match (op, p.st) {
                    (0, St::Idle) => { p.sent = 0; p.got = 0; Some(syn(rng.next() as u32, &ccfg)) }
                    (1, St::Pending(s)) if alive < 360 => { alive += 1; Some(W::HsAck { nonce_ack: s }) }
                    (2, St::Pending(s)) => Some(W::HsAck { nonce_ack: s ^ 1 << rng.below(32) }),
                    (3, St::Active | St::Closing) => Some(W::Disc),
                    (4, St::Closing) => Some(W::DiscAck),
                    (5, St::Active) => { call!("Server::drop", srv.drop(&SocketAddr::V4(p.at))); p.st = St::Idle; p.since = now; p.disc = false; done += 1; None }
                    (6, St::Active) => {
                        let seq = p.nonce.wrapping_add(p.sent);
                        let data = [&(i as u32).to_be_bytes()[..], &p.sent.to_be_bytes()[..]].concat();
                        p.sent += 1;
                        Some(W::Data { id: seq, nonce: rng.below(2) == 0, dgs: vec![Dg { seq: seq & 0xFFFFF, chan: 3, wlead: 0, clead: 0, frag: 0, last: 0, data }] })
                    }
                    (7, St::Active) => Some(W::Sync { frame: None, packet: None }),
                    (8, St::Active) if !p.disc => {
                        if let Some(rc) = srv.client(&SocketAddr::V4(p.at)) { call!("RemoteClient::disconnect_now", rc.borrow_mut().disconnect_now()); }
                        p.disc = true;
                        done += 1;
                        None
                    }
                    (9, St::Active) => {
                        if let Some(rc) = srv.client(&SocketAddr::V4(p.at)) { call!("RemoteClient::send", rc.borrow_mut().send((i as u32).to_be_bytes().to_vec().into(), 0, SendMode::Unreliable)); }
                        done += 1;
                        None
                    }
                    _ => None,
                };
                if let Some(w) = fr {
                    let b = wire::write(&w);
                    p.ins += b.len() as u64;
                    sys::deliver(p.at, sa, &b);
                    now_in.push((i, w));
                    done += 1;
                }
            }
        }
        // the step, and what the application sees
        let before_t = ps.iter().filter(|p| call!("Server::client", srv.client(&SocketAddr::V4(p.at)).is_some())).count();
        let before_a = ps.iter().filter(|p| matches!(p.st, St::Active | St::Pending(_))).count();
        let evs: Vec<server::Event> = { let it = call!("Server::step", srv.step()); it.collect() };
        let outs = sys::take_out();
        // frames of the connections which arrived
        let mut acked: Vec<bool> = vec![false; n];
        let mut discs: Vec<bool> = vec![false; n];
        let mut disc_acks: Vec<bool> = vec![false; n];
        for (i, w) in &now_in {
            match w {
                W::HsAck { nonce_ack } => { if ps[*i].st == St::Pending(*nonce_ack) { acked[*i] = true; } }
                W::Disc => discs[*i] = true,
                W::DiscAck => disc_acks[*i] = true,
                W::Syn { .. } => syns += 1,
                _ => { if ps[*i].st == St::Active { ps[*i].since = now; } }
            }
        }
        for e in &evs {
            let a = match e { server::Event::Connect(a) | server::Event::Disconnect(a) | server::Event::Receive(a, _) | server::Event::Error(a, _) => sys::v4(*a) };
            let i = match index.get(&a) { Some(i) => *i, None => { bad!(8, "the server reports {:?}, but nobody has that address", e); continue } };
            let p = &mut ps[i];
            match e {
                server::Event::Connect(_) => {
                    if !acked[i] { bad!(8, "{} at {}: Connect, but no handshake was completed in this step (state {:?})", a, ms(now), p.st); }
                    p.st = St::Active;
                    p.since = now;
                    p.disc = false;
                    p.verified = true;
                    acked[i] = false;
                    established += 1;
                }
                server::Event::Receive(_, d) => {
                    let want = [&(i as u32).to_be_bytes()[..], &p.got.to_be_bytes()[..]].concat();
                    if p.st != St::Active { bad!(8, "{} at {}: Receive in state {:?}", a, ms(now), p.st); }
                    if d[..] != want[..] { bad!(8, "{} at {}: received {:?}, sent was {:?}", a, ms(now), d, want); }
                    p.got += 1;
                }
                server::Event::Disconnect(_) => {
                    if !matches!(p.st, St::Active | St::Closing) { bad!(8, "{} at {}: Disconnect in state {:?}", a, ms(now), p.st); }
                    if !(discs[i] || disc_acks[i]) { bad!(8, "{} at {}: Disconnect, which its peer has not asked for or confirmed", a, ms(now)); }
                    p.st = if p.st == St::Closing && !discs[i] { St::Idle } else { St::Closed };
                    p.since = now;
                }
                server::Event::Error(_, server::ErrorType::Timeout) => {
                    match p.st {
                        St::Active => { if now < p.since + timeout * MS { bad!(10, "{} at {}: timed out {} after it was heard, the timeout is {} ms", a, ms(now), ms(now - p.since), timeout); } }
                        St::Closing => { if now < p.since + 22 * SEC { bad!(10, "{} at {}: the attempt to disconnect ends after {}", a, ms(now), ms(now - p.since)); } }
                        St::Pending(_) if errors => { if now < p.since + 22 * SEC { bad!(10, "{} at {}: the handshake is given up after {}", a, ms(now), ms(now - p.since)); } }
                        _ => bad!(8, "{} at {}: Timeout in state {:?}", a, ms(now), p.st),
                    }
                    p.st = St::Idle;
                    p.since = now;
                }
                server::Event::Error(_, server::ErrorType::ServerFull) => {
                    if !errors { bad!(8, "{} at {}: {:?} although handshake errors are disabled", a, ms(now), e); }
                }
                _ => bad!(8, "{} at {}: {:?}", a, ms(now), e),
            }
            let c = ps.iter().filter(|p| matches!(p.st, St::Active)).count();
            peak = peak.max(c);
            if c > active { bad!(17, "{} connections are established at {}, max_active_connections is {}", c, ms(now), active); }
        }
        // answers to requests, in order
        let mut answers: HashMap<SocketAddrV4, Vec<W>> = HashMap::new();
        let mut discs_out: Vec<bool> = vec![false; n];
        for o in &outs {
            if let Some(&i) = index.get(&o.dst) {
                ps[i].outs += o.data.len() as u64;
                if !ps[i].verified && ps[i].outs >= ps[i].ins { bad!(18, "{} at {}: {} bytes sent to it, {} received from it, and it has not completed a handshake", o.dst, ms(now), ps[i].outs, ps[i].ins); }
            } else {
                bad!(18, "a datagram is sent to {}, which has never sent any", o.dst);
            }
            match wire::read(&o.data) {
                Some(W::Disc) => { if let Some(&i) = index.get(&o.dst) { discs_out[i] = true; } }
                Some(w) => answers.entry(o.dst).or_default().push(w),
                None => (),
            }
        }
        let (mut occ_t, mut occ_a) = (before_t, before_a);
        for (i, w) in &now_in {
            let (i, m) = match w { W::Syn { nonce, .. } => (*i, *nonce), _ => continue };
            let at = ps[i].at;
            let a = answers.get(&at).and_then(|v| v.iter().find(|w| matches!(w, W::SynAck { nonce_ack, .. } | W::HsErr { nonce_ack, .. } if *nonce_ack == m)));
            match a {
                Some(W::SynAck { nonce, .. }) => { ps[i].st = St::Pending(*nonce); ps[i].nonce = m; ps[i].since = now; occ_t += 1; occ_a += 1; }
                Some(W::HsErr { code: 2, .. }) => {
                    refused += 1;
                    if occ_t < total && occ_a < active { bad!(17, "{} is refused at {} although at most {} of {} connections are tracked, {} of {} established or being established", at, ms(now), occ_t, total, occ_a, active); }
                }
                // still tracked when the request arrived
                _ if k < last - 2 => (),
                x => bad!(17, "{} at {}: nothing is tracked, but its request is answered with {:?}", at, ms(now), x),
            }
        }
        // what the server keeps
        let (mut tr, mut ac) = (0, 0);
        for (i, p) in ps.iter_mut().enumerate() {
            let (is_t, is_a) = match call!("Server::client", srv.client(&SocketAddr::V4(p.at)).map(|r| r.borrow().is_active())) { Some(x) => (true, x), None => (false, false) };
            tr += is_t as usize;
            ac += is_a as usize;
            match p.st {
                St::Active => {
                    if discs_out[i] && p.disc { p.st = St::Closing; p.since = now; }
                    else {
                        if !is_a { bad!(17, "{} at {}: the connection is no longer active, but its end was not announced", p.at, ms(now)); }
                        if now >= p.since + timeout * MS { bad!(10, "{} at {}: not timed out, although it was last heard {} ago and the timeout is {} ms", p.at, ms(now), ms(now - p.since), timeout); }
                        if p.got != p.sent { bad!(8, "{} at {}: {} packets have arrived, {} were delivered", p.at, ms(now), p.sent, p.got); }
                    }
                }
                St::Pending(_) => {
                    if acked[i] { bad!(17, "{} at {}: has completed its handshake, which is not announced", p.at, ms(now)); }
                    if !is_t { if now < p.since + 22 * SEC { bad!(10, "{} at {}: its handshake is given up after {}", p.at, ms(now), ms(now - p.since)); } p.st = St::Idle; }
                    else if now > p.since + 22 * SEC + 11 * gap { bad!(17, "{} at {}: still tracked {} after its request", p.at, ms(now), ms(now - p.since)); }
                }
                St::Closing => { if now > p.since + 22 * SEC + 11 * gap { bad!(10, "{} at {}: the attempt to disconnect has not ended after {}", p.at, ms(now), ms(now - p.since)); } }
                St::Closed => {
                    if !is_t { p.st = St::Idle; }
                    else if now > p.since + 22 * SEC + gap { bad!(17, "{} at {}: still tracked {} after its end", p.at, ms(now), ms(now - p.since)); }
                }
                St::Idle => { if is_t { bad!(17, "{} at {}: tracked, although it has no connection", p.at, ms(now)); } }
            }
        }
        peak_t = peak_t.max(tr);
        if tr > total { bad!(17, "{} connections are tracked at {}, max_total_connections is {}", tr, ms(now), total); }
        if ac > active { bad!(17, "{} connections are active at {}, max_active_connections is {}", ac, ms(now), active); }
        if k > calm && k < last - 2 && tr == 0 {
            // the server may remember for a while what it has forgotten (timers which are still to expire);
            // then its tables are left, and nothing of the connections
            idle += dt;
            if what != 19 { k = last - 2; continue; }
            if idle > 60 * SEC {
                if alloc::live_blocks() > 16 { res = Err(format!("memory not returned: {} blocks ({} bytes) are left {} after the end of the last of {} connections", alloc::live_blocks(), alloc::live(), ms(idle), established)); }
                // the tables may keep the capacity for as many as were there at once (200 bytes each, as it is)
                let room = 20_000 + 100 * n as i64 + 600 * peak_t as i64;
                if alloc::live() > room && res.is_ok() { res = Err(format!("memory not returned: {} bytes in {} blocks are left {} after the end of the last of {} connections, of which {} were tracked at once", alloc::live(), alloc::live_blocks(), ms(idle), established, peak_t)); }
                cx.label("crowd: what is left of ended connections was counted");
                k = last - 2;
                continue;
            }
        } else { idle = 0; }
        k += 1;
    }
    cx.count("connections established", established);
    cx.count("requests refused", refused);
    cx.count("requests", syns);
    if peak == active { cx.label("crowd: active limit reached"); }
    if peak_t == total { cx.label("crowd: total limit reached"); }
    if peak > 255 { cx.label("crowd: more than 255 established"); }
    if peak_t > 255 { cx.label("crowd: more than 255 tracked"); }
    cx.nontrivial = match what { 18 => syns >= 50, 17 => established >= 50 && (peak == active || peak_t == total), _ => established >= 50 };
    call!("drop Server", drop(srv));
    sys::net_off();
    if what == 19 { res?; return crate::props::hostile::check_all_returned("server with a crowd of clients"); }
    res
}
