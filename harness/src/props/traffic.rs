//! The packet-level properties over a real server and real clients: C01, C02, C03, C05, C06, C12,
//! C13, C19 and C20 (and C07's negotiated limits), by the oracles of the connection level.

use std::collections::HashSet;

use uflow::{EndpointConfig, SendMode};

use crate::alloc;
use crate::chaos::{self, gen_job, sends_client, sends_server, Job, Prof, World, BASE};
use crate::engine::{CaseResult, Cx, Prop, Src, Test};
use crate::ep::*;
use crate::hc::{map_emissions, Link, MS, SEC};
use crate::props::delivery::{check_c12, check_c20, check_global_order};
use crate::props::hostile::check_all_returned;
use crate::props::liveness::{check_ceiling, check_outstanding};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "(endpoints) at least 5 packets were received over connections with faults, or which were ended by the application", tests: vec![Test { name: "endpoints", quick: 20_000, thorough: 1_000_000, f: c01_ep }] },
        Prop { id: "C02", rule: "(endpoints) Reliable packets were submitted and datagrams lost or altered", tests: vec![Test { name: "endpoints", quick: 5_000, thorough: 600_000, f: c02_ep }] },
        Prop { id: "C05", rule: "(endpoints) a connection carried at least 5 packets of two channels and two modes", tests: vec![Test { name: "endpoints", quick: 5_000, thorough: 600_000, f: c05_ep }] },
        Prop { id: "C06", rule: "(endpoints) the sender was held back by the advertised limit at least once", tests: vec![Test { name: "endpoints", quick: 5_000, thorough: 600_000, f: c06_ep }] },
        Prop { id: "C07", rule: "(limits) the negotiated rate or memory limit was binding for some connection", tests: vec![Test { name: "limits", quick: 15_000, thorough: 600_000, f: c07_limits }] },
        Prop { id: "C11", rule: "(endpoints) datagrams were lost in the short disturbances of a connection", tests: vec![Test { name: "endpoints", quick: 6_000, thorough: 400_000, f: c11_ep }] },
        Prop { id: "C12", rule: "(endpoints) as for histories of connection pairs", tests: vec![Test { name: "endpoints", quick: 15_000, thorough: 600_000, f: c12_ep }] },
        Prop { id: "C13", rule: "(endpoints) as for connection pairs", tests: vec![Test { name: "endpoints", quick: 15_000, thorough: 600_000, f: c13_ep }] },
        Prop { id: "C19", rule: "(endpoints) at least one connection was established and everything was dropped at an arbitrary moment", tests: vec![Test { name: "endpoints", quick: 20_000, thorough: 1_000_000, f: c19_ep }] },
        Prop { id: "C20", rule: "(endpoints) as for connection pairs", tests: vec![Test { name: "endpoints", quick: 5_000, thorough: 600_000, f: c20_ep }] },
    ]
}

fn done(mut wd: World, cx: &mut Cx, r: CaseResult, order: u64) -> CaseResult {
    let r = chaos::finish(&wd, cx, r);
    wd.ep.teardown(order);
    r
}

/// Whether the connection of object `k` lives at both ends, undisturbed by the applications.
fn whole(ep: &Ep, k: usize) -> bool {
    let o = &ep.obj[k];
    o.connected.is_some() && o.srv_connected.is_some() && o.terminal.is_none() && o.srv_terminal.is_none() && o.disc.is_none() && o.srv_disc.is_none() && o.srv_dropped.is_none() && o.killed.is_none()
}

impl Ep {
    /// No connection has anything to send.
    pub fn quiet(&mut self) -> bool {
        for k in 0..self.obj.len() {
            let o = &self.obj[k];
            if o.terminal.is_some() { continue; }
            if let Some(c) = &o.client {
                if o.disc.is_none() && crate::call!("Client::send_buffer_size", c.send_buffer_size()) > 0 { return false; }
            }
        }
        let list: Vec<_> = self.conns.keys().cloned().collect();
        for a in list {
            if let Some(rc) = self.remote(a) {
                if crate::call!("RemoteClient::send_buffer_size", rc.borrow().send_buffer_size()) > 0 { return false; }
            }
        }
        // packets of zero bytes do not show in the sizes
        (0..self.obj.len()).all(|k| {
            let empty = |s: &Vec<crate::hc::Pkt>| s.iter().any(|p| p.data.is_empty());
            !whole(self, k) || !self.obj[k].tr.sent.iter().any(empty) || (0..2).all(|from| self.obj[k].tr.check_delivery(from, true, true).is_ok())
        })
    }
}

/// The faults end; runs until nothing is left to send.
pub fn drain(wd: &mut World, src: &mut Src, cx: &mut Cx, secs: u64) -> Result<bool, String> {
    for l in wd.ep.link.values_mut() { for d in l.iter_mut() { *d = Link::ideal(d.lat); } }
    wd.ep.srv_cadence = wd.ep.srv_cadence.max(50 * MS);
    for o in wd.ep.obj.iter_mut() { o.cadence = o.cadence.max(50 * MS); }
    let end = wd.ep.now + secs * SEC;
    let mut calm = 0;
    // packets of zero bytes do not show in the sizes: the time in which one gets through at any rate
    let empty = wd.ep.obj.iter().any(|o| o.tr.sent.iter().any(|v| v.iter().any(|p| p.data.is_empty())));
    let need = if empty { 70 * SEC / wd.ep.srv_cadence } else { 3 * SEC / wd.ep.srv_cadence + 4 };
    wd.ep.run(end, 0, src, cx, |ep, node, _, _| {
        if node == 0 { calm = if ep.quiet() { calm + 1 } else { 0 }; }
        Ok(calm < need)
    })?;
    Ok(calm >= need)
}

fn named(ep: &Ep, k: usize, e: String) -> String {
    format!("client{} ({}), A the client: {}", k, ep.obj[k].addr, e)
}

fn each(ep: &Ep, mut f: impl FnMut(usize, usize) -> CaseResult) -> CaseResult {
    for k in 0..ep.obj.len() {
        if ep.obj[k].connected.is_none() { continue; }
        for from in 0..2 {
            if from == 1 && ep.obj[k].srv_connected.is_none() { continue; }
            f(k, from).map_err(|e| named(ep, k, e))?;
        }
    }
    Ok(())
}

fn traffic(src: &mut Src) -> Prof {
    Prof { addrs: 2, timeouts: false, keep: true, secs: (1, 15), work: if src.below(12) == 11 { 400_000 } else { *src.pick(&[20_000usize, 60_000, 5000]) }, ..BASE }
}

fn c01_ep(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { disc: src.below(3), drop: src.below(2), kill: src.below(2), api: true, pause: true, timeouts: src.below(4) == 1, tail: *src.pick(&[0u64, 30]), ..traffic(src) };
    let wd = chaos::run(src, cx, &p)?;
    let r = each(&wd.ep, |k, from| wd.ep.obj[k].tr.check_delivery(from, false, false));
    let n: usize = wd.ep.obj.iter().map(|o| o.tr.got[0].len() + o.tr.got[1].len()).sum();
    cx.nontrivial = n >= 5 && (wd.faulty || wd.ep.obj.iter().any(|o| o.terminal.is_some() || o.srv_terminal.is_some()));
    done(wd, cx, r, 0)
}

fn c02_ep(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { api: true, pause: src.below(4) == 1, ..traffic(src) };
    let mut wd = chaos::run(src, cx, &p)?;
    let quiet = drain(&mut wd, src, cx, 4000)?;
    let ep = &wd.ep;
    let r = each(ep, |k, from| ep.obj[k].tr.check_delivery(from, true, whole(ep, k)));
    let r = r.and_then(|_| if quiet { Ok(()) } else { Err("data still outstanding after a long fault-free phase".into()) });
    cx.nontrivial = ep.lost + ep.altered > 0 && ep.obj.iter().any(|o| o.tr.sent.iter().any(|v| v.iter().any(|p| p.mode == SendMode::Reliable)));
    done(wd, cx, r, 0)
}

fn c05_ep(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { faults: false, api: true, coarse: src.flip(), ..traffic(src) };
    let mut wd = chaos::run(src, cx, &p)?;
    let quiet = drain(&mut wd, src, cx, 3000)?;
    let ep = &wd.ep;
    let r = each(ep, |k, from| {
        if !whole(ep, k) { return Err("the connection ended over an ideal network".into()); }
        let s = &ep.obj[k].tr;
        let tx = map_emissions(s, from)?;
        let em: HashSet<usize> = tx.iter().map(|t| t.pkt).collect();
        let got: Vec<_> = s.got[1 - from].iter().map(|g| g.data.clone()).collect();
        check_global_order(&s.sent[from], &got, Some(&em))
    });
    let r = r.and_then(|_| if quiet { Ok(()) } else { Err("data still outstanding after a long fault-free phase".into()) });
    for o in &ep.obj {
        for v in &o.tr.sent {
            let modes: HashSet<u8> = v.iter().map(|p| p.mode as u8).collect();
            let chans: HashSet<u8> = v.iter().map(|p| p.chan).collect();
            if v.len() >= 5 && modes.len() >= 2 && chans.len() >= 2 { cx.nontrivial = true; }
        }
    }
    done(wd, cx, r, 0)
}

fn c06_ep(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let faults = src.flip();
    let p = Prof { faults, api: true, work: 100_000, ..traffic(src) };
    let mut wd = chaos::run(src, cx, &p)?;
    let quiet = faults || drain(&mut wd, src, cx, 3000)?;
    let ep = &wd.ep;
    let r = each(ep, |k, from| {
        let s = &ep.obj[k].tr;
        check_outstanding(s, from, cx)?;
        if faults { return Ok(()); }
        let tx = map_emissions(s, from)?;
        let em: HashSet<usize> = tx.iter().map(|t| t.pkt).collect();
        let got: Vec<_> = s.got[1 - from].iter().map(|g| g.data.clone()).collect();
        check_global_order(&s.sent[from], &got, Some(&em)).map_err(|e| format!("packet discarded between two uflow endpoints although nothing was lost in transit: {}", e))
    });
    let r = r.and_then(|_| if quiet { Ok(()) } else { Err("data still outstanding after a long fault-free phase".into()) });
    done(wd, cx, r, 0)
}

fn c07_limits(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { faults: src.below(4) == 1, api: true, reconnect: true, disc: 1, work: 60_000, ..traffic(src) };
    let wd = chaos::run(src, cx, &p)?;
    let ep = &wd.ep;
    let r = each(ep, |k, from| check_outstanding(&ep.obj[k].tr, from, cx).and_then(|_| check_ceiling(&ep.obj[k].tr, from, cx)));
    done(wd, cx, r, 0)
}

/// Idle periods and bursts; each burst may meet a disturbance of at most a few seconds, far shorter
/// than the timeouts, so that the connection must survive and deliver everything soon.
fn c11_ep(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let cfg = EndpointConfig { max_send_rate: 2_000_000, max_receive_rate: 2_000_000, max_packet_size: 100_000, max_receive_alloc: 1_000_000, keepalive: true, keepalive_interval_ms: 5000, active_timeout_ms: 20_000 };
    let mut ep = Ep::new(SrvCfg { total: 10, active: 10, errors: true, ep: cfg.clone() }, cx.seed);
    ep.set_age(crate::hc::gen_age(src));
    let cads = [20u64, 50, 10, 100, 200];
    ep.srv_cadence = *src.pick(&cads) * MS;
    let a = addr_of(0);
    ep.know(a);
    let mut lat = *src.pick(&[10u64, 0, 1, 50, 100, 250, 300]) * MS;
    ep.link.insert(a, [Link::ideal(lat), Link::ideal(lat)]);
    let k = ep.connect(a, cfg, src);
    ep.obj[k].cadence = *src.pick(&cads) * MS;
    let mut worst = 0;
    let phases = 1 + src.below(4);
    let mut wait = 3 * SEC;
    let mut r = Ok(());
    for n in 0..phases {
        // nothing but keepalives
        let idle = wait + match src.below(4) { 0 => 0, 1 => src.below(3000) * MS, 2 => src.log(1, 60) * SEC, _ => src.log(1, 600) * SEC };
        wait = 0;
        let slow = (ep.srv_cadence, ep.obj[k].cadence);
        if idle > 20 * SEC { ep.srv_cadence = 200 * MS; ep.obj[k].cadence = 200 * MS; }
        let end = ep.now + idle;
        ep.run(end, 0, src, cx, |_, _, _, _| Ok(true))?;
        (ep.srv_cadence, ep.obj[k].cadence) = slow;
        // the burst and its disturbance
        let dark = src.log(1, 4000) * MS;
        let t = ep.now;
        let kind = src.below(5);
        for d in 0..2 {
            let l = &mut ep.link.get_mut(&a).unwrap()[d];
            l.lat = lat;
            match kind {
                0 => (),
                1 => l.black.push((t, t + dark)),
                2 => if src.flip() { let s = t + src.below(1000) * MS; l.black.push((s, s + dark)); },
                3 => { l.loss = *src.pick(&[100u64, 300, 500]); }
                _ => { l.fifo = false; l.loss = *src.pick(&[0u64, 100]); l.delay = 200; l.delay_max = *src.pick(&[20u64, 200, 1000]) * MS; }
            }
        }
        let total = [src.log(1, 60_000) as usize, if src.below(3) == 0 { src.log(1, 60_000) as usize } else { 0 }];
        let spread = src.flip();
        let mut jobs: Vec<Job> = total.iter().map(|b| { let mut j = gen_job(src, *b, true); j.chans[0] = 5; if !spread { j.burst = 400; j.burst_p = 1024; } j }).collect();
        let (jc, js) = jobs.split_at_mut(1);
        let end = t + dark + src.below(2000) * MS;
        ep.run(end, 0, src, cx, |ep, node, src, _| {
            if node == 0 { sends_server(ep, a, &mut js[0], src); } else { sends_client(ep, k, &mut jc[0], src); }
            Ok(true)
        })?;
        if src.below(4) == 1 { lat = *src.pick(&[10u64, 0, 1, 50, 100, 250, 300]) * MS; }
        for d in ep.link.get_mut(&a).unwrap().iter_mut() { *d = Link { last_arrival: d.last_arrival, ..Link::ideal(lat) }; }
        let t = ep.now;
        let bytes: usize = (0..2).map(|i| ep.obj[k].tr.sent[i].iter().map(|p| p.data.len()).sum::<usize>()).sum();
        let mut calm = 0;
        ep.run(t + C11_BOUND, 0, src, cx, |ep, node, _, _| {
            if node == 0 { calm = if ep.quiet() { calm + 1 } else { 0 }; }
            Ok(calm < 2 && whole(ep, k))
        })?;
        if !whole(&ep, k) { r = Err(format!("phase {}: the connection died although no disturbance lasted for more than 4 s", n)); break; }
        if calm < 2 { r = Err(format!("phase {}: {} bytes are not through {} s after the network became ideal", n, bytes, C11_BOUND / SEC)); break; }
        worst = worst.max((ep.now - t) / SEC);
    }
    let r = r.and_then(|_| each(&ep, |k, from| ep.obj[k].tr.check_delivery(from, true, true)));
    crate::props::liveness::stat(cx, &EP_WORST, worst, "endpoint bursts");
    cx.nontrivial = ep.lost > 0;
    done(World { ep, p: BASE, traffic_end: 0, faulty: false, hard: false }, cx, r, 0)
}

const C11_BOUND: u64 = 400 * SEC;
static EP_WORST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn c12_ep(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { api: true, disc: 1, pause: src.below(4) == 1, coarse: src.flip(), tail: *src.pick(&[5u64, 0]), ..traffic(src) };
    let wd = chaos::run(src, cx, &p)?;
    let r = each(&wd.ep, |k, from| check_c12(&wd.ep.obj[k].tr, from, cx));
    done(wd, cx, r, 0)
}

fn c13_ep(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { faults: src.below(4) == 1, api: true, pause: src.flip(), coarse: src.flip(), work: 200_000, ..traffic(src) };
    let wd = chaos::run(src, cx, &p)?;
    let r = each(&wd.ep, |k, from| check_ceiling(&wd.ep.obj[k].tr, from, cx));
    done(wd, cx, r, 0)
}

fn c19_ep(src: &mut Src, cx: &mut Cx) -> CaseResult {
    cx.heap_contract = true;
    let p = Prof { disc: 2, drop: 2, kill: 1, reconnect: true, api: true, pause: true, raws: *src.pick(&[0u64, 2]), forge: src.below(4) == 1, limits: src.flip(), mismatch: src.below(4) == 1, timeouts: src.flip(), tail: *src.pick(&[0u64, 0, 50]), ..traffic(src) };
    let mut wd = chaos::run(src, cx, &p)?;
    cx.nontrivial = wd.ep.obj.iter().any(|o| o.connected.is_some());
    let order = src.below(4);
    // sometimes every connection is ended first: only the empty server may be left
    if order >= 2 {
        let ep = &mut wd.ep;
        ep.handles.clear();
        for k in 0..ep.obj.len() { ep.kill_c(k); }
        let list = ep.addrs.clone();
        match order {
            2 => for a in list { ep.drop_s(a); },
            _ => for a in list { ep.disc_s(a, src.flip()); },
        }
        ep.srv_cadence = ep.srv_cadence.max(200 * MS);
        let raws = std::mem::take(&mut ep.raws);
        let end = ep.now + 70 * SEC;
        ep.run(end, 0, src, cx, |_, _, _, _| Ok(true))?;
        ep.raws = raws;
        let (t, _) = ep.count();
        if t > 0 { return Err(format!("server still tracks {} connections 70 s after their end", t)); }
        // the tables of the server may keep their capacity
        let room = 20_000 + 200 * ep.wires.len().min(300) as i64;
        if alloc::live() > room { return Err(format!("memory not returned: {} bytes in {} blocks are left 70 s after the end of every connection", alloc::live(), alloc::live_blocks())); }
        // (five blocks at the most, as it is: whatever is left of a connection grows with their number)
        if alloc::live_blocks() > 16 { return Err(format!("memory not returned: {} blocks ({} bytes) are left 70 s after the end of every connection", alloc::live_blocks(), alloc::live())); }
        cx.label("all connections ended before the server");
    }
    chaos::finish(&wd, cx, Ok(()))?;
    wd.ep.teardown(order);
    check_all_returned("server and its clients")
}

fn c20_ep(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Prof { sizes: true, api: true, disc: src.below(2), pause: src.below(4) == 1, coarse: src.flip(), ..traffic(src) };
    let mut wd = chaos::run(src, cx, &p)?;
    wd.ep.sizes = false;
    let quiet = drain(&mut wd, src, cx, 4000)?;
    let r = each(&wd.ep, |k, from| check_c20(&wd.ep.obj[k].tr, from, cx));
    let r = r.and_then(|_| if quiet { Ok(()) } else { Err("send_buffer_size() does not return to zero after a long fault-free phase".into()) });
    done(wd, cx, r, 0)
}
