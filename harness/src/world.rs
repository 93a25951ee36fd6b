//! Generated histories of a `HalfConnection` pair, shared by the delivery-related properties.

use uflow::SendMode;

use crate::engine::{CaseResult, Cx, Rng, Src, Tier};
use crate::hc::*;
use crate::wire;

#[derive(Clone)]
pub struct Profile {
    pub faults: bool,
    pub fair: bool,
    pub ts: bool,
    pub max_len: usize,
    pub budget: usize,
    pub sizes: bool,
    /// allow unusual orders of API calls, several flushes per step, missing flushes
    pub api: bool,
    pub small_rate: bool,
    pub dirs: u64,
    pub states: bool,
    /// forge acknowledgements (seed of the forger), for C15
    pub bogus: u64,
    /// small memory limits and a slow reader
    pub tight: bool,
}

pub const STD: Profile = Profile { faults: true, fair: true, ts: true, max_len: 40_000, budget: 60_000, sizes: false, api: true, small_rate: true, dirs: 3, states: false, bogus: 0, tight: false };

pub struct Work {
    pub chans: Vec<u8>,
    pub tiny: u8,
    pub w: [u64; 4],
    pub burst_p: u64,
    pub burst: u64,
    pub max_len: usize,
    pub style: u64,
    pub bytes: usize,
    pub pkts: usize,
    pub flush_p: u64,
}

pub fn gen_work(src: &mut Src, p: &Profile, alloc: usize) -> Work {
    let n = src.range(1, 5) as usize;
    let mut chans = Vec::new();
    for _ in 0..n {
        chans.push(match src.below(3) { 0 => src.below(4) as u8, 1 => src.below(64) as u8, _ => *src.pick(&[0u8, 15, 16, 31, 32, 47, 48, 63]) });
    }
    let tiny = chans[0];
    let w = match src.below(6) {
        0 => [1, 1, 1, 1],
        1 => [8, 1, 1, 1],
        2 => [1, 8, 2, 1],
        3 => [1, 1, 8, 1],
        4 => [2, 1, 1, 6],
        _ => [1, 0, 4, 0],
    };
    let w = if p.ts { w } else { [w[0], w[1], w[2], 0] };
    let style = src.below(5);
    Work {
        chans,
        tiny,
        w,
        burst_p: *src.pick(&[300u64, 100, 700, 1000]),
        burst: src.log(1, if style == 1 { 200 } else { 30 }),
        max_len: p.max_len.min(alloc),
        style,
        bytes: p.budget,
        pkts: 600,
        flush_p: *src.pick(&[1024u64, 1024, 512, 0]),
    }
}

/// Length of the next packet; lengths near fragment and encoding boundaries are likely.
pub fn gen_len(src: &mut Src, style: u64, max: usize) -> usize {
    let l = match style {
        1 => src.range(8, 40) as usize,
        _ => match src.below(8) {
            0 => src.range(8, 63) as usize,
            1 => *src.pick(&[8usize, 0, 1, 2, 7, 62, 63, 64, 65, 254, 255, 256, 257]),
            2 => src.range(64, 300) as usize,
            3 => {
                let n = if max > 64 * wire::MAX_FRAG && src.below(6) == 5 { *src.pick(&[63u64, 64, 65, 66, 127, 128, 129]) } else if max > 64 * wire::MAX_FRAG && src.below(3) == 2 { src.range(30, 70) } else { src.range(1, 4) };
                (n as usize * wire::MAX_FRAG + src.below(5) as usize).saturating_sub(2)
            }
            4 => src.log(8, (max as u64).max(8)) as usize,
            5 => src.range(8, 3000) as usize,
            6 => src.log(8, 1500) as usize,
            _ => src.range(8, 200) as usize,
        },
    };
    l.min(max)
}

pub fn do_sends(sim: &mut Sim, side: usize, w: &mut Work, src: &mut Src) {
    if w.pkts == 0 || w.bytes == 0 || !src.chance(w.burst_p) {
        return;
    }
    if w.style == 4 {
        return lead_burst(sim, side, w, src);
    }
    let n = 1 + src.below(w.burst);
    for _ in 0..n {
        if w.pkts == 0 || w.bytes == 0 {
            break;
        }
        let mode = MODES[src.weighted(&w.w)];
        let mut chan = *src.pick(&w.chans);
        let mut len = gen_len(src, w.style, w.max_len);
        if len < 8 {
            if mode == SendMode::TimeSensitive {
                len = 8.min(w.max_len);
            } else {
                chan = w.tiny;
            }
        }
        if len < 8 && (mode == SendMode::TimeSensitive) {
            continue;
        }
        w.pkts -= 1;
        w.bytes = w.bytes.saturating_sub(len + 16);
        sim.send(side, chan, mode, len);
    }
}

/// A burst of tiny packets in which one channel's last Reliable packet lies further and further
/// back, past 255 packets, while another channel's Reliable packets stay close: the distances to
/// the parent packets cross the limits of the datagram encodings independently of each other.
fn lead_burst(sim: &mut Sim, side: usize, w: &mut Work, src: &mut Src) {
    let n = *src.pick(&[264u64, 140, 300, 30]);
    let near = *src.pick(&[100u64, 127, 128, 129, 40, 1000]);
    let far = *src.pick(&[1000u64, 256, 255, 257, 128]);
    let other = w.chans[w.chans.len() - 1];
    let long = *src.pick(&[0u64, 100]);
    let soft = [SendMode::Unreliable, SendMode::Persistent][src.below(2) as usize];
    for i in 0..n {
        if w.pkts == 0 || w.bytes == 0 {
            break;
        }
        let second = i % near == near / 2;
        let chan = if second || src.below(4) == 3 { other } else { w.tiny };
        let mode = if second || i % far == 0 { SendMode::Reliable } else { soft };
        let len = if src.chance(long) { *src.pick(&[63usize, 64, 62, 65, 255, 256]) } else if chan == w.tiny { src.below(4) as usize } else { 8 }.min(w.max_len);
        w.pkts -= 1;
        w.bytes = w.bytes.saturating_sub(len + 16);
        sim.send(side, if len < 8 { w.tiny } else { chan }, mode, len);
    }
}

pub struct World {
    pub sim: Sim,
    pub cadence: [u64; 2],
    pub quiet: bool,
    pub traffic_end: u64,
    pub faulty: bool,
    pub stat: Vec<(&'static str, u64)>,
}

/// Generates a configuration, links, workloads and schedule; runs the traffic phase and, when
/// requested, a fault-free phase until nothing is outstanding.
pub fn run(src: &mut Src, cx: &mut Cx, p: &Profile) -> Result<World, String> {
    let mut cfg = gen_config(src);
    // some histories have packets of many fragments (bitfields of several words)
    let big = !p.tight && src.below(20) == 19;
    let grown = Profile { max_len: p.max_len.max(200_000), budget: p.budget.max(260_000), ..*p };
    let p = if big { cx.label("large packets"); &grown } else { p };
    for i in 0..2 {
        cfg[i].tx_bandwidth_limit = if p.small_rate { *src.pick(&[2_000_000u32, 2_000_000, 200_000, 50_000, 10_000, 3_000]) } else { *src.pick(&[2_000_000u32, 10_000_000, 200_000]) };
        cfg[i].keepalive_interval_ms = *src.pick(&[Some(5000u64), None, Some(2500)]);
        let a = if p.tight { match src.below(4) { 0 => *src.pick(&[3000usize, 1, 100, 1447, 1448, 1449, 2896, 10_000]), 1 => src.log(1, 200_000) as usize, 2 => 1448 * (1 + src.below(6) as usize), _ => src.log(1, 20_000) as usize } } else { *src.pick(&[1_000_000usize, 65_536, 100, 3000, 10_000]) };
        let a = if big { a.max(*src.pick(&[1_000_000usize, 100_000, 300_000])) } else { a };
        if big { cfg[i].tx_bandwidth_limit = cfg[i].tx_bandwidth_limit.max(200_000); }
        cfg[i].tx_alloc_limit = a;
        cfg[1 - i].rx_alloc_limit = a;
    }
    let alloc = [cfg[0].tx_alloc_limit, cfg[1].tx_alloc_limit];
    let seed = cx.seed;
    let mut sim = Sim::new(cfg, seed);
    sim.states = p.states;
    sim.set_age(gen_age(src));
    if sim.age > 0 { cx.label("old connection"); }
    let style = src.below(4);
    let mut faulty = false;
    for i in 0..2 {
        let lat = *src.pick(&[10u64, 0, 1, 50, 100, 250]) * MS;
        let mut l = Link::ideal(lat);
        if p.faults && style > 0 {
            l.fifo = style == 1;
            l.loss = *src.pick(&[0u64, 10, 50, 150, 400, 800]);
            l.dup = *src.pick(&[0u64, 20, 100]);
            l.corrupt = *src.pick(&[0u64, 0, 30]);
            l.delay = *src.pick(&[0u64, 20, 150]);
            l.delay_max = *src.pick(&[20u64, 100, 1000, 5000, 30_000]) * MS;
            l.jitter = *src.pick(&[0u64, 5, 50]) * MS;
            if style == 3 && src.flip() {
                let from = src.below(2000) * MS;
                let len = src.log(1, 20_000) * MS;
                l.black.push((from, from + len));
                if src.flip() {
                    let from = from + len + src.below(3000) * MS;
                    l.black.push((from, from + src.log(1, 10_000) * MS));
                }
            }
            if src.below(12) == 11 {
                let n = *src.pick(&[8u64, 3, 20, 30, 50, 70]) as u32;
                let frag = if src.flip() { Some(src.log(1, 200) as u16 - 1) } else { None };
                l.victim = Some(((sim.cfg[i].tx_packet_base_id + src.log(1, 40) as u32 - 1) % PSPAN, frag, n));
                cx.label("one fragment lost again and again");
            }
            faulty |= l.victim.is_some();
            faulty |= l.loss + l.dup + l.corrupt + l.delay + l.jitter > 0 || !l.black.is_empty();
        } else if p.faults {
            l.fifo = src.flip();
        }
        sim.link[i] = l;
    }
    let cadence = [*src.pick(&[20u64, 5, 10, 50, 100]) * MS, *src.pick(&[20u64, 5, 10, 50, 100]) * MS];
    let jit = *src.pick(&[0u64, 10 * MS, 200 * MS]);
    let mut work = [gen_work(src, p, alloc[0]), gen_work(src, p, alloc[1])];
    if p.dirs & 2 == 0 || src.below(3) == 1 {
        work[1].pkts = 0;
    }
    sim.due = [src.below(20) * MS, src.below(20) * MS];
    let quick = cx.tier == Tier::Quick;
    let traffic = src.range(200, if quick { 3000 } else { 8000 }) * MS;
    let (api, sizes) = (p.api && src.below(3) == 2, p.sizes);
    let recv_p = if p.tight { *src.pick(&[1024u64, 300, 50, 10]) } else if p.api { *src.pick(&[1024u64, 1024, 1024, 300]) } else { 1024 };
    sim.auto_receive = recv_p == 1024;
    let mut forger = Forger::new(p.bogus);
    sim.run(traffic, cadence, jit, src, cx, |s, side, src, _| {
        forger.act(s, side);
        if recv_p < 1024 && src.chance(recv_p) {
            s.receive(side);
        }
        if api {
            match src.below(8) {
                1 => s.flush(side, src),
                2 => s.step(side),
                3 => { s.receive(side); }
                4 => s.deliver_inbox(side),
                5 => { s.flush(side, src); s.flush(side, src); }
                _ => (),
            }
        }
        do_sends(s, side, &mut work[side], src);
        if sizes { s.size(side); }
        if work[side].flush_p > 0 && src.chance(work[side].flush_p) {
            s.flush(side, src);
            if sizes { s.size(side); }
        }
        Ok(true)
    })?;
    let traffic_end = sim.now;
    let mut quiet = false;
    if p.fair {
        sim.auto_receive = true;
        for i in 0..2 {
            sim.link[i] = Link { victim: sim.link[i].victim.take(), ..Link::ideal(sim.link[i].lat) };
        }
        let end = sim.now + 7200 * SEC;
        let q = &mut quiet;
        let mut idle = 0;
        sim.run(end, [cadence[0].max(20 * MS), cadence[1].max(20 * MS)], 0, src, cx, |s, side, _, _| {
            forger.act(s, side);
            if sizes { s.size(side); }
            if s.now > traffic_end + 600 * SEC {
                s.link[side].victim = None;
            }
            if s.quiescent() {
                idle += 1;
            } else {
                idle = 0;
            }
            *q = idle > 40;
            // late copies may still be on their way
            Ok(!(*q && (s.in_flight() == 0 || s.now > traffic_end + 40 * SEC)))
        })?;
    }
    if faulty { cx.label("faulty links"); }
    cx.count("frames lost", sim.lost);
    cx.count("frames duplicated", sim.dupped);
    cx.count("frames delayed", sim.delayed);
    cx.count("frames bit-flipped", sim.altered);
    cx.count("frames emitted", sim.em.len() as u64);
    cx.count("packets submitted", (sim.sent[0].len() + sim.sent[1].len()) as u64);
    if p.bogus != 0 { for (k, n) in &forger.stat { cx.count(*k, *n); } }
    cx.count("packets received", (sim.got[0].len() + sim.got[1].len()) as u64);
    Ok(World { sim, cadence, quiet, traffic_end, faulty, stat: forger.stat })
}

pub fn wrap_labels(s: &Sim, cx: &mut Cx) {
    for i in 0..2 {
        let mut nf = 0u32;
        let mut np = std::collections::HashSet::new();
        for e in s.em.iter().filter(|e| e.from == i) {
            if let Some(wire::W::Data { dgs, .. }) = &e.w {
                nf += 1;
                for d in dgs {
                    np.insert(d.seq);
                    if d.wlead < 128 && d.clead == 256 && d.data.len() < 64 { cx.label("channel parent exactly 256 packets back"); }
                    if d.wlead < 128 && d.clead > 255 { cx.label("channel parent more than 255 packets back, another close"); }
                    if d.wlead == 128 { cx.label("window parent exactly 128 packets back"); }
                }
            }
        }
        if s.cfg[i].tx_frame_base_id.checked_add(nf).is_none() { cx.label("32-bit frame id wrapped"); }
        if s.cfg[i].tx_packet_base_id + np.len() as u32 >= PSPAN { cx.label("20-bit packet id wrapped"); }
    }
}

pub fn finish(w: &World, cx: &mut Cx, r: CaseResult) -> CaseResult {
    w.sim.dump(cx);
    r
}


/// Produces acknowledgements that must have no effect: wrong nonces, unknown frames, copies of
/// acknowledgements which were delivered before.
pub struct Forger {
    rng: Rng,
    on: bool,
    scanned: usize,
    p: u64,
    /// per side: frames sent (id, nonce), acknowledgement frames delivered to it
    frames: [Vec<(u32, bool)>; 2],
    acks: [Vec<u32>; 2],
    base: [(u32, u32); 2],
    init: bool,
    pub stat: Vec<(&'static str, u64)>,
}

impl Forger {
    pub fn new(seed: u64) -> Forger {
        let mut rng = Rng(seed);
        let p = *[1024u64, 300, 60].get(rng.below(3) as usize).unwrap();
        Forger { rng, on: seed != 0, scanned: 0, p, frames: [Vec::new(), Vec::new()], acks: [Vec::new(), Vec::new()], base: [(0, 0), (0, 0)], init: false, stat: Vec::new() }
    }
    fn count(&mut self, k: &'static str) {
        match self.stat.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 += 1, None => self.stat.push((k, 1)) }
    }
    pub fn act(&mut self, s: &mut Sim, side: usize) {
        if !self.on { return; }
        if !self.init {
            self.init = true;
            for i in 0..2 { self.base[i] = (s.cfg[i].tx_frame_base_id, s.cfg[i].tx_packet_base_id); }
        }
        while self.scanned < s.ev.len() {
            match s.ev[self.scanned].1 {
                Ev::Emit(id) => {
                    let e = &s.em[id as usize];
                    if let Some(wire::W::Data { id, nonce, .. }) = &e.w { self.frames[e.from].push((*id, *nonce)); }
                }
                Ev::Arrive(to, id, true) => {
                    if let Some(wire::W::Acks { fbase, pbase, .. }) = &s.em[id as usize].w {
                        self.acks[to].push(id);
                        let _ = pbase;
                        let b = &mut self.base[to];
                        if fbase.wrapping_sub(b.0) < 1 << 31 { b.0 = *fbase; }
                        if pbase.wrapping_sub(b.1) & (PSPAN - 1) < PSPAN / 2 { b.1 = *pbase; }
                    }
                }
                _ => (),
            }
            self.scanned += 1;
        }
        if self.rng.below(1024) >= self.p { return; }
        let n = 1 + self.rng.below(3);
        for _ in 0..n {
            let r = self.rng.below(6);
            if r < 2 {
                // a copy of an earlier acknowledgement, recent ones more likely
                let k = self.acks[side].len() as u64;
                if k == 0 { continue; }
                let back = if self.rng.below(2) == 0 { self.rng.below(k.min(4)) } else { self.rng.below(k) };
                let id = self.acks[side][(k - 1 - back) as usize];
                let d = s.em[id as usize].data.clone();
                s.input(side, &d);
                self.count("replayed acknowledgements");
                continue;
            }
            // window positions already reported, or impossible ones
            let next = self.frames[side].last().map(|f| f.0.wrapping_add(1)).unwrap_or(s.cfg[side].tx_frame_base_id);
            let old = self.base[side];
            let fbase = match self.rng.below(4) { 0 => next.wrapping_add(1 + self.rng.below(5000) as u32), 1 => old.0.wrapping_sub(1 + self.rng.below(5000) as u32), 2 => next.wrapping_add(1 << 31), _ => old.0 };
            let pbase = match self.rng.below(3) { 0 => old.1.wrapping_sub(1 + self.rng.below(5000) as u32) & (PSPAN - 1), 1 => self.rng.next() as u32 | PSPAN, _ => old.1 };
            let mut groups = Vec::new();
            let map: std::collections::HashMap<u32, bool> = self.frames[side].iter().rev().take(5000).cloned().collect();
            for _ in 0..1 + self.rng.below(4) {
                let unknown = self.rng.below(3) == 0;
                let len = self.frames[side].len() as u64;
                let (base, bits) = if unknown || len == 0 {
                    // not a single frame of it, or the last one of it, was never sent
                    if self.rng.below(2) == 0 || len == 0 {
                        (next.wrapping_add(self.rng.below(40) as u32), 1u32 | self.rng.next() as u32)
                    } else {
                        let back = 1 + self.rng.below(len.min(31));
                        let base = next.wrapping_sub(back as u32);
                        (base, (self.rng.next() as u32 | 1 << 31) | 1)
                    }
                } else {
                    let back = if self.rng.below(2) == 0 { self.rng.below(len.min(40)) } else { self.rng.below(len) };
                    let base = self.frames[side][(len - 1 - back) as usize].0;
                    let span = next.wrapping_sub(base).min(32);
                    let m = if span == 32 { u32::MAX } else { (1 << span) - 1 };
                    (base, (self.rng.next() as u32 & m) | 1)
                };
                let mut truth = false;
                let mut sent = true;
                for i in 0..32 { if bits >> i & 1 != 0 { match map.get(&base.wrapping_add(i)) { Some(n) => truth ^= n, None => sent = false } } }
                groups.push((base, bits, if sent { !truth } else { self.rng.below(2) == 1 }));
                self.count(if sent { "acknowledgements with a wrong nonce" } else { "acknowledgements of frames never sent" });
            }
            let d = wire::write(&wire::W::Acks { fbase, pbase, groups });
            s.input(side, &d);
        }
    }
}
