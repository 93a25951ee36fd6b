//! A single `HalfConnection` facing an arbitrary peer: C03 (robustness), C04 (reassembly), C06
//! (receive memory), C19 (heap discipline under hostile input).

use std::collections::HashMap;
use std::rc::Rc;

use uflow::verif::{Config, HalfConnection};
use uflow::SendMode;

use crate::engine::{CaseResult, Cx, Prop, Src, Test};
use crate::hc::*;
use crate::wire::{self, Dg, W};
use crate::{alloc, call, sys};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            rule: "hostile: a case is non-trivial when at least 10 frames reached the connection, at least one of them accepted by it (it answered with an acknowledgement or delivered a packet), or a packet was in flight when a crafted acknowledgement arrived",
            tests: vec![Test { name: "connection", quick: 60_000, thorough: 3_000_000, f: c03_connection }],
        },
        Prop {
            id: "C04",
            rule: "a case is non-trivial when at least one packet of two or more fragments was delivered and fragments were permuted, repeated, interleaved or accompanied by fragments of disagreeing headers",
            tests: vec![
                Test { name: "reassembly", quick: 60_000, thorough: 3_000_000, f: c04_reassembly },
                Test { name: "huge", quick: 64, thorough: 400, f: c04_huge },
            ],
        },
        Prop {
            id: "C06",
            rule: "a case is non-trivial when the peer offered more than twice the memory limit, or (compliant senders) a sender was stalled by its peer's limits",
            tests: vec![
                Test { name: "flood", quick: 6_000, thorough: 400_000, f: c06_flood },
                Test { name: "mixed", quick: 20_000, thorough: 1_000_000, f: c06_mixed },
            ],
        },
        Prop {
            id: "C19",
            rule: "a case is non-trivial when at least one packet of two or more fragments was received in part or whole before the connection was dropped",
            tests: vec![Test { name: "hostile", quick: 30_000, thorough: 1_000_000, f: c19_hostile }],
        },
    ]
}

pub struct Victim {
    pub hc: Option<HalfConnection>,
    pub cfg: Config,
    pub now: u64,
    /// next frame id the victim expects, as far as known
    pub rxf: u32,
    pub rxp: u32,
    /// frames emitted by the victim: id, nonce
    pub tx: Vec<(u32, bool)>,
    pub txp: u32,
    pub out: u64,
    pub acks_out: u64,
    pub got: Vec<Rc<[u8]>>,
    pub keep: bool,
    pub frames_in: u64,
    pub sent: u64,
    pub old: Vec<Vec<u8>>,
}

impl Victim {
    pub fn new(cfg: Config) -> Victim {
        sys::set_clock(sys::T0_NS);
        let c = cfg.clone();
        let hc = call!("HalfConnection::new", HalfConnection::new(c));
        let mut v = Victim { rxf: cfg.rx_frame_base_id, rxp: cfg.rx_packet_base_id, txp: cfg.tx_packet_base_id, hc: Some(hc), cfg, now: 0, tx: Vec::new(), out: 0, acks_out: 0, got: Vec::new(), keep: true, frames_in: 0, sent: 0, old: Vec::new() };
        v.step();
        v
    }
    pub fn wait(&mut self, dt: u64) {
        self.now += dt;
        sys::set_clock(sys::T0_NS + self.now);
    }
    pub fn step(&mut self) {
        let hc = self.hc.as_mut().unwrap();
        call!("step", hc.step());
    }
    pub fn flush(&mut self) -> Vec<W> {
        let mut sink = VecSink(Vec::new());
        let hc = self.hc.as_mut().unwrap();
        call!("flush", hc.flush(&mut sink));
        let mut ws = Vec::new();
        for d in sink.0 {
            self.out += d.len() as u64;
            match wire::read(&d) {
                Some(W::Data { id, nonce, dgs }) => {
                    self.tx.push((id, nonce));
                    for d in &dgs { self.txp = (d.seq + 1) & (PSPAN - 1); }
                    ws.push(W::Data { id, nonce, dgs });
                }
                Some(w) => {
                    if let W::Acks { fbase, pbase, .. } = &w {
                        self.acks_out += 1;
                        self.rxf = *fbase;
                        self.rxp = *pbase;
                    }
                    ws.push(w);
                }
                None => (),
            }
        }
        ws
    }
    pub fn receive(&mut self) -> usize {
        let mut sink = PkSink(Vec::new());
        let hc = self.hc.as_mut().unwrap();
        call!("receive", hc.receive(&mut sink));
        let n = sink.0.len();
        if self.keep {
            for d in sink.0 { self.got.push(Rc::from(&d[..])); }
        }
        n
    }
    pub fn input(&mut self, d: &[u8]) {
        self.frames_in += 1;
        let hc = self.hc.as_mut().unwrap();
        call!("handle_frame", hc_input(hc, d));
    }
    pub fn put(&mut self, w: &W) {
        let d = wire::write(w);
        self.input(&d);
    }
    pub fn send(&mut self, chan: u8, mode: SendMode, len: usize) {
        self.sent += 1;
        let v = vec![self.sent as u8; len];
        let hc = self.hc.as_mut().unwrap();
        call!("send", hc.send(v.clone().into_boxed_slice(), chan, mode));
    }
    pub fn drop_hc(&mut self) {
        let hc = self.hc.take();
        call!("drop", drop(hc));
    }
}

/// A value near `base` or anywhere.
pub fn near(src: &mut Src, base: u32, span: u64) -> u32 {
    match src.below(10) {
        0..=3 => base,
        4 => base.wrapping_add(src.below(4) as u32),
        5 => base.wrapping_sub(1 + src.below(4) as u32),
        6 => base.wrapping_add(src.below(span) as u32),
        7 => base.wrapping_add(*src.pick(&[31u32, 32, 33, 63, 64, 4095, 4096, 4097, 8191, 8192, 8193, 1 << 20, 1 << 31])),
        8 => base.wrapping_sub(*src.pick(&[31u32, 32, 33, 63, 64, 4095, 4096, 4097, 8191, 8192, 8193, 1 << 20, 1 << 31])),
        _ => src.edgy32(),
    }
}

fn lead(src: &mut Src) -> u16 {
    match src.below(6) {
        0 | 1 => 0,
        2 => 1,
        3 => src.below(6) as u16,
        4 => *src.pick(&[127u16, 128, 255, 256, 4095, 4096, 65535]),
        _ => src.below(65536) as u16,
    }
}

pub fn gen_dg(src: &mut Src, rxp: u32, room: usize, multi: u64) -> Dg {
    let seq = near(src, rxp, 4200) & (PSPAN - 1);
    let (frag, last) = if src.chance(multi) {
        let last = match src.below(5) { 0 => 1, 1 => src.below(4) as u16, 2 => *src.pick(&[65535u16, 65534, 255, 256, 4095]), 3 => src.below(40) as u16, _ => src.below(65536) as u16 };
        let frag = match src.below(5) { 0 => 0, 1 => last, 2 => last.wrapping_add(1), _ => src.below(last as u64 + 1) as u16 };
        (frag, last)
    } else { (0, 0) };
    let len = match src.below(6) {
        0 => src.below(20) as usize,
        1 => *src.pick(&[0usize, 63, 64, 65, 255, 256, 1448]),
        2 => src.below(1449) as usize,
        3 if frag < last => 1448,
        _ => if frag < last { 1448 } else { src.below(64) as usize },
    };
    let len = len.min(room.saturating_sub(14));
    let (wlead, mut clead) = (lead(src), lead(src));
    if src.below(3) > 0 && wlead == 0 { clead = 0; }
    Dg { seq, chan: match src.below(3) { 0 => 0, 1 => src.below(4) as u8, _ => src.below(64) as u8 }, wlead, clead, frag, last, data: vec![seq as u8 ^ frag as u8; len] }
}

pub fn gen_data(src: &mut Src, rxf: u32, rxp: u32, multi: u64) -> W {
    let id = near(src, rxf, 4200);
    let n = match src.below(4) { 0 => 1, 1 => src.below(5), 2 => src.below(128), _ => 1 };
    let mut room = wire::MAX_FRAME - 10;
    let mut dgs = Vec::new();
    for _ in 0..n {
        if room < 15 { break; }
        let d = gen_dg(src, rxp, room, multi);
        room -= d.data.len() + 14;
        dgs.push(d);
    }
    W::Data { id, nonce: src.flip(), dgs }
}

pub fn gen_ack(src: &mut Src, tx: &[(u32, bool)], tx_base: u32, txp: u32) -> W {
    let next = tx.last().map(|t| t.0.wrapping_add(1)).unwrap_or(tx_base);
    let fbase = match src.below(4) { 0 => next, 1 => near(src, next, 4200), 2 => tx_base, _ => { let k = src.below(tx.len() as u64 + 1) as usize; tx.get(k).map(|t| t.0).unwrap_or(next) } };
    let pbase = match src.below(5) { 0 => txp, 1 => near(src, txp, 4200), 2 => txp.wrapping_sub(src.below(5) as u32) & (PSPAN - 1), 3 => src.edgy32(), _ => near(src, txp, 4200) & (PSPAN - 1) };
    let n = match src.below(4) { 0 => 0, 1 => 1, 2 => src.below(5), _ => src.below(163) };
    let map: HashMap<u32, bool> = tx.iter().rev().take(6000).cloned().collect();
    let mut groups = Vec::new();
    for _ in 0..n {
        let base = match src.below(3) { 0 => near(src, next, 4200), _ => { let k = src.below(tx.len().max(1) as u64) as usize; tx.get(tx.len().wrapping_sub(1 + k)).map(|t| t.0).unwrap_or(next) } };
        let bits = match src.below(5) { 0 => 1, 1 => src.edgy32(), 2 => ((1u64 << (1 + src.below(32))) - 1) as u32, 3 => 0, _ => src.below(16) as u32 };
        let mut nonce = false;
        for i in 0..32 { if bits >> i & 1 != 0 { nonce ^= map.get(&base.wrapping_add(i)).copied().unwrap_or(false); } }
        if src.below(8) == 7 { nonce = !nonce; }
        groups.push((base, bits, nonce));
    }
    W::Acks { fbase, pbase, groups }
}

pub fn gen_raw(src: &mut Src, old: &[Vec<u8>]) -> Vec<u8> {
    let mut d: Vec<u8> = if !old.is_empty() && src.flip() {
        let k = src.below(old.len() as u64) as usize;
        let mut d = old[k].clone();
        d.truncate(d.len().saturating_sub(4));
        for _ in 0..1 + src.below(4) {
            if d.is_empty() { break; }
            let i = src.below(d.len().min(40) as u64) as usize;
            match src.below(4) {
                0 => d[i] = src.below(256) as u8,
                1 => d[i] ^= 1 << src.below(8),
                2 => { d.remove(i); }
                _ => d.insert(i, src.below(256) as u8),
            }
        }
        d
    } else {
        let n = match src.below(4) { 0 => src.below(12), 1 => src.below(60), 2 => *src.pick(&[1467u64, 1468, 1469, 1472, 1473, 1500]), _ => src.below(1500) };
        let mut d = vec![0u8; n as usize];
        for b in d.iter_mut().take(64) { *b = src.below(256) as u8; }
        if src.flip() && !d.is_empty() { d[0] = *src.pick(&[10u8, 11, 12, 0, 1, 2, 3, 4, 5]); }
        d
    };
    if src.below(4) > 0 { d = wire::seal(d); }
    d.truncate(1500);
    d
}

fn gen_wait(src: &mut Src) -> u64 {
    match src.below(8) {
        0 => 0,
        1 | 2 => 20 * MS,
        3 => src.below(300) * MS,
        4 => src.below(5) * MS,
        5 => src.below(5000) * MS,
        6 => src.log(0, 1_000_000) * MS,
        _ => src.log(0, 100_000_000) * SEC / 10,
    }
}

pub fn gen_sync(src: &mut Src, v: &Victim) -> W {
    let frame = if src.flip() { Some(near(src, v.rxf, 4200)) } else { None };
    let packet = if src.flip() { Some(match src.below(3) { 0 => near(src, v.rxp, 4200), 1 => src.edgy32(), _ => near(src, v.rxp, 4200) & (PSPAN - 1) }) } else { None };
    W::Sync { frame, packet }
}

/// One hostile or application action.
pub fn hostile_op(v: &mut Victim, src: &mut Src, cx: &mut Cx, multi: u64) {
    match src.below(16) {
        0..=3 => {
            let (f, p) = (v.rxf, v.rxp);
            let w = gen_data(src, f, p, multi);
            cx.log(|| format!("{} ms: in {}", v.now / MS, wire::show(&w)));
            let d = wire::write(&w);
            if let W::Data { id, .. } = &w {
                if id.wrapping_sub(v.rxf) < v.cfg.rx_frame_window_size { v.rxf = id.wrapping_add(1); }
            }
            v.input(&d);
            if v.old.len() < 20 { v.old.push(d); }
        }
        4 => {
            let w = gen_sync(src, v);
            cx.log(|| format!("{} ms: in {}", v.now / MS, wire::show(&w)));
            v.put(&w);
        }
        5 | 6 => {
            let w = gen_ack(src, &v.tx, v.cfg.tx_frame_base_id, v.txp);
            if v.tx.len() > 0 { cx.label("crafted acks after frames sent"); }
            cx.log(|| format!("{} ms: in {}", v.now / MS, wire::show(&w)));
            let d = wire::write(&w);
            v.input(&d);
            if v.old.len() < 20 { v.old.push(d); }
        }
        7 => {
            let d = gen_raw(src, &v.old);
            cx.log(|| format!("{} ms: in raw {} bytes {:02x?}", v.now / MS, d.len(), &d[..d.len().min(24)]));
            v.input(&d);
        }
        8 | 9 => {
            let n = 1 + src.below(6);
            for _ in 0..n {
                let max = v.cfg.tx_alloc_limit.min(60_000);
                let len = crate::world::gen_len(src, 0, max);
                let (chan, mode) = (src.below(64) as u8, *src.pick(&MODES));
                cx.log(|| format!("{} ms: send {} bytes {:?}", v.now / MS, len, mode));
                v.send(chan, mode, len);
            }
        }
        10 => {
            let dt = gen_wait(src);
            v.wait(dt);
            cx.log(|| format!("{} ms: step", v.now / MS));
            v.step();
        }
        11 => {
            cx.log(|| format!("{} ms: flush", v.now / MS));
            v.flush();
        }
        12 => { v.receive(); cx.log(|| format!("{} ms: receive", v.now / MS)); }
        _ => {
            let dt = match src.below(4) { 0 => 100 * MS, 1 => gen_wait(src), _ => src.below(40) * MS };
            v.wait(dt);
            cx.log(|| format!("{} ms: tick", v.now / MS));
            v.flush();
            v.step();
            v.receive();
            v.flush();
        }
    }
}

pub fn gen_victim(src: &mut Src) -> Victim {
    let mut cfg = gen_config(src)[0].clone();
    cfg.tx_bandwidth_limit = *src.pick(&[2_000_000u32, 0, 1, 23, 1472, 100_000, u32::MAX]);
    cfg.tx_alloc_limit = *src.pick(&[1_000_000usize, 0, 1, 100, 1448, 1449, 10_000, u32::MAX as usize]);
    cfg.rx_alloc_limit = *src.pick(&[1_000_000usize, 0, 1, 100, 1448, 1449, 10_000, 100_000]);
    cfg.keepalive_interval_ms = *src.pick(&[Some(5000u64), None, Some(0), Some(1), Some(u64::MAX)]);
    let mut v = Victim::new(cfg);
    v.keep = false;
    v
}

fn c03_connection(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut v = gen_victim(src);
    let n = 5 + src.log(0, 150);
    let multi = *src.pick(&[300u64, 0, 1000]);
    let mut got = 0;
    for _ in 0..n {
        hostile_op(&mut v, src, cx, multi);
        got += v.got.len();
    }
    // still usable afterwards
    for _ in 0..3 {
        v.wait(20 * MS);
        v.flush();
        v.step();
        got += v.receive();
    }
    cx.count("frames in", v.frames_in);
    cx.count("frames out", v.tx.len() as u64);
    cx.nontrivial = v.frames_in >= 10 && (v.acks_out > 0 || got > 0 || !v.tx.is_empty());
    v.drop_hc();
    Ok(())
}

// ---- C04 ----------------------------------------------------------------------------------

pub fn frag_of(data: &[u8], f: usize) -> Vec<u8> {
    data[(f * wire::MAX_FRAG).min(data.len())..((f + 1) * wire::MAX_FRAG).min(data.len())].to_vec()
}

fn gen_plen(src: &mut Src, maxf: u64) -> usize {
    match src.below(6) {
        0 => src.below(200) as usize,
        1 => *src.pick(&[0usize, 1, 1447, 1448, 1449, 2895, 2896, 2897]),
        2 | 3 => ((1 + src.below(maxf)) * wire::MAX_FRAG as u64 + src.below(7)).saturating_sub(3) as usize,
        _ => src.below(maxf * wire::MAX_FRAG as u64 + 1) as usize,
    }
}

/// Fragments of several packets in every order, repeated, interleaved, with contradicting ones.
fn c04_reassembly(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut cfg = gen_config(src)[1].clone();
    cfg.rx_packet_window_size = *src.pick(&[4096u32, 16, 64, 8]);
    cfg.rx_alloc_limit = 4_000_000;
    let pbase = cfg.rx_packet_base_id;
    let mut v = Victim::new(cfg.clone());
    let k = 1 + src.below(6) as usize;
    let maxf = *src.pick(&[3u64, 1, 12, 70]);
    let nch = 1 + src.below(3);
    // the k packets: reliable chain, so that none may be skipped
    struct P { dg: Dg, data: Vec<u8>, sent: Vec<bool>, seen: bool }
    let mut ps: Vec<P> = Vec::new();
    let mut last_on: HashMap<u8, usize> = HashMap::new();
    for i in 0..k {
        let chan = *src.pick(&[0u8, 17, 63][..nch as usize]);
        let len = gen_plen(src, maxf);
        let data = payload(cx.seed, 0, i as u32, len);
        let clead = last_on.get(&chan).map(|j| (i - j) as u16).unwrap_or(0);
        last_on.insert(chan, i);
        let nf = nfrags(len);
        ps.push(P { dg: Dg { seq: (pbase + i as u32) & (PSPAN - 1), chan, wlead: if i > 0 { 1 } else { 0 }, clead, frag: 0, last: (nf - 1) as u16, data: vec![] }, data, sent: vec![false; nf], seen: false });
    }
    let mut order: Vec<(usize, usize)> = Vec::new();
    for (i, p) in ps.iter().enumerate() { for f in 0..p.sent.len() { order.push((i, f)); } }
    let shuffle = src.below(4);
    let n = order.len();
    match shuffle {
        0 => (),
        1 => order.reverse(),
        2 => for i in 0..n.saturating_sub(1) { let j = i + src.below((n - i) as u64) as usize; order.swap(i, j); },
        _ => for _ in 0..1 + src.below(8) { let (i, j) = (src.below(n as u64) as usize, src.below(n as u64) as usize); order.swap(i, j); },
    }
    let (dup, bogus, drop_p) = (*src.pick(&[100u64, 0, 500]), *src.pick(&[300u64, 0, 800]), *src.pick(&[0u64, 0, 300]));
    let mut id = cfg.rx_frame_base_id;
    let mut frame: Vec<Dg> = Vec::new();
    let mut room = wire::MAX_FRAME - 10;
    let mut stat = (0u64, 0u64, 0u64);
    let mut later: Vec<(usize, usize)> = Vec::new();
    let mut q: std::collections::VecDeque<(usize, usize)> = order.into();
    let pack = src.below(3);
    macro_rules! ship {
        () => {
            if !frame.is_empty() {
                let w = W::Data { id, nonce: src.flip(), dgs: std::mem::take(&mut frame) };
                cx.log(|| wire::show(&w));
                v.put(&w);
                id = id.wrapping_add(1);
                room = wire::MAX_FRAME - 10;
                if src.below(4) == 3 { v.receive(); }
                if src.below(16) == 15 { v.wait(30 * MS); v.step(); v.flush(); }
            }
        };
    }
    macro_rules! add {
        ($d:expr) => {{
            let d: Dg = $d;
            let sz = wire::dg_size(&d);
            if sz > room || frame.len() == 127 { ship!(); }
            room -= sz;
            frame.push(d);
            if pack == 0 || src.below(3) == 2 { ship!(); }
        }};
    }
    loop {
        let (i, f) = match q.pop_front() {
            Some(x) => x,
            None => {
                if later.is_empty() { break; }
                q.extend(later.drain(..));
                continue;
            }
        };
        // lost for now, transmitted again later
        if !ps[i].sent[f] && src.chance(drop_p) && later.len() < 400 {
            stat.0 += 1;
            later.push((i, f));
            continue;
        }
        let mut d = ps[i].dg.clone();
        d.frag = f as u16;
        d.data = frag_of(&ps[i].data, f);
        ps[i].sent[f] = true;
        ps[i].seen = true;
        add!(d.clone());
        if src.chance(dup) && stat.1 < 300 {
            stat.1 += 1;
            let g = src.below(ps[i].sent.len() as u64) as usize;
            q.push_back((i, f));
            if ps[i].sent[g] { q.push_back((i, g)); }
        }
        if src.chance(bogus) {
            // contradicts the first fragment of some packet already seen
            let j = src.below(k as u64) as usize;
            if ps[j].seen {
                stat.2 += 1;
                let p = &ps[j];
                let mut b = p.dg.clone();
                b.frag = src.below(p.sent.len() as u64) as u16;
                b.data = frag_of(&p.data, b.frag as usize).iter().map(|x| x ^ 0x5A).collect();
                match src.below(7) {
                    0 => b.chan = (b.chan + 1 + src.below(63) as u8) & 63,
                    1 => b.wlead = b.wlead.wrapping_add(1 + src.below(5) as u16),
                    2 => { b.clead = b.clead.wrapping_add(1 + src.below(5) as u16); if b.wlead == 0 { b.wlead = 1; } }
                    3 => { // more fragments
                        b.last = b.last.saturating_add(1 + src.below(4) as u16);
                        b.data = vec![0x77; 1448];
                        if src.flip() { b.frag = b.last; }
                        if b.last == p.dg.last { continue; }
                    }
                    4 => { // fewer fragments
                        if b.last == 0 { continue; }
                        b.last = src.below(b.last as u64) as u16;
                        b.frag = src.below(b.last as u64 + 1) as u16;
                        b.data = vec![0x78; if b.frag < b.last { 1448 } else { src.below(1449) as usize }];
                    }
                    5 => { // beyond the last fragment
                        b.frag = b.last.wrapping_add(1 + src.below(3) as u16);
                        if b.frag <= b.last { continue; }
                    }
                    _ => { // an inner fragment that is not full
                        if b.last == 0 || b.frag == b.last { continue; }
                        b.data.truncate(src.below(1448) as usize);
                    }
                }
                // a reassembled packet of another size or header is no longer the same packet
                if b == d { continue; }
                add!(b);
            }
        }
    }
    ship!();
    v.receive();
    cx.count("fragments", n as u64);
    cx.count("fragments resent after loss", stat.0);
    cx.count("fragments repeated", stat.1);
    cx.count("contradicting fragments", stat.2);
    // each channel delivers its packets in order, all of them intact
    let mut want: HashMap<u8, Vec<usize>> = HashMap::new();
    for (i, p) in ps.iter().enumerate() { want.entry(p.dg.chan).or_default().push(i); }
    let mut used = vec![false; k];
    for (n, g) in v.got.iter().enumerate() {
        match (0..k).find(|&i| !used[i] && ps[i].data[..] == g[..]) {
            Some(i) => used[i] = true,
            None => return Err(format!("reassembled packet is no submitted packet: reception {} has {} bytes", n, g.len())),
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return Err(format!("packet not delivered although all its fragments arrived: #{} of {} bytes", i, ps[i].data.len()));
    }
    cx.nontrivial = ps.iter().any(|p| p.sent.len() > 1) && (shuffle > 0 || stat.0 + stat.1 + stat.2 > 0);
    Ok(())
}

/// Packets of up to 65536 fragments through a whole connection, and fragment by fragment.
fn c04_huge(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let max = 65536 * wire::MAX_FRAG;
    let len = match src.below(4) { 0 => max - src.below(3) as usize, 1 => src.log(100_000, max as u64) as usize, 2 => (src.log(50, 65536) as usize * wire::MAX_FRAG + src.below(3) as usize).saturating_sub(1), _ => src.log(100_000, 4_000_000) as usize }.min(max);
    let data = payload(cx.seed, 0, 0, len);
    let mut cfg = hc_config([src.u32(), src.u32()], [src.below(PSPAN as u64) as u32, src.below(PSPAN as u64) as u32], 4096, 4096);
    // memory for just this packet, at times
    let alloc = if src.below(3) < 2 { len } else { max };
    for c in cfg.iter_mut() {
        c.tx_alloc_limit = alloc;
        c.rx_alloc_limit = alloc;
        c.tx_bandwidth_limit = u32::MAX;
    }
    cx.count("fragments", nfrags(len) as u64);
    cx.nontrivial = true;
    if if len > 40_000_000 { src.below(6) > 0 } else { src.below(3) == 0 } {
        let mut v = Victim::new(cfg[1].clone());
        let nf = nfrags(len);
        let mut order: Vec<u32> = (0..nf as u32).collect();
        if src.flip() { for i in 0..nf - 1 { let j = i + src.below((nf - i) as u64) as usize; order.swap(i, j); } } else if src.flip() { order.reverse(); }
        let dup = src.flip();
        let mut id = cfg[1].rx_frame_base_id;
        let seq = cfg[1].rx_packet_base_id;
        cx.log(|| format!("{} bytes in {} fragments, delivered one by one", len, nf));
        for (k, f) in order.iter().enumerate() {
            for g in [Some(*f), if dup && k > 0 { Some(order[k / 2]) } else { None }].into_iter().flatten() {
                v.put(&W::Data { id, nonce: false, dgs: vec![Dg { seq, chan: 5, wlead: 0, clead: 0, frag: g as u16, last: (nf - 1) as u16, data: frag_of(&data, g as usize) }] });
                id = id.wrapping_add(1);
            }
            if k % 1000 == 999 { v.flush(); v.wait(20 * MS); v.step(); }
        }
        v.receive();
        if v.got.len() != 1 || v.got[0][..] != data[..] {
            return Err(format!("huge packet not reassembled: {} bytes, {} packets delivered", len, v.got.len()));
        }
        return Ok(());
    }
    let mut s = Sim::new(cfg, cx.seed);
    s.trace = false;
    s.link = [Link::ideal(10 * MS), Link::ideal(10 * MS)];
    let mode = *src.pick(&[SendMode::Reliable, SendMode::Unreliable, SendMode::Persistent]);
    s.send_data(0, 9, mode, data.clone());
    let lim = s.now + 3000 * SEC;
    s.run(lim, [10 * MS, 10 * MS], 0, src, cx, |s, _, _, _| {
        Ok(s.got[1].is_empty())
    })?;
    if let Some(e) = s.em.iter().find(|e| e.data.len() > wire::MAX_FRAME) { return Err(format!("oversized datagram: {} bytes", e.data.len())); }
    map_emissions(&s, 0)?;
    if s.got[1].len() != 1 || s.got[1][0].data[..] != data[..] {
        return Err(format!("huge packet not delivered intact over an ideal network: {} bytes {:?}, {} packets delivered", len, mode, s.got[1].len()));
    }
    Ok(())
}

// ---- C06 ----------------------------------------------------------------------------------

fn ceil_frag(n: usize) -> i64 {
    ((n + wire::MAX_FRAG - 1) / wire::MAX_FRAG * wire::MAX_FRAG) as i64
}

/// Directed exhaustion: fills the receive window with as much as the peer can claim.
fn c06_flood(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut cfg = gen_config(src)[1].clone();
    let win = *src.pick(&[4096u32, 4096, 64, 256]);
    cfg.rx_packet_window_size = win;
    let limit = match src.below(4) { 0 => *src.pick(&[100_000usize, 0, 1, 100, 1447, 1448, 1449, 10_000]), 1 => src.log(0, 300_000) as usize, _ => src.log(1000, 100_000) as usize };
    cfg.rx_alloc_limit = limit;
    let pbase = cfg.rx_packet_base_id;
    let mut v = Victim::new(cfg.clone());
    v.keep = false;
    let base = alloc::live();
    // bookkeeping: acknowledgement queue (grouped by 32 here), one bit per claimed fragment
    let slack = 24_576 + limit as i64 / 1448 / 8 + 16 * (limit as i64 / 1448 + 1);
    let bound = ceil_frag(limit) + slack;
    let kind = src.below(6);
    let read = *src.pick(&[0u64, 0, 10, 200]);
    let step_p = *src.pick(&[0u64, 0, 20]);
    let mut id = cfg.rx_frame_base_id;
    let mut offered = 0u64;
    let mut top = 0i64;
    let n = win.min(3000) as u64;
    let mut seq = pbase;
    let len0 = *src.pick(&[1448usize, 1448, 1000, 100, 8]);
    for round in 0..1 + src.below(3) {
        for k in 0..n {
            let chan = (k % 64) as u8;
            let mut dgs = Vec::new();
            match kind {
                0 => dgs.push(Dg { seq, chan, wlead: 0, clead: 0, frag: 0, last: 0, data: vec![1; len0] }),
                1 => dgs.push(Dg { seq, chan, wlead: 0, clead: 0, frag: 0, last: match src.below(3) { 0 => 1, 1 => src.below(30) as u16, _ => src.below(65536) as u16 }, data: vec![1; 1448] }),
                // never deliverable: parents which do not exist
                2 => dgs.push(Dg { seq, chan, wlead: 1 + (k as u16), clead: 1 + (k as u16), frag: 0, last: 0, data: vec![1; len0] }),
                3 => { let last = 1 + src.below(6) as u16; for f in 0..=last { dgs.push(Dg { seq, chan: 0, wlead: 1, clead: 1, frag: f, last, data: vec![1; if f < last { 1448 } else { src.below(1449) as usize }] }); } }
                4 => dgs.push(gen_dg(src, seq, 1462, 500)),
                _ => { for _ in 0..16 { dgs.push(Dg { seq, chan, wlead: 0, clead: 0, frag: 0, last: 0, data: vec![1; 60] }); seq = (seq + 1) & (PSPAN - 1); } }
            }
            let mut i = 0;
            while i < dgs.len() {
                let mut fr = Vec::new();
                let mut room = 1462;
                while i < dgs.len() && wire::dg_size(&dgs[i]) <= room && fr.len() < 127 { room -= wire::dg_size(&dgs[i]); fr.push(dgs[i].clone()); i += 1; }
                offered += fr.iter().map(|d| (d.last as u64 + 1) * d.data.len() as u64).sum::<u64>();
                v.put(&W::Data { id, nonce: false, dgs: fr });
                id = id.wrapping_add(1);
            }
            seq = (seq + 1) & (PSPAN - 1);
            let live = alloc::live() - base;
            top = top.max(live);
            if live > bound {
                return Err(format!("receive memory exceeds the limit: {} bytes held with max_receive_alloc {} ({} rounded up, {} bytes of bookkeeping granted)", live, limit, ceil_frag(limit), slack));
            }
            if src.chance(read) { v.receive(); }
            if src.chance(step_p) { v.flush(); v.wait(20 * MS); v.step(); }
        }
        v.receive();
        if src.flip() { v.put(&W::Sync { frame: None, packet: Some(seq) }); v.receive(); }
        let live = alloc::live() - base;
        if live > bound {
            return Err(format!("receive memory exceeds the limit: {} bytes held after reading with max_receive_alloc {}", live, limit));
        }
        v.wait(20 * MS);
        v.step();
        v.flush();
        // attack on, from the window the victim reports
        if round > 0 || src.flip() { seq = v.rxp; }
    }
    cx.count("bytes offered", offered);
    cx.count("peak bytes held", top.max(0) as u64);
    cx.nontrivial = offered > 2 * limit as u64;
    v.drop_hc();
    Ok(())
}

/// Arbitrary hostile traffic with a loose bound: everything but packet data is bounded by constants.
fn c06_mixed(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut v = gen_victim(src);
    let limit = v.cfg.rx_alloc_limit;
    let base = alloc::live();
    let bound = ceil_frag(limit) + 300_000 + 2 * limit as i64 / 1448;
    let n = 10 + src.log(0, 200);
    let style = src.below(4);
    let mut off = 0u64;
    let mut id = v.rxf;
    for _ in 0..n {
        if style == 3 {
            // acknowledgements owed are never collected: frames with large gaps, no flush
            for _ in 0..200 {
                id = id.wrapping_add(*src.pick(&[33u32, 32, 64, 40]).min(&v.cfg.rx_frame_window_size.max(1)));
                v.put(&W::Data { id, nonce: true, dgs: vec![] });
                id = id.wrapping_add(1);
                off += 1;
            }
        } else {
            match src.below(4) {
                0 => { let w = gen_sync(src, &v); v.put(&w); }
                1 => { let d = gen_raw(src, &v.old); v.input(&d); }
                _ => {
                    let w = gen_data(src, v.rxf, v.rxp, 500);
                    if let W::Data { id, dgs, .. } = &w {
                        if id.wrapping_sub(v.rxf) < v.cfg.rx_frame_window_size { v.rxf = id.wrapping_add(1); }
                        for d in dgs { off += d.data.len() as u64 * (d.last as u64 + 1); }
                    }
                    v.put(&w);
                }
            }
            if src.below(8) == 7 { v.receive(); }
            if src.below(8) == 7 { v.flush(); v.wait(20 * MS); v.step(); v.receive(); }
        }
        let live = alloc::live() - base;
        if live > bound {
            return Err(format!("receive state is not bounded: {} bytes held with max_receive_alloc {} (300000 bytes of bookkeeping granted)", live, limit));
        }
    }
    if style == 3 { cx.label("acknowledgements never collected"); cx.count("frames never acknowledged", off); }
    cx.nontrivial = style == 3 || off > 2 * limit as u64;
    v.drop_hc();
    Ok(())
}

// ---- C19 ----------------------------------------------------------------------------------

fn c19_hostile(src: &mut Src, cx: &mut Cx) -> CaseResult {
    cx.heap_contract = true;
    let mut v = gen_victim(src);
    let n = 5 + src.log(0, 120);
    let multi = *src.pick(&[700u64, 300, 1000]);
    for _ in 0..n {
        hostile_op(&mut v, src, cx, multi);
    }
    cx.nontrivial = v.frames_in >= 5 && v.acks_out > 0;
    v.drop_hc();
    check_all_returned("connection")
}

pub fn check_all_returned(what: &str) -> CaseResult {
    if alloc::live() != 0 || alloc::live_blocks() != 0 {
        return Err(format!("memory not returned: dropping the {} leaves {} bytes in {} blocks", what, alloc::live(), alloc::live_blocks()));
    }
    Ok(())
}
