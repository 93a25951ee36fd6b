//! Simulator for a pair of `HalfConnection`s joined by two faulty links under the virtual clock,
//! with a complete trace (sends, steps, emissions, arrivals, receptions) for the oracles.

use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap, VecDeque};
use std::rc::Rc;

use uflow::verif::{Config, Frame, FrameSink, HalfConnection, PacketSink, Serialize};
use uflow::SendMode;

use crate::engine::{hash_bytes, mix, CaseResult, Cx, Rng, Src};
use crate::wire::{self, W};
use crate::{alloc, call, sys};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
pub const MODES: [SendMode; 4] = [SendMode::Reliable, SendMode::Persistent, SendMode::Unreliable, SendMode::TimeSensitive];

#[derive(Clone)]
pub struct Pkt {
    pub chan: u8,
    pub mode: SendMode,
    pub data: Rc<[u8]>,
    pub t: u64,
    pub epoch: u32,
}

pub struct Got {
    pub t: u64,
    pub data: Rc<[u8]>,
}

pub struct Emission {
    pub t: u64,
    /// time of the sender's latest step (the send time it attributes to the frame)
    pub st: u64,
    pub from: usize,
    pub epoch: u32,
    pub data: Rc<[u8]>,
    pub w: Option<W>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Send(usize, u32),
    Step(usize),
    Emit(u32),
    /// to, emission, intact
    Arrive(usize, u32, bool),
    Recv(usize, u32),
    /// send_buffer_size sample
    Size(usize, u64),
    /// RTT estimate after a step, bits of an f64 in seconds (NaN: none)
    Rtt(usize, u64),
    /// after a step: send rate, loss event rate, RTT (bits of f64)
    State(usize, (u64, u64, u64)),
}

#[derive(Clone, Default)]
pub struct Link {
    pub lat: u64,
    pub jitter: u64,
    pub loss: u64,
    pub dup: u64,
    pub corrupt: u64,
    pub delay: u64,
    pub delay_max: u64,
    pub fifo: bool,
    /// nothing passes in these intervals
    pub black: Vec<(u64, u64)>,
    /// frames of the given kinds (1 data, 2 sync, 4 acknowledgements) are lost in these intervals
    pub drop_kind: Vec<(u64, u64, u8)>,
    /// the first so many frames with this fragment (packet id, fragment id) are lost
    pub victim: Option<(u32, Option<u16>, u32)>,
    pub last_arrival: u64,
}

impl Link {
    pub fn ideal(lat: u64) -> Link {
        Link { lat, fifo: true, ..Link::default() }
    }
}

enum Item {
    Intact(u32),
    Altered(u32, Vec<u8>),
}

pub struct Sim {
    pub seed: u64,
    /// how long the objects under test have existed at time 0
    pub age: u64,
    pub now: u64,
    pub cfg: [Config; 2],
    pub hc: Vec<HalfConnection>,
    pub sent: [Vec<Pkt>; 2],
    pub got: [Vec<Got>; 2],
    pub em: Vec<Emission>,
    pub ev: Vec<(u64, Ev)>,
    pub epoch: [u32; 2],
    pub step_t: [u64; 2],
    pub link: [Link; 2],
    pub due: [u64; 2],
    queue: BinaryHeap<Reverse<(u64, u64, usize, usize)>>,
    items: HashMap<usize, Item>,
    nitem: usize,
    pub inbox: [VecDeque<usize>; 2],
    pub trace: bool,
    pub states: bool,
    pub lost: u64,
    pub altered: u64,
    pub dupped: u64,
    pub delayed: u64,
    pub bytes_out: [u64; 2],
    pub auto_receive: bool,
}

pub struct VecSink(pub Vec<Vec<u8>>);
impl FrameSink for VecSink {
    fn send(&mut self, d: &[u8]) {
        crate::engine::outside(|| self.0.push(d.to_vec()));
    }
}
pub struct PkSink(pub Vec<Vec<u8>>);
impl PacketSink for PkSink {
    fn send(&mut self, d: Box<[u8]>) {
        crate::engine::outside(|| {
            self.0.push(d.to_vec());
            drop(d);
        });
    }
}

/// Content of packet `idx` of `side`: unique (for 8 bytes or more) and reproducible.
pub fn payload(seed: u64, side: usize, idx: u32, len: usize) -> Vec<u8> {
    let mut r = Rng(mix(seed ^ ((side as u64 + 1) << 40) ^ idx as u64));
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(len);
    v
}

pub fn hc_config(base: [u32; 2], pbase: [u32; 2], fwin: u32, pwin: u32) -> [Config; 2] {
    let a = Config {
        tx_frame_base_id: base[0],
        rx_frame_base_id: base[1],
        tx_frame_window_size: fwin,
        rx_frame_window_size: fwin,
        tx_packet_base_id: pbase[0],
        rx_packet_base_id: pbase[1],
        tx_packet_window_size: pwin,
        rx_packet_window_size: pwin,
        tx_bandwidth_limit: 2_000_000,
        tx_alloc_limit: 1_000_000,
        rx_alloc_limit: 1_000_000,
        keepalive_interval_ms: Some(5000),
    };
    let mut b = a.clone();
    b.tx_frame_base_id = base[1];
    b.rx_frame_base_id = base[0];
    b.tx_packet_base_id = pbase[1];
    b.rx_packet_base_id = pbase[0];
    [a, b]
}

pub const PSPAN: u32 = 1 << 20;

/// Base ids biased to the neighbourhood of wrap-around, windows biased to small and to full size.
pub fn gen_config(src: &mut Src) -> [Config; 2] {
    let fw = *src.pick(&[4096u32, 4096, 1, 2, 4, 8, 16, 64, 256]);
    let pw = *src.pick(&[4096u32, 4096, 1, 2, 4, 8, 16, 64, 256]);
    let mut fb = [0u32; 2];
    let mut pb = [0u32; 2];
    for i in 0..2 {
        fb[i] = match src.below(4) {
            0 => 0,
            1 | 2 => 0u32.wrapping_sub(1 + src.below(300) as u32),
            _ => src.u32(),
        };
        pb[i] = match src.below(4) {
            0 => 0,
            1 | 2 => PSPAN - 1 - src.below(300) as u32,
            _ => src.below(PSPAN as u64) as u32,
        };
    }
    hc_config(fb, pb, fw, pw)
}

/// Millisecond counters exceed 31 or 32 bits soon after the start of some cases.
pub fn gen_age(src: &mut Src) -> u64 {
    if src.below(24) < 23 { return 0; }
    ((1u64 << *src.pick(&[32u64, 31, 33])) - src.below(3000)) * MS
}

impl Sim {
    pub fn set_age(&mut self, age: u64) {
        self.age = age;
        self.set_now(self.now);
    }

    pub fn new(cfg: [Config; 2], seed: u64) -> Sim {
        sys::set_clock(sys::T0_NS);
        let mut hc = Vec::with_capacity(2);
        for c in &cfg {
            let c = c.clone();
            hc.push(call!("HalfConnection::new", HalfConnection::new(c)));
        }
        let mut s = Sim {
            seed,
            age: 0,
            now: 0,
            cfg,
            hc,
            sent: [Vec::new(), Vec::new()],
            got: [Vec::new(), Vec::new()],
            em: Vec::new(),
            ev: Vec::new(),
            epoch: [0, 0],
            step_t: [0, 0],
            link: [Link::ideal(0), Link::ideal(0)],
            due: [0, 0],
            queue: BinaryHeap::new(),
            items: HashMap::new(),
            nitem: 0,
            inbox: [VecDeque::new(), VecDeque::new()],
            trace: true,
            states: false,
            lost: 0,
            altered: 0,
            dupped: 0,
            delayed: 0,
            bytes_out: [0, 0],
            auto_receive: true,
        };
        // endpoints always step a connection in the call that creates it
        s.step(0);
        s.step(1);
        s
    }

    /// Only a trace, for connections that live inside real endpoints.
    pub fn trace_only(seed: u64) -> Sim {
        Sim {
            seed,
            age: 0,
            now: 0,
            cfg: hc_config([0, 0], [0, 0], 4096, 4096),
            hc: Vec::new(),
            sent: [Vec::new(), Vec::new()],
            got: [Vec::new(), Vec::new()],
            em: Vec::new(),
            ev: Vec::new(),
            epoch: [0, 0],
            step_t: [0, 0],
            link: [Link::ideal(0), Link::ideal(0)],
            due: [0, 0],
            queue: BinaryHeap::new(),
            items: HashMap::new(),
            nitem: 0,
            inbox: [VecDeque::new(), VecDeque::new()],
            trace: true,
            states: false,
            lost: 0,
            altered: 0,
            dupped: 0,
            delayed: 0,
            bytes_out: [0, 0],
            auto_receive: true,
        }
    }

    pub fn set_now(&mut self, t: u64) {
        self.now = t;
        sys::set_clock(sys::T0_NS + self.age + t);
    }

    fn log(&mut self, e: Ev) {
        if self.trace {
            self.ev.push((self.now, e));
        }
    }

    pub fn send(&mut self, side: usize, chan: u8, mode: SendMode, len: usize) -> usize {
        let idx = self.sent[side].len() as u32;
        let v = payload(self.seed, side, idx, len);
        self.send_data(side, chan, mode, v)
    }

    pub fn send_data(&mut self, side: usize, chan: u8, mode: SendMode, v: Vec<u8>) -> usize {
        let idx = self.sent[side].len() as u32;
        let p = Pkt { chan, mode, data: Rc::from(&v[..]), t: self.now, epoch: self.epoch[side] };
        self.sent[side].push(p);
        let hc = &mut self.hc[side];
        call!("send", hc.send(v.clone().into_boxed_slice(), chan, mode));
        self.log(Ev::Send(side, idx));
        idx as usize
    }

    pub fn flush(&mut self, side: usize, src: &mut Src) {
        let mut sink = VecSink(Vec::new());
        let hc = &mut self.hc[side];
        call!("flush", hc.flush(&mut sink));
        for d in sink.0 {
            self.emitted(side, d, src);
        }
    }

    fn emitted(&mut self, side: usize, d: Vec<u8>, src: &mut Src) {
        let id = self.em.len() as u32;
        self.bytes_out[side] += d.len() as u64;
        let w = wire::read(&d);
        let data: Rc<[u8]> = Rc::from(&d[..]);
        self.em.push(Emission { t: self.now, st: self.step_t[side], from: side, epoch: self.epoch[side], data, w });
        self.log(Ev::Emit(id));
        self.transmit(side, id, src);
    }

    /// Sends emission `id` over the link of `side` (again).
    pub fn transmit(&mut self, side: usize, id: u32, src: &mut Src) {
        let now = self.now;
        let l = &mut self.link[side];
        if l.black.iter().any(|b| now >= b.0 && now < b.1) {
            self.lost += 1;
            return;
        }
        if !l.drop_kind.is_empty() {
            let k = match &self.em[id as usize].w { Some(W::Data { .. }) => 1, Some(W::Sync { .. }) => 2, Some(W::Acks { .. }) => 4, _ => 0 };
            if l.drop_kind.iter().any(|b| now >= b.0 && now < b.1 && b.2 & k != 0) {
                self.lost += 1;
                return;
            }
        }
        if let Some((seq, frag, left)) = &mut l.victim {
            if let Some(W::Data { dgs, .. }) = &self.em[id as usize].w {
                if *left > 0 && dgs.iter().any(|d| d.seq == *seq && frag.map_or(true, |f| f.min(d.last) == d.frag)) {
                    *left -= 1;
                    self.lost += 1;
                    return;
                }
            }
        }
        let mut copies = 1;
        let mut alter = false;
        let mut extra = 0;
        let total = l.loss + l.dup + l.corrupt + l.delay;
        if total > 0 {
            let v = src.below(1024);
            // high values are faults, so that zero is a normal delivery
            let mut top = 1024;
            let mut hit = |p: u64| {
                top -= p.min(top);
                v >= top && v < top + p
            };
            if hit(l.loss) {
                self.lost += 1;
                return;
            }
            if hit(l.dup) {
                copies = 2 + src.below(2);
                self.dupped += 1;
            }
            if hit(l.corrupt) {
                alter = true;
            }
            if hit(l.delay) {
                extra = src.below(l.delay_max.max(1));
                self.delayed += 1;
            }
        }
        let l = &mut self.link[side];
        let (lat, jitter, fifo, dmax) = (l.lat, l.jitter, l.fifo, l.delay_max);
        for c in 0..copies {
            let mut at = now + lat + extra;
            if jitter > 0 {
                at += src.below(jitter / 1000 + 1) * 1000;
            }
            if c > 0 {
                at += src.below(dmax.max(1));
            }
            if fifo && extra == 0 && c == 0 {
                let l = &mut self.link[side];
                at = at.max(l.last_arrival);
                l.last_arrival = at;
            }
            let item = if alter && c == 0 {
                let mut d = self.em[id as usize].data.to_vec();
                let n = 1 + src.below(4);
                for _ in 0..n {
                    let b = src.below(d.len() as u64 * 8) as usize;
                    d[b / 8] ^= 1 << (b % 8);
                }
                if d[..] == self.em[id as usize].data[..] {
                    Item::Intact(id)
                } else {
                    self.altered += 1;
                    Item::Altered(id, d)
                }
            } else {
                Item::Intact(id)
            };
            self.put(at, 1 - side, item);
        }
    }

    fn put(&mut self, at: u64, to: usize, item: Item) {
        let k = self.nitem;
        self.nitem += 1;
        self.items.insert(k, item);
        self.queue.push(Reverse((at, k as u64, to, k)));
    }

    /// Schedules arrival of arbitrary bytes at `to`.
    pub fn inject_emission(&mut self, at: u64, to: usize, em: u32) {
        self.put(at, to, Item::Intact(em));
    }

    /// Moves everything that has arrived by now to the inboxes.
    pub fn arrive(&mut self) {
        while let Some(&Reverse((at, _, to, k))) = self.queue.peek() {
            if at > self.now {
                break;
            }
            self.queue.pop();
            self.inbox[to].push_back(k);
        }
    }

    pub fn in_flight(&self) -> usize {
        self.queue.len() + self.inbox[0].len() + self.inbox[1].len()
    }

    pub fn deliver_inbox(&mut self, side: usize) {
        self.arrive();
        while let Some(k) = self.inbox[side].pop_front() {
            let item = self.items.remove(&k).unwrap();
            match item {
                Item::Intact(id) => {
                    let d = self.em[id as usize].data.clone();
                    self.log(Ev::Arrive(side, id, true));
                    self.input(side, &d);
                }
                Item::Altered(id, d) => {
                    self.log(Ev::Arrive(side, id, false));
                    self.input(side, &d);
                }
            }
        }
    }

    /// One datagram arriving at `side`, dispatched as the endpoints do.
    pub fn input(&mut self, side: usize, d: &[u8]) {
        let hc = &mut self.hc[side];
        call!("handle_frame", hc_input(hc, d));
    }

    pub fn step(&mut self, side: usize) {
        let hc = &mut self.hc[side];
        call!("step", hc.step());
        self.epoch[side] += 1;
        self.step_t[side] = self.now;
        self.log(Ev::Step(side));
        if self.trace {
            let hc = &self.hc[side];
            let r = call!("rtt_s", hc.rtt_s());
            self.log(Ev::Rtt(side, r.unwrap_or(f64::NAN).to_bits()));
            if self.states {
                let hc = &self.hc[side];
                let (x, p) = (hc.verif_send_rate(), hc.verif_loss_rate());
                self.log(Ev::State(side, (x.to_bits(), p.to_bits(), r.unwrap_or(f64::NAN).to_bits())));
            }
        }
    }

    pub fn receive(&mut self, side: usize) -> usize {
        let mut sink = PkSink(Vec::new());
        let hc = &mut self.hc[side];
        call!("receive", hc.receive(&mut sink));
        let n = sink.0.len();
        for d in sink.0 {
            let i = self.got[side].len() as u32;
            self.got[side].push(Got { t: self.now, data: Rc::from(&d[..]) });
            self.log(Ev::Recv(side, i));
        }
        n
    }

    pub fn size(&mut self, side: usize) -> usize {
        let hc = &self.hc[side];
        let v = call!("send_buffer_size", hc.send_buffer_size());
        self.log(Ev::Size(side, v as u64));
        v
    }

    pub fn pending(&self, side: usize) -> bool {
        let hc = &self.hc[side];
        call!("is_send_pending", hc.is_send_pending())
    }

    pub fn rtt(&self, side: usize) -> Option<f64> {
        let hc = &self.hc[side];
        call!("rtt_s", hc.rtt_s())
    }

    /// The order of operations of Client::step and Server::step.
    pub fn tick(&mut self, side: usize, src: &mut Src) {
        self.flush(side, src);
        self.deliver_inbox(side);
        self.step(side);
        if self.auto_receive {
            self.receive(side);
        }
    }

    pub fn quiescent(&mut self) -> bool {
        (0..2).all(|s| !self.pending(s) && { let hc = &self.hc[s]; call!("send_buffer_size", hc.send_buffer_size()) } == 0)
    }

    /// Runs ticks of both sides until `until`; `app` is called after each tick.
    pub fn run(&mut self, until: u64, cadence: [u64; 2], jit: u64, src: &mut Src, cx: &mut Cx, mut app: impl FnMut(&mut Sim, usize, &mut Src, &mut Cx) -> Result<bool, String>) -> CaseResult {
        loop {
            let side = if self.due[0] <= self.due[1] { 0 } else { 1 };
            let t = self.due[side].max(self.now);
            if t > until {
                return Ok(());
            }
            self.set_now(t);
            self.tick(side, src);
            if !app(self, side, src, cx)? {
                return Ok(());
            }
            let mut dt = cadence[side];
            if jit > 0 {
                dt += src.below(jit / 1000 + 1) * 1000;
            }
            self.due[side] = t + dt.max(1);
        }
    }

    pub fn dump(&self, cx: &mut Cx) {
        if !cx.verbose {
            return;
        }
        for (t, e) in &self.ev {
            let t = *t as f64 / 1e6;
            cx.log(|| match e {
                Ev::Send(s, i) => { let p = &self.sent[*s][*i as usize]; format!("{:.3}ms {} send #{} ch{} {:?} {}B", t, side(*s), i, p.chan, p.mode, p.data.len()) }
                Ev::Step(s) => format!("{:.3}ms {} step", t, side(*s)),
                Ev::Emit(i) => { let e = &self.em[*i as usize]; format!("{:.3}ms {} emit e{} {}B {}", t, side(e.from), i, e.data.len(), e.w.as_ref().map(wire::show).unwrap_or("unparsable".into())) }
                Ev::Arrive(s, i, ok) => format!("{:.3}ms {} arrive e{}{}", t, side(*s), i, if *ok { "" } else { " (altered)" }),
                Ev::Recv(s, i) => format!("{:.3}ms {} receive {}B #{}", t, side(*s), self.got[*s][*i as usize].data.len(), i),
                Ev::Rtt(s, v) => format!("{:.3}ms {} rtt {:?}", t, side(*s), f64::from_bits(*v)),
                Ev::State(s, v) => format!("{:.3}ms {} X={} p={}", t, side(*s), f64::from_bits(v.0), f64::from_bits(v.1)),
                Ev::Size(s, v) => format!("{:.3}ms {} size {}", t, side(*s), v),
            });
        }
    }

    // ---- oracles shared by several properties ---------------------------------------------

    /// C01 (and with `reliable`, the no-skip half of C02) for the direction from -> 1-from.
    pub fn check_delivery(&self, from: usize, reliable: bool, complete: bool) -> CaseResult {
        let rcv: Vec<Rc<[u8]>> = self.got[1 - from].iter().map(|g| g.data.clone()).collect();
        check_delivery(&self.sent[from], &rcv, reliable, complete)
    }
}

pub fn side(s: usize) -> &'static str {
    if s == 0 { "A" } else { "B" }
}

pub fn hc_input(hc: &mut HalfConnection, d: &[u8]) {
    if d.len() > 1472 {
        return;
    }
    match Frame::read(d) {
        Some(Frame::DataFrame(f)) => hc.handle_data_frame(f),
        Some(Frame::SyncFrame(f)) => hc.handle_sync_frame(f),
        Some(Frame::AckFrame(f)) => hc.handle_ack_frame(f),
        _ => (),
    }
}

/// Per-channel subsequence check with byte equality. Payloads of 8 bytes or more are unique, so the
/// channel of a reception is known from its content; shorter ones are confined to one channel and
/// matched by a set-of-positions automaton (exists an embedding).
pub fn check_delivery(sent: &[Pkt], got: &[Rc<[u8]>], reliable: bool, complete: bool) -> CaseResult {
    let mut by_hash: HashMap<u64, usize> = HashMap::new();
    let mut tiny_chan: Option<u8> = None;
    for (i, p) in sent.iter().enumerate() {
        if p.data.len() >= 8 {
            by_hash.insert(hash_bytes(&p.data), i);
        } else {
            assert!(tiny_chan.is_none() || tiny_chan == Some(p.chan), "harness: tiny payloads on several channels");
            tiny_chan = Some(p.chan);
        }
    }
    // per channel: list of submission indices
    let mut chans: HashMap<u8, Vec<usize>> = HashMap::new();
    let mut pos_in_chan = vec![0usize; sent.len()];
    for (i, p) in sent.iter().enumerate() {
        let v = chans.entry(p.chan).or_default();
        pos_in_chan[i] = v.len();
        v.push(i);
    }
    // per channel: set of possible "next position" values
    let mut state: HashMap<u8, Vec<usize>> = HashMap::new();
    for (n, d) in got.iter().enumerate() {
        let chan = if d.len() >= 8 {
            match by_hash.get(&hash_bytes(d)) {
                Some(&i) if sent[i].data[..] == d[..] => sent[i].chan,
                _ => return Err(format!("delivered contents never submitted: reception {} of {} bytes matches no submitted packet", n, d.len())),
            }
        } else {
            match tiny_chan {
                Some(c) => c,
                None => return Err(format!("delivered contents never submitted: reception {} of {} bytes matches no submitted packet", n, d.len())),
            }
        };
        let list = &chans[&chan];
        let st = state.entry(chan).or_insert_with(|| vec![0]);
        let mut next = Vec::new();
        if d.len() >= 8 {
            let i = by_hash[&hash_bytes(d)];
            let q = pos_in_chan[i];
            let mut ok = false;
            let mut skipped = None;
            for &p in st.iter() {
                if p > q { continue; }
                if reliable {
                    if let Some(&r) = list[p..q].iter().find(|&&j| sent[j].mode == SendMode::Reliable) {
                        skipped = Some(r);
                        continue;
                    }
                }
                ok = true;
            }
            if !ok {
                if let Some(r) = skipped {
                    return Err(format!("reliable packet skipped: packet #{} (channel {}) delivered although Reliable #{} of that channel had not been", i, chan, r));
                }
                return Err(format!("out of order or duplicate delivery: packet #{} on channel {} delivered again or after a later one", i, chan));
            }
            next.push(q + 1);
        } else {
            for &p in st.iter() {
                for q in p..list.len() {
                    if sent[list[q]].data[..] == d[..] && next.last().map_or(true, |&l| l < q + 1 || !next.contains(&(q + 1))) && !next.contains(&(q + 1)) {
                        next.push(q + 1);
                    }
                    if reliable && sent[list[q]].mode == SendMode::Reliable {
                        break;
                    }
                }
            }
            if next.is_empty() {
                return Err(format!("delivered sequence is no ordered subsequence of the submissions: reception {} ({} bytes) on channel {}", n, d.len(), chan));
            }
            next.sort();
        }
        *st = next;
    }
    if complete {
        for (c, list) in &chans {
            let st = state.get(c).cloned().unwrap_or_else(|| vec![0]);
            let ok = st.iter().any(|&p| !list[p..].iter().any(|&j| sent[j].mode == SendMode::Reliable));
            if !ok {
                let p = *st.iter().max().unwrap();
                let r = list[p..].iter().find(|&&j| sent[j].mode == SendMode::Reliable).unwrap();
                return Err(format!("reliable packet never delivered: #{} on channel {} ({} bytes)", r, c, sent[*r].data.len()));
            }
        }
    }
    Ok(())
}

// ---- mapping of emitted datagrams to submissions ------------------------------------------

pub struct Tx {
    pub em: u32,
    pub pkt: usize,
    pub frag: u16,
    pub seq: u32,
}

pub fn nfrags(len: usize) -> usize {
    if len == 0 { 1 } else { (len + wire::MAX_FRAG - 1) / wire::MAX_FRAG }
}

fn frag_slice(p: &Pkt, frag: usize) -> &[u8] {
    let a = frag * wire::MAX_FRAG;
    &p.data[a.min(p.data.len())..(a + wire::MAX_FRAG).min(p.data.len())]
}

/// Attributes every datagram emitted by `from` to the submitted packet it carries a fragment of.
/// Fails when a datagram is no exact fragment of any submitted packet that may be on the wire.
pub fn map_emissions(sim: &Sim, from: usize) -> Result<Vec<Tx>, String> {
    let sent = &sim.sent[from];
    let mut out = Vec::new();
    let mut cur: HashMap<u32, usize> = HashMap::new();
    let mut next_sub = 0usize;
    for (i, e) in sim.em.iter().enumerate() {
        if e.from != from {
            continue;
        }
        if e.data.len() > wire::MAX_FRAME {
            return Err(format!("oversized datagram: emission e{} has {} bytes", i, e.data.len()));
        }
        let w = match &e.w {
            Some(w) => w,
            None => return Err(format!("unparsable emission: e{}", i)),
        };
        if let W::Data { dgs, .. } = w {
            for d in dgs {
                let fits = |p: &Pkt| p.chan == d.chan && nfrags(p.data.len()) == d.last as usize + 1 && d.frag <= d.last && frag_slice(p, d.frag as usize) == &d.data[..];
                if let Some(&k) = cur.get(&d.seq) {
                    if fits(&sent[k]) {
                        out.push(Tx { em: i as u32, pkt: k, frag: d.frag, seq: d.seq });
                        continue;
                    }
                }
                // a packet seen for the first time under this sequence id
                let mut found = None;
                let mut j = next_sub;
                while j < sent.len() {
                    if fits(&sent[j]) && (sent[j].t <= e.t) {
                        found = Some(j);
                        break;
                    }
                    if sent[j].mode != SendMode::TimeSensitive {
                        break;
                    }
                    j += 1;
                }
                match found {
                    Some(j) => {
                        cur.insert(d.seq, j);
                        next_sub = j + 1;
                        out.push(Tx { em: i as u32, pkt: j, frag: d.frag, seq: d.seq });
                    }
                    None => return Err(format!("emitted datagram matches no submission: e{} seq {} ch{} frag {}/{} {} bytes; next submission expected #{}", i, d.seq, d.chan, d.frag, d.last, d.data.len(), next_sub)),
                }
            }
        }
    }
    Ok(out)
}

pub fn dump_on_err(sim: &Sim, cx: &mut Cx, r: CaseResult) -> CaseResult {
    sim.dump(cx);
    let _ = alloc::live();
    r
}
