//! Histories of a connection pair for C04 (end to end), C06 (sender side), C11, C13, C15 and C19.

use std::collections::{HashMap, HashSet};

use uflow::SendMode;

use crate::engine::{mix, CaseResult, Cx, Prop, Src, Test, Tier};
use crate::hc::*;
use crate::props::delivery::{check_global_order, tx_view};
use crate::props::hostile::check_all_returned;
use crate::wire::{self, W};
use crate::world::{self, Profile, STD};
use crate::call;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "(history) packets of more than one fragment were delivered although frames were lost, repeated or reordered",
            tests: vec![Test { name: "history", quick: 40_000, thorough: 1_000_000, f: c04_history }],
        },
        Prop {
            id: "C06",
            rule: "(pair) the sender was held back by the receiver's memory limit or packet window at least once",
            tests: vec![Test { name: "pair", quick: 80_000, thorough: 2_000_000, f: c06_pair }],
        },
        Prop {
            id: "C11",
            rule: "a case is non-trivial when at least 20 frames, and in one direction everything of some kind for at least 2 s, were lost, or the latency changed at least tenfold, or an endpoint never stopped sending, before the probes",
            tests: vec![
                Test { name: "blackout", quick: 15_000, thorough: 600_000, f: c11_blackout },
            ],
        },
        Prop {
            id: "C13",
            rule: "a case is non-trivial when the ceiling was binding: at some instant less than 2 frames of room were left below the bound over some interval of at least 10 frames",
            tests: vec![Test { name: "ceiling", quick: 200_000, thorough: 5_000_000, f: c13_ceiling }],
        },
        Prop {
            id: "C15",
            rule: "a case is non-trivial when at least 5 bogus acknowledgements were delivered and at least 20 frames emitted",
            tests: vec![Test { name: "twin", quick: 80_000, thorough: 2_000_000, f: c15_twin }],
        },
        Prop {
            id: "C19",
            rule: "(history) a connection pair exchanged at least 5 packets, was dropped at an arbitrary moment, and returned all its memory",
            tests: vec![Test { name: "history", quick: 100_000, thorough: 3_000_000, f: c19_history }],
        },
    ]
}

// ---- C04 ----------------------------------------------------------------------------------

fn c04_history(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let big = src.below(12) == 11;
    let p = Profile { max_len: if big { 190_000 } else { 70_000 }, budget: if big { 600_000 } else { 300_000 }, ts: true, ..STD };
    let w = world::run(src, cx, &p)?;
    let s = &w.sim;
    let mut r = Ok(());
    for from in 0..2 {
        r = r.and_then(|_| map_emissions(s, from).map(|_| ())).and_then(|_| s.check_delivery(from, false, false));
    }
    let multi = s.got.iter().any(|v| v.iter().any(|g| g.data.len() > wire::MAX_FRAG));
    if multi { cx.label("multi-fragment packets delivered"); }
    cx.nontrivial = multi && s.lost + s.dupped + s.delayed > 0;
    world::finish(&w, cx, r)
}

// ---- C06 ----------------------------------------------------------------------------------

fn rounded(len: usize) -> usize {
    (len + wire::MAX_FRAG - 1) / wire::MAX_FRAG * wire::MAX_FRAG
}

fn c06_pair(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let faults = src.flip();
    let big = src.below(12) == 11;
    let p = Profile { faults, tight: true, max_len: if big { 190_000 } else { 60_000 }, budget: if big { 600_000 } else { 150_000 }, ..STD };
    let w = world::run(src, cx, &p)?;
    let s = &w.sim;
    let mut r = Ok(());
    for from in 0..2 {
        r = r.and_then(|_| check_outstanding(s, from, cx));
        if !faults {
            r = r.and_then(|_| {
                let tx = map_emissions(s, from)?;
                let em: HashSet<usize> = tx.iter().map(|t| t.pkt).collect();
                let got: Vec<_> = s.got[1 - from].iter().map(|g| g.data.clone()).collect();
                check_global_order(&s.sent[from], &got, Some(&em)).map_err(|e| format!("packet discarded between two uflow endpoints although nothing was lost in transit: {}", e))
            });
        }
        r = r.and_then(|_| s.check_delivery(from, true, true));
    }
    if r.is_ok() && !w.quiet {
        r = Err("sender still reports data outstanding after a long fault-free phase (small memory limits)".into());
    }
    world::finish(&w, cx, r)
}

pub fn check_outstanding(s: &Sim, from: usize, cx: &mut Cx) -> CaseResult {
    let tx = map_emissions(s, from)?;
    let view = tx_view(&tx);
    let sent = &s.sent[from];
    let cfg = &s.cfg[from];
    let m = PSPAN - 1;
    let (mut pbase, mut pnext) = (cfg.tx_packet_base_id, cfg.tx_packet_base_id);
    let mut live: HashMap<u32, usize> = HashMap::new();
    let mut bytes = 0usize;
    let limit = rounded(cfg.tx_alloc_limit.max(1));
    let mut tight = false;
    let mut seen: HashSet<usize> = HashSet::new();
    let mut last_sent = 0usize;
    for (t, e) in &s.ev {
        match e {
            Ev::Send(sd, i) if *sd == from => last_sent = *i as usize + 1,
            Ev::Emit(id) if s.em[*id as usize].from == from => {
                for &(pkt, _, seq) in view.by_em.get(id).map(|v| &v[..]).unwrap_or(&[]) {
                    if seen.insert(pkt) {
                        let l = sent[pkt].data.len();
                        bytes += if l <= wire::MAX_FRAG { l } else { rounded(l) };
                        live.insert(seq, pkt);
                        if seq.wrapping_sub(pnext) & m < PSPAN / 2 { pnext = (seq + 1) & m; }
                        if bytes > limit {
                            return Err(format!("sender exceeds the memory its peer advertised: {} bytes (fragment-rounded) unacknowledged at {:.3} ms, limit {} (advertised {})", bytes, *t as f64 / 1e6, limit, cfg.tx_alloc_limit));
                        }
                        let span = pnext.wrapping_sub(pbase) & m;
                        if span > cfg.tx_packet_window_size || live.len() > cfg.tx_packet_window_size as usize {
                            return Err(format!("sender exceeds the packet window: {} packets outstanding, window {}", span, cfg.tx_packet_window_size));
                        }
                        let next = (0..last_sent).find(|k| *k > pkt);
                        if let Some(k) = next {
                            let l = sent[k].data.len();
                            tight |= bytes + if l <= wire::MAX_FRAG { l } else { rounded(l) } > limit || span == cfg.tx_packet_window_size;
                        }
                    }
                }
            }
            Ev::Arrive(sd, id, true) if *sd == from => {
                if let Some(W::Acks { pbase: pb, .. }) = &s.em[*id as usize].w {
                    let delta = pb.wrapping_sub(pbase) & m;
                    let span = pnext.wrapping_sub(pbase) & m;
                    if delta <= span {
                        while pbase != *pb {
                            if let Some(p) = live.remove(&pbase) {
                                let l = sent[p].data.len();
                                bytes -= if l <= wire::MAX_FRAG { l } else { rounded(l) };
                            }
                            pbase = (pbase + 1) & m;
                        }
                    }
                }
            }
            _ => (),
        }
    }
    if tight { cx.label("sender held back by a limit"); cx.nontrivial = true; }
    Ok(())
}

// ---- C11 ----------------------------------------------------------------------------------

/// Probes are delivered within this much virtual time once frames flow again.
const PROBE_BOUND: u64 = 3000 * SEC;

fn c11_blackout(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut cfg = gen_config(src);
    for i in 0..2 {
        cfg[i].tx_bandwidth_limit = *src.pick(&[2_000_000u32, 2_000_000, 200_000, 20_000, 1_000_000_000]);
        cfg[i].keepalive_interval_ms = *src.pick(&[Some(5000u64), None]);
        let a = *src.pick(&[1_000_000usize, 65_536, 5000]);
        cfg[i].tx_alloc_limit = a;
        cfg[1 - i].rx_alloc_limit = a;
    }
    // Endpoints always use windows of 4096; a small one merely makes full windows frequent. The
    // backlog is limited in that case, since a window takes a round trip.
    let win = *src.pick(&[4096u32, 4096, 64, 16, 256]);
    for c in cfg.iter_mut() {
        c.tx_frame_window_size = win; c.rx_frame_window_size = win;
        c.tx_packet_window_size = win; c.rx_packet_window_size = win;
    }
    let alloc = [cfg[0].tx_alloc_limit, cfg[1].tx_alloc_limit];
    let mut s = Sim::new(cfg, cx.seed);
    s.set_age(gen_age(src));
    let lats = [0u64, 1, 10, 50, 100, 250, 500];
    let mut lat = *src.pick(&lats) * MS;
    s.link = [Link::ideal(lat), Link::ideal(lat)];
    let mut cad = [*src.pick(&[20u64, 5, 10, 50, 100]) * MS, *src.pick(&[20u64, 5, 10, 50, 100]) * MS];
    let p = Profile { max_len: 8000, budget: 60_000, ..STD };
    // An application which never stops talking: a small packet per step, unless its own backlog grows.
    // The other side has to acknowledge all of it.
    let chatter: [bool; 2] = match src.below(4) { 1 => [true, false], 2 => [false, true], 3 => [true, true], _ => [false, false] };
    let chat_mode = *src.pick(&[SendMode::Unreliable, SendMode::Reliable]);
    let chat = move |s: &mut Sim, side: usize| {
        if chatter[side] && s.hc[side].send_buffer_size() < 500 { s.send(side, 63, chat_mode, 12); }
    };
    let phases = src.below(4).min(3);
    let phases = if chatter == [false, false] { phases.max(1) } else { phases };
    let mut long_dark = false;
    let mut jump = false;
    for _ in 0..phases {
        // traffic of this phase
        let heavy = src.below(4);
        let mut work = [world::gen_work(src, &p, alloc[0]), world::gen_work(src, &p, alloc[1])];
        for w in work.iter_mut() {
            match heavy {
                1 => { w.style = 1; w.burst = 400; w.burst_p = 1000; w.pkts = 9000; w.bytes = 400_000; }
                2 => { w.burst = 60; w.burst_p = 1000; w.pkts = 1500; w.bytes = 400_000; }
                _ => (),
            }
            w.pkts = w.pkts.min(win as usize * 4);
        }
        if src.below(3) > 0 { work[1].pkts = 0; }
        // what happens to the network
        let t0 = s.now;
        let start = t0 + src.below(3000) * MS;
        let len = src.log(1, 200_000) * MS;
        let len = if src.flip() { len } else { len.min(20 * SEC) };
        match src.below(6) {
            0 => (),
            1 => { for l in s.link.iter_mut() { l.black.push((start, start + len)); } long_dark |= len >= 2 * SEC; }
            2 => { let d = src.below(2) as usize; s.link[d].black.push((start, start + len)); long_dark |= len >= 2 * SEC; }
            3 => { let k = *src.pick(&[4u8, 1, 2, 3, 5, 6]); let d = src.below(3); for i in 0..2 { if d == 2 || d == i as u64 { s.link[i].drop_kind.push((start, start + len, k)); } } long_dark |= len >= 2 * SEC; }
            4 => { let l = *src.pick(&[300u64, 50, 700, 950, 1000]); let d = src.below(3); for i in 0..2 { if d == 2 || d == i as u64 { s.link[i].loss = l; } } long_dark |= l >= 950; }
            _ => { for l in s.link.iter_mut() { l.delay = 300; l.delay_max = *src.pick(&[200u64, 2000, 20_000]) * MS; l.fifo = false; } }
        }
        if src.below(3) == 0 {
            let n = *src.pick(&[1u64, 10, 100, 1000, 2500, 500]) * MS;
            jump |= n.max(MS) >= 10 * lat.max(MS) || lat.max(MS) >= 10 * n.max(MS);
            lat = n;
            for l in s.link.iter_mut() { l.lat = lat; }
        }
        if src.below(3) == 0 {
            cad = [*src.pick(&[20u64, 1, 5, 100, 500, 1000]) * MS, *src.pick(&[20u64, 1, 5, 100, 500, 1000]) * MS];
        }
        // short cadences only for the short phases, to bound the cost of a case
        let c = if len > 20 * SEC { [cad[0].max(10 * MS), cad[1].max(10 * MS)] } else { cad };
        let end = start + len.min(200 * SEC) + src.below(2000) * MS;
        s.run(end, c, 0, src, cx, |s, side, src, _| {
            chat(s, side);
            world::do_sends(s, side, &mut work[side], src);
            Ok(true)
        })?;
        for l in s.link.iter_mut() { *l = Link { last_arrival: l.last_arrival, ..Link::ideal(lat) }; }
        if src.below(3) == 0 {
            // frames flow for a while before the next disturbance
            let end = s.now + src.below(5000) * MS;
            s.run(end, cad, 0, src, cx, |s, side, _, _| { chat(s, side); Ok(true) })?;
        }
    }
    // frames flow again: every mode, both directions. TimeSensitive packets may be dropped by the
    // sender, so they are submitted again until one arrives.
    let t0 = s.now;
    let backlog = [s.hc[0].send_buffer_size(), s.hc[1].send_buffer_size()];
    let x0 = [s.hc[0].verif_send_rate(), s.hc[1].verif_send_rate()];
    let chans = [src.below(64) as u8, src.below(64) as u8];
    let mut probes: [Vec<usize>; 2] = [Vec::new(), Vec::new()];
    for side in 0..2 {
        for m in [SendMode::Unreliable, SendMode::Persistent, SendMode::Reliable] {
            let len = 8 + src.below(3000) as usize;
            let len = len.min(alloc[side]);
            let i = s.send(side, chans[side], m, len);
            probes[side].push(i);
        }
    }
    let first_ts = [s.sent[0].len(), s.sent[1].len()];
    let mut miss: [HashSet<u64>; 2] = [HashSet::new(), HashSet::new()];
    for side in 0..2 {
        for &i in &probes[side] { miss[side].insert(crate::engine::hash_bytes(&s.sent[side][i].data)); }
    }
    // a sender may drop TimeSensitive packets in favour of what was submitted before them
    let mut need_ts = [!chatter[0], !chatter[1]];
    let mut ts: [HashSet<u64>; 2] = [HashSet::new(), HashSet::new()];
    let mut scanned = [s.got[0].len(), s.got[1].len()];
    let c = [cad[0].max(10 * MS), cad[1].max(10 * MS)];
    s.trace = false;
    let mut done_at = 0;
    let limit = t0 + PROBE_BOUND + (backlog[0] + backlog[1]) as u64 * SEC / 100;
    {
        let (miss, ts, need_ts, done_at) = (&mut miss, &mut ts, &mut need_ts, &mut done_at);
        s.run(limit, c, 0, src, cx, |s, side, _, _| {
            let from = 1 - side;
            chat(s, side);
            while scanned[side] < s.got[side].len() {
                let h = crate::engine::hash_bytes(&s.got[side][scanned[side]].data);
                miss[from].remove(&h);
                if ts[from].contains(&h) { need_ts[from] = false; }
                scanned[side] += 1;
            }
            if need_ts[side] && s.hc[side].send_buffer_size() < 100_000_000 {
                let i = s.send(side, chans[side], SendMode::TimeSensitive, 16);
                ts[side].insert(crate::engine::hash_bytes(&s.sent[side][i].data));
            }
            if miss.iter().all(|m| m.is_empty()) && !need_ts[0] && !need_ts[1] {
                *done_at = s.now;
                return Ok(false);
            }
            Ok(true)
        })?;
    }
    let _ = first_ts;
    let mut r = Ok(());
    for side in 0..2 {
        if !miss[side].is_empty() || need_ts[side] {
            let left: Vec<_> = probes[side].iter().filter(|&&i| miss[side].contains(&crate::engine::hash_bytes(&s.sent[side][i].data))).map(|&i| format!("{:?}", s.sent[side][i].mode)).collect();
            r = r.and(Err(format!("stalled: {} s after frames flow again, packets from {} are still undelivered: {:?}{} (backlog was {:?} bytes, X = {:.1} B/s)", (limit - t0) / SEC, crate::hc::side(side), left, if need_ts[side] { " and every TimeSensitive packet" } else { "" }, backlog, s.hc[side].verif_send_rate())));
        }
    }
    if r.is_ok() {
        let took = (done_at - t0) / SEC;
        stat(cx, &PROBE_WORST, took, &format!("probe (backlog {:?} alloc {:?} win {} lat {} ms cadence {:?} ms X at start {:?})", backlog, alloc, win, lat / MS, [cad[0] / MS, cad[1] / MS], x0));
        // pinned at the minimum rate? A burst has to get through far faster than at 23 bytes per second
        let n = 200;
        let len = 1000usize.min(alloc[0]);
        let t1 = s.now;
        let bound = 4000 * SEC;
        let from = src.below(2) as usize;
        let len = len.min(alloc[from]);
        for _ in 0..n { s.send(from, chans[from], SendMode::Reliable, len); }
        let want = s.got[1 - from].len();
        let last = crate::engine::hash_bytes(&s.sent[from].last().unwrap().data);
        let mut scan = want;
        let mut ok = false;
        {
            let ok = &mut ok;
            s.run(t1 + bound, c, 0, src, cx, |s, side, _, _| {
                chat(s, side);
                if side == 1 - from {
                    while scan < s.got[side].len() {
                        if crate::engine::hash_bytes(&s.got[side][scan].data) == last { *ok = true; return Ok(false); }
                        scan += 1;
                    }
                }
                Ok(true)
            })?;
        }
        if !ok {
            r = Err(format!("pinned near the minimum rate: {} kB of Reliable packets from {} not delivered within {} s on an ideal network (X = {:.1} B/s, p = {}, RTT = {:?}, {} receptions)", n * len / 1000, side(from), bound / SEC, s.hc[from].verif_send_rate(), s.hc[from].verif_loss_rate(), s.hc[from].rtt_s(), s.got[1 - from].len() - want));
        } else {
            stat(cx, &BURST_WORST, (s.now - t1) / SEC, &format!("burst (alloc {:?} win {} lat {} ms cadence {:?} X0 {:?})", alloc, win, lat / MS, c, x0));
        }
    }
    if long_dark { cx.label("everything of a kind lost for 2 s or more"); }
    if jump { cx.label("latency changed tenfold"); }
    if chatter != [false, false] { cx.label("an endpoint which never stops sending"); }
    cx.count("frames lost", s.lost);
    cx.nontrivial = (long_dark && s.lost >= 20) || jump || chatter != [false, false];
    dump_on_err(&s, cx, r)
}

static PROBE_WORST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static BURST_WORST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn stat(cx: &mut Cx, w: &std::sync::atomic::AtomicU64, v: u64, what: &str) {
    let old = w.fetch_max(v, std::sync::atomic::Ordering::Relaxed);
    if v > old && std::env::var("UV_CALIBRATE").is_ok() {
        eprintln!("{} s {} (seed {})", v, what, cx.seed);
    }
}

// ---- C13 ----------------------------------------------------------------------------------

fn c13_ceiling(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut cfg = gen_config(src);
    let fast = *src.pick(&[20u64, 5, 1, 100, 500]) * MS;
    for i in 0..2 {
        cfg[i].tx_bandwidth_limit = match src.below(4) {
            0 => *src.pick(&[1472u32, 2000, 3000, 10_000]),
            1 => src.log(1472, 100_000) as u32,
            2 => src.log(1472, 3_000_000) as u32,
            _ => 20_000,
        };
        cfg[i].keepalive_interval_ms = *src.pick(&[Some(5000u64), None, Some(1)]);
    }
    let mut s = Sim::new(cfg, cx.seed);
    s.set_age(gen_age(src));
    let lats = [10u64, 0, 1, 50, 100, 250, 1000];
    s.link = [Link::ideal(*src.pick(&lats) * MS), Link::ideal(*src.pick(&lats) * MS)];
    if src.below(3) == 1 {
        for l in s.link.iter_mut() { l.loss = *src.pick(&[0u64, 20, 100, 300]); l.jitter = *src.pick(&[0u64, 20, 200]) * MS; }
    }
    if src.below(6) == 1 {
        // acknowledgements arrive in clumps
        let d = src.below(2) as usize;
        s.link[d].delay = 200;
        s.link[d].delay_max = 3 * SEC;
    }
    let cad = [fast, *src.pick(&[20u64, 5, 100]) * MS];
    let jit = *src.pick(&[0u64, 10, 300, 3000]) * MS;
    let cap: u64 = if cx.tier == Tier::Quick { 60_000 } else { 400_000 };
    let dur = src.range(300, 15_000) * MS;
    // a backlog that keeps the ceiling binding for a good part of the run
    let mut left = [0u64; 2];
    for i in 0..2 { left[i] = (s.cfg[i].tx_bandwidth_limit as u64 * dur / SEC + 3000).min(cap); }
    if src.flip() { left[1] = 0; }
    let small = src.below(3) == 1;
    let bursty = src.below(3) == 1;
    let flush_n = src.below(4);
    let offbeat = src.flip();
    let chan = src.below(64) as u8;
    // (time, RTT before the last fill, RTT after it) for each emission
    let end = dur;
    // a peer whose frames are far apart, so that each is owed an acknowledgement group of its own
    let owed = src.below(5) == 4;
    let victim = src.below(2) as usize;
    let mut gap_id = s.cfg[victim].rx_frame_base_id;
    let mut gap_left: u64 = if owed { if cx.tier == Tier::Quick { 2000 } else { 20_000 } } else { 0 };
    let gap_max = *src.pick(&[400u64, 30, 3, 3000]);
    if owed { cx.label("acknowledgement groups far apart are owed"); }
    s.run(end, cad, jit, src, cx, |s, side, src, _| {
        if gap_left > 0 && side == victim && src.below(4) == 0 {
            for _ in 0..(1 + src.below(gap_max)).min(gap_left) {
                gap_id = gap_id.wrapping_add(*src.pick(&[32u32, 33, 31, 1]).min(&(s.cfg[victim].rx_frame_window_size - 1)));
                s.input(victim, &wire::write(&W::Data { id: gap_id, nonce: src.flip(), dgs: vec![] }));
                gap_id = gap_id.wrapping_add(1);
                gap_left -= 1;
            }
        }
        if left[side] > 0 && (!bursty || src.below(8) == 0) {
            let n = 1 + src.below(20);
            for _ in 0..n {
                if left[side] == 0 { break; }
                let len = if small { src.below(60) as usize + 8 } else { src.log(8, 20_000) as usize };
                left[side] = left[side].saturating_sub(len as u64);
                let mode = MODES[src.below(3) as usize];
                s.send(side, chan, mode, len);
            }
        }
        for _ in 0..flush_n { s.flush(side, src); }
        if offbeat && src.flip() {
            // the application flushes at an instant between two steps
            let other = s.due[1 - side].max(s.now);
            let room = (other - s.now).min(fast * 4);
            if room > 1 {
                let t = s.now + src.below(room);
                s.set_now(t);
                s.flush(side, src);
                if src.flip() { s.flush(1 - side, src); }
            }
        }
        Ok(true)
    })?;
    let mut r = Ok(());
    for i in 0..2 {
        r = r.and_then(|_| check_ceiling(&s, i, cx));
    }
    dump_on_err(&s, cx, r)
}

/// For all pairs of emissions i <= j of one side: bytes(i..=j) <= C (t_j - t_i) + C R + 1472, R the
/// RTT estimate current at the first of them (the larger of the estimates around its latest step).
pub fn check_ceiling(s: &Sim, from: usize, cx: &mut Cx) -> CaseResult {
    let c = s.cfg[from].tx_bandwidth_limit as f64;
    if c < 1472.0 { return Ok(()); }
    let slack = 1472.0 + 8.0;
    let mut rtt = [0.0f64; 2];
    let mut sum = 0.0f64; // bytes before this emission
    // max over i of  -S_{i-1} + C t_i - C R_i
    let mut best = f64::NEG_INFINITY;
    let mut best_i = (0u64, 0u32, 0.0f64, 0.0f64);
    let mut n = 0u32;
    let mut close = false;
    for (t, e) in &s.ev {
        match e {
            Ev::Rtt(sd, v) if *sd == from => {
                let v = f64::from_bits(*v);
                rtt = [rtt[1], if v.is_nan() { 0.0 } else { v }];
            }
            Ev::Emit(id) if s.em[*id as usize].from == from => {
                let em = &s.em[*id as usize];
                let ts = *t as f64 / 1e9;
                let r = rtt[0].max(rtt[1]);
                let v = -sum + c * ts - c * r;
                if v > best { best = v; best_i = (*t, n, sum, r); }
                sum += em.data.len() as f64;
                n += 1;
                let used = sum - c * ts + best;
                if used > slack - 2900.0 && n - best_i.1 >= 10 { close = true; }
                if used > slack {
                    return Err(format!("ceiling exceeded: {} transmits {:.0} bytes from {:.6} s to {:.6} s, the ceiling of {} B/s with an RTT estimate of {:.6} s allows {:.0} ({:.0} too many, {} frames)", side(from), sum - best_i.2, best_i.0 as f64 / 1e9, ts, c, best_i.3, c * (ts - best_i.0 as f64 / 1e9) + c * best_i.3 + 1472.0, used - 1472.0, n - best_i.1));
                }
            }
            _ => (),
        }
    }
    if close { cx.nontrivial = true; }
    cx.count("emissions", n as u64);
    Ok(())
}

// ---- C15 ----------------------------------------------------------------------------------

fn c15_twin(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Profile { states: true, budget: 40_000, ts: true, fair: src.below(4) == 1, ..STD };
    let start = src.rec.len();
    let reseed = mix(cx.seed ^ 0x15);
    rand::rngs::shim::seed(reseed);
    let a = world::run(src, cx, &p)?;
    let script: Vec<u64> = src.rec[start..].to_vec();
    rand::rngs::shim::seed(reseed);
    let mut s2 = Src::script(script);
    let q = Profile { bogus: mix(cx.seed ^ 0xb0) | 1, ..p };
    let b = world::run(&mut s2, cx, &q)?;
    let mut bogus = 0;
    for (k, n) in b.stat.iter() { let _ = k; bogus += n; }
    cx.nontrivial = bogus >= 5 && a.sim.em.len() >= 20;
    let pick = |s: &Sim| -> Vec<(u64, Ev)> { s.ev.iter().filter(|e| matches!(e.1, Ev::Emit(_) | Ev::State(..) | Ev::Recv(..))).cloned().collect() };
    let (x, y) = (pick(&a.sim), pick(&b.sim));
    let mut r = Ok(());
    for k in 0..x.len().max(y.len()) {
        let same = match (x.get(k), y.get(k)) {
            (Some(u), Some(v)) => u == v && match u.1 { Ev::Emit(i) => a.sim.em[i as usize].data == b.sim.em[i as usize].data && a.sim.em[i as usize].from == b.sim.em[i as usize].from, _ => true },
            _ => false,
        };
        if !same {
            let show = |s: &Sim, e: Option<&(u64, Ev)>| match e {
                None => "nothing".to_string(),
                Some((t, Ev::Emit(i))) => format!("{:.3} ms {} emits {}", *t as f64 / 1e6, side(s.em[*i as usize].from), s.em[*i as usize].w.as_ref().map(wire::show).unwrap_or_default()),
                Some((t, Ev::State(sd, v))) => format!("{:.3} ms {} has rate {} loss rate {} RTT {}", *t as f64 / 1e6, side(*sd), f64::from_bits(v.0), f64::from_bits(v.1), f64::from_bits(v.2)),
                Some((t, e)) => format!("{:.3} ms {:?}", *t as f64 / 1e6, e),
            };
            r = Err(format!("bogus acknowledgements change the sender: without them: {}; with them: {}", show(&a.sim, x.get(k)), show(&b.sim, y.get(k))));
            break;
        }
    }
    if r.is_err() && cx.verbose { cx.log(|| "---- run with bogus acknowledgements".into()); b.sim.dump(cx); }
    r
}

// ---- C19 ----------------------------------------------------------------------------------

fn c19_history(src: &mut Src, cx: &mut Cx) -> CaseResult {
    cx.heap_contract = true;
    let p = Profile { fair: src.flip(), tight: src.below(3) == 1, budget: 40_000, ..STD };
    let w = world::run(src, cx, &p)?;
    let mut s = w.sim;
    cx.nontrivial = s.got[0].len() + s.got[1].len() >= 5;
    if s.hc[0].send_buffer_size() + s.hc[1].send_buffer_size() > 0 { cx.label("dropped with data outstanding"); }
    for hc in s.hc.drain(..) {
        call!("drop", drop(hc));
    }
    check_all_returned("connection pair")
}
