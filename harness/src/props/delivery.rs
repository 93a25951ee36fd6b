//! C01, C02, C04 (sender side), C05, C12, C20 over generated histories of a connection pair.

use std::collections::{HashMap, HashSet};

use uflow::SendMode;

use crate::engine::{CaseResult, Cx, Prop, Src, Test};
use crate::hc::*;
use crate::wire::W;
use crate::world::{self, Profile, STD};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a case is non-trivial when at least 5 packets were delivered and the network lost, duplicated, reordered, delayed or altered at least one frame",
            tests: vec![Test { name: "history", quick: 100_000, thorough: 3_000_000, f: c01_history }],
        },
        Prop {
            id: "C02",
            rule: "a case is non-trivial when at least one Reliable packet was submitted and at least one frame was lost or altered",
            tests: vec![Test { name: "history", quick: 100_000, thorough: 3_000_000, f: c02_history }],
        },
        Prop {
            id: "C05",
            rule: "a case is non-trivial when packets of at least two channels and two modes were submitted (at least 5 packets)",
            tests: vec![Test { name: "ideal", quick: 100_000, thorough: 3_000_000, f: c05_ideal }],
        },
        Prop {
            id: "C12",
            rule: "a case is non-trivial when some fragment was transmitted more than once, or a TimeSensitive packet was dropped unsent, or (directed) retransmissions were observed during a blackout",
            tests: vec![
                Test { name: "history", quick: 80_000, thorough: 3_000_000, f: c12_history },
                Test { name: "persist", quick: 3_000, thorough: 100_000, f: c12_persist },
            ],
        },
        Prop {
            id: "C20",
            rule: "a case is non-trivial when the send buffer size was sampled at least 20 times and took at least 3 distinct values",
            tests: vec![Test { name: "history", quick: 80_000, thorough: 3_000_000, f: c20_history }],
        },
    ]
}

fn c01_history(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let w = world::run(src, cx, &STD)?;
    let s = &w.sim;
    let r = s.check_delivery(0, false, false).and_then(|_| s.check_delivery(1, false, false));
    world::wrap_labels(s, cx);
    cx.nontrivial = s.got[0].len() + s.got[1].len() >= 5 && w.faulty && s.lost + s.dupped + s.delayed + s.altered > 0;
    world::finish(&w, cx, r)
}

fn c02_history(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let w = world::run(src, cx, &STD)?;
    let s = &w.sim;
    let mut r = s.check_delivery(0, true, true).and_then(|_| s.check_delivery(1, true, true));
    if r.is_ok() && !w.quiet {
        r = Err(format!("sender still reports data outstanding after a long fault-free phase: pending {:?}/{:?} buffer {}/{}", s.pending(0), s.pending(1), s.hc[0].send_buffer_size(), s.hc[1].send_buffer_size()));
    }
    cx.nontrivial = s.sent.iter().any(|v| v.iter().any(|p| p.mode == SendMode::Reliable)) && s.lost + s.altered > 0;
    world::finish(&w, cx, r)
}

// ---- C05 ----------------------------------------------------------------------------------

pub fn check_global_order(sent: &[Pkt], got: &[std::rc::Rc<[u8]>], emitted: Option<&HashSet<usize>>) -> CaseResult {
    let mut p = 0;
    for (n, d) in got.iter().enumerate() {
        loop {
            if p >= sent.len() {
                return Err(format!("global order broken: reception {} ({} bytes) is beyond the last submission", n, d.len()));
            }
            if sent[p].data[..] == d[..] {
                p += 1;
                break;
            }
            if sent[p].mode != SendMode::TimeSensitive {
                return Err(format!("global order broken: reception {} ({} bytes) while #{} ({:?}, ch{}, {} bytes) had not been delivered", n, d.len(), p, sent[p].mode, sent[p].chan, sent[p].data.len()));
            }
            if emitted.map_or(false, |e| e.contains(&p)) {
                return Err(format!("transmitted TimeSensitive packet lost: #{} was transmitted over an ideal network but not delivered in its place", p));
            }
            p += 1;
        }
    }
    while p < sent.len() {
        if sent[p].mode != SendMode::TimeSensitive {
            return Err(format!("packet never delivered on an ideal network: #{} ({:?}, ch{}, {} bytes)", p, sent[p].mode, sent[p].chan, sent[p].data.len()));
        }
        if emitted.map_or(false, |e| e.contains(&p)) {
            return Err(format!("transmitted TimeSensitive packet lost: #{} was transmitted over an ideal network but never delivered", p));
        }
        p += 1;
    }
    Ok(())
}

fn c05_ideal(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Profile { faults: false, ..STD };
    let w = world::run(src, cx, &p)?;
    let s = &w.sim;
    let mut r = Ok(());
    for from in 0..2 {
        r = r.and_then(|_| {
            let tx = map_emissions(s, from)?;
            let em: HashSet<usize> = tx.iter().map(|t| t.pkt).collect();
            let got: Vec<_> = s.got[1 - from].iter().map(|g| g.data.clone()).collect();
            check_global_order(&s.sent[from], &got, Some(&em))
        });
        let drops = s.sent[from].iter().filter(|p| p.mode == SendMode::TimeSensitive).count();
        cx.count("TimeSensitive submitted", drops as u64);
    }
    if r.is_ok() && !w.quiet {
        r = Err("sender still reports data outstanding after a long fault-free phase".into());
    }
    let modes: HashSet<u8> = s.sent[0].iter().map(|p| p.mode as u8).collect();
    let chans: HashSet<u8> = s.sent[0].iter().map(|p| p.chan).collect();
    cx.nontrivial = s.sent[0].len() >= 5 && modes.len() >= 2 && chans.len() >= 2;
    world::finish(&w, cx, r)
}

// ---- C12 ----------------------------------------------------------------------------------

pub struct TxView {
    /// emission -> (packet, fragment) list
    pub by_em: HashMap<u32, Vec<(usize, u16, u32)>>,
}

pub fn tx_view(tx: &[Tx]) -> TxView {
    let mut by_em: HashMap<u32, Vec<(usize, u16, u32)>> = HashMap::new();
    for t in tx {
        by_em.entry(t.em).or_default().push((t.pkt, t.frag, t.seq));
    }
    TxView { by_em }
}

/// Transmission rules of C12 for one direction.
pub fn check_c12(s: &Sim, from: usize, cx: &mut Cx) -> CaseResult {
    let tx = map_emissions(s, from)?;
    let view = tx_view(&tx);
    let sent = &s.sent[from];
    let cfg = &s.cfg[from];
    // frame id -> emission
    let mut count: HashMap<(usize, u16), u32> = HashMap::new();
    let mut done: HashMap<(usize, u16), (u64, &'static str)> = HashMap::new();
    let mut frames: HashMap<u32, u32> = HashMap::new();
    let mut next_frame = cfg.tx_frame_base_id;
    let mut max_fbase = cfg.tx_frame_base_id;
    let mut pbase = cfg.tx_packet_base_id;
    let mut pnext = cfg.tx_packet_base_id;
    let mut live: HashMap<u32, usize> = HashMap::new(); // seq -> packet
    // RTT estimates in force: (time, seconds)
    let mut rtts: Vec<(u64, f64)> = Vec::new();
    let mut known_acks = 0u64;
    let mut resent = 0u64;
    for (t, e) in &s.ev {
        match e {
            Ev::Rtt(sd, v) if *sd == from => {
                let v = f64::from_bits(*v);
                let v = if v.is_nan() { 0.15 } else { v };
                if rtts.last().map_or(true, |l| l.1 != v) { rtts.push((*t, v)); }
            }
            Ev::Emit(id) if s.em[*id as usize].from == from => {
                let em = &s.em[*id as usize];
                if let Some(W::Data { id: fid, .. }) = &em.w {
                    frames.insert(*fid, *id);
                    next_frame = fid.wrapping_add(1);
                }
                for &(pkt, frag, seq) in view.by_em.get(id).map(|v| &v[..]).unwrap_or(&[]) {
                    let p = &sent[pkt];
                    let c = count.entry((pkt, frag)).or_insert(0);
                    *c += 1;
                    if *c > 1 { resent += 1; }
                    match p.mode {
                        SendMode::Unreliable | SendMode::TimeSensitive => {
                            if *c > 1 {
                                return Err(format!("{:?} fragment transmitted more than once: packet #{} fragment {} again in e{}", p.mode, pkt, frag, id));
                            }
                        }
                        _ => (),
                    }
                    if p.mode == SendMode::TimeSensitive && !live.values().any(|&x| x == pkt) && em.epoch != p.epoch {
                        return Err(format!("stale TimeSensitive packet transmitted: #{} submitted before step {} but first transmitted after step {} (e{})", pkt, p.epoch, em.epoch, id));
                    }
                    if let Some((when, why)) = done.get(&(pkt, frag)) {
                        return Err(format!("fragment transmitted after {}: packet #{} ({:?}) fragment {} in e{} although processed at {:.3} ms", why, pkt, p.mode, frag, id, *when as f64 / 1e6));
                    }
                    live.insert(seq, pkt);
                    if seq.wrapping_sub(pnext) & (PSPAN - 1) < PSPAN / 2 {
                        pnext = (seq + 1) & (PSPAN - 1);
                    }
                }
            }
            Ev::Arrive(sd, id, true) if *sd == from => {
                if let Some(W::Acks { fbase, pbase: pb, groups }) = &s.em[*id as usize].w {
                    for (base, bits, nonce) in groups {
                        if *bits == 0 { continue; }
                        let top = 31 - bits.leading_zeros();
                        let mut ok = true;
                        let mut truth = false;
                        for i in 0..=top {
                            let f = base.wrapping_add(i);
                            match frames.get(&f) {
                                Some(&fe) => {
                                    let em = &s.em[fe as usize];
                                    // certainly not forgotten yet
                                    let mut m = f64::INFINITY;
                                    for (k, (rt, rv)) in rtts.iter().enumerate() {
                                        let end = rtts.get(k + 1).map(|x| x.0).unwrap_or(u64::MAX);
                                        if end >= em.st { m = m.min(*rv); }
                                        let _ = rt;
                                    }
                                    if m.is_infinite() { m = 0.15; }
                                    if (*t - em.st) as f64 / 1e9 > 3.5 * m || max_fbase.wrapping_sub(f) as i32 > cfg.tx_frame_window_size as i32 {
                                        ok = false;
                                    }
                                    if next_frame.wrapping_sub(f) > 20_000 { ok = false; }
                                    if bits >> i & 1 != 0 {
                                        if let Some(W::Data { nonce, .. }) = &em.w { truth ^= *nonce; }
                                    }
                                }
                                None => ok = false,
                            }
                        }
                        if !ok || truth != *nonce { continue; }
                        known_acks += 1;
                        for i in 0..=top {
                            if bits >> i & 1 == 0 { continue; }
                            let fe = frames[&base.wrapping_add(i)];
                            for &(pkt, frag, _) in view.by_em.get(&fe).map(|v| &v[..]).unwrap_or(&[]) {
                                done.entry((pkt, frag)).or_insert((*t, "its acknowledgement was processed"));
                            }
                        }
                    }
                    if fbase.wrapping_sub(max_fbase) as i32 > 0 { max_fbase = *fbase; }
                    let m = PSPAN - 1;
                    let delta = pb.wrapping_sub(pbase) & m;
                    let span = pnext.wrapping_sub(pbase) & m;
                    if delta <= span {
                        let mut q = pbase;
                        while q != *pb {
                            if let Some(pkt) = live.remove(&q) {
                                for f in 0..nfrags(sent[pkt].data.len()) {
                                    done.entry((pkt, f as u16)).or_insert((*t, "the receiver reported moving past the packet"));
                                }
                            }
                            q = (q + 1) & m;
                        }
                        pbase = *pb;
                    }
                }
            }
            _ => (),
        }
    }
    cx.count("ack groups certainly processed", known_acks);
    cx.count("fragment retransmissions", resent);
    let emitted: HashSet<usize> = tx.iter().map(|t| t.pkt).collect();
    let dropped = sent.iter().enumerate().filter(|(i, p)| p.mode == SendMode::TimeSensitive && !emitted.contains(i)).count();
    cx.count("TimeSensitive dropped unsent", dropped as u64);
    if resent > 0 || dropped > 0 { cx.nontrivial = true; }
    Ok(())
}

fn c12_history(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let w = world::run(src, cx, &STD)?;
    let r = check_c12(&w.sim, 0, cx).and_then(|_| check_c12(&w.sim, 1, cx));
    world::finish(&w, cx, r)
}

/// During a blackout every unacknowledged Persistent and Reliable fragment keeps being transmitted;
/// once it ends all of them are delivered.
fn c12_persist(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut cfg = gen_config(src);
    // a full frame window legitimately suspends retransmission until the peer is heard again
    for c in cfg.iter_mut() { c.tx_frame_window_size = 4096; c.rx_frame_window_size = 4096; }
    let small = cfg[0].tx_packet_window_size;
    let mut s = Sim::new(cfg, cx.seed);
    let lat = *src.pick(&[10u64, 0, 50, 200]) * MS;
    s.link = [Link::ideal(lat), Link::ideal(lat)];
    let cad = [*src.pick(&[20u64, 10, 50]) * MS, *src.pick(&[20u64, 10, 50]) * MS];
    // optionally warm up, so that an RTT estimate exists
    let warm = src.below(4);
    let mut left = warm * 5;
    let t_warm = 500 * MS + warm * 300 * MS;
    s.run(t_warm, cad, 0, src, cx, |s, side, src, _| {
        if side == 0 && left > 0 && src.flip() { left -= 1; s.send(0, 3, SendMode::Unreliable, 20); }
        Ok(true)
    })?;
    let dir = src.below(3); // 0 both, 1 data lost, 2 acknowledgements lost
    let t0 = s.now;
    let dark = src.range(60, 400) * SEC;
    for i in 0..2 {
        if dir == 0 || (dir == 1 && i == 0) || (dir == 2 && i == 1) { s.link[i].black.push((t0, t0 + dark)); }
    }
    let n = src.range(1, 3).min(small as u64);
    let first = s.sent[0].len();
    for _ in 0..n {
        let mode = if src.flip() { SendMode::Reliable } else { SendMode::Persistent };
        // (one empty packet at most, as packets are told apart by their contents)
        let empty = src.below(5) == 4 && !s.sent[0][first..].iter().any(|p| p.data.is_empty());
        let len = if empty { 0 } else { src.range(8, 200) as usize };
        let chan = src.below(64) as u8;
        s.send(0, chan, mode, len);
    }
    s.run(t0 + dark, cad, 0, src, cx, |_, _, _, _| Ok(true))?;
    let t1 = s.now;
    let tx = map_emissions(&s, 0)?;
    // bound on the gap: resend interval at most 4 RTT (8 allowed), plus the time the outstanding
    // bytes take at the floor rate of s/64 bytes per second, three times over
    let bytes: usize = s.sent[0][first..].iter().map(|p| p.data.len() + 30).sum();
    let gap = 10.0 + 8.0 * 1.0 + 3.0 * bytes as f64 / 23.0 + 40.0;
    let mut r = Ok(());
    // a fragment is acknowledged only if an ack could come back
    let acks_pass = dir == 1;
    let _ = acks_pass;
    let mut total = 0;
    let frames_out = s.em.iter().filter(|e| e.from == 0 && e.t >= t0 && matches!(e.w, Some(W::Data { .. }))).count();
    if frames_out >= 4000 { cx.label("frame window filled in the blackout"); return Ok(()); }
    for k in first..s.sent[0].len() {
        let mut ts: Vec<u64> = tx.iter().filter(|t| t.pkt == k).map(|t| s.em[t.em as usize].t).collect();
        total += ts.len();
        // (a packet may have to wait for the packet window before its first transmission)
        let mut last = match ts.first() { Some(&t) => t, None => continue };
        ts.push(t1);
        for t in ts {
            if (t - last) as f64 / 1e9 > gap {
                r = Err(format!("unacknowledged {:?} packet no longer retransmitted: #{} last transmitted {:.1} s into the blackout, then nothing for {:.1} s", s.sent[0][k].mode, k, (last - t0) as f64 / 1e9, (t - last) as f64 / 1e9));
                break;
            }
            last = t;
        }
    }
    cx.nontrivial = total > n as usize;
    cx.count("retransmissions in blackouts", total as u64);
    if r.is_ok() {
        for l in s.link.iter_mut() { l.black.clear(); }
        let end = s.now + 2000 * SEC;
        // a Persistent packet may be skipped once a later one has arrived; the last packet may not
        let last = s.sent[0].len() - 1;
        let missing = move |s: &Sim| (first..=last).find(|&k| (k == last || s.sent[0][k].mode == SendMode::Reliable) && !s.got[1].iter().any(|g| g.data == s.sent[0][k].data));
        s.run(end, [50 * MS, 50 * MS], 0, src, cx, |s, _, _, _| Ok(missing(s).is_some()))?;
        if let Some(k) = missing(&s) {
            r = Err(format!("packet never delivered after the blackout: {:?} #{}", s.sent[0][k].mode, k));
        }
    }
    dump_on_err(&s, cx, r)
}

// ---- C20 ----------------------------------------------------------------------------------

pub fn check_c20(s: &Sim, from: usize, cx: &mut Cx) -> CaseResult {
    let tx = map_emissions(s, from)?;
    let view = tx_view(&tx);
    let sent = &s.sent[from];
    let cfg = &s.cfg[from];
    let m = PSPAN - 1;
    let mut pbase = cfg.tx_packet_base_id;
    let mut pnext = cfg.tx_packet_base_id;
    let mut live: HashMap<u32, usize> = HashMap::new();
    let mut outstanding = 0u64; // emitted, not acknowledged
    let mut next_unemitted = 0usize; // packets before this were emitted or certainly discarded
    let mut submitted = 0usize;
    let mut epoch = 0u32;
    let mut samples = 0u64;
    let mut values: HashSet<u64> = HashSet::new();
    for (t, e) in &s.ev {
        match e {
            Ev::Send(sd, i) if *sd == from => submitted = *i as usize + 1,
            Ev::Step(sd) if *sd == from => epoch += 1,
            Ev::Emit(id) if s.em[*id as usize].from == from => {
                for &(pkt, _, seq) in view.by_em.get(id).map(|v| &v[..]).unwrap_or(&[]) {
                    if pkt >= next_unemitted {
                        next_unemitted = pkt + 1;
                        outstanding += sent[pkt].data.len() as u64;
                        live.insert(seq, pkt);
                        if seq.wrapping_sub(pnext) & m < PSPAN / 2 { pnext = (seq + 1) & m; }
                    }
                }
            }
            Ev::Arrive(sd, id, true) if *sd == from => {
                if let Some(W::Acks { pbase: pb, .. }) = &s.em[*id as usize].w {
                    let delta = pb.wrapping_sub(pbase) & m;
                    let span = pnext.wrapping_sub(pbase) & m;
                    if delta <= span {
                        while pbase != *pb {
                            if let Some(p) = live.remove(&pbase) { outstanding -= sent[p].data.len() as u64; }
                            pbase = (pbase + 1) & m;
                        }
                    }
                }
            }
            Ev::Size(sd, v) if *sd == from => {
                samples += 1;
                values.insert(*v);
                // queued: everything not emitted; stale TimeSensitive packets may have been
                // discarded from the front of the queue
                let mut queued = 0u64;
                let mut stale = Vec::new();
                for p in &sent[next_unemitted..submitted] {
                    queued += p.data.len() as u64;
                    if p.mode == SendMode::TimeSensitive && p.epoch < epoch { stale.push(p.data.len() as u64); }
                }
                let mut allowed = outstanding + queued;
                let mut ok = *v == allowed;
                for d in &stale {
                    allowed -= d;
                    ok |= *v == allowed;
                }
                if !ok {
                    return Err(format!("send_buffer_size() wrong: {} reported {} at {:.3} ms; model: {} bytes emitted and unacknowledged + {} queued ({} stale TimeSensitive packets among them)", side(from), v, *t as f64 / 1e6, outstanding, queued, stale.len()));
                }
            }
            _ => (),
        }
    }
    cx.count("samples", samples);
    if samples >= 20 && values.len() >= 3 { cx.nontrivial = true; }
    Ok(())
}

fn c20_history(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let p = Profile { sizes: true, ..STD };
    let w = world::run(src, cx, &p)?;
    let s = &w.sim;
    let mut r = check_c20(s, 0, cx).and_then(|_| check_c20(s, 1, cx));
    if r.is_ok() && !w.quiet {
        r = Err(format!("send_buffer_size() does not return to zero: {} and {} after a long fault-free phase", s.hc[0].send_buffer_size(), s.hc[1].send_buffer_size()));
    }
    world::finish(&w, cx, r)
}
