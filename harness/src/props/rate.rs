//! C14: the allowed send rate against an independent evaluation of the RFC 5348 bounds.

use std::collections::{HashSet, VecDeque};

use uflow::verif::{AckGroup, FeedbackData, FrameQueue, LossIntervalQueue, SendRateComp};
use uflow::SendMode;

use crate::call;
use crate::engine::{CaseResult, Cx, Prop, Src, Test};
use crate::hc::*;
use crate::wire::W;
use crate::world::{self, STD};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        rule: "a case is non-trivial when it contains at least 3 feedback reports or at least one nofeedback expiry after feedback, or (loss history) at least 2 loss events",
        tests: vec![
            Test { name: "controller", quick: 1_000_000, thorough: 60_000_000, f: controller },
            Test { name: "loss_intervals", quick: 600_000, thorough: 30_000_000, f: loss_intervals },
            Test { name: "feedback", quick: 200_000, thorough: 10_000_000, f: feedback },
            Test { name: "history", quick: 100_000, thorough: 5_000_000, f: history },
        ],
    }]
}

const S: f64 = 1472.0;
const FLOOR: f64 = 23.0;

/// X_Bps of RFC 5348 section 3.1 with b = 1 and t_RTO = 4 R.
fn tcp_eq(r: f64, p: f64) -> f64 {
    S / (r * ((2.0 * p / 3.0).sqrt() + 4.0 * (3.0 * (3.0 * p / 8.0).sqrt() * p * (1.0 + 32.0 * p * p))))
}

fn w_init(r: f64) -> f64 {
    4380.0 / r
}

/// Bounds that hold between two consecutive observations of the controller.
struct Judge {
    max: f64,
    x: f64,
    rtt: Option<f64>,
    p: f64,
    slow: bool,
    started: bool,
    /// earliest and latest expiry of the nofeedback timer
    deadline: Option<(f64, f64)>,
    /// largest receive rate the sender may still go by
    recv_max: f64,
    t_first: u64,
    /// X_recv_set of section 4.3, or more than it may contain
    set: Vec<(u64, f64)>,
    /// when slow start doubled last: earliest and latest moment
    doubled: Option<(u64, u64)>,
    p_top: f64,
    /// 1 / 0.95 while the rate stems from the entry approximation of the loss event rate
    tol: f64,
}

impl Judge {
    fn new(max: u32, x: f64) -> Judge {
        Judge { max: (max as f64).max(FLOOR), x, rtt: None, p: 0.0, slow: true, started: false, deadline: None, recv_max: 0.0, t_first: 0, set: Vec::new(), doubled: None, p_top: 0.0, tol: 1.0 }
    }

    fn common(&self, x: f64) -> CaseResult {
        if x > self.max {
            return Err(format!("send rate above the configured ceiling: {} B/s with a ceiling of {} B/s", x, self.max));
        }
        if x < FLOOR {
            return Err(format!("send rate below the s/64 floor: {} B/s", x));
        }
        if !self.slow {
            if let Some(r) = self.rtt {
                let eq = tcp_eq(r, self.p);
                if x > eq.max(FLOOR) * self.tol + 1.0 {
                    return Err(format!("send rate above the TCP throughput equation: {} B/s with RTT {} s, loss event rate {} and so {} B/s", x, r, self.p, eq));
                }
            }
        }
        Ok(())
    }

    fn no_feedback(&mut self, now: u64, x: f64, rtt: Option<f64>, cx: &mut Cx) -> CaseResult {
        if rtt.map(|v| v.to_bits()) != self.rtt.map(|v| v.to_bits()) {
            return Err(format!("RTT estimate changed without feedback: {:?} became {:?}", self.rtt, rtt));
        }
        if x > self.x {
            return Err(format!("send rate raised without feedback: {} became {} B/s at {} ms", self.x, x, now));
        }
        if x < (self.x / 2.0).floor() - 1.0 && x > FLOOR || x < self.x / 2.0 - 1.0 && x != FLOOR {
            return Err(format!("send rate cut by more than half without feedback: {} became {} B/s", self.x, x));
        }
        if x != self.x {
            if let Some((d, _)) = self.deadline {
                if (now as f64) < d - 1.5 {
                    return Err(format!("send rate cut before the nofeedback timer expired: at {} ms, timer {} ms", now, d));
                }
            }
            cx.label("nofeedback reductions");
        }
        self.common(x)?;
        // an expiry in the equation phase makes the sender go by a receive rate of its own
        if let (false, Some((d, _)), Some(r)) = (self.slow, self.deadline, self.rtt) {
            if now as f64 >= d - 1.5 {
                self.recv_max = self.recv_max.max(self.x / 2.0).max(tcp_eq(r, self.p) * self.tol / 4.0);
                let top = self.top().min(tcp_eq(r, self.p) * self.tol / 2.0);
                if x < self.x { self.set.clear(); }
                self.set.push((now, (top / 2.0).max(FLOOR / 2.0).min(u32::MAX as f64)));
            }
        }
        self.x = x;
        Ok(())
    }

    fn top(&self) -> f64 {
        self.set.iter().fold(0.0, |a, e| a.max(e.1))
    }

    /// The limit which section 4.3 derives from the receive rates reported.
    fn recv_limit(&mut self, now: u64, recv: f64, p: f64, limited: bool, r: f64) -> f64 {
        if self.set.is_empty() && self.doubled.is_none() && self.slow { self.set.push((self.t_first, f64::INFINITY)); }
        if limited {
            self.set.retain(|e| (now - e.0) as f64 <= 2.0 * r * 1000.0 + 2.0);
            self.set.push((now, recv));
            2.0 * self.top()
        } else {
            self.set.retain(|e| e.1 < f64::INFINITY);
            let up = p > self.p_top;
            if up { for e in &mut self.set { e.1 /= 2.0; } }
            let v = self.top().max(if up { 0.85 * recv } else { recv });
            self.set = vec![(now, v)];
            if up { v } else { 2.0 * v }
        }
    }

    fn feedback(&mut self, now: u64, sample_ms: u64, recv: u32, p_reported: f64, limited: bool, p_reset: Option<f64>, x: f64, rtt: Option<f64>, cx: &mut Cx) -> CaseResult {
        let sample = sample_ms as f64 / 1000.0;
        let want = match self.rtt { None => sample, Some(r) => 0.9 * r + 0.1 * sample };
        match rtt {
            Some(r) if (r - want).abs() <= 1e-9 * want.max(1e-3) => (),
            _ => return Err(format!("RTT estimate is not the moving average: sample {} s, before {:?}, now {:?}, expected {}", sample, self.rtt, rtt, want)),
        }
        let r = rtt.unwrap();
        self.rtt = rtt;
        let x0 = self.x;
        self.recv_max = self.recv_max.max(recv as f64);
        let first = self.doubled.is_none();
        let limit = self.recv_limit(now, recv as f64, p_reported, limited, r);
        // slow start leaves the rate alone until a round trip time after it was doubled
        let due = self.doubled.map_or(true, |t| (now - t.1) as f64 >= r * 1000.0 + 1.0);
        let maybe = self.doubled.map_or(true, |t| (now - t.0) as f64 >= r * 1000.0 - 1.0);
        let (lo, hi) = self.doubled.unwrap_or((now, now));
        self.doubled = Some((if due { now } else { lo }, if maybe { now } else { hi }));
        self.p_top = p_reported.max(p_reset.unwrap_or(0.0));
        if self.slow && p_reported > 0.0 {
            // first loss
            self.slow = false;
            // no receive rate is known if this is the first feedback
            self.recv_max = self.recv_max.max(S / 2.0 / r).max(FLOOR);
            match p_reset {
                Some(p) => self.p = p,
                None => return Err("first loss report without an initial loss event rate".into()),
            }
            if !(self.p > 0.0 && self.p <= 1.0) {
                return Err(format!("initial loss event rate out of range: {}", self.p));
            }
            if first {
                self.set = vec![(now, (S / 2.0 / r).max(FLOOR).min(u32::MAX as f64))];
            } else if x > limit.max(FLOOR) + 1.0 {
                return Err(format!("send rate above the limit set by the receive rates: {} B/s on the first loss report, limit {} B/s", x, limit));
            }
            let top = x0.max(S / 2.0 / r).max(FLOOR) + 1.0;
            if x > top {
                return Err(format!("first loss report raised the send rate: {} became {} B/s (RTT {} s)", x0, x, r));
            }
            // within 5 % of the rate itself, which the RFC grants this approximation
            self.tol = 1.0 / 0.95;
            let eq = tcp_eq(r, self.p) * self.tol;
            if x > eq.max(FLOOR) + 1.0 {
                return Err(format!("send rate above the TCP throughput equation: {} B/s on entry with RTT {} s, loss event rate {} and so {} B/s", x, r, self.p, eq));
            }
            cx.label("first loss reports");
        } else if self.slow {
            let top = (2.0 * x0).max(w_init(r)).max(FLOOR) + 1.0;
            if x > top {
                return Err(format!("slow start more than doubled the send rate: {} became {} B/s (RTT {} s)", x0, x, r));
            }
            if !first && (due || x != x0) && x > limit.max(w_init(r)).max(FLOOR) + 1.0 {
                return Err(format!("send rate above the limit set by the receive rates: {} became {} B/s in slow start, limit {} B/s, initial window {} B/s", x0, x, limit, w_init(r)));
            }
            self.common(x)?;
        } else {
            self.p = p_reported;
            self.tol = 1.0;
            if x > limit.max(FLOOR) + 1.0 {
                return Err(format!("send rate above the limit set by the receive rates: {} B/s, limit {} B/s", x, limit));
            }
            self.common(x)?;
        }
        // X_recv_set limit in its loosest form: twice the largest receive rate ever reported, once
        // the initial entry is gone
        if (now - self.t_first) as f64 >= 2.0 * r * 1000.0 + 2.0 || !limited {
            let lim = (2.0 * self.recv_max).max(w_init(r)).max(FLOOR) + 1.0;
            if x > lim && !(x0 <= x + 0.5 && x <= x0) {
                return Err(format!("send rate above twice every reported receive rate: {} B/s, largest report {} B/s, initial window {} B/s", x, self.recv_max, w_init(r)));
            }
        }
        if x > self.max || x < FLOOR {
            self.common(x)?;
        }
        // the timer is restarted with RTO = max(4 R, 2 s / X)
        let at = |x: f64| now as f64 + (4.0 * r).max(2.0 * S / x) * 1000.0;
        self.deadline = Some((at(x0.max(x)), at(x0.min(x))));
        self.x = x;
        Ok(())
    }
}

fn gen_ms(src: &mut Src) -> u64 {
    match src.below(6) {
        0 => 100,
        1 => src.below(20),
        2 => src.below(300),
        3 => src.below(3000),
        4 => *src.pick(&[0u64, 1, 2, 2000, 1999, 60_000]),
        _ => if src.below(8) == 7 { src.log(0, 100_000_000) } else { src.log(0, 200_000) },
    }
}

fn controller(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let max = match src.below(6) { 0 => 2_000_000, 1 => u32::MAX, 2 => src.log(1472, 1 << 31) as u32, 3 => *src.pick(&[1472u32, 1473, 2944, 10_000, 1 << 31]), _ => src.log(1472, 10_000_000) as u32 };
    let mut c = call!("SendRateComp::new", SendRateComp::new(max));
    let mut now = src.below(5000);
    let mut j = Judge::new(max, c.send_rate());
    if j.x > j.max { return Err(format!("send rate above the configured ceiling: initially {} B/s with a ceiling of {}", j.x, max)); }
    let lossy = src.below(4);
    let mut p = 0.0f64;
    let mut base_rtt = *src.pick(&[100u64, 1, 0, 10, 50, 400, 3000]);
    let steps = 3 + src.below(60);
    let (mut nfb, mut nexp) = (0u64, 0u64);
    for _ in 0..steps {
        match src.below(10) {
            0..=2 => {
                call!("notify_frame_sent", c.notify_frame_sent(now));
                if !j.started {
                    j.started = true;
                    j.t_first = now;
                    j.deadline = Some((now as f64 + 2000.0, now as f64 + 2000.0));
                }
                cx.log(|| format!("{} ms: frame sent", now));
            }
            3..=5 => {
                now += gen_ms(src);
                call!("step", c.step(now, None, |_| ()));
                let x = c.send_rate();
                cx.log(|| format!("{} ms: no feedback, X = {}", now, x));
                let x0 = j.x;
                if x != j.x { nexp += 1; }
                j.no_feedback(now, x, c.rtt_s(), cx)?;
                // a later expiry restarts the timer from this step
                if x != x0 || j.deadline.map_or(false, |d| now as f64 >= d.1 + 1.5) {
                    let at = |x: f64| now as f64 + (4.0 * j.rtt.unwrap_or(0.0)).max(2.0 * S / x) * 1000.0;
                    j.deadline = Some((at(x0.max(x)), at(x0.min(x))));
                } else if let Some(d) = j.deadline {
                    if now as f64 >= d.0 - 1.5 {
                        // it may have expired without effect, or expire at a later step
                        j.deadline = Some((d.0, d.1.max(now as f64 + (4.0 * j.rtt.unwrap_or(0.0)).max(2.0 * S / x) * 1000.0)));
                    }
                }
            }
            _ => {
                if !j.started { continue; }
                now += match src.below(4) { 0 => base_rtt, 1 => base_rtt / 2 + src.below(base_rtt + 1), 2 => gen_ms(src), _ => 1 + src.below(20) };
                if src.below(12) == 11 { base_rtt = gen_ms(src); }
                let rtt_ms = match src.below(4) { 0 | 1 => base_rtt, 2 => base_rtt / 2 + src.below(base_rtt + 1), _ => gen_ms(src) }.min(now);
                let x0 = c.send_rate() as u64;
                let recv = match src.below(6) { 0 | 1 => x0, 2 => x0 / 2 + src.below(x0 + 1), 3 => 0, 4 => src.edgy32() as u64, _ => src.log(0, u32::MAX as u64) }.min(u32::MAX as u64) as u32;
                // a loss event rate history that is zero until the first loss
                if lossy > 0 && (p > 0.0 || src.chance(if lossy == 1 { 50 } else { 250 })) {
                    p = match src.below(5) {
                        0 => if p > 0.0 { p } else { 0.01 },
                        1 => (if p > 0.0 { p } else { 0.01 }) * 0.9,
                        2 => ((if p > 0.0 { p } else { 0.001 }) * (1.1 + src.below(10) as f64)).min(1.0),
                        3 => 1.0 / (1.0 + src.log(0, u32::MAX as u64) as f64),
                        _ => 1.0 / (1.0 + src.below(60) as f64),
                    };
                }
                let limited = src.flip();
                let mut reset = None;
                let fb = FeedbackData { rtt_ms, receive_rate: recv, loss_rate: p, rate_limited: limited };
                call!("step", c.step(now, Some(fb), |v| reset = Some(v)));
                let x = c.send_rate();
                cx.log(|| format!("{} ms: feedback rtt {} ms recv {} p {} limited {}: X = {} rtt {:?} reset {:?}", now, rtt_ms, recv, p, limited, x, c.rtt_s(), reset));
                j.feedback(now, rtt_ms, recv, p, limited, reset, x, c.rtt_s(), cx)?;
                if let Some(v) = reset {
                    // what the loss history reports afterwards
                    p = v;
                }
                nfb += 1;
                if let Some(ms) = c.rtt_ms() {
                    if (ms as f64 - c.rtt_s().unwrap() * 1000.0).abs() > 1.0 { return Err(format!("rtt_ms and rtt_s disagree: {} {:?}", ms, c.rtt_s())); }
                }
            }
        }
    }
    cx.count("feedback reports", nfb);
    cx.nontrivial = nfb >= 3 || (nfb > 0 && nexp > 0);
    Ok(())
}

// ---- loss history -------------------------------------------------------------------------

#[derive(Default, Clone)]
struct LossModel {
    /// newest first: (start time + rtt, length)
    iv: VecDeque<(u64, u32)>,
}

impl LossModel {
    fn ack(&mut self) {
        if let Some(f) = self.iv.front_mut() { f.1 = f.1.saturating_add(1); }
    }
    fn nack(&mut self, t: u64, rtt: u64) {
        match self.iv.front_mut() {
            Some(f) if t < f.0 => f.1 = f.1.saturating_add(1),
            _ => {
                self.iv.push_front((t + rtt, 1));
                self.iv.truncate(9);
            }
        }
    }
    fn reset(&mut self, p: f64) {
        self.iv.truncate(1);
        self.iv[0].1 = (1.0 / p).clamp(0.0, u32::MAX as f64).round() as u32;
    }
    /// RFC 5348 section 5.4 with n = 8.
    fn p(&self) -> f64 {
        let n = self.iv.len();
        if n == 0 { return 0.0; }
        if n == 1 { return 1.0 / self.iv[0].1 as f64; }
        let k = n - 1;
        let w = |i: usize| if i < 4 { 1.0 } else { 2.0 * (8 - i) as f64 / 10.0 };
        let (mut t0, mut t1, mut wt) = (0.0, 0.0, 0.0);
        for i in 0..k {
            t0 += self.iv[i].1 as f64 * w(i);
            t1 += self.iv[i + 1].1 as f64 * w(i);
            wt += w(i);
        }
        wt / t0.max(t1)
    }
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

fn loss_intervals(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut q = call!("LossIntervalQueue::new", LossIntervalQueue::new());
    let mut m = LossModel::default();
    let mut t = src.below(1000);
    let mut rtt = src.range(0, 300);
    let n = 1 + src.below(60);
    let mut events = 0;
    for _ in 0..n {
        match src.below(8) {
            0..=2 => { let k = src.log(1, 2000); for _ in 0..k { call!("push_ack", q.push_ack()); m.ack(); } }
            3..=5 => {
                t += match src.below(4) { 0 => rtt, 1 => rtt.saturating_sub(1), 2 => src.below(20), _ => src.log(0, 5000) };
                let before = m.iv.len();
                call!("push_nack", q.push_nack(t, rtt));
                m.nack(t, rtt);
                if m.iv.len() > before || before == 9 { events += 1; }
            }
            6 => rtt = src.log(0, 5000),
            _ => {
                if m.iv.len() > 0 {
                    let p = match src.below(3) { 0 => 1.0, 1 => 1.0 / (1.0 + src.log(0, u32::MAX as u64) as f64), _ => 1.0 / (1.0 + src.below(50) as f64) };
                    call!("reset", q.reset(p));
                    m.reset(p);
                }
            }
        }
        let (a, b) = (call!("compute_loss_rate", q.compute_loss_rate()), m.p());
        cx.log(|| format!("p = {} after {:?}", a, m.iv));
        if !close(a, b) {
            return Err(format!("loss event rate differs from RFC 5348 section 5.4: {} instead of {} for intervals {:?}", a, b, m.iv));
        }
    }
    cx.count("loss events", events);
    cx.nontrivial = events >= 2;
    Ok(())
}

// ---- acknowledgements to feedback ---------------------------------------------------------

struct MFrame { size: u32, t: u64, nonce: bool, limited: bool, acked: bool }

struct FqModel {
    base: u64, // first frame still logged
    frames: VecDeque<MFrame>,
    next: u64,
    win: u64,
    win_size: u64,
    resolved: u64, // every frame below has been counted as received or lost
    seen: HashSet<u64>,
    loss: LossModel,
    fb: Option<(u64, u64, bool, u64)>,
    last_fb: Option<u64>,
}

impl FqModel {
    fn at(&self, id: u64) -> Option<&MFrame> {
        if id < self.base { None } else { self.frames.get((id - self.base) as usize) }
    }
    fn resolve(&mut self, forced: u64, rtt: Option<u64>) {
        loop {
            let b = self.resolved;
            if self.seen.remove(&b) {
                self.loss.ack();
            } else if b < forced || self.seen.len() >= 3 {
                let t = self.at(b).map(|f| f.t).unwrap_or(0);
                self.loss.nack(t, rtt.unwrap_or(100));
            } else {
                break;
            }
            self.resolved += 1;
        }
    }
    fn ack(&mut self, base: u64, bits: u32, nonce: bool, rtt: Option<u64>) {
        if bits == 0 { return; }
        let n = 32 - bits.leading_zeros() as u64;
        if base < self.base || base + n > self.next { return; }
        let mut x = false;
        for i in 0..n { if bits >> i & 1 != 0 { x ^= self.at(base + i).unwrap().nonce; } }
        if x != nonce { return; }
        let (mut last, mut first, mut size, mut limited, mut any) = (0, u64::MAX, 0u64, false, false);
        for i in 0..n {
            let id = base + i;
            let k = (id - self.base) as usize;
            limited |= self.frames[k].limited;
            if bits >> i & 1 == 0 || self.frames[k].acked { continue; }
            any = true;
            self.frames[k].acked = true;
            last = last.max(self.frames[k].t);
            first = first.min(self.frames[k].t);
            size += self.frames[k].size as u64;
            if id >= self.resolved {
                self.seen.insert(id);
                self.resolve(0, rtt);
            }
        }
        if !any { return; }
        let f = self.fb.get_or_insert((0, 0, false, u64::MAX));
        f.0 = f.0.max(last);
        f.1 += size;
        f.2 |= limited;
        f.3 = f.3.min(first);
    }
    fn cull(&mut self, new_base: u64, rtt: Option<u64>) {
        self.resolve(new_base, rtt);
        while self.base < new_base { self.frames.pop_front(); self.base += 1; }
    }
    fn advance(&mut self, b: u64, tail: u64, rtt: Option<u64>) {
        if b > self.win && b <= self.next {
            self.win = b;
            if b >= tail && b - tail > self.base { self.cull(b - tail, rtt); }
        }
    }
    fn forget(&mut self, thresh: u64, rtt: Option<u64>) {
        let mut nb = self.base;
        for f in &self.frames { if f.t < thresh { nb += 1 } else { break } }
        if nb > self.base { self.cull(nb, rtt); }
    }
}

/// RTT samples, receive rate and loss event rate derived from acknowledgements.
fn feedback(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let size = *src.pick(&[64u64, 4, 1, 2, 16, 4096]);
    let base = match src.below(3) { 0 => 0u32, 1 => 0u32.wrapping_sub(1 + src.below(100) as u32), _ => src.u32() };
    let mut q = call!("FrameQueue::new", FrameQueue::new(size as u32, size as u32, base));
    const OFF: u64 = 1 << 40; // model ids, so that differences never wrap
    let mut m = FqModel { base: OFF, frames: VecDeque::new(), next: OFF, win: OFF, win_size: size, resolved: OFF, seen: HashSet::new(), loss: LossModel::default(), fb: None, last_fb: None };
    let id = |v: u64| base.wrapping_add((v.wrapping_sub(OFF)) as u32);
    let mut now = src.below(100);
    let mut rtt: Option<u64> = None;
    let n = 5 + src.below(80);
    let mut nfb = 0;
    let mut mark = false;
    for _ in 0..n {
        match src.below(10) {
            0..=2 => {
                let k = 1 + src.below(20);
                for _ in 0..k {
                    let can = m.next - m.win < m.win_size;
                    if call!("can_push", q.can_push()) != can { return Err(format!("frame window: can_push is {} with {} of {} frames outstanding", !can, m.next - m.win, m.win_size)); }
                    let (sz, nonce) = (20 + src.below(1452) as u32, src.flip());
                    if src.below(8) == 7 { q.mark_rate_limited(); mark = true; }
                    call!("push", q.push(sz as usize, now, Box::new([]), nonce));
                    if can {
                        m.frames.push_back(MFrame { size: sz, t: now, nonce, limited: mark, acked: false });
                        mark = false;
                        m.next += 1;
                    }
                }
                cx.log(|| format!("{} ms: sent up to {}", now, m.next - OFF));
            }
            3..=6 => {
                let len = m.next - m.base;
                let b = match src.below(6) { 0 => m.base, 5 => m.base.wrapping_add(src.below(len + 40)).wrapping_sub(3), _ => m.base + src.below(len + 1) };
                let bits = match src.below(4) { 0 => 1, 1 => src.u32(), 2 => { let k = src.below(32); ((1u64 << (k + 1)) - 1) as u32 } _ => src.below(256) as u32 };
                let mut nonce = false;
                for i in 0..32u64 { if bits >> i & 1 != 0 { if let Some(f) = m.at(b + i) { nonce ^= f.nonce; } } }
                if src.below(10) == 9 { nonce = !nonce; }
                call!("acknowledge_group", q.acknowledge_group(AckGroup { base_id: id(b), bitfield: bits, nonce }, rtt));
                m.ack(b, bits, nonce, rtt);
                cx.log(|| format!("{} ms: ack {}+{:b}", now, b.wrapping_sub(OFF), bits));
            }
            7 => {
                let b = m.win + match src.below(3) { 0 => m.next - m.win, 1 => src.below(m.next - m.win + 3), _ => 0 };
                call!("advance_transfer_window", q.advance_transfer_window(id(b), rtt));
                m.advance(b, size, rtt);
            }
            8 => now += src.log(0, 3000),
            _ => {
                now += src.below(200);
                let thresh = now.saturating_sub(4 * rtt.unwrap_or(150).max(20));
                call!("forget_frames", q.forget_frames(thresh, rtt));
                m.forget(thresh, rtt);
                let got = call!("get_feedback", q.get_feedback(now));
                let want = m.fb.take().map(|(last, size, limited, first)| {
                    // over the time since the last feedback, of which idle time may be left out
                    let over = |ms: u64| (size as f64 / (ms as f64 / 1000.0)).clamp(0.0, u32::MAX as f64);
                    let rate = match m.last_fb { Some(l) => (over((now - l).max(1)), over(now - l.max(first))), None => (0.0, 0.0) };
                    m.last_fb = Some(now);
                    (now - last, rate, m.loss.p(), limited)
                });
                cx.log(|| format!("{} ms: feedback {:?}", now, got));
                match (&got, &want) {
                    (None, None) => (),
                    (Some(g), Some(w)) => {
                        nfb += 1;
                        if g.rtt_ms != w.0 { return Err(format!("RTT sample is {} ms, expected {} ms (now - send time of the newest newly acknowledged frame)", g.rtt_ms, w.0)); }
                        let r = g.receive_rate as f64;
                        if r < (w.1).0 - 1.0 || r > (w.1).1 + 1.0 { return Err(format!("receive rate is {} B/s, expected {} to {} B/s", r, (w.1).0, (w.1).1)); }
                        if !close(g.loss_rate, w.2) { return Err(format!("loss event rate is {}, expected {} from intervals {:?}", g.loss_rate, w.2, m.loss.iv)); }
                        if g.rate_limited != w.3 { return Err(format!("rate_limited is {}, expected {}", g.rate_limited, w.3)); }
                        rtt = Some(g.rtt_ms);
                        if src.below(6) == 5 && m.loss.iv.len() > 0 {
                            let p = 1.0 / (1.0 + src.below(1000) as f64);
                            call!("reset_loss_rate", q.reset_loss_rate(p));
                            m.loss.reset(p);
                        }
                    }
                    _ => return Err(format!("feedback is {:?}, expected {:?}", got, want)),
                }
            }
        }
    }
    cx.count("feedback reports", nfb);
    cx.count("loss events", m.loss.iv.len() as u64);
    cx.nontrivial = nfb >= 3 || m.loss.iv.len() >= 2;
    Ok(())
}

// ---- whole connections --------------------------------------------------------------------

/// The same bounds on the send rate of real connections, observed after every step.
fn history(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut p = STD.clone();
    p.fair = false;
    p.states = true;
    let w = world::run(src, cx, &p)?;
    let s = &w.sim;
    let mut r = Ok(());
    for side in 0..2 {
        r = r.and_then(|_| judge_history(s, side, cx));
    }
    world::finish(&w, cx, r)
}

fn judge_history(s: &Sim, side: usize, cx: &mut Cx) -> CaseResult {
    let max = (s.cfg[side].tx_bandwidth_limit as f64).max(FLOOR);
    let mut frames: std::collections::HashMap<u32, u32> = std::collections::HashMap::new();
    let mut x = S;
    let mut rtt: Option<f64> = None;
    let mut p = 0.0f64;
    // acknowledgement frames since the previous step that could have counted
    let mut acks = false;
    let mut cand: Vec<u64> = Vec::new();
    let mut fbs = 0;
    for (t, e) in &s.ev {
        match e {
            Ev::Emit(i) if s.em[*i as usize].from == side => {
                if let Some(W::Data { id, .. }) = &s.em[*i as usize].w { frames.insert(*id, *i); }
            }
            Ev::Arrive(sd, i, ok) if *sd == side => {
                if !ok { continue; }
                if let Some(W::Acks { groups, .. }) = &s.em[*i as usize].w {
                    for (base, bits, _) in groups {
                        for k in 0..32 {
                            if bits >> k & 1 != 0 {
                                acks = true;
                                if let Some(&f) = frames.get(&base.wrapping_add(k)) { cand.push(s.em[f as usize].st); }
                            }
                        }
                    }
                }
            }
            Ev::State(sd, st) if *sd == side => {
                let (nx, np) = (f64::from_bits(st.0), f64::from_bits(st.1));
                let nr = f64::from_bits(st.2);
                let nr = if nr.is_nan() { None } else { Some(nr) };
                let at = || format!("side {} at {:.3} ms", side, *t as f64 / 1e6);
                if nx > max.max(S.min(max)) && nx > max { return Err(format!("send rate above the configured ceiling: {} B/s with a ceiling of {} ({})", nx, max, at())); }
                if nx < FLOOR.min(max) { return Err(format!("send rate below the s/64 floor: {} ({})", nx, at())); }
                let fed = nr.map(f64::to_bits) != rtt.map(f64::to_bits);
                if fed && !acks { return Err(format!("RTT estimate changed without an acknowledgement: {:?} to {:?} ({})", rtt, nr, at())); }
                if let (true, Some(r), false) = (fed, nr, cand.is_empty()) {
                    // some acknowledged frame explains the sample
                    let ok = cand.iter().any(|ft| {
                        let ms = (*t / 1_000_000).saturating_sub(*ft / 1_000_000) as f64;
                        [-1.0, 0.0, 1.0].iter().any(|d| {
                            let smp = (ms + d).max(0.0) / 1000.0;
                            let want = match rtt { None => smp, Some(o) => 0.9 * o + 0.1 * smp };
                            (want - r).abs() <= 1e-9
                        })
                    });
                    if !ok { return Err(format!("RTT estimate is not the moving average of any acknowledged frame's round trip: {:?} to {} ({})", rtt, r, at())); }
                    fbs += 1;
                }
                if !acks && nx > x { return Err(format!("send rate raised without feedback: {} to {} ({})", x, nx, at())); }
                if !acks && nx < x / 2.0 - 1.0 && nx > FLOOR { return Err(format!("send rate cut by more than half without feedback: {} to {} ({})", x, nx, at())); }
                if p == 0.0 && np == 0.0 && nx > x {
                    let r = nr.unwrap_or(0.1);
                    let top = (2.0 * x).max(w_init(r)) + 1.0;
                    if nx > top { return Err(format!("slow start more than doubled the send rate: {} to {} with RTT {} ({})", x, nx, r, at())); }
                }
                if np > 0.0 && p > 0.0 && nx > x {
                    // the rate in force after an increase stems from the RTT and loss rate of this
                    // very step (the entry into the equation phase never raises the rate)
                    if let Some(r) = nr {
                        let eq = tcp_eq(r, np).max(FLOOR) + 1.0;
                        if nx > eq { return Err(format!("send rate above the TCP throughput equation: {} with RTT {} and loss event rate {}, so {} ({})", nx, r, np, eq, at())); }
                    }
                }
                x = nx;
                rtt = nr;
                p = np;
                acks = false;
                cand.clear();
            }
            _ => (),
        }
    }
    cx.count("feedback reports", fbs);
    if fbs >= 3 { cx.nontrivial = true; }
    Ok(())
}
