//! C16: codec round trip, rejection of malformed input, detection of up to four bit flips.

use uflow::verif::{crc_compute, Frame, Serialize};

use crate::call;
use crate::engine::{CaseResult, Cx, Prop, Rng, Src, Test, Tier};
use crate::wire::{self, Dg, Enc, W};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "a case is non-trivial when it serialised a frame with variable-length contents, or parsed bytes that carry a valid checksum, or flipped bits of a valid frame",
        tests: vec![
            Test { name: "roundtrip", quick: 300_000, thorough: 20_000_000, f: roundtrip },
            Test { name: "parse", quick: 600_000, thorough: 40_000_000, f: parse },
            Test { name: "raw", quick: 200_000, thorough: 10_000_000, f: raw },
            Test { name: "flips", quick: 60_000, thorough: 2_000_000, f: flips },
            Test { name: "flips_exhaustive", quick: 64, thorough: 640, f: flips_exhaustive },
            Test { name: "distance", quick: 2, thorough: 32, f: distance },
        ],
    }]
}

fn bytes(src: &mut Src, n: usize) -> Vec<u8> {
    let style = src.below(4);
    let mut r = Rng(src.below(0));
    (0..n).map(|_| match style { 0 => 0, 1 => 0xFF, 2 => r.next() as u8, _ => (r.next() & 1) as u8 }).collect()
}

pub fn gen_dg(src: &mut Src, max: usize) -> Dg {
    let big = src.below(4);
    let last = match src.below(4) { 0 | 1 => 0, 2 => src.below(5) as u16, _ => src.edgy32() as u16 };
    let frag = if last == 0 { 0 } else { match src.below(3) { 0 => last, 1 => 0, _ => src.below(last as u64 + 1) as u16 } };
    let len = match big {
        0 => src.below(70) as usize,
        1 => *src.pick(&[0usize, 1, 62, 63, 64, 65, 254, 255, 256, 257]),
        2 => src.below(300) as usize,
        _ => src.below(max as u64 + 1) as usize,
    }
    .min(max);
    let lead = |src: &mut Src| match src.below(4) { 0 => 0, 1 => *src.pick(&[1u16, 126, 127, 128, 129, 254, 255, 256, 257, 65535]), 2 => src.below(256) as u16, _ => src.below(65536) as u16 };
    let seq = match src.below(4) { 0 => src.below(16) as u32, 1 => (1 << 20) - 1 - src.below(3) as u32, 2 => 1u32 << src.below(20), _ => src.below(1 << 20) as u32 };
    let chan = match src.below(3) { 0 => src.below(64) as u8, 1 => *src.pick(&[0u8, 15, 16, 17, 31, 32, 33, 47, 48, 63]), _ => 1 << src.below(6) };
    Dg { seq, chan, wlead: lead(src), clead: lead(src), frag, last, data: bytes(src, len) }
}

fn gen_frame(src: &mut Src, fit: bool) -> W {
    let e = |s: &mut Src| s.edgy32();
    match src.below(12) {
        0 => W::Disc,
        1 => W::DiscAck,
        2 => W::HsAck { nonce_ack: e(src) },
        3 => W::HsErr { nonce_ack: e(src), code: src.below(3) as u8 },
        4 => W::SynAck { nonce_ack: e(src), nonce: e(src), rate: e(src), size: e(src), alloc: e(src) },
        5 => W::Syn { version: src.below(256) as u8, nonce: e(src), rate: e(src), size: e(src), alloc: e(src) },
        6 => W::Sync { frame: if src.flip() { Some(e(src)) } else { None }, packet: if src.flip() { Some(e(src)) } else { None } },
        7 => {
            let max = if fit { 161 } else { 2000 };
            let n = match src.below(3) { 0 => src.below(4), 1 => *src.pick(&[0u64, 31, 32, 127, 128, 160, 161]), _ => src.below(max + 1) }.min(max);
            let groups = (0..n).map(|_| (e(src), e(src), src.flip())).collect();
            W::Acks { fbase: e(src), pbase: e(src), groups }
        }
        _ => {
            let n = match src.below(4) { 0 => 1, 1 => src.below(4), 2 => *src.pick(&[0u64, 2, 31, 32, 63, 64, 126, 127]), _ => src.below(128) };
            let mut left = if fit { 1462usize } else { 100_000 };
            let mut dgs = Vec::new();
            for _ in 0..n {
                if left < 14 { break; }
                let d = gen_dg(src, (left - 14).min(65_535));
                left -= wire::dg_size(&d);
                dgs.push(d);
            }
            W::Data { id: e(src), nonce: src.flip(), dgs }
        }
    }
}

fn roundtrip(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let fit = src.below(16) != 15;
    let w = gen_frame(src, fit);
    cx.log(|| wire::show(&w));
    let f = wire::to_uflow(&w);
    let b = call!("Frame::write", f.write());
    let back = call!("Frame::read", Frame::read(&b));
    match &back {
        None => return Err(format!("serialised frame not parsed: {} ({} bytes)", wire::show(&w), b.len())),
        Some(g) => {
            if *g != f || wire::from_uflow(g) != w {
                return Err(format!("frame altered by write and read: {} became {}", wire::show(&w), wire::show(&wire::from_uflow(g))));
            }
        }
    }
    cx.label(match &w { W::Data { .. } => "data frames", W::Acks { .. } => "ack frames", W::Sync { .. } => "sync frames", _ => "handshake/disconnect frames" });
    if let W::Data { dgs, .. } = &w {
        for d in dgs {
            cx.label(match wire::dg_class(d) { Enc::Micro => "micro datagrams", Enc::Small => "small datagrams", _ => "large datagrams" });
        }
        cx.nontrivial = !dgs.is_empty();
    } else if let W::Acks { groups, .. } = &w {
        cx.nontrivial = !groups.is_empty();
    } else {
        cx.nontrivial = true;
    }
    // trailing and missing bytes, resealed so that the checksum holds
    let body = &b[..b.len() - 4];
    let k = src.below(6);
    let mut v = body.to_vec();
    match k {
        1 => v.push(src.below(256) as u8),
        2 => { let n = 1 + src.below(8) as usize; let x = bytes(src, n); v.extend_from_slice(&x) }
        3 => { v.pop(); }
        4 => { let n = src.below(v.len() as u64) as usize; v.truncate(n) }
        _ => return Ok(()),
    }
    compare(&v, cx)
}

/// Reference verdict against the crate's for a frame body that gets a valid checksum.
fn compare(body: &[u8], cx: &mut Cx) -> CaseResult {
    let b = wire::seal(body.to_vec());
    let got = call!("Frame::read", Frame::read(&b));
    let want = wire::read_body(body);
    match (&want, &got) {
        (None, Some(g)) => return Err(format!("malformed frame accepted: {:02x?} as {}", &b[..b.len().min(48)], wire::show(&wire::from_uflow(g)))),
        (None, None) => cx.label("malformed frames rejected"),
        (Some((w, _)), Some(g)) => {
            let g = wire::from_uflow(g);
            if g != *w {
                return Err(format!("frame parsed wrongly: {:02x?} as {} instead of {}", &b[..b.len().min(48)], wire::show(&g), wire::show(w)));
            }
            cx.label("well-formed frames accepted");
        }
        (Some((w, _)), None) => {
            // only what the writer itself produces has to be accepted
            if writable(w) && wire::body(w) == body {
                return Err(format!("well-formed frame rejected: {}", wire::show(w)));
            }
            cx.label("non-canonical frames rejected");
        }
    }
    Ok(())
}

fn writable(w: &W) -> bool {
    match w {
        W::Data { dgs, .. } => dgs.iter().all(|d| d.frag <= d.last),
        _ => true,
    }
}

fn parse(src: &mut Src, cx: &mut Cx) -> CaseResult {
    cx.nontrivial = true;
    let body = match src.below(8) {
        0 => {
            // any type byte, plausible or random contents
            let t = src.below(256) as u8;
            let n = match src.below(6) { 0 => src.below(30), 1 => *src.pick(&[0u64, 4, 5, 9, 10, 20, 21, 1467, 1463]), _ => src.below(1470) } as usize;
            let mut v = vec![t];
            v.extend(bytes(src, n));
            v
        }
        1 => {
            // a known type with a near-miss length
            let (t, n) = *src.pick(&[(0u8, 1467usize), (1, 20), (2, 4), (3, 5), (4, 0), (5, 0), (10, 5), (11, 9), (12, 10), (12, 19), (12, 28)]);
            let n = (n + src.below(5) as usize).saturating_sub(2);
            let mut v = vec![t];
            v.extend(bytes(src, n));
            if t == 12 && n >= 10 { v[9] = 0; v[10] = src.below(4) as u8; }
            v
        }
        2 => {
            // data frame with datagrams in explicit (also non-canonical) encodings
            let mut v = vec![10u8];
            v.extend_from_slice(&src.u32().to_be_bytes());
            let n = src.below(6) as u8;
            let declared = match src.below(4) { 0 => n.wrapping_add(1), 1 => n.saturating_sub(1), _ => n };
            v.push((declared & 0x7F) | if src.flip() { 0x80 } else { 0 });
            for _ in 0..n {
                let mut d = gen_dg(src, 200);
                let enc = match src.below(4) { 0 => Enc::Large, 1 if d.data.len() < 256 && d.last == 0 => Enc::Small, _ => Enc::Auto };
                if src.below(8) == 0 { std::mem::swap(&mut d.frag, &mut d.last); }
                wire::write_dg(&d, enc, &mut v);
            }
            v
        }
        3 => {
            // enum values
            match src.below(3) {
                0 => { let mut v = vec![3u8, 1, 2, 3, 4]; v.push(src.below(256) as u8); v }
                1 => { let mut v = vec![11u8]; v.push(src.below(256) as u8); v.extend(bytes(src, 8)); v }
                _ => vec![src.below(256) as u8],
            }
        }
        _ => {
            // mutation of a valid body
            let w = gen_frame(src, true);
            let mut v = wire::body(&w);
            let k = 1 + src.below(3);
            for _ in 0..k {
                if v.is_empty() { break; }
                // mostly in the header part
                let p = if src.flip() { src.below(v.len() as u64) } else { src.below(v.len().min(24) as u64) } as usize;
                match src.below(6) {
                    0 => v[p] ^= 1 << src.below(8),
                    1 => v[p] = src.below(256) as u8,
                    2 => v[p] = *src.pick(&[0u8, 1, 0x7F, 0x80, 0xC0, 0xFF]),
                    3 => { v.remove(p); }
                    4 => v.insert(p, src.below(256) as u8),
                    _ => v.truncate(p),
                }
            }
            v
        }
    };
    cx.log(|| format!("{:02x?}", &body[..body.len().min(40)]));
    compare(&body, cx)
}

/// Bytes without a valid checksum, of any length.
fn raw(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let n = match src.below(4) { 0 => src.below(10), 1 => src.below(100), 2 => *src.pick(&[1470u64, 1471, 1472, 1473, 1500, 2000]), _ => src.below(1600) } as usize;
    let v = bytes(src, n);
    let ok = n >= 5 && wire::crc(&v[..n - 4]).to_be_bytes() == v[n - 4..];
    let got = call!("Frame::read", Frame::read(&v));
    if got.is_some() && !ok {
        return Err(format!("bytes without a valid checksum accepted: {:02x?}", &v[..n.min(40)]));
    }
    if n < 6 && got.is_some() && n < 5 {
        return Err("frame shorter than its checksum accepted".into());
    }
    // a valid frame with its checksum damaged, moved or cut
    let w = gen_frame(src, true);
    let b = wire::to_uflow(&w).write().into_vec();
    let l = b.len();
    let mut c = b.clone();
    match src.below(7) {
        0 => { c.truncate(l - 1 - src.below(l as u64 - 1).min(7) as usize); }
        1 => c.push(0),
        2 => { c[l - 4..].fill(0); }
        3 => { let k = 1 + src.below(3) as usize; c[l - 4..].rotate_left(k); }
        4 => { for x in c[l - 4..].iter_mut() { *x = !*x; } }
        5 => { c.insert(0, 0); }
        _ => { let e = src.u32(); for (i, x) in e.to_be_bytes().iter().enumerate() { c[l - 4 + i] ^= x; } }
    }
    cx.nontrivial = c != b;
    if c != b && call!("Frame::read", Frame::read(&c)).is_some() && !checks(&c) {
        return Err(format!("frame with a damaged checksum accepted: {} bytes {:02x?}", c.len(), &c[..c.len().min(40)]));
    }
    Ok(())
}

fn checks(b: &[u8]) -> bool {
    let n = b.len();
    n >= 5 && wire::crc(&b[..n - 4]).to_be_bytes() == b[n - 4..]
}

fn flip(b: &mut [u8], bit: usize) {
    b[bit / 8] ^= 0x80 >> (bit % 8);
}

fn flips(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut w = gen_frame(src, true);
    if src.flip() {
        // fill up to exactly the maximum size
        if let W::Data { dgs, .. } = &mut w {
            let used: usize = dgs.iter().map(wire::dg_size).sum();
            if used + 14 <= 1462 && dgs.len() < 127 {
                let n = 1462 - 14 - used;
                let mut d = gen_dg(src, 0);
                d.last = 3;
                d.frag = 1;
                d.data = bytes(src, n);
                dgs.push(d);
            }
        }
    }
    let b = wire::to_uflow(&w).write().into_vec();
    if b.len() > wire::MAX_FRAME {
        return Ok(());
    }
    cx.log(|| wire::show(&w));
    cx.nontrivial = true;
    let bits = b.len() * 8;
    for _ in 0..64 {
        let k = 1 + src.below(4) as usize;
        let mut pos: Vec<usize> = Vec::new();
        let style = src.below(4);
        let origin = src.below(bits as u64) as usize;
        while pos.len() < k {
            let p = match style {
                0 => src.below(bits as u64) as usize,
                1 => (origin + src.below(40) as usize) % bits,
                2 => { let p = bits - 1 - src.below(40.min(bits as u64)) as usize; if pos.len() % 2 == 0 { p } else { src.below(bits as u64) as usize } }
                _ => (origin + pos.len() * (1 + src.below(2000) as usize)) % bits,
            };
            if !pos.contains(&p) { pos.push(p); }
        }
        let mut c = b.clone();
        for &p in &pos { flip(&mut c, p); }
        if call!("Frame::read", Frame::read(&c)).is_some() {
            return Err(format!("altered frame accepted: {} bytes, bits {:?} flipped in {}", b.len(), pos, wire::show(&w)));
        }
        cx.extra_evals += 1;
    }
    Ok(())
}

/// All 1- and 2-bit (and for the shortest frames all 3- and 4-bit) alterations of one frame per type.
fn flips_exhaustive(src: &mut Src, cx: &mut Cx) -> CaseResult {
    let k = src.below(9);
    let n = 1 + src.below(60) as usize;
    let data = bytes(src, n);
    let w = match k {
        0 => W::Disc,
        1 => W::DiscAck,
        2 => W::HsAck { nonce_ack: src.u32() },
        3 => W::HsErr { nonce_ack: src.u32(), code: src.below(3) as u8 },
        4 => W::Sync { frame: Some(src.u32()), packet: None },
        5 => W::Acks { fbase: src.u32(), pbase: 77, groups: vec![(src.u32(), src.u32(), src.flip())] },
        6 => W::SynAck { nonce_ack: src.u32(), nonce: src.u32(), rate: 1_000_000, size: 1_000_000, alloc: 1_000_000 },
        7 => W::Data { id: src.u32(), nonce: src.flip(), dgs: vec![Dg { seq: 4, chan: 3, wlead: 1, clead: 1, frag: 0, last: 0, data }] },
        _ => W::Syn { version: 3, nonce: src.u32(), rate: 1, size: 2, alloc: 3 },
    };
    let b = wire::to_uflow(&w).write().into_vec();
    let bits = b.len() * 8;
    let mut c = b.clone();
    let mut tried = 0u64;
    let mut test = |c: &[u8], p: &[usize]| -> CaseResult {
        tried += 1;
        if call!("Frame::read", Frame::read(c)).is_some() {
            return Err(format!("altered frame accepted: {} bytes, bits {:?} flipped in {}", b.len(), p, wire::show(&w)));
        }
        Ok(())
    };
    for i in 0..bits {
        flip(&mut c, i);
        test(&c, &[i])?;
        if bits <= 500 {
            for j in 0..i {
                flip(&mut c, j);
                test(&c, &[i, j])?;
                if bits <= 72 {
                    for l in 0..j {
                        flip(&mut c, l);
                        test(&c, &[i, j, l])?;
                        for m in 0..l {
                            flip(&mut c, m);
                            test(&c, &[i, j, l, m])?;
                            flip(&mut c, m);
                        }
                        flip(&mut c, l);
                    }
                }
                flip(&mut c, j);
            }
        }
        flip(&mut c, i);
    }
    cx.extra_evals += tried - 1;
    cx.count("exhaustively altered copies parsed", tried);
    cx.log(|| format!("{}: {} alterations", wire::show(&w), tried));
    cx.nontrivial = true;
    Ok(())
}

/// Decides for all sets of at most four of the 11776 bit positions of a maximum-size frame (and so
/// of every shorter one) whether the alteration would go unnoticed: for an affine checksum that is
/// the question whether two different pairs of positions have the same difference. Candidates
/// count only when the altered frame really is accepted.
fn distance(src: &mut Src, cx: &mut Cx) -> CaseResult {
    cx.nontrivial = true;
    let nonce = src.flip();
    let id = src.u32();
    let data = bytes(src, 1448);
    let w = W::Data { id, nonce, dgs: vec![Dg { seq: 1, chan: 5, wlead: 2, clead: 3, frag: 1, last: 2, data }] };
    let b = wire::to_uflow(&w).write().into_vec();
    if b.len() != wire::MAX_FRAME {
        return Err(format!("maximum-size frame has {} bytes", b.len()));
    }
    let n = b.len() - 4;
    let bits = b.len() * 8;
    let base = call!("crc", crc_compute(&b[..n]));
    // does the writer place this checksum at the end?
    let placed = base.to_be_bytes() == b[n..];
    let mut syn = vec![0u32; bits];
    let mut c = b.clone();
    for i in 0..n * 8 {
        flip(&mut c, i);
        syn[i] = call!("crc", crc_compute(&c[..n])) ^ base;
        flip(&mut c, i);
    }
    for i in 0..32 {
        syn[n * 8 + i] = 0x8000_0000 >> i;
    }
    // affinity, on random pairs of alterations
    let mut r = Rng(src.below(0));
    let mut affine = placed;
    for _ in 0..4000 {
        let k = 2 + r.below(200);
        let mut c = b.clone();
        let mut want = base;
        for _ in 0..k {
            let p = r.below(n as u64 * 8) as usize;
            flip(&mut c, p);
            want ^= syn[p];
        }
        if call!("crc", crc_compute(&c[..n])) != want {
            affine = false;
        }
    }
    let verify = |pos: &[usize]| -> Option<CaseResult> {
        let mut p = pos.to_vec();
        p.sort();
        for w in p.windows(2) { if w[0] == w[1] { return None; } }
        let mut c = b.clone();
        for &i in pos { flip(&mut c, i); }
        if call!("Frame::read", Frame::read(&c)).is_some() {
            Some(Err(format!("altered frame accepted: 1472 bytes, bits {:?} flipped in {}", pos, wire::show(&w))))
        } else {
            None
        }
    };
    // every pair difference, 16 passes by the top bits; singles and zero as degenerate members
    let mut cand = 0u64;
    for pass in 0..16u32 {
        let mut set = vec![0u64; 1 << 22];
        let mut dup: Vec<u32> = Vec::new();
        let mut put = |v: u32, dup: &mut Vec<u32>| {
            if v >> 28 != pass { return; }
            let k = (v & 0x0FFF_FFFF) as usize;
            if set[k / 64] >> (k % 64) & 1 != 0 { dup.push(v); } else { set[k / 64] |= 1 << (k % 64); }
        };
        put(0, &mut dup);
        for i in 0..bits { put(syn[i], &mut dup); }
        for i in 0..bits {
            let s = syn[i];
            for j in 0..i { put(s ^ syn[j], &mut dup); }
            if dup.len() > 10_000 { break; }
        }
        cand += dup.len() as u64;
        dup.truncate(4);
        for v in dup {
            // all members with this difference
            let mut m: Vec<Vec<usize>> = Vec::new();
            if v == 0 { m.push(vec![]); }
            for i in 0..bits {
                if syn[i] == v { m.push(vec![i]); }
                for j in 0..i { if syn[i] ^ syn[j] == v { m.push(vec![i, j]); } }
                if m.len() > 8 { break; }
            }
            for x in 0..m.len() {
                for y in 0..x {
                    let pos: Vec<usize> = m[x].iter().chain(m[y].iter()).copied().collect();
                    if let Some(r) = verify(&pos) { return r; }
                    cx.extra_evals += 1;
                }
            }
        }
    }
    cx.log(|| format!("{} positions, affine={}, {} coinciding differences", bits, affine, cand));
    cx.count("pair differences compared", (bits * (bits - 1) / 2) as u64);
    if affine {
        cx.label("affine checksum: all sets of up to 4 positions decided");
        return Ok(());
    }
    cx.label("checksum not affine: witness search");
    // Not affine: the argument above does not apply. Look for a real witness: true differences of
    // pairs near the front against pairs towards the end.
    let rounds = if cx.tier == Tier::Quick { 6 } else { 40 };
    for _ in 0..rounds {
        let mut base_msg = b.clone();
        for x in base_msg[24..n].iter_mut() { *x = r.next() as u8; }
        let cb = crc_compute(&base_msg[..n]);
        base_msg[n..].copy_from_slice(&cb.to_be_bytes());
        let head = 24 * 8 + r.below(600) as usize * 8;
        let mut front: std::collections::HashMap<u32, (usize, usize)> = std::collections::HashMap::new();
        let mut c = base_msg.clone();
        for i in head..head + 240 {
            flip(&mut c, i);
            for j in head..i {
                flip(&mut c, j);
                front.insert(crc_compute(&c[..n]) ^ cb, (i, j));
                flip(&mut c, j);
            }
            flip(&mut c, i);
        }
        let mut s2 = vec![0u32; bits];
        for i in head + 240..n * 8 {
            flip(&mut c, i);
            s2[i] = crc_compute(&c[..n]) ^ cb;
            flip(&mut c, i);
        }
        for i in 0..32 { s2[n * 8 + i] = 0x8000_0000 >> i; }
        let mut bloom = vec![0u64; 1 << 16];
        for k in front.keys() { let h = (k >> 10) as usize; bloom[h / 64] |= 1 << (h % 64); }
        for i in head + 240..bits {
            for j in head + 240..i {
                let v = s2[i] ^ s2[j];
                let h = (v >> 10) as usize;
                if bloom[h / 64] >> (h % 64) & 1 == 0 { continue; }
                if let Some(&(x, y)) = front.get(&v) {
                    let pos = [i, j, x, y];
                    let mut t = base_msg.clone();
                    for &p in &pos { flip(&mut t, p); }
                    if call!("Frame::read", Frame::read(&base_msg)).is_some() && call!("Frame::read", Frame::read(&t)).is_some() {
                        return Err(format!("altered frame accepted: 1472 bytes, bits {:?} flipped (frame starts {:02x?}, checksum is not affine)", pos, &base_msg[..40]));
                    }
                }
            }
        }
    }
    cx.label("checksum not affine: no witness found");
    Ok(())
}
