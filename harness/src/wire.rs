//! Independent reference codec for the uflow wire format (written from the format comments, not
//! sharing code with the crate). Used by the oracles to read what an endpoint emitted, by the
//! generators to build frames with arbitrary field values, and by C16 as the differential model.

pub const MAX_FRAME: usize = 1472;
pub const MAX_FRAG: usize = 1448;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dg {
    pub seq: u32,
    pub chan: u8,
    pub wlead: u16,
    pub clead: u16,
    pub frag: u16,
    pub last: u16,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum W {
    Syn { version: u8, nonce: u32, rate: u32, size: u32, alloc: u32 },
    SynAck { nonce_ack: u32, nonce: u32, rate: u32, size: u32, alloc: u32 },
    HsAck { nonce_ack: u32 },
    HsErr { nonce_ack: u32, code: u8 },
    Disc,
    DiscAck,
    Data { id: u32, nonce: bool, dgs: Vec<Dg> },
    Sync { frame: Option<u32>, packet: Option<u32> },
    Acks { fbase: u32, pbase: u32, groups: Vec<(u32, u32, bool)> },
}

const fn table() -> [u32; 256] {
    // reflected polynomial of 0x132c00699
    let poly: u32 = 0x9960034C;
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { (c >> 1) ^ poly } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}

static TABLE: [u32; 256] = table();

// The implementation's table is indexed by (register ^ byte) with the register kept inverted on
// one side; `crc_init`/`crc_out` reproduce its conventions and are validated against it at startup.
pub fn crc_raw(init: u32, data: &[u8]) -> u32 {
    let mut r = init;
    for &b in data {
        r = (r >> 8) ^ TABLE[((r as u8) ^ b) as usize];
    }
    r
}

pub fn crc(data: &[u8]) -> u32 {
    !crc_raw(!0, data)
}

struct B(Vec<u8>);
impl B {
    fn u8(&mut self, v: u8) -> &mut Self { self.0.push(v); self }
    fn u16(&mut self, v: u16) -> &mut Self { self.0.extend_from_slice(&v.to_be_bytes()); self }
    fn u32(&mut self, v: u32) -> &mut Self { self.0.extend_from_slice(&v.to_be_bytes()); self }
}

pub fn seal(mut v: Vec<u8>) -> Vec<u8> {
    let c = crc(&v);
    v.extend_from_slice(&c.to_be_bytes());
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc { Auto, Micro, Small, Large }

pub fn dg_class(d: &Dg) -> Enc {
    if d.last == 0 && d.data.len() < 64 && d.wlead < 128 && d.clead < 256 {
        Enc::Micro
    } else if d.last == 0 && d.data.len() < 256 {
        Enc::Small
    } else {
        Enc::Large
    }
}

pub fn dg_size(d: &Dg) -> usize {
    d.data.len() + match dg_class(d) { Enc::Micro => 6, Enc::Small => 9, _ => 14 }
}

pub fn write_dg(d: &Dg, enc: Enc, v: &mut Vec<u8>) {
    let enc = if enc == Enc::Auto { dg_class(d) } else { enc };
    let n = d.data.len();
    let mut b = B(std::mem::take(v));
    match enc {
        Enc::Micro => {
            b.u8((n as u8 & 0x3F) | ((d.chan & 0x10) << 2));
            b.u8(((d.seq >> 12) & 0xF0) as u8 | (d.chan & 0x0F));
            b.u16(d.seq as u16);
            b.u8((d.wlead as u8 & 0x7F) | ((d.chan & 0x20) << 2));
            b.u8(d.clead as u8);
        }
        Enc::Small => {
            b.u8(0x80 | (d.chan & 0x3F));
            b.u8(n as u8);
            b.u8((d.seq >> 16) as u8 & 0x0F);
            b.u16(d.seq as u16);
            b.u16(d.wlead).u16(d.clead);
        }
        _ => {
            b.u8(0xC0 | (d.chan & 0x3F));
            b.u16(n as u16);
            b.u8((d.seq >> 16) as u8 & 0x0F);
            b.u16(d.seq as u16);
            b.u16(d.wlead).u16(d.clead).u16(d.frag).u16(d.last);
        }
    }
    b.0.extend_from_slice(&d.data);
    *v = b.0;
}

/// Frame bytes without the checksum.
pub fn body(f: &W) -> Vec<u8> {
    let mut b = B(Vec::with_capacity(64));
    match f {
        W::Syn { version, nonce, rate, size, alloc } => {
            b.u8(0).u8(*version).u32(*nonce).u32(*rate).u32(*size).u32(*alloc);
            b.0.resize(MAX_FRAME - 4, 0);
        }
        W::SynAck { nonce_ack, nonce, rate, size, alloc } => {
            b.u8(1).u32(*nonce_ack).u32(*nonce).u32(*rate).u32(*size).u32(*alloc);
        }
        W::HsAck { nonce_ack } => { b.u8(2).u32(*nonce_ack); }
        W::HsErr { nonce_ack, code } => { b.u8(3).u32(*nonce_ack).u8(*code); }
        W::Disc => { b.u8(4); }
        W::DiscAck => { b.u8(5); }
        W::Data { id, nonce, dgs } => {
            b.u8(10).u32(*id).u8(((*nonce as u8) << 7) | (dgs.len() as u8 & 0x7F));
            for d in dgs {
                write_dg(d, Enc::Auto, &mut b.0);
            }
        }
        W::Sync { frame, packet } => {
            b.u8(11).u8(frame.is_some() as u8 | ((packet.is_some() as u8) << 1)).u32(frame.unwrap_or(0)).u32(packet.unwrap_or(0));
        }
        W::Acks { fbase, pbase, groups } => {
            b.u8(12).u32(*fbase).u32(*pbase).u16(groups.len() as u16);
            for (base, bits, nonce) in groups {
                b.u32(*base).u32(*bits).u8(*nonce as u8);
            }
        }
    }
    b.0
}

pub fn write(f: &W) -> Vec<u8> {
    seal(body(f))
}

struct R<'a>(&'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n { return None; }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> { Some(self.take(1)?[0]) }
    fn u16(&mut self) -> Option<u16> { Some(u16::from_be_bytes(self.take(2)?.try_into().unwrap())) }
    fn u32(&mut self) -> Option<u32> { Some(u32::from_be_bytes(self.take(4)?.try_into().unwrap())) }
}

/// What the format leaves unspecified in a parsed frame: a reader may accept or reject it.
#[derive(Default, Clone, Copy, Debug, PartialEq)]
pub struct Slack {
    pub reserved: bool,
}

pub fn read_ex(bytes: &[u8]) -> Option<(W, Slack)> {
    if bytes.len() < 5 {
        return None;
    }
    let (b, c) = bytes.split_at(bytes.len() - 4);
    if crc(b) != u32::from_be_bytes(c.try_into().unwrap()) {
        return None;
    }
    read_body(b)
}

pub fn read_body(b: &[u8]) -> Option<(W, Slack)> {
    let mut slack = Slack::default();
    let mut r = R(b);
    let w = match r.u8()? {
        0 => {
            if b.len() != MAX_FRAME - 4 { return None; }
            let w = W::Syn { version: r.u8()?, nonce: r.u32()?, rate: r.u32()?, size: r.u32()?, alloc: r.u32()? };
            slack.reserved |= r.0.iter().any(|&x| x != 0);
            r.0 = &[];
            w
        }
        1 => W::SynAck { nonce_ack: r.u32()?, nonce: r.u32()?, rate: r.u32()?, size: r.u32()?, alloc: r.u32()? },
        2 => W::HsAck { nonce_ack: r.u32()? },
        3 => {
            let nonce_ack = r.u32()?;
            let code = r.u8()?;
            if code > 2 { return None; }
            W::HsErr { nonce_ack, code }
        }
        4 => W::Disc,
        5 => W::DiscAck,
        10 => {
            let id = r.u32()?;
            let h = r.u8()?;
            let mut dgs = Vec::new();
            for _ in 0..h & 0x7F {
                let h0 = r.u8()?;
                if h0 & 0x80 == 0 {
                    let n = (h0 & 0x3F) as usize;
                    let h1 = r.u8()?;
                    let lo = r.u16()?;
                    let h4 = r.u8()?;
                    let h5 = r.u8()?;
                    dgs.push(Dg {
                        seq: (((h1 >> 4) as u32) << 16) | lo as u32,
                        chan: (h1 & 0x0F) | ((h0 & 0x40) >> 2) | ((h4 & 0x80) >> 2),
                        wlead: (h4 & 0x7F) as u16,
                        clead: h5 as u16,
                        frag: 0,
                        last: 0,
                        data: r.take(n)?.to_vec(),
                    });
                } else if h0 & 0x40 == 0 {
                    let n = r.u8()? as usize;
                    let hi = r.u8()?;
                    slack.reserved |= hi & 0xF0 != 0;
                    let lo = r.u16()?;
                    dgs.push(Dg {
                        seq: (((hi & 0x0F) as u32) << 16) | lo as u32,
                        chan: h0 & 0x3F,
                        wlead: r.u16()?,
                        clead: r.u16()?,
                        frag: 0,
                        last: 0,
                        data: r.take(n)?.to_vec(),
                    });
                } else {
                    let n = r.u16()? as usize;
                    let hi = r.u8()?;
                    slack.reserved |= hi & 0xF0 != 0;
                    let lo = r.u16()?;
                    let (wlead, clead, frag, last) = (r.u16()?, r.u16()?, r.u16()?, r.u16()?);
                    // a large header where the shorter one applies, or frag > last: semantically
                    // refused later; the codec may take either view
                    dgs.push(Dg { seq: (((hi & 0x0F) as u32) << 16) | lo as u32, chan: h0 & 0x3F, wlead, clead, frag, last, data: r.take(n)?.to_vec() });
                }
            }
            W::Data { id, nonce: h & 0x80 != 0, dgs }
        }
        11 => {
            let m = r.u8()?;
            slack.reserved |= m & 0xFC != 0;
            let (f, p) = (r.u32()?, r.u32()?);
            W::Sync { frame: (m & 1 != 0).then_some(f), packet: (m & 2 != 0).then_some(p) }
        }
        12 => {
            let (fbase, pbase) = (r.u32()?, r.u32()?);
            let n = r.u16()?;
            let mut groups = Vec::new();
            for _ in 0..n {
                let (base, bits) = (r.u32()?, r.u32()?);
                let nb = r.u8()?;
                slack.reserved |= nb > 1;
                groups.push((base, bits, nb != 0));
            }
            W::Acks { fbase, pbase, groups }
        }
        _ => return None,
    };
    if !r.0.is_empty() {
        return None;
    }
    Some((w, slack))
}

pub fn read(bytes: &[u8]) -> Option<W> {
    read_ex(bytes).map(|x| x.0)
}

pub fn show(f: &W) -> String {
    match f {
        W::Data { id, nonce, dgs } => {
            let d: Vec<String> = dgs.iter().take(6).map(|d| format!("#{}c{}{}({}B,w{},c{})", d.seq, d.chan, if d.last > 0 { format!("[{}/{}]", d.frag, d.last) } else { String::new() }, d.data.len(), d.wlead, d.clead)).collect();
            format!("DATA id={:#x} n={} {}{}", id, *nonce as u8, d.join(" "), if dgs.len() > 6 { format!(" ..{}", dgs.len()) } else { String::new() })
        }
        other => format!("{:x?}", other),
    }
}

/// Conversion from the crate's frame type.
pub fn from_uflow(f: &uflow::verif::Frame) -> W {
    use uflow::verif::{Frame as F, HandshakeErrorType as E};
    match f {
        F::HandshakeSynFrame(f) => W::Syn { version: f.version, nonce: f.nonce, rate: f.max_receive_rate, size: f.max_packet_size, alloc: f.max_receive_alloc },
        F::HandshakeSynAckFrame(f) => W::SynAck { nonce_ack: f.nonce_ack, nonce: f.nonce, rate: f.max_receive_rate, size: f.max_packet_size, alloc: f.max_receive_alloc },
        F::HandshakeAckFrame(f) => W::HsAck { nonce_ack: f.nonce_ack },
        F::HandshakeErrorFrame(f) => W::HsErr { nonce_ack: f.nonce_ack, code: match f.error { E::Version => 0, E::Config => 1, E::ServerFull => 2 } },
        F::DisconnectFrame(_) => W::Disc,
        F::DisconnectAckFrame(_) => W::DiscAck,
        F::DataFrame(f) => W::Data {
            id: f.sequence_id,
            nonce: f.nonce,
            dgs: f.datagrams.iter().map(|d| Dg { seq: d.sequence_id, chan: d.channel_id, wlead: d.window_parent_lead, clead: d.channel_parent_lead, frag: d.fragment_id, last: d.fragment_id_last, data: d.data.to_vec() }).collect(),
        },
        F::SyncFrame(f) => W::Sync { frame: f.next_frame_id, packet: f.next_packet_id },
        F::AckFrame(f) => W::Acks { fbase: f.frame_window_base_id, pbase: f.packet_window_base_id, groups: f.frame_acks.iter().map(|g| (g.base_id, g.bitfield, g.nonce)).collect() },
    }
}

/// Conversion to the crate's frame type.
pub fn to_uflow(w: &W) -> uflow::verif::Frame {
    use uflow::verif as v;
    match w {
        W::Syn { version, nonce, rate, size, alloc } => v::Frame::HandshakeSynFrame(v::HandshakeSynFrame { version: *version, nonce: *nonce, max_receive_rate: *rate, max_packet_size: *size, max_receive_alloc: *alloc }),
        W::SynAck { nonce_ack, nonce, rate, size, alloc } => v::Frame::HandshakeSynAckFrame(v::HandshakeSynAckFrame { nonce_ack: *nonce_ack, nonce: *nonce, max_receive_rate: *rate, max_packet_size: *size, max_receive_alloc: *alloc }),
        W::HsAck { nonce_ack } => v::Frame::HandshakeAckFrame(v::HandshakeAckFrame { nonce_ack: *nonce_ack }),
        W::HsErr { nonce_ack, code } => v::Frame::HandshakeErrorFrame(v::HandshakeErrorFrame { nonce_ack: *nonce_ack, error: match code { 0 => v::HandshakeErrorType::Version, 1 => v::HandshakeErrorType::Config, _ => v::HandshakeErrorType::ServerFull } }),
        W::Disc => v::Frame::DisconnectFrame(v::DisconnectFrame {}),
        W::DiscAck => v::Frame::DisconnectAckFrame(v::DisconnectAckFrame {}),
        W::Data { id, nonce, dgs } => v::Frame::DataFrame(v::DataFrame {
            sequence_id: *id,
            nonce: *nonce,
            datagrams: dgs.iter().map(|d| v::Datagram { sequence_id: d.seq, channel_id: d.chan, window_parent_lead: d.wlead, channel_parent_lead: d.clead, fragment_id: d.frag, fragment_id_last: d.last, data: d.data.clone().into_boxed_slice() }).collect(),
        }),
        W::Sync { frame, packet } => v::Frame::SyncFrame(v::SyncFrame { next_frame_id: *frame, next_packet_id: *packet }),
        W::Acks { fbase, pbase, groups } => v::Frame::AckFrame(v::AckFrame { frame_window_base_id: *fbase, packet_window_base_id: *pbase, frame_acks: groups.iter().map(|g| v::AckGroup { base_id: g.0, bitfield: g.1, nonce: g.2 }).collect() }),
    }
}
