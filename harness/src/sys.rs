//! Virtual clock and in-process UDP network behind the libc symbols that std calls. A thread on
//! which a simulation is active sees them; any other thread gets the real system calls.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};

use libc::{c_int, c_void, size_t, sockaddr, socklen_t, ssize_t, timespec};

thread_local! {
    static CLOCK_NS: Cell<u64> = const { Cell::new(u64::MAX) };
    static NET_ON: Cell<bool> = const { Cell::new(false) };
    static NET: RefCell<Net> = const { RefCell::new(Net::new()) };
}

#[derive(Clone, Debug)]
pub struct Dgram {
    pub t_ns: u64,
    pub src: SocketAddrV4,
    pub dst: SocketAddrV4,
    pub data: Vec<u8>,
}

struct Sock {
    bound: SocketAddrV4,
    host: Ipv4Addr,
    peer: Option<SocketAddrV4>,
    inbox: VecDeque<(SocketAddrV4, Vec<u8>)>,
    fail_recv: u32,
}

impl Sock {
    fn src(&self) -> SocketAddrV4 {
        SocketAddrV4::new(if self.bound.ip().is_unspecified() { self.host } else { *self.bound.ip() }, self.bound.port())
    }
}

pub struct Net {
    socks: BTreeMap<c_int, Sock>,
    out: VecDeque<Dgram>,
    next_host: Option<Ipv4Addr>,
    next_port: u16,
}

impl Net {
    const fn new() -> Self {
        Net { socks: BTreeMap::new(), out: VecDeque::new(), next_host: None, next_port: 40000 }
    }
}

// ---- harness side -------------------------------------------------------------------------

/// Real monotonic time, whatever the virtual clock says.
pub fn real_ns() -> u64 {
    let mut ts: timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as libc::c_long, &mut ts as *mut timespec) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn clock_id_ns(id: libc::clockid_t) -> Option<u64> {
    let mut ts: timespec = unsafe { std::mem::zeroed() };
    let r = unsafe { libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, &mut ts as *mut timespec) };
    if r != 0 {
        return None;
    }
    Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
}

pub const T0_NS: u64 = 1_000_000_000_000;

pub fn set_clock(ns: u64) {
    CLOCK_NS.with(|c| c.set(ns));
}

pub fn clock() -> u64 {
    CLOCK_NS.with(|c| c.get())
}

pub fn advance(ns: u64) {
    CLOCK_NS.with(|c| c.set(c.get() + ns));
}

pub fn clock_off() {
    CLOCK_NS.with(|c| c.set(u64::MAX));
}

pub fn net_on() {
    NET.with(|n| *n.borrow_mut() = Net::new());
    NET_ON.with(|c| c.set(true));
}

pub fn net_off() {
    NET_ON.with(|c| c.set(false));
    NET.with(|n| *n.borrow_mut() = Net::new());
}

/// Host address given to the next socket bound to the unspecified address.
pub fn set_next_host(ip: Ipv4Addr) {
    NET.with(|n| n.borrow_mut().next_host = Some(ip));
}

pub fn set_next_port(port: u16) {
    NET.with(|n| n.borrow_mut().next_port = port);
}

/// Takes the datagrams sent since the last call.
pub fn take_out() -> Vec<Dgram> {
    NET.with(|n| n.borrow_mut().out.drain(..).collect())
}

/// Puts a datagram in the inbox of the socket it is addressed to (if any accepts it).
pub fn deliver(src: SocketAddrV4, dst: SocketAddrV4, data: &[u8]) -> bool {
    NET.with(|n| {
        let mut n = n.borrow_mut();
        for s in n.socks.values_mut() {
            if s.src() == dst || (s.bound.ip().is_unspecified() && s.bound.port() == dst.port() && *dst.ip() == s.host) {
                if let Some(p) = s.peer {
                    if p != src {
                        return false;
                    }
                }
                s.inbox.push_back((src, data.to_vec()));
                return true;
            }
        }
        false
    })
}

/// The next `count` receive calls on the socket with this local address fail with ECONNREFUSED.
pub fn fail_recv(addr: SocketAddrV4, count: u32) {
    NET.with(|n| {
        for s in n.borrow_mut().socks.values_mut() {
            if s.src() == addr {
                s.fail_recv += count;
            }
        }
    })
}

// ---- libc side ----------------------------------------------------------------------------

fn on() -> bool {
    NET_ON.try_with(|c| c.get()).unwrap_or(false)
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn read_addr(a: *const sockaddr) -> Option<SocketAddrV4> {
    if a.is_null() || (*a).sa_family != libc::AF_INET as u16 {
        return None;
    }
    let s = a as *const libc::sockaddr_in;
    Some(SocketAddrV4::new(Ipv4Addr::from(u32::from_be((*s).sin_addr.s_addr)), u16::from_be((*s).sin_port)))
}

unsafe fn write_addr(v: SocketAddrV4, a: *mut sockaddr, len: *mut socklen_t) {
    if a.is_null() || len.is_null() {
        return;
    }
    let mut s: libc::sockaddr_in = std::mem::zeroed();
    s.sin_family = libc::AF_INET as u16;
    s.sin_port = v.port().to_be();
    s.sin_addr.s_addr = u32::from(*v.ip()).to_be();
    let n = std::mem::size_of::<libc::sockaddr_in>().min(*len as usize);
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *len = std::mem::size_of::<libc::sockaddr_in>() as socklen_t;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut timespec) -> c_int {
    if id == libc::CLOCK_MONOTONIC {
        let v = CLOCK_NS.try_with(|c| c.get()).unwrap_or(u64::MAX);
        if v != u64::MAX {
            (*ts).tv_sec = (v / 1_000_000_000) as i64;
            (*ts).tv_nsec = (v % 1_000_000_000) as i64;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, ts) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    if on() {
        if let Some(mut a) = read_addr(addr) {
            return untagged(|| NET.with(|n| {
                let mut n = n.borrow_mut();
                if a.port() == 0 {
                    a.set_port(n.next_port);
                    n.next_port += 1;
                }
                let host = n.next_host.take().unwrap_or(Ipv4Addr::new(127, 0, 0, 1));
                n.socks.insert(fd, Sock { bound: a, host, peer: None, inbox: VecDeque::new(), fail_recv: 0 });
                0
            }));
        }
    }
    libc::syscall(libc::SYS_bind, fd as libc::c_long, addr, len as libc::c_long) as c_int
}

fn untagged<R>(f: impl FnOnce() -> R) -> R {
    let t = crate::alloc::set_tag(0);
    let r = f();
    crate::alloc::set_tag(t);
    r
}

fn with_sock<R>(fd: c_int, f: impl FnOnce(&mut Sock, &mut VecDeque<Dgram>) -> R) -> Option<R> {
    if !on() {
        return None;
    }
    untagged(|| NET.with(|n| {
        let n = &mut *n.borrow_mut();
        let out = &mut n.out;
        n.socks.get_mut(&fd).map(|s| f(s, out))
    }))
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    let a = read_addr(addr);
    if let Some(r) = with_sock(fd, |s, _| { s.peer = a; 0 }) {
        return r;
    }
    libc::syscall(libc::SYS_connect, fd as libc::c_long, addr, len as libc::c_long) as c_int
}

unsafe fn push_out(s: &Sock, dst: Option<SocketAddrV4>, buf: *const c_void, len: size_t, out: &mut VecDeque<Dgram>) -> ssize_t {
    let dst = match dst.or(s.peer) {
        Some(d) => d,
        None => {
            set_errno(libc::EDESTADDRREQ);
            return -1;
        }
    };
    let data = std::slice::from_raw_parts(buf as *const u8, len).to_vec();
    out.push_back(Dgram { t_ns: clock(), src: s.src(), dst, data });
    len as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, addr: *const sockaddr, alen: socklen_t) -> ssize_t {
    let a = read_addr(addr);
    if let Some(r) = with_sock(fd, |s, out| push_out(s, a, buf, len, out)) {
        return r;
    }
    libc::syscall(libc::SYS_sendto, fd as libc::c_long, buf, len, flags as libc::c_long, addr, alen as libc::c_long) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    sendto(fd, buf, len, flags, std::ptr::null(), 0)
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, addr: *mut sockaddr, alen: *mut socklen_t) -> ssize_t {
    if let Some(r) = with_sock(fd, |s, _| {
        if s.fail_recv > 0 {
            s.fail_recv -= 1;
            set_errno(libc::ECONNREFUSED);
            return -1;
        }
        match s.inbox.pop_front() {
            Some((src, data)) => {
                let n = data.len().min(len);
                std::ptr::copy_nonoverlapping(data.as_ptr(), buf as *mut u8, n);
                write_addr(src, addr, alen);
                n as ssize_t
            }
            None => {
                set_errno(libc::EAGAIN);
                -1
            }
        }
    }) {
        return r;
    }
    libc::syscall(libc::SYS_recvfrom, fd as libc::c_long, buf, len, flags as libc::c_long, addr, alen) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    recvfrom(fd, buf, len, flags, std::ptr::null_mut(), std::ptr::null_mut())
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, addr: *mut sockaddr, alen: *mut socklen_t) -> c_int {
    if let Some(r) = with_sock(fd, |s, _| {
        let a = if s.peer.is_some() { s.src() } else { s.bound };
        write_addr(a, addr, alen);
        0
    }) {
        return r;
    }
    libc::syscall(libc::SYS_getsockname, fd as libc::c_long, addr, alen) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut sockaddr, alen: *mut socklen_t) -> c_int {
    if let Some(r) = with_sock(fd, |s, _| match s.peer {
        Some(p) => {
            write_addr(p, addr, alen);
            0
        }
        None => {
            set_errno(libc::ENOTCONN);
            -1
        }
    }) {
        return r;
    }
    libc::syscall(libc::SYS_getpeername, fd as libc::c_long, addr, alen) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if on() {
        untagged(|| NET.with(|n| n.borrow_mut().socks.remove(&fd)));
    }
    libc::syscall(libc::SYS_close, fd as libc::c_long) as c_int
}

pub fn v4(a: SocketAddr) -> SocketAddrV4 {
    match a {
        SocketAddr::V4(a) => a,
        SocketAddr::V6(_) => unreachable!("harness only uses IPv4"),
    }
}
