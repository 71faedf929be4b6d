//! The environment of the code under test. The harness executable defines the libc symbols the
//! standard library uses for sockets, /dev/urandom, files and the clock, so every answer of the
//! environment is decided here. Descriptors which are not registered go to the kernel.

use crate::sched::{gate, Op};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::os::fd::{FromRawFd, RawFd};
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_CLOSE: c_long = 3;
const SYS_READV: c_long = 19;
const SYS_WRITEV: c_long = 20;
const SYS_SOCKET: c_long = 41;
const SYS_SENDTO: c_long = 44;
const SYS_RECVFROM: c_long = 45;
const SYS_SHUTDOWN: c_long = 48;
const SYS_GETSOCKNAME: c_long = 51;
const SYS_GETPEERNAME: c_long = 52;
const SYS_SETSOCKOPT: c_long = 54;
const SYS_GETSOCKOPT: c_long = 55;
const SYS_CLOCK_GETTIME: c_long = 228;
const SYS_OPENAT: c_long = 257;
const SYS_ACCEPT4: c_long = 288;
const SYS_GETRANDOM: c_long = 318;
const AT_FDCWD: c_long = -100;

pub const EINTR: i32 = 4;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const ENOSPC: i32 = 28;
pub const EPIPE: i32 = 32;
pub const ECONNRESET: i32 = 104;

const MAX_FD: usize = 4096;
const K_NONE: u8 = 0;
const K_SOCK: u8 = 1;
const K_URANDOM: u8 = 2;
const K_LISTENER: u8 = 3;
const K_FILE: u8 = 4;

static KIND: [AtomicU8; MAX_FD] = [const { AtomicU8::new(K_NONE) }; MAX_FD];
static SOCKS: [Mutex<Option<Arc<Mutex<VSock>>>>; MAX_FD] = [const { Mutex::new(None) }; MAX_FD];
type Queue = VecDeque<Result<Arc<Mutex<VSock>>, i32>>;
static LISTENERS: Mutex<Vec<(RawFd, Queue)>> = Mutex::new(vec![]);

/// What the environment answers to one call of the code under test
pub enum Step {
    /// More bytes for the code under test
    Data(Vec<u8>),
    /// The peer closed its write side
    Eof,
    Err(i32),
}

/// The peer on the other side of a virtual socket. Called when the code under test reads and
/// nothing is left to read. `tx` has all the bytes sent since the last call.
pub trait Driver: Send {
    fn step(&mut self, tx: &mut Vec<u8>) -> Step;
}

impl<F: FnMut(&mut Vec<u8>) -> Step + Send> Driver for F {
    fn step(&mut self, tx: &mut Vec<u8>) -> Step {
        self(tx)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Io {
    Recv(usize),
    RecvEof,
    RecvErr(i32),
    Send(usize),
    SendErr(i32),
    Shutdown,
    Close,
}

/// An environment answer which differs from the default
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// At most n bytes are transferred
    Short(usize),
    Errno(i32),
    Eof,
}

pub struct VSock {
    pub driver: Option<Box<dyn Driver>>,
    rx: VecDeque<u8>,
    /// Bytes sent by the code under test, not yet seen by the driver
    pub tx: Vec<u8>,
    /// All bytes sent by the code under test
    pub sent: Vec<u8>,
    /// Lengths of the single send calls
    pub io: Vec<Io>,
    /// How many bytes recv returns at most, by the number of the recv call; the last repeats
    pub seg: Vec<usize>,
    /// (index of the recv call, fault)
    pub recv_faults: Vec<(usize, Fault)>,
    /// (index of the send call, fault)
    pub send_faults: Vec<(usize, Fault)>,
    pub recv_calls: usize,
    pub send_calls: usize,
    pub eof_reads: usize,
    pub closed: bool,
    /// Only bytes up to this offset are given out before the driver is called again
    pub boundaries: VecDeque<usize>,
    pub total_rx: usize,
    /// After this number of received (sent) bytes every call has this result
    pub recv_cut: Option<(usize, Fault)>,
    pub send_cut: Option<(usize, i32)>,
    /// The sent bytes also go there
    pub pipe_out: Option<Arc<Mutex<Pipe>>>,
    /// The received bytes come from there
    pub pipe_in: Option<Arc<Mutex<Pipe>>>,
}

impl VSock {
    pub fn new(driver: Box<dyn Driver>) -> VSock {
        VSock {
            driver: Some(driver),
            rx: VecDeque::new(),
            tx: vec![],
            sent: vec![],
            io: vec![],
            seg: vec![],
            recv_faults: vec![],
            send_faults: vec![],
            recv_calls: 0,
            send_calls: 0,
            eof_reads: 0,
            closed: false,
            boundaries: VecDeque::new(),
            total_rx: 0,
            recv_cut: None,
            send_cut: None,
            pipe_out: None,
            pipe_in: None,
        }
    }

    /// Would recv return at once?
    pub fn ready(&self) -> bool {
        match &self.pipe_in {
            None => true,
            Some(p) => {
                let p = lk(p);
                !self.rx.is_empty() || !p.data.is_empty() || p.closed
            }
        }
    }

    fn recv(&mut self, buf: &mut [u8], peek: bool) -> Result<usize, i32> {
        let call = self.recv_calls;
        self.recv_calls += 1;
        if self.recv_calls > 5_000_000 {
            spin("more than 5000000 reads from the socket in one execution");
        }
        let mut max = match self.seg.get(call).or(self.seg.last()) {
            Some(n) => *n,
            None => usize::MAX,
        };
        if let Some((n, f)) = self.recv_cut {
            if self.total_rx >= n {
                return match f {
                    Fault::Errno(e) => {
                        self.io.push(Io::RecvErr(e));
                        self.eof_reads += 1;
                        if self.eof_reads > 2000 {
                            spin("reads from a socket with an error again and again");
                        }
                        Err(e)
                    }
                    _ => {
                        self.io.push(Io::RecvEof);
                        self.eof()
                    }
                };
            }
            max = max.min(n - self.total_rx);
        }
        if let Some((_, f)) = self.recv_faults.iter().find(|f| f.0 == call) {
            match f {
                Fault::Short(n) => max = max.min(*n),
                Fault::Errno(e) => {
                    self.io.push(Io::RecvErr(*e));
                    return Err(*e);
                }
                Fault::Eof => {
                    self.io.push(Io::RecvEof);
                    self.recv_cut = Some((0, Fault::Eof));
                    return self.eof();
                }
            }
        }
        if let (Some(p), true) = (&self.pipe_in, self.rx.is_empty()) {
            let mut p = lk(p);
            self.rx.extend(std::mem::take(&mut p.data));
            if self.rx.is_empty() {
                let closed = p.closed;
                drop(p);
                self.io.push(if closed { Io::RecvEof } else { Io::RecvErr(EAGAIN) });
                let r = self.eof();
                return if closed { r } else { Err(EAGAIN) };
            }
        }
        while self.rx.is_empty() {
            match self.driver.as_mut().unwrap().step(&mut self.tx) {
                Step::Data(d) => self.rx.extend(d),
                Step::Eof => {
                    self.io.push(Io::RecvEof);
                    return self.eof();
                }
                Step::Err(e) => {
                    self.io.push(Io::RecvErr(e));
                    self.eof_reads += 1;
                    if self.eof_reads > 2000 {
                        spin("reads from a socket with an error again and again");
                    }
                    return Err(e);
                }
            }
        }
        let mut n = buf.len().min(self.rx.len()).min(max.max(1));
        if let Some(b) = self.boundaries.front() {
            let left = b - self.total_rx;
            n = n.min(left);
            if n == left && !peek {
                self.boundaries.pop_front();
            }
        }
        for (i, b) in self.rx.iter().take(n).enumerate() {
            buf[i] = *b;
        }
        if !peek {
            self.rx.drain(..n);
            self.total_rx += n;
        }
        if self.io.len() < 100_000 {
            self.io.push(Io::Recv(n));
        }
        Ok(n)
    }

    fn eof(&mut self) -> Result<usize, i32> {
        self.eof_reads += 1;
        if self.eof_reads > 2000 {
            spin("reads from a closed socket again and again");
        }
        Ok(0)
    }

    fn send(&mut self, buf: &[u8]) -> Result<usize, i32> {
        let call = self.send_calls;
        self.send_calls += 1;
        if self.send_calls > 5_000_000 {
            spin("more than 5000000 writes to the socket in one execution");
        }
        let mut n = buf.len();
        if let Some((m, e)) = self.send_cut {
            let left = m.saturating_sub(self.sent.len());
            if left == 0 {
                self.io.push(Io::SendErr(e));
                return Err(e);
            }
            n = n.min(left);
        }
        if let Some((_, f)) = self.send_faults.iter().find(|f| f.0 == call) {
            match f {
                Fault::Short(m) => n = n.min(*m),
                Fault::Errno(e) => {
                    self.io.push(Io::SendErr(*e));
                    return Err(*e);
                }
                Fault::Eof => {
                    self.send_cut = Some((0, EPIPE));
                    self.io.push(Io::SendErr(EPIPE));
                    return Err(EPIPE);
                }
            }
        }
        self.io.push(Io::Send(n));
        match &self.pipe_out {
            Some(p) => lk(p).data.extend_from_slice(&buf[..n]),
            None => self.tx.extend_from_slice(&buf[..n]),
        }
        self.sent.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}

static SPIN_HOOK: Mutex<Option<Box<dyn Fn(&str) + Send>>> = Mutex::new(None);

pub fn set_spin_hook(f: Box<dyn Fn(&str) + Send>) {
    *SPIN_HOOK.lock().unwrap() = Some(f);
}

/// The code under test does not stop. It can not be unwound from here, so the process ends.
pub fn spin(msg: &str) -> ! {
    if let Some(f) = SPIN_HOOK.lock().unwrap().as_ref() {
        f(msg);
    }
    eprintln!("spin: {msg}");
    std::process::exit(1);
}

// ---------------------------------------------------------------- randomness, clock, files

/// Deterministic source behind /dev/urandom and getrandom
pub struct Rng {
    pub seed: u64,
    ctr: u64,
    /// Bytes which are returned first
    pub forced: VecDeque<u8>,
    /// Sizes of the single read calls
    pub reads: Vec<usize>,
    /// All the bytes given out
    pub out: Vec<u8>,
    /// At most this many bytes in one read
    pub max_read: usize,
    /// These reads fail; errno 0: the end of the device
    pub faults: Vec<(usize, i32)>,
    /// These reads return only so much
    pub shorts: Vec<(usize, usize)>,
    pub fill: Option<u8>,
    /// Changes of single bytes of everything given out
    pub xor: Vec<(usize, u8)>,
    pub opens: usize,
    pub open_faults: Vec<(usize, i32)>,
}

impl Rng {
    pub const fn new() -> Rng {
        Rng {
            seed: 0,
            ctr: 0,
            forced: VecDeque::new(),
            reads: vec![],
            out: vec![],
            max_read: usize::MAX,
            faults: vec![],
            shorts: vec![],
            fill: None,
            xor: vec![],
            opens: 0,
            open_faults: vec![],
        }
    }
    pub fn fill_bytes(&mut self, buf: &mut [u8]) {
        for b in buf.iter_mut() {
            *b = if let Some(f) = self.forced.pop_front() {
                f
            } else if let Some(f) = self.fill {
                f
            } else {
                self.ctr += 1;
                mix(self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(self.ctr)) as u8
            };
        }
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, i32> {
        let call = self.reads.len();
        if let Some((_, e)) = self.faults.iter().find(|f| f.0 == call) {
            let e = *e;
            self.reads.push(0);
            return if e == 0 { Ok(0) } else { Err(e) };
        }
        let mut n = buf.len().min(self.max_read);
        if let Some((_, s)) = self.shorts.iter().find(|f| f.0 == call) {
            n = n.min(*s);
        }
        self.fill_bytes(&mut buf[..n]);
        for (at, x) in &self.xor {
            if *at >= self.out.len() && *at < self.out.len() + n {
                buf[*at - self.out.len()] ^= x;
            }
        }
        self.reads.push(n);
        self.out.extend_from_slice(&buf[..n]);
        if self.reads.len() > 3_000_000 {
            spin("reads /dev/urandom again and again");
        }
        Ok(n)
    }
}

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone, Debug, PartialEq)]
pub enum FileOp {
    Open { path: String, append: bool, create: bool, trunc: bool },
    Write(Vec<u8>),
    Close,
}

/// The file with this prefix is virtual, "*": every path with "keylog"
#[derive(Default)]
pub struct VFile {
    pub prefix: String,
    pub ops: Vec<FileOp>,
    pub open_errno: i32,
    /// (index of the write call, fault)
    pub write_faults: Vec<(usize, Fault)>,
    pub writes: usize,
    /// All writes from this one on fail
    pub full_from: Option<(usize, i32)>,
    /// The operations are also done, on the real file
    pub real: bool,
    /// (index of the open call, errno)
    pub open_faults: Vec<(usize, i32)>,
    pub opens: usize,
}

/// Bytes from the code under test to another connection of it
#[derive(Default)]
pub struct Pipe {
    pub data: Vec<u8>,
    pub closed: bool,
}

thread_local! {
    pub static RNG: RefCell<Rng> = const { RefCell::new(Rng::new()) };
    static CLOCK: RefCell<Option<(i64, i64)>> = const { RefCell::new(None) };
    static VFILE: RefCell<Option<Arc<Mutex<VFile>>>> = const { RefCell::new(None) };
    static USE_RNG: RefCell<bool> = const { RefCell::new(false) };
}

/// A fresh deterministic random stream for the calling thread
pub fn seed_rng(seed: u64) {
    USE_RNG.with(|u| *u.borrow_mut() = true);
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        r.seed = seed;
        r.ctr = 0;
        r.forced.clear();
        r.reads.clear();
        r.out.clear();
        r.max_read = usize::MAX;
        r.faults.clear();
        r.shorts.clear();
        r.fill = None;
        r.xor.clear();
        r.opens = 0;
        r.open_faults.clear();
    });
}
pub fn with_rng<T>(f: impl FnOnce(&mut Rng) -> T) -> T {
    RNG.with(|r| f(&mut r.borrow_mut()))
}
/// Realtime clock of the calling thread, in seconds since 1970
pub fn set_clock(secs: Option<i64>) {
    CLOCK.with(|c| *c.borrow_mut() = secs.map(|s| (s, 0)));
}
pub fn set_clock_ns(secs: i64, nanos: i64) {
    CLOCK.with(|c| *c.borrow_mut() = Some((secs, nanos)));
}
pub fn set_vfile(v: Option<VFile>) -> Option<VFile> {
    set_vfile_shared(v.map(|v| Arc::new(Mutex::new(v)))).and_then(|v| Arc::try_unwrap(v).ok()).map(|v| v.into_inner().unwrap_or_else(|e| e.into_inner()))
}
/// Several threads can use the same file
pub fn set_vfile_shared(v: Option<Arc<Mutex<VFile>>>) -> Option<Arc<Mutex<VFile>>> {
    VFILE.with(|c| std::mem::replace(&mut *c.borrow_mut(), v))
}
fn vfile() -> Option<Arc<Mutex<VFile>>> {
    VFILE.try_with(|v| v.borrow().clone()).unwrap_or(None)
}

// ---------------------------------------------------------------- descriptors

static LIVE: AtomicUsize = AtomicUsize::new(0);
pub fn live_sockets() -> usize {
    LIVE.load(Ordering::SeqCst)
}

fn new_socket_fd() -> RawFd {
    let fd = unsafe { syscall(SYS_SOCKET, 2 as c_long, 1 as c_long, 0 as c_long) } as RawFd;
    assert!(fd >= 0 && (fd as usize) < MAX_FD, "too many descriptors");
    fd
}

/// Create a connected virtual TCP socket
pub fn virtual_socket(sock: Arc<Mutex<VSock>>) -> RawFd {
    let fd = new_socket_fd();
    *SOCKS[fd as usize].lock().unwrap() = Some(sock);
    KIND[fd as usize].store(K_SOCK, Ordering::SeqCst);
    LIVE.fetch_add(1, Ordering::SeqCst);
    fd
}
pub fn virtual_stream(sock: Arc<Mutex<VSock>>) -> std::net::TcpStream {
    unsafe { std::net::TcpStream::from_raw_fd(virtual_socket(sock)) }
}

/// Create a listening virtual TCP socket
pub fn virtual_listener() -> (RawFd, std::net::TcpListener) {
    let fd = new_socket_fd();
    KIND[fd as usize].store(K_LISTENER, Ordering::SeqCst);
    LISTENERS.lock().unwrap().push((fd, VecDeque::new()));
    (fd, unsafe { std::net::TcpListener::from_raw_fd(fd) })
}
/// The next accept on the listener returns the socket
pub fn enqueue(listener: RawFd, sock: Arc<Mutex<VSock>>) {
    let mut l = LISTENERS.lock().unwrap();
    l.iter_mut().find(|l| l.0 == listener).unwrap().1.push_back(Ok(sock));
}
/// The next accept on the listener fails
pub fn enqueue_error(listener: RawFd, errno: i32) {
    let mut l = LISTENERS.lock().unwrap();
    l.iter_mut().find(|l| l.0 == listener).unwrap().1.push_back(Err(errno));
}

thread_local! {
    static ACCEPTED: RefCell<Option<Arc<Mutex<VSock>>>> = const { RefCell::new(None) };
}
/// The socket this thread accepted last
pub fn last_accepted() -> Option<Arc<Mutex<VSock>>> {
    ACCEPTED.with(|a| a.borrow_mut().take())
}

/// A panic of a peer does not matter for the lock
pub fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

fn kind(fd: c_int) -> u8 {
    if fd < 0 || fd as usize >= MAX_FD {
        return K_NONE;
    }
    KIND[fd as usize].load(Ordering::SeqCst)
}

fn cookie(fd: c_int) -> Option<u64> {
    let mut v: u64 = 0;
    let mut len: u32 = 8;
    let r = unsafe { syscall(SYS_GETSOCKOPT, fd as c_long, 1 as c_long, 57 as c_long, &mut v as *mut u64, &mut len as *mut u32) };
    if r == 0 {
        Some(v)
    } else {
        None
    }
}

/// The virtual socket of a descriptor, also if it was duplicated
fn sock_of(fd: c_int) -> Option<Arc<Mutex<VSock>>> {
    match kind(fd) {
        K_SOCK => SOCKS[fd as usize].lock().unwrap().clone(),
        K_NONE if LIVE.load(Ordering::SeqCst) > 0 && fd > 2 => {
            let c = cookie(fd)?;
            for i in 0..MAX_FD {
                if KIND[i].load(Ordering::SeqCst) == K_SOCK && cookie(i as c_int) == Some(c) {
                    return SOCKS[i].lock().unwrap().clone();
                }
            }
            None
        }
        _ => None,
    }
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

fn ret(r: Result<usize, i32>) -> isize {
    match r {
        Ok(n) => n as isize,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

unsafe fn sl<'a>(buf: *const c_void, len: usize) -> &'a [u8] {
    if len == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(buf as *const u8, len)
    }
}
unsafe fn slm<'a>(buf: *mut c_void, len: usize) -> &'a mut [u8] {
    if len == 0 {
        &mut []
    } else {
        std::slice::from_raw_parts_mut(buf as *mut u8, len)
    }
}

thread_local! {
    static PEER_PANIC: RefCell<bool> = const { RefCell::new(false) };
}
/// Did a reference peer panic since the last call? The peers follow the standard, so what they
/// got from the code under test was not expected.
pub fn take_peer_panic() -> bool {
    PEER_PANIC.with(|p| std::mem::replace(&mut *p.borrow_mut(), false))
}
fn guard(f: impl FnOnce() -> isize) -> isize {
    match crate::sched::alloc_pause(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))) {
        Ok(v) => v,
        Err(_) => {
            PEER_PANIC.with(|p| *p.borrow_mut() = true);
            ret(Err(EPIPE))
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> isize {
    match sock_of(fd) {
        Some(s) => {
            gate(Op::Recv, Some(&s));
            guard(|| ret(lk(&s).recv(slm(buf, len), flags & 2 != 0)))
        }
        None => syscall(SYS_RECVFROM, fd as c_long, buf, len, flags as c_long, 0 as c_long, 0 as c_long) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, len: usize, flags: c_int, addr: *mut c_void, alen: *mut u32) -> isize {
    match sock_of(fd) {
        Some(_) => recv(fd, buf, len, flags),
        None => syscall(SYS_RECVFROM, fd as c_long, buf, len, flags as c_long, addr, alen) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: usize, flags: c_int) -> isize {
    match sock_of(fd) {
        Some(s) => {
            gate(Op::Send, None);
            guard(|| ret(lk(&s).send(sl(buf, len))))
        }
        None => syscall(SYS_SENDTO, fd as c_long, buf, len, flags as c_long, 0 as c_long, 0 as c_long) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    match kind(fd) {
        K_SOCK => recv(fd, buf, len, 0),
        K_URANDOM => {
            gate(Op::Random, None);
            crate::sched::alloc_pause(|| RNG.with(|r| ret(r.borrow_mut().read(slm(buf, len)))))
        }
        _ => syscall(SYS_READ, fd as c_long, buf, len) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    match kind(fd) {
        K_SOCK => send(fd, buf, len, 0),
        K_FILE => {
            gate(Op::Write, None);
            let Some(v) = vfile() else { return syscall(SYS_WRITE, fd as c_long, buf, len) as isize };
            let mut v = lk(&v);
            let call = v.writes;
            v.writes += 1;
            let mut n = len;
            match v.write_faults.iter().find(|f| f.0 == call) {
                Some((_, Fault::Short(m))) => n = n.min(*m),
                Some((_, Fault::Errno(e))) => return ret(Err(*e)),
                _ => (),
            }
            match v.full_from {
                Some((k, e)) if call >= k => return ret(Err(e)),
                _ => (),
            }
            v.ops.push(FileOp::Write(sl(buf, n).to_vec()));
            syscall(SYS_WRITE, fd as c_long, buf, n);
            n as isize
        }
        _ => syscall(SYS_WRITE, fd as c_long, buf, len) as isize,
    }
}
#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    if kind(fd) != K_NONE {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return read(fd, v.base, v.len);
            }
        }
        return 0;
    }
    syscall(SYS_READV, fd as c_long, iov, cnt as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    if kind(fd) != K_NONE {
        let mut all = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(sl(v.base, v.len));
        }
        return write(fd, all.as_ptr() as *const c_void, all.len());
    }
    syscall(SYS_WRITEV, fd as c_long, iov, cnt as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match kind(fd) {
        K_SOCK => {
            gate(Op::Close, None);
            KIND[fd as usize].store(K_NONE, Ordering::SeqCst);
            LIVE.fetch_sub(1, Ordering::SeqCst);
            let s = SOCKS[fd as usize].lock().unwrap().take();
            if let Some(s) = s {
                {
                    let mut s = lk(&s);
                    s.closed = true;
                    if let Some(p) = &s.pipe_out {
                        lk(p).closed = true;
                    }
                    s.io.push(Io::Close);
                }
            }
        }
        K_LISTENER => {
            KIND[fd as usize].store(K_NONE, Ordering::SeqCst);
            LISTENERS.lock().unwrap().retain(|l| l.0 != fd);
        }
        K_URANDOM => KIND[fd as usize].store(K_NONE, Ordering::SeqCst),
        K_FILE => {
            KIND[fd as usize].store(K_NONE, Ordering::SeqCst);
            gate(Op::FileClose, None);
            if let Some(v) = vfile() {
                lk(&v).ops.push(FileOp::Close)
            }
        }
        _ => (),
    }
    syscall(SYS_CLOSE, fd as c_long) as c_int
}
unsafe fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let p = CStr::from_ptr(path).to_bytes();
    if p == b"/dev/urandom" || p == b"/dev/random" {
        if USE_RNG.try_with(|u| *u.borrow()).unwrap_or(false) {
            let fault = RNG.with(|r| {
                let r = r.borrow();
                r.open_faults.iter().find(|f| f.0 == r.opens).map(|f| f.1)
            });
            if let Some(e) = fault {
                RNG.with(|r| r.borrow_mut().opens += 1);
                *__errno_location() = e;
                return -1;
            }
            let fd = syscall(SYS_OPENAT, AT_FDCWD, path, flags as c_long, mode as c_long) as c_int;
            if fd >= 0 && (fd as usize) < MAX_FD {
                KIND[fd as usize].store(K_URANDOM, Ordering::SeqCst);
                RNG.with(|r| r.borrow_mut().opens += 1);
            }
            return fd;
        }
    } else {
        let mut real = false;
        let virt = vfile().and_then(|v| {
            {
                let v = lk(&v);
                if v.prefix.is_empty() || !(p.starts_with(v.prefix.as_bytes()) || v.prefix == "*" && p.windows(6).any(|w| w == b"keylog")) {
                    return None;
                }
            }
            gate(Op::Open, None);
            let mut v = lk(&v);
            v.ops.push(FileOp::Open {
                path: String::from_utf8_lossy(p).to_string(),
                append: flags & 0o2000 != 0,
                create: flags & 0o100 != 0,
                trunc: flags & 0o1000 != 0,
            });
            let call = v.opens;
            v.opens += 1;
            real = v.real;
            Some(match v.open_faults.iter().find(|f| f.0 == call) {
                Some(f) => f.1,
                None => v.open_errno,
            })
        });
        if let Some(e) = virt {
            if e != 0 {
                set_errno(e);
                return -1;
            }
            if real {
                let fd = syscall(SYS_OPENAT, AT_FDCWD, path, flags as c_long, mode as c_long) as c_int;
                if fd >= 0 && (fd as usize) < MAX_FD {
                    KIND[fd as usize].store(K_FILE, Ordering::SeqCst);
                }
                return fd;
            }
            let null = c"/dev/null";
            let fd = syscall(SYS_OPENAT, AT_FDCWD, null.as_ptr(), 2 as c_long, 0 as c_long) as c_int;
            if fd >= 0 && (fd as usize) < MAX_FD {
                KIND[fd as usize].store(K_FILE, Ordering::SeqCst);
            }
            return fd;
        }
    }
    syscall(SYS_OPENAT, AT_FDCWD, path, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if USE_RNG.try_with(|u| *u.borrow()).unwrap_or(false) {
        gate(Op::Random, None);
        return RNG.with(|r| ret(r.borrow_mut().read(slm(buf, len))));
    }
    syscall(SYS_GETRANDOM, buf, len, flags as c_long) as isize
}
#[repr(C)]
pub struct TimeSpec {
    sec: i64,
    nsec: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut TimeSpec) -> c_int {
    if clk == 0 {
        if let Ok(Some((s, n))) = CLOCK.try_with(|c| *c.borrow()) {
            (*ts).sec = s;
            (*ts).nsec = n;
            return 0;
        }
    }
    syscall(SYS_CLOCK_GETTIME, clk as c_long, ts) as c_int
}
unsafe fn fill_addr(addr: *mut c_void, alen: *mut u32) {
    if addr.is_null() || alen.is_null() {
        return;
    }
    // sockaddr_in 127.0.0.1:50000
    let a: [u8; 16] = [2, 0, 0xC3, 0x50, 127, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0];
    let n = (*alen as usize).min(16);
    std::ptr::copy_nonoverlapping(a.as_ptr(), addr as *mut u8, n);
    *alen = 16;
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, addr: *mut c_void, alen: *mut u32, flags: c_int) -> c_int {
    if kind(fd) == K_LISTENER {
        gate(Op::Accept, None);
        let next = {
            let mut l = LISTENERS.lock().unwrap();
            l.iter_mut().find(|l| l.0 == fd).and_then(|l| l.1.pop_front())
        };
        return match next {
            Some(Err(e)) => {
                set_errno(e);
                -1
            }
            Some(Ok(s)) => {
                fill_addr(addr, alen);
                ACCEPTED.with(|a| *a.borrow_mut() = Some(s.clone()));
                virtual_socket(s)
            }
            None => {
                set_errno(EAGAIN);
                -1
            }
        };
    }
    syscall(SYS_ACCEPT4, fd as c_long, addr, alen, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, addr: *mut c_void, alen: *mut u32) -> c_int {
    accept4(fd, addr, alen, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut c_void, alen: *mut u32) -> c_int {
    if kind(fd) == K_SOCK {
        fill_addr(addr, alen);
        return 0;
    }
    syscall(SYS_GETPEERNAME, fd as c_long, addr, alen) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, addr: *mut c_void, alen: *mut u32) -> c_int {
    if kind(fd) == K_SOCK || kind(fd) == K_LISTENER {
        fill_addr(addr, alen);
        return 0;
    }
    syscall(SYS_GETSOCKNAME, fd as c_long, addr, alen) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if let Some(s) = sock_of(fd) {
        lk(&s).io.push(Io::Shutdown);
        return 0;
    }
    syscall(SYS_SHUTDOWN, fd as c_long, how as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: u32) -> c_int {
    if kind(fd) == K_SOCK {
        return 0;
    }
    syscall(SYS_SETSOCKOPT, fd as c_long, level as c_long, name as c_long, val, len as c_long) as c_int
}
