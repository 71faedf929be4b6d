//! C20: connections at the same time, under a controlled scheduler: everything one of them does has
//! to be what it does alone in a process of its own.

use anothertls::utils::x509::X509;
use anothertls::net::client::ClientConfig;
use anothertls::net::server::ServerConfig;
use anothertls::{ClientConnection, ServerConnection};
use mc::points::Point;
use mc::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ preemption at allocations
struct Points;
/// Stop at all allocations, not only at those of bytes (the others are mostly of big numbers)
static EVERY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn point(l: &Layout) {
    if l.align() == 1 || EVERY.load(std::sync::atomic::Ordering::Relaxed) {
        alloc_point();
    }
}
unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point(&l);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point(&l);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point(&l);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Points = Points;

// ------------------------------------------------------------------ the connections
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Var {
    Healthy,
    /// The peer ends after its hello
    CutHello,
    /// The last flight of the peer is changed
    BadFlight,
    /// The peer sends a fatal alert instead of its flight
    Alert,
    /// The first bytes are no TLS
    Garbage,
    /// A record with data is changed
    BadData,
    /// The connection is reset within the data
    Reset,
    /// A function of the user panics, or refuses
    Panic,
    Reject,
    /// No suite in common
    NoSuite,
}
use Var::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Kind {
    server: bool,
    suite: u16,
    auth: bool,
    var: Var,
    seed: u64,
}
impl Kind {
    fn name(&self) -> String {
        format!("{}{:x}{}{:?}{}", if self.server { "s" } else { "c" }, self.suite & 15, if self.auth { "auth" } else { "" }, self.var, self.seed)
    }
}
fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    for (i, suite) in [0x1301u16, 0x1302, 0x1303].into_iter().enumerate() {
        for server in [true, false] {
            v.push(Kind { server, suite, auth: i == 2, var: Healthy, seed: 10 + v.len() as u64 });
        }
    }
    for server in [true, false] {
        for var in [CutHello, BadFlight, Alert, Garbage, BadData, Reset] {
            v.push(Kind { server, suite: [0x1301, 0x1302, 0x1303][v.len() % 3], auth: var == BadFlight, var, seed: 10 + v.len() as u64 });
        }
    }
    for var in [Panic, Reject, NoSuite] {
        v.push(Kind { server: true, suite: 0x1301, auth: var != NoSuite, var, seed: 10 + v.len() as u64 });
    }
    v
}
fn verify_panic(_: &X509) -> bool {
    panic!("the function of the user panics")
}
fn verify_reject(_: &X509) -> bool {
    false
}
fn server_config(pki: &Pki, k: &Kind) -> ServerConfig {
    let mut b = server_builder(pki);
    if k.auth {
        b = b.add_client_cert_ca(pki.ca.cert_path.clone());
    }
    match k.var {
        Panic => b = b.set_client_cert_custom_verify_fn(verify_panic),
        Reject => b = b.set_client_cert_custom_verify_fn(verify_reject),
        _ => (),
    }
    b.build().unwrap()
}
fn client_config(pki: &Pki, k: &Kind) -> ClientConfig {
    let mut b = CB::new();
    if k.auth {
        b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
    }
    b.build().unwrap()
}
fn vary(seed: u64, a: &mut [u8]) {
    for (i, b) in a.iter_mut().enumerate() {
        *b ^= mix(seed * 1000 + i as u64) as u8;
    }
}

enum Peer {
    Cli(Cell<Cli>),
    Srv(Cell<Srv>),
}
impl Peer {
    fn push(&self, typ: u8, data: &[u8], bad: bool) {
        macro_rules! go {
            ($p:expr) => {{
                let mut p = lk($p);
                if let Some(w) = p.wr.as_mut() {
                    let mut r = w.seal(typ, data);
                    if bad {
                        *r.last_mut().unwrap() ^= 1;
                    }
                    p.out.push_back(r);
                }
            }};
        }
        match self {
            Peer::Cli(p) => go!(p),
            Peer::Srv(p) => go!(p),
        }
    }
    fn flush(&self, sock: &Sock) {
        match self {
            Peer::Cli(p) => flush_client(sock, p),
            Peer::Srv(p) => flush_server(sock, p),
        }
    }
    fn view(&self) -> (Vec<Ev>, Vec<String>, Option<(u8, u8, u8)>, Option<(Vec<u8>, Vec<u8>)>) {
        match self {
            Peer::Cli(p) => {
                let p = lk(p);
                (p.ev.clone(), p.bad.clone(), p.got_alert, p.app.clone())
            }
            Peer::Srv(p) => {
                let p = lk(p);
                (p.ev.clone(), p.bad.clone(), p.got_alert, p.app.clone())
            }
        }
    }
}

/// One connection, which can be driven step by step
struct Conn {
    k: Kind,
    sock: Sock,
    peer: Peer,
    stream: Option<TlsStream>,
    log: Vec<String>,
}
use anothertls::net::TlsStream;

impl Conn {
    fn new(pki: &'static Pki, k: Kind) -> Conn {
        let garbage = b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n".to_vec();
        if k.server {
            let mut cfg = cli_cfg(pki, if k.var == NoSuite { 0x1304 } else { k.suite });
            vary(k.seed, &mut cfg.random);
            vary(k.seed + 1, &mut cfg.sk);
            vary(k.seed + 2, &mut cfg.session_id);
            let peer = cell(Cli::new(cfg));
            let auth = k.auth.then(|| (vec![pki.client.cert.clone()], pki.client.key));
            let mut plan = honest_client(auth);
            let mut n = 0;
            let sock = client_sock(&peer, move |p: &mut Cli| {
                n += 1;
                match (k.var, n) {
                    (Garbage, 1) => p.out.push_back(garbage.clone()),
                    (CutHello, 2..) | (Garbage, 2..) => p.eof = true,
                    (Alert, 2) => p.out.push_back(plain_rec(ALERT, &[2, 80])),
                    _ => {
                        plan(p);
                        if k.var == BadFlight && n == 2 {
                            if let Some(d) = p.out.back_mut() {
                                *d.last_mut().unwrap() ^= 1;
                            }
                        }
                    }
                }
            });
            Conn { k, sock, peer: Peer::Cli(peer), stream: None, log: vec![] }
        } else {
            let mut cfg = srv_cfg(pki, k.suite);
            vary(k.seed, &mut cfg.random);
            vary(k.seed + 1, &mut cfg.sk);
            cfg.request = k.auth.then(|| b"context".to_vec());
            let peer = cell(Srv::new(cfg));
            let mut plan = honest_server();
            let mut n = 0;
            let sock = server_sock(&peer, move |p: &mut Srv| {
                n += 1;
                match (k.var, n) {
                    (Garbage, 1) => p.out.push_back(garbage.clone()),
                    (CutHello, 1) | (Garbage, 2..) => p.eof = true,
                    (Alert, 1) => p.out.push_back(plain_rec(ALERT, &[2, 80])),
                    _ => {
                        plan(p);
                        if k.var == BadFlight && n == 1 {
                            if let Some(d) = p.out.back_mut() {
                                *d.last_mut().unwrap() ^= 1;
                            }
                        }
                    }
                }
            });
            Conn { k, sock, peer: Peer::Srv(peer), stream: None, log: vec![] }
        }
    }
    fn data(&self, n: usize, len: usize) -> Vec<u8> {
        (0..len).map(|i| mix(self.k.seed * 7919 + (n * 100_000 + i) as u64) as u8).collect()
    }
    fn established(&mut self, r: Result<Result<TlsStream, anothertls::net::alert::TlsError>, String>) {
        match r {
            Ok(Ok(s)) => {
                self.stream = Some(s);
                self.log.push("handshake ok".into());
            }
            Ok(Err(e)) => self.log.push(format!("handshake {e:?}")),
            Err(_) => self.log.push("handshake panic".into()),
        }
    }
    fn accept(&mut self, conn: &ServerConnection) {
        let r = caught(|| conn.accept().map(|x| x.0));
        self.established(r);
    }
    fn connect(&mut self, cfg: &ClientConfig) {
        let s = virtual_stream(self.sock.clone());
        let r = caught(|| ClientConnection::connect(s, cfg));
        self.established(r);
    }
    fn handshake(&mut self, pki: &Pki) {
        if self.k.server {
            let (fd, l) = virtual_listener();
            enqueue(fd, self.sock.clone());
            let conn = ServerConnection::new(l, server_config(pki, &self.k));
            self.accept(&conn)
        } else {
            self.connect(&client_config(pki, &self.k))
        }
    }
    const STEPS: usize = 4;
    /// One step of the data phase
    fn step(&mut self, n: usize) {
        if self.stream.is_none() {
            return;
        }
        let (a, b) = (self.data(n, 20 + 30 * n), self.data(n + 10, [5, 700, 3000, 100][n % 4]));
        alloc_pause(|| {
            self.peer.flush(&self.sock);
            match n {
                1 => {
                    self.peer.push(APPDATA, &a, false);
                    self.peer.push(APPDATA, &b, self.k.var == BadData);
                }
                3 => self.peer.push(ALERT, &[1, 0], false),
                _ => self.peer.push(APPDATA, &b, false),
            }
            if self.k.var == Reset && n == 2 {
                lk(&self.sock).recv_cut = Some((0, Fault::Errno(104)));
            }
        });
        let s = self.stream.as_mut().unwrap();
        let w = tls_write(s, &a).name();
        let mut got = vec![];
        let mut buf = [0; 1000];
        for _ in 0..if n == 1 { 3 } else { 2 } {
            match tls_read(s, &mut buf) {
                Res::Ok(k) => {
                    got.push(format!("{k}:{:016x}", h64(&buf[..k])));
                    if k == 0 {
                        break;
                    }
                }
                r => {
                    got.push(r.name());
                    break;
                }
            }
        }
        let w2 = tls_write(self.stream.as_mut().unwrap(), &b).name();
        alloc_pause(|| self.log.push(format!("step {n}: {w} {got:?} {w2}")));
    }
    fn finish(mut self) -> String {
        self.stream = None;
        self.peer.flush(&self.sock);
        let (ev, bad, alert, app) = self.peer.view();
        let ok = self.log.first().is_some_and(|l| l == "handshake ok");
        let s = lk(&self.sock);
        let rng = with_rng(|r| r.out.len());
        format!(
            "{}: {} | sent {} bytes {:016x} | peer {:016x} {:?} {alert:?} keys {:016x} | received {} | random {rng}",
            self.k.name(),
            self.log.join(", "),
            s.sent.len(),
            h64(&s.sent),
            h64(format!("{ev:?}")),
            if ok { bad } else { vec![] },
            h64(&app),
            s.total_rx
        )
    }
}
fn whole(pki: &'static Pki, k: Kind, seed: u64) -> String {
    fresh(seed);
    let mut c = Conn::new(pki, k);
    c.handshake(pki);
    for n in 0..Conn::STEPS {
        c.step(n);
    }
    c.finish()
}

// ------------------------------------------------------------------ is it shared between threads?
struct Is<T>(std::marker::PhantomData<T>);
trait No {
    const SYNC: bool = false;
}
impl<T> No for Is<T> {}
impl<T: Sync + Send> Is<T> {
    const SYNC: bool = true;
}
trait NotSend {
    const SEND: bool = false;
}
impl<T> NotSend for Is<T> {}
impl<T: Send> Is<T> {
    const SEND: bool = true;
}
struct Shared<T>(T);
/// Only used if the type itself is Send and Sync
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

fn judge(c: &mut Case, base: &BTreeMap<Kind, String>, k: &Kind, o: &str) {
    let want = &base[k];
    c.check(o == want, format!("alone: {want}\n        now: {o}"));
}
fn judge_trace(c: &mut Case, t: &Trace) {
    for (i, at) in &t.blocked {
        if at.iter().flatten().any(|o| matches!(o, Op::Recv | Op::Send | Op::Accept)) {
            c.fail(format!("thread {i} waits for another connection, which waits for its peer: {at:?}"));
        }
    }
    c.check(!t.deadlock, "nothing goes on");
}
/// All schedules with at most bound deviations, in this thread
fn schedules(c: &mut Case, prefix: &str, bound: usize, only: Option<&str>, run: &mut dyn FnMut(&mut Case, &Deviations) -> Trace) {
    if let Some(id) = only {
        let Some(rest) = id.strip_prefix(prefix) else { return };
        let dev: Deviations = rest
            .split('-')
            .filter_map(|s| {
                let (s, t) = s.trim_start_matches('.').strip_prefix('s')?.split_once('t')?;
                Some((s.parse().ok()?, t.parse().ok()?))
            })
            .collect();
        if c.begin(format!("{prefix}.{}", name_of(&dev))) {
            run(c, &dev);
        }
        return;
    }
    let mut work = vec![Deviations::new()];
    while let Some(dev) = work.pop() {
        if !c.begin(format!("{prefix}.{}", name_of(&dev))) {
            return;
        }
        let t = run(c, &dev);
        c.trans(t.choices.len());
        c.count("schedules", 1);
        if dev.len() < bound {
            work.extend(next_deviations(&dev, &t));
        }
    }
}


type Base = BTreeMap<Kind, String>;
type Job<'a, R> = Box<dyn FnOnce() -> R + Send + 'a>;

/// All ways to put a[0] times 0, a[1] times 1, ... in a row
fn merges(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if left.iter().all(|l| *l == 0) {
        out.push(cur.clone());
        return;
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            cur.push(i);
            merges(left, cur, out);
            cur.pop();
            left[i] += 1;
        }
    }
}
/// Every connection has its own random numbers, also if they are used by the same thread
fn own_rng(rng: &mut Rng) {
    with_rng(|r| std::mem::swap(r, rng));
}
fn new_rng(seed: u64) -> Rng {
    let mut r = Rng::new();
    r.seed = seed;
    r
}

// ------------------------------------------------------------------ a connection within another
thread_local! {
    static NESTED: std::cell::RefCell<Option<(&'static Pki, Kind, String)>> = const { std::cell::RefCell::new(None) };
}
fn verify_nested(_: &X509) -> bool {
    let job = NESTED.with(|n| n.borrow_mut().take());
    if let Some((pki, k, _)) = job {
        let mut rng = new_rng(k.seed);
        own_rng(&mut rng);
        let mut c = Conn::new(pki, k);
        c.handshake(pki);
        for n in 0..Conn::STEPS {
            c.step(n);
        }
        let o = c.finish();
        own_rng(&mut rng);
        NESTED.with(|n| *n.borrow_mut() = Some((pki, k, o)));
    }
    true
}

fn states(c: &mut Case, what: &str, t: &Trace) {
    let mut at: Vec<(usize, Op)> = vec![];
    for ch in &t.choices {
        if at.len() <= ch.chosen {
            at.resize(ch.chosen + 1, (0, Op::Start));
        }
        at[ch.chosen] = (at[ch.chosen].0 + 1, ch.op);
        c.state((what, &at));
    }
}

// ------------------------------------------------ preempted inside of the code under test
/// How the two connections are together
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum With {
    /// Nothing in common
    Apart,
    /// The other is established before the first starts, and goes on with its data
    Data,
    /// The same server or configuration
    Same,
}
fn points_main(pki: &'static Pki, chk: &Check, all: &[Kind], base: &Base, base_shared: &Base) {
    let thorough = chk.thorough;
    let healthy: Vec<Kind> = all.iter().filter(|k| k.var == Healthy).copied().collect();
    let kind = |server: bool, var: Var| *all.iter().find(|k| k.server == server && k.var == var).unwrap();
    let point_ops: fn(Op) -> bool = |o| matches!(o, Op::Start | Op::Point | Op::User(_));
    let seed = 777;
    // one execution; the first thread stops when it is the nth time at the point, and the other does
    // all it has to. (None: only record the points of the first)
    let run = |c: &mut Case, a: Kind, b: Kind, with: With, stop: Option<(Point, u64)>| -> BTreeMap<Point, u64> {
        let seen = Mutex::new((BTreeMap::new(), false));
        let same = with == With::Same;
        let (fd, l) = virtual_listener();
        let server = Shared(ServerConnection::new(l, server_config(pki, &a)));
        let client = Shared(client_config(pki, &a));
        // a thread gets the first connection that waits, not always its own
        let waiting = Mutex::new(vec![]);
        if same && a.server {
            for k in [a, b] {
                let x = Conn::new(pki, k);
                enqueue(fd, x.sock.clone());
                lk(&waiting).push(Shared(x));
            }
        }
        let one = |k: Kind, first: bool| {
            let (server, client, waiting) = (&server, &client, &waiting);
            let seen = &seen;
            Box::new(move || {
                fresh(if same { seed } else { k.seed });
                let (server, client) = (&server.0, &client.0);
                let mut x = if same && k.server { None } else { Some(Conn::new(pki, k)) };
                last_accepted();
                if first {
                    match stop {
                        None => points::record(),
                        Some((p, n)) => points::stop_at(p, n),
                    }
                }
                let mut x = match x.take() {
                    None => {
                        let r = caught(|| server.accept().map(|x| x.0));
                        let Some(sock) = last_accepted() else { return (k, "nothing accepted".to_string()) };
                        let mut x = {
                            let mut w = lk(waiting);
                            let i = w.iter().position(|x| Arc::ptr_eq(&x.0.sock, &sock)).unwrap();
                            w.remove(i).0
                        };
                        x.established(r);
                        x
                    }
                    Some(mut x) if same => {
                        x.connect(client);
                        x
                    }
                    Some(mut x) => {
                        x.handshake(pki);
                        x
                    }
                };
                for n in 0..Conn::STEPS {
                    if with == With::Data && !first && n == 1 {
                        gate(Op::User(0), None);
                    }
                    x.step(n);
                }
                if first {
                    *lk(seen) = if stop.is_none() { (points::recorded(), false) } else { (BTreeMap::new(), points::stopped()) };
                }
                (x.k, x.finish())
            }) as Job<(Kind, String)>
        };
        let (outs, t) = run_threads_masked(vec![one(a, true), one(b, false)], point_ops, |v| {
            let want = match (v.at[0], v.at[1]) {
                (_, Some(Op::Start)) if with == With::Data => 1,
                (Some(Op::Point), _) => 1,
                _ => 0,
            };
            if v.enabled.contains(&want) {
                want
            } else {
                v.enabled[0]
            }
        });
        for (k, o) in &outs {
            judge(c, if same { base_shared } else { base }, k, o);
        }
        judge_trace(c, &t);
        c.trans(t.choices.len());
        let (m, reached) = seen.into_inner().unwrap();
        if let Some(s) = stop {
            c.state((a, b, with, s));
            c.count("preempted inside", reached as u64);
        }
        c.validated();
        m
    };
    let sync = Is::<ServerConnection>::SYNC && Is::<ClientConfig>::SYNC;
    let mut v = vec![
        (healthy[0], healthy[2], With::Apart),
        (healthy[3], healthy[5], With::Apart),
        (healthy[4], healthy[1], With::Data),
        (healthy[1], healthy[4], With::Apart),
    ];
    if sync {
        v.push((healthy[2], healthy[2], With::Same));
    }
    if thorough {
        v.clear();
        for a in &healthy {
            for b in &healthy {
                v.push((*a, *b, With::Apart));
                v.push((*a, *b, With::Data));
                if sync && a.server == b.server && a.auth == b.auth {
                    v.push((*a, *b, With::Same));
                }
            }
        }
        for bad in [kind(true, BadFlight), kind(false, BadFlight), kind(true, Garbage), kind(false, BadData), kind(true, NoSuite)] {
            v.push((bad, healthy[0], With::Apart));
            v.push((healthy[1], bad, With::Apart));
        }
    }
    for (a, b, with) in v {
        let name = format!("points-{}-{}-{with:?}", a.name(), b.name());
        if chk.replaying() && chk.replay_id(&name).is_none() {
            continue;
        }
        let found = Mutex::new(BTreeMap::new());
        chk.range(&format!("{name}-all"), 1, |_, c| {
            if c.begin("none") {
                *lk(&found) = run(c, a, b, with, None);
                c.outcome("not preempted");
            }
        });
        if let Some(id) = chk.replay_id(&name) {
            let n: Vec<u64> = id.split('.').filter_map(|s| s.parse().ok()).collect();
            chk.range(&name, 1, |_, c| {
                if c.begin(&id) {
                    run(c, a, b, with, Some(((n[0] as usize, n[1] as u32), n[2])));
                }
            });
            continue;
        }
        let found = found.into_inner().unwrap();
        let mut list = vec![];
        let mut statics: BTreeMap<usize, u64> = BTreeMap::new();
        for ((at, edge), n) in &found {
            let mut nth: Vec<u64> = match (*at, thorough) {
                (0, false) => vec![1],
                (0, true) => vec![1, 2, n / 2, *n],
                // of large statics not all places
                _ => {
                    let k = statics.entry(at / 64).or_insert(0);
                    *k += 1;
                    if *k <= 8 { vec![1, 2, 3, n / 2, *n] } else { vec![] }
                }
            };
            nth.retain(|k| *k > 0 && k <= n);
            nth.sort();
            nth.dedup();
            list.extend(nth.into_iter().map(|k| ((*at, *edge), k)));
        }
        let seen: std::collections::BTreeSet<u32> = found.keys().filter(|k| k.0 == 0).map(|k| k.1).collect();
        chk.say(&format!("  {name}: {} branches of {}, {} accesses to statics, {} preemptions", seen.len(), points::edges(), found.keys().filter(|k| k.0 > 0).count(), list.len()));
        chk.each(&name, &list, |(p, n), c| {
            if c.begin(format!("{}.{}.{n}", p.0, p.1)) {
                run(c, a, b, with, Some((*p, *n)));
                c.outcome("preempted inside of the code");
            }
        });
    }
}

fn main() {
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let all = kinds();
    // a process of its own for a single connection
    if let Ok(n) = std::env::var("MC_C20_ALONE") {
        let (n, s) = n.split_once(':').unwrap();
        let k = all[n.parse::<usize>().unwrap()];
        println!("{}", whole(pki, k, s.parse().unwrap()));
        return;
    }
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let chk = Check::start(
        "C20",
        "model_checking",
        "states are the positions of all threads, transitions their operations on sockets, devices and files (or their allocations): real handshakes and data of servers and clients, healthy and failing, \
         in all schedules with a bounded number of preemptions, in one thread in all orders, with one server or configuration for all, with each other, and moved between threads; everything is compared with \
         what the same connection does alone in a process of its own",
    );
    let exe = std::env::current_exe().unwrap();
    let shared_seed = 777;
    let alone = |i: usize, seed: u64| {
        let o = std::process::Command::new(&exe).env("MC_C20_ALONE", format!("{i}:{seed}")).output().unwrap();
        String::from_utf8_lossy(&o.stdout).trim_end().to_string()
    };
    let mut base = Base::new();
    let mut base_shared = Base::new();
    let mut v = vec![];
    for (i, k) in all.iter().enumerate() {
        base.insert(*k, alone(i, k.seed));
        base_shared.insert(*k, alone(i, shared_seed));
        v.push((i, *k));
    }
    let (base, base_shared) = (&base, &base_shared);
    // this executable again, with the code under test compiled by instrument.sh
    if points::instrumented() {
        points_main(pki, &chk, &all, base, base_shared);
        chk.finish();
    }
    if !chk.replaying() || chk.replay_id("points").is_some() || chk.replay_prefix("points") {
        chk.part(&exe.with_file_name("../points/release/c20"));
    }
    chk.each("alone", &v, |(_, k), c| {
        if c.begin(k.name()) {
            let o = &base[k];
            let ok = o.contains("handshake ok");
            c.check(ok == matches!(k.var, Healthy | BadData | Reset), format!("unexpected: {o}"));
            c.check(o.contains(" | peer ") && o.contains("[]"), format!("unexpected: {o}"));
            for _ in 0..3 {
                judge(c, base, k, &whole(pki, *k, k.seed));
            }
            c.validated();
            c.outcome(if ok { "established" } else { "refused" });
        }
    });

    let env_ops: fn(Op) -> bool = |o| !matches!(o, Op::Alloc | Op::User(_));
    let run_whole = |c: &mut Case, list: &[Kind], dev: &Deviations| -> Trace {
        let jobs: Vec<Job<String>> = list
            .iter()
            .map(|k| {
                let k = *k;
                Box::new(move || whole(pki, k, k.seed)) as Job<String>
            })
            .collect();
        let (outs, t) = run_threads_masked(jobs, env_ops, choice_of(dev));
        for (o, k) in outs.iter().zip(list) {
            judge(c, base, k, o);
        }
        judge_trace(c, &t);
        states(c, &format!("{list:?}"), &t);
        c.validated();
        c.outcome(format!("{} threads", list.len()));
        t
    };

    // ------------------------------------------------ two threads, every pair
    let mut v = vec![];
    for a in &all {
        for b in &all {
            v.push((*a, *b));
        }
    }
    let only = chk.replay_id("pairs");
    chk.each("pairs", &v, |(a, b), c| {
        // the other order with one preemption is another pair
        schedules(c, &format!("{}-{}", a.name(), b.name()), 1, only.as_deref(), &mut |c, dev| run_whole(c, &[*a, *b], dev));
    });
    let healthy: Vec<Kind> = all.iter().filter(|k| k.var == Healthy).copied().collect();
    let kind = |server: bool, var: Var| *all.iter().find(|k| k.server == server && k.var == var).unwrap();
    let deep = [
        (healthy[0], healthy[2]),
        (healthy[0], healthy[3]),
        (healthy[5], healthy[4]),
        (kind(true, BadFlight), healthy[0]),
        (healthy[1], kind(false, BadData)),
        (kind(true, Panic), kind(true, Healthy)),
    ];
    for (i, (a, b)) in deep.iter().enumerate() {
        explore(&chk, &format!("deep{i}"), if i == 0 || thorough { 3 } else { 2 }, |c, dev| {
            let t = run_whole(c, &[*a, *b], dev);
            c.trans(t.choices.len());
            t
        });
    }
    for (i, l) in [[healthy[0], healthy[1], healthy[4]], [healthy[2], kind(true, BadFlight), healthy[3]], [kind(false, BadFlight), healthy[5], kind(true, Panic)]].iter().enumerate() {
        explore(&chk, &format!("three{i}"), if thorough || i == 0 { 2 } else { 1 }, |c, dev| {
            let t = run_whole(c, l, dev);
            c.trans(t.choices.len());
            t
        });
    }

    // ------------------------------------------------ preempted at every allocation
    let alloc_ops: fn(Op) -> bool = |o| matches!(o, Op::Start | Op::Alloc | Op::User(_));
    let run_alloc = |c: &mut Case, a: Kind, b: Kind, n: u64, every: bool, established: bool| -> u64 {
        EVERY.store(every, std::sync::atomic::Ordering::SeqCst);
        let count = Mutex::new(0);
        let jobs: Vec<Job<String>> = vec![
            Box::new(|| {
                fresh(a.seed);
                let mut x = Conn::new(pki, a);
                alloc_stop(n);
                x.handshake(pki);
                for n in 0..Conn::STEPS {
                    x.step(n);
                }
                *lk(&count) = alloc_count();
                x.finish()
            }),
            Box::new(|| {
                fresh(b.seed);
                let mut x = Conn::new(pki, b);
                x.handshake(pki);
                x.step(0);
                if established {
                    gate(Op::User(0), None);
                }
                for n in 1..Conn::STEPS {
                    x.step(n);
                }
                x.finish()
            }),
        ];
        let (outs, t) = run_threads_masked(jobs, alloc_ops, |v| {
            let want = match (v.at[0], v.at[1]) {
                // the second is established first
                (_, Some(Op::Start)) if established => 1,
                (Some(Op::Alloc), _) => 1,
                _ => 0,
            };
            if v.enabled.contains(&want) {
                want
            } else {
                v.enabled[0]
            }
        });
        judge(c, base, &a, &outs[0]);
        judge(c, base, &b, &outs[1]);
        judge_trace(c, &t);
        c.trans(t.choices.len());
        c.state((a, b, n, established));
        c.validated();
        c.outcome("preempted at an allocation");
        count.into_inner().unwrap()
    };
    // with these pairs every allocation of byte strings, or all allocations
    let mut pairs = vec![
        (healthy[0], healthy[2], false, true),
        (healthy[0], healthy[0], false, false),
        (healthy[1], healthy[0], false, false),
        (healthy[3], healthy[5], false, true),
        (healthy[4], healthy[1], false, false),
        (healthy[5], healthy[4], false, true),
        (kind(true, BadFlight), healthy[0], false, false),
        (healthy[0], kind(true, BadFlight), false, false),
        (healthy[1], kind(false, Garbage), false, false),
    ];
    if thorough {
        pairs.clear();
        for a in &healthy {
            for b in &healthy {
                for e in [false, true] {
                    pairs.push((*a, *b, false, e));
                }
            }
        }
        pairs.push((healthy[0], healthy[2], true, false));
        pairs.push((healthy[1], healthy[0], true, true));
    }
    for (i, (a, b, every, established)) in pairs.iter().enumerate() {
        let family = format!("allocations-{}-{}{}{}", a.name(), b.name(), if *every { "-all" } else { "" }, if *established { "-data" } else { "" });
        let n = {
            EVERY.store(*every, std::sync::atomic::Ordering::SeqCst);
            let mut n = 0;
            std::thread::scope(|s| {
                s.spawn(|| {
                    fresh(a.seed);
                    let mut x = Conn::new(pki, *a);
                    alloc_stop(0);
                    x.handshake(pki);
                    for n in 0..Conn::STEPS {
                        x.step(n);
                    }
                    n = alloc_count();
                    x.finish();
                });
            });
            n as usize
        };
        let _ = i;
        chk.range(&family, n, |k, c| {
            if c.begin(format!("{}", k + 1)) {
                let seen = run_alloc(c, *a, *b, k as u64 + 1, *every, *established);
                c.count("preempted at an allocation", (seen > k as u64) as u64);
            }
        });
    }
    EVERY.store(false, std::sync::atomic::Ordering::SeqCst);

    // ------------------------------------------------ several connections of one thread
    let mut words2 = vec![];
    let turns = if thorough { 5 } else { 4 };
    merges(&mut vec![turns; 2], &mut vec![], &mut words2);
    let mut v = vec![];
    for a in &all {
        for b in &all {
            if a.var == Healthy && (thorough || b.var == Healthy || a.suite == b.suite) {
                for part in words2.chunks(100) {
                    v.push((vec![*a, *b], part));
                }
            }
        }
    }
    let mut words3 = vec![];
    merges(&mut vec![if thorough { 4 } else { 3 }; 3], &mut vec![], &mut words3);
    for l in [[healthy[0], healthy[1], healthy[4]], [healthy[3], kind(true, BadData), healthy[2]]] {
        for part in words3.chunks(100) {
            v.push((l.to_vec(), part));
        }
    }
    chk.each("one-thread", &v, |(list, words), c| {
        let name: Vec<String> = list.iter().map(|k| k.name()).collect();
        for w in words.iter() {
            let id = format!("{}.{}", name.join("-"), w.iter().map(|i| i.to_string()).collect::<String>());
            if !c.begin(id) {
                continue;
            }
            fresh(1);
            let mut conns: Vec<(Conn, Rng, usize)> = list.iter().map(|k| (Conn::new(pki, *k), new_rng(k.seed), 0)).collect();
            let mut outs: Vec<Option<String>> = list.iter().map(|_| None).collect();
            // with less turns the last one does all that is left
            let turns = w.len() / list.len();
            let mut done: Vec<Option<Conn>> = conns.iter().map(|_| None).collect();
            for i in w {
                let (conn, rng, n) = &mut conns[*i];
                own_rng(rng);
                match *n {
                    0 => conn.handshake(pki),
                    k if k == turns - 1 => {
                        for s in k - 1..Conn::STEPS {
                            conn.step(s);
                        }
                    }
                    k => conn.step(k - 1),
                }
                *n += 1;
                if *n == turns {
                    let conn = std::mem::replace(conn, Conn::new(pki, list[*i]));
                    outs[*i] = Some(conn.finish());
                    done[*i] = None;
                }
                own_rng(rng);
                c.state((&id_hash(list), &conns.iter().map(|x| x.2).collect::<Vec<_>>()));
            }
            for (o, k) in outs.iter().zip(list) {
                judge(c, base, k, o.as_deref().unwrap_or("not finished"));
            }
            c.trans(w.len());
            c.validated();
            c.outcome("in one thread");
        }
    });

    // ------------------------------------------------ moved between threads
    if Is::<TlsStream>::SEND {
        let v: Vec<(Kind, usize)> = all.iter().flat_map(|k| (0..32).map(move |w| (*k, w))).collect();
        chk.each("moved", &v, |(k, w), c| {
            if c.begin(format!("{}.{w:05b}", k.name())) {
                fresh(1);
                let conn = Mutex::new(Shared((Conn::new(pki, *k), new_rng(k.seed))));
                let steps = |bit: bool, from: usize, other: bool| {
                    // all the steps from there which are done by the same thread
                    let mut n = from;
                    while n < 5 && (w >> n & 1 == 1) == bit {
                        let mut g = lk(&conn);
                        let (conn, rng) = &mut g.0;
                        if other {
                            fresh(1);
                        }
                        own_rng(rng);
                        if n == 0 {
                            conn.handshake(pki);
                        } else {
                            conn.step(n - 1);
                        }
                        own_rng(rng);
                        n += 1;
                    }
                    n
                };
                let mut n = 0;
                while n < 5 {
                    if w >> n & 1 == 0 {
                        n = steps(false, n, false);
                    } else {
                        n = std::thread::scope(|s| s.spawn(|| steps(true, n, true)).join()).unwrap_or(5);
                    }
                }
                let (conn, mut rng) = conn.into_inner().unwrap().0;
                own_rng(&mut rng);
                judge(c, base, k, &conn.finish());
                own_rng(&mut rng);
                c.trans(5);
                c.state((k, w));
                c.outcome("moved between threads");
            }
        });
    }

    // ------------------------------------------------ within the function of the user
    let v: Vec<Kind> = all.clone();
    chk.each("nested", &v, |k, c| {
        if c.begin(k.name()) {
            let outer = healthy[4];
            NESTED.with(|n| *n.borrow_mut() = Some((pki, *k, String::new())));
            fresh(outer.seed);
            let mut x = Conn::new(pki, outer);
            let (fd, l) = virtual_listener();
            enqueue(fd, x.sock.clone());
            let cfg = server_builder(pki).add_client_cert_ca(pki.ca.cert_path.clone()).set_client_cert_custom_verify_fn(verify_nested).build().unwrap();
            x.accept(&ServerConnection::new(l, cfg));
            for n in 0..Conn::STEPS {
                x.step(n);
            }
            judge(c, base, &outer, &x.finish());
            let o = NESTED.with(|n| n.borrow_mut().take());
            judge(c, base, k, &o.map(|o| o.2).unwrap_or_default());
            c.state(k);
            c.outcome("nested");
        }
    });

    // ------------------------------------------------ one server, one configuration
    let bound = if thorough { 2 } else { 1 };
    if Is::<ServerConnection>::SYNC {
        let servers: Vec<Kind> = all.iter().filter(|k| k.server && !k.auth).copied().collect();
        let mut v = vec![];
        for a in &servers {
            for b in &servers {
                v.push((*a, *b));
            }
        }
        let only = chk.replay_id("one-server");
        chk.each("one-server", &v, |(a, b), c| {
            schedules(c, &format!("{}-{}", a.name(), b.name()), bound, only.as_deref(), &mut |c, dev| {
                fresh(1);
                let (fd, l) = virtual_listener();
                let conn = Shared(ServerConnection::new(l, server_config(pki, a)));
                let waiting = Mutex::new(vec![]);
                for k in [a, b] {
                    let x = Conn::new(pki, *k);
                    enqueue(fd, x.sock.clone());
                    lk(&waiting).push(Shared(x));
                }
                let jobs: Vec<Job<(Option<Kind>, String)>> = (0..2)
                    .map(|_| {
                        let (conn, waiting) = (&conn, &waiting);
                        Box::new(move || {
                            fresh(shared_seed);
                            last_accepted();
                            let conn = conn;
                            let r = caught(|| conn.0.accept().map(|x| x.0));
                            let Some(sock) = last_accepted() else { return (None, "nothing accepted".into()) };
                            let mut x = {
                                let mut w = lk(waiting);
                                let i = w.iter().position(|x| Arc::ptr_eq(&x.0.sock, &sock)).unwrap();
                                w.remove(i).0
                            };
                            x.established(r);
                            for n in 0..Conn::STEPS {
                                x.step(n);
                            }
                            (Some(x.k), x.finish())
                        }) as Job<(Option<Kind>, String)>
                    })
                    .collect();
                let (outs, t) = run_threads_masked(jobs, env_ops, choice_of(dev));
                for (k, o) in &outs {
                    match k {
                        Some(k) => judge(c, base_shared, k, o),
                        None => c.fail(o),
                    }
                }
                judge_trace(c, &t);
                states(c, &format!("server {a:?} {b:?}"), &t);
                c.validated();
                c.outcome("one server for two threads");
                t
            });
        });
    }
    if Is::<ClientConfig>::SYNC {
        let clients: Vec<Kind> = all.iter().filter(|k| !k.server).copied().collect();
        let mut v = vec![];
        for a in &clients {
            for b in &clients {
                if a.auth == b.auth {
                    v.push((*a, *b));
                }
            }
        }
        let only = chk.replay_id("one-configuration");
        chk.each("one-configuration", &v, |(a, b), c| {
            schedules(c, &format!("{}-{}", a.name(), b.name()), bound, only.as_deref(), &mut |c, dev| {
                let cfg = Shared(client_config(pki, a));
                let jobs: Vec<Job<String>> = [*a, *b]
                    .into_iter()
                    .map(|k| {
                        let cfg = &cfg;
                        Box::new(move || {
                            fresh(k.seed);
                            let cfg = cfg;
                            let mut x = Conn::new(pki, k);
                            x.connect(&cfg.0);
                            for n in 0..Conn::STEPS {
                                x.step(n);
                            }
                            x.finish()
                        }) as Job<String>
                    })
                    .collect();
                let (outs, t) = run_threads_masked(jobs, env_ops, choice_of(dev));
                for (o, k) in outs.iter().zip([a, b]) {
                    judge(c, base, k, o);
                }
                judge_trace(c, &t);
                states(c, &format!("config {a:?} {b:?}"), &t);
                c.validated();
                c.outcome("one configuration for two threads");
                t
            });
        });
    }

    // ------------------------------------------------ the client and the server of the code under test
    let talk = |pairs: usize, auth: bool, dev: &Deviations| -> (Vec<String>, Trace) {
        let mut jobs: Vec<Job<String>> = vec![];
        for p in 0..pairs {
            let (x, y) = (Arc::new(Mutex::new(Pipe::default())), Arc::new(Mutex::new(Pipe::default())));
            let make = |i: &Arc<Mutex<Pipe>>, o: &Arc<Mutex<Pipe>>| {
                let mut s = VSock::new(Box::new(|_: &mut Vec<u8>| Step::Eof));
                s.pipe_in = Some(i.clone());
                s.pipe_out = Some(o.clone());
                cell(s)
            };
            let (cs, ss) = (make(&x, &y), make(&y, &x));
            for server in [false, true] {
                let sock = if server { ss.clone() } else { cs.clone() };
                jobs.push(Box::new(move || {
                    fresh(50 + 2 * p as u64 + server as u64);
                    let r = if server {
                        let mut b = server_builder(pki);
                        if auth {
                            b = b.add_client_cert_ca(pki.ca.cert_path.clone());
                        }
                        accept(b, &sock)
                    } else {
                        let mut b = CB::new();
                        if auth {
                            b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
                        }
                        connect(b, &sock)
                    };
                    let mut log = vec![r.name()];
                    if let Some(mut s) = r.ok() {
                        let mine: Vec<u8> = (0..20_000).map(|i| mix(p as u64 * 10 + server as u64 + i * 100) as u8).collect();
                        let theirs: Vec<u8> = (0..20_000).map(|i| mix(p as u64 * 10 + !server as u64 + i * 100) as u8).collect();
                        for round in 0..2 {
                            let (m, t) = if round == 0 { (&mine[..100], &theirs[..100]) } else { (&mine[100..], &theirs[100..]) };
                            let mut order = [true, false];
                            if server {
                                order.reverse();
                            }
                            for write in order {
                                if write {
                                    log.push(tls_write(&mut s, m).name());
                                } else {
                                    let mut got = vec![];
                                    let mut buf = [0; 4096];
                                    while got.len() < t.len() {
                                        match tls_read(&mut s, &mut buf) {
                                            Res::Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
                                            r => {
                                                log.push(r.name());
                                                break;
                                            }
                                        }
                                    }
                                    log.push(format!("{} {}", got.len(), got == t));
                                }
                            }
                        }
                    }
                    let s = lk(&sock);
                    log.push(format!("sent {} {:016x}", s.sent.len(), h64(&s.sent)));
                    log.join(", ")
                }));
            }
        }
        run_threads_masked(jobs, |o| !matches!(o, Op::Alloc | Op::User(_) | Op::Random), choice_of(dev))
    };
    for (pairs, auth, bound) in [(1, false, if thorough { 5 } else { 3 }), (1, true, if thorough { 4 } else { 2 }), (2, true, if thorough { 2 } else { 1 })] {
        let (want, t) = talk(pairs, auth, &vec![]);
        let good = !t.deadlock && want.iter().all(|w| w.starts_with("ok, ") && w.matches("true").count() == 2);
        explore(&chk, &format!("talk{pairs}{auth}"), bound, |c, dev| {
            let (outs, t) = talk(pairs, auth, dev);
            c.check(good, format!("the client and the server do not work together: {want:?}"));
            c.check(outs == want, format!("by default: {want:?}\n        now: {outs:?}"));
            judge_trace(c, &t);
            c.trans(t.choices.len());
            states(c, &format!("talk {pairs} {auth}"), &t);
            c.validated();
            c.outcome("client and server");
            t
        });
    }
    chk.finish()
}
fn id_hash(l: &[Kind]) -> u64 {
    h64(format!("{l:?}"))
}
