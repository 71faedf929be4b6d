//! C13: malformed input at every place of the exchange, with and without keys. Every operation of
//! the real code must return, without a panic, and with memory in proportion to the input.

use mc::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};

// ------------------------------------------------------------------ memory
struct Counting;
thread_local! {
    static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
}
fn account(n: isize) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

// ------------------------------------------------------------------ one exchange
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum M {
    /// ClientHello or ServerHello
    Hello,
    EncExt,
    Request,
    Cert,
    Verify,
    Finished,
    /// Records after the handshake
    App,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Conf {
    server: bool,
    suite: u16,
    auth: bool,
}
impl Conf {
    fn name(&self) -> String {
        format!("{}.{}.auth{}", if self.server { "server" } else { "client" }, suite_name(self.suite), self.auth as u8)
    }
    fn messages(&self) -> Vec<M> {
        match (self.server, self.auth) {
            (true, false) => vec![M::Hello, M::Finished],
            (true, true) => vec![M::Hello, M::Cert, M::Verify, M::Finished],
            (false, false) => vec![M::Hello, M::EncExt, M::Cert, M::Verify, M::Finished],
            (false, true) => vec![M::Hello, M::EncExt, M::Request, M::Cert, M::Verify, M::Finished],
        }
    }
}

/// Makes the records for a message (in place of it) from the message and the keys; None keeps it
/// and its record. What the peer's transcript gets is the second part.
type Edit<'a> = dyn Fn(M, &[u8], Option<&mut Dir>) -> Option<(Vec<u8>, Vec<u8>)> + Send + Sync + 'a;

#[derive(Default)]
struct Got {
    results: Vec<String>,
    /// Bytes the peer made, those that were read
    input: usize,
    read: usize,
    peak: isize,
    reached: bool,
    message: Vec<u8>,
}

fn records(dir: Option<&mut Dir>, m: &[u8]) -> Vec<u8> {
    match dir {
        None => m.chunks(1 << 14).flat_map(|c| plain_rec(HANDSHAKE, c)).collect(),
        Some(d) => m.chunks(1 << 14).flat_map(|c| d.seal(HANDSHAKE, c)).collect(),
    }
}

/// The exchange with the edit at the given message
fn run(pki: &'static Pki, k: Conf, at: M, edit: std::sync::Arc<Edit<'static>>) -> Got {
    fresh(13);
    let reached = cell(None::<Vec<u8>>);
    let rc = reached.clone();
    let made = cell(0usize);
    let made2 = made.clone();
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let mut g = Got::default();
    let sock: Sock;
    let r;
    if k.server {
        let peer = cell(Cli::new(cli_cfg(pki, k.suite)));
        let mut phase = 0;
        sock = client_sock(&peer, move |p: &mut Cli| {
            if phase == 0 {
                phase = 1;
                let honest = p.ch.clone();
                let mut d = plain_rec(HANDSHAKE, &honest);
                if at == M::Hello {
                    *lk(&rc) = Some(honest.clone());
                    if let Some((rec, tr)) = edit(at, &honest, None) {
                        d = rec;
                        p.ch = tr;
                    }
                }
                p.sent_hello();
                *lk(&made2) += d.len();
                p.out.push_back(d);
            } else if phase == 1 && p.wait == Wait::Done {
                phase = 2;
                let mut d = plain_rec(CCS, &[1]);
                let chain = [pki.client.cert.clone()];
                for m in &k.messages()[1..] {
                    let n = p.tr.len();
                    let honest = match m {
                        M::Cert => p.m_cert(&chain),
                        M::Verify => p.m_verify(&pki.client.key),
                        _ => p.m_finished(),
                    };
                    let e = if *m == at {
                        *lk(&rc) = Some(honest.clone());
                        edit(at, &honest, p.wr.as_mut())
                    } else {
                        None
                    };
                    match e {
                        Some((rec, tr)) => {
                            d.extend(rec);
                            p.tr.truncate(n);
                            p.tr.extend(tr);
                        }
                        None => d.extend(records(p.wr.as_mut(), &honest)),
                    }
                }
                p.to_app();
                let w = p.wr.as_mut().unwrap();
                if at == M::App {
                    *lk(&rc) = Some(vec![]);
                    d.extend(edit(at, &[], Some(w)).unwrap().0);
                }
                d.extend(w.seal(APPDATA, b"data"));
                d.extend(w.seal(ALERT, &[1, 0]));
                *lk(&made2) += d.len();
                p.out.push_back(d);
                p.eof = true;
            } else {
                p.eof = true;
            }
        });
        let mut b = server_builder(pki);
        if k.auth {
            b = b.add_client_cert_ca(pki.ca.cert_path.clone());
        }
        r = accept(b, &sock);
    } else {
        let mut cfg = srv_cfg(pki, k.suite);
        if k.auth {
            cfg.request = Some(vec![1, 2, 3]);
        }
        let peer = cell(Srv::new(cfg));
        let mut phase = 0;
        sock = server_sock(&peer, move |p: &mut Srv| {
            if phase == 1 || p.ch.is_empty() {
                p.eof = true;
                return;
            }
            phase = 1;
            let mut d = vec![];
            for m in k.messages() {
                let n = p.tr.len();
                let honest = match m {
                    M::Hello => p.m_hello(),
                    M::EncExt => p.m_ee(),
                    M::Request => p.m_request(),
                    M::Cert => p.m_cert(),
                    M::Verify => p.m_verify(),
                    _ => p.m_finished(),
                };
                let e = if m == at {
                    *lk(&rc) = Some(honest.clone());
                    edit(at, &honest, if m == M::Hello { None } else { p.wr.as_mut() })
                } else {
                    None
                };
                match e {
                    Some((rec, tr)) => {
                        d.extend(rec);
                        p.tr.truncate(n);
                        p.tr.extend(tr);
                        if m == M::Hello {
                            p.rekey();
                        }
                    }
                    None => d.extend(records(if m == M::Hello { None } else { p.wr.as_mut() }, &honest)),
                }
                if m == M::Hello {
                    d.extend(plain_rec(CCS, &[1]));
                }
            }
            p.to_app();
            let w = p.wr.as_mut().unwrap();
            if at == M::App {
                *lk(&rc) = Some(vec![]);
                d.extend(edit(at, &[], Some(w)).unwrap().0);
            }
            d.extend(w.seal(APPDATA, b"data"));
            d.extend(w.seal(ALERT, &[1, 0]));
            *lk(&made2) += d.len();
            p.out.push_back(d);
            p.eof = true;
        });
        let mut b = CB::new();
        if k.auth {
            b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
        }
        r = connect(b, &sock);
    }
    g.results.push(r.name());
    if let Res::Ok(mut s) = r {
        let mut b = [0; 64];
        loop {
            let r = tls_read(&mut s, &mut b);
            if r.is_ok() && g.results.len() < 3000 {
                if g.results.len() < 40 {
                    g.results.push("data".into());
                }
                continue;
            }
            g.results.push(r.name());
            break;
        }
        g.results.push(tls_write(&mut s, b"answer").name());
        g.results.push(tls_read(&mut s, &mut b).name());
        if let Err(e) = caught(move || drop(s)) {
            g.results.push(format!("panic: {e}"));
        }
    }
    g.peak = PEAK.with(|p| p.get()) - base;
    g.read = lk(&sock).total_rx;
    g.input = *lk(&made);
    let m = lk(&reached).take();
    g.reached = m.is_some();
    g.message = m.unwrap_or_default();
    g
}

fn judge(c: &mut Case, k: Conf, at: M, g: &Got) {
    let last = g.results.iter().find(|r| *r != "ok" && *r != "data").cloned().unwrap_or_default();
    c.outcome(format!("{} {at:?}: {last}", if k.server { "server" } else { "client" }));
    c.nontrivial((k, at, g.results.clone()));
    c.check(g.reached, "harness: the place was not reached");
    for r in &g.results {
        if r.starts_with("panic") {
            c.fail(r);
        }
    }
    // the peer and the socket have copies of all input
    let bound = (2 << 20) + 12 * g.input as isize + 30 * g.read as isize;
    c.check(g.peak < bound, format!("{} bytes are in use at the same time with {} of {} bytes of input", g.peak, g.read, g.input));
}

fn one(pki: &'static Pki, c: &mut Case, k: Conf, at: M, f: impl Fn(&[u8], Option<&mut Dir>) -> (Vec<u8>, Vec<u8>) + Send + Sync + 'static) {
    let g = run(pki, k, at, std::sync::Arc::new(move |_, m: &[u8], d: Option<&mut Dir>| Some(f(m, d))));
    judge(c, k, at, &g);
}
/// The message is replaced by this one
fn replaced(pki: &'static Pki, c: &mut Case, k: Conf, at: M, m: Vec<u8>) {
    one(pki, c, k, at, move |_, d| (records(d, &m), m.clone()));
}

fn words_of(alphabet: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for w in &last {
            for a in alphabet {
                let mut x: Vec<u8> = w.clone();
                x.push(*a);
                next.push(x);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn hex(b: &[u8]) -> String {
    if b.len() > 24 {
        return format!("{}..{}", b.len(), b[..8].iter().map(|x| format!("{x:02x}")).collect::<String>());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let chk = Check::start(
        "C13",
        "exploration",
        "single changes (values, cuts, removals, insertions, pairs of length bytes) at every byte of every message a peer sends, all short bodies over small \
         alphabets of every message, extension, record and certificate element, sizes at the limits and floods, with correct keys and without; every operation \
         must return, without a panic, with memory bounded by the input",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let mut confs = vec![];
    for server in [true, false] {
        for auth in [true, false] {
            for suite in SUITES {
                confs.push(Conf { server, suite, auth });
            }
        }
    }
    let main_confs: Vec<Conf> = confs.iter().filter(|k| k.suite == CHACHA).copied().collect();
    // the messages, from an honest run
    let honest = |k: Conf, at: M| -> Vec<u8> { run(pki, k, at, std::sync::Arc::new(|_, _, _| None)).message };

    // the context of the request is the same in every run
    let context: Vec<u8> = {
        let m = honest(Conf { server: true, suite: CHACHA, auth: true }, M::Cert);
        m[5..5 + m[4] as usize].to_vec()
    };
    let context = &context;
    let ctx = |k: Conf| if k.server { context.clone() } else { vec![] };

    // ------------------------------------------------ single changes of every message
    let mut items: Vec<(Conf, M, usize, Vec<u8>)> = vec![];
    for k in &confs {
        if k.suite != CHACHA && !(thorough || k.auth) {
            continue;
        }
        for at in k.messages() {
            // with client authentication the rest is the same
            if !k.auth && at != M::Hello {
                continue;
            }
            let m = honest(*k, at);
            assert!(!m.is_empty(), "{k:?} {at:?}");
            for i in 0..m.len() {
                items.push((*k, at, i, m.clone()));
            }
        }
    }
    chk.each("changes", &items, |(k, at, i, m), c| {
        let (k, at, i) = (*k, *at, *i);
        // numbers chosen by the peer
        let opaque = match at {
            M::Hello => (7..37).contains(&i) || i + 30 > m.len(),
            M::Finished | M::Verify => (14..m.len() - 2).contains(&i),
            _ => false,
        };
        if opaque && i % 8 != 0 && !thorough {
            return;
        }
        let full = thorough || at == M::Hello && k.suite == CHACHA && k.auth && (k.server || i % 4 == 0);
        let b = m[i];
        let mut values: Vec<u8> = if full {
            (0..=255).collect()
        } else if k.suite == CHACHA {
            vec![0, 1, 0x7f, 0x80, 0xff, b ^ 1, b.wrapping_add(1), b.wrapping_sub(1), b ^ 0x20]
        } else {
            vec![0, 0xff, b ^ 1]
        };
        values.sort();
        values.dedup();
        values.retain(|v| *v != b);
        let name = |s: &str| format!("{}.{at:?}.{i}.{s}", k.name());
        for v in values {
            if c.begin(name(&format!("value{v:02x}"))) {
                let mut x = m.clone();
                x[i] = v;
                replaced(pki, c, k, at, x);
            }
        }
        if k.suite != CHACHA && !thorough {
            return;
        }
        // cut, with the length of the message fixed or not
        let fix = |mut x: Vec<u8>| {
            if x.len() >= 4 {
                let n = x.len() - 4;
                x[1..4].copy_from_slice(&[(n >> 16) as u8, (n >> 8) as u8, n as u8]);
            }
            x
        };
        let mut variants: Vec<(String, Vec<u8>)> = vec![("cut".into(), m[..i].to_vec()), ("cut-fixed".into(), fix(m[..i].to_vec()))];
        for (n, at2, ins) in [("removed", 1usize, &[][..]), ("doubled", 0, &[b][..]), ("zero", 0, &[0][..]), ("ff", 0, &[255][..])] {
            let x = [&m[..i], ins, &m[i + at2..]].concat();
            variants.push((format!("{n}-fixed"), fix(x.clone())));
            if i % 4 == 0 {
                variants.push((n.into(), x));
            }
        }
        if i + 1 < m.len() {
            for v in [[0u8, 0], [0, 1], [0x7f, 0xff], [0x80, 0], [0x80, 0x80], [0xff, 0xff], [0x82, 0xff]] {
                let mut x = m.clone();
                x[i..i + 2].copy_from_slice(&v);
                variants.push((format!("pair{:02x}{:02x}", v[0], v[1]), x));
            }
        }
        for w in [3usize, 4] {
            if i + w <= m.len() && (i % 2 == 0 || thorough) {
                for v in [0u8, 0xff] {
                    let mut x = m.clone();
                    x[i..i + w].fill(v);
                    variants.push((format!("run{w}.{v:02x}"), x));
                }
            }
        }
        for (n, x) in variants {
            if c.begin(name(&n)) {
                replaced(pki, c, k, at, x);
            }
        }
    });

    // ------------------------------------------------ all short bodies of every message
    let bodies = words_of(&[0, 1, 2, 0xff], if thorough { 7 } else { 5 });
    let mut items: Vec<(Conf, M)> = vec![];
    for k in &main_confs {
        for at in k.messages() {
            items.push((*k, at));
        }
        items.push((*k, M::App));
    }
    let n = bodies.len();
    chk.range("bodies", items.len() * n, |i, c| {
        let ((k, at), b) = (items[i / n], &bodies[i % n]);
        // only what differs from the configuration with authentication
        if !thorough && !k.auth && b.len() > 3 {
            return;
        }
        if at == M::Cert && k.server {
            // after the right context
            if c.begin(format!("{}.{at:?}.context.{}", k.name(), hex(b))) {
                replaced(pki, c, k, at, hs(CERTIFICATE, &[&v8(&context)[..], b].concat()));
            }
        }
        let types: &[u8] = match (at, k.server) {
            (M::Hello, true) => &[CLIENT_HELLO],
            (M::Hello, false) => &[SERVER_HELLO],
            (M::EncExt, _) => &[ENCRYPTED_EXTENSIONS],
            (M::Request, _) => &[CERTIFICATE_REQUEST],
            (M::Cert, _) => &[CERTIFICATE],
            (M::Verify, _) => &[CERTIFICATE_VERIFY],
            (M::Finished, _) => &[FINISHED],
            (M::App, _) => &[NEW_SESSION_TICKET, 24, CERTIFICATE_REQUEST],
        };
        for t in types {
            if at == M::App && b.len() > 3 && *t != NEW_SESSION_TICKET {
                continue;
            }
            if c.begin(format!("{}.{at:?}.{t}.{}", k.name(), hex(b))) {
                replaced(pki, c, k, at, hs(*t, b));
            }
        }
    });

    // ------------------------------------------------ extensions
    let bodies = words_of(&[0, 1, 2, 4, 0x1d, 0xff], if thorough { 6 } else { 5 });
    let base = cli_cfg(pki, CHACHA);
    let exts = base.default_exts();
    let types = [0u16, 10, 13, 43, 51];
    let n = bodies.len();
    chk.range("client-extensions", types.len() * n, |i, c| {
        let (t, b) = (types[i / n], &bodies[i % n]);
        if c.begin(format!("{t}.{}", hex(b))) {
            let mut e = exts.clone();
            e.retain(|x| x.0 != t);
            e.push((t, b.clone()));
            let m = base.hello_with(&e);
            replaced(pki, c, Conf { server: true, suite: CHACHA, auth: false }, M::Hello, m);
        }
    });
    let bodies = words_of(&[0, 1, 2, 0x1d, 0xff], if thorough { 6 } else { 4 });
    let types = [43u16, 51, 0, 0xffff];
    let n = bodies.len();
    chk.range("server-extensions", types.len() * n, |i, c| {
        let (t, b) = (types[i / n], bodies[i % n].clone());
        if c.begin(format!("{t}.{}", hex(&b))) {
            let k = Conf { server: false, suite: CHACHA, auth: false };
            one(pki, c, k, M::Hello, move |m, _| {
                let mut m = m.to_vec();
                // supported_versions or the key share replaced, or another added
                let x = ext(t, &b);
                let n = m.len();
                match t {
                    43 => drop(m.splice(76..82, x)),
                    51 => drop(m.splice(82..n, x)),
                    _ => m.extend(x),
                }
                let l = m.len() - 76;
                m[74] = (l >> 8) as u8;
                m[75] = l as u8;
                let l = m.len() - 4;
                m[2] = (l >> 8) as u8;
                m[3] = l as u8;
                (plain_rec(HANDSHAKE, &m), m)
            });
        }
    });

    // ------------------------------------------------ records without keys
    // all streams of bytes over an alphabet
    let streams = words_of(&[0, 1, 3, 20, 21, 22, 23, 255], if thorough { 7 } else { 5 });
    chk.each("streams", &streams, |b, c| {
        for k in [Conf { server: true, suite: CHACHA, auth: false }, Conf { server: false, suite: CHACHA, auth: false }] {
            // the client makes a key first
            if !k.server && b.len() > if thorough { 5 } else { 4 } {
                continue;
            }
            if c.begin(format!("{}.{}", k.name(), hex(b))) {
                let x = b.clone();
                one(pki, c, k, M::Hello, move |m, _| (x.clone(), m.to_vec()));
            }
        }
    });
    let streams = words_of(&[0, 3, 20, 21, 22, 23, 255], if thorough { 5 } else { 4 });
    chk.each("streams-later", &streams, |b, c| {
        for (k, at) in [
            (Conf { server: true, suite: CHACHA, auth: true }, M::Cert),
            (Conf { server: false, suite: CHACHA, auth: false }, M::EncExt),
            (Conf { server: true, suite: AES128, auth: false }, M::App),
            (Conf { server: false, suite: AES128, auth: false }, M::App),
        ] {
            if at == M::App && b.len() > 3 && !thorough {
                continue;
            }
            if c.begin(format!("{}.{at:?}.{}", k.name(), hex(b))) {
                let x = b.clone();
                one(pki, c, k, at, move |m, _| (x.clone(), m.to_vec()));
            }
        }
    });
    // all types and lengths, with less, as much and more data than announced
    let lens = [0usize, 1, 2, 3, 4, 5, 15, 16, 17, 18, 255, 256, 16383, 16384, 16385, 16400, 16401, 16639, 16640, 16641, 32768, 65535];
    chk.range("headers", 256 * lens.len(), |i, c| {
        let (t, len) = ((i / lens.len()) as u8, lens[i % lens.len()]);
        for k in &main_confs {
            let mut places = vec![M::Hello, M::App];
            if k.auth {
                places.push(M::Cert);
            }
            for at in places {
                for have in [0, len / 2, len.saturating_sub(1), len, len + 7] {
                    let inuse = (20..=24).contains(&t);
                    if !thorough && (!inuse && (have != len || len > 256 && t % 16 != 0) || !k.server && !inuse && t % 8 != 0 || at == M::App && !inuse && t % 16 != 0 || k.auth != (at == M::Cert)) {
                        continue;
                    }
                    if c.begin(format!("{}.{at:?}.{t}.{len}.{have}", k.name())) {
                        let mut r = vec![t, 3, 3, (len >> 8) as u8, len as u8];
                        r.resize(5 + have, 0x16);
                        one(pki, c, *k, at, move |m, _| (r.clone(), m.to_vec()));
                    }
                }
            }
        }
    });

    // ------------------------------------------------ contents under the right keys
    let inner = words_of(&[0, 1, 2, 4, 20, 21, 22, 23, 24, 255], if thorough { 4 } else { 3 });
    chk.each("inner", &inner, |b, c| {
        for k in &confs {
            if k.suite != CHACHA && b.len() > 2 && !thorough {
                continue;
            }
            let mut places = k.messages();
            places[0] = M::App;
            for at in places {
                if !thorough && (b.len() > 2 && !matches!((k.auth, at), (false, M::App) | (true, M::Cert | M::Finished)) || k.suite != CHACHA && at != M::App) {
                    continue;
                }
                if c.begin(format!("{}.{at:?}.{}", k.name(), hex(b))) {
                    let x = b.clone();
                    one(pki, c, *k, at, move |m, d| (d.unwrap().seal_inner(&x), m.to_vec()));
                }
            }
        }
    });

    // ------------------------------------------------ certificates, keys and signatures
    // DER decoders on everything short
    chk.range("der-short", 65536, |i, c| {
        if !c.begin(format!("{i:04x}")) {
            return;
        }
        let (a, b) = ((i >> 8) as u8, i as u8);
        let mut inputs: Vec<Vec<u8>> = vec![vec![a, b]];
        for x in 0..=255u8 {
            inputs.push(vec![a, b, x]);
            inputs.push(vec![0x30, 0x03, a, b, x]);
            inputs.push(vec![0x30, 0x05, 0x02, a, b, x, 1]);
        }
        if b == 0 {
            inputs.push(vec![a]);
        }
        for x in inputs {
            for (n, r) in [
                ("certificate", caught(|| anothertls::utils::x509::X509::from_raw(&x).is_ok())),
                ("signature", caught(|| anothertls::crypto::ellipticcurve::Signature::from_der(&x).is_ok())),
            ] {
                if let Err(e) = r {
                    c.fail(format!("the {n} {} makes the decoder panic: {e}", hex(&x)));
                }
            }
        }
        c.count("decoder runs", 1538);
        c.outcome("decoded");
        c.nontrivial(i);
    });
    let toks: Vec<u8> = vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0c, 0x13, 0x17, 0x18, 0x30, 0x31, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xa0, 0xa3, 0xff];
    let n = if thorough { 3 } else { 2 };
    let heads = words_of(&toks, n);
    chk.each("der-words", &heads, |h, c| {
        if !c.begin(hex(h)) {
            return;
        }
        for t in words_of(&toks, 2) {
            let x = [&h[..], &t].concat();
            for y in [x.clone(), [&[0x30, x.len() as u8][..], &x].concat(), [&[0x30, x.len() as u8 + 2, 0x30, x.len() as u8][..], &x].concat()] {
                let r = caught(|| {
                    let _ = anothertls::utils::x509::X509::from_raw(&y);
                    let _ = anothertls::crypto::ellipticcurve::Signature::from_der(&y);
                });
                if let Err(e) = r {
                    c.fail(format!("{} makes a decoder panic: {e}", hex(&y)));
                }
            }
        }
        c.count("decoder runs", 1521);
        c.outcome("decoded");
        c.nontrivial(h);
    });
    // every value at every byte of certificates, and pairs of values at neighbouring and at all length bytes
    let mut certs: Vec<(&str, Vec<u8>)> = vec![("server", pki.server.cert.clone()), ("client", pki.client.cert.clone())];
    {
        let mut s = CertSpec::new("Test CA", "client", &pki.client.public);
        s.subject = vec![
            (OID_CN.to_vec(), 0x0c, b"client".to_vec()),
            (OID_O.to_vec(), 0x13, b"Organisation".to_vec()),
            (OID_OU.to_vec(), 0x16, b"Unit".to_vec()),
        ];
        certs.push(("names", s.sign(&pki.ca.key)));
    }
    let mut items = vec![];
    for (n, d) in &certs {
        for i in 0..d.len() {
            items.push((*n, d.clone(), i));
        }
    }
    chk.each("certificate-bytes", &items, |(n, d, i), c| {
        if !c.begin(format!("{n}.{i}")) {
            return;
        }
        let mut runs = 0;
        let mut run = |x: &[u8], c: &mut Case| {
            runs += 1;
            let r = caught(|| {
                if let Ok(x) = anothertls::utils::x509::X509::from_raw(x) {
                    let _ = x.get_public_key();
                    let _ = x.tbs_certificate.validity.is_valid();
                    let _ = format!("{} {}", x.tbs_certificate.subject, x.tbs_certificate.issuer);
                }
            });
            if let Err(e) = r {
                c.fail(format!("the changed certificate {} makes the decoder panic: {e}", hex(x)));
            }
        };
        for v in 0..=255u8 {
            let mut x = d.clone();
            x[*i] = v;
            run(&x, c);
            if *i + 1 < d.len() {
                for w in [0u8, 1, 0x1f, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x88, 0x8f, 0xff] {
                    let mut x = x.clone();
                    x[i + 1] = w;
                    run(&x, c);
                }
            }
        }
        // two changes anywhere
        for j in i + 1..d.len() {
            for (v, w) in [(0u8, 0u8), (0, 0xff), (0xff, 0), (0x80, 0x80), (d[*i].wrapping_add(1), d[j].wrapping_add(1)), (d[*i].wrapping_sub(1), d[j].wrapping_sub(1)), (0x30, 0x30)] {
                let mut x = d.clone();
                x[*i] = v;
                x[j] = w;
                run(&x, c);
            }
        }
        // cut, something removed or inserted, all lengths around it corrected or not
        for l in 1..=20usize.min(d.len() - i) {
            run(&[&d[..*i], &d[i + l..]].concat(), c);
            run(&[&d[..*i], &vec![0; l], &d[*i..]].concat(), c);
        }
        run(&d[..*i], c);
        c.count("decoder runs", runs);
        c.outcome("decoded");
        c.nontrivial((n, i));
    });
    // deep nesting, many elements, long elements
    let mut shapes: Vec<(String, Vec<u8>)> = vec![];
    for depth in [1usize, 2, 10, 100, 1000, 10000, 60000] {
        for tag in [0x30u8, 0x31, 0xa0, 0xa3] {
            let mut x: Vec<u8> = vec![];
            // innermost first: lengths of up to 3 bytes
            let mut parts: Vec<Vec<u8>> = vec![];
            let mut len = 0usize;
            for _ in 0..depth {
                let h = match len {
                    0..=127 => vec![tag, len as u8],
                    128..=255 => vec![tag, 0x81, len as u8],
                    256..=65535 => vec![tag, 0x82, (len >> 8) as u8, len as u8],
                    _ => vec![tag, 0x83, (len >> 16) as u8, (len >> 8) as u8, len as u8],
                };
                len += h.len();
                parts.push(h);
            }
            for p in parts.iter().rev() {
                x.extend(p);
            }
            if x.len() < 100_000 {
                shapes.push((format!("nested{depth}.{tag:02x}"), x.clone()));
                shapes.push((format!("nested{depth}.{tag:02x}.indefinite"), [tag, 0x80].repeat(depth)));
            }
        }
    }
    for n in [0usize, 1, 100, 5000] {
        for what in ["issuer", "subject"] {
            let mut s = CertSpec::new("Test CA", "client", &pki.client.public);
            let rdns: Vec<Rdn> = (0..n).map(|_| (OID_CN.to_vec(), 0x0c, b"x".to_vec())).collect();
            if what == "issuer" {
                s.issuer = rdns;
            } else {
                s.subject = rdns;
            }
            shapes.push((format!("{what}.{n}"), s.sign(&pki.ca.key)));
        }
        let mut s = CertSpec::new("Test CA", "client", &pki.client.public);
        s.subject = vec![(OID_CN.to_vec(), 0x0c, vec![b'a'; n * 10])];
        shapes.push((format!("long-name.{n}"), s.sign(&pki.ca.key)));
    }
    chk.each("certificate-shapes", &shapes, |(n, x), c| {
        for k in &main_confs {
            if !k.auth {
                continue;
            }
            for count in [1usize, 3] {
                if c.begin(format!("{}.{n}.{count}", k.name())) {
                                        let m = hs(CERTIFICATE, &cert_body(&ctx(*k), &vec![x.clone(); count]));
                    replaced(pki, c, *k, M::Cert, m);
                }
            }
        }
    });
    // public keys and signatures of every kind, used in a handshake
    let p = u_hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
    let order = u_hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
    let g = p256().public(&u_hex("01"));
    let mut points: Vec<(String, Vec<u8>)> = vec![];
    let be = |x: &U| u_to_be(x).to_vec();
    let good = [&[4u8][..], &be(&pki.client.public.0), &be(&pki.client.public.1)].concat();
    points.push(("generator".into(), [&[4u8][..], &be(&g.0), &be(&g.1)].concat()));
    points.push(("good".into(), good.clone()));
    let nums: Vec<(&str, Vec<u8>)> = vec![("zero", vec![0; 32]), ("one", { let mut v = vec![0; 32]; v[31] = 1; v }), ("ff", vec![255; 32]), ("p", be(&p)), ("n", be(&order)), ("gx", be(&g.0)), ("gy", be(&g.1))];
    for (a, x) in &nums {
        for (b, y) in &nums {
            for t in [4u8, 0, 2, 3, 6] {
                points.push((format!("{t}.{a}.{b}"), [&[t][..], x, y].concat()));
            }
        }
    }
    for l in [0usize, 1, 2, 31, 32, 33, 63, 64, 66, 97] {
        points.push((format!("length{l}"), (0..l).map(|i| if i < good.len() { good[i] } else { 1 }).collect()));
    }
    let mut sigs: Vec<(String, Vec<u8>)> = vec![];
    let ints: Vec<(&str, Vec<u8>)> = vec![
        ("empty", vec![]),
        ("zero", vec![0]),
        ("one", vec![1]),
        ("minus", vec![0xff]),
        ("zeros", vec![0; 40]),
        ("n", [&[0][..], &be(&order)].concat()),
        ("n-1", [&[0][..], &be(&order)[..31], &[0x50]].concat()),
        ("p", [&[0][..], &be(&p)].concat()),
        ("long", vec![0x7f; 100]),
        ("some", vec![0x12; 32]),
    ];
    for (a, x) in &ints {
        for (b, y) in &ints {
            sigs.push((format!("{a}.{b}"), der(0x30, &[der(2, x), der(2, y)].concat())));
        }
    }
    sigs.push(("huge".into(), der(0x30, &[der(2, &vec![0x55; 8000]), der(2, &vec![0x55; 8000])].concat())));
    sigs.push(("none".into(), vec![]));
    let mut items = vec![];
    for (pi, pt) in points.iter().enumerate() {
        for (si, s) in sigs.iter().enumerate() {
            if thorough || pi < 2 || si % 17 == 0 || s.0 == "some.some" || s.0 == "one.one" {
                items.push((pt, s));
            }
        }
    }
    chk.each("keys", &items, |((pn, pt), (sn, s)), c| {
        for k in [Conf { server: true, suite: CHACHA, auth: true }, Conf { server: false, suite: CHACHA, auth: false }] {
            if !c.begin(format!("{}.{pn}.{sn}", k.name())) {
                continue;
            }
            let mut spec = CertSpec::new("Test CA", "client", &pki.client.public);
            spec.spki = spki_raw(pt);
            let cert = spec.sign(&pki.ca.key);
            let (s, ctx) = (s.clone(), ctx(k));
            one(pki, c, k, M::Cert, move |_, d| {
                let d = d.unwrap();
                let m = hs(CERTIFICATE, &cert_body(&ctx, &[cert.clone()]));
                let v = hs(CERTIFICATE_VERIFY, &[&[4, 3][..], &v16(&s)].concat());
                // the honest CertificateVerify that follows is not reached, or refused
                let r = [d.seal(HANDSHAKE, &m), d.seal(HANDSHAKE, &v)].concat();
                (r, [m, v].concat())
            });
        }
    });

    // ------------------------------------------------ sizes
    let mut items: Vec<(String, Conf, M, Vec<u8>)> = vec![];
    for k in &main_confs {
        for at in k.messages() {
            let typ = match (at, k.server) {
                (M::Hello, true) => CLIENT_HELLO,
                (M::Hello, false) => SERVER_HELLO,
                (M::EncExt, _) => ENCRYPTED_EXTENSIONS,
                (M::Request, _) => CERTIFICATE_REQUEST,
                (M::Cert, _) => CERTIFICATE,
                (M::Verify, _) => CERTIFICATE_VERIFY,
                _ => FINISHED,
            };
            for n in [1usize << 14, (1 << 14) + 1, 65535, 65536, 131071, 131072, 131073, 200_000, 1 << 20, (1 << 24) - 1] {
                for have in [0usize, 100, 20000, n.min(300_000)] {
                    let mut m = vec![typ, (n >> 16) as u8, (n >> 8) as u8, n as u8];
                    m.resize(4 + have, 1);
                    items.push((format!("{}.{at:?}.{n}.{have}", k.name()), *k, at, m));
                }
            }
            items.push((format!("{}.{at:?}.zeros", k.name()), *k, at, hs(typ, &vec![0; 100_000])));
            items.push((format!("{}.{at:?}.ff", k.name()), *k, at, hs(typ, &vec![255; 100_000])));
        }
        if k.server {
            let mut b = base.clone();
            for (n, e) in [("unknown", (0..10_000u32).map(|i| (1000 + i as u16, vec![])).collect::<Vec<_>>()), ("same", vec![(0x1234, vec![]); 10_000]), ("shares", vec![(51, v16(&[0, 0x17, 0, 1, 4].repeat(13_000)))]), ("share-x", vec![(51, v16(&[&[0, 0x1d, 0, 32][..], &[9; 32]].concat().repeat(1800)))]), ("groups", vec![(10, v16(&[0, 0x1d].repeat(32_000)))]), ("schemes", vec![(13, v16(&[4, 3].repeat(32_000)))]), ("versions", vec![(43, v8(&[3, 3].repeat(127)))]), ("name", vec![(0, v16(&[&[0][..], &v16(&vec![b'a'; 65_000])].concat()))])] {
                let mut all = exts.clone();
                let types: Vec<u16> = e.iter().map(|x| x.0).collect();
                all.retain(|x| !types.contains(&x.0));
                all.extend(e);
                items.push((format!("{}.many-{n}", k.name()), *k, M::Hello, b.hello_with(&all)));
            }
            b.suites = vec![0x1a1a; 32_767];
            items.push((format!("{}.many-suites", k.name()), *k, M::Hello, b.hello_with(&exts)));
        }
        for n in [2usize, 10, 100] {
            items.push((format!("{}.certs{n}", k.name()), *k, if k.auth || !k.server { M::Cert } else { M::Finished }, hs(CERTIFICATE, &cert_body(&ctx(*k), &vec![pki.client.cert.clone(); n]))));
        }
    }
    chk.each("sizes", &items, |(n, k, at, m), c| {
        if c.begin(n) {
            replaced(pki, c, *k, *at, m.clone());
        }
    });

    // ------------------------------------------------ floods
    let mut items: Vec<(Conf, M, &'static str, usize)> = vec![];
    for k in &main_confs {
        let mut places = k.messages();
        places.push(M::App);
        for at in places {
            for kind in ["ccs", "empty", "fragments", "incomplete", "small", "tickets", "padding", "alerts", "zero-types", "data"] {
                for n in if thorough { vec![1000usize, 10_000, 100_000] } else { vec![300, 3000] } {
                    items.push((*k, at, kind, n));
                }
            }
        }
    }
    chk.each("floods", &items, |(k, at, kind, n), c| {
        if !c.begin(format!("{}.{at:?}.{kind}.{n}", k.name())) {
            return;
        }
        let (k, at, kind, n) = (*k, *at, *kind, *n);
        one(pki, c, k, at, move |m, d| {
            let mut out = vec![];
            let mut d = d;
            let mut put = |t: u8, b: &[u8], pad: usize| match &mut d {
                None => plain_rec(t, &[b, &vec![0; pad]].concat()),
                Some(d) => d.seal_padded(t, b, pad),
            };
            for i in 0..n {
                let r = match kind {
                    "ccs" => plain_rec(CCS, &[1]),
                    "empty" => put(APPDATA, &[], 0),
                    // a message of one byte per record, never complete
                    "fragments" => put(HANDSHAKE, &if i == 0 { vec![m.first().copied().unwrap_or(4), 2, 0, 0] } else { vec![1] }, 0),
                    // a message that is announced as longer than everything, in larger parts
                    "incomplete" => put(HANDSHAKE, &if i == 0 { vec![m.first().copied().unwrap_or(4), 255, 255, 255] } else { vec![1; 4000] }, 0),
                    "small" => put(HANDSHAKE, &hs(0, &[]), 0),
                    "tickets" => put(HANDSHAKE, &hs(NEW_SESSION_TICKET, &[&[0; 8][..], &v8(&[1]), &v16(&[7; 60]), &v16(&[])].concat()), 0),
                    "padding" => put(APPDATA, &[], 1000),
                    "alerts" => put(ALERT, &[1, 90], 0),
                    "zero-types" => put(0, &[], 0),
                    _ => put(APPDATA, &[0x41; 1000], 0),
                };
                out.extend(r);
            }
            (out, m.to_vec())
        });
    });
    chk.finish()
}
