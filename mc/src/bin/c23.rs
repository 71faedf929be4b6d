//! C23: every byte the code under test gives to the socket, judged with the keys of the peer.
//! Complete, ended, changed and disturbed exchanges, faults of every send call, and all words of
//! writes, reads, errors and closures after the handshake.

use mc::prelude::*;
use std::collections::{HashMap, HashSet};

// ------------------------------------------------------------------ the wire

/// What is known about one execution
struct View {
    server: bool,
    sent: Vec<u8>,
    /// Offsets of sent where a send call failed
    tears: Vec<usize>,
    /// Sent when the handshake function returned; None if it failed
    done_at: Option<usize>,
    /// The ClientHello as it was sent or received
    ch: Vec<u8>,
    /// The reference side
    sk: [u8; 32],
    sched: Option<Sched>,
    app: Option<(Vec<u8>, Vec<u8>)>,
    /// The client under test got the ServerHello of the reference
    hello_done: bool,
    /// The keys are known
    keys: bool,
    /// Application data written by the user, in order, and the offset of sent at that time
    written: Vec<(usize, Vec<u8>)>,
    /// Everything which may never appear
    secrets: Vec<(&'static str, Vec<u8>)>,
    rng: Vec<u8>,
}

/// Windows of 8 bytes, without those that occur in every text
fn windows(b: &[u8], out: &mut HashSet<u64>) {
    for w in b.windows(8) {
        let mut s: Vec<u8> = w.to_vec();
        s.sort();
        s.dedup();
        if s.len() >= 5 {
            out.insert(u64::from_be_bytes(w.try_into().unwrap()));
        }
    }
}
fn find(sent: &[u8], set: &HashSet<u64>, skip: &dyn Fn(usize) -> bool) -> Option<usize> {
    sent.windows(8).enumerate().position(|(i, w)| !skip(i) && set.contains(&u64::from_be_bytes(w.try_into().unwrap())))
}

fn strip(mut inner: Vec<u8>) -> (u8, Vec<u8>) {
    while inner.last() == Some(&0) {
        inner.pop();
    }
    let t = inner.pop().unwrap_or(0);
    (t, inner)
}

#[derive(Default)]
struct Found {
    protected: usize,
    data: Vec<u8>,
    alerts: usize,
    app_phase: bool,
}

fn judge(v: &View, c: &mut Case) -> Found {
    let mut out = Found::default();
    // records, with the offset of each; what is left after a failed send is dropped
    let mut recs: Vec<(usize, Rec)> = vec![];
    let mut torn: Vec<(usize, Vec<u8>)> = vec![];
    let mut start = 0;
    let mut ends = v.tears.clone();
    ends.push(v.sent.len());
    for (i, e) in ends.iter().enumerate() {
        let mut seg = v.sent[start..*e].to_vec();
        let total = seg.len();
        let mut at = start;
        for r in take_recs(&mut seg) {
            let n = 5 + r.body.len();
            recs.push((at, r));
            at += n;
        }
        if !seg.is_empty() {
            if i + 1 == ends.len() {
                c.fail(format!("the last {} of {total} bytes are not a record: {}", seg.len(), to_hex(&seg[..seg.len().min(40)])));
            }
            torn.push((recs.len(), seg));
        }
        start = *e;
    }
    let mut hello: Vec<u8> = vec![];
    let mut after_hello = false;
    let mut sched = v.sched.clone();
    let mut dir: Option<Dir> = None;
    let mut app_dir: Option<Dir> = None;
    let mut app_phase = false;
    let mut hsbuf: Vec<u8> = vec![];
    let mut tr = v.ch.clone();
    let mut seen: HashMap<(Vec<u8>, u64), Vec<u8>> = HashMap::new();
    let mut given = 0;
    let (mut next_write, mut until) = (0, 0);
    let mut plain_hs = 0;
    let mut torn_seqs: Vec<(usize, Vec<u8>, Vec<u8>, u64)> = vec![];
    for (n, (at, r)) in recs.iter().enumerate() {
        let gap = torn.iter().any(|t| t.0 <= n) || v.tears.iter().any(|t| *t <= *at && *t > 0);
        // remember where the torn record would be
        for (m, part) in &torn {
            if *m == n {
                if let Some(d) = if app_phase { &app_dir } else { &dir } {
                    torn_seqs.push((n, part.clone(), d.key.clone(), d.seq));
                }
            }
        }
        match r.typ {
            CCS => c.check(r.body == [1], format!("record {n}: ChangeCipherSpec {}", to_hex(&r.body))),
            ALERT => {
                c.check(!after_hello, format!("record {n}: an alert without protection after the ServerHello"));
                if !v.server {
                    c.check(!v.hello_done, format!("record {n}: an alert without protection after the ServerHello"));
                }
                c.check(r.body.len() == 2, format!("record {n}: alert of {} bytes", r.body.len()));
            }
            HANDSHAKE => {
                c.check(!after_hello, format!("record {n}: handshake data without protection after the ServerHello"));
                plain_hs += 1;
                hello.extend(&r.body);
                let whole = hello.len() >= 4 && hello.len() == 4 + ((hello[1] as usize) << 16 | (hello[2] as usize) << 8 | hello[3] as usize);
                let typ = if v.server { SERVER_HELLO } else { CLIENT_HELLO };
                c.check(hello.first() == Some(&typ), format!("record {n}: message {:?} without protection", hello.first()));
                if hello.len() >= 4 && hello.len() > 4 + ((hello[1] as usize) << 16 | (hello[2] as usize) << 8 | hello[3] as usize) {
                    c.fail(format!("record {n}: more than the hello without protection"));
                }
                if whole && v.server {
                    after_hello = true;
                    tr.extend(&hello);
                    // suite and share as they are on the wire
                    let sid = hello.get(38).copied().unwrap_or(0) as usize;
                    let suite = hello.get(39 + sid..41 + sid).map(|b| u16::from_be_bytes([b[0], b[1]]));
                    let share: Option<[u8; 32]> = hello.windows(8).position(|w| w[..2] == [0, 0x33] && w[4..8] == [0, 0x1d, 0, 32]).and_then(|p| hello.get(p + 8..p + 40)).and_then(|b| b.try_into().ok());
                    if let (true, Some(suite), Some(p)) = (v.keys, suite, share) {
                        if SUITES.contains(&suite) {
                            sched = Some(Sched::new(suite, &x25519(&v.sk, &p), &tr));
                        }
                    }
                }
            }
            APPDATA => {
                out.protected += 1;
                if v.server && !after_hello {
                    c.fail(format!("record {n}: protected data before the ServerHello"));
                    return out;
                }
                if !v.server && !after_hello {
                    after_hello = true;
                }
                c.check(r.body.len() >= 17, format!("record {n}: {} bytes cannot be protected data", r.body.len()));
                if !v.keys {
                    continue;
                }
                let Some(s) = &sched else {
                    c.fail(format!("record {n}: protected data but the reference has no keys"));
                    return out;
                };
                if dir.is_none() {
                    dir = Some(Dir::new(s.suite, if v.server { &s.server_hs } else { &s.client_hs }));
                }
                let d = if app_phase { app_dir.as_ref().unwrap() } else { dir.as_ref().unwrap() };
                let tries = if gap { 3 } else { 1 };
                let mut opened = None;
                for k in 0..tries {
                    if let Some(i) = d.open_at(d.seq + k, r) {
                        opened = Some((d.seq + k, i));
                        break;
                    }
                }
                let Some((seq, inner)) = opened else {
                    // which keys are these?
                    let mut cand: Vec<(&str, Dir)> = vec![("server handshake", Dir::new(s.suite, &s.server_hs)), ("client handshake", Dir::new(s.suite, &s.client_hs))];
                    let app = if v.server { app_secrets(s, &tr) } else { v.app.clone() };
                    if let Some((a, b)) = &app {
                        cand.push(("client application", Dir::new(s.suite, a)));
                        cand.push(("server application", Dir::new(s.suite, b)));
                    }
                    let mut what = "no key or sequence number near".to_string();
                    for (name, d2) in cand {
                        for k in 0..200 {
                            if d2.open_at(k, r).is_some() {
                                what = format!("the {name} key with sequence number {k}");
                            }
                        }
                    }
                    c.fail(format!(
                        "record {n}: not protected with the {} key of the {} and sequence number {}, but with {what}",
                        if app_phase { "application" } else { "handshake" },
                        if v.server { "server" } else { "client" },
                        d.seq
                    ));
                    return out;
                };
                for (_, part, key, s0) in &torn_seqs {
                    if *key == d.key && *s0 == seq && part.len() > 5 {
                        let whole = plain_rec(APPDATA, &r.body);
                        c.check(whole.starts_with(part), format!("record {n}: the sequence number {seq} was already used for the record that was not sent completely"));
                    }
                }
                if let Some(old) = seen.insert((d.key.clone(), seq), r.body.clone()) {
                    c.fail(format!("record {n}: the sequence number {seq} is used again ({})", old == r.body));
                }
                if app_phase {
                    app_dir.as_mut().unwrap().seq = seq + 1;
                } else {
                    dir.as_mut().unwrap().seq = seq + 1;
                }
                let (typ, data) = strip(inner);
                match typ {
                    HANDSHAKE => {
                        if app_phase {
                            c.fail(format!("record {n}: handshake message {:?} after the Finished", data.first()));
                        }
                        hsbuf.extend(&data);
                        while hsbuf.len() >= 4 {
                            let l = 4 + ((hsbuf[1] as usize) << 16 | (hsbuf[2] as usize) << 8 | hsbuf[3] as usize);
                            if hsbuf.len() < l {
                                break;
                            }
                            let m: Vec<u8> = hsbuf.drain(..l).collect();
                            tr.extend(&m);
                            if m[0] == FINISHED {
                                c.check(hsbuf.is_empty(), format!("record {n}: data behind the Finished under the same keys"));
                                app_phase = true;
                                out.app_phase = true;
                                let a = if v.server { Some(s.app(&tr)) } else { v.app.clone() };
                                match a {
                                    Some((a, b)) => app_dir = Some(Dir::new(s.suite, if v.server { &b } else { &a })),
                                    None => {
                                        c.fail(format!("record {n}: a Finished before that of the server"));
                                        return out;
                                    }
                                }
                            }
                        }
                    }
                    ALERT => {
                        out.alerts += 1;
                        c.check(data.len() == 2, format!("record {n}: alert of {} bytes", data.len()));
                    }
                    APPDATA => {
                        c.check(app_phase, format!("record {n}: application data under the handshake keys"));
                        c.check(v.done_at.is_some_and(|d| *at >= d), format!("record {n}: application data before the handshake has completed"));
                        given += data.len();
                        out.data.extend(&data);
                        // only what was written until then
                        while v.written.get(next_write).is_some_and(|w| w.0 <= *at) {
                            until += v.written[next_write].1.len();
                            next_write += 1;
                        }
                        c.check(given <= until, format!("record {n}: {given} bytes of application data, but {until} were written"));
                    }
                    t => c.fail(format!("record {n}: inner type {t}")),
                }
            }
            t => c.fail(format!("record {n}: type {t} without protection")),
        }
        c.state((v.server, r.typ, r.body.len(), app_phase, n));
    }
    c.check(plain_hs <= 1, format!("{plain_hs} handshake records without protection"));
    c.trans(recs.len());

    // ---------------- no secret on the wire
    let mut all: Vec<(&str, HashSet<u64>)> = vec![];
    let mut add = |n: &'static str, b: &[u8]| {
        let mut s = HashSet::new();
        windows(b, &mut s);
        all.push((n, s));
    };
    let mut dirs = vec![];
    let mut app = v.app.clone();
    if let Some(s) = &sched {
        for (n, b) in [("the client handshake secret", &s.client_hs), ("the server handshake secret", &s.server_hs), ("the master secret", &s.master)] {
            add(n, b);
        }
        dirs.push(Dir::new(s.suite, &s.client_hs));
        dirs.push(Dir::new(s.suite, &s.server_hs));
        if v.server && app_phase {
            app = Some(s.app(&tr));
        }
        if let Some((a, b)) = &app {
            add("the client application secret", a);
            add("the server application secret", b);
            dirs.push(Dir::new(s.suite, a));
            dirs.push(Dir::new(s.suite, b));
        }
    }
    for d in &dirs {
        add("a key", &d.key);
        add("an initialization vector", &d.iv);
    }
    for (n, b) in &v.secrets {
        add(n, b);
    }
    let mut s = HashSet::new();
    for (_, d) in &v.written {
        windows(d, &mut s);
    }
    all.push(("application data", s));
    for (n, s) in &all {
        if let Some(p) = find(&v.sent, s, &|_| false) {
            c.fail(format!("{n} is sent at offset {p}"));
        }
    }
    // what was drawn: only random and session id are public
    let mut s = HashSet::new();
    windows(&v.rng, &mut s);
    let server = v.server;
    let skip = move |i: usize| (4..43).contains(&i) || !server && (37..76).contains(&i);
    if let Some(p) = find(&v.sent, &s, &skip) {
        c.fail(format!("output of the random number generator is sent at offset {p}"));
    }
    out
}
fn app_secrets(s: &Sched, tr: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    Some(s.app(tr))
}

// ------------------------------------------------------------------ executions

#[derive(Clone, Debug)]
enum Tamper {
    None,
    Cut(usize),
    /// A byte of what is received on the wire
    Flip(usize, u8),
    /// A byte of a message of the peer, before it is protected
    Inside(usize, usize, u8),
    /// A record before the message
    Insert(usize, &'static str),
}
#[derive(Clone, Debug)]
struct Conf {
    server: bool,
    suite: u16,
    auth: bool,
    ccs: bool,
}
impl Conf {
    fn name(&self) -> String {
        format!("{}.{}.{}{}", if self.server { "server" } else { "client" }, suite_name(self.suite), if self.auth { "auth" } else { "plain" }, if self.ccs { "" } else { ".noccs" })
    }
}
const INSERT: [&str; 14] = [
    "plain-data", "plain-fatal", "plain-warning", "plain-close", "plain-handshake", "ccs", "ccs-bad", "sealed-alert", "sealed-close", "sealed-data", "sealed-empty", "wrong-key", "too-long", "unknown-type",
];
fn inserted(what: &str, d: Option<&mut Dir>) -> Option<Vec<u8>> {
    Some(match what {
        "plain-data" => plain_rec(APPDATA, b"not protected at all, application data"),
        "plain-fatal" => plain_rec(ALERT, &[2, 40]),
        "plain-warning" => plain_rec(ALERT, &[1, 90]),
        "plain-close" => plain_rec(ALERT, &[1, 0]),
        "plain-handshake" => plain_rec(HANDSHAKE, &hs(ENCRYPTED_EXTENSIONS, &[0, 0])),
        "ccs" => plain_rec(CCS, &[1]),
        "ccs-bad" => plain_rec(CCS, &[2]),
        "sealed-alert" => d?.seal(ALERT, &[2, 40]),
        "sealed-close" => d?.seal(ALERT, &[1, 0]),
        "sealed-data" => d?.seal(APPDATA, b"application data during the handshake"),
        "sealed-empty" => d?.seal(HANDSHAKE, b""),
        "wrong-key" => {
            let mut d = d?.clone();
            d.key[0] ^= 1;
            d.seal(HANDSHAKE, &hs(ENCRYPTED_EXTENSIONS, &[0, 0]))
        }
        "too-long" => vec![APPDATA, 3, 3, 0x7f, 0xff, 1, 2, 3],
        "unknown-type" => plain_rec(99, &[1, 2, 3]),
        _ => return None,
    })
}

enum Live {
    S(Option<anothertls::net::TlsStream>, Sock, Cell<Cli>),
    C(Option<anothertls::net::TlsStream>, Sock, Cell<Srv>),
}
struct Run {
    live: Live,
    res: String,
    done_at: Option<usize>,
    hello_done: bool,
    keys: bool,
    written: Vec<(usize, Vec<u8>)>,
}

fn start(pki: &'static Pki, k: &Conf, t: &Tamper, seed: u64, faults: &dyn Fn(&mut VSock)) -> Run {
    fresh(seed);
    let mut keys = true;
    let mut hello_done = true;
    let wire = |sock: &Sock| {
        let mut s = lk(sock);
        match t {
            Tamper::Cut(n) => s.recv_cut = Some((*n, Fault::Eof)),
            Tamper::Flip(n, x) => {
                let (n, x) = (*n, *x);
                let mut inner = s.driver.take().unwrap();
                let mut at = 0;
                s.driver = Some(Box::new(move |tx: &mut Vec<u8>| {
                    let mut r = inner.step(tx);
                    if let Step::Data(d) = &mut r {
                        if n >= at && n < at + d.len() {
                            d[n - at] ^= x;
                        }
                        at += d.len();
                    }
                    r
                }));
            }
            _ => (),
        }
        faults(&mut s);
    };
    let edit = {
        let t = t.clone();
        move |i: usize, mut m: Vec<u8>| {
            if let Tamper::Inside(j, b, x) = &t {
                if *j == i && *b < m.len() {
                    m[*b] ^= x;
                }
            }
            m
        }
    };
    let extra = {
        let t = t.clone();
        move |i: usize, d: Option<&mut Dir>| match &t {
            Tamper::Insert(j, what) if *j == i => inserted(what, d).unwrap_or_default(),
            _ => vec![],
        }
    };
    if k.server {
        let mut cfg = cli_cfg(pki, k.suite);
        if !k.ccs {
            cfg.session_id = vec![];
        }
        let mut p = Cli::new(cfg);
        let ch = edit(0, p.ch.clone());
        // another key share than that of the reference
        if matches!(t, Tamper::Inside(0, b, _) if *b + 32 >= ch.len()) {
            keys = false;
        }
        p.set_hello(ch);
        if let Tamper::Flip(n, _) = t {
            // the hello of the wire is not the one of the reference
            keys = *n >= 5 + p.ch.len();
        }
        let peer = cell(p);
        let auth = k.auth;
        let mut phase = 0;
        let sock = client_sock(&peer, move |p: &mut Cli| {
            if phase == 0 {
                phase = 1;
                p.sent_hello();
                let mut d = extra(0, None);
                d.extend(plain_rec(HANDSHAKE, &p.ch.clone()));
                p.out.push_back(d);
            } else if phase == 1 && p.wait == Wait::Done {
                phase = 2;
                let mut d = vec![];
                d.extend(extra(1, p.wr.as_mut()));
                if !p.cfg.session_id.is_empty() {
                    d.extend(plain_rec(CCS, &[1]));
                }
                let list = vec![pki.client.cert.clone()];
                let a = auth.then_some((&list[..], &pki.client.key));
                let ms = p.honest_messages(a);
                for (i, m) in ms.into_iter().enumerate() {
                    d.extend(extra(2 + i, p.wr.as_mut()));
                    let m = edit(1 + i, m);
                    d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                p.to_app();
                d.extend(extra(9, p.wr.as_mut()));
                p.out.push_back(d);
            } else if phase == 1 && p.got_alert.is_some() {
                p.eof = true;
            }
        });
        wire(&sock);
        let mut b = server_builder(pki);
        if k.auth {
            b = b.add_client_cert_ca(pki.ca.cert_path.clone());
        }
        let r = accept(b, &sock);
        let (res, s) = (r.name(), r.ok());
        flush_client(&sock, &peer);
        let done_at = s.is_some().then(|| lk(&sock).sent.len());
        Run { live: Live::S(s, sock, peer), res, done_at, hello_done, keys, written: vec![] }
    } else {
        let mut cfg = srv_cfg(pki, k.suite);
        cfg.request = k.auth.then(|| b"context".to_vec());
        let mut p = Srv::new(cfg);
        p.client_key = k.auth.then_some(pki.client.public);
        let hello_len = 4 + 2 + 32 + 33 + 2 + 1 + 2 + 6 + 40;
        match t {
            Tamper::Flip(n, _) => {
                keys = *n >= 5 + hello_len;
                hello_done = keys;
            }
            Tamper::Cut(n) => hello_done = *n >= 5 + hello_len,
            Tamper::Insert(0, _) => hello_done = false,
            Tamper::Inside(0, ..) => {
                hello_done = false;
                keys = false;
            }
            _ => (),
        }
        let peer = cell(p);
        let ccs = k.ccs;
        let mut phase = 0;
        let sock = server_sock(&peer, move |p: &mut Srv| {
            if phase == 0 && !p.ch.is_empty() {
                phase = 1;
                let mut d = extra(0, None);
                let b = edit(0, hs(SERVER_HELLO, &p.sh_body()));
                assert_eq!(b.len(), hello_len);
                let m = p.m_hello_with(b);
                d.extend(plain_rec(HANDSHAKE, &m));
                d.extend(extra(1, p.wr.as_mut()));
                if ccs {
                    d.extend(plain_rec(CCS, &[1]));
                }
                for (i, m) in p.honest_messages().into_iter().enumerate() {
                    d.extend(extra(2 + i, p.wr.as_mut()));
                    let m = edit(1 + i, m);
                    d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                p.to_app();
                d.extend(extra(9, p.wr.as_mut()));
                p.out.push_back(d);
            }
        });
        wire(&sock);
        let mut b = CB::new();
        if k.auth {
            b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
        }
        let r = connect(b, &sock);
        let (res, s) = (r.name(), r.ok());
        flush_server(&sock, &peer);
        let done_at = s.is_some().then(|| lk(&sock).sent.len());
        // the hello was not read if the own hello could not be sent
        if lk(&sock).total_rx < 5 + hello_len {
            hello_done = false;
        }
        Run { live: Live::C(s, sock, peer), res, done_at, hello_done, keys, written: vec![] }
    }
}
impl Run {
    fn sock(&self) -> Sock {
        match &self.live {
            Live::S(_, s, _) | Live::C(_, s, _) => s.clone(),
        }
    }
    fn stream(&mut self) -> Option<&mut anothertls::net::TlsStream> {
        match &mut self.live {
            Live::S(s, ..) | Live::C(s, ..) => s.as_mut(),
        }
    }
    /// Give a record of the peer to the code under test
    fn peer(&self, f: impl FnOnce(&mut Dir) -> Vec<u8>) {
        match &self.live {
            Live::S(_, _, p) => {
                let mut p = lk(p);
                let d = f(p.wr.as_mut().unwrap());
                p.out.push_back(d);
            }
            Live::C(_, _, p) => {
                let mut p = lk(p);
                let d = f(p.wr.as_mut().unwrap());
                p.out.push_back(d);
            }
        }
    }
    fn write(&mut self, n: usize) -> String {
        let at = lk(&self.sock()).sent.len();
        // never the same byte sequence twice
        let mut d: Vec<u8> = vec![];
        let mut i = self.written.len() as u64 * 1_000_000;
        while d.len() < n {
            d.extend(mix(0xC23 + i).to_be_bytes());
            i += 1;
        }
        d.truncate(n);
        match self.stream() {
            None => "no stream".into(),
            Some(s) => {
                let r = tls_write(s, &d).name();
                self.written.push((at, d));
                r
            }
        }
    }
    fn read(&mut self) -> String {
        let mut b = [0; 500];
        match self.stream() {
            None => "no stream".into(),
            Some(s) => tls_read(s, &mut b).name(),
        }
    }
    fn view(&self, pki: &Pki) -> View {
        let sock = self.sock();
        let s = lk(&sock);
        let mut tears = vec![];
        let mut at = 0;
        for i in &s.io {
            match i {
                Io::Send(n) => at += n,
                Io::SendErr(e) if *e != 4 => {
                    if tears.last() != Some(&at) {
                        tears.push(at);
                    }
                }
                _ => (),
            }
        }
        let (ch, sk, sched, app, shared, server) = match &self.live {
            Live::S(_, _, p) => {
                let p = lk(p);
                (p.ch.clone(), p.cfg.sk, p.sched.clone(), p.app.clone(), p.shared.clone(), true)
            }
            Live::C(_, _, p) => {
                let p = lk(p);
                (p.ch.clone(), p.cfg.sk, p.sched.clone(), p.app.clone(), p.shared.clone(), false)
            }
        };
        let mut secrets = vec![("the shared secret", shared)];
        if server {
            secrets.push(("the private key", u_to_be(&pki.server.key).to_vec()));
            secrets.push(("the certificate", pki.server.cert[..].to_vec()));
        } else {
            secrets.push(("the private key", u_to_be(&pki.client.key).to_vec()));
            secrets.push(("the certificate", pki.client.cert[..].to_vec()));
        }
        View {
            server,
            sent: s.sent.clone(),
            tears,
            done_at: self.done_at,
            ch,
            sk,
            sched,
            app,
            hello_done: self.hello_done,
            keys: self.keys,
            written: self.written.clone(),
            secrets,
            rng: with_rng(|r| r.out.clone()),
        }
    }
    /// Judge everything; the complete data if nothing went wrong
    fn judge(&self, pki: &Pki, c: &mut Case, complete: bool) -> Found {
        let v = self.view(pki);
        let f = judge(&v, c);
        if complete && v.keys {
            let want: Vec<u8> = v.written.iter().flat_map(|w| w.1.clone()).collect();
            c.check(f.data == want, format!("{} of the {} bytes written are on the wire", f.data.len(), want.len()));
        }
        f
    }
}

fn main() {
    let chk = Check::start(
        "C23",
        "model_checking",
        "every byte given to the socket is parsed, every protected record is opened with an independent key schedule: own direction, handshake keys until the own Finished, application keys after it, sequence numbers 0,1,2..; nothing but the hello, ChangeCipherSpec and alerts before the ServerHello is unprotected; no 8 bytes of application data, certificates, secrets, keys or random numbers are on the wire",
    );
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));

    let mut confs = vec![];
    for server in [true, false] {
        for suite in SUITES {
            for auth in [false, true] {
                for ccs in [true, false] {
                    confs.push(Conf { server, suite, auth, ccs });
                }
            }
        }
    }
    // ------------------------------------------------ complete
    let big = 1 << 14;
    let sizes = [0, 1, 15, 16, 17, 100, big - 1, big, big + 1, 2 * big - 1, 2 * big, 2 * big + 1, 3 * big + 5, 100_000];
    chk.each("complete", &confs, |k, c| {
        for n in sizes {
            if !c.begin(format!("{}.{n}", k.name())) {
                continue;
            }
            let mut r = start(pki, k, &Tamper::None, 1, &|_| ());
            c.check(r.res == "ok", format!("the handshake fails: {}", r.res));
            c.check(r.write(n) == "ok", "the write fails");
            c.check(r.write(33) == "ok", "the second write fails");
            let f = r.judge(pki, c, true);
            c.check(f.app_phase, "no Finished on the wire");
            c.validated();
            c.outcome("complete");
        }
    });
    // ------------------------------------------------ ended and changed at every byte
    let mut v = vec![];
    for k in &confs {
        let r = start(pki, k, &Tamper::None, 2, &|_| ());
        let total = lk(&r.sock()).total_rx;
        for n in 0..=total {
            v.push((k.clone(), n));
        }
    }
    chk.each("ended", &v, |(k, n), c| {
        if c.begin(format!("{}.{n}", k.name())) {
            let mut r = start(pki, k, &Tamper::Cut(*n), 2, &|_| ());
            r.write(40);
            r.read();
            r.write(40);
            r.judge(pki, c, false);
            c.outcome(format!("ended: {}", r.res));
        }
    });
    let masks: Vec<u8> = if thorough { (0..8).map(|b| 1 << b).chain([0xff]).collect() } else { vec![1, 0x80] };
    chk.each("changed", &v, |(k, n), c| {
        for x in &masks {
            if c.begin(format!("{}.{n}.{x}", k.name())) {
                let mut r = start(pki, k, &Tamper::Flip(*n, *x), 2, &|_| ());
                r.write(40);
                r.read();
                r.write(40);
                r.judge(pki, c, false);
                c.outcome(format!("changed: {}", r.res));
            }
        }
    });
    // ------------------------------------------------ changed before the protection
    let mut v = vec![];
    for k in &confs {
        if !k.ccs && !thorough {
            continue;
        }
        // lengths of the messages of the peer
        let lens: Vec<usize> = if k.server {
            let mut cfg = cli_cfg(pki, k.suite);
            if !k.ccs {
                cfg.session_id = vec![];
            }
            let fin = 4 + if k.suite == AES256 { 48 } else { 32 };
            let mut l = vec![cfg.hello().len()];
            if k.auth {
                l.extend([4 + 1 + 3 + 3 + pki.client.cert.len() + 2, 80]);
            } else {
                let _ = fin;
            }
            l.push(fin);
            l
        } else {
            let mut l = vec![4 + 2 + 32 + 33 + 2 + 1 + 2 + 6 + 40, 6];
            if k.auth {
                l.push(4 + 1 + 7 + 2 + 4 + 2 + 2);
            }
            l.extend([4 + 1 + 3 + 3 + pki.server.cert.len() + 2, 80, 4 + if k.suite == AES256 { 48 } else { 32 }]);
            l
        };
        for (i, l) in lens.iter().enumerate() {
            for b in 0..*l {
                v.push((k.clone(), i, b));
            }
        }
    }
    chk.each("changed-inside", &v, |(k, i, b), c| {
        for x in &masks {
            if c.begin(format!("{}.{i}.{b}.{x}", k.name())) {
                let mut r = start(pki, k, &Tamper::Inside(*i, *b, *x), 3, &|_| ());
                r.write(40);
                r.read();
                r.write(40);
                r.judge(pki, c, false);
                c.outcome(format!("changed inside: {}", r.res));
            }
        }
    });
    // ------------------------------------------------ records that do not belong there
    let mut v = vec![];
    for k in &confs {
        for pos in [0, 1, 2, 3, 4, 5, 6, 9] {
            for what in INSERT {
                v.push((k.clone(), pos, what));
            }
        }
    }
    chk.each("inserted", &v, |(k, pos, what), c| {
        if c.begin(format!("{}.{pos}.{what}", k.name())) {
            let mut r = start(pki, k, &Tamper::Insert(*pos, what), 4, &|_| ());
            r.write(40);
            r.read();
            r.write(40);
            r.read();
            r.judge(pki, c, false);
            c.nontrivial((k.server, pos, what, &r.res));
            c.outcome(format!("inserted: {}", r.res));
        }
    });
    // ------------------------------------------------ faults of the send calls
    let mut v = vec![];
    for k in &confs {
        if !k.ccs && !thorough {
            continue;
        }
        let mut r = start(pki, k, &Tamper::None, 5, &|_| ());
        r.write(60);
        r.write(big + 9);
        let calls = lk(&r.sock()).send_calls;
        for n in 0..=calls {
            v.push((k.clone(), n));
        }
    }
    let after = |r: &mut Run| {
        r.write(60);
        r.write(big + 9);
        // an alert has to be sent now
        r.peer(|d| {
            let mut b = d.seal(APPDATA, b"changed");
            let l = b.len();
            b[l - 1] ^= 1;
            b
        });
        r.read();
        r.write(61);
        r.read();
        r.write(62);
    };
    chk.each("send-faults", &v, |(k, n), c| {
        let list: Vec<(String, Vec<Fault>)> = [EPIPE, EAGAIN, ECONNRESET, 4, 5]
            .iter()
            .map(|e| (format!("errno{e}"), vec![Fault::Errno(*e)]))
            .chain([1, 4, 5, 6, 20, 100].iter().flat_map(|s| {
                vec![
                    (format!("short{s}"), vec![Fault::Short(*s)]),
                    (format!("short{s}-broken"), vec![Fault::Short(*s), Fault::Errno(EPIPE)]),
                    (format!("short{s}-again"), vec![Fault::Short(*s), Fault::Errno(EAGAIN)]),
                    (format!("short{s}-interrupted"), vec![Fault::Short(*s), Fault::Errno(4)]),
                ]
            }))
            .collect();
        for (name, fs) in list {
            if c.begin(format!("{}.{n}.{name}", k.name())) {
                let faults: Vec<(usize, Fault)> = fs.iter().enumerate().map(|(i, f)| (n + i, *f)).collect();
                let harmless = !fs.iter().any(|f| matches!(f, Fault::Errno(e) if *e != 4));
                let mut r = start(pki, k, &Tamper::None, 5, &|s| s.send_faults = faults.clone());
                if r.done_at.is_some() {
                    after(&mut r);
                }
                let f = r.judge(pki, c, false);
                if harmless {
                    c.check(r.res == "ok", format!("the handshake fails: {}", r.res));
                    c.check(f.data.len() == 60 + big + 9, format!("{} bytes are on the wire", f.data.len()));
                }
                c.outcome(format!("send fault: {}", r.res));
            }
        }
    });
    let mut v = vec![];
    for k in &confs {
        if !k.ccs && !thorough {
            continue;
        }
        let mut r = start(pki, k, &Tamper::None, 6, &|_| ());
        let hs_end = lk(&r.sock()).sent.len();
        r.write(60);
        r.write(61);
        let end = lk(&r.sock()).sent.len();
        let step = if thorough { 1 } else { 3 };
        for n in (0..=end).filter(|n| n % step == 0 || *n > hs_end) {
            v.push((k.clone(), n));
        }
    }
    chk.each("send-ends", &v, |(k, n), c| {
        if c.begin(format!("{}.{n}", k.name())) {
            let mut r = start(pki, k, &Tamper::None, 6, &|s| s.send_cut = Some((*n, EPIPE)));
            if r.done_at.is_some() {
                r.write(60);
                r.write(61);
                lk(&r.sock()).send_cut = None;
                // the socket works again
                after(&mut r);
            } else {
                lk(&r.sock()).send_cut = None;
            }
            r.judge(pki, c, false);
            c.outcome(format!("send ends: {}", r.res));
        }
    });
    // ------------------------------------------------ words after the handshake
    let alphabet: &[&'static str] = &["write40", "write0", "write-big", "good", "bad", "alert", "close", "plain", "read", "fault", "short"];
    for server in [true, false] {
        for suite in SUITES {
            let k = Conf { server, suite, auth: false, ccs: true };
            let depth = if thorough || (suite == AES128) == server && suite != AES256 { 4 } else { 3 };
            words(&chk, &format!("words-{}", k.name()), alphabet, depth, |w, c| {
                let mut r = start(pki, &k, &Tamper::None, 7, &|_| ());
                let mut healthy = true;
                for a in w {
                    match *a {
                        "write40" => drop(r.write(40)),
                        "write0" => drop(r.write(0)),
                        "write-big" => drop(r.write(big + 1)),
                        "good" => {
                            r.peer(|d| d.seal(APPDATA, b"data of the peer"));
                            r.read();
                        }
                        "bad" => {
                            r.peer(|d| {
                                let mut b = d.seal(APPDATA, b"data of the peer");
                                b[7] ^= 1;
                                b
                            });
                            r.read();
                            healthy = false;
                        }
                        "alert" => {
                            r.peer(|d| d.seal(ALERT, &[2, 40]));
                            r.read();
                            healthy = false;
                        }
                        "close" => {
                            r.peer(|d| d.seal(ALERT, &[1, 0]));
                            r.read();
                        }
                        "plain" => {
                            r.peer(|_| plain_rec(APPDATA, b"data of the peer"));
                            r.read();
                            healthy = false;
                        }
                        "read" => drop(r.read()),
                        "fault" => {
                            let s = r.sock();
                            let mut s = lk(&s);
                            let n = s.send_calls;
                            s.send_faults.push((n, Fault::Errno(EPIPE)));
                            healthy = false;
                        }
                        "short" => {
                            let s = r.sock();
                            let mut s = lk(&s);
                            let n = s.send_calls;
                            s.send_faults.push((n, Fault::Short(7)));
                            s.send_faults.push((n + 1, Fault::Errno(EAGAIN)));
                            healthy = false;
                        }
                        _ => unreachable!(),
                    }
                }
                r.judge(pki, c, healthy);
                c.validated();
                c.outcome(if healthy { "healthy" } else { "disturbed" });
                End::Waiting
            });
        }
    }
    // ------------------------------------------------ many records
    let n = if thorough { 140_000 } else { 66_000 };
    chk.each("long", &confs.iter().filter(|k| k.ccs && !k.auth).cloned().collect::<Vec<_>>(), |k, c| {
        if c.begin(k.name()) {
            let mut r = start(pki, k, &Tamper::None, 8, &|_| ());
            for i in 0..n {
                if i % 1000 == 17 {
                    // records of the other direction do not count
                    r.peer(|d| d.seal(APPDATA, b"data of the peer"));
                    r.read();
                }
                if r.write(1) != "ok" {
                    c.fail(format!("write {i} fails"));
                    break;
                }
            }
            r.judge(pki, c, true);
            c.outcome("many records");
        }
    });
    // ------------------------------------------------ all sequence numbers
    // the numbers themselves, without records: each nonce is the iv xor the number
    #[cfg(feature = "keys")]
    {
    let limit: u64 = if thorough { (1 << 32) + 1000 } else { (1 << 24) + 1000 };
    chk.range("sequence-numbers", 3, |i, c| {
        if (thorough || i == 0) && c.begin(format!("{i}")) {
            let hkdf = anothertls::hash::hkdf::Hkdf::from_prk(anothertls::hash::HashType::SHA256, vec![i as u8 * 0x55; 32]);
            let Some(mut k) = anothertls::net::key_schedule::Key::from_hkdf(&hkdf, 16, 12) else {
                c.fail("no key");
                return;
            };
            let mut iv = [0; 16];
            iv[4..].copy_from_slice(&k.iv);
            let iv = u128::from_be_bytes(iv);
            let mut want;
            for n in 0..limit {
                want = (iv ^ n as u128).to_be_bytes();
                let got = k.get_per_record_nonce();
                if got[..] != want[4..] {
                    c.fail(format!("the nonce of record {n} is {got:x?}, not {:x?}", &want[4..]));
                    break;
                }
                if n & 0xfffff == 0 {
                    c.alive();
                }
            }
            c.nontrivial(("seq", i));
            c.outcome("all numbers");
        }
    });
    }
    // ------------------------------------------------ streams without a handshake
    let ops = ["write", "write-big", "read", "unprotect"];
    let mut words4 = vec![vec![]];
    let mut list: Vec<Vec<&str>> = vec![];
    for _ in 0..4 {
        let mut next = vec![];
        for w in &words4 {
            for o in ops {
                let mut x: Vec<&str> = w.clone();
                x.push(o);
                next.push(x);
            }
        }
        list.extend(next.clone());
        words4 = next;
    }
    chk.each("no-keys", &list, |w, c| {
        if c.begin(format!("raw.{}", w.join("."))) {
            fresh(9);
            let sock: Sock = cell(VSock::new(Box::new(|_: &mut Vec<u8>| Step::Data(plain_rec(APPDATA, b"data of the peer")))));
            let mut s = anothertls::net::TlsStream::new(virtual_stream(sock.clone()));
            let mut set = HashSet::new();
            for (i, o) in w.iter().enumerate() {
                let d: Vec<u8> = (0..if *o == "write" { 10 } else { 300 }).flat_map(|j| mix((i * 1000 + j) as u64).to_be_bytes()).collect();
                windows(&d, &mut set);
                match *o {
                    "read" => {
                        let mut b = [0; 100];
                        c.check(!tls_read(&mut s, &mut b).is_ok(), "a read without keys succeeds");
                    }
                    "unprotect" => s.set_protection(None),
                    _ => c.check(!tls_write(&mut s, &d).is_ok(), "a write without keys succeeds"),
                }
            }
            let sent = lk(&sock).sent.clone();
            c.check(find(&sent, &set, &|_| false).is_none(), "application data is sent without protection");
            c.check(sent.iter().filter(|b| **b == APPDATA).count() == 0 || sent.first() == Some(&ALERT), format!("sent: {}", to_hex(&sent[..sent.len().min(40)])));
            c.outcome("without keys");
        }
        // after a handshake
        for server in [true, false] {
            if c.begin(format!("{server}.{}", w.join("."))) {
                let k = Conf { server, suite: AES128, auth: false, ccs: true };
                let mut r = start(pki, &k, &Tamper::None, 9, &|_| ());
                let mut off = false;
                for o in w {
                    let before = lk(&r.sock()).sent.len();
                    match *o {
                        "write" => drop(r.write(80)),
                        "write-big" => drop(r.write(2400)),
                        "read" if !off => {
                            r.peer(|d| d.seal(APPDATA, b"data of the peer"));
                            r.read();
                        }
                        "read" => (),
                        _ => {
                            r.stream().unwrap().set_protection(None);
                            off = true;
                        }
                    }
                    c.check(!off || lk(&r.sock()).sent.len() == before, "something is sent without keys");
                }
                r.judge(pki, c, false);
                c.outcome("keys removed");
            }
        }
    });
    chk.finish()
}
