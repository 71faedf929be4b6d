//! The code under test, driven through its public interface only

use crate::check::caught;
use crate::env::*;
use crate::pki::Pki;
use crate::refc::U;
use crate::tls::*;
use anothertls::net::alert::TlsError;
use anothertls::net::TlsStream;
use anothertls::{ClientConfigBuilder, ClientConnection, ServerConfigBuilder, ServerConnection};
use std::sync::{Arc, Mutex};

pub enum Res<T> {
    Ok(T),
    Err(TlsError),
    Panic(String),
}
impl<T> Res<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
    pub fn name(&self) -> String {
        match self {
            Res::Ok(_) => "ok".into(),
            Res::Err(e) => format!("{e:?}"),
            Res::Panic(p) => format!("panic: {p}"),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Res::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn code(&self) -> Option<u8> {
        match self {
            Res::Err(e) => Some(e.as_u8()),
            _ => None,
        }
    }
}
fn res<T>(r: Result<Result<T, TlsError>, String>) -> Res<T> {
    match r {
        Ok(Ok(v)) => Res::Ok(v),
        Ok(Err(e)) => Res::Err(e),
        Err(p) => Res::Panic(p),
    }
}

pub type Cell<T> = Arc<Mutex<T>>;
pub type Sock = Arc<Mutex<VSock>>;

pub fn cell<T>(t: T) -> Cell<T> {
    Arc::new(Mutex::new(t))
}

/// A socket whose other side is the reference client. The plan is called when the code under
/// test waits for data and nothing is queued.
pub fn client_sock(peer: &Cell<Cli>, mut plan: impl FnMut(&mut Cli) + Send + 'static) -> Sock {
    let peer = peer.clone();
    cell(VSock::new(Box::new(move |tx: &mut Vec<u8>| {
        let mut p = lk(&peer);
        p.feed(&std::mem::take(tx));
        if p.out.is_empty() {
            plan(&mut p);
        }
        match p.out.pop_front() {
            Some(d) => Step::Data(d),
            None if p.eof => Step::Eof,
            None => {
                p.starved += 1;
                Step::Err(EAGAIN)
            }
        }
    })))
}
pub fn server_sock(peer: &Cell<Srv>, mut plan: impl FnMut(&mut Srv) + Send + 'static) -> Sock {
    let peer = peer.clone();
    cell(VSock::new(Box::new(move |tx: &mut Vec<u8>| {
        let mut p = lk(&peer);
        p.feed(&std::mem::take(tx));
        if p.out.is_empty() {
            plan(&mut p);
        }
        match p.out.pop_front() {
            Some(d) => Step::Data(d),
            None if p.eof => Step::Eof,
            None => {
                p.starved += 1;
                Step::Err(EAGAIN)
            }
        }
    })))
}

pub type SB = ServerConfigBuilder;
pub type CB = ClientConfigBuilder;

pub fn server_builder(pki: &Pki) -> SB {
    ServerConfigBuilder::new()
        .add_cert_pem(pki.server.cert_path.clone())
        .add_privkey_pem(pki.server.key_path.clone())
}

/// accept() on a listener with this one connection
pub fn accept(b: SB, sock: &Sock) -> Res<TlsStream> {
    let (fd, l) = virtual_listener();
    enqueue(fd, sock.clone());
    res(caught(move || {
        let cfg = b.build().expect("config");
        let conn = ServerConnection::new(l, cfg);
        conn.accept().map(|x| x.0)
    }))
}
pub fn connect(b: CB, sock: &Sock) -> Res<TlsStream> {
    let s = virtual_stream(sock.clone());
    res(caught(move || {
        let cfg = b.build().expect("config");
        ClientConnection::connect(s, &cfg)
    }))
}
pub fn tls_read(s: &mut TlsStream, buf: &mut [u8]) -> Res<usize> {
    res(caught(|| s.tls_read(buf)))
}
pub fn tls_write(s: &mut TlsStream, data: &[u8]) -> Res<()> {
    res(caught(|| s.tls_write(data)))
}
/// Give what was sent since the last read to the peer
pub fn flush_client(sock: &Sock, peer: &Cell<Cli>) {
    let tx = std::mem::take(&mut lk(sock).tx);
    lk(peer).feed(&tx);
}
pub fn flush_server(sock: &Sock, peer: &Cell<Srv>) {
    let tx = std::mem::take(&mut lk(sock).tx);
    lk(peer).feed(&tx);
}

// ------------------------------------------------------------------ honest plans

/// Start of every case: fresh random stream and clock
pub fn fresh(seed: u64) {
    // the keys of hash maps are taken from the generator once in every thread
    let _ = std::collections::hash_map::RandomState::new();
    seed_rng(seed);
    set_clock(Some(crate::pki::NOW));
    set_vfile(None);
}

pub type Auth = Option<(Vec<Vec<u8>>, U)>;

/// The plan of a client which follows the standard: ClientHello, then its flight in one go
pub fn honest_client(auth: Auth) -> impl FnMut(&mut Cli) + Send + 'static {
    let mut phase = 0;
    move |p: &mut Cli| {
        if phase == 0 {
            phase = 1;
            p.sent_hello();
            let r = plain_rec(HANDSHAKE, &p.ch.clone());
            p.out.push_back(r);
        } else if phase == 1 && p.wait == Wait::Done {
            phase = 2;
            let mut d = vec![];
            if !p.cfg.session_id.is_empty() {
                d.extend(plain_rec(CCS, &[1]));
            }
            let a = auth.as_ref().map(|a| (&a.0[..], &a.1));
            for m in p.honest_messages(a) {
                d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
            }
            p.to_app();
            p.out.push_back(d);
        }
    }
}
/// The plan of a server which follows the standard
pub fn honest_server() -> impl FnMut(&mut Srv) + Send + 'static {
    let mut phase = 0;
    move |p: &mut Srv| {
        if phase == 0 && !p.ch.is_empty() {
            phase = 1;
            let m = p.m_hello();
            let mut d = plain_rec(HANDSHAKE, &m);
            d.extend(plain_rec(CCS, &[1]));
            for m in p.honest_messages() {
                d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
            }
            p.to_app();
            p.out.push_back(d);
        }
    }
}

/// A completed connection between the server under test and the reference client
pub struct SrvSession {
    pub stream: TlsStream,
    pub sock: Sock,
    pub peer: Cell<Cli>,
}
pub fn cli_cfg(pki: &Pki, suite: u16) -> CliCfg {
    let mut c = CliCfg::new(&[suite]);
    c.server_cert = Some((pki.server.cert.clone(), pki.server.public));
    c
}
pub fn srv_cfg(pki: &Pki, suite: u16) -> SrvCfg {
    SrvCfg {
        suite,
        random: *b"server random for the reference!",
        sk: *b"x25519 secret of the ref. server",
        cert: vec![pki.server.cert.clone()],
        key: pki.server.key,
        request: None,
    }
}
pub fn srv_session(pki: &Pki, suite: u16) -> Result<SrvSession, String> {
    let peer = cell(Cli::new(cli_cfg(pki, suite)));
    let sock = client_sock(&peer, honest_client(None));
    let r = accept(server_builder(pki), &sock);
    flush_client(&sock, &peer);
    let bad = lk(&peer).bad.clone();
    if !bad.is_empty() {
        return Err(format!("honest handshake with the server: {bad:?}"));
    }
    match r {
        Res::Ok(stream) => Ok(SrvSession { stream, sock, peer }),
        r => Err(format!("honest handshake with the server failed: {}", r.name())),
    }
}
pub struct CliSession {
    pub stream: TlsStream,
    pub sock: Sock,
    pub peer: Cell<Srv>,
}
pub fn cli_session(pki: &Pki, suite: u16) -> Result<CliSession, String> {
    let peer = cell(Srv::new(srv_cfg(pki, suite)));
    let sock = server_sock(&peer, honest_server());
    let r = connect(CB::new(), &sock);
    flush_server(&sock, &peer);
    let bad = lk(&peer).bad.clone();
    if !bad.is_empty() {
        return Err(format!("honest handshake with the client: {bad:?}"));
    }
    match r {
        Res::Ok(stream) => Ok(CliSession { stream, sock, peer }),
        r => Err(format!("honest handshake with the client failed: {}", r.name())),
    }
}

/// Either side of the code under test with its reference peer
pub enum Sess {
    S(SrvSession),
    C(CliSession),
}
impl Sess {
    pub fn new(pki: &Pki, server: bool, suite: u16, seed: u64) -> Result<Sess, String> {
        fresh(seed);
        Ok(if server { Sess::S(srv_session(pki, suite)?) } else { Sess::C(cli_session(pki, suite)?) })
    }
    pub fn push(&self, d: Vec<u8>) {
        match self {
            Sess::S(s) => lk(&s.peer).out.push_back(d),
            Sess::C(s) => lk(&s.peer).out.push_back(d),
        }
    }
    pub fn end(&self) {
        match self {
            Sess::S(s) => lk(&s.peer).eof = true,
            Sess::C(s) => lk(&s.peer).eof = true,
        }
    }
    pub fn starved(&self) -> usize {
        match self {
            Sess::S(s) => lk(&s.peer).starved,
            Sess::C(s) => lk(&s.peer).starved,
        }
    }
    pub fn stream(&mut self) -> &mut TlsStream {
        match self {
            Sess::S(s) => &mut s.stream,
            Sess::C(s) => &mut s.stream,
        }
    }
    pub fn wr(&self) -> Dir {
        match self {
            Sess::S(s) => lk(&s.peer).wr.clone().unwrap(),
            Sess::C(s) => lk(&s.peer).wr.clone().unwrap(),
        }
    }
    /// The direction of the reader itself
    pub fn rd(&self) -> Dir {
        match self {
            Sess::S(s) => lk(&s.peer).rd.clone().unwrap(),
            Sess::C(s) => lk(&s.peer).rd.clone().unwrap(),
        }
    }
    pub fn sched(&self) -> Sched {
        match self {
            Sess::S(s) => lk(&s.peer).sched.clone().unwrap(),
            Sess::C(s) => lk(&s.peer).sched.clone().unwrap(),
        }
    }
    /// n records were made with a copy of wr()
    pub fn advance(&self, n: u64) {
        match self {
            Sess::S(s) => lk(&s.peer).wr.as_mut().unwrap().seq += n,
            Sess::C(s) => lk(&s.peer).wr.as_mut().unwrap().seq += n,
        }
    }
    pub fn sock(&self) -> Sock {
        match self {
            Sess::S(s) => s.sock.clone(),
            Sess::C(s) => s.sock.clone(),
        }
    }
    /// Protect and queue application data of the peer
    pub fn send(&self, typ: u8, data: &[u8], pad: usize) {
        match self {
            Sess::S(s) => {
                let mut p = lk(&s.peer);
                let r = p.wr.as_mut().unwrap().seal_padded(typ, data, pad);
                p.out.push_back(r)
            }
            Sess::C(s) => {
                let mut p = lk(&s.peer);
                let r = p.wr.as_mut().unwrap().seal_padded(typ, data, pad);
                p.out.push_back(r)
            }
        }
    }
    /// Give what was written to the peer, and take the application data it got since the last
    /// call. An error if the peer found something wrong.
    pub fn received(&mut self) -> Result<Vec<u8>, String> {
        let (ev, bad, partial) = match self {
            Sess::S(s) => {
                flush_client(&s.sock, &s.peer);
                let mut p = lk(&s.peer);
                (std::mem::take(&mut p.ev), p.bad.clone(), p.partial())
            }
            Sess::C(s) => {
                flush_server(&s.sock, &s.peer);
                let mut p = lk(&s.peer);
                (std::mem::take(&mut p.ev), p.bad.clone(), p.partial())
            }
        };
        if !bad.is_empty() {
            return Err(format!("the peer: {bad:?}"));
        }
        if partial > 0 {
            return Err("an incomplete record was sent".into());
        }
        let mut o = vec![];
        for e in ev {
            match e {
                Ev::App(d) => o.extend(d),
                Ev::Hs(_) | Ev::Ccs => (),
                e => return Err(format!("the peer got {e:?}")),
            }
        }
        Ok(o)
    }
    /// A record written by the code under test
    pub fn own(&mut self, data: &[u8]) -> Vec<u8> {
        let sock = match self {
            Sess::S(s) => s.sock.clone(),
            Sess::C(s) => s.sock.clone(),
        };
        let n = lk(&sock).sent.len();
        let _ = tls_write(self.stream(), data);
        let r = lk(&sock).sent[n..].to_vec();
        r
    }
}

/// Read until there is an error; what was read, the error
pub fn drain(s: &mut Sess, buf: usize) -> (Vec<u8>, String, bool) {
    let mut got = vec![];
    let mut b = vec![0; buf];
    let mut empty = 0;
    loop {
        let before = s.starved();
        match tls_read(s.stream(), &mut b) {
            Res::Ok(n) => {
                got.extend_from_slice(&b[..n]);
                if n == 0 {
                    empty += 1;
                    if empty > 50 {
                        return (got, "reads nothing again and again".into(), false);
                    }
                }
            }
            r => return (got, r.name(), s.starved() > before),
        }
    }
}
