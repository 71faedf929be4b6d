//! Helpers of the demonstrations: the library behind real loopback sockets, the reference peer
//! at the other end.
#![allow(dead_code)]
pub use crate::pki::*;
pub use crate::refc::*;
pub use crate::tls::*;
pub use anothertls::net::alert::TlsError;
pub use anothertls::net::TlsStream;
pub use anothertls::{ClientConfigBuilder, ClientConnection, ServerConfigBuilder, ServerConnection};
pub use std::io::{Read, Write};
pub use std::net::{TcpListener, TcpStream};
use std::time::Duration;

pub const AES128: u16 = 0x1301;
pub const AES256: u16 = 0x1302;
pub const CHACHA: u16 = 0x1303;

/// Run the server with the configuration for one connection, with the result do f
pub fn serve<T: Send + 'static>(
    cfg: ServerConfigBuilder,
    f: impl FnOnce(Result<TlsStream, TlsError>) -> T + Send + 'static,
) -> (TcpStream, std::thread::JoinHandle<T>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let h = std::thread::spawn(move || {
        let c = ServerConnection::new(l, cfg.build().unwrap());
        f(c.accept().map(|x| x.0))
    });
    (TcpStream::connect(addr).unwrap(), h)
}
/// Run the client for one connection, with the result do f. Returns its peer socket.
pub fn dial<T: Send + 'static>(
    cfg: ClientConfigBuilder,
    f: impl FnOnce(Result<TlsStream, TlsError>) -> T + Send + 'static,
) -> (TcpStream, std::thread::JoinHandle<T>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let h = std::thread::spawn(move || {
        let s = TcpStream::connect(addr).unwrap();
        f(ClientConnection::connect(s, &cfg.build().unwrap()))
    });
    (l.accept().unwrap().0, h)
}
pub fn server_cfg(pki: &Pki) -> ServerConfigBuilder {
    ServerConfigBuilder::new()
        .add_cert_pem(pki.server.cert_path.clone())
        .add_privkey_pem(pki.server.key_path.clone())
}
fn pump(s: &mut TcpStream, mut feed: impl FnMut(&[u8]) -> bool) -> bool {
    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let mut buf = [0; 65536];
    loop {
        if feed(&[]) {
            return true;
        }
        match s.read(&mut buf) {
            Ok(0) | Err(_) => return false,
            Ok(n) => {
                feed(&buf[..n]);
            }
        }
    }
}
/// Receive until the condition holds; false if the other side closed or is silent
pub fn until(s: &mut TcpStream, p: &mut Cli, cond: impl Fn(&Cli) -> bool) -> bool {
    pump(s, |d| {
        p.feed(d);
        cond(p)
    })
}
pub fn until_srv(s: &mut TcpStream, p: &mut Srv, cond: impl Fn(&Srv) -> bool) -> bool {
    pump(s, |d| {
        p.feed(d);
        cond(p)
    })
}
/// Send the ClientHello and receive the flight of the server
pub fn hello(s: &mut TcpStream, p: &mut Cli) -> bool {
    p.sent_hello();
    let _ = s.write_all(&plain_rec(HANDSHAKE, &p.ch.clone()));
    until(s, p, |p| p.wait == Wait::Done || p.got_alert.is_some()) && p.wait == Wait::Done
}
/// Send handshake messages, each in an own record
pub fn send_hs(s: &mut TcpStream, p: &mut Cli, ms: &[Vec<u8>]) {
    let mut d = vec![];
    for m in ms {
        d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, m));
    }
    let _ = s.write_all(&d);
}
/// The whole honest handshake with the server
pub fn handshake(s: &mut TcpStream, p: &mut Cli, auth: Option<(&[Vec<u8>], &U)>) -> bool {
    if !hello(s, p) {
        return false;
    }
    let ms = p.honest_messages(auth);
    send_hs(s, p, &ms);
    p.to_app();
    true
}
/// The honest flight of the server up to its Finished
pub fn handshake_srv(s: &mut TcpStream, p: &mut Srv) -> bool {
    if !until_srv(s, p, |p| !p.ch.is_empty()) {
        return false;
    }
    let m = p.m_hello();
    let mut d = plain_rec(HANDSHAKE, &m);
    d.extend(plain_rec(CCS, &[1]));
    for m in p.honest_messages() {
        d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
    }
    p.to_app();
    let _ = s.write_all(&d);
    true
}
pub fn srv_cfg(pki: &Pki, suite: u16) -> SrvCfg {
    SrvCfg {
        suite,
        random: *b"server random for the reference!",
        sk: *b"x25519 secret of the ref. server",
        cert: vec![pki.server.cert.clone()],
        key: pki.server.key,
        request: None,
    }
}
/// Fail the demonstration if the condition does not hold
pub fn must(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}
