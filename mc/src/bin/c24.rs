//! C24: the same exchanges with every setting of the log, each setting in a process of its own: nothing
//! but the text differs, the text follows the setting, and nothing secret is in it.

use mc::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStrExt;
use std::sync::Arc;

// ------------------------------------------------------------------ what is done

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Conf {
    server: bool,
    suite: u16,
    auth: bool,
    sid: bool,
    /// A key log: none, a usable one, one which cannot be opened, one which cannot be written
    keylog: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum At {
    Hello,
    EncExt,
    CertOrReq,
    Cert,
    Verify,
    Finished,
    App,
    /// Everything goes well to the end
    Never,
}
impl Conf {
    fn name(&self) -> String {
        format!("{}.{}.auth{}.sid{}", if self.server { "server" } else { "client" }, suite_name(self.suite), self.auth as u8, self.sid as u8)
    }
    fn points(&self) -> Vec<At> {
        use At::*;
        match (self.server, self.auth) {
            (true, false) => vec![Hello, Finished, App],
            (true, true) => vec![Hello, Cert, Verify, Finished, App],
            (false, false) => vec![Hello, EncExt, CertOrReq, Verify, Finished, App],
            (false, true) => vec![Hello, EncExt, CertOrReq, Cert, Verify, Finished, App],
        }
    }
}
enum Peer<'a> {
    Cli(&'a mut Cli),
    Srv(&'a mut Srv),
}
impl Peer<'_> {
    fn wr(&mut self) -> Option<&mut Dir> {
        match self {
            Peer::Cli(p) => p.wr.as_mut(),
            Peer::Srv(p) => p.wr.as_mut(),
        }
    }
    /// Protected, if there are keys
    fn rec(&mut self, typ: u8, d: &[u8]) -> Vec<u8> {
        match self.wr() {
            Some(w) => w.seal(typ, d),
            None => plain_rec(typ, d),
        }
    }
}
type What = Arc<dyn Fn(&mut Peer) -> Vec<u8> + Send + Sync>;
fn what(f: impl Fn(&mut Peer) -> Vec<u8> + Send + Sync + 'static) -> What {
    Arc::new(f)
}
const OWN: &[u8] = b"Q7zk2VbX9LmP4tR8 is said by this side";
const PEERS: &[u8] = b"h3GfW5yN0cJs6DqT is said by the other side";

struct Done {
    seen: String,
    /// (what it is, bytes)
    secrets: Vec<(&'static str, Vec<u8>)>,
    wire: Vec<Vec<u8>>,
}

fn run(pki: &'static Pki, k: Conf, at: At, w: &What) -> Done {
    fresh(24);
    let w = w.clone();
    let file = Arc::new(std::sync::Mutex::new(VFile { prefix: "*".into(), ..Default::default() }));
    match k.keylog {
        2 => lk(&file).open_errno = 13,
        3 => lk(&file).full_from = Some((0, 28)),
        _ => (),
    }
    set_vfile_shared(Some(file.clone()));
    let sock: Sock;
    let r;
    let (mut pc, mut ps) = (None, None);
    if k.server {
        let mut cfg = cli_cfg(pki, k.suite);
        if !k.sid {
            cfg.session_id = vec![];
        }
        let peer = cell(Cli::new(cfg));
        let mut phase = 0;
        sock = client_sock(&peer, move |p: &mut Cli| {
            if phase == 0 {
                phase = 1;
                if at == At::Hello {
                    phase = 9;
                    let d = w(&mut Peer::Cli(p));
                    p.out.push_back(d);
                    return;
                }
                p.sent_hello();
                let r = plain_rec(HANDSHAKE, &p.ch.clone());
                p.out.push_back(r);
            } else if phase == 1 && p.wait == Wait::Done {
                phase = 2;
                let mut d = vec![];
                if k.sid {
                    d.extend(plain_rec(CCS, &[1]));
                }
                let chain = [pki.client.cert.clone()];
                let mut steps = vec![];
                if k.auth {
                    steps.extend([At::Cert, At::Verify]);
                }
                steps.extend([At::Finished, At::App]);
                for s in steps {
                    if s == At::App {
                        p.to_app();
                    }
                    if s == at {
                        d.extend(w(&mut Peer::Cli(p)));
                        break;
                    }
                    let m = match s {
                        At::Cert => p.m_cert(&chain),
                        At::Verify => p.m_verify(&pki.client.key),
                        At::Finished => p.m_finished(),
                        _ => break,
                    };
                    d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                if at == At::Never {
                    d.extend(p.wr.as_mut().unwrap().seal(APPDATA, PEERS));
                    d.extend(p.wr.as_mut().unwrap().seal(ALERT, &[1, 0]));
                }
                p.out.push_back(d);
            }
        });
        let mut b = server_builder(pki);
        if k.auth {
            b = b.add_client_cert_ca(pki.ca.cert_path.clone());
        }
        if k.keylog > 0 {
            b = b.set_keylog_path("/nowhere/keylog".into());
        }
        r = accept(b, &sock);
        pc = Some(peer);
    } else {
        let mut cfg = srv_cfg(pki, k.suite);
        if k.auth {
            cfg.request = Some(vec![1, 2, 3]);
        }
        let mut srv = Srv::new(cfg);
        srv.client_key = Some(pki.client.public);
        let peer = cell(srv);
        let mut phase = 0;
        sock = server_sock(&peer, move |p: &mut Srv| {
            if phase == 0 && !p.ch.is_empty() {
                phase = 1;
                if at == At::Hello {
                    let d = w(&mut Peer::Srv(p));
                    p.out.push_back(d);
                    return;
                }
                let m = p.m_hello();
                let mut d = plain_rec(HANDSHAKE, &m);
                if k.sid {
                    d.extend(plain_rec(CCS, &[1]));
                }
                let mut steps = vec![At::EncExt, At::CertOrReq];
                if k.auth {
                    steps.push(At::Cert);
                }
                steps.extend([At::Verify, At::Finished, At::App]);
                for s in steps {
                    if s == At::App {
                        p.to_app();
                    }
                    if s == at {
                        d.extend(w(&mut Peer::Srv(p)));
                        break;
                    }
                    let m = match s {
                        At::EncExt => p.m_ee(),
                        At::CertOrReq if k.auth => p.m_request(),
                        At::CertOrReq | At::Cert => p.m_cert(),
                        At::Verify => p.m_verify(),
                        At::Finished => p.m_finished(),
                        _ => break,
                    };
                    d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                if at == At::Never {
                    d.extend(p.wr.as_mut().unwrap().seal(APPDATA, PEERS));
                    d.extend(p.wr.as_mut().unwrap().seal(ALERT, &[1, 0]));
                }
                p.out.push_back(d);
            }
        });
        let mut b = CB::new();
        if k.auth {
            b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
        }
        if k.keylog > 0 {
            b = b.set_keylog_path("/nowhere/keylog".into());
        }
        r = connect(b, &sock);
        ps = Some(peer);
    }
    let mut seen = r.name();
    if let Res::Ok(mut s) = r {
        let mut buf = [0; 1000];
        seen += &format!(" write {}", tls_write(&mut s, OWN).name());
        for _ in 0..6 {
            let r = tls_read(&mut s, &mut buf);
            seen += &format!(" read {}", r.name());
            match r {
                Res::Ok(n) => seen += &format!(" {}", to_hex(&buf[..n])),
                _ => break,
            }
        }
        seen += &format!(" write {}", tls_write(&mut s, OWN).name());
        let _ = caught(move || drop(s));
    }
    let mut secrets = vec![];
    let mut dirs = vec![];
    let (sched, shared, app);
    if let Some(p) = &pc {
        flush_client(&sock, p);
        let p = lk(p);
        seen += &format!(" alert {:?} bad {:?}", p.got_alert, p.bad);
        (sched, shared, app) = (p.sched.clone(), p.shared.clone(), p.app.clone());
    } else {
        let p = ps.as_ref().unwrap();
        flush_server(&sock, p);
        let p = lk(p);
        seen += &format!(" alert {:?} bad {:?}", p.got_alert, p.bad);
        (sched, shared, app) = (p.sched.clone(), p.shared.clone(), p.app.clone());
    }
    secrets.push(("shared secret", shared.clone()));
    if let Some(s) = sched {
        let h = suite_hash(k.suite);
        let z = vec![0; h.len()];
        let d = expand_label(h, &hkdf_extract(h, &z, &z), "derived", &h.hash(&[]), h.len());
        let hs = hkdf_extract(h, &d, &shared);
        secrets.push(("derived secret", expand_label(h, &hs, "derived", &h.hash(&[]), h.len())));
        secrets.push(("handshake secret", hs));
        for d in [&s.client_hs, &s.server_hs] {
            secrets.push(("finished key", expand_label(h, d, "finished", &[], h.len())));
        }
        dirs.extend([s.client_hs, s.server_hs]);
        secrets.push(("master secret", s.master));
    }
    if let Some((c, s)) = app {
        dirs.extend([c, s]);
    }
    for d in dirs {
        let d = Dir::new(k.suite, &d);
        secrets.extend([("traffic secret", d.secret), ("traffic key", d.key), ("traffic iv", d.iv)]);
    }
    secrets.push(("private key", u_to_be(if k.server { &pki.server.key } else { &pki.client.key }).to_vec()));
    secrets.extend([("application data", OWN.to_vec()), ("application data", PEERS.to_vec())]);
    secrets.push(("random numbers", with_rng(|r| r.out.clone())));
    let sent = lk(&sock).sent.clone();
    set_vfile_shared(None);
    seen += &format!(" key log {}", to_hex(&sha256(format!("{:?}", lk(&file).ops).as_bytes())[..6]));
    seen += &format!(" sent {} {}", sent.len(), to_hex(&sha256(&sent)[..12]));
    let mut wire = vec![sent];
    if let Some(p) = &pc {
        wire.push(lk(p).tr.clone());
    }
    if let Some(p) = &ps {
        wire.push(lk(p).tr.clone());
    }
    Done { seen, secrets, wire }
}

fn flip(m: &[u8], i: usize, x: u8) -> Vec<u8> {
    let mut m = m.to_vec();
    m[i] ^= x;
    m
}
/// The last byte of the named point with the given keys
fn scenarios(pki: &'static Pki, thorough: bool) -> Vec<(String, Conf, At, What)> {
    let mut v: Vec<(String, Conf, At, What)> = vec![];
    let mut confs = vec![];
    for server in [true, false] {
        for suite in SUITES {
            for auth in [false, true] {
                for sid in [true, false] {
                    confs.push(Conf { server, suite, auth, sid, keylog: 0 });
                }
            }
        }
    }
    for k in confs {
        let full = thorough || k.suite == CHACHA && k.sid;
        v.push((format!("{}-complete", k.name()), k, At::Never, what(|_| vec![])));
        for keylog in 1..4 {
            let k = Conf { keylog, ..k };
            v.push((format!("{}-complete-keylog{keylog}", k.name()), k, At::Never, what(|_| vec![])));
            for at in k.points() {
                v.push((format!("{}-{at:?}-keylog{keylog}", k.name()), k, at, what(|p| p.rec(ALERT, &[2, 40]))));
            }
        }
        for at in k.points() {
            let mut add = |n: String, w: What| v.push((format!("{}-{at:?}-{n}", k.name()), k, at, w));
            add("end".into(), what(|_| vec![]));
            add("part".into(), what(|p| p.rec(HANDSHAKE, &[20, 0, 0, 32])[..7].to_vec()));
            add("garbage".into(), what(|_| b"GET / HTTP/1.1\r\n\r\n".to_vec()));
            for a in 0..=255u8 {
                if full || a == 0 || a == 40 || a == 77 {
                    add(format!("alert{a}"), what(move |p| p.rec(ALERT, &[2, a])));
                }
            }
            for t in [0u8, 1, 2, 4, 8, 11, 13, 15, 20, 24, 254] {
                for body in [vec![], vec![0; 4], vec![1; 40]] {
                    if full || body.len() == 4 {
                        let m = hs(t, &body);
                        add(format!("message{t}-{}", body.len()), what(move |p| p.rec(HANDSHAKE, &m)));
                    }
                }
            }
            for t in [0u8, 19, 20, 21, 22, 23, 24, 255] {
                add(format!("record{t}"), what(move |_| plain_rec(t, &[1])));
                add(format!("empty{t}"), what(move |_| plain_rec(t, &[])));
                add(format!("inner{t}"), what(move |p| p.rec(t, &[])));
            }
            add("tag".into(), what(|p| {
                let r = p.rec(HANDSHAKE, &[20, 0, 0, 0]);
                flip(&r, r.len() - 1, 1)
            }));
            // data of the peer, where it is allowed and where it is not, alone and before a failure
            for n in [1usize, 2, 400] {
                let d = PEERS.repeat(n);
                let e = d.clone();
                add(format!("data{n}"), what(move |p| p.rec(APPDATA, &d)));
                add(format!("data{n}-tag"), what(move |p| {
                    let mut r = p.rec(APPDATA, &e);
                    let m = p.rec(APPDATA, &e);
                    r.extend(flip(&m, m.len() - 1, 1));
                    r
                }));
            }
            add("data-in-message".into(), what(|p| [p.rec(HANDSHAKE, &[4, 0, 0, 50]), p.rec(APPDATA, PEERS)].concat()));
            add("data-as-handshake".into(), what(|p| p.rec(HANDSHAKE, PEERS)));
            add("data-as-alert".into(), what(|p| p.rec(ALERT, PEERS)));
            add("data-as-unknown".into(), what(|p| p.rec(99, PEERS)));
            add("long".into(), what(|_| [&[23, 3, 3, 255, 255][..], &[0; 65535]].concat()));
            add("large".into(), what(|p| p.rec(HANDSHAKE, &[11, 255, 255, 255])));
        }
        // one byte of a message is another one, what follows fits
        let bytes = full && k.suite == CHACHA;
        if bytes || k.suite == CHACHA {
            let step = if thorough { 1 } else if bytes { 1 } else { 7 };
            for i in (0..260).step_by(step) {
                for x in [1u8, 0x80] {
                    if !k.auth || thorough {
                        v.push((format!("{}-hello-byte{i}-{x}", k.name()), k, At::Hello, what(move |p| {
                            let m = match p {
                                Peer::Cli(p) => p.ch.clone(),
                                Peer::Srv(p) => p.m_hello(),
                            };
                            let i = i.min(m.len() - 1);
                            plain_rec(HANDSHAKE, &flip(&m, i, x))
                        })));
                    }
                }
            }
            if k.server != k.auth {
                continue;
            }
            for i in (0..420).step_by(if thorough { 1 } else { 2 }) {
                for x in [1u8, 0x80] {
                    let at = if k.server { At::Cert } else { At::CertOrReq };
                    let n = format!("{}-certificate-byte{i}-{x}", k.name());
                    v.push((n, k, at, what(move |p| match p {
                        Peer::Cli(p) => {
                            let c = &pki.client.cert;
                            let m = p.m_cert(&[flip(c, i % c.len(), x)]);
                            let n = p.m_verify(&pki.client.key);
                            let o = p.m_finished();
                            let w = p.wr.as_mut().unwrap();
                            [w.seal(HANDSHAKE, &m), w.seal(HANDSHAKE, &n), w.seal(HANDSHAKE, &o)].concat()
                        }
                        Peer::Srv(p) => {
                            let c = &pki.server.cert;
                            p.cfg.cert = vec![flip(c, i % c.len(), x)];
                            let m = p.m_cert();
                            let n = p.m_verify();
                            let o = p.m_finished();
                            let w = p.wr.as_mut().unwrap();
                            [w.seal(HANDSHAKE, &m), w.seal(HANDSHAKE, &n), w.seal(HANDSHAKE, &o)].concat()
                        }
                    })));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ secrets in a text

const W: usize = 6;
type Windows = HashMap<[u8; W], &'static str>;

fn windows(d: &Done) -> Windows {
    let mut public: std::collections::HashSet<&[u8]> = Default::default();
    for w in &d.wire {
        public.extend(w.windows(W));
    }
    let mut m = Windows::new();
    for (n, s) in &d.secrets {
        for order in [false, true] {
            let mut s = s.clone();
            if order {
                s.reverse();
            }
            for w in s.windows(W) {
                let mut distinct = w.to_vec();
                distinct.sort();
                distinct.dedup();
                if distinct.len() > 3 && !public.contains(w) {
                    m.insert(w.try_into().unwrap(), n);
                }
            }
        }
    }
    m
}
fn find(bytes: &[u8], m: &Windows) -> Option<&'static str> {
    bytes.windows(W).find_map(|w| m.get::<[u8]>(w).copied())
}
fn hexval(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}
fn pairs(digits: &[u8]) -> Vec<u8> {
    digits.chunks_exact(2).map(|c| hexval(c[0]).unwrap() << 4 | hexval(c[1]).unwrap()).collect()
}
/// Is a part of a secret in this text: as it is, in hex or decimal, as a list or number, in base64?
fn leak(text: &[u8], d: &Done, m: &Windows) -> Option<String> {
    if text.is_empty() {
        return None;
    }
    if let Some(n) = find(text, m) {
        return Some(format!("{n} as it is"));
    }
    let alnum = |c: &u8| c.is_ascii_alphanumeric();
    let tokens: Vec<&[u8]> = text.split(|c| !alnum(c)).filter(|t| !t.is_empty()).collect();
    let strip = |t: &[u8]| -> Vec<u8> {
        let t = t.strip_prefix(b"0x").unwrap_or(t);
        t.strip_suffix(b"u8").unwrap_or(t).to_vec()
    };
    let (mut hexs, mut decs, mut digits) = (vec![], vec![], vec![]);
    for t in tokens.iter().map(|t| strip(t)).chain([b"?".to_vec()]) {
        let s = String::from_utf8_lossy(&t).to_string();
        let h = if s.len() <= 2 { u8::from_str_radix(&s, 16).ok() } else { None };
        match h {
            Some(b) => hexs.push(b),
            None => {
                if let Some(n) = find(&hexs, m) {
                    return Some(format!("{n} as a list in hex"));
                }
                hexs.clear();
            }
        }
        match s.parse::<u8>() {
            Ok(b) => decs.push(b),
            Err(_) => {
                if let Some(n) = find(&decs, m) {
                    return Some(format!("{n} as a list"));
                }
                decs.clear();
            }
        }
        if !t.is_empty() && t.iter().all(|c| hexval(*c).is_some()) {
            digits.extend(&t);
        } else {
            for skip in 0..2 {
                if let Some(n) = find(&pairs(digits.get(skip..).unwrap_or(&[])), m) {
                    return Some(format!("{n} in hex"));
                }
            }
            digits.clear();
        }
        if t.len() > 15 && t.iter().all(u8::is_ascii_digit) {
            // a large number
            for (n, x) in &d.secrets {
                for l in [32usize, 16, 8, 4] {
                    for part in x.windows(l.min(x.len())) {
                        let be = ibig_dec(part);
                        let mut rev = part.to_vec();
                        rev.reverse();
                        if be.len() > 15 && be == s || ibig_dec(&rev) == s {
                            return Some(format!("{n} as a number"));
                        }
                    }
                }
            }
        }
    }
    let b64 = |c: u8| match c {
        b'A'..=b'Z' => Some(c - b'A'),
        b'a'..=b'z' => Some(c - b'a' + 26),
        b'0'..=b'9' => Some(c - b'0' + 52),
        b'+' | b'-' => Some(62),
        b'/' | b'_' => Some(63),
        _ => None,
    };
    for run in text.split(|c| b64(*c).is_none()).filter(|r| r.len() >= 8) {
        for skip in 0..4 {
            let mut out = vec![];
            for q in run[skip.min(run.len())..].chunks_exact(4) {
                let x = q.iter().fold(0u32, |a, c| a << 6 | b64(*c).unwrap() as u32);
                out.extend(&x.to_be_bytes()[1..]);
            }
            if let Some(n) = find(&out, m) {
                return Some(format!("{n} in base64"));
            }
        }
    }
    None
}
fn ibig_dec(be: &[u8]) -> String {
    ibig::UBig::from_be_bytes(be).to_string()
}

// ------------------------------------------------------------------ the process with one setting

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
fn in_few(name: &str) -> bool {
    name == "init" || !name.contains("-byte") && name.contains("chacha") && name.contains(".sid1")
}
/// Line of a result: name, observation, leak, text
fn child(dir: &str, shard: usize, shards: usize, thorough: bool, few: bool) {
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let mut f = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(format!("{dir}/text")).unwrap();
    let mut res = std::fs::File::create(format!("{dir}/result")).unwrap();
    unsafe {
        dup2(f.as_raw_fd(), 1);
        dup2(f.as_raw_fd(), 2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut lines = String::new();
    let init = caught(anothertls::log::init);
    lines += &format!("init\t{}\t\t\n", if init.is_ok() { "ok" } else { "panic" });
    if init.is_ok() {
        for (i, (name, k, at, w)) in scenarios(pki, thorough).iter().enumerate() {
            if i % shards != shard || few && !in_few(name) {
                continue;
            }
            std::io::stdout().flush().unwrap();
            f.set_len(0).unwrap();
            f.seek(SeekFrom::Start(0)).unwrap();
            let d = run(pki, *k, *at, w);
            std::io::stdout().flush().unwrap();
            let mut text = vec![];
            f.seek(SeekFrom::Start(0)).unwrap();
            f.read_to_end(&mut text).unwrap();
            let l = if text.is_empty() { None } else { leak(&text, &d, &windows(&d)) };
            let esc = |s: &str| s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ");
            lines += &format!("{name}\t{}\t{}\t{}\n", esc(&d.seen), l.unwrap_or_default(), esc(&String::from_utf8_lossy(&text)));
        }
    }
    res.write_all(lines.as_bytes()).unwrap();
    let _ = std::fs::remove_dir_all(&pki.dir);
}

/// Without the colours
fn plain(s: &str) -> Vec<String> {
    let mut o = String::new();
    let mut c = s.chars().peekable();
    while let Some(x) = c.next() {
        if x == '\x1b' {
            for y in c.by_ref() {
                if y.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(x);
        }
    }
    o.split("\\n").map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}
fn within(small: &[String], large: &[String]) -> bool {
    let mut l = large.iter();
    small.iter().all(|s| l.any(|x| x == s))
}

type Lines = BTreeMap<String, (String, String, String)>;

fn main() {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if let Ok(c) = std::env::var("MC_C24_CHILD") {
        let p: Vec<&str> = c.split(' ').collect();
        child(p[2], p[0].parse().unwrap(), p[1].parse().unwrap(), thorough, p[3] == "true");
        return;
    }
    let chk = Check::start(
        "C24",
        "exploration",
        "every listed exchange of both sides is done with every setting of the log in a process of its own; results and bytes on the socket have to be those without a log, and the text is searched for every secret of the exchange in several notations",
    );
    let exe = std::env::current_exe().unwrap();
    // (name, RUST_LOG, another variable which is no UTF-8)
    let bad: &[u8] = b"\xff\xfe";
    let mut settings: Vec<(&str, Option<&[u8]>, bool)> = vec![("unset", None, false), ("error", Some(b"error"), false), ("debug", Some(b"debug"), false), ("fixme", Some(b"fixme"), false)];
    settings.push(("empty", Some(b""), false));
    settings.push(("unknown", Some(b"verbose"), false));
    settings.push(("no-utf8", Some(bad), false));
    settings.push(("debug-upper", Some(b"DEBUG"), false));
    settings.push(("error-mixed", Some(b"ErRoR"), false));
    settings.push(("unset-other", None, true));
    settings.push(("debug-other", Some(b"debug"), true));
    let shards = 8;
    let jobs: Vec<(usize, usize)> = (0..settings.len() * shards).map(|i| (i / shards, i % shards)).collect();
    let got: Cell<Vec<Lines>> = cell(vec![Lines::new(); settings.len()]);
    let tmp = std::env::temp_dir().join(format!("mc-c24-{}", std::process::id()));
    // of the settings which only have to be read as another one
    let few = |s: usize| !thorough && !["unset", "error", "debug", "fixme"].contains(&settings[s].0);
    let work = |s: usize, shard: usize| -> Result<(), String> {
        let dir = tmp.join(format!("{s}-{shard}"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut c = std::process::Command::new(&exe);
        c.env("MC_C24_CHILD", format!("{shard} {shards} {} {}", dir.display(), few(s))).env_remove("RUST_LOG").env_remove("MC_PART");
        if let Some(l) = settings[s].1 {
            c.env("RUST_LOG", std::ffi::OsStr::from_bytes(l));
        }
        if settings[s].2 {
            c.env("AAA_MC", std::ffi::OsStr::from_bytes(bad)).env("ZZZ_MC", std::ffi::OsStr::from_bytes(bad));
        }
        let r = c.status().unwrap();
        let text = std::fs::read_to_string(dir.join("result")).unwrap_or_default();
        let _ = std::fs::remove_dir_all(&dir);
        if !r.success() {
            return Err(format!("the process with the log setting {} ends with {r}", settings[s].0));
        }
        let mut g = lk(&got);
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            g[s].insert(p[0].into(), (p[1].into(), p[2].into(), p[3].into()));
        }
        Ok(())
    };
    if chk.replaying() && chk.replay_id("process").is_none() {
        std::thread::scope(|s| {
            for t in 0..8 {
                let (jobs, work) = (&jobs, &work);
                s.spawn(move || jobs.iter().skip(t).step_by(8).for_each(|(s, h)| drop(work(*s, *h))));
            }
        });
    }
    chk.each("process", &jobs, |(s, shard), c| {
        if c.begin(format!("{}-{shard}", settings[*s].0)) {
            match work(*s, *shard) {
                Ok(()) => c.outcome("done"),
                Err(e) => c.fail(e),
            }
        }
    });
    let _ = std::fs::remove_dir_all(&tmp);
    let got = std::mem::take(&mut *lk(&got));
    let by = |n: &str| settings.iter().position(|s| s.0 == n).unwrap();
    let names: Vec<&String> = got[by("unset")].keys().collect();
    let lines: Vec<Vec<String>> = vec![];
    let _ = lines;
    for (si, (sname, ..)) in settings.iter().enumerate() {
        chk.each(&format!("log-{sname}"), &names, |n, c| {
            if few(si) && !in_few(n) || !c.begin(n.as_str()) {
                return;
            }
            let base = &got[by("unset")][*n];
            let Some(l) = got[si].get(*n) else {
                c.fail(if got[si].get("init").is_some_and(|i| i.0 != "ok") { "log::init panics" } else { "there is no result" });
                return;
            };
            let text = plain(&l.2);
            c.nontrivial((sname, n, &text));
            c.trans(2);
            c.check(l.0 == base.0, format!("with the log the exchange goes differently: {} instead of {}", l.0, base.0));
            c.check(l.1.is_empty(), format!("in the log: {}; the text is {}", l.1, l.2));
            let t = |x: &str| got[by(x)].get(*n).map(|l| plain(&l.2)).unwrap_or_default();
            match *sname {
                // that the key log cannot be written may be said
                "unset" | "empty" | "unknown" | "no-utf8" | "unset-other" => c.check(n.contains("keylog2") || n.contains("keylog3") || l.2.is_empty(), format!("without a log there is the text {:?}", l.2)),
                "error" => c.check(within(&text, &t("debug")), "a message of the level error is not there with debug"),
                "debug" => c.check(within(&text, &t("fixme")), "a message of the level debug is not there with fixme"),
                "debug-upper" | "debug-other" => c.check(text == t("debug"), format!("the text is not that of debug: {text:?}")),
                "error-mixed" => c.check(text == t("error"), format!("the text is not that of error: {text:?}")),
                _ => (),
            }
            c.validated();
            c.outcome(format!("{sname}: {}", if text.is_empty() { "silent" } else { "text" }));
        });
    }
    // the search finds what it is to find
    let d = Done {
        seen: String::new(),
        secrets: vec![("s", (0..32).map(|i| mix(i) as u8).collect())],
        wire: vec![],
    };
    let w = windows(&d);
    let s = &d.secrets[0].1;
    let forms = [
        format!("x {s:?}"),
        format!("x {s:x?}"),
        format!("x {s:#04X?} y"),
        format!("key={}", to_hex(s)),
        format!("key={}", s.iter().map(|b| format!("{b:02x}:")).collect::<String>()),
        format!("n {}", ibig_dec(s)),
    ];
    chk.each("search", &forms, |f, c| {
        if c.begin(&f[..20]) {
            c.check(leak(f.as_bytes(), &d, &w).is_some(), "the search does not find it");
        }
    });
    chk.finish();
}
