//! Reference TLS 1.3 peers (RFC 8446), independent of the code under test. They follow the
//! standard, check everything the other side sends, and hand out every message separately, so
//! a harness can reorder, drop, repeat, change, split or join what it sends.

use crate::refc::*;
use std::collections::VecDeque;

// ------------------------------------------------------------------ suites, keys, records

pub const AES128: u16 = 0x1301;
pub const AES256: u16 = 0x1302;
pub const CHACHA: u16 = 0x1303;
pub const SUITES: [u16; 3] = [AES128, AES256, CHACHA];

pub fn suite_hash(s: u16) -> H {
    if s == AES256 {
        H::S384
    } else {
        H::S256
    }
}
pub fn suite_klen(s: u16) -> usize {
    if s == AES128 {
        16
    } else {
        32
    }
}
pub fn suite_name(s: u16) -> &'static str {
    match s {
        AES128 => "aes128",
        AES256 => "aes256",
        CHACHA => "chacha",
        _ => "unknown",
    }
}

/// Content types
pub const CCS: u8 = 20;
pub const ALERT: u8 = 21;
pub const HANDSHAKE: u8 = 22;
pub const APPDATA: u8 = 23;

/// Handshake types
pub const CLIENT_HELLO: u8 = 1;
pub const SERVER_HELLO: u8 = 2;
pub const NEW_SESSION_TICKET: u8 = 4;
pub const END_OF_EARLY_DATA: u8 = 5;
pub const ENCRYPTED_EXTENSIONS: u8 = 8;
pub const CERTIFICATE: u8 = 11;
pub const CERTIFICATE_REQUEST: u8 = 13;
pub const CERTIFICATE_VERIFY: u8 = 15;
pub const FINISHED: u8 = 20;
pub const KEY_UPDATE: u8 = 24;

/// One direction of a protected connection
#[derive(Clone, Debug)]
pub struct Dir {
    pub suite: u16,
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub seq: u64,
}
impl Dir {
    pub fn new(suite: u16, secret: &[u8]) -> Dir {
        let h = suite_hash(suite);
        Dir {
            suite,
            secret: secret.to_vec(),
            key: expand_label(h, secret, "key", &[], suite_klen(suite)),
            iv: expand_label(h, secret, "iv", &[], 12),
            seq: 0,
        }
    }
    pub fn nonce(&self, seq: u64) -> Vec<u8> {
        let mut n = self.iv.clone();
        for (i, b) in seq.to_be_bytes().iter().enumerate() {
            n[4 + i] ^= b;
        }
        n
    }
    /// Seal the inner plaintext as it is
    pub fn seal_inner(&mut self, inner: &[u8]) -> Vec<u8> {
        let len = inner.len() + 16;
        let hdr = [APPDATA, 3, 3, (len >> 8) as u8, len as u8];
        let n = self.nonce(self.seq);
        self.seq = self.seq.wrapping_add(1);
        let (c, t) = if self.suite == CHACHA {
            chapoly_seal(&self.key, &n, inner, &hdr)
        } else {
            gcm_seal(&self.key, &n, inner, &hdr)
        };
        [&hdr[..], &c, &t].concat()
    }
    pub fn seal_padded(&mut self, typ: u8, data: &[u8], pad: usize) -> Vec<u8> {
        let mut inner = data.to_vec();
        inner.push(typ);
        inner.resize(inner.len() + pad, 0);
        self.seal_inner(&inner)
    }
    pub fn seal(&mut self, typ: u8, data: &[u8]) -> Vec<u8> {
        self.seal_padded(typ, data, 0)
    }
    /// Open a record with the sequence number, does not change the state
    pub fn open_at(&self, seq: u64, rec: &Rec) -> Option<Vec<u8>> {
        if rec.body.len() < 16 {
            return None;
        }
        let (c, t) = rec.body.split_at(rec.body.len() - 16);
        let hdr = [rec.typ, rec.ver[0], rec.ver[1], (rec.body.len() >> 8) as u8, rec.body.len() as u8];
        let n = self.nonce(seq);
        if self.suite == CHACHA {
            chapoly_open(&self.key, &n, c, &hdr, t)
        } else {
            gcm_open(&self.key, &n, c, &hdr, t)
        }
    }
    /// Content type, data and number of padding bytes
    pub fn open(&mut self, rec: &Rec) -> Option<(u8, Vec<u8>, usize)> {
        let mut inner = self.open_at(self.seq, rec)?;
        self.seq = self.seq.wrapping_add(1);
        let mut pad = 0;
        while inner.last() == Some(&0) {
            inner.pop();
            pad += 1;
        }
        let typ = inner.pop().unwrap_or(0);
        Some((typ, inner, pad))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub typ: u8,
    pub ver: [u8; 2],
    pub body: Vec<u8>,
}
pub fn plain_rec(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut r = vec![typ, 3, 3, (body.len() >> 8) as u8, body.len() as u8];
    r.extend_from_slice(body);
    r
}
/// Split a byte stream into its complete records, the rest stays in buf
pub fn take_recs(buf: &mut Vec<u8>) -> Vec<Rec> {
    let mut out = vec![];
    let mut p = 0;
    while buf.len() >= p + 5 {
        let len = u16::from_be_bytes([buf[p + 3], buf[p + 4]]) as usize;
        if buf.len() < p + 5 + len {
            break;
        }
        out.push(Rec { typ: buf[p], ver: [buf[p + 1], buf[p + 2]], body: buf[p + 5..p + 5 + len].to_vec() });
        p += 5 + len;
    }
    buf.drain(..p);
    out
}
pub fn hs(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut m = vec![typ, (body.len() >> 16) as u8, (body.len() >> 8) as u8, body.len() as u8];
    m.extend_from_slice(body);
    m
}
pub fn v8(b: &[u8]) -> Vec<u8> {
    let mut o = vec![b.len() as u8];
    o.extend_from_slice(b);
    o
}
pub fn v16(b: &[u8]) -> Vec<u8> {
    let mut o = (b.len() as u16).to_be_bytes().to_vec();
    o.extend_from_slice(b);
    o
}
pub fn v24(b: &[u8]) -> Vec<u8> {
    let mut o = vec![(b.len() >> 16) as u8, (b.len() >> 8) as u8, b.len() as u8];
    o.extend_from_slice(b);
    o
}
pub fn ext(typ: u16, body: &[u8]) -> Vec<u8> {
    [&typ.to_be_bytes()[..], &v16(body)].concat()
}

/// Strict reader of TLS structures
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err("message too short".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    pub fn v8(&mut self) -> Result<&'a [u8], String> {
        let n = self.u8()? as usize;
        self.take(n)
    }
    pub fn v16(&mut self) -> Result<&'a [u8], String> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    pub fn v24(&mut self) -> Result<&'a [u8], String> {
        let b = self.take(3)?;
        self.take(((b[0] as usize) << 16) | ((b[1] as usize) << 8) | b[2] as usize)
    }
    pub fn end(&self) -> Result<(), String> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{} trailing bytes", self.0.len()))
        }
    }
    pub fn exts(&mut self) -> Result<Vec<(u16, &'a [u8])>, String> {
        let mut r = Rd(self.v16()?);
        let mut out: Vec<(u16, &[u8])> = vec![];
        while !r.0.is_empty() {
            let t = r.u16()?;
            if out.iter().any(|e| e.0 == t) {
                return Err(format!("extension {t} twice"));
            }
            out.push((t, r.v16()?));
        }
        Ok(out)
    }
}

// ------------------------------------------------------------------ key schedule

#[derive(Clone, Debug, PartialEq)]
pub struct Sched {
    pub suite: u16,
    pub client_hs: Vec<u8>,
    pub server_hs: Vec<u8>,
    pub master: Vec<u8>,
}
impl Sched {
    pub fn new(suite: u16, shared: &[u8], hello_transcript: &[u8]) -> Sched {
        let h = suite_hash(suite);
        let z = vec![0u8; h.len()];
        let early = hkdf_extract(h, &z, &z);
        let d = expand_label(h, &early, "derived", &h.hash(&[]), h.len());
        let hs = hkdf_extract(h, &d, shared);
        let th = h.hash(hello_transcript);
        let d = expand_label(h, &hs, "derived", &h.hash(&[]), h.len());
        Sched {
            suite,
            client_hs: expand_label(h, &hs, "c hs traffic", &th, h.len()),
            server_hs: expand_label(h, &hs, "s hs traffic", &th, h.len()),
            master: hkdf_extract(h, &d, &z),
        }
    }
    /// (client, server) application traffic secrets
    pub fn app(&self, transcript_to_server_finished: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let h = suite_hash(self.suite);
        let th = h.hash(transcript_to_server_finished);
        (
            expand_label(h, &self.master, "c ap traffic", &th, h.len()),
            expand_label(h, &self.master, "s ap traffic", &th, h.len()),
        )
    }
}
pub fn verify_data(suite: u16, secret: &[u8], transcript: &[u8]) -> Vec<u8> {
    let h = suite_hash(suite);
    let k = expand_label(h, secret, "finished", &[], h.len());
    hmac(h, &k, &h.hash(transcript))
}
pub fn cv_content(label: &str, suite: u16, transcript: &[u8]) -> Vec<u8> {
    let mut c = vec![0x20; 64];
    c.extend_from_slice(format!("TLS 1.3, {label} CertificateVerify").as_bytes());
    c.push(0);
    c.extend(suite_hash(suite).hash(transcript));
    c
}
/// Deterministic nonce of the reference peers
pub fn ref_nonce(d: &U, msg: &[u8]) -> U {
    let mut m = u_to_be(d).to_vec();
    m.extend_from_slice(msg);
    let mut k = sha256(&m);
    k[0] &= 0x7f;
    u_from_be(&k)
}
pub fn ref_sign(d: &U, msg: &[u8]) -> Vec<u8> {
    let h = sha256(msg);
    let (r, s) = p256().sign(d, &h, &ref_nonce(d, &h));
    sig_der(&r, &s)
}
pub fn ref_verify(q: &(U, U), msg: &[u8], sig: &[u8]) -> bool {
    match sig_parse(sig) {
        Some((r, s)) => p256().verify(q, &sha256(msg), &r, &s),
        None => false,
    }
}
/// CertificateVerify body
pub fn cv_body(label: &str, suite: u16, transcript: &[u8], d: &U) -> Vec<u8> {
    [&[4, 3][..], &v16(&ref_sign(d, &cv_content(label, suite, transcript)))].concat()
}
pub fn cert_body(ctx: &[u8], certs: &[Vec<u8>]) -> Vec<u8> {
    let list: Vec<u8> = certs.iter().flat_map(|c| [v24(c), v16(&[])].concat()).collect();
    [v8(ctx), v24(&list)].concat()
}

/// What a peer saw, in order
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Hs(u8),
    Ccs,
    App(Vec<u8>),
    /// level, description, which keys: 0 none, 1 handshake, 2 application
    Alert(u8, u8, u8),
}

/// The base point of X25519
pub const BASE: [u8; 32] = {
    let mut b = [0; 32];
    b[0] = 9;
    b
};
/// The secret one, which is used without clamping: the result is the share of the other side
pub const ONE: [u8; 32] = {
    let mut b = [0; 32];
    b[0] = 1;
    b
};
pub fn dh(secret: &[u8; 32], share: &[u8; 32]) -> [u8; 32] {
    if *secret == ONE {
        *share
    } else {
        x25519(secret, share)
    }
}

// ------------------------------------------------------------------ client

#[derive(Clone)]
pub struct CliCfg {
    pub suites: Vec<u16>,
    pub random: [u8; 32],
    pub session_id: Vec<u8>,
    pub sk: [u8; 32],
    /// Complete extension block, None for the default
    pub exts: Option<Vec<(u16, Vec<u8>)>>,
    pub server_name: Option<Vec<u8>>,
    /// Expected key of the server certificate
    pub server_cert: Option<(Vec<u8>, (U, U))>,
    pub legacy_version: [u8; 2],
    pub compression: Vec<u8>,
}
impl CliCfg {
    pub fn new(suites: &[u16]) -> CliCfg {
        CliCfg {
            suites: suites.to_vec(),
            random: *b"client random for the reference!",
            session_id: vec![0xA5; 32],
            sk: *b"x25519 secret of the ref. client",
            exts: None,
            server_name: None,
            server_cert: None,
            legacy_version: [3, 3],
            compression: vec![0],
        }
    }
    pub fn key_share(&self) -> Vec<u8> {
        let e = [&[0, 0x1d][..], &v16(&dh(&self.sk, &BASE))].concat();
        v16(&e)
    }
    pub fn default_exts(&self) -> Vec<(u16, Vec<u8>)> {
        let mut e = vec![];
        if let Some(n) = &self.server_name {
            e.push((0, v16(&[&[0][..], &v16(n)].concat())));
        }
        e.push((0x0a, v16(&[0, 0x1d])));
        e.push((0x0d, v16(&[4, 3])));
        e.push((0x2b, v8(&[3, 4])));
        e.push((0x33, self.key_share()));
        e
    }
    pub fn hello(&self) -> Vec<u8> {
        let exts = self.exts.clone().unwrap_or_else(|| self.default_exts());
        self.hello_with(&exts)
    }
    pub fn hello_with(&self, exts: &[(u16, Vec<u8>)]) -> Vec<u8> {
        let mut b = self.legacy_version.to_vec();
        b.extend_from_slice(&self.random);
        b.extend(v8(&self.session_id));
        b.extend(v16(&self.suites.iter().flat_map(|s| s.to_be_bytes()).collect::<Vec<u8>>()));
        b.extend(v8(&self.compression));
        b.extend(v16(&exts.iter().flat_map(|e| ext(e.0, &e.1)).collect::<Vec<u8>>()));
        hs(CLIENT_HELLO, &b)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    Hello,
    EncExt,
    CertOrReq,
    Cert,
    Verify,
    Finished,
    Done,
}

/// The reference client, to be connected with the server under test
pub struct Cli {
    pub cfg: CliCfg,
    pub ch: Vec<u8>,
    pub wait: Wait,
    pub tr: Vec<u8>,
    rx: Vec<u8>,
    hsbuf: Vec<u8>,
    pub suite: u16,
    pub sched: Option<Sched>,
    pub shared: Vec<u8>,
    pub server_random: Vec<u8>,
    pub rd: Option<Dir>,
    pub rd_epoch: u8,
    pub wr: Option<Dir>,
    pub app: Option<(Vec<u8>, Vec<u8>)>,
    pub app_wr: Option<Dir>,
    pub req_ctx: Option<Vec<u8>>,
    pub server_leaf: Vec<u8>,
    pub server_sig: Vec<u8>,
    /// What the server had to sign
    pub server_signed: Vec<u8>,
    pub server_kse: Vec<u8>,
    pub ev: Vec<Ev>,
    /// What the server did wrong
    pub bad: Vec<String>,
    /// All records as they were received
    pub recs: Vec<Rec>,
    pub flights: usize,
    /// Hash transcript at the end of the server flight
    pub tr_server_finished: Vec<u8>,
    pub got_alert: Option<(u8, u8, u8)>,
    /// Every entry arrives at once at the other side
    pub out: VecDeque<Vec<u8>>,
    /// Close the connection when nothing is left in out
    pub eof: bool,
    /// How often the other side waited for data which never comes
    pub starved: usize,
}

impl Cli {
    pub fn new(cfg: CliCfg) -> Cli {
        Cli {
            ch: cfg.hello(),
            cfg,
            wait: Wait::Hello,
            tr: vec![],
            rx: vec![],
            hsbuf: vec![],
            suite: 0,
            sched: None,
            shared: vec![],
            server_random: vec![],
            rd: None,
            rd_epoch: 0,
            wr: None,
            app: None,
            app_wr: None,
            req_ctx: None,
            server_leaf: vec![],
            server_sig: vec![],
            server_signed: vec![],
            server_kse: vec![],
            ev: vec![],
            bad: vec![],
            recs: vec![],
            flights: 0,
            tr_server_finished: vec![],
            got_alert: None,
            out: VecDeque::new(),
            eof: false,
            starved: 0,
        }
    }
    /// The ClientHello which is sent, part of the transcript
    pub fn set_hello(&mut self, ch: Vec<u8>) {
        self.ch = ch;
    }
    pub fn sent_hello(&mut self) {
        self.tr = self.ch.clone();
    }
    pub fn partial(&self) -> usize {
        self.rx.len()
    }

    /// Bytes from the server
    pub fn feed(&mut self, data: &[u8]) {
        self.rx.extend_from_slice(data);
        for r in take_recs(&mut self.rx) {
            self.recs.push(r.clone());
            if let Err(e) = self.record(r) {
                self.bad.push(e);
            }
        }
    }
    fn record(&mut self, r: Rec) -> Result<(), String> {
        if r.ver != [3, 3] {
            return Err(format!("record version {:02x?}", r.ver));
        }
        if self.got_alert.is_some() {
            return Err("record after a fatal alert".into());
        }
        let (typ, data, epoch) = match &mut self.rd {
            None => {
                if r.body.len() > 1 << 14 {
                    return Err("plaintext record too long".into());
                }
                if r.typ == APPDATA {
                    return Err("application data without keys".into());
                }
                (r.typ, r.body, 0)
            }
            Some(d) => {
                if r.typ == CCS {
                    (r.typ, r.body, 0)
                } else {
                    if r.typ != APPDATA {
                        return Err(format!("unprotected record of type {} after ServerHello", r.typ));
                    }
                    if r.body.len() > (1 << 14) + 256 {
                        return Err("protected record too long".into());
                    }
                    match d.open(&r) {
                        None => return Err("record of the server does not decrypt with the expected key and sequence number".into()),
                        Some((t, p, pad)) => {
                            if p.len() + pad > 1 << 14 {
                                return Err("inner plaintext too long".into());
                            }
                            (t, p, self.rd_epoch)
                        }
                    }
                }
            }
        };
        match typ {
            CCS => {
                if data != [1] || epoch != 0 {
                    return Err("bad ChangeCipherSpec".into());
                }
                if self.wait == Wait::Hello || self.wait == Wait::Done {
                    return Err("ChangeCipherSpec at the wrong time".into());
                }
                self.ev.push(Ev::Ccs);
            }
            ALERT => {
                if data.len() != 2 {
                    return Err("alert with wrong length".into());
                }
                self.ev.push(Ev::Alert(data[0], data[1], epoch));
                self.got_alert = Some((data[0], data[1], epoch));
            }
            HANDSHAKE => {
                if data.is_empty() {
                    return Err("empty handshake record".into());
                }
                self.hsbuf.extend(data);
                while self.hsbuf.len() >= 4 {
                    let n = 4 + (((self.hsbuf[1] as usize) << 16) | ((self.hsbuf[2] as usize) << 8) | self.hsbuf[3] as usize);
                    if self.hsbuf.len() < n {
                        break;
                    }
                    let m: Vec<u8> = self.hsbuf.drain(..n).collect();
                    self.message(&m).map_err(|e| format!("handshake message {}: {e}", m[0]))?;
                }
            }
            APPDATA => {
                if epoch != 2 {
                    return Err("application data with the wrong keys".into());
                }
                if self.wait != Wait::Done {
                    return Err("application data during the handshake".into());
                }
                self.ev.push(Ev::App(data));
            }
            _ => return Err(format!("record of unknown type {typ}")),
        }
        Ok(())
    }
    fn message(&mut self, m: &[u8]) -> Result<(), String> {
        self.ev.push(Ev::Hs(m[0]));
        let mut r = Rd(&m[4..]);
        match (self.wait, m[0]) {
            (Wait::Hello, SERVER_HELLO) => {
                if r.take(2)? != [3, 3] {
                    return Err("legacy_version".into());
                }
                self.server_random = r.take(32)?.to_vec();
                if r.v8()? != self.cfg.session_id {
                    return Err("session id is not echoed".into());
                }
                self.suite = r.u16()?;
                if !self.cfg.suites.contains(&self.suite) || !SUITES.contains(&self.suite) {
                    return Err(format!("selected the suite {:04x} which was not offered", self.suite));
                }
                if r.u8()? != 0 {
                    return Err("compression".into());
                }
                let e = r.exts()?;
                r.end()?;
                for (t, _) in &e {
                    if *t != 0x2b && *t != 0x33 {
                        return Err(format!("extension {t} is not allowed in ServerHello"));
                    }
                }
                match e.iter().find(|e| e.0 == 0x2b) {
                    Some((_, [3, 4])) => (),
                    _ => return Err("supported_versions".into()),
                }
                let ks = e.iter().find(|e| e.0 == 0x33).ok_or("no key_share")?.1;
                let mut k = Rd(ks);
                if k.u16()? != 0x1d {
                    return Err("key_share of another group".into());
                }
                let p: [u8; 32] = k.v16()?.try_into().map_err(|_| "length of key_share")?;
                k.end()?;
                if !self.hsbuf.is_empty() {
                    return Err("message spans the key change".into());
                }
                self.server_kse = p.to_vec();
                self.shared = dh(&self.cfg.sk, &p).to_vec();
                self.tr.extend_from_slice(m);
                let s = Sched::new(self.suite, &self.shared, &self.tr);
                self.rd = Some(Dir::new(self.suite, &s.server_hs));
                self.rd_epoch = 1;
                self.wr = Some(Dir::new(self.suite, &s.client_hs));
                self.sched = Some(s);
                self.wait = Wait::EncExt;
                return Ok(());
            }
            (Wait::EncExt, ENCRYPTED_EXTENSIONS) => {
                let e = r.exts()?;
                r.end()?;
                for (t, _) in &e {
                    if [0x0d, 0x2b, 0x33, 0x29, 0x2c, 0x2d, 0x2f, 0x30].contains(t) {
                        return Err(format!("extension {t} is not allowed in EncryptedExtensions"));
                    }
                }
                self.wait = Wait::CertOrReq;
            }
            (Wait::CertOrReq, CERTIFICATE_REQUEST) => {
                self.req_ctx = Some(r.v8()?.to_vec());
                let e = r.exts()?;
                r.end()?;
                let a = e.iter().find(|e| e.0 == 0x0d).ok_or("no signature_algorithms")?.1;
                let mut a = Rd(a);
                let l = a.v16()?;
                a.end()?;
                if l.is_empty() || l.len() % 2 != 0 {
                    return Err("signature_algorithms".into());
                }
                if !l.chunks(2).any(|c| c == [4, 3]) {
                    return Err("signature_algorithms without ecdsa_secp256r1_sha256".into());
                }
                self.wait = Wait::Cert;
            }
            (Wait::CertOrReq | Wait::Cert, CERTIFICATE) => {
                if !r.v8()?.is_empty() {
                    return Err("context of the server certificate".into());
                }
                let mut l = Rd(r.v24()?);
                r.end()?;
                self.server_leaf = l.v24()?.to_vec();
                if self.server_leaf.is_empty() {
                    return Err("empty certificate".into());
                }
                l.v16()?;
                while !l.0.is_empty() {
                    l.v24()?;
                    l.v16()?;
                }
                if let Some((c, _)) = &self.cfg.server_cert {
                    if *c != self.server_leaf {
                        return Err("not the configured certificate".into());
                    }
                }
                self.wait = Wait::Verify;
            }
            (Wait::Verify, CERTIFICATE_VERIFY) => {
                if r.u16()? != 0x0403 {
                    return Err("signature scheme".into());
                }
                let sig = r.v16()?;
                r.end()?;
                self.server_sig = sig.to_vec();
                self.server_signed = cv_content("server", self.suite, &self.tr);
                if let Some((_, q)) = &self.cfg.server_cert {
                    if !ref_verify(q, &cv_content("server", self.suite, &self.tr), sig) {
                        return Err("signature is not valid".into());
                    }
                }
                self.wait = Wait::Finished;
            }
            (Wait::Finished, FINISHED) => {
                let s = self.sched.as_ref().unwrap();
                if m[4..] != verify_data(self.suite, &s.server_hs, &self.tr) {
                    return Err("verify_data".into());
                }
                self.tr.extend_from_slice(m);
                if !self.hsbuf.is_empty() {
                    return Err("message spans the key change".into());
                }
                let app = s.app(&self.tr);
                self.tr_server_finished = self.tr.clone();
                self.rd = Some(Dir::new(self.suite, &app.1));
                self.app_wr = Some(Dir::new(self.suite, &app.0));
                self.rd_epoch = 2;
                self.app = Some(app);
                self.wait = Wait::Done;
                return Ok(());
            }
            (Wait::Done, NEW_SESSION_TICKET) => return Ok(()),
            (w, t) => return Err(format!("unexpected message {t} in state {w:?}")),
        }
        self.tr.extend_from_slice(m);
        Ok(())
    }

    // -------- messages of the client, each extends the transcript

    pub fn m_cert(&mut self, chain: &[Vec<u8>]) -> Vec<u8> {
        let m = hs(CERTIFICATE, &cert_body(&self.req_ctx.clone().unwrap_or_default(), chain));
        self.tr.extend_from_slice(&m);
        m
    }
    pub fn m_verify(&mut self, d: &U) -> Vec<u8> {
        let m = hs(CERTIFICATE_VERIFY, &cv_body("client", self.suite, &self.tr, d));
        self.tr.extend_from_slice(&m);
        m
    }
    pub fn m_finished(&mut self) -> Vec<u8> {
        let v = verify_data(self.suite, &self.sched.as_ref().unwrap().client_hs, &self.tr);
        let m = hs(FINISHED, &v);
        self.tr.extend_from_slice(&m);
        m
    }
    /// The honest second flight, as single handshake messages
    pub fn honest_messages(&mut self, auth: Option<(&[Vec<u8>], &U)>) -> Vec<Vec<u8>> {
        let mut v = vec![];
        if self.req_ctx.is_some() {
            match auth {
                Some((chain, d)) => {
                    v.push(self.m_cert(chain));
                    v.push(self.m_verify(d));
                }
                None => v.push(self.m_cert(&[])),
            }
        }
        v.push(self.m_finished());
        v
    }
    /// Use the application keys for everything which is sent from now on
    pub fn to_app(&mut self) {
        self.wr = self.app_wr.clone();
    }
    pub fn app_data(&self) -> Vec<u8> {
        self.ev
            .iter()
            .filter_map(|e| match e {
                Ev::App(d) => Some(d.clone()),
                _ => None,
            })
            .collect::<Vec<_>>()
            .concat()
    }
}

// ------------------------------------------------------------------ server

#[derive(Clone)]
pub struct SrvCfg {
    pub suite: u16,
    pub random: [u8; 32],
    pub sk: [u8; 32],
    pub cert: Vec<Vec<u8>>,
    pub key: U,
    /// Context of the CertificateRequest
    pub request: Option<Vec<u8>>,
}

/// The reference server, to be connected with the client under test
pub struct Srv {
    pub cfg: SrvCfg,
    pub wait: Wait,
    pub tr: Vec<u8>,
    rx: Vec<u8>,
    hsbuf: Vec<u8>,
    pub ch: Vec<u8>,
    pub client_random: Vec<u8>,
    pub session_id: Vec<u8>,
    pub offered: Vec<u16>,
    pub client_exts: Vec<(u16, Vec<u8>)>,
    pub client_kse: Vec<u8>,
    pub shared: Vec<u8>,
    pub sched: Option<Sched>,
    pub rd: Option<Dir>,
    pub rd_epoch: u8,
    pub wr: Option<Dir>,
    pub app: Option<(Vec<u8>, Vec<u8>)>,
    pub client_chain: Vec<Vec<u8>>,
    pub client_key: Option<(U, U)>,
    pub client_sig: Vec<u8>,
    pub client_signed: Vec<u8>,
    pub ev: Vec<Ev>,
    pub bad: Vec<String>,
    pub recs: Vec<Rec>,
    pub got_alert: Option<(u8, u8, u8)>,
    /// transcript after the own Finished
    pub tr_finished: Vec<u8>,
    pub flights: usize,
    pub out: VecDeque<Vec<u8>>,
    pub eof: bool,
    pub starved: usize,
}

impl Srv {
    pub fn new(cfg: SrvCfg) -> Srv {
        Srv {
            cfg,
            wait: Wait::Hello,
            tr: vec![],
            rx: vec![],
            hsbuf: vec![],
            ch: vec![],
            client_random: vec![],
            session_id: vec![],
            offered: vec![],
            client_exts: vec![],
            client_kse: vec![],
            shared: vec![],
            sched: None,
            rd: None,
            rd_epoch: 0,
            wr: None,
            app: None,
            client_chain: vec![],
            client_key: None,
            client_sig: vec![],
            client_signed: vec![],
            ev: vec![],
            bad: vec![],
            recs: vec![],
            got_alert: None,
            tr_finished: vec![],
            flights: 0,
            out: VecDeque::new(),
            eof: false,
            starved: 0,
        }
    }
    pub fn partial(&self) -> usize {
        self.rx.len()
    }
    pub fn feed(&mut self, data: &[u8]) {
        self.rx.extend_from_slice(data);
        for r in take_recs(&mut self.rx) {
            self.recs.push(r.clone());
            if let Err(e) = self.record(r) {
                self.bad.push(e);
            }
        }
    }
    fn record(&mut self, r: Rec) -> Result<(), String> {
        if r.ver != [3, 3] && !(self.wait == Wait::Hello && r.ver == [3, 1]) {
            return Err(format!("record version {:02x?}", r.ver));
        }
        if self.got_alert.is_some() {
            return Err("record after a fatal alert".into());
        }
        let (typ, data, epoch) = match &mut self.rd {
            None => {
                if r.body.len() > 1 << 14 {
                    return Err("plaintext record too long".into());
                }
                if r.typ == APPDATA {
                    return Err("application data without keys".into());
                }
                (r.typ, r.body, 0)
            }
            Some(d) => {
                if r.typ == CCS {
                    (r.typ, r.body, 0)
                } else {
                    if r.typ != APPDATA {
                        return Err(format!("unprotected record of type {} after ServerHello", r.typ));
                    }
                    if r.body.len() > (1 << 14) + 256 {
                        return Err("protected record too long".into());
                    }
                    match d.open(&r) {
                        None => return Err("record of the client does not decrypt with the expected key and sequence number".into()),
                        Some((t, p, pad)) => {
                            if p.len() + pad > 1 << 14 {
                                return Err("inner plaintext too long".into());
                            }
                            (t, p, self.rd_epoch)
                        }
                    }
                }
            }
        };
        match typ {
            CCS => {
                if data != [1] || epoch != 0 {
                    return Err("bad ChangeCipherSpec".into());
                }
                if self.wait == Wait::Hello || self.wait == Wait::Done {
                    return Err("ChangeCipherSpec at the wrong time".into());
                }
                self.ev.push(Ev::Ccs);
            }
            ALERT => {
                if data.len() != 2 {
                    return Err("alert with wrong length".into());
                }
                self.ev.push(Ev::Alert(data[0], data[1], epoch));
                self.got_alert = Some((data[0], data[1], epoch));
            }
            HANDSHAKE => {
                if data.is_empty() {
                    return Err("empty handshake record".into());
                }
                self.hsbuf.extend(data);
                while self.hsbuf.len() >= 4 {
                    let n = 4 + (((self.hsbuf[1] as usize) << 16) | ((self.hsbuf[2] as usize) << 8) | self.hsbuf[3] as usize);
                    if self.hsbuf.len() < n {
                        break;
                    }
                    let m: Vec<u8> = self.hsbuf.drain(..n).collect();
                    self.message(&m).map_err(|e| format!("handshake message {}: {e}", m[0]))?;
                }
            }
            APPDATA => {
                if epoch != 2 {
                    return Err("application data with the wrong keys".into());
                }
                self.ev.push(Ev::App(data));
            }
            _ => return Err(format!("record of unknown type {typ}")),
        }
        Ok(())
    }
    fn message(&mut self, m: &[u8]) -> Result<(), String> {
        self.ev.push(Ev::Hs(m[0]));
        let mut r = Rd(&m[4..]);
        match (self.wait, m[0]) {
            (Wait::Hello, CLIENT_HELLO) => {
                if r.take(2)? != [3, 3] {
                    return Err("legacy_version".into());
                }
                self.client_random = r.take(32)?.to_vec();
                self.session_id = r.v8()?.to_vec();
                if self.session_id.len() > 32 {
                    return Err("session id".into());
                }
                let cs = r.v16()?;
                if cs.is_empty() || cs.len() % 2 != 0 {
                    return Err("cipher suites".into());
                }
                self.offered = cs.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
                if r.v8()? != [0] {
                    return Err("compression".into());
                }
                let e = r.exts()?;
                r.end()?;
                self.client_exts = e.iter().map(|e| (e.0, e.1.to_vec())).collect();
                let get = |t: u16| e.iter().find(|e| e.0 == t).map(|e| e.1);
                let mut v = Rd(get(0x2b).ok_or("no supported_versions")?);
                let l = v.v8()?;
                v.end()?;
                if l.is_empty() || l.len() % 2 != 0 || !l.chunks(2).any(|c| c == [3, 4]) {
                    return Err("supported_versions".into());
                }
                let mut v = Rd(get(0x0d).ok_or("no signature_algorithms")?);
                let l = v.v16()?;
                v.end()?;
                if l.is_empty() || l.len() % 2 != 0 || !l.chunks(2).any(|c| c == [4, 3]) {
                    return Err("signature_algorithms".into());
                }
                let mut v = Rd(get(0x0a).ok_or("no supported_groups")?);
                let groups = v.v16()?;
                v.end()?;
                if groups.is_empty() || groups.len() % 2 != 0 {
                    return Err("supported_groups".into());
                }
                let mut v = Rd(get(0x33).ok_or("no key_share")?);
                let mut l = Rd(v.v16()?);
                v.end()?;
                let mut seen: Vec<&[u8]> = vec![];
                while !l.0.is_empty() {
                    let g = l.take(2)?;
                    let k = l.v16()?;
                    if seen.contains(&g) || !groups.chunks(2).any(|c| c == g) {
                        return Err("key_share of a group twice or not in supported_groups".into());
                    }
                    seen.push(g);
                    if g == [0, 0x1d] {
                        if k.len() != 32 {
                            return Err("length of key_share".into());
                        }
                        self.client_kse = k.to_vec();
                    }
                }
                if self.client_kse.is_empty() {
                    return Err("no X25519 key_share".into());
                }
                if let Some(sn) = get(0) {
                    let mut v = Rd(sn);
                    let mut l = Rd(v.v16()?);
                    v.end()?;
                    if l.u8()? != 0 || l.v16()?.is_empty() {
                        return Err("server_name".into());
                    }
                    l.end()?;
                }
                if !self.hsbuf.is_empty() {
                    return Err("data after ClientHello".into());
                }
                self.ch = m.to_vec();
                self.tr.extend_from_slice(m);
                self.wait = Wait::Finished;
                if self.cfg.request.is_some() {
                    self.wait = Wait::Cert;
                }
                return Ok(());
            }
            (Wait::Cert, CERTIFICATE) => {
                if r.v8()? != self.cfg.request.as_deref().unwrap() {
                    return Err("context of the client certificate".into());
                }
                let mut l = Rd(r.v24()?);
                r.end()?;
                self.client_chain.clear();
                while !l.0.is_empty() {
                    self.client_chain.push(l.v24()?.to_vec());
                    l.v16()?;
                }
                self.wait = if self.client_chain.is_empty() { Wait::Finished } else { Wait::Verify };
            }
            (Wait::Verify, CERTIFICATE_VERIFY) => {
                if r.u16()? != 0x0403 {
                    return Err("signature scheme".into());
                }
                let sig = r.v16()?;
                r.end()?;
                self.client_sig = sig.to_vec();
                self.client_signed = cv_content("client", self.cfg.suite, &self.tr);
                if let Some(q) = &self.client_key {
                    if !ref_verify(q, &cv_content("client", self.cfg.suite, &self.tr), sig) {
                        return Err("signature is not valid".into());
                    }
                }
                self.wait = Wait::Finished;
            }
            (Wait::Finished, FINISHED) if self.app.is_some() => {
                let s = self.sched.as_ref().unwrap();
                if m[4..] != verify_data(self.cfg.suite, &s.client_hs, &self.tr) {
                    return Err("verify_data".into());
                }
                self.rd = Some(Dir::new(self.cfg.suite, &self.app.as_ref().unwrap().0));
                self.rd_epoch = 2;
                self.wait = Wait::Done;
            }
            (w, t) => return Err(format!("unexpected message {t} in state {w:?}")),
        }
        self.tr.extend_from_slice(m);
        Ok(())
    }

    // -------- messages of the server, each extends the transcript

    pub fn sh_body(&self) -> Vec<u8> {
        let mut b = vec![3, 3];
        b.extend_from_slice(&self.cfg.random);
        b.extend(v8(&self.session_id));
        b.extend(self.cfg.suite.to_be_bytes());
        b.push(0);
        let ks = [&[0, 0x1d][..], &v16(&dh(&self.cfg.sk, &BASE))].concat();
        b.extend(v16(&[ext(0x2b, &[3, 4]), ext(0x33, &ks)].concat()));
        b
    }
    pub fn m_hello(&mut self) -> Vec<u8> {
        let b = self.sh_body();
        self.m_hello_with(hs(SERVER_HELLO, &b))
    }
    /// ServerHello as given, the keys are derived as if it was the honest one
    pub fn m_hello_with(&mut self, m: Vec<u8>) -> Vec<u8> {
        self.tr.extend_from_slice(&m);
        let p: [u8; 32] = self.client_kse.clone().try_into().unwrap_or([9; 32]);
        self.shared = dh(&self.cfg.sk, &p).to_vec();
        self.rekey();
        m
    }
    pub fn rekey(&mut self) {
        let s = Sched::new(self.cfg.suite, &self.shared, &self.tr);
        self.wr = Some(Dir::new(self.cfg.suite, &s.server_hs));
        self.rd = Some(Dir::new(self.cfg.suite, &s.client_hs));
        self.rd_epoch = 1;
        self.sched = Some(s);
    }
    pub fn msg(&mut self, typ: u8, body: &[u8]) -> Vec<u8> {
        let m = hs(typ, body);
        self.tr.extend_from_slice(&m);
        m
    }
    pub fn m_ee(&mut self) -> Vec<u8> {
        self.msg(ENCRYPTED_EXTENSIONS, &[0, 0])
    }
    pub fn m_request(&mut self) -> Vec<u8> {
        let ctx = self.cfg.request.clone().unwrap_or_default();
        let b = [v8(&ctx), v16(&ext(0x0d, &v16(&[4, 3])))].concat();
        self.msg(CERTIFICATE_REQUEST, &b)
    }
    pub fn m_cert(&mut self) -> Vec<u8> {
        let b = cert_body(&[], &self.cfg.cert.clone());
        self.msg(CERTIFICATE, &b)
    }
    pub fn m_verify(&mut self) -> Vec<u8> {
        let b = cv_body("server", self.cfg.suite, &self.tr, &self.cfg.key);
        self.msg(CERTIFICATE_VERIFY, &b)
    }
    pub fn m_finished(&mut self) -> Vec<u8> {
        let v = verify_data(self.cfg.suite, &self.sched.as_ref().unwrap().server_hs, &self.tr);
        let m = self.msg(FINISHED, &v);
        self.finish();
        m
    }
    /// Derive the application keys
    pub fn finish(&mut self) {
        self.tr_finished = self.tr.clone();
        self.app = Some(self.sched.as_ref().unwrap().app(&self.tr));
    }
    pub fn to_app(&mut self) {
        self.wr = Some(Dir::new(self.cfg.suite, &self.app.as_ref().unwrap().1));
    }
    /// The honest protected messages after the ServerHello
    pub fn honest_messages(&mut self) -> Vec<Vec<u8>> {
        let mut v = vec![self.m_ee()];
        if self.cfg.request.is_some() {
            v.push(self.m_request());
        }
        v.push(self.m_cert());
        v.push(self.m_verify());
        v.push(self.m_finished());
        v
    }
    pub fn app_data(&self) -> Vec<u8> {
        self.ev
            .iter()
            .filter_map(|e| match e {
                Ev::App(d) => Some(d.clone()),
                _ => None,
            })
            .collect::<Vec<_>>()
            .concat()
    }
}

/// Digests which do not belong to the signed content of a CertificateVerify, each derived from the
/// right content by one change of its construction; names are the same for every transcript of a suite
pub fn wrong_contents(label: &str, suite: u16, tr: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let h = suite_hash(suite).hash(tr);
    let other = if suite == AES256 { sha256(tr).to_vec() } else { sha384(tr).to_vec() };
    let parts: Vec<Vec<u8>> =
        vec![vec![0x20; 64], b"TLS 1.3, ".to_vec(), label.as_bytes().to_vec(), b" CertificateVerify".to_vec(), vec![0], h.clone()];
    let good = cv_content(label, suite, tr);
    assert_eq!(good, parts.concat());
    let mut add = |n: String, c: Vec<u8>| v.push((n, sha256(&c).to_vec()));
    // parts left out
    for mask in 1..64usize {
        add(format!("without-{mask:06b}"), (0..6).filter(|i| mask >> i & 1 == 0).flat_map(|i| parts[i].clone()).collect());
    }
    // parts exchanged, parts twice
    for i in 0..6 {
        for j in 0..i {
            let mut p = parts.clone();
            p.swap(i, j);
            add(format!("exchanged-{i}-{j}"), p.concat());
        }
        let mut p = parts.clone();
        p.insert(i, parts[i].clone());
        add(format!("twice-{i}"), p.concat());
    }
    // another part
    let mut with = |n: &str, i: usize, x: &[u8]| {
        let mut p = parts.clone();
        p[i] = x.to_vec();
        add(format!("{n}"), p.concat())
    };
    for n in (1..160).filter(|n| *n != 64) {
        with(&format!("spaces-{n}"), 0, &vec![0x20; n]);
    }
    for b in (0..=255u8).filter(|b| *b != 0x20) {
        with(&format!("padding-{b:02x}"), 0, &[b; 64]);
    }
    for s in ["TLS 1.2, ", "TLS 1.0, ", "TLS 1.4, ", "TLS1.3, ", "TLS 1.3 ", "TLS 1.3,", "tls 1.3, ", "tls13 ", "DTLS 1.3, ", "SSL 3.0, ", "TLS 1.3, TLS 1.3, "] {
        with(&format!("version-{s}"), 1, s.as_bytes());
    }
    for s in ["server", "client", "Server", "Client", "SERVER", "CLIENT", "peer", "exporter", "c", "s", "clients", "servers"] {
        if s != label {
            with(&format!("who-{s}"), 2, s.as_bytes());
        }
    }
    for s in [" Certificate Verify", " certificateverify", " CertificateVerif", "CertificateVerify", " Certificate", " Finished", " CertificateRequest", " CertificateVerify ", " CertificateVerify\n"] {
        with(&format!("what-{s}"), 3, s.as_bytes());
    }
    for b in 1..=255u8 {
        with(&format!("separator-{b:02x}"), 4, &[b]);
    }
    for n in 0..h.len() {
        with(&format!("digest-first-{n}"), 5, &h[..n]);
        with(&format!("digest-last-{n}"), 5, &h[h.len() - n..]);
    }
    let hex: String = h.iter().map(|b| format!("{b:02x}")).collect();
    with("digest-other", 5, &other);
    with("digest-twice", 5, &suite_hash(suite).hash(&h));
    with("digest-hex", 5, hex.as_bytes());
    with("digest-zeros", 5, &vec![0; h.len()]);
    with("digest-of-nothing", 5, &suite_hash(suite).hash(&[]));
    with("digest-transcript", 5, tr);
    with("digest-and-zero", 5, &[&h[..], &[0]].concat());
    with("digest-and-other", 5, &[&h[..], &other].concat());
    with("digest-reversed", 5, &h.iter().rev().cloned().collect::<Vec<u8>>());
    // one byte
    for i in 0..good.len() {
        for bit in 0..8 {
            let mut x = good.clone();
            x[i] ^= 1 << bit;
            add(format!("changed-{i}-{bit}"), x);
        }
        if i == 0 || i >= 64 {
            let mut x = good.clone();
            x.remove(i);
            add(format!("removed-{i}"), x);
            let mut x = good.clone();
            x.insert(i, 0);
            add(format!("inserted-{i}"), x);
        }
    }
    for n in 1..good.len() {
        add(format!("cut-{n}"), good[..n].to_vec());
        add(format!("last-{n}"), good[good.len() - n..].to_vec());
    }
    add("plus-zero".into(), [&good[..], &[0]].concat());
    add("plus-itself".into(), [&good[..], &good[..]].concat());
    add("transcript".into(), tr.to_vec());
    // the digest itself instead of a content
    let d = sha256(&good).to_vec();
    let mut raw = |n: &str, x: Vec<u8>| v.push((n.to_string(), x));
    raw("raw-transcript-digest", h[..32].to_vec());
    raw("raw-other-digest", other[..32].to_vec());
    raw("raw-content", good[..32].to_vec());
    raw("raw-content-end", good[good.len() - 32..].to_vec());
    raw("raw-digest-of-digest", sha256(&d).to_vec());
    raw("raw-sha384", sha384(&good)[..32].to_vec());
    raw("raw-zero", vec![0; 32]);
    raw("raw-reversed", d.iter().rev().cloned().collect());
    for i in 0..256 {
        let mut x = d.clone();
        x[i / 8] ^= 1 << (i % 8);
        raw(&format!("raw-bit-{i}"), x);
    }
    for n in 1..32 {
        let mut x = d.clone();
        x[n..].fill(0);
        raw(&format!("raw-first-{n}"), x);
        let mut x = d.clone();
        x[..n].fill(0);
        raw(&format!("raw-last-{}", 32 - n), x);
    }
    v
}
/// CertificateVerify with a signature of this digest
pub fn cv_body_digest(digest: &[u8], d: &U) -> Vec<u8> {
    let (r, s) = p256().sign(d, digest, &ref_nonce(d, digest));
    [&[4, 3][..], &v16(&sig_der(&r, &s))].concat()
}
