//! Certificates and keys of the harness, made from scratch so every field can be varied

use crate::refc::*;

pub const OID_EC: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01];
pub const OID_P256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];
pub const OID_ECDSA_SHA256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02];
pub const OID_CN: &[u8] = &[0x55, 4, 3];
pub const OID_SERIAL: &[u8] = &[0x55, 4, 5];
pub const OID_C: &[u8] = &[0x55, 4, 6];
pub const OID_L: &[u8] = &[0x55, 4, 7];
pub const OID_ST: &[u8] = &[0x55, 4, 8];
pub const OID_O: &[u8] = &[0x55, 4, 10];
pub const OID_OU: &[u8] = &[0x55, 4, 11];
pub const OID_EMAIL: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1];

pub type Rdn = (Vec<u8>, u8, Vec<u8>);

pub fn name(rdns: &[Rdn]) -> Vec<u8> {
    let body: Vec<u8> = rdns
        .iter()
        .flat_map(|(oid, tag, v)| der(0x31, &der(0x30, &[der(6, oid), der(*tag, v)].concat())))
        .collect();
    der(0x30, &body)
}
pub fn cn(s: &str) -> Vec<Rdn> {
    vec![(OID_CN.to_vec(), 0x0c, s.as_bytes().to_vec())]
}
pub fn point(q: &(U, U)) -> Vec<u8> {
    [&[4][..], &u_to_be(&q.0), &u_to_be(&q.1)].concat()
}
pub fn spki(q: &(U, U)) -> Vec<u8> {
    spki_raw(&point(q))
}
pub fn spki_raw(p: &[u8]) -> Vec<u8> {
    let alg = der(0x30, &[der(6, OID_EC), der(6, OID_P256)].concat());
    der(0x30, &[alg, der(3, &[&[0][..], p].concat())].concat())
}

#[derive(Clone)]
pub struct CertSpec {
    pub version: Option<u8>,
    pub serial: Vec<u8>,
    pub issuer: Vec<Rdn>,
    pub subject: Vec<Rdn>,
    pub not_before: (u8, Vec<u8>),
    pub not_after: (u8, Vec<u8>),
    pub spki: Vec<u8>,
    pub sig_oid: Vec<u8>,
    /// (oid, critical, value)
    pub exts: Vec<(Vec<u8>, bool, Vec<u8>)>,
}
impl CertSpec {
    pub fn new(issuer: &str, subject: &str, q: &(U, U)) -> CertSpec {
        CertSpec {
            version: Some(2),
            serial: vec![0x11, 0x22, 0x33],
            issuer: cn(issuer),
            subject: cn(subject),
            not_before: (0x17, b"200101000000Z".to_vec()),
            not_after: (0x17, b"300101000000Z".to_vec()),
            spki: spki(q),
            sig_oid: OID_ECDSA_SHA256.to_vec(),
            exts: vec![],
        }
    }
    pub fn tbs(&self) -> Vec<u8> {
        let mut b = vec![];
        if let Some(v) = self.version {
            b.extend(der(0xa0, &der(2, &[v])));
        }
        b.extend(der(2, &self.serial));
        b.extend(der(0x30, &der(6, &self.sig_oid)));
        b.extend(name(&self.issuer));
        b.extend(der(0x30, &[der(self.not_before.0, &self.not_before.1), der(self.not_after.0, &self.not_after.1)].concat()));
        b.extend(name(&self.subject));
        b.extend(&self.spki);
        if !self.exts.is_empty() {
            let e: Vec<u8> = self
                .exts
                .iter()
                .flat_map(|(o, c, v)| {
                    let mut x = der(6, o);
                    if *c {
                        x.extend(der(1, &[0xff]));
                    }
                    x.extend(der(4, v));
                    der(0x30, &x)
                })
                .collect();
            b.extend(der(0xa3, &der(0x30, &e)));
        }
        der(0x30, &b)
    }
    pub fn sign(&self, d: &U) -> Vec<u8> {
        let tbs = self.tbs();
        let sig = crate::tls::ref_sign(d, &tbs);
        assemble(&tbs, &self.sig_oid, &sig)
    }
}
pub fn assemble(tbs: &[u8], sig_oid: &[u8], sig: &[u8]) -> Vec<u8> {
    der(0x30, &[tbs.to_vec(), der(0x30, &der(6, sig_oid)), der(3, &[&[0][..], sig].concat())].concat())
}

pub fn b64(data: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
pub fn pem(title: &str, data: &[u8]) -> String {
    let mut o = format!("-----BEGIN {title}-----\n");
    for l in b64(data).as_bytes().chunks(64) {
        o += std::str::from_utf8(l).unwrap();
        o.push('\n');
    }
    o + &format!("-----END {title}-----\n")
}
/// RFC 5915
pub fn sec1(d: &U) -> Vec<u8> {
    let q = p256().public(d);
    der(
        0x30,
        &[
            der(2, &[1]),
            der(4, &u_to_be(d)),
            der(0xa0, &der(6, OID_P256)),
            der(0xa1, &der(3, &[&[0][..], &point(&q)].concat())),
        ]
        .concat(),
    )
}

pub struct Id {
    pub key: U,
    pub public: (U, U),
    pub cert: Vec<u8>,
    pub cert_path: String,
    pub key_path: String,
}

/// The identities used by the harness, written to a scratch directory
pub struct Pki {
    pub dir: std::path::PathBuf,
    pub ca: Id,
    pub ca2: Id,
    pub server: Id,
    pub server2: Id,
    /// signed by ca
    pub client: Id,
    /// signed by ca, another key
    pub client2: Id,
    /// signed by ca2, same subject as client
    pub stranger: Id,
    /// self signed
    pub selfsigned: Id,
}
/// 2024-06-15 12:00:00 UTC
pub const NOW: i64 = 1718452800;

impl Pki {
    pub fn new() -> Pki {
        let dir = std::env::temp_dir().join(format!("mc-pki-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let key = |n: u64| {
            let h = sha256(format!("harness key {n}").as_bytes());
            let mut u = u_from_be(&h);
            u[3] &= u64::MAX >> 1;
            u
        };
        let mk = |n: &str, seed: u64, issuer: &str, signer: Option<&U>| {
            let d = key(seed);
            let q = p256().public(&d);
            let mut s = CertSpec::new(issuer, n, &q);
            s.serial = vec![seed as u8 + 1, 0x42];
            let cert = s.sign(signer.unwrap_or(&d));
            let cert_path = dir.join(format!("{seed}.cert")).to_str().unwrap().to_string();
            let key_path = dir.join(format!("{seed}.key")).to_str().unwrap().to_string();
            std::fs::write(&cert_path, pem("CERTIFICATE", &cert)).unwrap();
            std::fs::write(&key_path, pem("EC PRIVATE KEY", &sec1(&d))).unwrap();
            Id { key: d, public: q, cert, cert_path, key_path }
        };
        let ca = mk("Test CA", 1, "Test CA", None);
        let ca2 = mk("Test CA", 2, "Test CA", None);
        let server = mk("localhost", 3, "localhost", None);
        let server2 = mk("other.example", 4, "Test CA", Some(&ca2.key));
        let client = mk("client", 5, "Test CA", Some(&ca.key));
        let client2 = mk("client two", 6, "Test CA", Some(&ca.key));
        let stranger = mk("client", 7, "Test CA", Some(&ca2.key));
        let selfsigned = mk("client", 8, "client", None);
        Pki { ca, ca2, server, server2, client, client2, stranger, selfsigned, dir }
    }
    /// A further file in the scratch directory
    pub fn file(&self, name: &str, content: &[u8]) -> String {
        let p = self.dir.join(name);
        std::fs::write(&p, content).unwrap();
        p.to_str().unwrap().to_string()
    }
}
impl Default for Pki {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Pki {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// UTCTime of the unix time
pub fn utctime(t: i64) -> Vec<u8> {
    // days since 1970 to civil date
    let z = t.div_euclid(86400) + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    let s = t.rem_euclid(86400);
    format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", y % 100, m, d, s / 3600, s / 60 % 60, s % 60).into_bytes()
}
