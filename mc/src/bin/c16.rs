//! C16: certificates of every shape, given to the real decoder and compared with an independent
//! strict decoder; validity times against the clock.

use anothertls::utils::x509::{Algorithms, Version, X509};
use mc::prelude::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ the oracle
const OID_SHA384: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x03];
const OID_RSA_SHA256: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0b];
const OID_RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
const NAMES: [(&str, &[u8]); 7] = [
    ("countryName", OID_C),
    ("stateOrProvinceName", OID_ST),
    ("organizationName", OID_O),
    ("commonName", OID_CN),
    ("emailAddress", OID_EMAIL),
    ("localityName", OID_L),
    ("organizationalUnitName", OID_OU),
];

type Names = BTreeMap<&'static str, Vec<Vec<u8>>>;
#[derive(Debug, Clone, PartialEq)]
struct Fields {
    version: Option<u8>,
    serial: Vec<u8>,
    sig: Vec<u8>,
    issuer: Names,
    subject: Names,
    not_before: i64,
    not_after: i64,
    spki_alg: Vec<u8>,
    spki_param: Option<Vec<u8>>,
    key: Vec<u8>,
    tbs: (usize, usize),
    /// Everything in it is of the kinds a TLS library has to know
    common: bool,
}

struct P<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> P<'a> {
    fn more(&self) -> bool {
        self.at < self.b.len()
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.at).copied()
    }
    fn any(&mut self) -> Result<(u8, &'a [u8]), &'static str> {
        let t = *self.b.get(self.at).ok_or("missing element")?;
        if t & 0x1f == 0x1f {
            return Err("long tag");
        }
        let l0 = *self.b.get(self.at + 1).ok_or("missing length")?;
        let mut p = self.at + 2;
        let n = if l0 < 0x80 {
            l0 as usize
        } else {
            let k = (l0 & 0x7f) as usize;
            if k == 0 || k > 3 {
                return Err("length of length");
            }
            let d = self.b.get(p..p + k).ok_or("missing length")?;
            p += k;
            let n = d.iter().fold(0usize, |a, x| a << 8 | *x as usize);
            if n < 0x80 || d[0] == 0 {
                return Err("not the shortest length");
            }
            n
        };
        let body = self.b.get(p..p + n).ok_or("element longer than what contains it")?;
        self.at = p + n;
        Ok((t, body))
    }
    fn get(&mut self, tag: u8, what: &'static str) -> Result<&'a [u8], &'static str> {
        let (t, b) = self.any()?;
        if t != tag {
            return Err(what);
        }
        Ok(b)
    }
    fn end(&self) -> Result<(), &'static str> {
        if self.more() {
            Err("more than the expected elements")
        } else {
            Ok(())
        }
    }
}
fn p(b: &[u8]) -> P<'_> {
    P { b, at: 0 }
}
/// Is this an object identifier in the shortest form?
fn oid(b: &[u8]) -> bool {
    if b.is_empty() || b[b.len() - 1] & 0x80 != 0 || b[0] == 0x80 || b.windows(2).any(|w| w[0] & 0x80 == 0 && w[1] == 0x80) {
        return false;
    }
    true
}
fn int(b: &[u8]) -> Result<&[u8], &'static str> {
    if b.is_empty() || b.len() > 1 && (b[0] == 0 && b[1] < 0x80 || b[0] == 0xff && b[1] >= 0x80) {
        return Err("integer");
    }
    Ok(b)
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    // civil days
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn utc(b: &[u8]) -> Result<i64, &'static str> {
    if b.len() != 13 || b[12] != b'Z' || !b[..12].iter().all(|c| c.is_ascii_digit()) {
        return Err("time");
    }
    let n = |i: usize| (b[i] - b'0') as i64 * 10 + (b[i + 1] - b'0') as i64;
    let y = if n(0) < 50 { 2000 + n(0) } else { 1900 + n(0) };
    let leap = y % 4 == 0 && y % 100 != 0 || y % 400 == 0;
    let mdays = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let (m, d) = (n(2), n(4));
    if !(1..=12).contains(&m) || d < 1 || d > mdays[m as usize - 1] || n(6) > 23 || n(8) > 59 || n(10) > 59 {
        return Err("time");
    }
    Ok(days(y, m, d) * 86400 + n(6) * 3600 + n(8) * 60 + n(10))
}
fn names(b: &[u8], common: &mut bool) -> Result<Names, &'static str> {
    let mut out = Names::new();
    let mut n = p(b);
    while n.more() {
        let mut s = p(n.get(0x31, "name without a set")?);
        if !s.more() {
            return Err("empty set in a name");
        }
        while s.more() {
            let mut a = p(s.get(0x30, "name attribute")?);
            let o = a.get(6, "attribute type")?;
            *common &= oid(o);
            let (t, v) = a.any()?;
            a.end()?;
            match t {
                0x0c => {
                    std::str::from_utf8(v).map_err(|_| "text")?;
                }
                0x13 | 0x16 => {
                    // whether other text is taken as UTF-8 is not decided
                    *common &= v.is_ascii();
                }
                _ => *common = false,
            }
            match NAMES.iter().find(|x| x.1 == o) {
                Some((k, _)) => out.entry(k).or_default().push(v.to_vec()),
                None => (),
            }
        }
    }
    Ok(out)
}
fn algorithm(b: &[u8], common: &mut bool) -> Result<(Vec<u8>, Option<(u8, Vec<u8>)>), &'static str> {
    let mut a = p(b);
    let o = a.get(6, "algorithm")?;
    *common &= oid(o);
    let mut param = None;
    if a.more() {
        let (t, v) = a.any()?;
        param = Some((t, v.to_vec()));
    }
    a.end()?;
    Ok((o.to_vec(), param))
}
fn oracle(data: &[u8]) -> Result<Fields, &'static str> {
    let mut common = true;
    let mut o = p(data);
    let cert = o.get(0x30, "certificate")?;
    o.end()?;
    let start = data.len() - cert.len();
    let mut c = p(cert);
    let tbs = c.get(0x30, "signed part")?;
    let range = (start, start + c.at);
    let (alg2, par2) = algorithm(c.get(0x30, "signature algorithm")?, &mut common)?;
    let sig = c.get(3, "signature")?;
    c.end()?;
    if sig.first() != Some(&0) {
        return Err("signature bits");
    }

    let mut t = p(tbs);
    let mut version = None;
    if t.peek() == Some(0xa0) {
        let mut v = p(t.get(0xa0, "")?);
        let b = int(v.get(2, "version")?)?;
        v.end()?;
        if b.len() != 1 || b[0] > 2 {
            return Err("version");
        }
        version = Some(b[0]);
    }
    let serial = int(t.get(2, "serial number")?)?;
    if serial[0] >= 0x80 {
        common = false;
    }
    let (alg1, par1) = algorithm(t.get(0x30, "algorithm")?, &mut common)?;
    let rsa = |o: &[u8]| [OID_RSA, OID_RSA_SHA256].contains(&o);
    if rsa(&alg1) && rsa(&alg2) {
        // both are reported as the same
        common = false;
    } else if alg1 != alg2 {
        return Err("algorithms differ");
    }
    if par1 != par2 {
        common = false;
    }
    let issuer = names(t.get(0x30, "issuer")?, &mut common)?;
    let mut v = p(t.get(0x30, "validity")?);
    let mut times = [0; 2];
    for x in &mut times {
        *x = match v.any()? {
            (0x17, b) => utc(b)?,
            (0x18, _) => {
                common = false;
                0
            }
            _ => return Err("time"),
        };
    }
    v.end()?;
    let subject = names(t.get(0x30, "subject")?, &mut common)?;
    let mut s = p(t.get(0x30, "public key")?);
    let (ka, kp) = algorithm(s.get(0x30, "key algorithm")?, &mut common)?;
    let key = s.get(3, "key bits")?;
    s.end()?;
    match key.first() {
        Some(0) => (),
        _ => return Err("key bits"),
    }
    for tag in [0x81u8, 0x82] {
        if t.peek() == Some(tag) {
            // a bit string
            let (_, id) = t.any()?;
            common &= matches!(id, [0, ..] | [1..=7, _, ..]) && version.is_some_and(|v| v > 0);
        }
    }
    if t.peek() == Some(0xa3) {
        let mut e = p(t.get(0xa3, "")?);
        let mut l = p(e.get(0x30, "extensions")?);
        e.end()?;
        // the extensions are not used, nor reported
        let mut all = || {
            while l.more() {
                let mut x = p(l.get(0x30, "extension")?);
                if !oid(x.get(6, "extension type")?) {
                    return Err("extension type");
                }
                if x.peek() == Some(1) {
                    x.any()?;
                }
                x.get(4, "extension value")?;
                x.end()?;
            }
            Ok(())
        };
        if all().is_err() {
            common = false;
        }
        if version != Some(2) {
            common = false;
        }
    }
    t.end()?;
    let ecdsa = [OID_ECDSA_SHA256, OID_SHA384].contains(&&alg1[..]);
    if ecdsa {
        if sig_parse(&sig[1..]).is_none() {
            // also if a number is longer than the curve allows
            let mut q = p(&sig[1..]);
            let mut i = p(q.get(0x30, "signature numbers")?);
            q.end()?;
            for _ in 0..2 {
                let b = int(i.get(2, "signature number")?)?;
                if b[0] >= 0x80 {
                    return Err("signature number");
                }
            }
            i.end()?;
        }
        if par1.is_some() {
            common = false;
        }
    } else if alg1 != OID_RSA_SHA256 {
        common = false;
    }
    let spki_param = match &kp {
        Some((6, o)) => {
            common &= oid(o);
            Some(o.clone())
        }
        _ => None,
    };
    let ec = ka == OID_EC && spki_param.is_some();
    if !(ec || ka == OID_RSA && kp == Some((5, vec![]))) {
        common = false;
    }
    if !ecdsa && par1 != Some((5, vec![])) {
        common = false;
    }
    Ok(Fields {
        version,
        serial: serial.to_vec(),
        sig: alg1,
        issuer,
        subject,
        not_before: times[0],
        not_after: times[1],
        spki_alg: ka,
        spki_param,
        key: key[1..].to_vec(),
        tbs: range,
        common,
    })
}

// ------------------------------------------------------------------ comparison
/// check, but the text is made only if needed
macro_rules! ck {
    ($c:expr, $ok:expr, $($t:tt)*) => { if !$ok { $c.fail(format!($($t)*)) } };
}
fn be(n: &ibig::IBig) -> String {
    format!("{n:x}")
}
fn be_bytes(b: &[u8]) -> String {
    let s: String = b.iter().map(|x| format!("{x:02x}")).collect();
    let s = s.trim_start_matches('0');
    if s.is_empty() {
        "0".into()
    } else {
        s.into()
    }
}
fn algo(o: &[u8]) -> &'static str {
    match o {
        OID_ECDSA_SHA256 => "EcdsaWithSha256",
        OID_SHA384 => "EcdsaWithSha384",
        OID_EC => "EcPublicKey",
        OID_RSA_SHA256 | OID_RSA => "Sha256WithRSAEncryption",
        _ => "?",
    }
}
fn algname(a: &Algorithms) -> String {
    format!("{a:?}")
}
fn short(b: &[u8]) -> String {
    to_hex(b)
}

/// The verdict of the code under test about these bytes is compared with the oracle
fn compare(c: &mut Case, data: &[u8]) -> bool {
    let want = oracle(data);
    let got = caught(|| X509::from_raw(data).map_err(|e| format!("{e:?}")));
    c.nontrivial((&want.as_ref().err(), want.as_ref().ok().map(|f| (f.version, f.not_before, f.not_after, &f.serial)), got.as_ref().map(|g| g.is_ok()).unwrap_or(false)));
    match (want, got) {
        (_, Err(e)) => c.fail(format!("the decoder panics: {e}: {}", short(data))),
        (Err(why), Ok(Ok(_))) => {
            c.outcome(format!("not well-formed ({why}), accepted"));
            c.fail(format!("accepted, though not well-formed ({why}): {}", short(data)))
        }
        (Err(why), Ok(Err(_))) => c.outcome(format!("not well-formed ({why}), refused")),
        (Ok(f), Ok(Err(e))) => {
            if f.common {
                c.fail(format!("a well-formed certificate is refused ({e}): {}", short(data)));
            } else {
                c.outcome("unusual, refused");
            }
        }
        (Ok(f), Ok(Ok(x))) => {
            c.outcome(if f.common { "well-formed, accepted" } else { "unusual, accepted" });
            let t = &x.tbs_certificate;
            let v = t.version.as_ref().map(|v| match v {
                Version::V1 => 0,
                Version::V2 => 1,
                Version::V3 => 2,
            });
            ck!(c, v == f.version, "the version is {v:?}, signed is {:?}: {}", f.version, short(data));
            if f.serial[0] < 0x80 {
                ck!(c, be(&t.serial_number) == be_bytes(&f.serial), "the serial number is {:x}: {}", t.serial_number, short(data));
            }
            ck!(c, algname(&t.signature.algorithm) == algo(&f.sig), "the signed algorithm is {:?}: {}", t.signature.algorithm, short(data));
            ck!(c, algname(&x.signature_algorithm) == algo(&f.sig), "the algorithm is {:?}: {}", x.signature_algorithm, short(data));
            for (which, n, want) in [("issuer", &t.issuer, &f.issuer), ("subject", &t.subject, &f.subject)] {
                for (key, _) in NAMES {
                    let got = n.get(key).ok().map(|s| s.into_bytes());
                    let ok = match want.get(key) {
                        None => got.is_none(),
                        Some(v) => got.as_ref().is_some_and(|g| v.contains(g)),
                    };
                    ck!(c, ok, "{key} of the {which} is {:?}, signed is {:?}: {}", got.map(|g| String::from_utf8_lossy(&g).to_string()), want.get(key), short(data));
                }
            }
            let k = &t.subject_public_key_info;
            ck!(c, algname(&k.algorithm.algorithm) == algo(&f.spki_alg), "the key algorithm is {:?}: {}", k.algorithm.algorithm, short(data));
            ck!(c, k.subject_public_key.as_slice() == f.key, "the public key is {}: {}", short(k.subject_public_key.as_slice()), short(data));
            let usable = f.spki_alg == OID_EC && f.spki_param.as_deref() == Some(OID_P256) && f.key.len() == 65 && f.key[0] == 4;
            match x.get_public_key() {
                None => ck!(c, !usable, "there is no public key: {}", short(data)),
                Some(q) => {
                    let ok = usable && be(&q.point.x) == be_bytes(&f.key[1..33]) && be(&q.point.y) == be_bytes(&f.key[33..65]);
                    ck!(c, ok, "the public key is {:x} {:x}: {}", q.point.x, q.point.y, short(data));
                }
            }
            let raw = t.raw_data.as_deref();
            ck!(c, raw == Some(&data[f.tbs.0..f.tbs.1]), "the checked bytes are not the signed part: {}", short(data));
            return true;
        }
    }
    false
}
/// Valid exactly from notBefore to notAfter
fn validity(c: &mut Case, data: &[u8], f: &Fields, extra: &[i64]) {
    let Ok(Ok(x)) = caught(|| X509::from_raw(data)) else { return };
    let mut at = vec![];
    for t in [f.not_before, f.not_after] {
        at.extend([t - 1, t, t + 1]);
    }
    at.extend(extra);
    for now in at {
        // a clock that shows 1970 is not set
        if now <= 0 {
            continue;
        }
        set_clock(Some(now));
        let want = f.not_before <= now && now <= f.not_after;
        let got = caught(|| x.tbs_certificate.validity.is_valid());
        ck!(c, got == Ok(want), "at {now}, valid from {} to {}: {got:?}: {}", f.not_before, f.not_after, short(data));
        c.count("clock readings", 1);
    }
}

fn time_str(t: i64) -> Vec<u8> {
    // inverse of the oracle, by search
    let d = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    let mut y = 1970 + d / 366;
    while days(y + 1, 1, 1) <= d {
        y += 1;
    }
    while days(y, 1, 1) > d {
        y -= 1;
    }
    let mut m = 1;
    while m < 12 && days(y, m + 1, 1) <= d {
        m += 1;
    }
    let dd = d - days(y, m, 1) + 1;
    format!("{:02}{m:02}{dd:02}{:02}{:02}{:02}Z", y % 100, s / 3600, s / 60 % 60, s % 60).into_bytes()
}

fn main() {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let chk = Check::start(
        "C16",
        "exploration",
        "every day of 1950 to 2049, every second of several days, all two-digit values of every field of a time, all names, versions, serial numbers, keys, \
         algorithms and extensions of small lists and all single changes of every byte of several certificates, decoded by the real code and by an independent \
         strict decoder, which must agree; the validity check at the seconds around both limits",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let base = CertSpec::new("Test CA", "client", &pki.client.public);
    let sig = sig_der(&u_hex("11"), &u_hex("ff01"));
    let make = |s: &CertSpec| -> Vec<u8> { assemble(&s.tbs(), &s.sig_oid, &sig) };
    let bytes_of = |s: &CertSpec| make(s);

    // ------------------------------------------------ times
    let first = days(1950, 1, 1);
    let last = days(2049, 12, 31);
    chk.range("days", (last - first + 1) as usize, |i, c| {
        let d = first + i as i64;
        if !c.begin(format!("{d}")) {
            return;
        }
        fresh(16);
        for s in [0i64, 1, 3599, 43200, 86399] {
            let t = d * 86400 + s;
            let mut x = base.clone();
            x.not_before = (0x17, time_str(t));
            let cert = bytes_of(&x);
            if compare(c, &cert) {
                let f = oracle(&cert).unwrap();
                c.check(f.not_before == t, "harness: time");
                validity(c, &cert, &f, &[0, t + 86400, t - 86400]);
            }
            let mut x = base.clone();
            x.not_before = (0x17, b"500101000000Z".to_vec());
            x.not_after = (0x17, time_str(t));
            let cert = bytes_of(&x);
            if compare(c, &cert) {
                let f = oracle(&cert).unwrap();
                validity(c, &cert, &f, &[0, t + 86400, t - 86400]);
            }
        }
    });
    chk.range("seconds", 24 * 60, |i, c| {
        if !c.begin(format!("{i}")) {
            return;
        }
        fresh(16);
        for day in [days(2024, 2, 29), days(1999, 12, 31), days(2000, 3, 1), days(1970, 1, 1)] {
            for s in 0..60 {
                let t = day * 86400 + i as i64 * 60 + s;
                let mut x = base.clone();
                x.not_before = (0x17, time_str(t));
                x.not_after = (0x17, time_str(t));
                let cert = bytes_of(&x);
                if compare(c, &cert) {
                    validity(c, &cert, &oracle(&cert).unwrap(), &[]);
                }
            }
        }
    });
    // all values of every pair of digits, for several dates
    let dates = ["240229123456", "230131000000", "000228235959", "491231235959", "500101000000", "991130101010", "160430070809"];
    chk.range("fields", dates.len() * 6 * 6, |i, c| {
        let (t, a, b) = (dates[i / 36], i / 6 % 6, i % 6);
        if a > b || !c.begin(format!("{t}.{a}.{b}")) {
            return;
        }
        fresh(16);
        for v in 0..100 {
            for w in 0..100 {
                if a == b && v != w {
                    continue;
                }
                let mut x = t.as_bytes().to_vec();
                x[2 * a..2 * a + 2].copy_from_slice(format!("{v:02}").as_bytes());
                x[2 * b..2 * b + 2].copy_from_slice(format!("{w:02}").as_bytes());
                x.push(b'Z');
                let mut s = base.clone();
                if (v + w) % 2 == 0 {
                    s.not_before = (0x17, x);
                } else {
                    s.not_after = (0x17, x);
                }
                let cert = bytes_of(&s);
                if compare(c, &cert) {
                    validity(c, &cert, &oracle(&cert).unwrap(), &[]);
                }
            }
        }
    });
    // other forms
    let mut forms: Vec<Vec<u8>> = vec![];
    let good = b"240229123456Z".to_vec();
    for i in 0..13 {
        for v in 0..=255u8 {
            let mut x = good.clone();
            x[i] = v;
            forms.push(x);
        }
        forms.push(good[..i].to_vec());
        forms.push([&good[..i], &good[i + 1..]].concat());
        for v in [b'0', b' ', b'Z', b'+', 0u8] {
            forms.push([&good[..i], &[v], &good[i..]].concat());
        }
    }
    for s in ["2402291234Z", "240229123456+0000", "240229123456-0130", "2402291234+0000", "20240229123456Z", "240229123456.5Z", "240229123456z", "+40229123456Z", "２４0229123456Z"] {
        forms.push(s.as_bytes().to_vec());
    }
    chk.each("time-forms", &forms, |t, c| {
        if c.begin(to_hex(t)) {
            fresh(16);
            for tag in [0x17u8, 0x18, 0x0c, 0x13, 0x16, 2, 4] {
                for which in 0..2 {
                    let mut s = base.clone();
                    if which == 0 {
                        s.not_before = (tag, t.clone());
                    } else {
                        s.not_after = (tag, t.clone());
                    }
                    let cert = bytes_of(&s);
                    if compare(c, &cert) {
                        validity(c, &cert, &oracle(&cert).unwrap(), &[]);
                    }
                }
            }
        }
    });
    // all pairs of some times, and clocks at all of them
    let some: Vec<i64> = vec![-631152000, -1, 0, 1, 951782399, 951782400, 1709164800, 1709251199, NOW, NOW + 1, 2147483647, 2147483648, 2524607999];
    chk.range("pairs", some.len() * some.len(), |i, c| {
        let (a, b) = (some[i / some.len()], some[i % some.len()]);
        if c.begin(format!("{a}.{b}")) {
            fresh(16);
            let mut s = base.clone();
            s.not_before = (0x17, time_str(a));
            s.not_after = (0x17, time_str(b));
            let cert = bytes_of(&s);
            if compare(c, &cert) {
                let f = oracle(&cert).unwrap();
                c.check((f.not_before, f.not_after) == (a, b), "harness: times");
                let extra: Vec<i64> = some.iter().flat_map(|t| [t - 1, *t, t + 1]).chain([i64::from(u32::MAX), 1 << 40]).collect();
                validity(c, &cert, &f, &extra);
            }
            // fractions of a second do not matter
            if let (Ok(Ok(x)), Ok(f)) = (caught(|| X509::from_raw(&cert)), oracle(&cert)) {
                for ns in [1, 500_000_000, 999_999_999] {
                    for t in [a, b] {
                        if t > 0 {
                            set_clock_ns(t, ns);
                            let want = f.not_before <= t && t <= f.not_after;
                            ck!(c, caught(|| x.tbs_certificate.validity.is_valid()) == Ok(want), "at {t} and {ns} ns");
                        }
                    }
                }
            }
        }
    });

    // ------------------------------------------------ fields
    let mut specs: Vec<(String, CertSpec)> = vec![];
    for v in [None, Some(0u8), Some(1), Some(2), Some(3), Some(127), Some(128), Some(255)] {
        let mut s = base.clone();
        s.version = v;
        specs.push((format!("version{v:?}"), s));
    }
    for n in 1..=40usize {
        for first in [0u8, 1, 0x7f, 0x80, 0xff] {
            for fill in [0u8, 1, 0x80, 0xff, 0x5a] {
                let mut s = base.clone();
                s.serial = vec![fill; n];
                s.serial[0] = first;
                specs.push((format!("serial{n}.{first:02x}.{fill:02x}"), s));
            }
        }
    }
    for v in 0..=255u8 {
        for w in [None, Some(0u8), Some(0x7f), Some(0x80), Some(0xff)] {
            let mut s = base.clone();
            s.serial = vec![v];
            s.serial.extend(w);
            specs.push((format!("serial.{v:02x}.{w:?}"), s));
        }
    }
    // names
    let value = |k: usize, which: usize| format!("{}-{which}", NAMES[k].0).into_bytes();
    for set in 0..128usize {
        for which in 0..2 {
            let n: Vec<Rdn> = (0..7).filter(|k| set >> k & 1 == 1).map(|k| (NAMES[k].1.to_vec(), [0x0c, 0x13, 0x16][(k + set) % 3], value(k, which))).collect();
            let mut s = base.clone();
            if which == 0 {
                s.issuer = n;
            } else {
                s.subject = n;
            }
            specs.push((format!("names{set:02x}.{which}"), s));
        }
    }
    // the same attributes on both sides, all pairs of attributes in both orders
    for a in 0..7 {
        for b in 0..7 {
            for same in [false, true] {
                let mut s = base.clone();
                s.issuer = vec![(NAMES[a].1.to_vec(), 0x0c, value(a, 0)), (NAMES[b].1.to_vec(), 0x13, value(b, if same { 0 } else { 2 }))];
                s.subject = vec![(NAMES[b].1.to_vec(), 0x0c, value(b, 1)), (NAMES[a].1.to_vec(), 0x13, value(a, 3))];
                specs.push((format!("order{a}.{b}.{same}"), s));
            }
        }
    }
    // all permutations of four
    for perm in 0..24usize {
        let mut l = vec![0usize, 2, 3, 6];
        let mut o = vec![];
        let mut x = perm;
        for n in (1..=4).rev() {
            o.push(l.remove(x % n));
            x /= n;
        }
        let mut s = base.clone();
        s.subject = o.iter().map(|k| (NAMES[*k].1.to_vec(), 0x0c, value(*k, 1))).collect();
        s.issuer = o.iter().rev().map(|k| (NAMES[*k].1.to_vec(), 0x0c, value(*k, 0))).collect();
        specs.push((format!("permutation{perm}"), s));
    }
    // unknown attributes, and types that resemble the known ones
    let mut oids: Vec<Vec<u8>> = vec![];
    for v in 0..=0x7fu8 {
        oids.push(vec![0x55, 4, v]);
    }
    for (_, o) in NAMES {
        for z in 1..4 {
            oids.push([&vec![0; z][..], o].concat());
        }
        oids.push([o, &[0]].concat());
        oids.push([&[1], o].concat());
        oids.push([&[0; 16][..], o].concat());
        oids.push([&vec![0; 16 - o.len()][..], o, &[0x11; 3]].concat());
        oids.push([o, &vec![0x11; 20]].concat());
        for i in 0..o.len() {
            for bit in 0..8 {
                let mut x = o.to_vec();
                x[i] ^= 1 << bit;
                oids.push(x);
            }
            oids.push([&o[..i], &o[i + 1..]].concat());
        }
    }
    for (i, o) in oids.iter().enumerate() {
        for place in 0..3 {
            let mut s = base.clone();
            let x = (o.clone(), 0x0c, b"unknown".to_vec());
            let n = vec![(OID_CN.to_vec(), 0x0c, b"known".to_vec()), (OID_O.to_vec(), 0x0c, b"org".to_vec())];
            let mut n2 = n.clone();
            n2.insert(place, x);
            if i % 2 == 0 {
                s.subject = n2
            } else {
                s.issuer = n2
            }
            specs.push((format!("attribute{i}.{place}"), s));
        }
    }
    // values
    let texts: Vec<Vec<u8>> = {
        let mut t: Vec<Vec<u8>> = (0..=130usize).chain([200, 255, 256, 257, 1000, 65535, 65536, 70000]).map(|n| (0..n).map(|i| b'a' + (i % 26) as u8).collect()).collect();
        t.extend((0..=255u8).map(|v| vec![v]));
        t.extend((0..=255u8).map(|v| vec![b'x', v, b'y']));
        for s in ["ü", "日本語", "🔒", "a\0b", "\u{feff}x", "e\u{301}"] {
            t.push(s.as_bytes().to_vec());
        }
        for b in [&[0xc0, 0x80][..], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0xfe, 0xff, 0, 0x41]] {
            t.push(b.to_vec());
        }
        t
    };
    for (i, t) in texts.iter().enumerate() {
        for tag in [0x0cu8, 0x13, 0x16] {
            // the other string types are checked below
            let mut s = base.clone();
            s.subject = vec![(OID_CN.to_vec(), tag, t.clone()), (OID_O.to_vec(), 0x0c, b"org".to_vec())];
            specs.push((format!("text{i}.{tag:02x}"), s));
        }
    }
    for tag in 0..=255u8 {
        let mut s = base.clone();
        s.subject = vec![(OID_CN.to_vec(), tag, b"text".to_vec()), (OID_O.to_vec(), 0x0c, b"org".to_vec())];
        specs.push((format!("text-tag{tag:02x}"), s));
    }
    // keys
    let good = [&[4u8][..], &u_to_be(&pki.client.public.0), &u_to_be(&pki.client.public.1)].concat();
    let mut spkis: Vec<(String, Vec<u8>)> = vec![];
    for n in 0..=130usize {
        for first in [4u8, 2, 3, 0, 6] {
            let mut k: Vec<u8> = (0..n).map(|i| i as u8 + 1).collect();
            if n > 0 {
                k[0] = first;
            }
            spkis.push((format!("length{n}.{first}"), spki_raw(&k)));
        }
    }
    for i in 0..65 {
        for v in [0u8, 1, 0x7f, 0x80, 0xff] {
            let mut k = good.clone();
            k[i] = v;
            spkis.push((format!("byte{i}.{v:02x}"), spki_raw(&k)));
        }
        let mut k = good.clone();
        k[1..=i].fill(0);
        spkis.push((format!("zeros{i}"), spki_raw(&k)));
    }
    for unused in 1..=8u8 {
        let alg = der(0x30, &[der(6, OID_EC), der(6, OID_P256)].concat());
        spkis.push((format!("unused{unused}"), der(0x30, &[alg, der(3, &[&[unused][..], &good].concat())].concat())));
    }
    let curves: Vec<Vec<u8>> = {
        let mut v = vec![OID_P256.to_vec(), vec![0x2b, 0x81, 4, 0, 34], vec![0x2b, 0x81, 4, 0, 10], vec![0], [&[0; 8][..], OID_P256].concat(), [OID_P256, &[1]].concat(), [&[0, 0, 0, 0, 0, 0, 0, 0], OID_P256, &[1, 2, 3]].concat()];
        for i in 0..OID_P256.len() {
            for bit in 0..8 {
                let mut x = OID_P256.to_vec();
                x[i] ^= 1 << bit;
                v.push(x);
            }
        }
        v
    };
    for (i, o) in curves.iter().enumerate() {
        let alg = der(0x30, &[der(6, OID_EC), der(6, o)].concat());
        spkis.push((format!("curve{i}"), der(0x30, &[alg, der(3, &[&[0][..], &good].concat())].concat())));
    }
    for (i, alg) in [
        der(6, OID_EC),
        [der(6, OID_EC), der(5, &[])].concat(),
        [der(6, OID_RSA), der(5, &[])].concat(),
        der(6, OID_RSA),
        [der(6, OID_RSA), der(6, OID_P256)].concat(),
        der(6, &[0x2b, 0x65, 0x70]),
        [der(6, &[0x2a, 0x86, 0x48, 0xce, 0x38, 4, 1]), der(5, &[])].concat(),
        [der(6, OID_ECDSA_SHA256), der(6, OID_P256)].concat(),
        [der(6, OID_EC), der(6, OID_P256), der(5, &[])].concat(),
        [der(6, OID_EC), der(6, OID_P256), der(6, OID_P256)].concat(),
        [der(6, OID_P256), der(6, OID_EC)].concat(),
        [der(6, OID_EC), der(0x30, &der(6, OID_P256))].concat(),
    ]
    .iter()
    .enumerate()
    {
        spkis.push((format!("algorithm{i}"), der(0x30, &[der(0x30, alg), der(3, &[&[0][..], &good].concat())].concat())));
    }
    for (n, k) in spkis {
        let mut s = base.clone();
        s.spki = k;
        specs.push((format!("key-{n}"), s));
    }
    // extensions
    let e1 = (vec![0x55, 0x1d, 0x13], true, der(0x30, &der(1, &[255])));
    let e2 = (vec![0x55, 0x1d, 0x0e], false, der(4, &[7; 20]));
    let e3 = (vec![0x55, 0x1d, 0x11], false, der(0x30, &der(0x82, b"example.org")));
    // contents that look like the fields
    let e4 = (vec![0x55, 0x1d, 0x63], false, name(&cn("other")));
    let e5 = (vec![0x2a, 3], true, base.tbs());
    let e6 = (vec![0x55, 4, 3], false, der(0x0c, b"other"));
    let e7 = (vec![0x2a, 3, 4], false, vec![0xff; 300]);
    let all = [e1, e2, e3, e4, e5, e6, e7];
    for set in 0..128usize {
        for v in [Some(2u8), Some(0), None] {
            let mut s = base.clone();
            s.version = v;
            s.exts = (0..7).filter(|k| set >> k & 1 == 1).map(|k| all[k].clone()).collect();
            specs.push((format!("extensions{set:02x}.{v:?}"), s));
        }
    }
    for n in [10usize, 100, 1000] {
        let mut s = base.clone();
        s.exts = (0..n).map(|i| (vec![0x55, 0x1d, i as u8 & 0x7f], i % 2 == 0, vec![i as u8; i % 50])).collect();
        specs.push((format!("many-extensions{n}"), s));
    }
    chk.each("specs", &specs, |(n, s), c| {
        if c.begin(n) {
            fresh(16);
            compare(c, &bytes_of(s));
        }
    });

    // ------------------------------------------------ the outer part
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let algs: Vec<(&str, Vec<u8>)> = {
        let mut a: Vec<(&str, Vec<u8>)> = vec![
            ("sha256", der(6, OID_ECDSA_SHA256)),
            ("sha384", der(6, OID_SHA384)),
            ("rsa", [der(6, OID_RSA_SHA256), der(5, &[])].concat()),
            ("rsa-only", [der(6, OID_RSA), der(5, &[])].concat()),
            ("ec", der(6, OID_EC)),
            ("sha224", der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 1])),
            ("sha512", der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 4])),
            ("ed25519", der(6, &[0x2b, 0x65, 0x70])),
            ("empty", vec![]),
            ("sha256-null", [der(6, OID_ECDSA_SHA256), der(5, &[])].concat()),
            ("sha256-zeros", der(6, &[&[0, 0][..], OID_ECDSA_SHA256].concat())),
            ("sha256-long", der(6, &[&[0; 8][..], OID_ECDSA_SHA256, &[1]].concat())),
        ];
        a.push(("none", der(6, &[])));
        a
    };
    let sigs: Vec<(String, Vec<u8>)> = {
        let mut s = vec![("good".to_string(), sig.clone()), ("empty".into(), vec![]), ("trailing".into(), [&sig[..], &[0]].concat()), ("rsa".into(), vec![0x5a; 256])];
        for i in 0..sig.len() {
            s.push((format!("cut{i}"), sig[..i].to_vec()));
        }
        let ints: [&[u8]; 9] = [&[], &[0], &[1], &[0x7f], &[0x80], &[0, 0x80], &[0, 0x7f], &[0xff; 32], &[0x11; 40]];
        for (i, a) in ints.iter().enumerate() {
            for (j, b) in ints.iter().enumerate() {
                s.push((format!("numbers{i}.{j}"), der(0x30, &[der(2, a), der(2, b)].concat())));
            }
        }
        s.push(("three".into(), der(0x30, &[der(2, &[1]), der(2, &[1]), der(2, &[1])].concat())));
        s.push(("one".into(), der(0x30, &der(2, &[1]))));
        s.push(("set".into(), der(0x31, &[der(2, &[1]), der(2, &[1])].concat())));
        s
    };
    // tbs with this algorithm
    let tbs_with = |alg: &[u8]| {
        let t = base.tbs();
        let x = der(0x30, &der(6, OID_ECDSA_SHA256));
        let i = t.windows(x.len()).position(|w| w == x).unwrap();
        let h = 1 + der_len(t.len() - 2).len();
        let body = [&t[h..i], &der(0x30, alg), &t[i + x.len()..]].concat();
        der(0x30, &body)
    };
    for (n1, a1) in &algs {
        for (n2, a2) in &algs {
            for (ns, s) in &sigs {
                if ns != "good" && ns != "rsa" && n1 != n2 {
                    continue;
                }
                let c = der(0x30, &[tbs_with(a1), der(0x30, a2), der(3, &[&[0][..], s].concat())].concat());
                v.push((format!("{n1}.{n2}.{ns}"), c));
            }
        }
    }
    let tbs = base.tbs();
    let alg = der(0x30, &der(6, OID_ECDSA_SHA256));
    let bits = der(3, &[&[0][..], &sig].concat());
    let parts: Vec<(&str, Vec<u8>)> = vec![("tbs", tbs.clone()), ("alg", alg.clone()), ("sig", bits.clone()), ("null", der(5, &[])), ("seq", der(0x30, &[])), ("int", der(2, &[1]))];
    // all sequences of up to four parts
    for n in 0..=4u32 {
        for i in 0..6usize.pow(n) {
            let mut x = i;
            let mut body = vec![];
            let mut id = String::new();
            for _ in 0..n {
                let (l, b) = &parts[x % 6];
                x /= 6;
                body.extend(b);
                id += l;
                id += ".";
            }
            v.push((format!("parts.{id}"), der(0x30, &body)));
            if n == 3 {
                v.push((format!("parts-set.{id}"), der(0x31, &body)));
            }
        }
    }
    for unused in 1..=8u8 {
        v.push((format!("unused{unused}"), der(0x30, &[tbs.clone(), alg.clone(), der(3, &[&[unused][..], &sig].concat())].concat())));
    }
    v.push(("bits-none".into(), der(0x30, &[tbs.clone(), alg.clone(), der(3, &[])].concat())));
    let good = bytes_of(&base);
    v.push(("trailing".into(), [&good[..], &[0]].concat()));
    v.push(("twice".into(), [&good[..], &good].concat()));
    v.push(("empty".into(), vec![]));
    chk.each("outer", &v, |(n, x), c| {
        if c.begin(n) {
            fresh(16);
            compare(c, x);
        }
    });

    // ------------------------------------------------ the order of the fields of the signed part
    let elems: Vec<(&str, Vec<u8>)> = vec![
        ("version", der(0xa0, &der(2, &[2]))),
        ("serial", der(2, &[0x11, 0x22])),
        ("algorithm", alg.clone()),
        ("issuer", name(&cn("the issuer"))),
        ("validity", der(0x30, &[der(0x17, b"200101000000Z"), der(0x17, b"300101000000Z")].concat())),
        ("subject", name(&cn("the subject"))),
        ("key", spki(&pki.client.public)),
        ("extensions", der(0xa3, &der(0x30, &der(0x30, &[der(6, &[0x55, 0x1d, 0x0e]), der(4, &[1])].concat())))),
    ];
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |n: String, l: &[usize]| {
        let body: Vec<u8> = l.iter().flat_map(|i| elems[*i].1.clone()).collect();
        v.push((n, der(0x30, &[der(0x30, &body), alg.clone(), bits.clone()].concat())));
    };
    let order: Vec<usize> = (0..8).collect();
    for i in 0..8 {
        let mut l = order.clone();
        l.remove(i);
        add(format!("without-{}", elems[i].0), &l);
        for j in 0..8 {
            let mut l = order.clone();
            l.swap(i, j);
            add(format!("swap{i}.{j}"), &l);
            let mut l = order.clone();
            let x = l.remove(i);
            l.insert(j, x);
            add(format!("move{i}.{j}"), &l);
            let mut l = order.clone();
            l[i] = j;
            add(format!("replace{i}.{j}"), &l);
            let mut l = order.clone();
            l.insert(j, i);
            add(format!("double{i}.{j}"), &l);
            if i != j {
                let mut l = order.clone();
                l.retain(|x| *x != i && *x != j);
                add(format!("without{i}.{j}"), &l);
            }
        }
    }
    for set in 0..256usize {
        let l: Vec<usize> = (0..8).filter(|i| set >> i & 1 == 1).collect();
        add(format!("set{set:02x}"), &l);
    }
    // with the unique identifiers (in both orders)
    for set in 0..1usize << 5 {
        for id in [vec![], vec![0], vec![0, 1, 2, 3], vec![7, 0x80], vec![0; 300], vec![8, 1]] {
            let has = |i: usize| set >> i & 1 == 1;
            let mut body: Vec<u8> = if has(4) { der(0xa0, &der(2, &[1])) } else { der(0xa0, &der(2, &[2])) };
            body.extend(elems[1..7].iter().flat_map(|e| e.1.clone()));
            let ids = [der(0x81, &id), der(0x82, &id)];
            for i in if has(3) { [1, 0] } else { [0, 1] } {
                if has(i) {
                    body.extend(&ids[i]);
                }
            }
            if has(2) {
                body.extend(&elems[7].1);
            }
            v.push((format!("unique{set:02x}.{}", to_hex(&id[..id.len().min(4)])), der(0x30, &[der(0x30, &body), alg.clone(), bits.clone()].concat())));
        }
    }
    chk.each("order", &v, |(n, x), c| {
        if c.begin(n) {
            fresh(16);
            compare(c, x);
        }
    });

    // ------------------------------------------------ single changes
    let mut certs: Vec<(&str, Vec<u8>)> = vec![("client", good.clone())];
    {
        let mut s = base.clone();
        s.issuer = (0..7).map(|k| (NAMES[k].1.to_vec(), 0x0c, value(k, 0))).collect();
        s.subject = vec![(OID_C.to_vec(), 0x13, b"DE".to_vec()), (OID_CN.to_vec(), 0x0c, b"subject".to_vec()), (OID_EMAIL.to_vec(), 0x16, b"a@b".to_vec())];
        s.serial = vec![0x7f; 20];
        s.exts = all[..3].to_vec();
        certs.push(("full", bytes_of(&s)));
        let mut s = base.clone();
        s.version = None;
        s.sig_oid = OID_SHA384.to_vec();
        certs.push(("v1", bytes_of(&s)));
    }
    let mut items = vec![];
    for (n, d) in &certs {
        for i in 0..d.len() {
            items.push((*n, d, i));
        }
    }
    chk.each("changes", &items, |(n, d, i), c| {
        fresh(16);
        for v in 0..=255u8 {
            if v != d[*i] && c.begin(format!("{n}.{i}.value{v:02x}")) {
                let mut x = d.to_vec();
                x[*i] = v;
                compare(c, &x);
            }
        }
        if c.begin(format!("{n}.{i}.cut")) {
            compare(c, &d[..*i]);
        }
        for l in 1..=4usize {
            if *i + l <= d.len() && c.begin(format!("{n}.{i}.removed{l}")) {
                compare(c, &[&d[..*i], &d[i + l..]].concat());
            }
            for v in [0u8, 0x30, 0xff, d[*i]] {
                if c.begin(format!("{n}.{i}.inserted{l}.{v:02x}")) {
                    compare(c, &[&d[..*i], &vec![v; l], &d[*i..]].concat());
                }
            }
        }
        if thorough {
            for j in i + 1..d.len() {
                for (k, (v, w)) in [(1u8, 1u8), (255, 255), (1, 255), (255, 1)].iter().enumerate() {
                    if c.begin(format!("{n}.{i}.{j}.{k}")) {
                        let mut x = d.to_vec();
                        x[*i] = x[*i].wrapping_add(*v);
                        x[j] = x[j].wrapping_add(*w);
                        compare(c, &x);
                    }
                }
            }
        }
    });
    // an element of the tree replaced, removed, doubled or wrapped, all lengths around it corrected
    #[derive(Clone)]
    enum Node {
        Leaf(u8, Vec<u8>),
        Cons(u8, Vec<Node>),
    }
    fn tree(b: &[u8]) -> Option<Vec<Node>> {
        let mut q = p(b);
        let mut out = vec![];
        while q.more() {
            let (t, body) = q.any().ok()?;
            out.push(if t & 0x20 != 0 { Node::Cons(t, tree(body)?) } else { Node::Leaf(t, body.to_vec()) });
        }
        Some(out)
    }
    fn enc(n: &[Node]) -> Vec<u8> {
        n.iter()
            .flat_map(|n| match n {
                Node::Leaf(t, b) => der(*t, b),
                Node::Cons(t, c) => der(*t, &enc(c)),
            })
            .collect()
    }
    fn count(n: &[Node]) -> usize {
        n.iter().map(|n| 1 + if let Node::Cons(_, c) = n { count(c) } else { 0 }).sum()
    }
    /// Apply f at the node with this number; f gives the nodes in its place
    fn at(n: &[Node], k: &mut isize, f: &dyn Fn(&Node) -> Vec<Node>) -> Vec<Node> {
        let mut out = vec![];
        for x in n {
            let hit = *k == 0;
            *k -= 1;
            if hit {
                out.extend(f(x));
                *k = -1;
                continue;
            }
            match x {
                Node::Cons(t, c) => {
                    let c = if *k >= 0 { at(c, k, f) } else { c.clone() };
                    out.push(Node::Cons(*t, c));
                }
                l => out.push(l.clone()),
            }
        }
        out
    }
    let tags = [0x00u8, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0a, 0x0c, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1e, 0x30, 0x31, 0x24, 0x23, 0x2c, 0x37, 0x80, 0x81, 0x82, 0x83, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0x41, 0x62, 0xc1];
    let mut items = vec![];
    for (n, d) in &certs {
        let t = tree(d).unwrap();
        for k in 0..count(&t) {
            items.push((*n, t.clone(), k));
        }
    }
    chk.each("elements", &items, |(n, t, k), c| {
        fresh(16);
        let mut run = |name: String, f: &dyn Fn(&Node) -> Vec<Node>| {
            if c.begin(format!("{n}.{k}.{name}")) {
                compare(c, &enc(&at(t, &mut (*k as isize), f)));
            }
        };
        run("removed".into(), &|_| vec![]);
        run("doubled".into(), &|x| vec![x.clone(), x.clone()]);
        for tag in tags {
            run(format!("tag{tag:02x}"), &|x| {
                vec![match x {
                    Node::Leaf(_, b) => Node::Leaf(tag, b.clone()),
                    Node::Cons(_, b) => Node::Cons(tag, b.clone()),
                }]
            });
            run(format!("wrapped{tag:02x}"), &|x| vec![Node::Cons(tag, vec![x.clone()])]);
            for b in [&[][..], &[0], &[1], &[0x55, 4, 3]] {
                run(format!("before{tag:02x}.{}", to_hex(b)), &|x| vec![Node::Leaf(tag, b.to_vec()), x.clone()]);
                run(format!("after{tag:02x}.{}", to_hex(b)), &|x| vec![x.clone(), Node::Leaf(tag, b.to_vec())]);
                run(format!("instead{tag:02x}.{}", to_hex(b)), &|_| vec![Node::Leaf(tag, b.to_vec())]);
                run(format!("first{tag:02x}.{}", to_hex(b)), &|x| match x {
                    Node::Cons(t, c) => vec![Node::Cons(*t, [&[Node::Leaf(tag, b.to_vec())][..], c].concat())],
                    l => vec![l.clone()],
                });
            }
        }
        run("empty".into(), &|x| {
            vec![match x {
                Node::Leaf(t, _) => Node::Leaf(*t, vec![]),
                Node::Cons(t, _) => Node::Cons(*t, vec![]),
            }]
        });
        run("unwrapped".into(), &|x| match x {
            Node::Cons(_, c) => c.clone(),
            l => vec![l.clone()],
        });
        run("zero-front".into(), &|x| match x {
            Node::Leaf(t, b) => vec![Node::Leaf(*t, [&[0], &b[..]].concat())],
            l => vec![l.clone()],
        });
        run("zero-back".into(), &|x| match x {
            Node::Leaf(t, b) => vec![Node::Leaf(*t, [&b[..], &[0]].concat())],
            l => vec![l.clone()],
        });
        // this element in other places
        for j in 0..count(t) {
            if j == *k {
                continue;
            }
            let found = std::cell::RefCell::new(None);
            at(t, &mut (j as isize), &|x| {
                *found.borrow_mut() = Some(x.clone());
                vec![]
            });
            let other = found.into_inner().unwrap();
            run(format!("copy{j}"), &|_| vec![other.clone()]);
            if thorough {
                run(format!("copy-before{j}"), &|x| vec![other.clone(), x.clone()]);
            }
        }
    });
    chk.finish()
}
