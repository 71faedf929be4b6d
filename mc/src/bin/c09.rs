//! C09: the client against all combinations of certificates, proofs, times, key exchanges and
//! Finished messages of a server, all single changes of them, and its own answer to requests.

use mc::prelude::*;

/// What the server proves with its CertificateVerify
#[derive(Clone, Debug)]
enum Cv {
    Good,
    None,
    /// Messages (bit mask) left out of the transcript
    Without(usize),
    Label(&'static str),
    Scheme(u16),
    Sha384,
    Flip(usize),
    Trailing,
    Raw(Vec<u8>),
    /// Wrong content of this index
    Wrong(usize),
}

#[derive(Clone)]
struct Try {
    chain: Vec<Vec<u8>>,
    key: U,
    cv: Cv,
    /// 0 good, 1 changed, 2 with the secrets of another key exchange
    finished: usize,
    clock: i64,
    suite: u16,
    /// Certificate message in this raw form
    raw: Option<Vec<u8>>,
    request: Option<Vec<u8>>,
    /// Body of the CertificateRequest
    request_raw: Option<Vec<u8>>,
    /// Client has a certificate
    auth: bool,
    name: bool,
}
impl Try {
    fn new(pki: &Pki) -> Try {
        Try {
            chain: vec![pki.server.cert.clone()],
            key: pki.server.key,
            cv: Cv::Good,
            finished: 0,
            clock: NOW,
            suite: AES128,
            raw: None,
            request: None,
            request_raw: None,
            auth: false,
            name: false,
        }
    }
}

fn cuts(tr: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < tr.len() {
        v.push(i);
        i += 4 + (((tr[i + 1] as usize) << 16) | ((tr[i + 2] as usize) << 8) | tr[i + 3] as usize);
    }
    v.push(tr.len());
    v
}

fn cv(p: &Srv, t: &Try) -> Option<Vec<u8>> {
    let sign = |label: &str, tr: &[u8]| cv_body(label, p.cfg.suite, tr, &t.key);
    Some(match &t.cv {
        Cv::Good => sign("server", &p.tr),
        Cv::None => return None,
        Cv::Without(mask) => {
            let c = cuts(&p.tr);
            let tr: Vec<u8> = (0..c.len() - 1).filter(|i| mask >> i & 1 == 0).flat_map(|i| p.tr[c[i]..c[i + 1]].to_vec()).collect();
            sign("server", &tr)
        }
        Cv::Label(l) => sign(l, &p.tr),
        Cv::Scheme(s) => {
            let mut b = sign("server", &p.tr);
            b[..2].copy_from_slice(&s.to_be_bytes());
            b
        }
        Cv::Sha384 => {
            let h = sha384(&cv_content("server", p.cfg.suite, &p.tr));
            let (r, s) = p256().sign(&t.key, &h[..32], &ref_nonce(&t.key, &h[..32]));
            [&[4, 3][..], &v16(&sig_der(&r, &s))].concat()
        }
        Cv::Flip(bit) => {
            let mut b = sign("server", &p.tr);
            let n = b.len();
            let i = 4 + (bit / 8) % (n - 4);
            b[i] ^= 1 << (bit % 8);
            b
        }
        Cv::Trailing => {
            let b = sign("server", &p.tr);
            [&[4, 3][..], &v16(&[&b[4..], &[0]].concat())].concat()
        }
        Cv::Raw(b) => b.clone(),
        Cv::Wrong(i) => cv_body_digest(&wrong_contents("server", p.cfg.suite, &p.tr)[*i].1, &t.key),
    })
}

struct Outcome {
    connected: bool,
    name: String,
    chain: Vec<Vec<u8>>,
    sig: Vec<u8>,
}

fn attempt(pki: &'static Pki, t: &Try, seed: u64, c: &mut Case) -> Outcome {
    fresh(seed);
    set_clock(Some(t.clock));
    let mut b = CB::new();
    if t.name {
        b = b.set_server_name("localhost".into());
    }
    if t.auth {
        b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
    }
    let mut cfg = srv_cfg(pki, t.suite);
    cfg.request = t.request.clone();
    cfg.cert = t.chain.clone();
    let mut srv = Srv::new(cfg);
    srv.client_key = Some(pki.client.public);
    let peer = cell(srv);
    let mut phase = 0;
    let t2 = t.clone();
    let sock = server_sock(&peer, move |p: &mut Srv| {
        if phase == 0 && !p.ch.is_empty() {
            phase = 1;
            let m = p.m_hello();
            p.out.push_back(plain_rec(HANDSHAKE, &m));
            p.out.push_back(plain_rec(CCS, &[1]));
            let mut ms = vec![p.m_ee()];
            if p.cfg.request.is_some() {
                ms.push(match &t2.request_raw {
                    Some(b) => p.msg(CERTIFICATE_REQUEST, b),
                    None => p.m_request(),
                });
            }
            ms.push(match &t2.raw {
                Some(r) => p.msg(CERTIFICATE, r),
                None => p.m_cert(),
            });
            if let Some(b) = cv(p, &t2) {
                ms.push(p.msg(CERTIFICATE_VERIFY, &b));
            }
            let secret = match t2.finished {
                2 => Sched::new(p.cfg.suite, &[7; 32], &p.tr[..cuts(&p.tr)[2]]).server_hs,
                _ => p.sched.as_ref().unwrap().server_hs.clone(),
            };
            let mut v = verify_data(p.cfg.suite, &secret, &p.tr);
            if t2.finished == 1 {
                v[5] ^= 4;
            }
            ms.push(p.msg(FINISHED, &v));
            p.finish();
            for m in ms {
                let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                p.out.push_back(r);
            }
            p.to_app();
        } else if phase == 1 && p.wait == Wait::Done {
            phase = 2;
            let r = p.wr.as_mut().unwrap().seal(APPDATA, b"page of a server");
            p.out.push_back(r);
        }
    });
    let r = connect(b, &sock);
    flush_server(&sock, &peer);
    let name = r.name();
    if let Res::Panic(e) = &r {
        c.fail(format!("panic: {e}"));
    }
    let connected = r.is_ok();
    let bad = lk(&peer).bad.clone();
    c.check(bad.is_empty(), format!("the client: {bad:?}"));
    if let Res::Ok(mut s) = r {
        let w = lk(&peer).wait;
        c.check(w == Wait::Done, format!("connected, but the server still waits for {w:?}"));
        c.check(tls_write(&mut s, b"request").is_ok(), "write");
        flush_server(&sock, &peer);
        c.check(lk(&peer).app_data() == b"request", "data of the client");
        let mut b = [0; 32];
        let n = tls_read(&mut s, &mut b).ok();
        c.check(n == Some(16) && &b[..16] == b"page of a server", "data of the server");
    } else {
        let p = lk(&peer);
        c.check(p.got_alert.is_some_and(|a| a.0 == 2), format!("refused ({name}) without a fatal alert"));
        c.check(
            !p.ev.iter().any(|e| matches!(e, Ev::Hs(t) if *t != CLIENT_HELLO) || matches!(e, Ev::App(_))),
            format!("refused, but the client sent {:?}", p.ev),
        );
    }
    let p = lk(&peer);
    Outcome { connected, name, chain: p.client_chain.clone(), sig: p.client_sig.clone() }
}
fn expect(pki: &'static Pki, t: &Try, c: &mut Case, want: bool) -> Outcome {
    let o = attempt(pki, t, 21, c);
    c.outcome(format!("{}: {}", if o.connected { "connected" } else { "refused" }, o.name));
    if o.connected != want {
        c.fail(format!("{} ({}), but must {}be", if o.connected { "connected" } else { "refused" }, o.name, if want { "" } else { "not " }));
    }
    if o.connected && t.request.is_some() {
        let want: Vec<Vec<u8>> = if t.auth { vec![pki.client.cert.clone()] } else { vec![] };
        c.check(o.chain == want, "the client did not send its configured certificate");
        c.check(o.sig.is_empty() != t.auth, "proof of the client");
    } else {
        c.check(o.chain.is_empty() && o.sig.is_empty(), "certificate of the client without a request or before the server is known");
    }
    o
}

fn main() {
    let chk = Check::start(
        "C09",
        "exploration",
        "every combination of certificate, proof, time, Finished, request and suite is one real handshake of the client with the reference server; the rule of the property predicts whether the connection is made",
    );
    let th = chk.thorough;
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let ca = &pki.ca;
    let spec = |f: &dyn Fn(&mut CertSpec)| {
        let mut s = CertSpec::new("Test CA", "localhost", &pki.server.public);
        f(&mut s);
        s
    };
    struct CertKind {
        name: &'static str,
        chain: Vec<Vec<u8>>,
        key: U,
        ok: bool,
    }
    let kinds = [
        CertKind { name: "server", chain: vec![pki.server.cert.clone()], key: pki.server.key, ok: true },
        CertKind { name: "server2", chain: vec![pki.server2.cert.clone()], key: pki.server2.key, ok: true },
        CertKind { name: "other-key", chain: vec![pki.server.cert.clone()], key: pki.server2.key, ok: false },
        CertKind { name: "ca-key", chain: vec![pki.server.cert.clone(), pki.ca.cert.clone()], key: pki.ca.key, ok: false },
        CertKind { name: "client-key", chain: vec![pki.server.cert.clone()], key: pki.client.key, ok: false },
        CertKind { name: "with-ca", chain: vec![pki.server.cert.clone(), pki.ca.cert.clone()], key: pki.server.key, ok: true },
        CertKind { name: "server2-then-server", chain: vec![pki.server2.cert.clone(), pki.server.cert.clone()], key: pki.server.key, ok: false },
        CertKind { name: "empty", chain: vec![], key: pki.server.key, ok: false },
    ];
    let clocks = [("valid", NOW), ("early", 1_500_000_000), ("late", 1_900_000_000)];
    let cvs: Vec<(&str, Cv, bool)> = vec![
        ("cv", Cv::Good, true),
        ("nocv", Cv::None, false),
        ("transcript", Cv::Without(1), false),
        ("label", Cv::Label("client"), false),
        ("flip", Cv::Flip(100), false),
        ("sha384", Cv::Sha384, false),
    ];
    // finished 3, request, auth, name, suite
    let dims = [kinds.len(), clocks.len(), cvs.len(), 3, 2, 2, 2, 3];
    let total: usize = dims.iter().product();
    chk.range("product", total, |i, c| {
        let mut j = i;
        let mut d = |k: usize| {
            let r = j % dims[k];
            j /= dims[k];
            r
        };
        let (k, cl, v, fin, req, auth, nm, su) = (d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7));
        if !th && (k + cl + v + fin) % 2 != nm {
            return;
        }
        let (kind, cl, v) = (&kinds[k], clocks[cl], &cvs[v]);
        let id = format!(
            "{}-{}-{}-fin{fin}-{}-{}-{}-{}",
            kind.name,
            cl.0,
            v.0,
            ["norequest", "request"][req],
            ["nocert", "cert"][auth],
            ["noname", "name"][nm],
            suite_name(SUITES[su])
        );
        if !c.begin(&id) {
            return;
        }
        c.nontrivial(&id);
        let mut t = Try::new(pki);
        t.chain = kind.chain.clone();
        t.key = kind.key;
        t.cv = v.1.clone();
        t.clock = cl.1;
        t.suite = SUITES[su];
        t.finished = fin;
        t.auth = auth == 1;
        t.name = nm == 1;
        if req == 1 {
            t.request = Some(vec![]);
        }
        expect(pki, &t, c, kind.ok && cl.0 == "valid" && v.2 && fin == 0);
    });
    // all subsets of the transcript; ClientHello, ServerHello, EE, (CR,) Certificate
    chk.range("transcript", 16 * 3 + 32 * 3, |i, c| {
        let (req, mask, su) = if i < 48 { (false, i / 3, i % 3) } else { (true, (i - 48) / 3, i % 3) };
        if c.begin(format!("{req}-{mask:b}-{}", suite_name(SUITES[su]))) {
            c.nontrivial(("tr", i));
            let mut t = Try::new(pki);
            t.suite = SUITES[su];
            t.cv = Cv::Without(mask);
            if req {
                t.request = Some(vec![]);
                t.auth = true;
            }
            expect(pki, &t, c, mask == 0);
        }
    });
    // the signed content: all changes of its construction
    let names: Vec<(u16, usize, String)> = SUITES
        .iter()
        .flat_map(|su| wrong_contents("server", *su, b"transcript").into_iter().enumerate().map(|(i, (n, _))| (*su, i, n)).collect::<Vec<_>>())
        .collect();
    chk.each("signed-content", &names, |(su, i, n), c| {
        // the quick run has every content with one suite of both lengths of the hash
        if !th && *su == CHACHA {
            return;
        }
        if c.begin(format!("{n}-{}", suite_name(*su))) {
            c.nontrivial(("content", su, n));
            let mut t = Try::new(pki);
            t.suite = *su;
            t.cv = Cv::Wrong(*i);
            expect(pki, &t, c, false);
        }
    });
    chk.range("signature-bit", 72 * 8, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("sb", i));
            let mut t = Try::new(pki);
            t.cv = Cv::Flip(i);
            expect(pki, &t, c, false);
        }
    });
    let schemes: Vec<u16> = if th {
        (0..=0xffff).collect()
    } else {
        let mut v: Vec<u16> = (0..0x1000).filter(|s| s & 0xff < 0x10 || s >> 8 == 4).collect();
        v.extend([0x8000, 0x8403, 0x0483, 0xffff, 0x0403 ^ 0x4000]);
        v
    };
    chk.each("scheme", &schemes, |s, c| {
        if c.begin(format!("{s:04x}")) {
            c.nontrivial(("scheme", s));
            let mut t = Try::new(pki);
            t.cv = Cv::Scheme(*s);
            expect(pki, &t, c, *s == 0x0403);
        }
    });
    let sig_ok = |b: &[u8]| [&[4, 3][..], &v16(b)].concat();
    let nm = u_to_be(&p256().n.m);
    let raws: Vec<(&str, Vec<u8>)> = vec![
        ("empty", vec![]),
        ("scheme only", vec![4, 3]),
        ("no signature", vec![4, 3, 0, 0]),
        ("length too long", vec![4, 3, 0, 10, 1, 2]),
        ("zeros", sig_ok(&der(0x30, &[2, 1, 0, 2, 1, 0]))),
        ("zero r", sig_ok(&der(0x30, &[2, 1, 0, 2, 1, 1]))),
        ("zero s", sig_ok(&der(0x30, &[2, 1, 1, 2, 1, 0]))),
        ("ones", sig_ok(&der(0x30, &[2, 1, 1, 2, 1, 1]))),
        ("n n", sig_ok(&der(0x30, &[der_uint(&nm), der_uint(&nm)].concat()))),
        ("negative", sig_ok(&der(0x30, &[2, 1, 0xff, 2, 1, 0xff]))),
        ("sequence", sig_ok(&[0x30, 0])),
        ("empty numbers", sig_ok(&[0x30, 4, 2, 0, 2, 0])),
        ("text", sig_ok(b"signature")),
        ("big", sig_ok(&der(0x30, &[der(2, &[1; 1000]), der(2, &[1; 1000])].concat()))),
        ("after the vector", [sig_ok(b"signature"), vec![0]].concat()),
    ];
    chk.each("raw-proof", &raws, |(n, b), c| {
        if c.begin(n) {
            c.nontrivial(n);
            let mut t = Try::new(pki);
            t.cv = Cv::Raw(b.clone());
            expect(pki, &t, c, false);
        }
    });
    for (n, v) in [("trailing", Cv::Trailing), ("label-empty", Cv::Label("")), ("label-Server", Cv::Label("Server"))] {
        chk.range("proof", 1, |_, c| {
            if c.begin(n) {
                c.nontrivial(n);
                let mut t = Try::new(pki);
                t.cv = v.clone();
                expect(pki, &t, c, false);
            }
        });
    }
    // proof of an earlier handshake with another random of the client
    chk.range("replayed-proof", 3, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("rp", i));
            let mut t = Try::new(pki);
            t.suite = SUITES[i];
            let old = cell(vec![]);
            let o2 = old.clone();
            fresh(99);
            let peer = cell(Srv::new(srv_cfg(pki, t.suite)));
            let mut h = honest_server();
            let sock = server_sock(&peer, move |p| {
                h(p);
                if p.app.is_some() && lk(&o2).is_empty() {
                    let cu = cuts(&p.tr);
                    let n = cu.len();
                    *lk(&o2) = p.tr[cu[n - 3] + 4..cu[n - 2]].to_vec();
                }
            });
            let r = connect(CB::new(), &sock);
            c.check(r.is_ok(), "honest server refused");
            let old = lk(&old).clone();
            c.check(old.starts_with(&[4, 3]), "harness: no proof recorded");
            t.cv = Cv::Raw(old.clone());
            expect(pki, &t, c, false);
        }
    });
    // --- the certificate; the key of the server is in it, so the proof is checked with the changed certificate
    let good = pki.server.cert.clone();
    chk.range("certificate-length", good.len() + 3, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("cl", i));
            let mut x = good.clone();
            x.resize(i, 0);
            let mut t = Try::new(pki);
            t.chain = vec![x];
            expect(pki, &t, c, i == good.len());
        }
    });
    // every changed bit of the public key point
    let q = pki.server.public;
    let pt = point(&q);
    let off = good.windows(65).position(|w| w == pt).expect("point");
    chk.range("key-bit", 65 * 8, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("kb", i));
            let mut x = good.clone();
            x[off + i / 8] ^= 1 << (i % 8);
            let mut t = Try::new(pki);
            t.chain = vec![x];
            expect(pki, &t, c, false);
        }
    });
    let mut keys: Vec<(String, Vec<u8>, bool)> = vec![("good".into(), point(&q), true)];
    let yneg = u_sub(&p256().f.m, &q.1).0;
    let mut comp = vec![2 + (q.1[0] & 1) as u8];
    comp.extend(u_to_be(&q.0));
    keys.push(("compressed".into(), comp, false));
    keys.push(("negated".into(), point(&(q.0, yneg)), false));
    keys.push(("zero".into(), [&[4][..], &[0; 64]].concat(), false));
    keys.push(("infinity".into(), vec![0], false));
    keys.push(("empty".into(), vec![], false));
    keys.push(("p".into(), point(&(p256().f.m, p256().f.m)), false));
    keys.push(("n".into(), point(&(p256().n.m, p256().n.m)), false));
    keys.push(("swapped".into(), point(&(q.1, q.0)), false));
    keys.push(("short".into(), point(&q)[..64].to_vec(), false));
    keys.push(("long".into(), [&point(&q)[..], &[0]].concat(), false));
    chk.each("public-key", &keys, |(n, k, ok), c| {
        if c.begin(n) {
            c.nontrivial(n);
            let cert = spec(&|s| s.spki = spki_raw(k)).sign(&ca.key);
            let mut t = Try::new(pki);
            t.chain = vec![cert];
            expect(pki, &t, c, *ok);
            t.cv = Cv::Raw(sig_ok(&der(0x30, &[der_uint(&u_to_be(&p256().g.0)), der_uint(&u_to_be(&p256().g.0))].concat())));
            expect(pki, &t, c, false);
        }
    });
    let alg = |a: &[u8], b: &[u8]| der(0x30, &[der(0x30, &[a, b].concat()), der(3, &[&[0][..], &point(&q)].concat())].concat());
    let algs: Vec<(&str, Vec<u8>, bool)> = vec![
        ("p256", alg(&der(6, OID_EC), &der(6, OID_P256)), true),
        ("p384", alg(&der(6, OID_EC), &der(6, &[0x2b, 0x81, 4, 0, 0x22])), false),
        ("k256", alg(&der(6, OID_EC), &der(6, &[0x2b, 0x81, 4, 0, 0x0a])), false),
        ("no curve", alg(&der(6, OID_EC), &[]), false),
        ("null curve", alg(&der(6, OID_EC), &[5, 0]), false),
        ("rsa", alg(&der(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), &[5, 0]), false),
        ("ecdsa", alg(&der(6, OID_ECDSA_SHA256), &der(6, OID_P256)), false),
        ("ed25519", alg(&der(6, &[0x2b, 0x65, 0x70]), &[]), false),
    ];
    chk.each("key-algorithm", &algs, |(n, k, ok), c| {
        if c.begin(n) {
            c.nontrivial(n);
            let cert = spec(&|s| s.spki = k.clone()).sign(&ca.key);
            let mut t = Try::new(pki);
            t.chain = vec![cert];
            expect(pki, &t, c, *ok);
        }
    });
    // --- time, to the second
    let limits = [951782400i64, 951868800, 1000000000, 1704067199, 1704067200, 1709164800, 1709251199, 1718452800, 2147483647, 2147483648, 2524607999];
    chk.range("time", limits.len() * 2 * 5, |i, c| {
        let (l, after, d) = (limits[i / 10], i / 5 % 2 == 1, i as i64 % 5 - 2);
        if c.begin(format!("{l}-{after}-{d}")) {
            c.nontrivial(("time", i));
            let cert = spec(&|s| {
                if after {
                    s.not_before = (0x17, b"700101000000Z".to_vec());
                    s.not_after = (0x17, utctime(l));
                } else {
                    s.not_before = (0x17, utctime(l));
                    s.not_after = (0x17, b"491231235959Z".to_vec());
                }
            })
            .sign(&ca.key);
            let mut t = Try::new(pki);
            t.chain = vec![cert];
            t.clock = l + d;
            let want = if after { d <= 0 } else { d >= 0 && t.clock <= 2524607999 };
            expect(pki, &t, c, want);
        }
    });
    // --- forms of the Certificate message
    let entry = |cert: &[u8], ext: &[u8]| [v24(cert), v16(ext)].concat();
    let msg = |es: &[Vec<u8>]| [v8(&[]), v24(&es.concat())].concat();
    let gb = msg(&[entry(&good, &[])]);
    let forms: Vec<(&str, Vec<u8>, bool)> = vec![
        ("plain", gb.clone(), true),
        ("with extension", msg(&[entry(&good, &ext(5, &[1, 2, 3]))]), true),
        ("empty first", msg(&[entry(&[], &[]), entry(&good, &[])]), false),
        ("garbage first", msg(&[entry(&[1, 2, 3], &[]), entry(&good, &[])]), false),
        ("expired second", msg(&[entry(&good, &[]), entry(&spec(&|s| s.not_after = (0x17, b"210101000000Z".to_vec())).sign(&ca.key), &[])]), true),
        ("four", msg(&[entry(&good, &[]), entry(&pki.ca.cert, &[]), entry(&pki.ca2.cert, &[]), entry(&pki.client.cert, &[])]), true),
        ("trailing", [&gb[..], &[0]].concat(), false),
        ("short", gb[..gb.len() - 1].to_vec(), false),
        ("nothing", vec![], false),
        ("list only", vec![0], false),
        ("empty list", vec![0, 0, 0, 0], false),
        ("no extensions field", [v8(&[]), v24(&v24(&good))].concat(), false),
        ("list too long", [&[0, 0, 255, 255][..], &v24(&good), &[0, 0]].concat(), false),
        ("entry too long", [v8(&[]), v24(&[&[0, 255, 255][..], &good, &[0, 0]].concat())].concat(), false),
    ];
    chk.each("message", &forms, |(n, b, ok), c| {
        if c.begin(n) {
            c.nontrivial(n);
            let mut t = Try::new(pki);
            t.raw = Some(b.clone());
            expect(pki, &t, c, *ok);
        }
    });
    // --- the answer to a request: all context lengths, kinds of extensions
    let req = |ctx: &[u8], es: &[Vec<u8>]| [v8(ctx), v16(&es.concat())].concat();
    let sa = |l: &[u16]| ext(0x0d, &v16(&l.iter().flat_map(|s| s.to_be_bytes()).collect::<Vec<u8>>()));
    let ctxs: Vec<usize> = if th { (0..256).collect() } else { vec![0, 1, 2, 31, 32, 33, 127, 128, 254, 255] };
    chk.range("request-context", ctxs.len() * 2 * 3, |i, c| {
        let (n, auth, su) = (ctxs[i / 6], i / 3 % 2 == 1, SUITES[i % 3]);
        if c.begin(format!("{n}-{auth}-{}", suite_name(su))) {
            c.nontrivial(("rc", i));
            let mut t = Try::new(pki);
            t.suite = su;
            t.request = Some((0..n).map(|i| i as u8).collect());
            t.auth = auth;
            expect(pki, &t, c, true);
        }
    });
    let ca_list = ext(0x2f, &v16(&v16(&name(&cn("Test CA")))));
    let reqs: Vec<(&str, Vec<u8>, bool)> = vec![
        ("many schemes", req(&[], &[sa(&[0x0804, 0x0403, 0x0503, 0x0807, 0x0401])]), true),
        ("last scheme", req(&[], &[sa(&[0x0804, 0x0503, 0x0403])]), true),
        ("certificate authorities", req(&[], &[sa(&[0x0403]), ca_list.clone()]), true),
        ("authorities first", req(&[], &[ca_list.clone(), sa(&[0x0403])]), true),
        ("signature_algorithms_cert", req(&[], &[sa(&[0x0403]), ext(0x32, &v16(&[4, 3]))]), true),
        ("unknown extension", req(&[], &[ext(0xfafa, &[1, 2, 3]), sa(&[0x0403])]), true),
        ("short", vec![0, 0], false),
        ("empty", vec![], false),
        ("trailing", [&req(&[], &[sa(&[0x0403])])[..], &[0]].concat(), false),
        ("length", vec![0, 0, 9, 0, 13], false),
        ("context too long", vec![9, 0, 0], false),
    ];
    chk.each("request-form", &reqs, |(n, b, ok), c| {
        if c.begin(n) {
            for auth in [false, true] {
                c.nontrivial((n, auth));
                let mut t = Try::new(pki);
                t.request = Some(vec![]);
                t.request_raw = Some(b.clone());
                t.auth = auth;
                expect(pki, &t, c, *ok);
            }
        }
    });
    // --- many servers, each with another key
    chk.range("servers", if th { 3000 } else { 300 }, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("sv", i));
            let d = u_from_be(&sha256(format!("server {i}").as_bytes())[1..]);
            let q = p256().public(&d);
            let mut s = CertSpec::new("Some CA", &format!("server {i}"), &q);
            s.serial = der_uint(&sha256(&[i as u8])[..1 + i % 20])[2..].to_vec();
            s.version = [Some(2), Some(0), None, Some(1)][i % 4];
            let mut t = Try::new(pki);
            t.suite = SUITES[i % 3];
            t.chain = vec![s.sign(&ca.key)];
            t.key = d;
            if i % 2 == 1 {
                t.request = Some(vec![i as u8]);
                t.auth = i % 3 == 1;
            }
            expect(pki, &t, c, true);
        }
    });
    chk.assume("the reference server, its certificates and signatures follow RFC 8446, RFC 5280 and FIPS 186; the client does not check who signed the certificate");
    chk.finish();
}
