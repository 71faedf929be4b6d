//! C08: a server which requires client certificates, against all combinations of certificates,
//! proofs, times, custom functions and Finished messages, and single changes of all of them.

use anothertls::utils::x509::X509;
use mc::prelude::*;
use std::cell::RefCell;

thread_local! {
    /// Subjects the custom function was asked about
    static ASKED: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
fn ask(c: &X509) -> String {
    let s = c.tbs_certificate.subject.get("commonName").unwrap_or_default();
    ASKED.with(|a| a.borrow_mut().push(s.clone()));
    s
}
fn f_yes(c: &X509) -> bool {
    ask(c);
    true
}
fn f_no(c: &X509) -> bool {
    ask(c);
    false
}
fn f_client(c: &X509) -> bool {
    ask(c) == "client"
}

/// What the client proves with its CertificateVerify
#[derive(Clone, Debug)]
enum Cv {
    Good,
    /// No CertificateVerify at all
    None,
    /// Another transcript: messages (bit mask) left out
    Without(usize),
    Label(&'static str),
    Scheme(u16),
    /// Digest of the content is not SHA-256 of it
    Sha384,
    /// Signature of the server itself, taken from its CertificateVerify
    Replay,
    Flip(usize),
    Trailing,
    Raw(Vec<u8>),
    /// Wrong content of this index
    Wrong(usize),
}

#[derive(Clone)]
struct Try {
    /// CertificateEntry list, None: no Certificate message
    chain: Option<Vec<Vec<u8>>>,
    /// Key which signs
    key: U,
    cv: Cv,
    bad_finished: bool,
    f: Option<fn(&X509) -> bool>,
    clock: i64,
    suite: u16,
    /// Certificate request context, None: as in the request
    ctx: Option<Vec<u8>>,
    ca: usize,
    /// Certificate is sent in this raw form
    raw: Option<Vec<u8>>,
    /// The messages of the client, in this order
    words: Option<Vec<Msg>>,
}
/// A message of the client
#[derive(Clone, Debug, PartialEq)]
enum Msg {
    /// Certificate with this key (empty: no certificate)
    Cert(Vec<u8>, U),
    /// Proof with the key of the last certificate
    Verify,
    /// Proof with the key of the first certificate
    VerifyFirst,
    Finished,
}
impl Try {
    fn new(pki: &Pki) -> Try {
        Try {
            chain: Some(vec![pki.client.cert.clone()]),
            key: pki.client.key,
            cv: Cv::Good,
            bad_finished: false,
            f: None,
            clock: NOW,
            suite: AES128,
            ctx: None,
            ca: 0,
            raw: None,
            words: None,
        }
    }
}

fn cuts(tr: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < tr.len() {
        v.push(i);
        i += 4 + (((tr[i + 1] as usize) << 16) | ((tr[i + 2] as usize) << 8) | tr[i + 3] as usize);
    }
    v.push(tr.len());
    v
}

fn cv(p: &Cli, t: &Try) -> Option<Vec<u8>> {
    let sign = |label: &str, tr: &[u8]| cv_body(label, p.suite, tr, &t.key);
    Some(match &t.cv {
        Cv::Good => sign("client", &p.tr),
        Cv::None => return None,
        Cv::Without(mask) => {
            let c = cuts(&p.tr);
            let tr: Vec<u8> = (0..c.len() - 1).filter(|i| mask >> i & 1 == 0).flat_map(|i| p.tr[c[i]..c[i + 1]].to_vec()).collect();
            sign("client", &tr)
        }
        Cv::Label(l) => sign(l, &p.tr),
        Cv::Scheme(s) => {
            let mut b = sign("client", &p.tr);
            b[..2].copy_from_slice(&s.to_be_bytes());
            b
        }
        Cv::Sha384 => {
            let h = sha384(&cv_content("client", p.suite, &p.tr));
            let (r, s) = p256().sign(&t.key, &h[..32], &ref_nonce(&t.key, &h[..32]));
            [&[4, 3][..], &v16(&sig_der(&r, &s))].concat()
        }
        Cv::Replay => [&[4, 3][..], &v16(&p.server_sig)].concat(),
        Cv::Flip(bit) => {
            let mut b = sign("client", &p.tr);
            let n = b.len();
            let i = 4 + (bit / 8) % (n - 4);
            b[i] ^= 1 << (bit % 8);
            b
        }
        Cv::Trailing => {
            let b = sign("client", &p.tr);
            [&[4, 3][..], &v16(&[&b[4..], &[0]].concat())].concat()
        }
        Cv::Raw(b) => b.clone(),
        Cv::Wrong(i) => cv_body_digest(&wrong_contents("client", p.suite, &p.tr)[*i].1, &t.key),
    })
}

struct Outcome {
    admitted: bool,
    name: String,
    asked: Vec<String>,
}

fn attempt(pki: &'static Pki, t: &Try, c: &mut Case) -> Outcome {
    fresh(11);
    set_clock(Some(t.clock));
    ASKED.with(|a| a.borrow_mut().clear());
    let mut b = server_builder(pki).add_client_cert_ca(if t.ca == 0 { pki.ca.cert_path.clone() } else { pki.ca2.cert_path.clone() });
    if let Some(f) = t.f {
        b = b.set_client_cert_custom_verify_fn(f);
    }
    let peer = cell(Cli::new(cli_cfg(pki, t.suite)));
    let mut phase = 0;
    let t2 = t.clone();
    let sock = client_sock(&peer, move |p: &mut Cli| {
        if phase == 0 {
            phase = 1;
            p.sent_hello();
            let r = plain_rec(HANDSHAKE, &p.ch.clone());
            p.out.push_back(r);
        } else if phase == 1 && p.wait == Wait::Done {
            phase = 2;
            let mut ms = vec![];
            if let Some(w) = &t2.words {
                let mut keys = vec![];
                let ctx = p.req_ctx.clone().unwrap_or_default();
                for m in w {
                    let own = pki.client.key;
                    let m = match m {
                        Msg::Cert(cert, key) => {
                            keys.push(*key);
                            hs(CERTIFICATE, &cert_body(&ctx, &if cert.is_empty() { vec![] } else { vec![cert.clone()] }))
                        }
                        Msg::Verify => hs(CERTIFICATE_VERIFY, &cv_body("client", p.suite, &p.tr, keys.last().unwrap_or(&own))),
                        Msg::VerifyFirst => hs(CERTIFICATE_VERIFY, &cv_body("client", p.suite, &p.tr, keys.first().unwrap_or(&own))),
                        Msg::Finished => p.m_finished(),
                    };
                    if m[0] != FINISHED {
                        p.tr.extend_from_slice(&m);
                    }
                    let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                    p.out.push_back(r);
                }
                p.to_app();
                let r = p.wr.as_mut().unwrap().seal(APPDATA, b"secret command");
                p.out.push_back(r);
                return;
            }
            if p.req_ctx.is_none() {
                p.bad.push("no CertificateRequest".into());
            }
            if let Some(raw) = &t2.raw {
                let m = hs(CERTIFICATE, raw);
                p.tr.extend_from_slice(&m);
                ms.push(m);
            } else if let Some(chain) = &t2.chain {
                let ctx = t2.ctx.clone().unwrap_or(p.req_ctx.clone().unwrap_or_default());
                let m = hs(CERTIFICATE, &cert_body(&ctx, chain));
                p.tr.extend_from_slice(&m);
                ms.push(m);
            }
            if let Some(b) = cv(p, &t2) {
                let m = hs(CERTIFICATE_VERIFY, &b);
                p.tr.extend_from_slice(&m);
                ms.push(m);
            }
            let mut f = p.m_finished();
            if t2.bad_finished {
                f[9] ^= 4;
            }
            ms.push(f);
            for m in ms {
                let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                p.out.push_back(r);
            }
            p.to_app();
            let r = p.wr.as_mut().unwrap().seal(APPDATA, b"secret command");
            p.out.push_back(r);
        }
    });
    let r = accept(b, &sock);
    flush_client(&sock, &peer);
    let name = r.name();
    let admitted = r.is_ok();
    if let Res::Panic(e) = &r {
        c.fail(format!("panic: {e}"));
    }
    let alert = lk(&peer).got_alert;
    let bad = lk(&peer).bad.clone();
    c.check(bad.is_empty(), format!("the server: {bad:?}"));
    if let Res::Ok(mut s) = r {
        let mut b = [0; 32];
        let n = tls_read(&mut s, &mut b).ok();
        c.check(n == Some(14) && &b[..14] == b"secret command", "an admitted client can not send data");
        c.check(tls_write(&mut s, b"answer").is_ok(), "write");
        flush_client(&sock, &peer);
        c.check(lk(&peer).app_data() == b"answer", "an admitted client does not get data");
        c.check(alert.is_none(), "alert for an admitted client");
    } else {
        c.check(alert.is_some_and(|a| a.0 == 2), format!("refused ({name}) without a fatal alert: {alert:?}"));
        c.check(lk(&peer).app_data().is_empty(), "data for a client which is not admitted");
    }
    Outcome { admitted, name, asked: ASKED.with(|a| a.borrow().clone()) }
}
fn expect(pki: &'static Pki, t: &Try, c: &mut Case, want: bool) -> Outcome {
    let o = attempt(pki, t, c);
    c.outcome(format!("{}: {}", if o.admitted { "admitted" } else { "refused" }, o.name));
    if o.admitted != want {
        c.fail(format!("{} ({}), but must {}be admitted", if o.admitted { "admitted" } else { "refused" }, o.name, if want { "" } else { "not " }));
    }
    o
}

/// All words of n letters
fn all_words(letters: usize, n: usize) -> Vec<Vec<usize>> {
    (0..letters.pow(n as u32)).map(|mut i| (0..n).map(|_| { let r = i % letters; i /= letters; r }).collect()).collect()
}

fn main() {
    let chk = Check::start(
        "C08",
        "exploration",
        "every combination of certificate, proof, custom function, time, Finished, CA and suite is one real handshake with the server; the rule of the property predicts whether the client is admitted",
    );
    let th = chk.thorough;
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let ca = &pki.ca;
    let spec = |f: &dyn Fn(&mut CertSpec)| {
        let mut s = CertSpec::new("Test CA", "client", &pki.client.public);
        f(&mut s);
        s
    };
    // --- the product
    struct CertKind {
        name: &'static str,
        chain: Vec<Vec<u8>>,
        key: U,
        /// signed by ca, by ca2
        signed: [bool; 2],
        subject: &'static str,
    }
    let one = |name, id: &Id, signed, subject| CertKind { name, chain: vec![id.cert.clone()], key: id.key, signed, subject };
    let mut kinds = vec![
        one("client", &pki.client, [true, false], "client"),
        one("client2", &pki.client2, [true, false], "client two"),
        one("stranger", &pki.stranger, [false, true], "client"),
        one("selfsigned", &pki.selfsigned, [false, false], "client"),
        one("ca", &pki.ca, [true, false], "Test CA"),
        one("server", &pki.server, [false, false], "localhost"),
        CertKind { name: "none", chain: vec![], key: pki.client.key, signed: [false, false], subject: "" },
    ];
    let tbs = |c: &[u8]| {
        // the signed part of a certificate of the harness
        let n = c.len();
        let mut i = 4;
        let l = if c[i + 1] & 0x80 == 0 { c[i + 1] as usize + 2 } else { c[i + 2] as usize + 3 };
        if c[1] == 0x81 {
            i = 3;
        }
        let l = if i == 3 { if c[4] & 0x80 == 0 { c[4] as usize + 2 } else { c[5] as usize + 3 } } else { l };
        assert!(i + l < n);
        c[i..i + l].to_vec()
    };
    // a signature of the CA for something else
    let foreign = assemble(&tbs(&pki.stranger.cert), OID_ECDSA_SHA256, &ref_sign(&ca.key, &tbs(&pki.client2.cert)));
    kinds.push(CertKind { name: "signature-of-another", chain: vec![foreign], key: pki.stranger.key, signed: [false, false], subject: "client" });
    kinds.push(CertKind {
        name: "with-ca",
        chain: vec![pki.client.cert.clone(), ca.cert.clone()],
        key: pki.client.key,
        signed: [true, false],
        subject: "client",
    });
    kinds.push(CertKind {
        name: "stranger-then-client",
        chain: vec![pki.stranger.cert.clone(), pki.client.cert.clone()],
        key: pki.stranger.key,
        signed: [false, true],
        subject: "client",
    });
    kinds.push(CertKind {
        name: "stranger-then-client-key-of-client",
        chain: vec![pki.stranger.cert.clone(), pki.client.cert.clone()],
        key: pki.client.key,
        signed: [false, false],
        subject: "client",
    });
    kinds.push(CertKind {
        name: "client-then-stranger-key-of-stranger",
        chain: vec![pki.client.cert.clone(), pki.stranger.cert.clone()],
        key: pki.stranger.key,
        signed: [false, false],
        subject: "client",
    });
    let fns: [(&str, Option<fn(&X509) -> bool>); 4] = [("nofn", None), ("yes", Some(f_yes)), ("no", Some(f_no)), ("bysubject", Some(f_client))];
    let clocks = [("valid", NOW), ("early", 1_500_000_000), ("late", 1_900_000_000)];
    let cvs: Vec<(&str, Cv, bool)> = vec![
        ("cv", Cv::Good, true),
        ("nocv", Cv::None, false),
        ("nocert", Cv::Without(1 << 7), false),
        ("label", Cv::Label("server"), false),
        ("replay", Cv::Replay, false),
        ("flip", Cv::Flip(100), false),
    ];
    let dims = [kinds.len(), fns.len(), clocks.len(), cvs.len(), 2, 2, 3];
    let total: usize = dims.iter().product();
    chk.range("product", total, |i, c| {
        let mut j = i;
        let mut d = |k: usize| {
            let r = j % dims[k];
            j /= dims[k];
            r
        };
        let (k, f, cl, v, fin, cai, su) = (d(0), d(1), d(2), d(3), d(4), d(5), d(6));
        // the quick run has one suite for every combination
        if !th && (k + f + cl + v + fin + cai) % 3 != su {
            return;
        }
        let (kind, f, cl, v) = (&kinds[k], &fns[f], clocks[cl], &cvs[v]);
        let id = format!("{}-{}-{}-{}-{}-ca{cai}-{}", kind.name, f.0, cl.0, v.0, ["fin", "badfin"][fin], suite_name(SUITES[su]));
        if !c.begin(&id) {
            return;
        }
        c.nontrivial(&id);
        let mut t = Try::new(pki);
        t.chain = Some(kind.chain.clone());
        t.key = kind.key;
        t.cv = v.1.clone();
        if let ("nocert", true) = (v.0, true) {
            // everything but the certificate: ClientHello, ServerHello, EE, CR, Cert, CV, Fin, Cert
            t.cv = Cv::Without(1 << 7);
        }
        if kind.chain.is_empty() && v.0 == "cv" {
            t.cv = Cv::None;
        }
        t.f = f.1;
        t.clock = cl.1;
        t.suite = SUITES[su];
        t.ca = cai;
        t.bad_finished = fin == 1;
        let by_fn = match f.0 {
            "nofn" | "yes" => true,
            "no" => false,
            _ => kind.subject == "client",
        };
        let want = kind.signed[cai] && by_fn && cl.0 == "valid" && v.2 && fin == 0;
        let o = expect(pki, &t, c, want);
        if o.admitted && f.1.is_some() {
            c.check(o.asked == [kind.subject], format!("the custom function was asked about {:?}", o.asked));
        }
        if f.1.is_none() {
            c.check(o.asked.is_empty(), "custom function of another configuration");
        }
    });
    // --- all orders of messages: certificates which are admitted, denied, expired, of an unknown CA,
    // missing, proofs for the last and the first of them, and Finished
    let expired = spec(&|s| s.not_after = (0x17, b"210101000000Z".to_vec())).sign(&ca.key);
    let alphabet = [
        ("G", Msg::Cert(pki.client.cert.clone(), pki.client.key)),
        ("D", Msg::Cert(pki.client2.cert.clone(), pki.client2.key)),
        ("U", Msg::Cert(pki.stranger.cert.clone(), pki.stranger.key)),
        ("X", Msg::Cert(expired, pki.client.key)),
        ("E", Msg::Cert(vec![], pki.client.key)),
        ("v", Msg::Verify),
        ("w", Msg::VerifyFirst),
        ("f", Msg::Finished),
    ];
    let mut seqs: Vec<Vec<usize>> = vec![];
    for n in 0..=if th { 6 } else { 5 } {
        // up to n messages, then Finished; or up to 3 messages without
        for w in all_words(7, n) {
            if n <= 3 {
                seqs.push(w.clone());
            }
            seqs.push([w, vec![7]].concat());
        }
    }
    chk.range("messages", seqs.len() * fns.len(), |i, c| {
        let (w, f) = (&seqs[i / fns.len()], &fns[i % fns.len()]);
        // the quick run has long sequences only with the functions which may deny
        if !th && w.len() > 4 && f.0 != "bysubject" {
            return;
        }
        let text: String = w.iter().map(|i| alphabet[*i].0).collect();
        if !c.begin(format!("{text}-{}", f.0)) {
            return;
        }
        c.nontrivial((&text, f.0));
        let mut t = Try::new(pki);
        t.f = f.1;
        t.words = Some(w.iter().map(|i| alphabet[*i].1.clone()).collect());
        let own = matches!(text.as_str(), "Gvf" | "Gwf");
        let second = matches!(text.as_str(), "Dvf" | "Dwf");
        let want = match f.0 {
            "nofn" | "yes" => own || second,
            "no" => false,
            _ => own,
        };
        let o = expect(pki, &t, c, want);
        if o.admitted && f.1.is_some() {
            c.check(o.asked == [if own { "client" } else { "client two" }], "the custom function was not asked about the client");
        }
    });
    // --- the proof: all subsets of the transcript, all bits of the signature, schemes
    chk.range("transcript", 256 * 3, |i, c| {
        let (mask, su) = (i / 3, SUITES[i % 3]);
        if c.begin(format!("{mask:b}-{}", suite_name(su))) {
            c.nontrivial(("tr", i));
            let mut t = Try::new(pki);
            t.suite = su;
            t.cv = Cv::Without(mask);
            expect(pki, &t, c, mask == 0);
        }
    });
    // the signed content: all changes of its construction
    let names: Vec<(u16, usize, String)> = SUITES
        .iter()
        .flat_map(|su| wrong_contents("client", *su, b"transcript").into_iter().enumerate().map(|(i, (n, _))| (*su, i, n)).collect::<Vec<_>>())
        .collect();
    chk.each("signed-content", &names, |(su, i, n), c| {
        // the quick run has every content with one suite of both lengths of the hash
        if !th && *su == CHACHA {
            return;
        }
        if c.begin(format!("{n}-{}", suite_name(*su))) {
            c.nontrivial(("content", su, n));
            let mut t = Try::new(pki);
            t.suite = *su;
            t.cv = Cv::Wrong(*i);
            expect(pki, &t, c, false);
        }
    });
    chk.range("signature-bit", 72 * 8, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("sb", i));
            let mut t = Try::new(pki);
            t.cv = Cv::Flip(i);
            expect(pki, &t, c, false);
        }
    });
    let schemes: Vec<u16> = if th {
        (0..=0xffff).collect()
    } else {
        let mut v: Vec<u16> = (0..0x1000).filter(|s| s & 0xff < 0x10 || s >> 8 == 4).collect();
        v.extend([0x8000, 0x8403, 0x0483, 0xffff, 0x0403 ^ 0x4000]);
        v
    };
    chk.each("scheme", &schemes, |s, c| {
        if c.begin(format!("{s:04x}")) {
            c.nontrivial(("scheme", s));
            let mut t = Try::new(pki);
            t.cv = Cv::Scheme(*s);
            expect(pki, &t, c, *s == 0x0403);
        }
    });
    let sig_ok = |b: &[u8]| [&[4, 3][..], &v16(b)].concat();
    let nm = u_to_be(&p256().n.m);
    let raws: Vec<(&str, Vec<u8>)> = vec![
        ("empty", vec![]),
        ("scheme only", vec![4, 3]),
        ("no signature", vec![4, 3, 0, 0]),
        ("length too long", vec![4, 3, 0, 10, 1, 2]),
        ("zeros", sig_ok(&der(0x30, &[2, 1, 0, 2, 1, 0]))),
        ("zero r", sig_ok(&der(0x30, &[2, 1, 0, 2, 1, 1]))),
        ("zero s", sig_ok(&der(0x30, &[2, 1, 1, 2, 1, 0]))),
        ("ones", sig_ok(&der(0x30, &[2, 1, 1, 2, 1, 1]))),
        ("n n", sig_ok(&der(0x30, &[der_uint(&nm), der_uint(&nm)].concat()))),
        ("negative", sig_ok(&der(0x30, &[2, 1, 0xff, 2, 1, 0xff]))),
        ("sequence", sig_ok(&[0x30, 0])),
        ("empty numbers", sig_ok(&[0x30, 4, 2, 0, 2, 0])),
        ("text", sig_ok(b"signature")),
        ("big", sig_ok(&der(0x30, &[der(2, &[1; 1000]), der(2, &[1; 1000])].concat()))),
    ];
    chk.each("raw-proof", &raws, |(n, b), c| {
        if c.begin(n) {
            c.nontrivial(n);
            let mut t = Try::new(pki);
            t.cv = Cv::Raw(b.clone());
            expect(pki, &t, c, false);
        }
    });
    for (n, v) in [("sha384", Cv::Sha384), ("trailing", Cv::Trailing), ("label-TLS", Cv::Label("")), ("label-Client", Cv::Label("Client"))] {
        chk.range("proof", 1, |_, c| {
            if c.begin(n) {
                c.nontrivial(n);
                let mut t = Try::new(pki);
                t.cv = v.clone();
                expect(pki, &t, c, false);
            }
        });
    }
    // a proof of an earlier handshake with the same certificate
    chk.range("replayed-proof", 3, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("rp", i));
            let mut t = Try::new(pki);
            t.suite = SUITES[i];
            let old = cell(vec![]);
            // record it
            let o2 = old.clone();
            fresh(12);
            let peer = cell(Cli::new(cli_cfg(pki, t.suite)));
            let mut h = honest_client(Some((vec![pki.client.cert.clone()], pki.client.key)));
            let sock = client_sock(&peer, move |p| {
                let had = p.tr.clone();
                h(p);
                if p.wait == Wait::Done && lk(&o2).is_empty() {
                    let _ = had;
                    let cu = cuts(&p.tr);
                    let n = cu.len();
                    // the last two are CertificateVerify and Finished
                    *lk(&o2) = p.tr[cu[n - 3] + 4..cu[n - 2]].to_vec();
                }
            });
            let r = accept(server_builder(pki).add_client_cert_ca(pki.ca.cert_path.clone()), &sock);
            c.check(r.is_ok(), "honest client refused");
            let old = lk(&old).clone();
            c.check(old.starts_with(&[4, 3]), "harness: no proof recorded");
            t.cv = Cv::Raw(old);
            expect(pki, &t, c, false);
        }
    });
    // --- the certificate: all bits
    let good = pki.client.cert.clone();
    chk.range("certificate-bit", good.len() * 8, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("cb", i));
            let mut x = good.clone();
            x[i / 8] ^= 1 << (i % 8);
            let mut t = Try::new(pki);
            t.chain = Some(vec![x]);
            expect(pki, &t, c, false);
        }
    });
    chk.range("certificate-length", good.len() + 3, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("cl", i));
            let mut x = good.clone();
            x.resize(i, 0);
            let mut t = Try::new(pki);
            t.chain = Some(vec![x]);
            expect(pki, &t, c, i == good.len());
        }
    });
    // bits of the public key with a matching signature of the client, not of the CA
    // keys of the certificate which are signed by the CA but unusable
    let mut keys: Vec<(String, Vec<u8>, bool)> = vec![("good".into(), point(&pki.client.public), true)];
    let q = pki.client.public;
    let yneg = u_sub(&p256().f.m, &q.1).0;
    let mut comp = vec![2 + (q.1[0] & 1) as u8];
    comp.extend(u_to_be(&q.0));
    keys.push(("compressed".into(), comp, false));
    keys.push(("negated".into(), point(&(q.0, yneg)), false));
    keys.push(("zero".into(), [&[4][..], &[0; 64]].concat(), false));
    keys.push(("infinity".into(), vec![0], false));
    keys.push(("empty".into(), vec![], false));
    keys.push(("p".into(), point(&(p256().f.m, p256().f.m)), false));
    keys.push(("n".into(), point(&(p256().n.m, p256().n.m)), false));
    keys.push(("swapped".into(), point(&(q.1, q.0)), false));
    keys.push(("short".into(), point(&q)[..64].to_vec(), false));
    keys.push(("long".into(), [&point(&q)[..], &[0]].concat(), false));
    for b in [0u8, 1, 2, 3, 5, 6, 7, 0xff] {
        let mut x = point(&q);
        x[0] = b;
        keys.push((format!("form{b:x}"), x, false));
    }
    for i in [1, 8, 32, 33, 64] {
        let mut x = point(&q);
        x[i] ^= 1;
        keys.push((format!("changed{i}"), x, false));
    }
    chk.each("public-key", &keys, |(n, k, ok), c| {
        if c.begin(n) {
            c.nontrivial(n);
            let cert = spec(&|s| s.spki = spki_raw(k)).sign(&ca.key);
            let mut t = Try::new(pki);
            t.chain = Some(vec![cert]);
            expect(pki, &t, c, *ok);
            // and a proof made up without any key
            t.cv = Cv::Raw(sig_ok(&der(0x30, &[der_uint(&u_to_be(&p256().g.0)), der_uint(&u_to_be(&p256().g.0))].concat())));
            expect(pki, &t, c, false);
        }
    });
    // other algorithms and curves of the key
    let alg = |a: &[u8], b: &[u8]| der(0x30, &[der(0x30, &[a, b].concat()), der(3, &[&[0][..], &point(&q)].concat())].concat());
    let algs: Vec<(&str, Vec<u8>, bool)> = vec![
        ("p256", alg(&der(6, OID_EC), &der(6, OID_P256)), true),
        ("p384", alg(&der(6, OID_EC), &der(6, &[0x2b, 0x81, 4, 0, 0x22])), false),
        ("k256", alg(&der(6, OID_EC), &der(6, &[0x2b, 0x81, 4, 0, 0x0a])), false),
        ("no curve", alg(&der(6, OID_EC), &[]), false),
        ("null curve", alg(&der(6, OID_EC), &[5, 0]), false),
        ("rsa", alg(&der(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), &[5, 0]), false),
        ("ecdsa", alg(&der(6, OID_ECDSA_SHA256), &der(6, OID_P256)), false),
        ("ed25519", alg(&der(6, &[0x2b, 0x65, 0x70]), &[]), false),
    ];
    chk.each("key-algorithm", &algs, |(n, k, ok), c| {
        if c.begin(n) {
            c.nontrivial(n);
            let cert = spec(&|s| s.spki = k.clone()).sign(&ca.key);
            let mut t = Try::new(pki);
            t.chain = Some(vec![cert]);
            expect(pki, &t, c, *ok);
        }
    });
    // the algorithm of the signature of the CA
    let rsa = [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0b];
    let e384 = [0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3];
    chk.range("signature-algorithm", 18, |i, c| {
        let (inner, outer, hash) = (i / 6, i / 2 % 3, i % 2);
        if c.begin(format!("{inner}-{outer}-{hash}")) {
            c.nontrivial(("sa", i));
            let oids: [&[u8]; 3] = [OID_ECDSA_SHA256, &e384, &rsa];
            let t1 = spec(&|s| s.sig_oid = oids[inner].to_vec()).tbs();
            let sig = if hash == 0 {
                ref_sign(&ca.key, &t1)
            } else {
                let h = sha384(&t1);
                let (r, s) = p256().sign(&ca.key, &h[..32], &ref_nonce(&ca.key, &h[..32]));
                sig_der(&r, &s)
            };
            let mut t = Try::new(pki);
            t.chain = Some(vec![assemble(&t1, oids[outer], &sig)]);
            expect(pki, &t, c, inner == outer && inner == hash);
        }
    });
    // the signature in the certificate
    let good_tbs = tbs(&good);
    let sig = ref_sign(&ca.key, &good_tbs);
    let (r, s) = sig_parse(&sig).unwrap();
    let ns = u_sub(&p256().n.m, &s).0;
    let sigs: Vec<(&str, Vec<u8>, bool)> = vec![
        ("good", sig.clone(), true),
        ("other half", sig_der(&r, &ns), true),
        ("swapped", sig_der(&s, &r), false),
        ("zero", sig_der(&[0; 4], &[0; 4]), false),
        ("zero r", sig_der(&[0; 4], &s), false),
        ("zero s", sig_der(&r, &[0; 4]), false),
        ("n", sig_der(&p256().n.m, &p256().n.m), false),
        ("empty", vec![], false),
        ("trailing", [&sig[..], &[0]].concat(), false),
        ("trailing-in", der(0x30, &[&sig[2..], &[5, 0][..]].concat()), false),
        ("negative", der(0x30, &[2, 1, 0x80, 2, 1, 0x80]), false),
        ("of the client", ref_sign(&pki.client.key, &good_tbs), false),
        ("of ca2", ref_sign(&pki.ca2.key, &good_tbs), false),
        ("of the whole", ref_sign(&ca.key, &good), false),
        ("of the content", ref_sign(&ca.key, &good_tbs[3..]), false),
        ("of nothing", ref_sign(&ca.key, &[]), false),
    ];
    chk.each("ca-signature", &sigs, |(n, s, ok), c| {
        if c.begin(n) {
            c.nontrivial(n);
            let mut t = Try::new(pki);
            t.chain = Some(vec![assemble(&good_tbs, OID_ECDSA_SHA256, s)]);
            expect(pki, &t, c, *ok);
        }
    });
    // --- time: both limits, to the second, with several limits
    let limits = [951782400i64, 951868800, 1000000000, 1704067199, 1704067200, 1709164800, 1709251199, 1718452800, 2147483647, 2147483648, 2524607999];
    chk.range("time", limits.len() * 2 * 5, |i, c| {
        let (l, after, d) = (limits[i / 10], i / 5 % 2 == 1, i as i64 % 5 - 2);
        if c.begin(format!("{l}-{after}-{d}")) {
            c.nontrivial(("time", i));
            let cert = spec(&|s| {
                if after {
                    s.not_before = (0x17, b"700101000000Z".to_vec());
                    s.not_after = (0x17, utctime(l));
                } else {
                    s.not_before = (0x17, utctime(l));
                    s.not_after = (0x17, b"491231235959Z".to_vec());
                }
            })
            .sign(&ca.key);
            let mut t = Try::new(pki);
            t.chain = Some(vec![cert]);
            t.clock = l + d;
            // 2049 is the last year of UTCTime
            let want = if after { d <= 0 } else { d >= 0 && t.clock <= 2524607999 };
            expect(pki, &t, c, want);
        }
    });
    // --- forms of the Certificate message
    chk.range("context", 6, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("ctx", i));
            let mut t = Try::new(pki);
            t.ctx = [None, Some(vec![]), Some(vec![0; 32]), Some(vec![1]), Some(vec![7; 31]), Some(vec![9; 255])][i].clone();
            expect(pki, &t, c, i == 0);
        }
    });
    chk.range("no-certificate", 4, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("nc", i));
            let mut t = Try::new(pki);
            t.chain = if i < 2 { None } else { Some(vec![]) };
            t.cv = if i % 2 == 0 { Cv::None } else { Cv::Good };
            expect(pki, &t, c, false);
        }
    });
    let entry = |cert: &[u8], ext: &[u8]| [v24(cert), v16(ext)].concat();
    let ctxlen = 32;
    let _ = ctxlen;
    let forms: Vec<(&str, Vec<Vec<u8>>, bool)> = vec![
        ("plain", vec![entry(&good, &[])], true),
        ("with extension", vec![entry(&good, &ext(5, &[1, 2, 3]))], true),
        ("empty first", vec![entry(&[], &[]), entry(&good, &[])], false),
        ("garbage first", vec![entry(&[1, 2, 3], &[]), entry(&good, &[])], false),
        ("garbage second", vec![entry(&good, &[]), entry(&[1, 2, 3], &[])], true),
        ("expired second", vec![entry(&good, &[]), entry(&spec(&|s| s.not_after = (0x17, b"210101000000Z".to_vec())).sign(&ca.key), &[])], true),
        ("ten", (0..10).map(|_| entry(&good, &[])).collect(), true),
    ];
    // the context is known only in the handshake: use the chain for the plain forms
    chk.each("chain", &forms, |(n, es, ok), c| {
        if c.begin(n) {
            c.nontrivial(n);
            let mut t = Try::new(pki);
            // a server with the deterministic generator has the same context in every connection
            fresh(11);
            let list: Vec<u8> = es.concat();
            // learn the context
            let peer = cell(Cli::new(cli_cfg(pki, AES128)));
            let sock = client_sock(&peer, honest_client(None));
            let _ = accept(server_builder(pki).add_client_cert_ca(pki.ca.cert_path.clone()), &sock);
            let ctx = lk(&peer).req_ctx.clone().unwrap_or_default();
            t.raw = Some([v8(&ctx), v24(&list)].concat());
            expect(pki, &t, c, *ok);
        }
    });
    // --- without a CA there is no request and certificates are refused
    chk.range("no-ca", 3, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("noca", i));
            fresh(11);
            let peer = cell(Cli::new(cli_cfg(pki, SUITES[i])));
            let mut phase = 0;
            let sock = client_sock(&peer, move |p: &mut Cli| {
                if phase == 0 {
                    p.sent_hello();
                    let r = plain_rec(HANDSHAKE, &p.ch.clone());
                    p.out.push_back(r);
                    phase = 1;
                } else if phase == 1 && p.wait == Wait::Done {
                    phase = 2;
                    let ms = [p.m_cert(&[pki.client.cert.clone()]), p.m_verify(&pki.client.key), p.m_finished()];
                    for m in ms {
                        let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                        p.out.push_back(r);
                    }
                }
            });
            let r = accept(server_builder(pki), &sock);
            c.outcome(r.name());
            c.check(lk(&peer).req_ctx.is_none(), "certificate requested without a CA");
            c.check(matches!(r, Res::Err(_)), "a certificate which was not requested is accepted");
        }
    });
    // --- many different clients of the CA are admitted
    chk.range("clients", if th { 2000 } else { 200 }, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("cl", i));
            let d = u_from_be(&sha256(format!("client {i}").as_bytes())[1..]);
            let q = p256().public(&d);
            let mut s = CertSpec::new("Test CA", &format!("client {i}"), &q);
            s.serial = der_uint(&sha256(&[i as u8])[..1 + i % 20])[2..].to_vec();
            s.version = [Some(2), Some(0), None, Some(1)][i % 4];
            if i % 4 == 0 {
                s.exts = vec![(vec![0x55, 0x1d, 0x13], true, vec![0x30, 0]), (vec![0x55, 0x1d, 0x0f], true, vec![3, 2, 7, 0x80])];
            }
            let mut t = Try::new(pki);
            t.suite = SUITES[i % 3];
            t.chain = Some(vec![s.sign(&ca.key)]);
            t.key = d;
            expect(pki, &t, c, true);
        }
    });
    chk.assume("the reference client, its certificates and signatures follow RFC 8446, RFC 5280 and FIPS 186");
    chk.finish();
}
