//! C06: all sequences of client messages, valid and forged, up to a depth, against the server.

use mc::prelude::*;

const ALPHABET: &[&str] = &[
    // plaintext
    "CH", "CHA", "CHB", "CHX", "CHY", "CCS", "CCS2", "CCS0", "CCSL", "pALERT", "pFIN", "pCERT", "pCV", "pAPP", "pEMPTY", "pUNK", "pHS99", "pSH",
    // protected with the client handshake key
    "CERT", "CERT0", "CERTC", "CV", "CVX", "FIN", "FING", "FINX", "FINS", "FINT", "FINL", "FINP", "FINQ", "FINA", "FINB", "KU", "EOED", "NST", "SHe",
    "CHe", "UNK", "APP", "CCSe", "EMPTY", "NUL", "ALERT", "CN",
    // protected with another key or number
    "FINapp", "FINsrv", "FINseq", "FINold", "FINzero", "APPapp", "FINtyp",
];

/// Model of the server
#[derive(Clone, Copy, PartialEq, Hash, Debug)]
enum M {
    Start,
    HelloPart,
    /// number of messages left before Finished: 2 Certificate, 1 CertificateVerify, 0
    Flight(u8),
    FinPart,
    Done,
    /// The certificate or its proof is defective: reported at the latest with Finished
    Deferred,
    Failed,
    /// Pieces of a message which can not be right any more, noticed at the latest when it is complete
    Limbo,
    /// an alert of the client
    Closed,
}

/// Carries handshake data under the right keys
fn handshake_data(a: &str) -> bool {
    [
        "CERT", "CERT0", "CERTC", "CV", "CVX", "FIN", "FING", "FINX", "FINS", "FINT", "FINL", "FINP", "FINQ", "FINA", "FINB", "KU", "EOED", "NST", "SHe",
        "CHe", "UNK",
    ]
    .contains(&a)
}

fn step(m: M, a: &str, auth: bool) -> M {
    match (m, a) {
        (M::Failed | M::Closed | M::Done, _) => m,
        (_, "pALERT") => M::Closed,
        (M::Start, "CH") => M::Flight(if auth { 2 } else { 0 }),
        (M::Start, "CHA") => M::HelloPart,
        (M::Start, _) => M::Failed,
        (M::HelloPart, "CHB") => M::Flight(if auth { 2 } else { 0 }),
        (M::HelloPart, "pFIN" | "pCERT" | "pCV" | "pHS99" | "pSH" | "CH" | "CHA" | "CHX" | "CHY" | "FINtyp") => M::Limbo,
        (M::HelloPart, _) => M::Failed,
        (M::Limbo, "ALERT" | "CN") => M::Closed,
        (M::Limbo, _) => M::Limbo,
        (M::FinPart, "FINB") => M::Done,
        (M::FinPart, "ALERT" | "CN") => M::Closed,
        (M::FinPart, a) if handshake_data(a) => M::Limbo,
        (M::FinPart, _) => M::Failed,
        (_, "ALERT" | "CN") => M::Closed,
        (_, "CCS") => m,
        (M::Flight(0), "FIN" | "FING") => M::Done,
        (M::Flight(0), "FINA") => M::FinPart,
        (M::Flight(2), "CERT") => M::Flight(1),
        (M::Flight(1), "CV") => M::Flight(0),
        (M::Flight(2), "CERT0" | "CERTC") => M::Deferred,
        (M::Flight(1), "CVX") => M::Deferred,
        (M::Deferred, "CERT" | "CERT0" | "CERTC" | "CV" | "CVX" | "KU" | "EOED" | "NST" | "SHe" | "CHe" | "UNK") => M::Deferred,
        (_, "FINA" | "FINB") => M::Limbo,
        _ => M::Failed,
    }
}

struct Plan {
    /// transcript of the conforming messages only
    good: Vec<u8>,
    part: Vec<u8>,
    sent: usize,
}

fn act(a: &str, p: &mut Cli, s: &mut Plan, pki: &Pki, good: bool) -> Vec<u8> {
    let zero = Dir::new(AES128, &[0; 32]);
    if p.wr.is_none() {
        // nothing can be protected yet
        p.wr = Some(zero.clone());
        let r = act(a, p, s, pki, good);
        p.wr = None;
        return r;
    }
    let ch = p.ch.clone();
    let fin_of = |p: &Cli, tr: &[u8], server: bool| {
        let suite = if p.suite == 0 { AES128 } else { p.suite };
        match &p.sched {
            Some(s) => hs(FINISHED, &verify_data(suite, if server { &s.server_hs } else { &s.client_hs }, tr)),
            None => hs(FINISHED, &verify_data(suite, &[0; 32], tr)),
        }
    };
    let honest = s.good.clone();
    let mut add = |p: &mut Cli, m: Vec<u8>| {
        p.tr.extend_from_slice(&m);
        if good {
            s.good.extend_from_slice(&m);
        }
        m
    };
    let m: Vec<u8> = match a {
        "CH" | "CHA" | "CHB" | "CHX" | "CHY" => {
            let cut = ch.len() / 2;
            let d = match a {
                "CHA" => ch[..cut].to_vec(),
                "CHB" => ch[cut..].to_vec(),
                "CHX" => [ch.clone(), hs(KEY_UPDATE, &[0])].concat(),
                "CHY" => [&ch[..], &[KEY_UPDATE]].concat(),
                _ => ch.clone(),
            };
            if a != "CHA" && p.sched.is_none() {
                p.tr = ch.clone();
            }
            return plain_rec(HANDSHAKE, &d);
        }
        "CCS" => return plain_rec(CCS, &[1]),
        "CCS2" => return plain_rec(CCS, &[2]),
        "CCS0" => return plain_rec(CCS, &[]),
        "CCSL" => return plain_rec(CCS, &[1, 1]),
        "pALERT" => return plain_rec(ALERT, &[2, 40]),
        "pFIN" => {
            let m = fin_of(p, &p.tr.clone(), false);
            return plain_rec(HANDSHAKE, &add(p, m));
        }
        "pCERT" => {
            let m = p.m_cert(&[pki.client.cert.clone()]);
            return plain_rec(HANDSHAKE, &m);
        }
        "pCV" => {
            let m = p.m_verify(&pki.client.key);
            return plain_rec(HANDSHAKE, &m);
        }
        "pAPP" => return plain_rec(APPDATA, &[7; 32]),
        "pEMPTY" => return plain_rec(HANDSHAKE, &[]),
        "pUNK" => return plain_rec(24, &[1, 0, 0]),
        "pHS99" => return plain_rec(HANDSHAKE, &hs(99, &[1, 2, 3])),
        "pSH" => return plain_rec(HANDSHAKE, &hs(SERVER_HELLO, &ch[4..])),
        "CERT" => {
            let ctx = p.req_ctx.clone().unwrap_or_default();
            add(p, hs(CERTIFICATE, &cert_body(&ctx, &[pki.client.cert.clone()])))
        }
        "CERT0" => {
            let ctx = p.req_ctx.clone().unwrap_or_default();
            add(p, hs(CERTIFICATE, &cert_body(&ctx, &[])))
        }
        "CERTC" => {
            let mut ctx = p.req_ctx.clone().unwrap_or(vec![0; 32]);
            ctx[0] ^= 1;
            add(p, hs(CERTIFICATE, &cert_body(&ctx, &[pki.client.cert.clone()])))
        }
        "CV" => {
            let suite = p.suite;
            let b = cv_body("client", suite, &p.tr, &pki.client.key);
            add(p, hs(CERTIFICATE_VERIFY, &b))
        }
        "CVX" => {
            let b = cv_body("client", p.suite, &p.tr, &pki.stranger.key);
            add(p, hs(CERTIFICATE_VERIFY, &b))
        }
        "FIN" | "FINapp" | "FINsrv" | "FINseq" | "FINold" | "FINzero" | "FINA" | "FINtyp" => {
            let m = fin_of(p, &p.tr.clone(), false);
            if a == "FINA" {
                let (x, y) = m.split_at(m.len() / 2);
                s.part = y.to_vec();
                return p.wr.as_mut().unwrap().seal(HANDSHAKE, x);
            }
            let m = add(p, m);
            match a {
                "FINapp" => return p.app_wr.clone().unwrap_or(zero).seal(HANDSHAKE, &m),
                "FINsrv" => {
                    let mut d = match &p.sched {
                        Some(s) => Dir::new(p.suite, &s.server_hs),
                        None => zero,
                    };
                    return d.seal(HANDSHAKE, &m);
                }
                "FINseq" => {
                    let mut d = p.wr.clone().unwrap();
                    d.seq += 1;
                    return d.seal(HANDSHAKE, &m);
                }
                "FINold" => {
                    let mut d = p.wr.clone().unwrap();
                    d.seq = d.seq.wrapping_sub(1);
                    return d.seal(HANDSHAKE, &m);
                }
                "FINzero" => {
                    let mut d = p.wr.clone().unwrap();
                    d.key.fill(0);
                    return d.seal(HANDSHAKE, &m);
                }
                "FINtyp" => {
                    // well protected, but not in a record of type application_data
                    let mut r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                    r[0] = HANDSHAKE;
                    return r;
                }
                _ => m,
            }
        }
        "FINB" => {
            let m = std::mem::take(&mut s.part);
            let m = if m.is_empty() { vec![20] } else { m };
            return p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
        }
        "FING" => {
            let m = fin_of(p, &honest, false);
            add(p, m)
        }
        "FINX" | "FINT" | "FINL" => {
            let mut m = fin_of(p, &p.tr.clone(), false);
            match a {
                "FINX" => m[20] ^= 0x80,
                "FINT" => m = hs(FINISHED, &m[4..m.len() - 1]),
                _ => m = hs(FINISHED, &[&m[4..], &[0][..]].concat()),
            }
            add(p, m)
        }
        "FINS" => {
            let m = fin_of(p, &p.tr.clone(), true);
            add(p, m)
        }
        "FINP" | "FINQ" => {
            let m = fin_of(p, &p.tr.clone(), false);
            let m = add(p, m);
            // a complete message behind it, or the start of one
            let n = if a == "FINP" { 5 } else { 1 };
            [&m[..], &hs(KEY_UPDATE, &[0])[..n]].concat()
        }
        "KU" => add(p, hs(KEY_UPDATE, &[0])),
        "EOED" => add(p, hs(END_OF_EARLY_DATA, &[])),
        "NST" => add(p, hs(NEW_SESSION_TICKET, &[0; 20])),
        "SHe" => add(p, hs(SERVER_HELLO, &ch[4..])),
        "CHe" => add(p, ch),
        "UNK" => add(p, hs(99, &[1, 2, 3])),
        "APP" => return p.wr.as_mut().unwrap().seal(APPDATA, b"early"),
        "CCSe" => return p.wr.as_mut().unwrap().seal(CCS, &[1]),
        "EMPTY" => return p.wr.as_mut().unwrap().seal(HANDSHAKE, &[]),
        "NUL" => return p.wr.as_mut().unwrap().seal_inner(&[0; 8]),
        "ALERT" => return p.wr.as_mut().unwrap().seal(ALERT, &[2, 40]),
        "CN" => return p.wr.as_mut().unwrap().seal(ALERT, &[1, 0]),
        "APPapp" => return p.app_wr.clone().unwrap_or(zero).seal(APPDATA, b"early"),
        _ => panic!("action {a}"),
    };
    p.wr.as_mut().unwrap().seal(HANDSHAKE, &m)
}

fn run(pki: &'static Pki, suite: u16, auth: bool, w: &[&'static str], c: &mut Case) -> End {
    fresh(7);
    let peer = cell(Cli::new(cli_cfg(pki, suite)));
    let word: Vec<&'static str> = w.to_vec();
    let used = cell(0usize);
    let u2 = used.clone();
    let mut st = Plan { good: vec![], part: vec![], sent: 0 };
    let mut m = M::Start;
    let sock = client_sock(&peer, move |p: &mut Cli| {
        if st.sent == 0 {
            st.good.clear();
        }
        if st.good.is_empty() && p.sched.is_some() {
            st.good = p.tr.clone();
        }
        if st.sent < word.len() {
            let a = word[st.sent];
            let next = step(m, a, auth);
            let good = !matches!(next, M::Failed | M::Closed) && m != M::Deferred;
            m = next;
            let d = act(a, p, &mut st, pki, good);
            p.out.push_back(d);
            st.sent += 1;
            *lk(&u2) = st.sent;
        }
    });
    let mut b = server_builder(pki);
    if auth {
        b = b.add_client_cert_ca(pki.ca.cert_path.clone());
    }
    let r = accept(b, &sock);
    flush_client(&sock, &peer);
    let p = lk(&peer);
    // what the model says
    let mut m = M::Start;
    let mut before = m;
    for a in w {
        before = m;
        m = step(m, a, auth);
    }
    c.state((auth, suite, m, before, w.last()));
    c.nontrivial(w);
    let waiting = p.starved > 0;
    c.outcome(format!("{m:?}: {}", if waiting { "waits".into() } else { r.name() }));
    if let Res::Panic(e) = &r {
        c.fail(format!("panic: {e}"));
        return End::Over;
    }
    for b in &p.bad {
        c.fail(format!("the server sent something it must not: {b}"));
    }
    if *lk(&used) < w.len() {
        c.fail(format!("the server ended ({}) before it read the last of the actions", r.name()));
        return End::Over;
    }
    let alert = p.got_alert;
    match m {
        M::Done => {
            c.check(r.is_ok(), format!("a complete correct handshake fails with {}", r.name()));
            c.check(alert.is_none(), "alert in a correct handshake");
        }
        M::Start | M::HelloPart | M::Flight(_) | M::FinPart => {
            c.check(!r.is_ok(), "connection established before the handshake is complete");
            c.check(waiting && alert.is_none(), format!("the server gave up in the middle of a correct handshake: {}", r.name()));
        }
        M::Deferred | M::Limbo => {
            c.check(!r.is_ok(), "connection established with a defective client certificate or pieces of messages");
            if !waiting {
                c.check(alert.is_some(), "the handshake failed without an alert");
            }
        }
        M::Closed => c.check(!r.is_ok() && !waiting, format!("after an alert of the client: {}", r.name())),
        M::Failed => {
            c.check(!r.is_ok(), format!("connection established although {} is not allowed here", w[w.len() - 1]));
            if r.is_ok() {
            } else if waiting {
                c.fail(format!("{} is not allowed here, but the server goes on", w[w.len() - 1]));
            } else {
                c.check(alert.is_some_and(|a| a.0 == 2), format!("the handshake failed ({}) without a fatal alert", r.name()));
            }
        }
    }
    c.validated();
    if waiting && !(m == M::Limbo && w.len() > 3) && !c.failed() {
        End::Waiting
    } else {
        End::Over
    }
}

/// Finished with other contents, everything else correct
fn finished(pki: &'static Pki, suite: u16, auth: bool, c: &mut Case, change: impl Fn(&Cli, &[usize], Vec<u8>) -> Vec<u8> + Send + 'static, ok: bool) {
    fresh(9);
    let peer = cell(Cli::new(cli_cfg(pki, suite)));
    let mut phase = 0;
    let sock = client_sock(&peer, move |p: &mut Cli| {
        if phase == 0 {
            p.sent_hello();
            let r = plain_rec(HANDSHAKE, &p.ch.clone());
            p.out.push_back(r);
        } else if phase == 1 {
            if auth {
                let ms = [p.m_cert(&[pki.client.cert.clone()]), p.m_verify(&pki.client.key)];
                for m in ms {
                    let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                    p.out.push_back(r);
                }
            }
            // where the messages of the transcript start
            let mut cuts = vec![];
            let mut i = 0;
            while i < p.tr.len() {
                cuts.push(i);
                i += 4 + (((p.tr[i + 1] as usize) << 16) | ((p.tr[i + 2] as usize) << 8) | p.tr[i + 3] as usize);
            }
            cuts.push(p.tr.len());
            let v = verify_data(p.suite, &p.sched.as_ref().unwrap().client_hs, &p.tr);
            let m = hs(FINISHED, &change(p, &cuts, v));
            let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
            p.out.push_back(r);
        }
        phase += 1;
    });
    let mut b = server_builder(pki);
    if auth {
        b = b.add_client_cert_ca(pki.ca.cert_path.clone());
    }
    let r = accept(b, &sock);
    flush_client(&sock, &peer);
    let p = lk(&peer);
    c.trans(3);
    c.state((suite, auth, c.id().to_string()));
    c.outcome(format!("Finished: {}", r.name()));
    for b in &p.bad {
        c.fail(format!("the server sent something it must not: {b}"));
    }
    if ok {
        c.check(r.is_ok(), "the correct Finished is refused");
    } else {
        c.check(!r.is_ok(), "connection established with wrong Finished data");
        c.check(p.got_alert.is_some_and(|a| a.0 == 2), format!("wrong Finished data, but no fatal alert ({})", r.name()));
    }
    c.validated();
}

fn main() {
    let chk = Check::start(
        "C06",
        "model_checking",
        "every word over the alphabet of client actions is run against the real server, from a fresh connection, as long as the server still waits for input; the model (states: start, partial hello, messages left, partial Finished, defective certificate, failed, closed, done) predicts acceptance, waiting or failure",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let t = chk.thorough;
    for suite in SUITES {
        for auth in [false, true] {
            let n = suite_hash(suite).len();
            let tag = format!("{}-{}", if auth { "auth" } else { "noauth" }, suite_name(suite));
            chk.range(&format!("bits-{tag}"), 8 * n, |i, c| {
                if c.begin(format!("{i}")) {
                    finished(pki, suite, auth, c, move |_, _, mut v| {
                        v[i / 8] ^= 1 << (i % 8);
                        v
                    }, false);
                }
            });
            chk.range(&format!("length-{tag}"), n + 20, |i, c| {
                if c.begin(format!("{i}")) {
                    finished(pki, suite, auth, c, move |_, _, v| [&v[..], &[0; 64][..]].concat()[..i].to_vec(), i == n);
                }
            });
            // the transcript without some of its messages (bit mask), with one twice, two exchanged
            let msgs = if auth { 9 } else { 6 };
            chk.range(&format!("transcript-{tag}"), 1 << msgs, |mask, c| {
                if c.begin(format!("without-{mask:b}")) {
                    finished(pki, suite, auth, c, move |p, cuts, _| {
                        assert_eq!(cuts.len(), msgs + 1);
                        let t: Vec<u8> = (0..msgs).filter(|i| mask >> i & 1 == 0).flat_map(|i| p.tr[cuts[i]..cuts[i + 1]].to_vec()).collect();
                        verify_data(p.suite, &p.sched.as_ref().unwrap().client_hs, &t)
                    }, mask == 0);
                }
            });
            chk.range(&format!("secret-{tag}"), 6, |i, c| {
                if c.begin(format!("{i}")) {
                    finished(pki, suite, auth, c, move |p, _, v| {
                        let s = p.sched.as_ref().unwrap();
                        let app = p.app.clone().unwrap();
                        match i {
                            0 => verify_data(p.suite, &s.server_hs, &p.tr),
                            1 => verify_data(p.suite, &app.0, &p.tr),
                            2 => verify_data(p.suite, &s.master, &p.tr),
                            3 => verify_data(p.suite, &vec![0; v.len()], &p.tr),
                            4 => verify_data(p.suite, &s.server_hs, &p.tr_server_finished[..p.tr_server_finished.len() - 4 - v.len()]),
                            _ => vec![0; v.len()],
                        }
                    }, false);
                }
            });
        }
    }
    for (suite, plain, auth) in [(AES128, 5, 5), (AES256, 4, 4), (CHACHA, 4, 4)] {
        let (plain, auth) = if t { (7, 6) } else { (plain, auth) };
        words(&chk, &format!("noauth-{}", suite_name(suite)), ALPHABET, plain, |w, c| run(pki, suite, false, w, c));
        words(&chk, &format!("auth-{}", suite_name(suite)), ALPHABET, auth, |w, c| run(pki, suite, true, w, c));
    }
    chk.assume("the reference client, its cryptography and the model of the allowed sequences follow RFC 8446");
    chk.finish();
}
