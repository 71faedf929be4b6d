//! C07: all sequences of server messages, valid and forged, up to a depth, against the client.

use mc::prelude::*;

const ALPHABET: &[&str] = &[
    // plaintext
    "SH", "SHA", "SHB", "SHX", "SHY", "CCS", "CCS2", "CCS0", "CCSL", "pALERT", "pEE", "pCERT", "pFIN", "pAPP", "pEMPTY", "pUNK", "pHS99", "pCH",
    // protected with the server handshake key
    "EE", "CR", "CERT", "CERT0", "CV", "CVX", "FIN", "FING", "FINX", "FINS", "FINT", "FINL", "FINP", "FINQ", "FINA", "FINB", "KU", "NST", "EOED", "CHe",
    "SHe", "UNK", "APP", "CCSe", "EMPTY", "NUL", "ALERT", "CN",
    // protected with another key or number
    "FINapp", "FINcli", "FINseq", "FINold", "FINzero", "FINtyp", "APPapp",
];

/// Model of the client
#[derive(Clone, Copy, PartialEq, Hash, Debug)]
enum M {
    Start,
    HelloPart,
    EncExt,
    CertOrReq,
    Cert,
    Verify,
    Fin,
    FinPart,
    Done,
    /// The certificate or its proof is defective: reported at the latest with Finished
    Deferred(u8),
    /// Pieces of a message which can not be right any more, noticed at the latest when it is complete
    Limbo(u8),
    Failed,
    Closed,
}

fn handshake_data(a: &str) -> bool {
    [
        "EE", "CR", "CERT", "CERT0", "CV", "CVX", "FIN", "FING", "FINX", "FINS", "FINT", "FINL", "FINP", "FINQ", "FINA", "FINB", "KU", "NST", "EOED", "CHe",
        "SHe", "UNK",
    ]
    .contains(&a)
}

fn step(m: M, a: &str) -> M {
    match (m, a) {
        (M::Failed | M::Closed | M::Done, _) => m,
        (_, "pALERT") => M::Closed,
        (M::Start, "SH") => M::EncExt,
        (M::Start, "SHA") => M::HelloPart,
        (M::Start, "SHB") => M::Limbo(0),
        (M::Start, _) => M::Failed,
        (M::HelloPart, "SHB") => M::EncExt,
        (M::HelloPart, "pFIN" | "pCERT" | "pEE" | "pHS99" | "pCH" | "SH" | "SHA" | "SHX" | "SHY" | "FINtyp") => M::Limbo(0),
        (M::HelloPart, _) => M::Failed,
        (M::Limbo(_) | M::FinPart, "ALERT" | "CN") => if m == M::FinPart { M::Closed } else { M::Limbo(9) },
        (M::Limbo(n), _) => M::Limbo(n + 1),
        (M::FinPart, "FINB") => M::Done,
        (M::FinPart, a) if handshake_data(a) => M::Limbo(0),
        (M::FinPart, _) => M::Failed,
        (_, "ALERT" | "CN") => M::Closed,
        (M::Deferred(n), "CCS") => M::Deferred(n + 1),
        (_, "CCS") => m,
        (M::EncExt, "EE") => M::CertOrReq,
        (M::CertOrReq, "CR") => M::Cert,
        (M::CertOrReq | M::Cert, "CERT") => M::Verify,
        (M::CertOrReq | M::Cert, "CERT0") => M::Deferred(0),
        (M::Verify, "CV") => M::Fin,
        (M::Verify, "CVX") => M::Deferred(0),
        (M::Fin, "FIN" | "FING") => M::Done,
        (M::Fin, "FINA") => M::FinPart,
        (M::Deferred(n), a) if handshake_data(a) && !a.starts_with("FIN") => M::Deferred(n + 1),
        (_, "FINA" | "FINB") => M::Limbo(0),
        _ => M::Failed,
    }
}

struct Plan {
    good: Vec<u8>,
    part: Vec<u8>,
    sent: usize,
}

fn act(a: &str, p: &mut Srv, s: &mut Plan, pki: &Pki, good: bool) -> Vec<u8> {
    let zero = Dir::new(AES128, &[0; 32]);
    if p.wr.is_none() && !matches!(a, "SH" | "SHA" | "SHX" | "SHY") {
        // nothing can be protected yet
        p.wr = Some(zero.clone());
        let r = act(a, p, s, pki, good);
        p.wr = None;
        return r;
    }
    let fin_of = |p: &Srv, tr: &[u8], client: bool| match &p.sched {
        Some(s) => hs(FINISHED, &verify_data(p.cfg.suite, if client { &s.client_hs } else { &s.server_hs }, tr)),
        None => hs(FINISHED, &verify_data(p.cfg.suite, &[0; 32], tr)),
    };
    let honest = s.good.clone();
    let chain = [pki.server.cert.clone()];
    let m: Vec<u8> = match a {
        "SH" | "SHA" | "SHX" | "SHY" => {
            if p.sched.is_some() {
                let b = p.sh_body();
                return plain_rec(HANDSHAKE, &hs(SERVER_HELLO, &b));
            }
            let sh = p.m_hello();
            match a {
                "SHA" => {
                    let (x, y) = sh.split_at(sh.len() / 2);
                    s.part = y.to_vec();
                    return plain_rec(HANDSHAKE, x);
                }
                "SHX" => return plain_rec(HANDSHAKE, &[sh, hs(ENCRYPTED_EXTENSIONS, &[0, 0])].concat()),
                "SHY" => return plain_rec(HANDSHAKE, &[&sh[..], &[ENCRYPTED_EXTENSIONS]].concat()),
                _ => return plain_rec(HANDSHAKE, &sh),
            }
        }
        "SHB" => {
            let m = std::mem::take(&mut s.part);
            return plain_rec(HANDSHAKE, &if m.is_empty() { vec![2] } else { m });
        }
        "CCS" => return plain_rec(CCS, &[1]),
        "CCS2" => return plain_rec(CCS, &[2]),
        "CCS0" => return plain_rec(CCS, &[]),
        "CCSL" => return plain_rec(CCS, &[1, 1]),
        "pALERT" => return plain_rec(ALERT, &[2, 40]),
        "pEE" => return plain_rec(HANDSHAKE, &p.m_ee()),
        "pCERT" => return plain_rec(HANDSHAKE, &p.m_cert()),
        "pFIN" => return plain_rec(HANDSHAKE, &fin_of(p, &p.tr, false)),
        "pAPP" => return plain_rec(APPDATA, &[7; 32]),
        "pEMPTY" => return plain_rec(HANDSHAKE, &[]),
        "pUNK" => return plain_rec(24, &[1, 0, 0]),
        "pHS99" => return plain_rec(HANDSHAKE, &hs(99, &[1, 2, 3])),
        "pCH" => return plain_rec(HANDSHAKE, &p.ch.clone()),
        "EE" => hs(ENCRYPTED_EXTENSIONS, &[0, 0]),
        "CR" => hs(CERTIFICATE_REQUEST, &[v8(&[]), v16(&ext(0x0d, &v16(&[4, 3])))].concat()),
        "CERT" => hs(CERTIFICATE, &cert_body(&[], &chain)),
        "CERT0" => hs(CERTIFICATE, &cert_body(&[], &[])),
        "CV" => hs(CERTIFICATE_VERIFY, &cv_body("server", p.cfg.suite, &p.tr, &pki.server.key)),
        "CVX" => hs(CERTIFICATE_VERIFY, &cv_body("server", p.cfg.suite, &p.tr, &pki.stranger.key)),
        "FINA" => {
            let m = fin_of(p, &p.tr, false);
            let (x, y) = m.split_at(m.len() / 2);
            s.part = y.to_vec();
            // already part of the transcript of the honest sequence
            if good {
                p.tr.extend_from_slice(&m);
                p.finish();
            }
            return p.wr.as_mut().unwrap().seal(HANDSHAKE, x);
        }
        "FINB" => {
            let m = std::mem::take(&mut s.part);
            return p.wr.as_mut().unwrap().seal(HANDSHAKE, &if m.is_empty() { vec![20] } else { m });
        }
        "FIN" | "FINP" | "FINQ" | "FINapp" | "FINcli" | "FINseq" | "FINold" | "FINzero" | "FINtyp" => fin_of(p, &p.tr, false),
        "FING" => fin_of(p, &honest, false),
        "FINX" | "FINT" | "FINL" => {
            let mut m = fin_of(p, &p.tr, false);
            match a {
                "FINX" => m[20] ^= 0x80,
                "FINT" => m = hs(FINISHED, &m[4..m.len() - 1]),
                _ => m = hs(FINISHED, &[&m[4..], &[0][..]].concat()),
            }
            m
        }
        "FINS" => fin_of(p, &p.tr, true),
        "KU" => hs(KEY_UPDATE, &[0]),
        "NST" => hs(NEW_SESSION_TICKET, &[&[0, 0, 0, 9, 0, 0, 0, 1][..], &v8(&[1]), &v16(&[7; 16]), &v16(&[])].concat()),
        "EOED" => hs(END_OF_EARLY_DATA, &[]),
        "CHe" => p.ch.clone(),
        "SHe" => hs(SERVER_HELLO, &p.sh_body()),
        "UNK" => hs(99, &[1, 2, 3]),
        "APP" => return p.wr.as_mut().unwrap().seal(APPDATA, b"early"),
        "CCSe" => return p.wr.as_mut().unwrap().seal(CCS, &[1]),
        "EMPTY" => return p.wr.as_mut().unwrap().seal(HANDSHAKE, &[]),
        "NUL" => return p.wr.as_mut().unwrap().seal_inner(&[0; 8]),
        "ALERT" => return p.wr.as_mut().unwrap().seal(ALERT, &[2, 40]),
        "CN" => return p.wr.as_mut().unwrap().seal(ALERT, &[1, 0]),
        "APPapp" => {
            let app = p.sched.as_ref().map(|s| s.app(&p.tr).1).unwrap_or(vec![0; 32]);
            return Dir::new(p.cfg.suite, &app).seal(APPDATA, b"early");
        }
        _ => panic!("action {a}"),
    };
    if p.sched.is_some() {
        p.tr.extend_from_slice(&m);
        if good {
            s.good.extend_from_slice(&m);
        }
        if good && a.starts_with("FIN") {
            p.finish();
        }
    }
    let mut d = p.wr.clone().unwrap();
    let r = match a {
        "FINapp" => {
            let app = p.sched.as_ref().map(|s| s.app(&p.tr).1).unwrap_or(vec![0; 32]);
            return Dir::new(p.cfg.suite, &app).seal(HANDSHAKE, &m);
        }
        "FINcli" => {
            let s = p.sched.as_ref().map(|s| s.client_hs.clone()).unwrap_or(vec![0; 32]);
            return Dir::new(p.cfg.suite, &s).seal(HANDSHAKE, &m);
        }
        "FINseq" => {
            d.seq += 1;
            return d.seal(HANDSHAKE, &m);
        }
        "FINold" => {
            d.seq = d.seq.wrapping_sub(1);
            return d.seal(HANDSHAKE, &m);
        }
        "FINzero" => {
            d.key.fill(0);
            return d.seal(HANDSHAKE, &m);
        }
        "FINtyp" => {
            let mut r = d.seal(HANDSHAKE, &m);
            r[0] = HANDSHAKE;
            r
        }
        "FINP" => d.seal(HANDSHAKE, &[m, hs(NEW_SESSION_TICKET, &[0; 20])].concat()),
        "FINQ" => d.seal(HANDSHAKE, &[&m[..], &[NEW_SESSION_TICKET]].concat()),
        _ => d.seal(HANDSHAKE, &m),
    };
    p.wr = Some(d);
    r
}

fn builder(pki: &Pki, auth: bool) -> CB {
    if auth {
        CB::new().add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone())
    } else {
        CB::new()
    }
}

/// No connection may have been made and nothing but an alert sent
fn no_finished(p: &Srv, c: &mut Case) {
    if p.ev.iter().any(|e| matches!(e, Ev::Hs(t) if *t != CLIENT_HELLO) || matches!(e, Ev::App(_))) {
        c.fail(format!("the client sent more than its ClientHello and an alert: {:?}", p.ev));
    }
}

fn run(pki: &'static Pki, suite: u16, auth: bool, w: &[&'static str], c: &mut Case) -> End {
    fresh(7);
    let mut cfg = srv_cfg(pki, suite);
    let mut m = M::Start;
    let mut before = m;
    let mut requested = false;
    for a in w {
        before = m;
        m = step(m, a);
        requested |= before == M::CertOrReq && *a == "CR";
    }
    if requested {
        cfg.request = Some(vec![]);
    }
    let mut srv = Srv::new(cfg);
    if auth {
        srv.client_key = Some(pki.client.public);
    }
    let peer = cell(srv);
    let word: Vec<&'static str> = w.to_vec();
    let used = cell(0usize);
    let u2 = used.clone();
    let mut st = Plan { good: vec![], part: vec![], sent: 0 };
    let mut cur = M::Start;
    let sock = server_sock(&peer, move |p: &mut Srv| {
        if st.good.is_empty() && p.sched.is_some() {
            st.good = p.tr.clone();
        }
        if st.sent < word.len() {
            let a = word[st.sent];
            let next = step(cur, a);
            let good = !matches!(next, M::Failed | M::Closed | M::Limbo(_)) && !matches!(cur, M::Deferred(_));
            cur = next;
            let d = act(a, p, &mut st, pki, good);
            p.out.push_back(d);
            st.sent += 1;
            *lk(&u2) = st.sent;
        }
    });
    let r = connect(builder(pki, auth), &sock);
    flush_server(&sock, &peer);
    let p = lk(&peer);
    c.state((auth, suite, m, before, requested, w.last()));
    c.nontrivial(w);
    let waiting = p.starved > 0;
    c.outcome(format!("{m:?}: {}", if waiting { "waits".into() } else { r.name() }));
    if let Res::Panic(e) = &r {
        c.fail(format!("panic: {e}"));
        return End::Over;
    }
    if *lk(&used) < w.len() {
        c.fail(format!("the client ended ({}) before it read the last of the actions", r.name()));
        return End::Over;
    }
    if m == M::Done {
        c.check(r.is_ok(), format!("a complete correct handshake fails with {}", r.name()));
        c.check(p.got_alert.is_none() && p.bad.is_empty(), format!("after a correct handshake: alert {:?}, {:?}", p.got_alert, p.bad));
        c.check(p.wait == Wait::Done, "the client did not send its Finished");
        if requested {
            let want = if auth { 1 } else { 0 };
            c.check(p.client_chain.len() == want, "wrong certificates from the client");
        }
    } else {
        c.check(!r.is_ok(), format!("connection established, but the state is {m:?}"));
        // with FINP the Finished is right, only the data behind it is not
        if !(before == M::Fin && matches!(w.last(), Some(&"FINP" | &"FINQ"))) {
            no_finished(&p, c);
        }
        match m {
            M::Start | M::HelloPart | M::EncExt | M::CertOrReq | M::Cert | M::Verify | M::Fin | M::FinPart => {
                c.check(waiting && p.got_alert.is_none(), format!("the client gave up in the middle of a correct handshake: {}", r.name()))
            }
            M::Failed => c.check(!waiting, format!("{} is not allowed here, but the client goes on", w[w.len() - 1])),
            M::Closed => c.check(!waiting, "the client goes on after an alert"),
            _ => (),
        }
    }
    c.validated();
    let deep = matches!(m, M::Deferred(n) | M::Limbo(n) if n > 0);
    if waiting && !deep && !c.failed() {
        End::Waiting
    } else {
        End::Over
    }
}

/// Server Finished with other contents, everything else correct
fn finished(pki: &'static Pki, suite: u16, req: bool, c: &mut Case, change: impl Fn(&Srv, &[usize], Vec<u8>) -> Vec<u8> + Send + 'static, ok: bool) {
    fresh(9);
    let mut cfg = srv_cfg(pki, suite);
    if req {
        cfg.request = Some(vec![]);
    }
    let peer = cell(Srv::new(cfg));
    let mut phase = 0;
    let sock = server_sock(&peer, move |p: &mut Srv| {
        if phase == 0 {
            let m = p.m_hello();
            p.out.push_back(plain_rec(HANDSHAKE, &m));
            let mut ms = vec![p.m_ee()];
            if req {
                ms.push(p.m_request());
            }
            ms.push(p.m_cert());
            ms.push(p.m_verify());
            for m in ms {
                let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                p.out.push_back(r);
            }
            let mut cuts = vec![];
            let mut i = 0;
            while i < p.tr.len() {
                cuts.push(i);
                i += 4 + (((p.tr[i + 1] as usize) << 16) | ((p.tr[i + 2] as usize) << 8) | p.tr[i + 3] as usize);
            }
            cuts.push(p.tr.len());
            let v = verify_data(p.cfg.suite, &p.sched.as_ref().unwrap().server_hs, &p.tr);
            let v = change(p, &cuts, v);
            let m = p.msg(FINISHED, &v);
            p.finish();
            let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
            p.out.push_back(r);
        }
        phase += 1;
    });
    let r = connect(builder(pki, false), &sock);
    flush_server(&sock, &peer);
    let p = lk(&peer);
    c.trans(6);
    c.state((suite, req, c.id().to_string()));
    c.outcome(format!("Finished: {}", r.name()));
    if ok {
        c.check(r.is_ok(), "the correct Finished is refused");
    } else {
        c.check(!r.is_ok(), "connection established with wrong Finished data");
        no_finished(&p, c);
    }
    c.validated();
}

fn main() {
    let chk = Check::start(
        "C07",
        "model_checking",
        "every word over the alphabet of server actions is run against the real client, from a fresh connection, as long as the client still waits for input; the model predicts success, waiting or failure",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    for suite in SUITES {
        for req in [false, true] {
            let n = suite_hash(suite).len();
            let tag = format!("{}-{}", if req { "request" } else { "plain" }, suite_name(suite));
            chk.range(&format!("bits-{tag}"), 8 * n, |i, c| {
                if (!req || i % 8 == 7 || chk.thorough) && c.begin(format!("{i}")) {
                    finished(pki, suite, req, c, move |_, _, mut v| {
                        v[i / 8] ^= 1 << (i % 8);
                        v
                    }, false);
                }
            });
            chk.range(&format!("length-{tag}"), n + 20, |i, c| {
                if c.begin(format!("{i}")) {
                    finished(pki, suite, req, c, move |_, _, v| [&v[..], &[0; 64][..]].concat()[..i].to_vec(), i == n);
                }
            });
            let msgs = if req { 6 } else { 5 };
            chk.range(&format!("transcript-{tag}"), 1 << msgs, |mask, c| {
                if c.begin(format!("without-{mask:b}")) {
                    finished(pki, suite, req, c, move |p, cuts, _| {
                        assert_eq!(cuts.len(), msgs + 1);
                        let t: Vec<u8> = (0..msgs).filter(|i| mask >> i & 1 == 0).flat_map(|i| p.tr[cuts[i]..cuts[i + 1]].to_vec()).collect();
                        verify_data(p.cfg.suite, &p.sched.as_ref().unwrap().server_hs, &t)
                    }, mask == 0);
                }
            });
            chk.range(&format!("secret-{tag}"), 5, |i, c| {
                if c.begin(format!("{i}")) {
                    finished(pki, suite, req, c, move |p, _, v| {
                        let s = p.sched.as_ref().unwrap();
                        match i {
                            0 => verify_data(p.cfg.suite, &s.client_hs, &p.tr),
                            1 => verify_data(p.cfg.suite, &s.app(&p.tr).1, &p.tr),
                            2 => verify_data(p.cfg.suite, &s.master, &p.tr),
                            3 => verify_data(p.cfg.suite, &vec![0; v.len()], &p.tr),
                            _ => vec![0; v.len()],
                        }
                    }, false);
                }
            });
        }
    }
    let t = chk.thorough;
    for (suite, auth, depth) in
        [(AES128, false, 7), (AES128, true, 6), (AES256, false, 5), (CHACHA, false, 5), (AES256, true, 6), (CHACHA, true, 6)]
    {
        let depth = if t { 8 } else { depth };
        let cert = if auth { "cert" } else { "nocert" };
        words(&chk, &format!("{cert}-{}", suite_name(suite)), ALPHABET, depth, |w, c| run(pki, suite, auth, w, c));
    }
    chk.assume("the reference server, its cryptography and the model of the allowed sequences follow RFC 8446");
    chk.finish();
}
