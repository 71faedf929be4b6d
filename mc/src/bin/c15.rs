//! C15: at every point of the handshake and after it, every kind of failure, and every alert; what
//! the real code returns and sends is compared with the descriptions RFC 8446 assigns.

use mc::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Conf {
    server: bool,
    suite: u16,
    /// With client authentication
    auth: bool,
    /// A session id, so ChangeCipherSpec is sent
    sid: bool,
}
impl Conf {
    fn name(&self) -> String {
        format!(
            "{}.{}.auth{}.sid{}",
            if self.server { "server" } else { "client" },
            suite_name(self.suite),
            self.auth as u8,
            self.sid as u8
        )
    }
    /// Points of the exchange, named by the message the code under test waits for
    fn points(&self) -> Vec<Point> {
        use Point::*;
        match (self.server, self.auth) {
            (true, false) => vec![Hello, Finished, App],
            (true, true) => vec![Hello, Cert, Verify, Finished, App],
            (false, false) => vec![Hello, EncExt, CertOrReq, Verify, Finished, App],
            (false, true) => vec![Hello, EncExt, CertOrReq, Cert, Verify, Finished, App],
        }
    }
    /// Which keys protect an alert of the code under test at this point
    fn epoch(&self, p: Point) -> u8 {
        match (p, self.server) {
            (Point::Hello, _) => 0,
            (Point::App, _) => 2,
            (_, true) => 2,
            (_, false) => 1,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Point {
    Hello,
    EncExt,
    CertOrReq,
    Cert,
    Verify,
    Finished,
    App,
}

/// The peer at the point, with its keys for sending
enum Peer<'a> {
    Cli(&'a mut Cli),
    Srv(&'a mut Srv),
}
impl Peer<'_> {
    fn wr(&mut self) -> &mut Dir {
        match self {
            Peer::Cli(p) => p.wr.as_mut().unwrap(),
            Peer::Srv(p) => p.wr.as_mut().unwrap(),
        }
    }
    fn seal(&mut self, typ: u8, data: &[u8]) -> Vec<u8> {
        self.wr().seal(typ, data)
    }
}

#[derive(Debug, Default)]
struct Got {
    /// Result of the first operation that failed
    result: String,
    code: Option<u8>,
    /// Alerts on the wire: level, description, keys
    alert: Option<(u8, u8, u8)>,
    bad: Vec<String>,
    partial: usize,
    /// Bytes sent before the failing data and after everything
    sent_before: usize,
    sent_after: usize,
    reached: bool,
    /// Later operations
    later: Vec<String>,
}

type Send_ = std::sync::Arc<dyn Fn(&mut Peer) -> Vec<u8> + Send + Sync>;

/// Honest until the point, then the bytes
fn run(pki: &'static Pki, k: Conf, at: Point, what: &Send_, c: &mut Case) -> Got {
    fresh(15);
    let mut g = Got::default();
    let reached = cell(None::<usize>);
    let rc = reached.clone();
    let what = what.clone();
    let (mut pc, mut ps) = (None, None);
    let sock: Sock;
    let r;
    let sent_len: Cell<Option<Sock>> = cell(None);
    if k.server {
        let mut cfg = cli_cfg(pki, k.suite);
        if !k.sid {
            cfg.session_id = vec![];
        }
        let peer = cell(Cli::new(cfg));
        let mut phase = 0;
        sock = client_sock(&peer, move |p: &mut Cli| {
            if phase == 0 {
                if at == Point::Hello {
                    phase = 9;
                    *lk(&rc) = Some(p.recs.len());
                    let d = what(&mut Peer::Cli(p));
                    p.out.push_back(d);
                    return;
                }
                phase = 1;
                p.sent_hello();
                let r = plain_rec(HANDSHAKE, &p.ch.clone());
                p.out.push_back(r);
            } else if phase == 1 && p.wait == Wait::Done {
                phase = 2;
                let mut d = vec![];
                if k.sid {
                    d.extend(plain_rec(CCS, &[1]));
                }
                let chain = [pki.client.cert.clone()];
                let mut steps = vec![];
                if k.auth {
                    steps.push(Point::Cert);
                    steps.push(Point::Verify);
                }
                steps.push(Point::Finished);
                steps.push(Point::App);
                for s in steps {
                    if s == at {
                        if s == Point::App {
                            p.to_app();
                        }
                        *lk(&rc) = Some(p.recs.len());
                        d.extend(what(&mut Peer::Cli(p)));
                        break;
                    }
                    let m = match s {
                        Point::Cert => p.m_cert(&chain),
                        Point::Verify => p.m_verify(&pki.client.key),
                        _ => p.m_finished(),
                    };
                    d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                p.out.push_back(d);
            }
        });
        *lk(&sent_len) = Some(sock.clone());
        let mut b = server_builder(pki);
        if k.auth {
            b = b.add_client_cert_ca(pki.ca.cert_path.clone());
        }
        r = accept(b, &sock);
        pc = Some(peer);
    } else {
        let mut cfg = srv_cfg(pki, k.suite);
        if k.auth {
            cfg.request = Some(vec![1, 2, 3]);
        }
        let mut srv = Srv::new(cfg);
        srv.client_key = Some(pki.client.public);
        let peer = cell(srv);
        let mut phase = 0;
        sock = server_sock(&peer, move |p: &mut Srv| {
            if phase == 0 && !p.ch.is_empty() {
                phase = 1;
                let mut d = vec![];
                if at == Point::Hello {
                    *lk(&rc) = Some(p.recs.len());
                    d.extend(what(&mut Peer::Srv(p)));
                    p.out.push_back(d);
                    return;
                }
                let m = p.m_hello();
                d.extend(plain_rec(HANDSHAKE, &m));
                if k.sid {
                    d.extend(plain_rec(CCS, &[1]));
                }
                let mut steps = vec![Point::EncExt, Point::CertOrReq];
                if k.auth {
                    steps.push(Point::Cert);
                }
                steps.extend([Point::Verify, Point::Finished, Point::App]);
                for s in steps {
                    if s == at {
                        if s == Point::App {
                            p.to_app();
                        }
                        *lk(&rc) = Some(p.recs.len());
                        d.extend(what(&mut Peer::Srv(p)));
                        break;
                    }
                    let m = match s {
                        Point::EncExt => p.m_ee(),
                        Point::CertOrReq if k.auth => p.m_request(),
                        Point::CertOrReq | Point::Cert => p.m_cert(),
                        Point::Verify => p.m_verify(),
                        _ => p.m_finished(),
                    };
                    d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                p.out.push_back(d);
            }
        });
        let mut b = CB::new();
        if k.auth {
            b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
        }
        r = connect(b, &sock);
        ps = Some(peer);
    }
    let flush = |g: &mut Got| {
        if let Some(p) = &pc {
            flush_client(&sock, p);
            let p = lk(p);
            g.alert = p.got_alert;
            g.bad = p.bad.clone();
            g.partial = p.partial();
        }
        if let Some(p) = &ps {
            flush_server(&sock, p);
            let p = lk(p);
            g.alert = p.got_alert;
            g.bad = p.bad.clone();
            g.partial = p.partial();
        }
    };
    g.result = r.name();
    g.code = r.code();
    if let Res::Ok(mut s) = r {
        if at == Point::App {
            flush(&mut g);
            g.sent_before = lk(&sock).sent.len();
            let mut b = [0; 100];
            for _ in 0..40 {
                let r = tls_read(&mut s, &mut b);
                g.result = r.name();
                g.code = r.code();
                if !r.is_ok() {
                    break;
                }
            }
            // what follows
            let n = lk(&sock).sent.len();
            for _ in 0..2 {
                g.later.push(tls_read(&mut s, &mut b).name());
            }
            if g.result != "CloseNotify" {
                g.later.push(tls_write(&mut s, b"x").name());
                c.check(lk(&sock).sent.len() == n, "something is sent after the failure");
            }
            let _ = caught(move || drop(s));
            c.check(g.result == "CloseNotify" || lk(&sock).sent.len() == n, "something is sent when the failed connection is dropped");
        }
    }
    flush(&mut g);
    g.reached = lk(&reached).is_some();
    g.sent_after = lk(&sock).sent.len();
    g
}

/// A failure of the peer: the code under test must report one of these
fn failure(c: &mut Case, k: Conf, at: Point, g: &Got, allowed: &[u8]) {
    c.outcome(format!("{} {:?}: {}", if k.server { "server" } else { "client" }, at, g.result));
    c.nontrivial((k.server, at, g.result.clone(), g.alert));
    if !g.reached {
        c.fail("the point of the failure was not reached");
        return;
    }
    let Some(code) = g.code else {
        c.fail(format!("the failure is not an error but {}", g.result));
        return;
    };
    c.check(allowed.contains(&code), format!("the error is {} ({code}), expected one of {allowed:?}", g.result));
    match g.alert {
        None => c.fail(format!("no alert is sent for {}", g.result)),
        Some((level, desc, epoch)) => {
            c.check(level == 2, format!("the level of the alert is {level}"));
            c.check(desc == code, format!("the alert has the description {desc}, the error is {}", g.result));
            c.check(epoch == k.epoch(at), format!("the alert is sent with the keys {epoch}, not {}", k.epoch(at)));
        }
    }
    c.check(g.bad.is_empty(), format!("the peer: {:?}", g.bad));
    c.check(g.partial == 0, "an incomplete record is sent");
    for l in &g.later {
        c.check(*l == g.result, format!("after the error {} a later operation gives {l}", g.result));
    }
}

/// Descriptions of RFC 8446
const KNOWN: [u8; 27] =
    [0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115, 116, 120];

fn snd(f: impl Fn(&mut Peer) -> Vec<u8> + Send + Sync + 'static) -> Send_ {
    std::sync::Arc::new(f)
}

fn main() {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let chk = Check::start(
        "C15",
        "exploration",
        "at every point of the exchange, for both sides, all suites, with and without client authentication and ChangeCipherSpec: every kind of failure, \
         every record, handshake and inner content type, and all 256 alert descriptions of several levels; the error, the one alert and its keys, \
         and the silence afterwards are checked",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let mut confs = vec![];
    for server in [true, false] {
        for suite in SUITES {
            for auth in [false, true] {
                for sid in [true, false] {
                    confs.push(Conf { server, suite, auth, sid });
                }
            }
        }
    }

    // ------------------------------------------------ generic failures at every point
    type Item = (Conf, Point, String, Send_, Vec<u8>);
    let mut v: Vec<Item> = vec![];
    for k in &confs {
        for at in k.points() {
            let plain = at == Point::Hello;
            // all types with one suite, and those in use and some others with all of them
            let all = thorough || k.suite == CHACHA && k.sid;
            let thin = |t: u8| !all && t > 26 && t < 253 && t % 64 != 0;
            let mut add = |n: String, s: Send_, a: &[u8]| v.push((*k, at, n, s, a.to_vec()));
            // record types
            for t in 0..=255u8 {
                if (20..=23).contains(&t) || !thorough && t > 30 && t < 250 && t % 16 != 0 {
                    continue;
                }
                add(format!("record-type{t}"), snd(move |_| plain_rec(t, &[1, 0, 0, 0])), &[10]);
            }
            add("overflow".into(), snd(move |p| {
                let n: usize = if plain { 1 << 14 } else { (1 << 14) + 256 } + 1;
                let t = if plain { HANDSHAKE } else { APPDATA };
                let _ = p;
                let mut r = vec![t, 3, 3, (n >> 8) as u8, n as u8];
                r.resize(5 + n, 0x14);
                r
            }), &[22]);
            add("overflow-max".into(), snd(move |_| {
                let mut r = vec![if plain { HANDSHAKE } else { APPDATA }, 3, 3, 255, 255];
                r.resize(5 + 65535, 0);
                r
            }), &[22]);
            for b in [vec![], vec![0], vec![2], vec![1, 1], vec![0; 300], vec![20]] {
                add(format!("ccs-{}-{:?}", b.len(), b.first()), snd(move |_| plain_rec(CCS, &b)), &[10]);
            }
            if plain || at == Point::App {
                add("ccs".into(), snd(move |_| plain_rec(CCS, &[1])), &[10]);
            }
            if plain {
                add("appdata".into(), snd(move |_| plain_rec(APPDATA, &[1; 40])), &[10]);
                add("empty-handshake".into(), snd(move |_| plain_rec(HANDSHAKE, &[])), &[10, 47, 50]);
                for n in [0usize, 1, 3, 4, 100] {
                    add(format!("alert-length{n}"), snd(move |_| plain_rec(ALERT, &vec![2; n])), if n == 0 { &[10, 50] } else { &[50] });
                }
                for t in 0..=255u8 {
                    let own = if k.server { CLIENT_HELLO } else { SERVER_HELLO };
                    if t != own && !thin(t) {
                        let known = [1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254].contains(&t);
                        add(format!("message{t}"), snd(move |_| plain_rec(HANDSHAKE, &hs(t, &[]))), if known { &[10] } else { &[10, 50] });
                    }
                }
                add("message-too-long".into(), snd(move |_| plain_rec(HANDSHAKE, &[1, 255, 255, 255, 1, 2])), &[10, 22, 47, 50, 80]);
                add("interrupted".into(), snd(move |_| [plain_rec(HANDSHAKE, &[1, 0, 1, 0, 3, 3]), plain_rec(CCS, &[1])].concat()), &[10]);
                continue;
            }
            add("plain-handshake".into(), snd(move |_| plain_rec(HANDSHAKE, &hs(FINISHED, &[0; 32]))), &[10]);
            for n in [0usize, 1, 15, 16] {
                add(format!("short{n}"), snd(move |_| plain_rec(APPDATA, &vec![7; n])), &[20, 50]);
            }
            for bit in [0usize, 1, 7, 40, 100, 128] {
                add(format!("bit{bit}"), snd(move |p| {
                    let mut r = p.seal(HANDSHAKE, &[20, 0, 0, 0]);
                    let n = r.len() * 8;
                    r[(n - 1 - bit) / 8] ^= 1 << (bit % 8);
                    r
                }), &[20]);
            }
            add("wrong-seq".into(), snd(move |p| {
                p.wr().seq += 1;
                p.seal(HANDSHAKE, &[20, 0, 0, 0])
            }), &[20]);
            for n in [0usize, 1, 300] {
                add(format!("no-type{n}"), snd(move |p| p.wr().seal_inner(&vec![0; n])), if n == 0 { &[10, 50, 20] } else { &[10] });
            }
            for n in [1usize, 2, 255] {
                add(format!("content-overflow{n}"), snd(move |p| p.wr().seal_padded(APPDATA, &vec![3; (1 << 14) + n], 0)), &[22]);
                add(format!("padding-overflow{n}"), snd(move |p| p.wr().seal_padded(APPDATA, &vec![3; 1 << 14], n)), &[22]);
            }
            for t in 1..=255u8 {
                if t == HANDSHAKE || t == ALERT || t == APPDATA && at == Point::App || thin(t) {
                    continue;
                }
                add(format!("inner-type{t}"), snd(move |p| p.seal(t, &[1])), &[10]);
            }
            add("inner-empty-handshake".into(), snd(move |p| p.seal(HANDSHAKE, &[])), &[10]);
            add("inner-padded-handshake".into(), snd(move |p| p.wr().seal_padded(HANDSHAKE, &[], 20)), &[10]);
            add("inner-empty-alert".into(), snd(move |p| p.seal(ALERT, &[])), &[10]);
            for n in [1usize, 3, 4, 100] {
                add(format!("inner-alert-length{n}"), snd(move |p| p.seal(ALERT, &vec![2; n])), &[50]);
            }
            for t in 0..=255u8 {
                let fits: &[u8] = match (at, k.server) {
                    (Point::EncExt, _) => &[ENCRYPTED_EXTENSIONS],
                    (Point::CertOrReq, _) => &[CERTIFICATE, CERTIFICATE_REQUEST],
                    (Point::Cert, _) => &[CERTIFICATE],
                    (Point::Verify, _) => &[CERTIFICATE_VERIFY],
                    (Point::Finished, _) => &[FINISHED],
                    (Point::App, false) => &[NEW_SESSION_TICKET],
                    _ => &[],
                };
                if fits.contains(&t) || thin(t) {
                    continue;
                }
                let known = [1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254].contains(&t);
                add(format!("message{t}"), snd(move |p| p.seal(HANDSHAKE, &hs(t, &[0]))), if known { &[10] } else { &[10, 50] });
                if t % 5 == 0 || thorough {
                    add(format!("message{t}-long"), snd(move |p| p.seal(HANDSHAKE, &hs(t, &[1; 200]))), if known { &[10] } else { &[10, 50] });
                }
            }
            add("message-too-long".into(), snd(move |p| p.seal(HANDSHAKE, &[20, 255, 255, 255, 1, 2])), &[10, 22, 47, 50, 51, 80]);
            add("interrupted-ccs".into(), snd(move |p| [p.seal(HANDSHAKE, &[20, 0, 0]), plain_rec(CCS, &[1])].concat()), &[10]);
            add("interrupted-data".into(), snd(move |p| [p.seal(HANDSHAKE, &[20, 0, 0]), p.seal(APPDATA, b"data")].concat()), &[10]);
        }
    }
    chk.each("failures", &v, |(k, at, n, s, allowed), c| {
        if !c.begin(format!("{}.{at:?}.{n}", k.name())) {
            return;
        }
        // more data follows the failure, and must not matter
        let s2 = s.clone();
        let s3 = snd(move |p: &mut Peer| {
            let mut d = s2(p);
            d.extend(plain_rec(ALERT, &[2, 80]));
            d
        });
        let g = run(pki, *k, *at, s, c);
        failure(c, *k, *at, &g, allowed);
        let g2 = run(pki, *k, *at, &s3, c);
        c.check(
            (g.result.clone(), g.alert, g.sent_after) == (g2.result.clone(), g2.alert, g2.sent_after),
            format!("data after the failure matters: {} becomes {}", g.result, g2.result),
        );
    });

    // ------------------------------------------------ wrong contents of the expected messages
    let mut v: Vec<Item> = vec![];
    let expired = |who: &str, id: &Id| {
        let mut s = CertSpec::new("Test CA", who, &id.public);
        s.not_after = (0x17, b"210101000000Z".to_vec());
        s.sign(&pki.ca.key)
    };
    let future = |who: &str, id: &Id| {
        let mut s = CertSpec::new("Test CA", who, &id.public);
        s.not_before = (0x17, b"400101000000Z".to_vec());
        s.not_after = (0x17, b"450101000000Z".to_vec());
        s.sign(&pki.ca.key)
    };
    let by_stranger = |who: &str, id: &Id| CertSpec::new("Test CA", who, &id.public).sign(&pki.stranger.key);
    for k in &confs {
        let auth_key = if k.server { pki.client.key } else { pki.server.key };
        let who = if k.server { "client" } else { "localhost" };
        let id = if k.server { &pki.client } else { &pki.server };
        let good_cert = id.cert.clone();
        for at in k.points() {
            let mut add = |n: &str, a: &[u8], s: Send_| v.push((*k, at, n.to_string(), s, a.to_vec()));
            match at {
                Point::Finished => {
                    for n in ["bit", "zero", "short", "long", "empty", "trailing"] {
                        let allowed: &[u8] = if n == "bit" || n == "zero" { &[51] } else { &[50, 51] };
                        add(n, allowed, snd(move |p| {
                            let mut m = match p {
                                Peer::Cli(p) => p.m_finished(),
                                Peer::Srv(p) => p.m_finished(),
                            };
                            match n {
                                "bit" => m[10] ^= 1,
                                "zero" => m[4..].iter_mut().for_each(|b| *b = 0),
                                "short" => m = hs(FINISHED, &m[4..m.len() - 1]),
                                "long" => m = hs(FINISHED, &[&m[4..], &[0]].concat()),
                                "trailing" => m = hs(FINISHED, &[&m[4..], &m[4..]].concat()),
                                _ => m = hs(FINISHED, &[]),
                            }
                            p.seal(HANDSHAKE, &m)
                        }));
                    }
                    // the next message in the same record
                    add("followed", &[10], snd(move |p| {
                        let m = match p {
                            Peer::Cli(p) => p.m_finished(),
                            Peer::Srv(p) => p.m_finished(),
                        };
                        p.seal(HANDSHAKE, &[m, hs(NEW_SESSION_TICKET, &[0; 20])].concat())
                    }));
                }
                Point::Verify => {
                    // the failure may be reported when the Finished was received
                    for (n, a) in [
                        ("other-key", &[51u8][..]),
                        ("other-label", &[51]),
                        ("other-transcript", &[51]),
                        ("other-hash", &[51]),
                        ("bit", &[51, 50]),
                        ("zero-r", &[51]),
                        ("scheme0503", &[47]),
                        ("scheme0804", &[47, 50]),
                        ("scheme0203", &[47, 50]),
                        ("empty-signature", &[50, 51]),
                        ("empty", &[50]),
                        ("trailing", &[50]),
                        ("truncated", &[50]),
                    ] {
                        add(n, a, snd(move |p| {
                            let (suite, tr, label) = match p {
                                Peer::Cli(p) => (p.suite, p.tr.clone(), "client"),
                                Peer::Srv(p) => (p.cfg.suite, p.tr.clone(), "server"),
                            };
                            let good = cv_body(label, suite, &tr, &auth_key);
                            let other = if label == "client" { "server" } else { "client" };
                            let body = match n {
                                "other-key" => cv_body(label, suite, &tr, &pki.stranger.key),
                                "other-label" => cv_body(other, suite, &tr, &auth_key),
                                "other-transcript" => cv_body(label, suite, &tr[1..], &auth_key),
                                "other-hash" => cv_body(label, if suite == AES256 { AES128 } else { AES256 }, &tr, &auth_key),
                                "bit" => {
                                    let mut b = good.clone();
                                    let n = b.len();
                                    b[n - 1] ^= 1;
                                    b
                                }
                                "zero-r" => [&[4, 3][..], &v16(&[0x30, 6, 2, 1, 0, 2, 1, 1])].concat(),
                                "scheme0503" => [&[5, 3], &good[2..]].concat(),
                                "scheme0804" => [&[8, 4], &good[2..]].concat(),
                                "scheme0203" => [&[2, 3], &good[2..]].concat(),
                                "empty-signature" => vec![4, 3, 0, 0],
                                "empty" => vec![],
                                "trailing" => [&good[..], &[0]].concat(),
                                _ => good[..good.len() - 1].to_vec(),
                            };
                            verify_and_finish(p, &body)
                        }));
                    }
                }
                Point::Cert | Point::CertOrReq => {
                    if at == Point::CertOrReq && k.auth {
                        for (n, a) in [
                            ("request-empty", &[50u8][..]),
                            ("request-noexts", &[50, 109]),
                            ("request-truncated", &[50]),
                            ("request-trailing", &[50]),
                            ("request-algs-empty", &[50, 40, 47]),
                            ("request-algs-odd", &[50, 40, 47]),
                            ("request-twice", &[47, 50]),
                        ] {
                            add(n, a, snd(move |p| {
                                let alg = ext(0x0d, &v16(&[4, 3]));
                                let b = match n {
                                    "request-empty" => vec![],
                                    "request-noexts" => v8(&[1, 2, 3]),
                                    "request-truncated" => [v8(&[1, 2, 3]), vec![0, 20], alg].concat(),
                                    "request-trailing" => [v8(&[1, 2, 3]), v16(&alg), vec![0]].concat(),
                                    "request-algs-empty" => [v8(&[1, 2, 3]), v16(&ext(0x0d, &v16(&[])))].concat(),
                                    "request-algs-odd" => [v8(&[1, 2, 3]), v16(&ext(0x0d, &v16(&[4, 3, 4])))].concat(),
                                    _ => [v8(&[1, 2, 3]), v16(&[alg.clone(), alg].concat())].concat(),
                                };
                                let Peer::Srv(s) = p else { unreachable!() };
                                let mut ms = vec![s.msg(CERTIFICATE_REQUEST, &b)];
                                ms.push(s.m_cert());
                                ms.push(s.m_verify());
                                ms.push(s.m_finished());
                                ms.iter().flat_map(|m| p.seal(HANDSHAKE, m)).collect()
                            }));
                        }
                        continue;
                    }
                    let mut certs: Vec<(&str, Vec<u8>, &[u8])> = vec![
                        ("expired", expired(who, id), &[45]),
                        ("future", future(who, id), &[45]),
                        ("garbage", vec![0x55; 100], &[42, 50]),
                        ("truncated", good_cert[..good_cert.len() - 1].to_vec(), &[42, 50]),
                        ("trailing", [&good_cert[..], &[0]].concat(), &[42, 50]),
                    ];
                    if k.server {
                        certs.push(("stranger", by_stranger(who, id), &[48]));
                        certs.push(("selfsigned", pki.selfsigned.cert.clone(), &[48]));
                    }
                    for (n, der, a) in certs {
                        let key = auth_key;
                        add(n, a, snd(move |p| cert_flight(p, |ctx| cert_body(ctx, &[der.clone()]), &key)));
                    }
                    for (n, a) in [
                        ("empty-list", if k.server { &[116u8][..] } else { &[50] }),
                        ("empty", &[50]),
                        ("context", &[10, 40, 47, 50]),
                        ("list-trailing", &[50]),
                        ("list-truncated", &[50]),
                        ("zero-length", &[50, 42]),
                    ] {
                        if n == "context" && !k.server {
                            // the context of a server is not specified as a failure
                            continue;
                        }
                        let key = auth_key;
                        let der = good_cert.clone();
                        add(n, a, snd(move |p| {
                            cert_flight(
                                p,
                                |ctx| match n {
                                    "empty-list" => cert_body(ctx, &[]),
                                    "empty" => vec![],
                                    "context" => {
                                        let mut x = ctx.to_vec();
                                        x[0] ^= 1;
                                        cert_body(&x, &[der.clone()])
                                    }
                                    "list-trailing" => [&cert_body(ctx, &[der.clone()])[..], &[0]].concat(),
                                    "list-truncated" => {
                                        let mut b = cert_body(ctx, &[der.clone()]);
                                        b.pop();
                                        b
                                    }
                                    _ => cert_body(ctx, &[vec![]]),
                                },
                                &key,
                            )
                        }));
                    }
                }
                _ => (),
            }
        }
    }
    chk.each("contents", &v, |(k, at, n, s, allowed), c| {
        if c.begin(format!("{}.{at:?}.{n}", k.name())) {
            let mut g = run(pki, *k, *at, s, c);
            if *n == "followed" && *at == Point::Finished && !k.server {
                // the client may have sent its own Finished already
                if let Some(a) = &mut g.alert {
                    a.2 = a.2.min(1);
                }
            }
            failure(c, *k, *at, &g, allowed);
        }
    });

    // ------------------------------------------------ hellos
    let mut v: Vec<(Conf, String, Send_, Vec<u8>)> = vec![];
    for k in &confs {
        if k.auth {
            continue;
        }
        let mut add = |n: String, a: &[u8], s: Send_| v.push((*k, n, s, a.to_vec()));
        if k.server {
            let base = {
                let mut b = cli_cfg(pki, k.suite);
                if !k.sid {
                    b.session_id = vec![];
                }
                b
            };
            let exts = base.default_exts();
            let raw = |m: Vec<u8>| snd(move |_| m.chunks(1 << 14).flat_map(|m| plain_rec(HANDSHAKE, m)).collect());
            let with = |f: &dyn Fn(&mut CliCfg, &mut Vec<(u16, Vec<u8>)>)| {
                let mut b = base.clone();
                let mut e = exts.clone();
                f(&mut b, &mut e);
                raw(b.hello_with(&e))
            };
            let set = |e: &mut Vec<(u16, Vec<u8>)>, t: u16, v: Vec<u8>| e.iter_mut().find(|x| x.0 == t).unwrap().1 = v;
            let drop_ = |e: &mut Vec<(u16, Vec<u8>)>, t: u16| e.retain(|x| x.0 != t);
            add("no-suite".into(), &[40, 71], with(&|b, _| b.suites = vec![0x1304, 0xc02b]));
            add("no-versions".into(), &[70, 109], with(&|_, e| drop_(e, 0x2b)));
            add("version12".into(), &[70], with(&|_, e| set(e, 0x2b, v8(&[3, 3]))));
            add("no-share".into(), &[109], with(&|_, e| drop_(e, 0x33)));
            add("no-schemes".into(), &[109], with(&|_, e| drop_(e, 0x0d)));
            add("schemes".into(), &[40, 71], with(&|_, e| set(e, 0x0d, v16(&[8, 4]))));
            add("share-p256".into(), &[40, 71], with(&|_, e| set(e, 0x33, v16(&[&[0, 0x17][..], &v16(&[4; 65])].concat()))));
            add("share-none".into(), &[40, 71], with(&|_, e| set(e, 0x33, v16(&[]))));
            add("share-zero".into(), &[47, 40, 51], with(&|_, e| set(e, 0x33, v16(&[&[0, 0x1d][..], &v16(&[0; 32])].concat()))));
            for n in [1usize, 31, 33, 64] {
                add(format!("share-length{n}"), &[47, 50], with(&|_, e| set(e, 0x33, v16(&[&[0, 0x1d][..], &v16(&vec![9; n])].concat()))));
            }
            add("compression1".into(), &[47], with(&|b, _| b.compression = vec![1]));
            add("compression01".into(), &[47], with(&|b, _| b.compression = vec![0, 1]));
            add("compression-none".into(), &[47, 50], with(&|b, _| b.compression = vec![]));
            for n in [33usize, 255] {
                add(format!("session{n}"), &[50, 47], with(&|b, _| b.session_id = vec![1; n]));
            }
            add("suites-none".into(), &[50, 40, 47], with(&|b, _| b.suites = vec![]));
            for t in [0x0au16, 0x0d, 0x2b, 0x33, 0x1a1a] {
                add(format!("twice{t:x}"), &[47, 50], with(&|_, e| {
                    let x = e.iter().find(|x| x.0 == t).cloned().unwrap_or((t, vec![]));
                    if t == 0x1a1a {
                        e.push(x.clone());
                    }
                    e.push(x);
                }));
            }
            // malformed
            let good = base.hello_with(&exts);
            for cut in 4..good.len() {
                let body = good[4..cut].to_vec();
                // without the extension block it is a hello of an older version
                let old = body.len() == 2 + 32 + 1 + base.session_id.len() + 2 + 2 * base.suites.len() + 2;
                add(format!("cut{}", body.len()), if old { &[70, 109] } else { &[50] }, raw(hs(CLIENT_HELLO, &body)));
            }
            add("trailing".into(), &[50], raw(hs(CLIENT_HELLO, &[&good[4..], &[0]].concat())));
            add("followed".into(), &[10], raw([&good[..], &[0]].concat()));
            add("followed2".into(), &[10], raw([&good[..], &good[..]].concat()));
            for t in [0x0au16, 0x0d, 0x2b, 0x33] {
                // the extensions of the code under test read; supported_groups is not used
                if t == 0x0a {
                    continue;
                }
                let b = exts.iter().find(|x| x.0 == t).unwrap().1.clone();
                for cut in 0..b.len() {
                    let b = b[..cut].to_vec();
                    add(format!("ext{t:x}-cut{cut}"), &[50], with(&|_, e| set(e, t, b.clone())));
                }
                let long = [&b[..], &[0]].concat();
                add(format!("ext{t:x}-trailing"), &[50], with(&|_, e| set(e, t, long.clone())));
            }
        } else {
            type Change = Box<dyn Fn(&mut Vec<u8>) + Send + Sync>;
            let raw = |f: Change| {
                snd(move |p| {
                    let Peer::Srv(s) = p else { unreachable!() };
                    let mut b = s.sh_body();
                    f(&mut b);
                    // keys are not agreed on with this hello
                    plain_rec(HANDSHAKE, &hs(SERVER_HELLO, &b))
                })
            };
            // offsets: version 0, random 2, session id 34, suite 67, compression 69, extensions 70:
            // supported_versions 72..78, key_share 78..118
            for (n, a, f) in [
                ("session", &[47u8][..], Box::new(|b: &mut Vec<u8>| b[40] ^= 1) as Change),
                ("session-none", &[47], Box::new(|b: &mut Vec<u8>| {
                    b.drain(35..67);
                    b[34] = 0
                })),
                ("suite-unknown", &[47], Box::new(|b: &mut Vec<u8>| b[68] = 4)),
                ("suite-12", &[47, 70], Box::new(|b: &mut Vec<u8>| b[67..69].copy_from_slice(&[0xc0, 0x2b]))),
                ("suite-scsv", &[47], Box::new(|b: &mut Vec<u8>| b[67..69].copy_from_slice(&[0, 0xff]))),
                ("compression", &[47], Box::new(|b: &mut Vec<u8>| b[69] = 1)),
                ("version12", &[47, 70], Box::new(|b: &mut Vec<u8>| b[77] = 3)),
                ("no-versions", &[70, 109, 47], Box::new(|b: &mut Vec<u8>| {
                    b.drain(72..78);
                    b[71] -= 6;
                })),
                ("legacy", &[70, 47], Box::new(|b: &mut Vec<u8>| b[1] = 4)),
                ("group", &[47], Box::new(|b: &mut Vec<u8>| b[83] = 0x17)),
                ("group-unknown", &[47], Box::new(|b: &mut Vec<u8>| b[82] = 0x5a)),
                ("share-zero", &[47, 40, 51], Box::new(|b: &mut Vec<u8>| b[86..118].iter_mut().for_each(|x| *x = 0))),
                ("share-short", &[47, 50], Box::new(|b: &mut Vec<u8>| {
                    b.pop();
                    b[71] -= 1;
                    b[81] -= 1;
                    b[85] -= 1;
                })),
                ("no-share", &[109, 40, 47], Box::new(|b: &mut Vec<u8>| {
                    b.truncate(78);
                    b[71] -= 40;
                })),
                ("twice", &[47, 50], Box::new(|b: &mut Vec<u8>| {
                    let x = b[72..78].to_vec();
                    b.extend(x);
                    b[71] += 6;
                })),
                ("trailing", &[50], Box::new(|b: &mut Vec<u8>| b.push(0))),
            ] {
                add(n.into(), a, raw(f));
            }
            for cut in 0..118usize {
                let a: &[u8] = if cut == 70 { &[70, 109, 47] } else { &[50] };
                add(format!("cut{cut}"), a, raw(Box::new(move |b: &mut Vec<u8>| b.truncate(cut))));
            }
            add("followed".into(), &[10], snd(move |p| {
                let Peer::Srv(s) = p else { unreachable!() };
                let mut m = hs(SERVER_HELLO, &s.sh_body());
                m.extend(hs(ENCRYPTED_EXTENSIONS, &[0, 0]));
                plain_rec(HANDSHAKE, &m)
            }));
        }
    }
    chk.each("hellos", &v, |(k, n, s, allowed), c| {
        if c.begin(format!("{}.{n}", k.name())) {
            let g = run(pki, *k, Point::Hello, s, c);
            failure(c, *k, Point::Hello, &g, allowed);
        }
    });
    // failures by the configuration
    {
        let confs: Vec<u16> = SUITES.to_vec();
        chk.each("configuration", &confs, |suite, c| {
            for (n, want) in [("name", 112u8), ("denied", 49)] {
                if !c.begin(format!("{}.{n}", suite_name(*suite))) {
                    continue;
                }
                fresh(15);
                let mut cfg = cli_cfg(pki, *suite);
                cfg.server_name = Some(b"other.test".to_vec());
                let peer = cell(Cli::new(cfg));
                let auth = Some((vec![pki.client.cert.clone()], pki.client.key));
                let sock = client_sock(&peer, honest_client(auth));
                let mut b = server_builder(pki);
                if n == "name" {
                    b = b.set_server_name("server.test".into());
                } else {
                    b = b.add_client_cert_ca(pki.ca.cert_path.clone()).set_client_cert_custom_verify_fn(|_| false);
                }
                let r = accept(b, &sock);
                flush_client(&sock, &peer);
                let p = lk(&peer);
                let epoch = if n == "name" { 0 } else { 2 };
                c.outcome(r.name());
                c.check(
                    r.code() == Some(want) && p.got_alert == Some((2, want, epoch)) && p.bad.is_empty(),
                    format!("{} with the alert {:?}, {:?}", r.name(), p.got_alert, p.bad),
                );
            }
        });
    }

    // ------------------------------------------------ received alerts
    let mut items: Vec<(Conf, Point, bool)> = vec![];
    for k in &confs {
        for at in k.points() {
            if at == Point::Hello {
                items.push((*k, at, false));
            } else {
                items.push((*k, at, true));
            }
            // a client which could not use the ServerHello has no keys yet
            if k.server && (at == Point::Finished && !k.auth || at == Point::Cert) {
                items.push((*k, at, false));
            }
        }
    }
    chk.each("received", &items, |(k, at, protected), c| {
        for level in [2u8, 1, 0, 255] {
            for d in 0..=255u8 {
                if level != 2 && !thorough && d % 10 != 0 && !KNOWN.contains(&d) {
                    continue;
                }
                if !thorough && k.suite != CHACHA && !(KNOWN.contains(&d) && level <= 2) {
                    continue;
                }
                if !c.begin(format!("{}.{at:?}.protected{}.level{level}.{d}", k.name(), *protected as u8)) {
                    continue;
                }
                let protected = *protected;
                let s = snd(move |p| {
                    let mut r = if protected { p.seal(ALERT, &[level, d]) } else { plain_rec(ALERT, &[level, d]) };
                    // this must not be looked at
                    r.extend(plain_rec(HANDSHAKE, &[]));
                    r
                });
                let g = run(pki, *k, *at, &s, c);
                c.check(g.reached, "the point was not reached");
                c.outcome(format!("received {:?}: {}", at, g.result));
                c.nontrivial((k.server, at, d, g.result.clone()));
                match g.code {
                    None => c.fail(format!("a received alert {d} gives {}", g.result)),
                    Some(x) => {
                        if KNOWN.contains(&d) {
                            c.check(x == d, format!("a received alert {d} is reported as {} ({x})", g.result));
                        } else {
                            c.check(x != 0 && x != 254, format!("a received alert {d}, which is not known, is reported as {}", g.result));
                        }
                    }
                }
                c.check(d == 0 || g.alert.is_none(), format!("a received alert is answered by {:?}", g.alert));
                c.check(d == 0 || *at != Point::App || g.sent_after == g.sent_before, "something is sent after an alert was received");
                c.check(g.bad.is_empty() && g.partial == 0, format!("the peer: {:?}", g.bad));
                c.check(g.alert.is_none(), "close_notify is answered by a fatal alert");
                for l in &g.later {
                    c.check(*l == g.result, format!("after the alert, {} becomes {l}", g.result));
                }
            }
        }
    });
    chk.finish()
}

/// CertificateVerify with this body, and a correct Finished
fn verify_and_finish(p: &mut Peer, body: &[u8]) -> Vec<u8> {
    let ms = match p {
        Peer::Cli(p) => {
            let m = hs(CERTIFICATE_VERIFY, body);
            p.tr.extend_from_slice(&m);
            vec![m, p.m_finished()]
        }
        Peer::Srv(p) => vec![p.msg(CERTIFICATE_VERIFY, body), p.m_finished()],
    };
    ms.iter().flat_map(|m| p.seal(HANDSHAKE, m)).collect()
}
/// Certificate with the body made from the context, then a correct proof and Finished
fn cert_flight(p: &mut Peer, f: impl Fn(&[u8]) -> Vec<u8>, key: &U) -> Vec<u8> {
    let ms = match p {
        Peer::Cli(p) => {
            let body = f(&p.req_ctx.clone().unwrap());
            let m = hs(CERTIFICATE, &body);
            p.tr.extend_from_slice(&m);
            let mut v = vec![m];
            // a client without a certificate sends no proof
            if !(body.len() > 3 && body.ends_with(&[0, 0, 0]) && body.len() == 1 + body[0] as usize + 3) {
                v.push(p.m_verify(key));
            }
            v.push(p.m_finished());
            v
        }
        Peer::Srv(p) => {
            let body = f(&[]);
            vec![p.msg(CERTIFICATE, &body), p.m_verify(), p.m_finished()]
        }
    };
    ms.iter().flat_map(|m| p.seal(HANDSHAKE, m)).collect()
}
