//! C12: the same handshake in all its forms: every fragmentation of the handshake messages into
//! records and every segmentation of the byte stream, single and combined, for both sides.

use mc::prelude::*;

/// How handshake messages are put into records
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Frag {
    /// One record for every message
    Each,
    /// Messages joined when the bit of the boundary is set
    Mask(usize),
    /// All messages together, cut at these bytes
    Cut(usize, usize),
    /// Records with this number of bytes
    Size(usize),
    /// The first byte, then everything
    Growing,
}
fn frag(f: Frag, ms: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let all = ms.concat();
    match f {
        Frag::Each => ms.to_vec(),
        Frag::Mask(m) => {
            let mut out: Vec<Vec<u8>> = vec![];
            for (i, x) in ms.iter().enumerate() {
                if i > 0 && m >> (i - 1) & 1 == 1 {
                    out.last_mut().unwrap().extend(x);
                } else {
                    out.push(x.clone());
                }
            }
            out
        }
        Frag::Cut(i, j) => [&all[..i.min(all.len())], &all[i.min(all.len())..j.min(all.len())], &all[j.min(all.len())..]]
            .iter()
            .filter(|x| !x.is_empty())
            .map(|x| x.to_vec())
            .collect(),
        Frag::Size(n) => all.chunks(n.max(1)).map(|x| x.to_vec()).collect(),
        Frag::Growing => {
            let mut out = vec![];
            let (mut i, mut n) = (0, 1);
            while i < all.len() {
                let e = (i + n).min(all.len());
                out.push(all[i..e].to_vec());
                i = e;
                n += 1;
            }
            out
        }
    }
}
/// How the bytes of the flights arrive
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Seg {
    Flight,
    Record,
    Size(usize),
    /// The first flight, the second flight cut at a byte
    Cut1(usize),
    Cut2(usize),
    /// Cut in both flights, at two places
    Cut22(usize, usize),
}
fn seg(s: Seg, second: bool, recs: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let all = recs.concat();
    let cut = |v: &[usize]| {
        let mut out = vec![];
        let mut p = 0;
        for i in v {
            let i = (*i).min(all.len());
            out.push(all[p..i].to_vec());
            p = i;
        }
        out.push(all[p..].to_vec());
        out.retain(|x: &Vec<u8>| !x.is_empty());
        out
    };
    match (s, second) {
        (Seg::Record, _) => recs.to_vec(),
        (Seg::Cut1(i), false) | (Seg::Cut2(i), true) => cut(&[i]),
        (Seg::Cut22(i, j), true) => cut(&[i, j]),
        _ => vec![all],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Bad {
    No,
    Finished,
    Verify,
    Expired,
}

#[derive(Clone, Copy, Debug)]
struct Conf {
    server: bool,
    suite: u16,
    /// The client authenticates itself
    auth: bool,
    hello: Frag,
    flight: Frag,
    seg: Seg,
    bad: Bad,
    ccs: bool,
    /// Application data follows directly
    data: bool,
}

#[derive(PartialEq, Debug)]
struct Outcome {
    result: String,
    alert: Option<(u8, u8, u8)>,
    secrets: Option<(Vec<u8>, Vec<u8>)>,
}

fn expired(pki: &'static Pki, who: &str, key: &Id) -> Vec<u8> {
    let mut s = CertSpec::new("Test CA", who, &key.public);
    s.not_after = (0x17, b"210101000000Z".to_vec());
    s.sign(&pki.ca.key)
}

fn finish_data(d: &mut Dir, k: &Conf) -> Vec<Vec<u8>> {
    if k.data {
        vec![d.seal(APPDATA, b"first data"), d.seal(APPDATA, b", more data"), d.seal(ALERT, &[1, 0])]
    } else {
        vec![]
    }
}

fn run(pki: &'static Pki, k: Conf, c: &mut Case) -> Outcome {
    fresh(51);
    let (r, sock, alert, bad, secrets, peer_done): (Res<anothertls::net::TlsStream>, Sock, _, Vec<String>, _, bool);
    let (mut pc, mut ps) = (None, None);
    if k.server {
        let peer = cell(Cli::new(cli_cfg(pki, k.suite)));
        let mut phase = 0;
        sock = client_sock(&peer, move |p: &mut Cli| {
            if phase == 0 {
                phase = 1;
                p.sent_hello();
                let rs: Vec<Vec<u8>> = frag(k.hello, &[p.ch.clone()]).iter().map(|m| plain_rec(HANDSHAKE, m)).collect();
                p.out.extend(seg(k.seg, false, &rs));
            } else if phase == 1 && p.wait == Wait::Done {
                phase = 2;
                let mut rs = vec![];
                if k.ccs {
                    rs.push(plain_rec(CCS, &[1]));
                }
                let chain = if k.bad == Bad::Expired { vec![expired(pki, "client", &pki.client)] } else { vec![pki.client.cert.clone()] };
                let key = if k.bad == Bad::Verify { pki.stranger.key } else { pki.client.key };
                let mut ms = p.honest_messages(if k.auth { Some((&chain[..], &key)) } else { None });
                if k.bad == Bad::Finished {
                    let f = ms.last_mut().unwrap();
                    f[10] ^= 1;
                }
                for m in frag(k.flight, &ms) {
                    rs.push(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                p.to_app();
                rs.extend(finish_data(p.wr.as_mut().unwrap(), &k));
                p.out.extend(seg(k.seg, true, &rs));
            }
        });
        if let Seg::Size(n) = k.seg {
            lk(&sock).seg = vec![n];
        }
        let mut b = server_builder(pki);
        if k.auth {
            b = b.add_client_cert_ca(pki.ca.cert_path.clone());
        }
        r = accept(b, &sock);
        flush_client(&sock, &peer);
        let p = lk(&peer);
        alert = p.got_alert;
        bad = p.bad.clone();
        secrets = p.app.clone();
        peer_done = p.wait == Wait::Done;
        drop(p);
        pc = Some(peer);
    } else {
        let mut cfg = srv_cfg(pki, k.suite);
        if k.auth {
            cfg.request = Some(vec![1, 2]);
        }
        if k.bad == Bad::Expired {
            cfg.cert = vec![expired(pki, "localhost", &pki.server)];
        }
        if k.bad == Bad::Verify {
            cfg.key = pki.stranger.key;
        }
        let mut srv = Srv::new(cfg);
        srv.client_key = Some(pki.client.public);
        let peer = cell(srv);
        let mut phase = 0;
        sock = server_sock(&peer, move |p: &mut Srv| {
            if phase == 0 && !p.ch.is_empty() {
                phase = 1;
                let m = p.m_hello();
                let mut rs: Vec<Vec<u8>> = frag(k.hello, &[m]).iter().map(|m| plain_rec(HANDSHAKE, m)).collect();
                if let Seg::Cut1(_) = k.seg {
                    // ServerHello alone, to be cut
                    p.out.extend(seg(k.seg, false, &rs));
                    rs.clear();
                }
                if k.ccs {
                    rs.push(plain_rec(CCS, &[1]));
                }
                let mut ms = p.honest_messages();
                if k.bad == Bad::Finished {
                    let f = ms.last_mut().unwrap();
                    f[10] ^= 1;
                }
                for m in frag(k.flight, &ms) {
                    rs.push(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                // a server may send data before it gets the Finished of the client
                p.to_app();
                rs.extend(finish_data(p.wr.as_mut().unwrap(), &k));
                p.out.extend(seg(k.seg, true, &rs));
            }
        });
        if let Seg::Size(n) = k.seg {
            lk(&sock).seg = vec![n];
        }
        let mut b = CB::new();
        if k.auth {
            b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
        }
        r = connect(b, &sock);
        flush_server(&sock, &peer);
        let p = lk(&peer);
        alert = p.got_alert;
        bad = p.bad.clone();
        secrets = p.app.clone();
        peer_done = p.wait == Wait::Done;
        drop(p);
        ps = Some(peer);
    }
    c.check(bad.is_empty(), format!("the peer: {bad:?}"));
    let result = r.name();
    if let Res::Ok(mut s) = r {
        c.check(peer_done, "the peer has not completed the handshake");
        // write, then read what came with the handshake
        c.check(tls_write(&mut s, b"written").is_ok(), "write");
        let got = if let Some(p) = &pc {
            flush_client(&sock, p);
            lk(p).app_data()
        } else {
            let p = ps.as_ref().unwrap();
            flush_server(&sock, p);
            lk(p).app_data()
        };
        c.check(got == b"written", "data is not received by the peer");
        if k.data {
            let mut got = vec![];
            let mut b = [0; 6];
            let e = loop {
                match tls_read(&mut s, &mut b) {
                    Res::Ok(n) => got.extend_from_slice(&b[..n]),
                    r => break r.name(),
                }
                if got.len() > 100 {
                    break "too much".into();
                }
            };
            if got != b"first data, more data" || e != "CloseNotify" {
                c.fail(format!("data which came with the handshake: {:?}, then {e}", String::from_utf8_lossy(&got)));
            }
        }
    }
    let secrets = if result == "ok" { secrets } else { None };
    Outcome { result, alert, secrets }
}

fn case(pki: &'static Pki, k: Conf, c: &mut Case) {
    let id = format!("{:?}-{:?}-{:?}-{:?}-{}-{}", k.hello, k.flight, k.seg, k.bad, k.ccs, k.data);
    if !c.begin(id) {
        return;
    }
    c.nontrivial((k.server, k.suite, k.auth, k.hello, k.flight, k.seg, k.bad, k.ccs, k.data));
    c.state((k.server, k.auth, k.hello, k.flight, k.seg));
    c.trans(1);
    let o = run(pki, k, c);
    let plain = Conf { hello: Frag::Each, flight: Frag::Each, seg: Seg::Flight, ..k };
    let want = if k.bad == Bad::No { "ok".to_string() } else { run(pki, plain, c).result };
    if k.bad != Bad::No {
        c.check(want != "ok", "a defective handshake succeeds");
    }
    c.outcome(format!("{:?}: {}", k.bad, o.result));
    c.check(o.result == want, format!("the result is {}, but the one of the plain handshake is {want}", o.result));
    if k.bad == Bad::No {
        c.check(o.alert.is_none(), "alert in a correct handshake");
        c.check(o.secrets.is_some(), "no secrets");
    } else {
        c.check(o.alert.is_some_and(|a| a.0 == 2), format!("alert: {:?}", o.alert));
    }
    c.validated();
}

fn main() {
    let chk = Check::start(
        "C12",
        "model_checking",
        "the same handshake with every fragmentation into records and every segmentation of the stream (all sizes, all single cuts, all joins, combinations); the outcome must be the one of the plain handshake and following data must be kept",
    );
    let th = chk.thorough;
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    for server in [true, false] {
        for suite in SUITES {
            for auth in [false, true] {
                let base = Conf { server, suite, auth, hello: Frag::Each, flight: Frag::Each, seg: Seg::Flight, bad: Bad::No, ccs: true, data: true };
                let tag = format!("{}-{}-{}", if server { "server" } else { "client" }, suite_name(suite), if auth { "auth" } else { "plain" });
                let mut ks: Vec<Conf> = vec![base, Conf { ccs: false, ..base }, Conf { data: false, ..base }, Conf { seg: Seg::Record, ..base }];
                let msgs = match (server, auth) {
                    (true, false) => 1,
                    (true, true) => 3,
                    (false, false) => 4,
                    (false, true) => 5,
                };
                let (hello, flight, bytes1, bytes2) = match (server, auth) {
                    (true, false) => (190, 52, 200, 200),
                    (true, true) => (190, 460, 200, 700),
                    (false, false) => (122, 440, 130, 700),
                    (false, true) => (122, 480, 130, 800),
                };
                // all joins of messages, with all kinds of segments
                for m in 0..1usize << (msgs - 1) {
                    for s in [Seg::Flight, Seg::Record, Seg::Size(1), Seg::Size(7), Seg::Size(100)] {
                        for ccs in [true, false] {
                            ks.push(Conf { flight: Frag::Mask(m), seg: s, ccs, ..base });
                        }
                    }
                }
                // sizes of the fragments
                for n in 1..=if th { 500 } else { 70 } {
                    ks.push(Conf { flight: Frag::Size(n), ..base });
                    if n < hello {
                        ks.push(Conf { hello: Frag::Size(n), ..base });
                    }
                    ks.push(Conf { hello: Frag::Size(n), flight: Frag::Size(n), seg: Seg::Record, ..base });
                }
                ks.push(Conf { flight: Frag::Growing, ..base });
                ks.push(Conf { hello: Frag::Growing, ..base });
                ks.push(Conf { hello: Frag::Growing, flight: Frag::Growing, seg: Seg::Size(3), ..base });
                // every single cut of the messages into records
                for i in 1..hello {
                    ks.push(Conf { hello: Frag::Cut(i, i), ..base });
                }
                for i in 1..flight {
                    ks.push(Conf { flight: Frag::Cut(i, i), ..base });
                    if i < 60 || th {
                        ks.push(Conf { flight: Frag::Cut(i, i + 1), seg: Seg::Record, ..base });
                        ks.push(Conf { flight: Frag::Cut(i, i + 4), ..base });
                    }
                }
                // every size of segments
                for n in 1..=if th { 300 } else { 80 } {
                    ks.push(Conf { seg: Seg::Size(n), ..base });
                    ks.push(Conf { seg: Seg::Size(n), flight: Frag::Mask((1 << (msgs - 1)) - 1), ccs: n % 2 == 0, ..base });
                }
                // every single cut of the stream
                for i in 1..bytes1 {
                    ks.push(Conf { seg: Seg::Cut1(i), ..base });
                }
                for i in 1..bytes2 {
                    ks.push(Conf { seg: Seg::Cut2(i), ..base });
                    ks.push(Conf { seg: Seg::Cut2(i), flight: Frag::Mask((1 << (msgs - 1)) - 1), ccs: false, ..base });
                    if th {
                        for j in i + 1..bytes2 {
                            if (i * 31 + j) % 17 == 0 || j - i < 6 {
                                ks.push(Conf { seg: Seg::Cut22(i, j), ..base });
                            }
                        }
                    } else {
                        ks.push(Conf { seg: Seg::Cut22(i, i + 1), ..base });
                        ks.push(Conf { seg: Seg::Cut22(i, i + 5), ..base });
                    }
                }
                // errors are the same too
                let mut bads = vec![Bad::Finished];
                if auth || !server {
                    bads.extend([Bad::Verify, Bad::Expired]);
                }
                for bad in bads {
                    for m in 0..1usize << (msgs - 1) {
                        for s in [Seg::Flight, Seg::Record, Seg::Size(1), Seg::Size(9)] {
                            ks.push(Conf { bad, flight: Frag::Mask(m), seg: s, ..base });
                        }
                    }
                    for n in 1..40 {
                        ks.push(Conf { bad, flight: Frag::Size(n), ..base });
                        ks.push(Conf { bad, seg: Seg::Size(n), ..base });
                        ks.push(Conf { bad, seg: Seg::Cut2(n * 5), flight: Frag::Cut(n * 3, n * 7), ..base });
                    }
                }
                // the quick run does every suite in turn where the suite can not matter
                let turn = SUITES.iter().position(|s| *s == suite).unwrap();
                let ks: Vec<Conf> = ks.into_iter().enumerate().filter(|(i, _)| th || i % 3 == turn || *i < 40).map(|x| x.1).collect();
                chk.each(&tag, &ks, |k, c| case(pki, *k, c));
            }
        }
    }
    // messages larger than one record
    chk.range("large", 2 * 2 * 6 * 3, |i, c| {
        let (server, mine, size, suite) = (i % 2 == 0, i / 2 % 2 == 0, [1000, 16000, 16384, 17000, 40000, 65000][i / 4 % 6], SUITES[i / 24]);
        if !c.begin(format!("{server}-{mine}-{size}-{suite:x}")) {
            return;
        }
        c.nontrivial(("large", i));
        c.state(("large", server, mine, size));
        c.trans(1);
        let big = |who: &str, id: &Id| {
            let mut s = CertSpec::new("Test CA", who, &id.public);
            // an unknown extension fills it up
            s.exts = vec![(vec![0x2a, 3, 4, 5], false, vec![0x55; size])];
            s.version = Some(2);
            s.sign(&pki.ca.key)
        };
        // mine: the code under test sends the large message, otherwise it receives it
        fresh(53);
        let file = |c: &[u8]| pki.file(&format!("big-{i}.pem"), mc::pki::pem("CERTIFICATE", c).as_bytes());
        let ok;
        if server {
            let mut cfg = cli_cfg(pki, suite);
            let mut b = server_builder(pki);
            let mut auth = None;
            if mine {
                let x = big("localhost", &pki.server);
                b = SB::new().add_cert_pem(file(&x)).add_privkey_pem(pki.server.key_path.clone());
                cfg.server_cert = Some((x, pki.server.public));
            } else {
                b = b.add_client_cert_ca(pki.ca.cert_path.clone());
                auth = Some(big("client", &pki.client));
            }
            let peer = cell(Cli::new(cfg));
            let mut phase = 0;
            let sock = client_sock(&peer, move |p: &mut Cli| {
                if phase == 0 {
                    phase = 1;
                    p.sent_hello();
                    let r = plain_rec(HANDSHAKE, &p.ch.clone());
                    p.out.push_back(r);
                } else if phase == 1 && p.wait == Wait::Done {
                    phase = 2;
                    let chain: Vec<Vec<u8>> = auth.iter().cloned().collect();
                    let ms = p.honest_messages(if auth.is_some() { Some((&chain[..], &pki.client.key)) } else { None });
                    for m in frag(Frag::Size(16384), &ms) {
                        let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                        p.out.push_back(r);
                    }
                }
            });
            let r = accept(b, &sock);
            flush_client(&sock, &peer);
            let bad = lk(&peer).bad.clone();
            c.check(bad.is_empty(), format!("the client: {bad:?}"));
            c.outcome(r.name());
            ok = r.is_ok();
        } else {
            let mut cfg = srv_cfg(pki, suite);
            let mut b = CB::new();
            if mine {
                cfg.request = Some(vec![]);
                let x = big("client", &pki.client);
                b = b.add_client_cert_pem(file(&x)).add_client_key_pem(pki.client.key_path.clone());
            } else {
                cfg.cert = vec![big("localhost", &pki.server)];
            }
            let mut srv = Srv::new(cfg);
            srv.client_key = Some(pki.client.public);
            let peer = cell(srv);
            let mut phase = 0;
            let sock = server_sock(&peer, move |p: &mut Srv| {
                if phase == 0 && !p.ch.is_empty() {
                    phase = 1;
                    let m = p.m_hello();
                    p.out.push_back(plain_rec(HANDSHAKE, &m));
                    let ms = p.honest_messages();
                    for m in frag(Frag::Size(16384), &ms) {
                        let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                        p.out.push_back(r);
                    }
                }
            });
            let r = connect(b, &sock);
            flush_server(&sock, &peer);
            let p = lk(&peer);
            c.check(p.bad.is_empty(), format!("the server: {:?}", p.bad));
            c.check(!r.is_ok() || p.wait == Wait::Done, "the server has not completed the handshake");
            c.outcome(r.name());
            ok = r.is_ok();
        }
        c.check(ok, "a handshake with a large certificate fails");
        c.validated();
    });
    chk.assume("the reference peers follow RFC 8446");
    chk.finish();
}
