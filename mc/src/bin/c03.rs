//! C03: X25519 against the reference over structured scalars and coordinates, and key exchanges
//! in handshakes of both sides with chosen secrets, randoms and peer shares.

use anothertls::crypto::ellipticcurve::math;
use mc::prelude::*;

type B = [u8; 32];

fn rnd(seed: u64) -> B {
    std::array::from_fn(|i| mix(seed * 64 + i as u64) as u8)
}
/// 2^255 - 19 + k, little endian, modulo 2^256
fn p_plus(k: i32) -> B {
    let mut x = [0xff; 32];
    x[0] = 0xed;
    x[31] = 0x7f;
    add(x, k)
}
fn add(mut x: B, k: i32) -> B {
    let mut c = k;
    for b in x.iter_mut() {
        c += *b as i32;
        *b = c as u8;
        c >>= 8;
    }
    x
}
fn fill(v: u8) -> B {
    [v; 32]
}
fn unhex(s: &str) -> B {
    hex(s).try_into().unwrap()
}
/// All encodings of points of low order, with and without the high bit
fn low_order() -> Vec<B> {
    let mut l = vec![
        fill(0),
        add(fill(0), 1),
        unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
        unhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
        p_plus(-1),
        p_plus(0),
        p_plus(1),
    ];
    for i in 0..l.len() {
        let mut x = l[i];
        x[31] |= 0x80;
        l.push(x);
    }
    l
}
fn edge_u() -> Vec<B> {
    let mut v = low_order();
    v.extend([2, 3, 4, 5, 9, 15, 18, 19, 20].map(|k| add(fill(0), k)));
    v.extend([-3, -2, 2, 3, 9, 18].map(p_plus));
    v.extend([fill(0xff), fill(0x55), fill(0xaa), fill(0x7f), fill(0x80), rnd(1), rnd(2), rnd(3)]);
    v
}
fn edge_k() -> Vec<B> {
    let mut v = vec![fill(0), fill(0xff), fill(0x55), fill(0xaa), fill(0x7f), fill(0x80), fill(1)];
    v.extend([1, 7, 8, 9, 64, 255, 256].map(|k| add(fill(0), k)));
    v.extend([-1, 0, 1].map(p_plus));
    // the order of the base point, and numbers around it
    let l = unhex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010");
    v.extend([-1, 0, 1, 8].map(|k| add(l, k)));
    for i in [0, 1, 30, 31] {
        let mut x = rnd(4);
        x[i] = 0;
        v.push(x);
    }
    v.extend([rnd(5), rnd(6)]);
    v
}

fn same(c: &mut Case, k: &B, u: &B) {
    let got = math::x25519(*u, k);
    let want = x25519(k, u);
    c.count("functions", 1);
    if got != want {
        c.fail(format!("X25519 of scalar {} and u {} gives {}, not {}", to_hex(k), to_hex(u), to_hex(&got), to_hex(&want)));
    }
}

/// One handshake with the server; what the client sends as its share
fn server_hs(pki: &'static Pki, suite: u16, sk: B, kse: Option<B>, prep: impl Fn()) -> (Res<anothertls::net::TlsStream>, Cell<Cli>, Sock) {
    fresh(3);
    prep();
    let mut cfg = cli_cfg(pki, suite);
    cfg.sk = sk;
    if let Some(k) = kse {
        let mut e = cfg.default_exts();
        e.last_mut().unwrap().1 = v16(&[&[0, 0x1d][..], &v16(&k)].concat());
        cfg.exts = Some(e);
    }
    let peer = cell(Cli::new(cfg));
    let sock = client_sock(&peer, honest_client(None));
    let r = accept(server_builder(pki), &sock);
    flush_client(&sock, &peer);
    (r, peer, sock)
}
fn client_hs(pki: &'static Pki, suite: u16, sk: B, kse: Option<B>, prep: impl Fn()) -> (Res<anothertls::net::TlsStream>, Cell<Srv>, Sock) {
    fresh(3);
    prep();
    let mut cfg = srv_cfg(pki, suite);
    cfg.sk = sk;
    let peer = cell(Srv::new(cfg));
    let mut honest = honest_server();
    let mut done = false;
    let sock = server_sock(&peer, move |p: &mut Srv| match kse {
        None => honest(p),
        Some(k) if !done && !p.ch.is_empty() => {
            done = true;
            let mut b = p.sh_body();
            let n = b.len();
            b[n - 32..].copy_from_slice(&k);
            p.m_hello_with(hs(SERVER_HELLO, &b));
            // an attacker who sends such a share knows the result
            p.shared = x25519(&p.cfg.sk, &k).to_vec();
            p.rekey();
            let mut d = plain_rec(HANDSHAKE, &hs(SERVER_HELLO, &b));
            for m in p.honest_messages() {
                d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
            }
            p.to_app();
            p.out.push_back(d);
        }
        _ => (),
    });
    let r = connect(CB::new(), &sock);
    flush_server(&sock, &peer);
    (r, peer, sock)
}

fn echo_server(c: &mut Case, r: Res<anothertls::net::TlsStream>, peer: &Cell<Cli>, sock: &Sock) {
    let name = r.name();
    c.outcome(format!("server: {name}"));
    let bad = lk(peer).bad.clone();
    match r.ok() {
        Some(mut s) if bad.is_empty() => {
            let d = lk(peer).wr.as_mut().unwrap().seal(APPDATA, b"ping");
            lk(peer).out.push_back(d);
            let mut b = [0; 16];
            let n = tls_read(&mut s, &mut b);
            c.check(n.ok() == Some(4) && &b[..4] == b"ping", "the data is not read after the key exchange");
            c.check(tls_write(&mut s, b"pong").is_ok(), "write");
            flush_client(sock, peer);
            c.check(lk(peer).app_data() == b"pong", "the data is not received after the key exchange");
        }
        _ => c.fail(format!("the handshake fails: {name} {bad:?}")),
    }
}
fn echo_client(c: &mut Case, r: Res<anothertls::net::TlsStream>, peer: &Cell<Srv>, sock: &Sock) {
    let name = r.name();
    c.outcome(format!("client: {name}"));
    let bad = lk(peer).bad.clone();
    match r.ok() {
        Some(mut s) if bad.is_empty() => {
            let d = lk(peer).wr.as_mut().unwrap().seal(APPDATA, b"ping");
            lk(peer).out.push_back(d);
            let mut b = [0; 16];
            let n = tls_read(&mut s, &mut b);
            c.check(n.ok() == Some(4) && &b[..4] == b"ping", "the data is not read after the key exchange");
            c.check(tls_write(&mut s, b"pong").is_ok(), "write");
            flush_server(sock, peer);
            c.check(lk(peer).app_data() == b"pong", "the data is not received after the key exchange");
        }
        _ => c.fail(format!("the handshake fails: {name} {bad:?}")),
    }
}

fn main() {
    let chk = Check::start(
        "C03",
        "exploration",
        "every scalar and coordinate of the listed structured sets is evaluated on the real X25519 and compared with the reference; every listed secret, random stream and peer share is used in a real handshake of both sides",
    );
    let t = chk.thorough;
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let nine = add(fill(0), 9);

    // one bit different from a base
    let us = [nine, rnd(10), p_plus(-1)];
    let ks = [rnd(11), fill(0x77)];
    chk.range("scalar-bit", 256, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("k", i));
            for b in [fill(0), fill(0xff), rnd(12)] {
                let mut k = b;
                k[i / 8] ^= 1 << (i % 8);
                us.iter().for_each(|u| same(c, &k, u));
            }
            c.outcome("equal");
        }
    });
    chk.range("u-bit", 256, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("u", i));
            for b in [fill(0), fill(0xff), nine, p_plus(0), rnd(13)] {
                let mut u = b;
                u[i / 8] ^= 1 << (i % 8);
                ks.iter().for_each(|k| same(c, k, &u));
            }
            c.outcome("equal");
        }
    });
    // two bits
    chk.range("u-two-bits", 256 * 256, |i, c| {
        let (a, b) = (i / 256, i % 256);
        let quick = a % 16 == 15 || b % 16 == 0 || a % 16 == 0;
        if a < b && (t || quick && (a + b) % 3 == 0) && c.begin(format!("{a}-{b}")) {
            c.nontrivial(("uu", a, b));
            let mut u = fill(0);
            u[a / 8] ^= 1 << (a % 8);
            u[b / 8] ^= 1 << (b % 8);
            same(c, &ks[0], &u);
            c.outcome("equal");
        }
    });
    chk.range("byte", 32 * 256, |i, c| {
        let (p, v) = (i / 256, i % 256);
        if (t || v % 4 == 3 || v < 3 || p == 0 || p == 31) && c.begin(format!("{p}-{v}")) {
            c.nontrivial(("b", i));
            let mut x = rnd(14);
            x[p] = v as u8;
            same(c, &x, &nine);
            same(c, &ks[0], &x);
            c.outcome("equal");
        }
    });
    // 16 bit parts, the size of the limbs of common implementations, and runs of ones
    let vals: [u16; 8] = [0, 1, 0xffed, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x5a5a];
    chk.range("limb", 16 * 64, |i, c| {
        let (p, a, b) = (i / 64, vals[i / 8 % 8], vals[i % 8]);
        if c.begin(format!("{p}-{a:04x}-{b:04x}")) {
            c.nontrivial(("l", i));
            let x: Vec<u8> = (0..16).flat_map(|j| if j == p { a } else { b }.to_le_bytes()).collect();
            let x: B = x.try_into().unwrap();
            same(c, &ks[1], &x);
            same(c, &x, &nine);
            c.outcome("equal");
        }
    });
    chk.range("run", 257 * 257, |i, c| {
        let (a, b) = (i / 257, i % 257);
        if a < b && (t || a % 8 == 0 && b % 4 == 0 || b >= 250 && a % 4 == 0) && c.begin(format!("{a}-{b}")) {
            c.nontrivial(("r", i));
            let mut u = fill(0);
            (a..b).for_each(|j| u[j / 8] |= 1 << (j % 8));
            same(c, &ks[0], &u);
            same(c, &u, &nine);
            c.outcome("equal");
        }
    });
    // numbers around 0, p, 2p, 2^255 and 2^256
    let n = if t { 600 } else { 80 };
    chk.range("near", 2 * n + 1, |i, c| {
        if c.begin(format!("{}", i as i32 - n as i32)) {
            c.nontrivial(("n", i));
            let d = i as i32 - n as i32;
            let mut twop = fill(0xff);
            twop[0] = 0xda;
            let mut top = fill(0);
            top[31] = 0x80;
            for b in [fill(0), p_plus(0), twop, top] {
                same(c, &ks[0], &add(b, d));
                same(c, &add(b, d), &nine);
            }
            c.outcome("equal");
        }
    });
    let (eu, ek) = (edge_u(), edge_k());
    chk.range("edges", eu.len() * ek.len(), |i, c| {
        let (u, k) = (eu[i / ek.len()], ek[i % ek.len()]);
        if c.begin(format!("{}-{}", i / ek.len(), i % ek.len())) {
            c.nontrivial(("e", u, k));
            same(c, &k, &u);
            c.outcome("equal");
        }
    });
    // the iteration of RFC 7748 5.2
    // results at the ends of the field, of few bits, and with runs of zeros and ones, reached on purpose
    let mut wanted: Vec<B> = (2..200).map(|k| add(fill(0), k)).collect();
    wanted.extend((1..200).map(|k| p_plus(-k)));
    for bit in 8..255 {
        let mut x = fill(0);
        x[bit / 8] = 1 << (bit % 8);
        wanted.extend((-3..4).map(|k| add(x, k)));
    }
    for n in 1..32 {
        let (mut x, mut y) = (rnd(300 + n as u64), rnd(400 + n as u64));
        x[..n].fill(0);
        y[32 - n..].fill(0);
        x[31] &= 0x7f;
        y[31] &= 0x7f;
        wanted.extend((0..8).flat_map(|k| [add(x, k), add(y, k)]));
        x[..n].fill(0xff);
        y[32 - n..].fill(0xff);
        y[31] = 0x7f;
        wanted.extend((0..8).flat_map(|k| [add(x, -k), add(y, k)]));
    }
    chk.each("results", &wanted, |out, c| {
        if c.begin(to_hex(out)) {
            for k in [rnd(20), fill(0x77), rnd(21)] {
                if let Some(u) = x25519_preimage(&k, out) {
                    c.nontrivial(("result", out, k));
                    c.count("reached", 1);
                    same(c, &k, &u);
                    c.outcome("equal");
                }
            }
        }
    });

    chk.range("iteration", 1, |_, c| {
        if c.begin("rfc7748") {
            let (mut k, mut u) = (nine, nine);
            let rounds = if t { 20000 } else { 1000 };
            for i in 1..=rounds {
                let r = math::x25519(u, &k);
                u = k;
                k = r;
                match i {
                    1 => c.check(to_hex(&k) == "422c8e7a6227d7bca1350b3e2bb7279f7897b87bb6854b783c60e80311ae3079", "iteration 1"),
                    1000 => c.check(to_hex(&k) == "684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51", "iteration 1000"),
                    _ => {
                        if i % 50 == 0 {
                            same(c, &k, &u)
                        }
                    }
                }
            }
            c.nontrivial("iteration");
            c.outcome("equal");
        }
    });
    // --- handshakes
    // a share which gives zero for every secret: no connection, on both sides
    let lo = low_order();
    chk.range("zero", lo.len() * 3, |i, c| {
        let (k, suite) = (lo[i / 3], SUITES[i % 3]);
        if c.begin(format!("server-{}-{}", to_hex(&k), suite_name(suite))) {
            c.nontrivial(("zs", k, suite));
            // the secret of the reference is such that it knows the result
            let (r, p, _) = server_hs(pki, suite, rnd(30), Some(k), || ());
            c.outcome(format!("server: {}", r.name()));
            c.check(matches!(r, Res::Err(_)), format!("key exchange with the result zero: {}", r.name()));
            c.check(!lk(&p).ev.contains(&Ev::Hs(SERVER_HELLO)), "the server goes on with the result zero");
        }
        if c.begin(format!("client-{}-{}", to_hex(&k), suite_name(suite))) {
            c.nontrivial(("zc", k, suite));
            let (r, p, _) = client_hs(pki, suite, rnd(30), Some(k), || ());
            c.outcome(format!("client: {}", r.name()));
            c.check(matches!(r, Res::Err(_)), format!("key exchange with the result zero: {}", r.name()));
            c.check(!lk(&p).ev.contains(&Ev::Hs(FINISHED)), "the client goes on with the result zero");
        }
    });
    // results with zero bytes: the peer chooses its secret knowing the share of the other side
    let (_, p0, _) = server_hs(pki, AES128, rnd(30), None, || ());
    let srv_pub: B = lk(&p0).server_kse.clone().try_into().unwrap_or([0; 32]);
    let (_, p0, _) = client_hs(pki, AES128, rnd(30), None, || ());
    let cli_pub: B = lk(&p0).client_kse.clone().try_into().unwrap_or([0; 32]);
    chk.range("zero-bytes", 32 * 3 * 2, |i, c| {
        let (pos, suite, client) = (i / 6, SUITES[i / 2 % 3], i % 2 == 1);
        let edge = [0, 1, 15, 16, 30, 31].contains(&pos);
        if (t || edge) && c.begin(format!("{pos}-{}-{}", suite_name(suite), if client { "client" } else { "server" })) {
            c.nontrivial(("z", i));
            let other = if client { cli_pub } else { srv_pub };
            // the reference chooses its secret so that this byte of the shared secret is zero
            let sk = (0..).map(|j| rnd(1000 + 5000 * pos as u64 + j)).find(|s| x25519(s, &other)[pos] == 0).unwrap();
            if client {
                let (r, p, s) = client_hs(pki, suite, sk, None, || ());
                c.check(lk(&p).shared.get(pos) == Some(&0), "harness: the share of the client is not the expected one");
                echo_client(c, r, &p, &s);
            } else {
                let (r, p, s) = server_hs(pki, suite, sk, None, || ());
                c.check(lk(&p).shared.get(pos) == Some(&0), "harness: the share of the server is not the expected one");
                echo_server(c, r, &p, &s);
            }
        }
    });
    // public keys with zero bytes at the ends
    chk.range("public-zero", 4 * 2, |i, c| {
        let (pos, v, client) = ([0, 31][i / 4], [0, 0xff][i / 2 % 2], i % 2 == 1);
        if c.begin(format!("{pos}-{v}-{client}")) {
            c.nontrivial(("pz", i));
            // the high bit of a public key is always zero
            let v = if pos == 31 { v & 0x7f } else { v };
            let sk = (0..).map(|j| rnd(90000 + j)).find(|s| x25519_base(s)[pos] == v).unwrap();
            if client {
                let (r, p, s) = client_hs(pki, AES128, sk, None, || ());
                echo_client(c, r, &p, &s);
            } else {
                let (r, p, s) = server_hs(pki, AES128, sk, None, || ());
                echo_server(c, r, &p, &s);
            }
        }
    });
    // non-canonical shares of the peer, the high bit set
    chk.range("noncanonical", 19 * 2, |i, c| {
        let (k, client) = (i / 2, i % 2 == 1);
        // p + k, k = 0, 1 have low order; k = 9 is the base point: secret one
        if k >= 2 && c.begin(format!("{k}-{client}")) {
            c.nontrivial(("nc", i));
            // the reference knows no secret for this share, so only: it is not refused as such
            let share = p_plus(k as i32);
            if client {
                let (r, p, _) = client_hs(pki, AES128, rnd(30), Some(share), || ());
                c.outcome(format!("client: {}", r.name()));
                c.check(!r.is_ok() && lk(&p).got_alert.is_none_or(|a| a.1 != 47), format!("a non-canonical share is refused: {:?}", lk(&p).got_alert));
            } else {
                let (r, p, _) = server_hs(pki, AES128, rnd(30), Some(share), || ());
                c.outcome(format!("server: {}", r.name()));
                c.check(lk(&p).ev.contains(&Ev::Hs(SERVER_HELLO)), "a non-canonical share is refused");
            }
        }
    });
    // The peer with the secret one (which is not clamped) has the base point as its share, and the
    // share of the other side is the result: every encoding of the base point gives a connection.
    chk.range("base-point", 4 * 3 * 2 * 4, |i, c| {
        let (form, suite, client, n) = (i % 4, SUITES[i / 4 % 3], i / 12 % 2 == 1, i / 24);
        if c.begin(format!("{form}-{}-{client}-{n}", suite_name(suite))) {
            c.nontrivial(("bp", i));
            let mut share = if form & 1 == 0 { BASE } else { p_plus(9) };
            if form & 2 != 0 {
                share[31] |= 0x80;
            }
            fresh(30 + n as u64);
            if client {
                let mut cfg = srv_cfg(pki, suite);
                cfg.sk = ONE;
                let peer = cell(Srv::new(cfg));
                let mut done = false;
                let sock = server_sock(&peer, move |p: &mut Srv| {
                    if !done && !p.ch.is_empty() {
                        done = true;
                        let mut b = p.sh_body();
                        let n = b.len();
                        b[n - 32..].copy_from_slice(&share);
                        let m = p.m_hello_with(hs(SERVER_HELLO, &b));
                        let mut d = plain_rec(HANDSHAKE, &m);
                        for m in p.honest_messages() {
                            d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                        }
                        p.to_app();
                        p.out.push_back(d);
                    }
                });
                let r = connect(CB::new(), &sock);
                flush_server(&sock, &peer);
                echo_client(c, r, &peer, &sock);
            } else {
                let (r, p, s) = server_hs(pki, suite, ONE, Some(share), || fresh(30 + n as u64));
                echo_server(c, r, &p, &s);
            }
        }
    });
    // the same point with the ignored bit set must give the same connection
    chk.range("high-bit", 8 * 2, |i, c| {
        let (n, client) = (i as u64 / 2, i % 2 == 1);
        if c.begin(format!("{n}-{client}")) {
            c.nontrivial(("hb", i));
            let sk = rnd(40 + n);
            let mut share = x25519_base(&sk);
            share[31] |= 0x80;
            if client {
                fresh(3);
                let mut cfg = srv_cfg(pki, AES128);
                cfg.sk = sk;
                let peer = cell(Srv::new(cfg));
                let mut done = false;
                let sock = server_sock(&peer, move |p: &mut Srv| {
                    if !done && !p.ch.is_empty() {
                        done = true;
                        let mut b = p.sh_body();
                        let n = b.len();
                        b[n - 1] |= 0x80;
                        let m = p.m_hello_with(hs(SERVER_HELLO, &b));
                        let mut d = plain_rec(HANDSHAKE, &m);
                        for m in p.honest_messages() {
                            d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                        }
                        p.to_app();
                        p.out.push_back(d);
                    }
                });
                let r = connect(CB::new(), &sock);
                flush_server(&sock, &peer);
                echo_client(c, r, &peer, &sock);
            } else {
                let (r, p, s) = server_hs(pki, AES128, sk, Some(share), || ());
                echo_server(c, r, &p, &s);
            }
        }
    });
    // all random streams which have a special byte at one place: whatever secret comes of it is
    // the one which belongs to the public key
    let runs = [1, 2, 3];
    chk.range("random-zero", 200 * runs.len() * 2, |i, c| {
        let (pos, run, client) = (i / 6, runs[i / 2 % 3], i % 2 == 1);
        if (t || run == 1 || pos % 4 == 0) && c.begin(format!("{pos}-{run}-{client}")) {
            c.nontrivial(("rz", i));
            let prep = || {
                with_rng(|r| {
                    let mut b = vec![0; 2600];
                    r.fill_bytes(&mut b);
                    // at this place of every read of 100 bytes and of every aligned secret
                    for base in (0..2400).step_by(if pos < 100 { 100 } else { 32 }) {
                        b[base + pos % 100..base + pos % 100 + run].fill(0);
                    }
                    r.forced.extend(b);
                })
            };
            let suite = SUITES[pos % 3];
            if client {
                let (r, p, s) = client_hs(pki, suite, rnd(30), None, prep);
                echo_client(c, r, &p, &s);
            } else {
                let (r, p, s) = server_hs(pki, suite, rnd(30), None, prep);
                echo_server(c, r, &p, &s);
            }
        }
    });
    chk.range("random-fill", 256 * 2, |i, c| {
        let (v, client) = (i as u8 as usize % 256, i >= 256);
        if v != 0 && (t || v % 8 == 7 || v < 4) && c.begin(format!("{v}-{client}")) {
            c.nontrivial(("rf", i));
            let prep = || with_rng(|r| r.fill = Some(v as u8));
            if client {
                let (r, p, s) = client_hs(pki, AES128, rnd(30), None, prep);
                echo_client(c, r, &p, &s);
            } else {
                let (r, p, s) = server_hs(pki, AES128, rnd(30), None, prep);
                echo_server(c, r, &p, &s);
            }
        }
    });
    // ordinary seeds
    chk.range("seeds", if t { 4000 } else { 300 }, |i, c| {
        let (n, client) = (i as u64 / 2, i % 2 == 1);
        if c.begin(format!("{n}-{client}")) {
            c.nontrivial(("s", i));
            let prep = || seed_rng(7000 + n);
            let suite = SUITES[n as usize % 3];
            if client {
                let (r, p, s) = client_hs(pki, suite, rnd(50 + n), None, prep);
                echo_client(c, r, &p, &s);
            } else {
                let (r, p, s) = server_hs(pki, suite, rnd(50 + n), None, prep);
                echo_server(c, r, &p, &s);
            }
        }
    });
    chk.assume("the reference X25519 passes the vectors of RFC 7748");
    chk.finish();
}
