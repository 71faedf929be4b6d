//! C14: ClientHellos and ServerHellos with every combination of present, absent, usable, unusable
//! and malformed parameters; the decision of the real code is compared with the rule of the standard.

use mc::prelude::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Accept,
    Refuse,
    /// The standard allows both
    Either,
}

#[derive(Clone)]
struct Hello {
    cfg: CliCfg,
    /// Raw bytes instead of the ClientHello of the configuration
    raw: Option<Vec<u8>>,
    name: Option<&'static str>,
}

/// The decision of the server. An accepted handshake is completed by the reference client, which
/// checks every selected parameter.
fn server(pki: &'static Pki, h: &Hello, want: Want, c: &mut Case) {
    fresh(14);
    let mut cli = Cli::new(h.cfg.clone());
    if let Some(r) = &h.raw {
        cli.set_hello(r.clone());
    }
    let peer = cell(cli);
    let sock = client_sock(&peer, honest_client(None));
    let mut b = server_builder(pki);
    if let Some(n) = h.name {
        b = b.set_server_name(n.into());
    }
    let r = accept(b, &sock);
    flush_client(&sock, &peer);
    let p = lk(&peer);
    let sh = p.ev.contains(&Ev::Hs(SERVER_HELLO));
    c.outcome(format!("server: {}", r.name()));
    c.nontrivial((c.id().to_string(), r.name()));
    match (&r, want) {
        (Res::Panic(m), _) => c.fail(m),
        (Res::Ok(_), Want::Refuse) => c.fail(format!("the server accepted, and selected {:04x}", p.suite)),
        (Res::Ok(_), _) => {
            c.check(p.bad.is_empty(), format!("the server accepted, but: {:?}", p.bad));
            c.check(p.wait == Wait::Done, "the handshake is not complete");
            if p.cfg.suites.contains(&CHACHA) && h.raw.is_none() {
                c.check(p.suite == CHACHA, format!("ChaCha20-Poly1305 was offered, but {:04x} selected", p.suite));
            }
        }
        (Res::Err(e), Want::Accept) => c.fail(format!("the server refused with {e:?}")),
        (Res::Err(_), _) => {
            c.check(!sh, "a ServerHello was sent before the refusal");
            match p.got_alert {
                Some((2, d, 0)) => c.check(Some(d) == r.code(), format!("alert {d}, but the error is {}", r.name())),
                a => c.fail(format!("the refusal was not reported by a fatal alert, but {a:?}")),
            }
            c.check(p.bad.is_empty(), format!("the server refused, but: {:?}", p.bad));
        }
    }
}

fn two(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn set(e: &mut Vec<(u16, Vec<u8>)>, t: u16, v: Option<Vec<u8>>) {
    match v {
        None => e.retain(|x| x.0 != t),
        Some(v) => match e.iter_mut().find(|x| x.0 == t) {
            Some(x) => x.1 = v,
            None => e.push((t, v)),
        },
    }
}
fn sni(entries: &[(u8, &[u8])]) -> Vec<u8> {
    v16(&entries.iter().flat_map(|(t, n)| [vec![*t], v16(n)].concat()).collect::<Vec<u8>>())
}
fn words_of(alphabet: &[u16], n: usize) -> Vec<Vec<u16>> {
    let mut out: Vec<Vec<u16>> = vec![vec![]];
    let mut level = out.clone();
    for _ in 0..n {
        level = level
            .iter()
            .flat_map(|w| {
                alphabet.iter().map(move |a| {
                    let mut w = w.clone();
                    w.push(*a);
                    w
                })
            })
            .collect();
        out.extend(level.clone());
    }
    out
}

// ------------------------------------------------------------------ client

/// Changed parts of a ServerHello
#[derive(Clone)]
struct Answer {
    suite: u16,
    legacy: [u8; 2],
    random: [u8; 32],
    sid: Sid,
    compression: u8,
    version: Option<Vec<u8>>,
    share: Option<Vec<u8>>,
    extra: Vec<(u16, Vec<u8>)>,
}
#[derive(Clone, Debug)]
enum Sid {
    Echo,
    Flip(usize),
    Cut(usize),
    Longer(usize),
    Other,
}
fn plain_answer(suite: u16, cfg: &SrvCfg) -> Answer {
    Answer {
        suite,
        legacy: [3, 3],
        random: *b"server random for the reference!",
        sid: Sid::Echo,
        compression: 0,
        version: Some(vec![3, 4]),
        share: Some([&[0, 0x1d][..], &v16(&x25519_base(&cfg.sk))].concat()),
        extra: vec![],
    }
}
fn client(pki: &'static Pki, a: &Answer, want: Want, c: &mut Case) {
    fresh(14);
    let real = if SUITES.contains(&a.suite) { a.suite } else { AES128 };
    let mut cfg = srv_cfg(pki, real);
    cfg.random = a.random;
    let peer = cell(Srv::new(cfg));
    let a = a.clone();
    let want2 = cell(want);
    let w = want2.clone();
    let mut phase = 0;
    let sock = server_sock(&peer, move |p: &mut Srv| {
        if phase == 0 && !p.ch.is_empty() {
            phase = 1;
            // the rule of the standard depends on what the client offered
            if !p.offered.contains(&a.suite) && *lk(&w) == Want::Accept {
                *lk(&w) = Want::Refuse;
            }
            let mut sid = p.session_id.clone();
            match a.sid {
                Sid::Echo => (),
                Sid::Flip(i) => {
                    if i / 8 >= sid.len() {
                        return;
                    }
                    sid[i / 8] ^= 1 << (i % 8)
                }
                Sid::Cut(n) => sid.truncate(n),
                Sid::Longer(n) => sid.resize(n, 7),
                Sid::Other => sid.iter_mut().for_each(|b| *b ^= 0x5a),
            }
            if sid != p.session_id {
                *lk(&w) = Want::Refuse;
            } else if !matches!(a.sid, Sid::Echo) {
                *lk(&w) = Want::Either;
            }
            let mut b = a.legacy.to_vec();
            b.extend_from_slice(&a.random);
            b.extend(v8(&sid));
            b.extend(a.suite.to_be_bytes());
            b.push(a.compression);
            let mut e = vec![];
            if let Some(v) = &a.version {
                e.extend(ext(0x2b, v));
            }
            if let Some(s) = &a.share {
                e.extend(ext(0x33, s));
            }
            for (t, v) in &a.extra {
                e.extend(ext(*t, v));
            }
            b.extend(v16(&e));
            let m = p.m_hello_with(hs(SERVER_HELLO, &b));
            let mut d = plain_rec(HANDSHAKE, &m);
            for m in p.honest_messages() {
                d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
            }
            p.to_app();
            p.out.push_back(d);
        }
    });
    let r = connect(CB::new(), &sock);
    flush_server(&sock, &peer);
    let p = lk(&peer);
    let want = *lk(&want2);
    c.outcome(format!("client: {}", r.name()));
    c.nontrivial((c.id().to_string(), r.name()));
    let finished = p.ev.contains(&Ev::Hs(FINISHED));
    match (&r, want) {
        (Res::Panic(m), _) => c.fail(m),
        (Res::Ok(_), Want::Refuse) => c.fail("the client accepted"),
        (Res::Ok(_), _) => c.check(p.bad.is_empty() && p.wait == Wait::Done, format!("the client accepted, but: {:?}", p.bad)),
        (Res::Err(e), Want::Accept) => c.fail(format!("the client refused with {e:?}")),
        (Res::Err(_), _) => c.check(!finished, "a Finished was sent although the client refused"),
    }
}

fn main() {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let chk = Check::start(
        "C14",
        "exploration",
        "all combinations of present, absent, usable, unusable and malformed parameters of a ClientHello, all lists of parameters up to a length, \
         and all values of each parameter of a ServerHello; the decision of the implementation is compared with the rule, and the selected parameters are checked",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let base = cli_cfg(pki, AES128);
    let default_exts = base.default_exts();
    let key = x25519_base(&base.sk);
    let share = |g: u16, k: &[u8]| [&g.to_be_bytes()[..], &v16(k)].concat();
    let good_share = share(0x1d, &key);

    // ------------------------------------------------ all combinations
    type Opt = (&'static str, Option<Vec<u8>>, Want);
    use Want::*;
    let versions: Vec<Opt> = vec![
        ("none", None, Refuse),
        ("13", Some(v8(&[3, 4])), Accept),
        ("12-13", Some(v8(&[3, 3, 3, 4])), Accept),
        ("12", Some(v8(&[3, 3])), Refuse),
        ("draft", Some(v8(&[0x7f, 0x1c, 3, 5, 4, 3])), Refuse),
    ];
    let groups: Vec<Opt> = vec![("none", None, Either), ("x25519", Some(v16(&[0, 0x1d])), Accept), ("other", Some(v16(&[0, 0x17])), Either)];
    let shares: Vec<Opt> = vec![
        ("none", None, Refuse),
        ("x25519", Some(v16(&good_share)), Accept),
        ("empty", Some(v16(&[])), Refuse),
        ("p256", Some(v16(&share(0x17, &[4; 65]))), Refuse),
        ("p256-x25519", Some(v16(&[share(0x17, &[4; 65]), good_share.clone()].concat())), Accept),
        ("short", Some(v16(&share(0x1d, &key[..31]))), Refuse),
        ("zero", Some(v16(&share(0x1d, &[0; 32]))), Refuse),
    ];
    let schemes: Vec<Opt> = vec![
        ("none", None, Refuse),
        ("ecdsa", Some(v16(&[4, 3])), Accept),
        ("rsa-ecdsa", Some(v16(&[8, 4, 4, 3])), Accept),
        ("rsa", Some(v16(&[8, 4, 4, 1])), Refuse),
        ("p384", Some(v16(&[5, 3])), Refuse),
    ];
    let names: Vec<Opt> = vec![
        ("none", None, Accept),
        ("same", Some(sni(&[(0, b"server.test")])), Accept),
        ("other", Some(sni(&[(0, b"server2.test")])), Refuse),
    ];
    let suites: Vec<(&str, Vec<u16>, Want)> = vec![
        ("aes128", vec![AES128], Accept),
        ("aes256-chacha", vec![AES256, CHACHA], Accept),
        ("other", vec![0x1304, 0xc02b], Refuse),
        ("scsv", vec![0x00ff], Refuse),
    ];
    let mut v: Vec<(String, Hello, Want)> = vec![];
    for ver in &versions {
        for g in &groups {
            for s in &shares {
                for sc in &schemes {
                    for n in &names {
                        for cs in &suites {
                            for comp in [vec![0u8], vec![1, 0]] {
                                for own in [None, Some("server.test")] {
                                    let mut k = base.clone();
                                    k.suites = cs.1.clone();
                                    k.compression = comp.clone();
                                    let mut e = default_exts.clone();
                                    set(&mut e, 0x2b, ver.1.clone());
                                    set(&mut e, 0x0a, g.1.clone());
                                    set(&mut e, 0x33, s.1.clone());
                                    set(&mut e, 0x0d, sc.1.clone());
                                    set(&mut e, 0, n.1.clone());
                                    k.exts = Some(e);
                                    let name = if own.is_none() { Accept } else { n.2 };
                                    let all = [ver.2, g.2, s.2, sc.2, name, cs.2, if comp == [0] { Accept } else { Refuse }];
                                    let want = if all.contains(&Refuse) {
                                        Refuse
                                    } else if all.contains(&Either) {
                                        Either
                                    } else {
                                        Accept
                                    };
                                    v.push((
                                        format!(
                                            "ver-{}.groups-{}.share-{}.sig-{}.sni-{}.suites-{}.comp{}.own{}",
                                            ver.0,
                                            g.0,
                                            s.0,
                                            sc.0,
                                            n.0,
                                            cs.0,
                                            comp.len(),
                                            own.is_some() as u8
                                        ),
                                        Hello { cfg: k, raw: None, name: own },
                                        want,
                                    ));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let run_server = |(n, h, w): &(String, Hello, Want), c: &mut Case| {
        if c.begin(n) {
            server(pki, h, *w, c);
        }
    };
    chk.each("server.combinations", &v, run_server);

    // ------------------------------------------------ lists
    let mut v: Vec<(String, Hello, Want)> = vec![];
    let with = |exts: &[(u16, Option<Vec<u8>>)]| {
        let mut k = base.clone();
        let mut e = default_exts.clone();
        for (t, b) in exts {
            set(&mut e, *t, b.clone());
        }
        k.exts = Some(e);
        Hello { cfg: k, raw: None, name: None }
    };
    let alphabet = [AES128, AES256, CHACHA, 0x1304, 0x00ff, 0x1a1a];
    for l in words_of(&alphabet, if thorough { 5 } else { 4 }) {
        let mut k = base.clone();
        k.suites = l.clone();
        let want = if l.iter().any(|s| SUITES.contains(s)) { Accept } else { Refuse };
        v.push((format!("suites.{:04x?}", l).replace(", ", "-"), Hello { cfg: k, raw: None, name: None }, want));
    }
    for s in 0x1300..0x1400u16 {
        for t in [s, s.swap_bytes(), s ^ 0x0100] {
            let mut k = base.clone();
            k.suites = vec![t];
            let want = if SUITES.contains(&t) { Accept } else { Refuse };
            v.push((format!("suite.{t:04x}"), Hello { cfg: k, raw: None, name: None }, want));
        }
    }
    for l in words_of(&[0x0304, 0x0303, 0x0a0a, 0x0403, 0x0305], 4) {
        let want = if l.contains(&0x0304) { Accept } else { Refuse };
        v.push((format!("versions.{:04x?}", l).replace(", ", "-"), with(&[(0x2b, Some(v8(&two(&l))))]), want));
    }
    // every single version
    for x in 0..=0xffffu32 {
        let x = x as u16;
        v.push((format!("version.{x:04x}"), with(&[(0x2b, Some(v8(&x.to_be_bytes())))]), if x == 0x0304 { Accept } else { Refuse }));
        v.push((format!("scheme.{x:04x}"), with(&[(0x0d, Some(v16(&x.to_be_bytes())))]), if x == 0x0403 { Accept } else { Refuse }));
    }
    for x in 0..=0xffffu32 {
        let x = x as u16;
        v.push((format!("scheme2.{x:04x}"), with(&[(0x0d, Some(v16(&two(&[0x0804, x]))))]), if x == 0x0403 { Accept } else { Refuse }));
    }
    for l in words_of(&[0x0403, 0x0503, 0x0603, 0x0804, 0x0304, 0x0a0a], 4) {
        let want = if l.contains(&0x0403) { Accept } else { Refuse };
        v.push((format!("schemes.{:04x?}", l).replace(", ", "-"), with(&[(0x0d, Some(v16(&two(&l))))]), want));
    }
    // lists of an odd length
    for n in [1usize, 3, 5] {
        let odd = [4u8, 3, 4, 3, 4];
        v.push((format!("odd.schemes.{n}"), with(&[(0x0d, Some(v16(&odd[..n])))]), Refuse));
        let odd = [3u8, 4, 3, 4, 3];
        v.push((format!("odd.versions.{n}"), with(&[(0x2b, Some(v8(&odd[..n])))]), Refuse));
    }
    // key shares: all lists of up to four entries
    let entries: Vec<(&str, Vec<u8>)> = vec![
        ("x25519", good_share.clone()),
        ("p256", share(0x17, &[4; 65])),
        ("x448", share(0x1e, &[1; 56])),
        ("grease", share(0x3a3a, &[0])),
        ("x25519-31", share(0x1d, &key[..31])),
        ("x25519-33", share(0x1d, &[&key[..], &[0]].concat())),
    ];
    let idx: Vec<u16> = (0..entries.len() as u16).collect();
    for w in words_of(&idx, if thorough { 4 } else { 3 }) {
        let own = w.iter().filter(|i| [0, 4, 5].contains(*i)).count();
        let want = match (own, w.contains(&0)) {
            (0, _) => Refuse,
            (1, true) => Accept,
            (1, false) => Refuse,
            // a group offered twice: the server may refuse
            (_, true) => Either,
            _ => Refuse,
        };
        let list: Vec<u8> = w.iter().flat_map(|i| entries[*i as usize].1.clone()).collect();
        let mut h = with(&[(0x33, Some(v16(&list)))]);
        set(h.cfg.exts.as_mut().unwrap(), 0x0a, Some(v16(&[0, 0x1d, 0, 0x17, 0, 0x1e, 0x3a, 0x3a])));
        let n: Vec<&str> = w.iter().map(|i| entries[*i as usize].0).collect();
        v.push((format!("shares.{}", n.join("-")), h, want));
    }
    for n in 0..=66usize {
        let mut k = key.to_vec();
        k.resize(n, 1);
        if n == 32 {
            continue;
        }
        v.push((format!("share.length.{n}"), with(&[(0x33, Some(v16(&share(0x1d, &k))))]), Refuse));
    }
    // every single group
    for g in 0..=0xffffu32 {
        let g = g as u16;
        let h = with(&[(0x0a, Some(v16(&g.to_be_bytes()))), (0x33, Some(v16(&share(g, &key))))]);
        v.push((format!("group.{g:04x}"), h, if g == 0x1d { Accept } else { Refuse }));
    }
    // session ids
    for n in 0..=40usize {
        let mut k = base.clone();
        k.session_id = (0..n).map(|i| (i * 37 + 1) as u8).collect();
        v.push((format!("session.{n}"), Hello { cfg: k, raw: None, name: None }, if n <= 32 { Accept } else { Refuse }));
    }
    for n in [0u8, 255] {
        let mut k = base.clone();
        k.session_id = vec![n; 32];
        v.push((format!("session.all{n}"), Hello { cfg: k, raw: None, name: None }, Accept));
    }
    // compression methods
    for l in words_of(&[0, 1, 64, 255], 3) {
        let mut k = base.clone();
        k.compression = l.iter().map(|x| *x as u8).collect();
        v.push((format!("compression.{l:?}").replace(", ", "-"), Hello { cfg: k, raw: None, name: None }, if l == [0] { Accept } else { Refuse }));
    }
    // every extension missing, and every pair
    for m in 0..16usize {
        let mut h = with(&[]);
        let e = h.cfg.exts.as_mut().unwrap();
        let t = [0x0a, 0x0d, 0x2b, 0x33];
        e.retain(|x| m >> t.iter().position(|y| *y == x.0).unwrap() & 1 == 1);
        v.push((format!("extensions.{m:04b}"), h, if m == 15 { Accept } else if m == 14 { Either } else { Refuse }));
    }
    // each extension twice
    for t in [0x0a, 0x0d, 0x2b, 0x33] {
        let mut h = with(&[]);
        let e = h.cfg.exts.as_mut().unwrap();
        let x = e.iter().find(|x| x.0 == t).unwrap().clone();
        e.push(x);
        v.push((format!("twice.{t:02x}"), h, Refuse));
    }
    // TLS 1.2 clients: no extensions at all, with and without the extension block
    {
        let k = base.clone();
        let m = k.hello_with(&[]);
        let mut none = m.clone();
        none.truncate(m.len() - 2);
        let n = none.len() - 4;
        none[1..4].copy_from_slice(&[0, (n >> 8) as u8, n as u8]);
        v.push(("tls12.block".into(), Hello { cfg: k.clone(), raw: Some(m), name: None }, Refuse));
        v.push(("tls12.noblock".into(), Hello { cfg: k, raw: Some(none), name: None }, Refuse));
    }
    for leg in [[3, 0], [3, 1], [3, 2], [3, 4], [2, 0], [0, 0], [4, 3], [0xfe, 0xfd]] {
        let mut k = base.clone();
        k.legacy_version = leg;
        // never completes without 1.3 in supported_versions, whatever the legacy version is
        let mut e = default_exts.clone();
        set(&mut e, 0x2b, None);
        k.exts = Some(e);
        v.push((format!("legacy.{:02x}{:02x}", leg[0], leg[1]), Hello { cfg: k.clone(), raw: None, name: None }, Refuse));
        k.exts = None;
        v.push((format!("legacy.{:02x}{:02x}.13", leg[0], leg[1]), Hello { cfg: k, raw: None, name: None }, Either));
    }
    chk.each("server.lists", &v, run_server);

    // ------------------------------------------------ server names
    let mut v: Vec<(String, Hello, Want)> = vec![];
    let own = "server.test";
    let mut others: Vec<Vec<u8>> = vec![];
    for i in 0..own.len() {
        // one character less, more, different
        let mut x = own.as_bytes().to_vec();
        x.remove(i);
        others.push(x);
        for ch in [b'a', b'.', b'-', b'z', 0] {
            let mut x = own.as_bytes().to_vec();
            x.insert(i, ch);
            others.push(x);
            let mut x = own.as_bytes().to_vec();
            x[i] = ch;
            others.push(x);
        }
        others.push(own.as_bytes()[..i].to_vec());
        others.push(own.as_bytes()[i + 1..].to_vec());
    }
    for s in ["server.testx", "xserver.test", "www.server.test", "*.test", "server.test\0", "server.test\0.evil", " server.test", "evil"] {
        others.push(s.as_bytes().to_vec());
    }
    others.push(vec![b'a'; 255]);
    others.push(vec![b'a'; 5000]);
    others.retain(|x| x != own.as_bytes());
    for (i, o) in others.iter().enumerate() {
        let mut h = with(&[(0, Some(sni(&[(0, o)])))]);
        h.name = Some(own);
        v.push((format!("other.{i}"), h, Refuse));
    }
    for (n, raw, want) in [
        ("same", sni(&[(0, own.as_bytes())]), Accept),
        ("upper", sni(&[(0, b"SERVER.TEST")]), Either),
        ("dot", sni(&[(0, b"server.test.")]), Either),
        ("type1", sni(&[(1, own.as_bytes())]), Either),
        ("empty-list", sni(&[]), Refuse),
        ("empty-ext", vec![], Refuse),
        ("empty-name", sni(&[(0, b"")]), Refuse),
        ("two", sni(&[(0, b"evil"), (0, own.as_bytes())]), Refuse),
        ("two-same-first", sni(&[(0, own.as_bytes()), (0, b"evil")]), Either),
        ("trailing", [sni(&[(0, own.as_bytes())]), vec![0]].concat(), Refuse),
        ("utf8", sni(&[(0, &[0xff, 0xfe])]), Refuse),
    ] {
        let mut h = with(&[(0, Some(raw.clone()))]);
        h.name = Some(own);
        v.push((format!("form.{n}"), h, want));
    }
    {
        let mut h = with(&[]);
        h.name = Some(own);
        v.push(("absent".into(), h, Either));
    }
    for n in ["", "a", "localhost", "xn--bcher-kva.example", "b\u{fc}cher"] {
        for m in ["", "a", "localhost", "xn--bcher-kva.example", "b\u{fc}cher"] {
            let mut h = with(&[(0, Some(sni(&[(0, m.as_bytes())])))]);
            h.name = Some(n);
            let want = if n == m { if n.is_empty() { Either } else { Accept } } else { Refuse };
            v.push((format!("pair.{n}.{m}"), h, want));
        }
    }
    chk.each("server.names", &v, run_server);

    // ------------------------------------------------ client
    let cfg = srv_cfg(pki, AES128);
    let kse = x25519_base(&cfg.sk);
    let mut v: Vec<(String, Answer, Want)> = vec![];
    for s in 0..=0xffffu32 {
        let s = s as u16;
        let near = SUITES.iter().any(|t| (s ^ t).count_ones() <= 2);
        if !thorough && !(near || s >> 8 == 0x13 || s < 0x40 || s >> 8 == 0xc0 || s >> 8 == 0xcc || s % 509 == 0) {
            continue;
        }
        v.push((format!("suite.{s:04x}"), plain_answer(s, &cfg), if SUITES.contains(&s) { Accept } else { Refuse }));
    }
    for suite in SUITES {
        let plain = plain_answer(suite, &cfg);
        let n = suite_name(suite);
        for i in 0..256 {
            v.push((format!("{n}.session.bit{i}"), Answer { sid: Sid::Flip(i), ..plain.clone() }, Refuse));
        }
        for i in 0..33 {
            v.push((format!("{n}.session.cut{i}"), Answer { sid: Sid::Cut(i), ..plain.clone() }, Accept));
        }
        for i in [33, 34, 64, 255] {
            v.push((format!("{n}.session.longer{i}"), Answer { sid: Sid::Longer(i), ..plain.clone() }, Refuse));
        }
        v.push((format!("{n}.session.other"), Answer { sid: Sid::Other, ..plain.clone() }, Refuse));
        for i in 1..=255u8 {
            v.push((format!("{n}.compression.{i}"), Answer { compression: i, ..plain.clone() }, Refuse));
        }
    }
    let plain = plain_answer(AES256, &cfg);
    for x in 0..=0xffffu32 {
        let x = x as u16;
        let near = (x ^ 0x0304).count_ones() <= 2 || x >> 8 == 3 || x as u8 == 4;
        if !thorough && !near && x % 509 != 0 {
            continue;
        }
        v.push((
            format!("version.{x:04x}"),
            Answer { version: Some(x.to_be_bytes().to_vec()), ..plain.clone() },
            if x == 0x0304 { Accept } else { Refuse },
        ));
        // legacy_version must be 0303
        if x != 0x0303 {
            v.push((format!("legacy.{x:04x}"), Answer { legacy: x.to_be_bytes(), ..plain.clone() }, Refuse));
            v.push((format!("legacy.{x:04x}.only"), Answer { legacy: x.to_be_bytes(), version: None, ..plain.clone() }, Refuse));
        }
    }
    for (n, b) in [
        ("none", None),
        ("empty", Some(vec![])),
        ("one", Some(vec![3])),
        ("list", Some(vec![2, 3, 4])),
        ("two", Some(vec![3, 4, 3, 3])),
        ("two-rev", Some(vec![3, 3, 3, 4])),
        ("trailing", Some(vec![3, 4, 0])),
    ] {
        v.push((format!("version.{n}"), Answer { version: b, ..plain.clone() }, Refuse));
    }
    for last in [*b"DOWNGRD\x00", *b"DOWNGRD\x01"] {
        let mut a = Answer { version: None, ..plain.clone() };
        a.random[24..].copy_from_slice(&last);
        v.push((format!("downgrade.{}", last[7]), a, Refuse));
    }
    for g in 0..=0xffffu32 {
        let g = g as u16;
        let near = (g ^ 0x1d).count_ones() <= 2 || g < 0x200 || g as u8 == 0x1d;
        if !thorough && !near && g % 509 != 0 {
            continue;
        }
        v.push((
            format!("group.{g:04x}"),
            Answer { share: Some([&g.to_be_bytes()[..], &v16(&kse)].concat()), ..plain.clone() },
            if g == 0x1d { Accept } else { Refuse },
        ));
    }
    for n in 0..=100usize {
        let mut k = kse.to_vec();
        k.resize(n, 1);
        if n != 32 {
            v.push((format!("share.length.{n}"), Answer { share: Some([&[0, 0x1d][..], &v16(&k)].concat()), ..plain.clone() }, Refuse));
        }
    }
    for (n, b) in [
        ("none", None),
        ("empty", Some(vec![])),
        ("group-only", Some(vec![0, 0x1d])),
        ("trailing", Some([&[0, 0x1d][..], &v16(&kse), &[0]].concat())),
        ("list", Some(v16(&[&[0, 0x1d][..], &v16(&kse)].concat()))),
        ("two", Some([&[0, 0x1d][..], &v16(&kse), &[0, 0x17], &v16(&[4; 65])].concat())),
        ("zero", Some([&[0, 0x1d][..], &v16(&[0; 32])].concat())),
        ("p256", Some([&[0, 0x17][..], &v16(&[4; 65])].concat())),
    ] {
        v.push((format!("share.{n}"), Answer { share: b, ..plain.clone() }, Refuse));
    }
    // the same extension twice
    for (n, e) in [("version", (0x2b, vec![3, 4])), ("share", (0x33, [&[0, 0x1d][..], &v16(&kse)].concat()))] {
        v.push((format!("twice.{n}"), Answer { extra: vec![e], ..plain.clone() }, Refuse));
    }
    // pairs of deviations
    let devs: Vec<(&str, Box<dyn Fn(&mut Answer) + Sync>)> = vec![
        ("suite", Box::new(|a: &mut Answer| a.suite = 0x1304)),
        ("session", Box::new(|a: &mut Answer| a.sid = Sid::Other)),
        ("nosession", Box::new(|a: &mut Answer| a.sid = Sid::Cut(0))),
        ("compression", Box::new(|a: &mut Answer| a.compression = 1)),
        ("version", Box::new(|a: &mut Answer| a.version = Some(vec![3, 3]))),
        ("noversion", Box::new(|a: &mut Answer| a.version = None)),
        ("legacy", Box::new(|a: &mut Answer| a.legacy = [3, 4])),
        ("noshare", Box::new(|a: &mut Answer| a.share = None)),
        ("p256", Box::new(|a: &mut Answer| a.share.as_mut().unwrap()[1] = 0x17)),
    ];
    for m in 1..1usize << devs.len() {
        let mut a = plain.clone();
        let mut n = vec![];
        for (i, d) in devs.iter().enumerate() {
            if m >> i & 1 == 1 {
                if d.0 == "p256" && a.share.is_none() {
                    continue;
                }
                d.1(&mut a);
                n.push(d.0);
            }
        }
        v.push((format!("several.{m}.{}", n.join("-")), a, Refuse));
    }
    chk.each("client.answers", &v, |(n, a, w), c| {
        if c.begin(n) {
            client(pki, a, *w, c);
        }
    });
    chk.finish()
}
