//! C05: honest reference peers with every variant of their parameters; the handshake must
//! complete, the peer derives its keys with its own key schedule, and data must flow both ways.

use mc::prelude::*;

#[derive(Clone)]
struct ForServer {
    cfg: CliCfg,
    auth: bool,
    rec_ver: [u8; 2],
    /// Largest part of the ClientHello in one record
    part: usize,
    pad: usize,
    ccs: bool,
    cert: Option<(String, Vec<u8>)>,
    name: bool,
    /// More certificates behind the one of the client, which itself is of this size
    chain: Vec<Vec<u8>>,
    big: usize,
    seed: u64,
}
#[derive(Clone)]
struct ForClient {
    cfg: SrvCfg,
    own_cert: bool,
    /// Amount of data in the own certificate if it is another one
    own_size: usize,
    rec_ver: [u8; 2],
    ccs: bool,
    pad: usize,
    part: usize,
    ee: Vec<u8>,
    request: Option<Vec<u8>>,
    swap: bool,
    tickets: Vec<Vec<u8>>,
    seed: u64,
}
fn fs(pki: &Pki, suites: &[u16]) -> ForServer {
    let mut cfg = cli_cfg(pki, AES128);
    cfg.suites = suites.to_vec();
    ForServer { cfg, auth: false, rec_ver: [3, 3], part: 1 << 14, pad: 0, ccs: true, cert: None, name: false, chain: vec![], big: 0, seed: 5 }
}
fn fc(pki: &Pki, suite: u16) -> ForClient {
    ForClient {
        cfg: srv_cfg(pki, suite),
        own_cert: false,
        own_size: 0,
        rec_ver: [3, 3],
        ccs: true,
        pad: 0,
        part: 1 << 14,
        ee: vec![0, 0],
        request: None,
        swap: false,
        tickets: vec![],
        seed: 5,
    }
}
fn seal_parts(d: &mut Dir, m: &[u8], part: usize, pad: usize) -> Vec<u8> {
    m.chunks(part).flat_map(|c| d.seal_padded(HANDSHAKE, c, pad.min((1 << 14) - c.len()))).collect()
}

/// What the key exchange showed: own public value, shared secret
struct Seen {
    kse: Vec<u8>,
    shared: Vec<u8>,
    sig: Vec<u8>,
}

fn exchange(c: &mut Case, s: &mut Sess) {
    for (i, n) in [5usize, 0, 16384, 16385].iter().enumerate() {
        let d: Vec<u8> = (0..*n).map(|j| (i + j * 7) as u8).collect();
        c.check(tls_write(s.stream(), &d).is_ok(), format!("write of {n}"));
        match s.received() {
            Ok(x) => c.check(x == d, format!("the peer received other data than the {n} bytes which were written")),
            Err(e) => c.fail(e),
        }
        if *n <= 16384 {
            s.send(APPDATA, &d, 0);
        } else {
            s.send(APPDATA, &d[..10], 0);
            s.send(APPDATA, &d[10..], 3);
        }
        let mut got = vec![];
        let mut b = vec![0; 20000];
        while got.len() < *n {
            match tls_read(s.stream(), &mut b) {
                Res::Ok(k) => got.extend_from_slice(&b[..k]),
                r => {
                    c.fail(format!("read of {n}: {}", r.name()));
                    return;
                }
            }
        }
        c.check(got == d, format!("other data than the {n} bytes of the peer was read"));
    }
}

fn server(pki: &'static Pki, k: &ForServer, c: &mut Case) -> Option<Seen> {
    fresh(k.seed);
    let mut kk = k.clone();
    if let Some((_, der)) = &k.cert {
        kk.cfg.server_cert = Some((der.clone(), pki.server.public));
    }
    let peer = cell(Cli::new(kk.cfg.clone()));
    let mut phase = 0;
    let sock = client_sock(&peer, move |p: &mut Cli| {
        if phase == 0 {
            phase = 1;
            p.sent_hello();
            let mut d = vec![];
            for m in p.ch.chunks(kk.part) {
                let mut r = plain_rec(HANDSHAKE, m);
                r[1] = kk.rec_ver[0];
                r[2] = kk.rec_ver[1];
                d.extend(r);
            }
            p.out.push_back(d);
        } else if phase == 1 && p.wait == Wait::Done {
            phase = 2;
            let mut d = vec![];
            if kk.ccs {
                d.extend(plain_rec(CCS, &[1]));
            }
            let mut chain = vec![if kk.big == 0 { pki.client.cert.clone() } else { big_cert(pki, "client", &pki.client, kk.big) }];
            chain.extend(kk.chain.iter().cloned());
            for m in p.honest_messages(if kk.auth { Some((&chain, &pki.client.key)) } else { None }) {
                d.extend(seal_parts(p.wr.as_mut().unwrap(), &m, kk.part, kk.pad));
            }
            p.to_app();
            p.out.push_back(d);
        }
    });
    let mut b = match &k.cert {
        Some((path, _)) => SB::new().add_cert_pem(path.clone()).add_privkey_pem(pki.server.key_path.clone()),
        None => server_builder(pki),
    };
    if k.auth {
        b = b.add_client_cert_ca(pki.ca.cert_path.clone());
    }
    if k.name {
        b = b.set_server_name("server.test".into());
    }
    let r = accept(b, &sock);
    flush_client(&sock, &peer);
    let (bad, seen, suite) = {
        let p = lk(&peer);
        (p.bad.clone(), Seen { kse: p.server_kse.clone(), shared: p.shared.clone(), sig: p.server_sig.clone() }, p.suite)
    };
    c.check(bad.is_empty(), format!("the reference client: {bad:?}"));
    match r {
        Res::Ok(stream) => {
            lk(&peer).ev.clear();
            let mut s = Sess::S(SrvSession { stream, sock, peer });
            exchange(c, &mut s);
            c.outcome(format!("server completes with {}", suite_name(suite)));
            c.nontrivial((c.id().to_string(), suite));
            Some(seen)
        }
        r => {
            c.fail(format!("the server refuses a conforming client: {}", r.name()));
            None
        }
    }
}

fn client(pki: &'static Pki, k: &ForClient, c: &mut Case) -> Option<Seen> {
    fresh(k.seed);
    let kk = k.clone();
    let mut srv = Srv::new(k.cfg.clone());
    srv.client_key = Some(pki.client.public);
    let peer = cell(srv);
    let mut phase = 0;
    let sock = server_sock(&peer, move |p: &mut Srv| {
        if phase == 0 && !p.ch.is_empty() {
            phase = 1;
            if !p.offered.contains(&kk.cfg.suite) {
                p.bad.push("the suite is not offered by the client".into());
            }
            let mut b = p.sh_body();
            if kk.swap {
                // key_share before supported_versions
                let n = b.len();
                let e = b.split_off(n - 46);
                b.extend_from_slice(&e[6..]);
                b.extend_from_slice(&e[..6]);
            }
            let m = p.m_hello_with(hs(SERVER_HELLO, &b));
            let mut d = vec![];
            for x in m.chunks(kk.part) {
                let mut r = plain_rec(HANDSHAKE, x);
                r[1] = kk.rec_ver[0];
                r[2] = kk.rec_ver[1];
                d.extend(r);
            }
            if kk.ccs {
                d.extend(plain_rec(CCS, &[1]));
            }
            let mut ms = vec![p.msg(ENCRYPTED_EXTENSIONS, &kk.ee)];
            if let Some(r) = &kk.request {
                ms.push(p.msg(CERTIFICATE_REQUEST, r));
            }
            ms.push(p.m_cert());
            ms.push(p.m_verify());
            ms.push(p.m_finished());
            for m in ms {
                d.extend(seal_parts(p.wr.as_mut().unwrap(), &m, kk.part, kk.pad));
            }
            p.to_app();
            p.out.push_back(d);
        }
    });
    let mut b = CB::new();
    let own = if k.own_size == 0 { pki.client.cert.clone() } else { big_cert(pki, "client", &pki.client, k.own_size) };
    if k.own_cert {
        let path = if k.own_size == 0 { pki.client.cert_path.clone() } else { pki.file(&format!("own{}.pem", k.own_size), pem("CERTIFICATE", &own).as_bytes()) };
        b = b.add_client_cert_pem(path).add_client_key_pem(pki.client.key_path.clone());
    }
    let r = connect(b, &sock);
    flush_server(&sock, &peer);
    let (bad, seen, chain, done) = {
        let p = lk(&peer);
        (
            p.bad.clone(),
            Seen { kse: p.client_kse.clone(), shared: p.shared.clone(), sig: p.client_sig.clone() },
            p.client_chain.clone(),
            p.wait == Wait::Done,
        )
    };
    c.check(bad.is_empty(), format!("the reference server: {bad:?}"));
    match r {
        Res::Ok(stream) => {
            c.check(done, "the server has no Finished of the client");
            let want = if k.own_cert && k.request.is_some() { vec![own.clone()] } else { vec![] };
            c.check(chain == want, "another certificate than the configured one was sent");
            {
                let mut p = lk(&peer);
                p.ev.clear();
                for t in &k.tickets {
                    let m = hs(NEW_SESSION_TICKET, t);
                    let r = p.wr.as_mut().unwrap().seal(HANDSHAKE, &m);
                    p.out.push_back(r);
                }
            }
            let mut s = Sess::C(CliSession { stream, sock, peer });
            exchange(c, &mut s);
            c.outcome(format!("client completes with {}", suite_name(k.cfg.suite)));
            c.nontrivial(c.id().to_string());
            Some(seen)
        }
        r => {
            c.fail(format!("the client refuses a conforming server: {}", r.name()));
            None
        }
    }
}

fn perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}
/// The item at every place of the list
fn at_every_place<T: Clone>(list: &[T], x: &T) -> Vec<Vec<T>> {
    (0..=list.len())
        .map(|i| {
            let mut l = list.to_vec();
            l.insert(i, x.clone());
            l
        })
        .collect()
}
fn set(e: &mut [(u16, Vec<u8>)], t: u16, v: Vec<u8>) {
    e.iter_mut().find(|e| e.0 == t).unwrap().1 = v;
}
fn two(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn big_cert(pki: &Pki, subject: &str, key: &Id, n: usize) -> Vec<u8> {
    let mut s = CertSpec::new("Test CA", subject, &key.public);
    s.exts = vec![(vec![0x2a, 3, 4, 5], false, vec![0x5a; n])];
    s.sign(&pki.ca.key)
}
/// Amounts of data for `big_cert` with which the certificate has sizes around this one
fn around(pki: &Pki, size: usize) -> Vec<usize> {
    let n = 2 * size - 300 - big_cert(pki, "localhost", &pki.server, size - 300).len();
    (n - 14..n + 14).collect()
}

fn main() {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let chk = Check::start(
        "C05",
        "exploration",
        "every combination of the listed parameters of an honest reference peer (suites and their order, session id, extensions and their order, \
         key shares, signature schemes, versions, record versions, sizes, padding, certificates, requests, tickets, secrets with special forms); \
         the handshake must complete and data flow in both directions under the keys the reference derives",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));

    // ------------------------------------------------ server
    let mut lists: Vec<Vec<u16>> = vec![];
    for m in 1..8usize {
        let s: Vec<u16> = (0..3).filter(|i| m >> i & 1 == 1).map(|i| SUITES[i]).collect();
        lists.extend(perms(&s));
    }
    let others: [u16; 6] = [0x0a0a, 0x00ff, 0xc02b, 0x1304, 0x1305, 0x5600];
    let mut v: Vec<(String, ForServer)> = vec![];
    for l in &lists {
        for extra in 0..4 {
            let mut cs = l.clone();
            if extra & 1 == 1 {
                cs.insert(0, others[0]);
                cs.insert(1, others[3]);
            }
            if extra & 2 == 2 {
                cs.extend(&others[1..]);
            }
            for sid in [0, 1, 31, 32] {
                for auth in [false, true] {
                    for ccs in [false, true] {
                        let mut k = fs(pki, &cs);
                        k.cfg.session_id = (0..sid).map(|i| i as u8).collect();
                        k.auth = auth;
                        k.ccs = ccs;
                        v.push((format!("{:04x?}.extra{extra}.sid{sid}.auth{}.ccs{}", l, auth as u8, ccs as u8).replace(", ", "-"), k));
                    }
                }
            }
        }
    }
    chk.each("server.matrix", &v, |(n, k), c| {
        if c.begin(n) {
            server(pki, k, c);
        }
    });

    // every order of the extensions, unknown ones at every place
    let mut v: Vec<(String, ForServer)> = vec![];
    for named in [false, true] {
        let mut base = fs(pki, &[AES128]);
        base.name = named;
        if named {
            base.cfg.server_name = Some(b"server.test".to_vec());
        }
        for (i, p) in perms(&base.cfg.default_exts()).into_iter().enumerate() {
            let mut k = base.clone();
            k.cfg.exts = Some(p);
            v.push((format!("order.name{}.{i}", named as u8), k));
        }
    }
    let base = fs(pki, &[CHACHA]);
    let known: Vec<(u16, Vec<u8>)> = vec![
        (1, vec![1]),
        (5, vec![1, 0, 0, 0, 0]),
        (11, vec![1, 0]),
        (16, vec![0, 12, 2, b'h', b'2', 8, b'h', b't', b't', b'p', b'/', b'1', b'.', b'1']),
        (18, vec![]),
        (21, vec![0; 100]),
        (22, vec![]),
        (23, vec![]),
        (27, vec![2, 0, 2]),
        (28, vec![0x40, 1]),
        (35, vec![]),
        (45, vec![1, 1]),
        (47, v16(&v16(&[0x30, 0]))),
        (49, vec![]),
        (50, v16(&[4, 3, 8, 4])),
        (0x0a0a, vec![]),
        (0x3a3a, vec![0]),
        (0xfe0d, vec![7; 200]),
        (0xff01, vec![0]),
        (0xffff, vec![1, 2, 3]),
        (0x4242, vec![0xff; 5000]),
    ];
    for (t, b) in &known {
        for (i, e) in at_every_place(&base.cfg.default_exts(), &(*t, b.clone())).into_iter().enumerate() {
            let mut k = base.clone();
            k.cfg.exts = Some(e);
            v.push((format!("unknown.{t:04x}.{i}"), k));
        }
    }
    // all of them, and a pre_shared_key (unknown ticket) at the end
    for psk in [false, true] {
        for rev in [false, true] {
            let mut e = known.clone();
            e.extend(base.cfg.default_exts());
            if rev {
                e.reverse();
            }
            if psk {
                let id = [&v16(&[9; 40])[..], &[0, 0, 1, 0]].concat();
                e.push((41, [v16(&id), v16(&v8(&[3; 32]))].concat()));
            }
            let mut k = base.clone();
            k.cfg.exts = Some(e);
            v.push((format!("all.psk{}.rev{}", psk as u8, rev as u8), k));
        }
    }
    chk.each("server.extensions", &v, |(n, k), c| {
        if c.begin(n) {
            server(pki, k, c);
        }
    });

    // key shares, groups, signature schemes and versions with the usable one at every place
    let mut v: Vec<(String, ForServer)> = vec![];
    let share = |g: u16, n: usize| [&g.to_be_bytes()[..], &v16(&vec![g as u8 | 1; n])].concat();
    let own = [&[0, 0x1d][..], &v16(&x25519_base(&base.cfg.sk))].concat();
    let foreign = [share(0x2a2a, 1), share(0x17, 65), share(0x18, 97), share(0x1e, 56), share(0x11ec, 1216)];
    for m in 0..1usize << foreign.len() {
        let list: Vec<Vec<u8>> = (0..foreign.len()).filter(|i| m >> i & 1 == 1).map(|i| foreign[i].clone()).collect();
        for (i, l) in at_every_place(&list, &own).into_iter().enumerate() {
            let mut k = base.clone();
            let mut e = base.cfg.default_exts();
            let mut groups: Vec<u8> = l.iter().flat_map(|s| s[..2].to_vec()).collect();
            groups.extend([0x01, 0x00, 0x01, 0x01]);
            set(&mut e, 0x0a, v16(&groups));
            set(&mut e, 0x33, v16(&l.concat()));
            k.cfg.exts = Some(e);
            v.push((format!("shares.{m}.{i}"), k));
        }
    }
    let known = [(0x17, 65), (0x18, 97), (0x19, 133), (0x1e, 56), (0x100, 256), (0x101, 384), (0x102, 512), (0x103, 768), (0x104, 1024)].map(|(g, n)| share(g, n));
    for n in 0..=known.len() {
        for first in 0..known.len() {
            let list: Vec<Vec<u8>> = (0..n).map(|i| known[(first + i) % known.len()].clone()).collect();
            for (i, l) in at_every_place(&list, &own).into_iter().enumerate() {
                let mut k = base.clone();
                let mut e = base.cfg.default_exts();
                set(&mut e, 0x0a, v16(&l.iter().flat_map(|s| s[..2].to_vec()).collect::<Vec<u8>>()));
                set(&mut e, 0x33, v16(&l.concat()));
                k.cfg.exts = Some(e);
                v.push((format!("known-shares.{n}.{first}.{i}"), k));
            }
        }
    }
    let schemes: Vec<u16> = vec![0x0a0a, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808, 0x0503, 0x0603, 0x0401, 0x0501, 0x0601, 0x0203, 0x0201, 0x0304, 0x0402];
    for (i, l) in at_every_place(&schemes, &0x0403).into_iter().enumerate() {
        let mut k = base.clone();
        let mut e = base.cfg.default_exts();
        set(&mut e, 0x0d, v16(&two(&l)));
        k.cfg.exts = Some(e);
        v.push((format!("schemes.{i}"), k));
    }
    for n in 0..40 {
        let mut k = base.clone();
        let mut e = base.cfg.default_exts();
        let l: Vec<u16> = (0..n).map(|i| 0x0900 + i).chain([0x0403]).collect();
        set(&mut e, 0x0d, v16(&two(&l)));
        let g: Vec<u16> = (0..n).map(|i| 0x0100 + i).chain([0x001d]).collect();
        set(&mut e, 0x0a, v16(&two(&g)));
        k.cfg.exts = Some(e);
        v.push((format!("lists.{n}"), k));
    }
    let versions: Vec<u16> = vec![0x0a0a, 0x0303, 0x0302, 0x0301, 0x7f1c, 0x0305];
    for m in 0..1usize << versions.len() {
        let list: Vec<u16> = (0..versions.len()).filter(|i| m >> i & 1 == 1).map(|i| versions[i]).collect();
        for (i, l) in at_every_place(&list, &0x0304).into_iter().enumerate() {
            let mut k = base.clone();
            let mut e = base.cfg.default_exts();
            set(&mut e, 0x2b, v8(&two(&l)));
            k.cfg.exts = Some(e);
            v.push((format!("versions.{m}.{i}"), k));
        }
    }
    // long lists, with the one usable entry at the start, in the middle and at the end
    for (li, n) in [9usize, 17, 33, 63, 65, 126, 129, 255, 257, 513, 1025, 4097, 16380, 32700].into_iter().enumerate() {
        for at in [0, n / 2, n] {
            let unknown = |first: u16| -> Vec<u16> { (0..n).map(|i| first + i as u16).collect() };
            let with = |first: u16, own: u16| {
                let mut l = unknown(first);
                l.insert(at, own);
                two(&l)
            };
            for (s, suite) in SUITES.iter().enumerate() {
                let mut k = base.clone();
                k.cfg.suites = unknown(0x2000);
                k.cfg.suites.insert(at, *suite);
                v.push((format!("many-suites.{li}.{at}.{s}"), k));
            }
            let mut k = base.clone();
            let mut e = base.cfg.default_exts();
            set(&mut e, 0x0d, v16(&with(0x3000, 0x0403)));
            k.cfg.exts = Some(e);
            v.push((format!("many-schemes.{li}.{at}"), k));
            let mut k = base.clone();
            let mut e = base.cfg.default_exts();
            set(&mut e, 0x0a, v16(&with(0x3000, 0x001d)));
            k.cfg.exts = Some(e);
            v.push((format!("many-groups.{li}.{at}"), k));
            if n <= 126 {
                let mut k = base.clone();
                let mut e = base.cfg.default_exts();
                set(&mut e, 0x2b, v8(&with(0x0305, 0x0304)));
                k.cfg.exts = Some(e);
                v.push((format!("many-versions.{li}.{at}"), k));
            }
            if n <= 4097 {
                // entries of five bytes
                let mut l: Vec<Vec<u8>> = unknown(0x3000).iter().map(|g| share(*g, 1)).collect();
                l.insert(at, own.clone());
                let mut k = base.clone();
                let mut e = base.cfg.default_exts();
                set(&mut e, 0x0a, v16(&with(0x3000, 0x001d)));
                set(&mut e, 0x33, v16(&l.concat()));
                k.cfg.exts = Some(e);
                v.push((format!("many-shares.{li}.{at}"), k));
            }
            if n <= 4097 {
                // unknown extensions before and after the known ones
                let e = base.cfg.default_exts();
                let mut l: Vec<(u16, Vec<u8>)> = (0..n).map(|i| (0x4000 + i as u16, vec![i as u8; i % 3])).collect();
                for (i, x) in e.into_iter().enumerate() {
                    l.insert(at + i, x);
                }
                let mut k = base.clone();
                k.cfg.exts = Some(l);
                v.push((format!("many-extensions.{li}.{at}"), k));
            }
        }
    }
    // long values: one foreign key share, and one extension
    for n in [1usize, 255, 256, 1215, 1216, 1217, 4096, 16384, 32768, 65000] {
        for last in [false, true] {
            let foreign = share(0x2a2a, n);
            let l = if last { [own.clone(), foreign].concat() } else { [foreign, own.clone()].concat() };
            let mut k = base.clone();
            let mut e = base.cfg.default_exts();
            set(&mut e, 0x33, v16(&l));
            k.cfg.exts = Some(e);
            v.push((format!("long-share.{n}.{last}"), k));
        }
        for unknown in [0u16, 0x4a4a, 0xffff] {
            let mut k = base.clone();
            let mut e = base.cfg.default_exts();
            e.retain(|x| x.0 != unknown);
            // the server name, type and lengths included
            let x = if unknown == 0 { v16(&[&[0][..], &v16(&vec![b'a'; n])].concat()) } else { vec![3; n] };
            e.insert(e.len() / 2, (unknown, x));
            k.cfg.exts = Some(e);
            v.push((format!("long-extension.{unknown}.{n}"), k));
        }
    }
    // must be ignored for all purposes
    for ver in [[3, 0], [3, 1], [3, 2], [3, 3], [3, 4], [0, 0], [2, 0], [0x7f, 0x1c], [0xff, 0xff]] {
        for part in [1 << 14, 100, 3] {
            let mut k = base.clone();
            k.rec_ver = ver;
            k.part = part;
            v.push((format!("recver.{}.{}.{part}", ver[0], ver[1]), k));
        }
    }
    chk.each("server.lists", &v, |(n, k), c| {
        if c.begin(n) {
            server(pki, k, c);
        }
    });

    // sizes of the ClientHello, the record padding, the certificate of the server
    let mut v: Vec<(String, ForServer)> = vec![];
    let mut sizes: Vec<usize> = (0..520).collect();
    for c in [1 << 14, 2 << 14, 3 << 14, 60000] {
        sizes.extend(c - 260..c - 160);
    }
    for n in sizes {
        let mut k = base.clone();
        let mut e = base.cfg.default_exts();
        e.push((21, vec![0; n]));
        k.cfg.exts = Some(e);
        v.push((format!("hello.{n}"), k));
    }
    for s in SUITES {
        for pad in [1, 2, 15, 16, 17, 255, 256, 1000, 16000, 16384] {
            for auth in [false, true] {
                let mut k = fs(pki, &[s]);
                k.pad = pad;
                k.auth = auth;
                v.push((format!("padding.{}.{pad}.auth{}", suite_name(s), auth as u8), k));
            }
        }
    }
    let mut certs: Vec<usize> = vec![0, 1, 100, 15000, 40000, 60000, 65100, 65200, 70000, 130_000];
    certs.extend(16384 - 420..16384 - 380);
    for n in certs {
        let der = big_cert(pki, "localhost", &pki.server, n);
        let path = pki.file(&format!("big{n}.pem"), pem("CERTIFICATE", &der).as_bytes());
        let mut k = base.clone();
        k.cert = Some((path, der));
        v.push((format!("certificate.{n}"), k));
    }
    // the certificate, with its entry and list, around the limits of two bytes
    for n in around(pki, 65532) {
        let der = big_cert(pki, "localhost", &pki.server, n);
        let path = pki.file(&format!("sized{n}.pem"), pem("CERTIFICATE", &der).as_bytes());
        let mut k = base.clone();
        k.cert = Some((path, der));
        v.push((format!("sized-certificate.{n}"), k));
    }
    // certificates and chains of the client, up to the largest message that is supported
    for (i, (big, chain)) in [(0, vec![300]), (0, vec![300; 4]), (20000, vec![]), (60000, vec![]), (66000, vec![]), (130000, vec![]), (0, vec![60000, 300]), (1000, vec![40000; 3]), (0, vec![30000; 4])]
        .into_iter()
        .enumerate()
    {
        for part in [1 << 14, 5000] {
            let mut k = base.clone();
            k.auth = true;
            k.big = big;
            k.part = part;
            k.chain = chain.iter().map(|n| big_cert(pki, "Other", &pki.ca, *n)).collect();
            v.push((format!("client-certificate.{i}.{part}"), k));
        }
    }
    for (i, r) in [[0; 32], [0xff; 32], *b"\xCF\x21\xAD\x74\xE5\x9A\x61\x11\xBE\x1D\x8C\x02\x1E\x65\xB8\x91\xC2\xA2\x11\x16\x7A\xBB\x8C\x5E\x07\x9E\x09\xE2\xC8\xA8\x33\x9C"]
        .iter()
        .enumerate()
    {
        let mut k = base.clone();
        k.cfg.random = *r;
        v.push((format!("random.{i}"), k));
    }
    chk.each("server.sizes", &v, |(n, k), c| {
        if c.begin(n) {
            server(pki, k, c);
        }
    });

    // ------------------------------------------------ client
    let requests: Vec<(&str, Vec<u8>)> = {
        let algs = |l: &[u16]| ext(0x0d, &v16(&two(l)));
        let mut v = vec![
            ("plain", [v8(&[]), v16(&algs(&[0x0403]))].concat()),
            ("ctx1", [v8(&[7]), v16(&algs(&[0x0403]))].concat()),
            ("ctx255", [v8(&[7; 255]), v16(&algs(&[0x0403]))].concat()),
            ("first", [v8(&[1]), v16(&algs(&[0x0403, 0x0804, 0x0503]))].concat()),
            ("last", [v8(&[1]), v16(&algs(&[0x0a0a, 0x0804, 0x0503, 0x0403]))].concat()),
        ];
        let cas = ext(47, &v16(&v16(&name(&cn("Test CA")))));
        let cert = ext(50, &v16(&[4, 3]));
        let unknown = ext(0x3a3a, &[0; 30]);
        for (i, p) in perms(&[algs(&[0x0403]), cas, cert, unknown]).into_iter().enumerate() {
            v.push((Box::leak(format!("exts{i}").into_boxed_str()), [v8(&[]), v16(&p.concat())].concat()));
        }
        v
    };
    let mut v: Vec<(String, ForClient)> = vec![];
    for s in SUITES {
        for ccs in [false, true] {
            for swap in [false, true] {
                let mut k = fc(pki, s);
                k.ccs = ccs;
                k.swap = swap;
                v.push((format!("{}.ccs{}.swap{}", suite_name(s), ccs as u8, swap as u8), k.clone()));
                for own in [false, true] {
                    for (n, r) in &requests {
                        let mut k = k.clone();
                        k.own_cert = own;
                        k.request = Some(r.clone());
                        k.cfg.request = Some(r[1..1 + r[0] as usize].to_vec());
                        v.push((format!("{}.ccs{}.swap{}.request.{n}.own{}", suite_name(s), ccs as u8, swap as u8, own as u8), k));
                    }
                }
            }
        }
        for ver in [[3, 0], [3, 1], [3, 2], [3, 4], [0, 0], [2, 0], [0x7f, 0x1c], [0xff, 0xff]] {
            let mut k = fc(pki, s);
            k.rec_ver = ver;
            v.push((format!("{}.recver.{}.{}", suite_name(s), ver[0], ver[1]), k));
        }
        // own certificate which is not asked for
        let mut k = fc(pki, s);
        k.own_cert = true;
        v.push((format!("{}.own", suite_name(s)), k));
        for (n, e) in [("groups", ext(0x0a, &v16(&[0, 0x1d, 0, 0x17]))), ("sni", ext(0, &[])), ("grease", ext(0x0a, &v16(&[0x2a, 0x2a])))] {
            let mut k = fc(pki, s);
            k.ee = v16(&e);
            v.push((format!("{}.ee.{n}", suite_name(s)), k));
        }
        for pad in [1, 2, 15, 16, 17, 255, 256, 1000, 16000, 16384] {
            for part in [1 << 14, 1000, 100] {
                let mut k = fc(pki, s);
                k.pad = pad;
                k.part = part;
                v.push((format!("{}.padding.{pad}.{part}", suite_name(s)), k));
            }
        }
        for n in 0..4 {
            for nonce in [0, 8, 255] {
                for tick in [1, 32, 400, 20000] {
                    for e in [vec![], ext(42, &[0, 0, 0x40, 0]), ext(0x1a1a, &[])] {
                        let t = [vec![0, 0, 1, 0, 1, 2, 3, 4], v8(&vec![5; nonce]), v16(&vec![6; tick]), v16(&e)].concat();
                        if t.len() + 4 > 16384 && n != 1 {
                            continue;
                        }
                        if t.len() + 4 > 16384 {
                            continue;
                        }
                        let mut k = fc(pki, s);
                        k.tickets = vec![t; n];
                        v.push((format!("{}.tickets.{n}.{nonce}.{tick}.{}", suite_name(s), e.len()), k));
                    }
                }
            }
        }
    }
    for (i, r) in [[0; 32], [0xff; 32], *b"0123456789abcdef01234567DOWNGRD\x01", *b"0123456789abcdef01234567DOWNGRD\x00"].iter().enumerate() {
        let mut k = fc(pki, AES256);
        k.cfg.random = *r;
        v.push((format!("random.{i}"), k));
    }
    chk.each("client.matrix", &v, |(n, k), c| {
        if c.begin(n) {
            client(pki, k, c);
        }
    });
    // certificates of the server
    let mut v: Vec<(String, ForClient)> = vec![];
    let mut sizes: Vec<usize> = (0..260).collect();
    sizes.extend([1000, 15000, 16000, 16384, 20000, 32768, 40000, 60000, 65100, 65200, 65536, 70000, 100_000, 130_000]);
    for n in sizes {
        let mut k = fc(pki, AES128);
        k.cfg.cert = vec![big_cert(pki, "localhost", &pki.server, n)];
        v.push((format!("size.{n}"), k));
    }
    for n in 2..10 {
        let mut k = fc(pki, CHACHA);
        k.cfg.cert = (0..n).map(|i| if i == 0 { pki.server.cert.clone() } else { pki.ca.cert.clone() }).collect();
        v.push((format!("chain.{n}"), k));
    }
    for (i, n) in [(2, 40000), (3, 30000), (4, 30000), (2, 65000), (100, 600)].into_iter().enumerate() {
        let mut k = fc(pki, AES128);
        k.cfg.cert = vec![pki.server.cert.clone()];
        k.cfg.cert.extend((0..n.0).map(|_| big_cert(pki, "Other", &pki.ca, n.1)));
        v.push((format!("big-chain.{i}"), k));
    }
    // the own one
    for n in around(pki, 65532).into_iter().chain([1000, 16000, 17000, 40000, 70000, 130_000]) {
        let mut k = fc(pki, AES128);
        k.own_cert = true;
        k.own_size = n;
        k.request = Some([v8(&[]), v16(&ext(0x0d, &v16(&[4, 3])))].concat());
        k.cfg.request = Some(vec![]);
        v.push((format!("own.{n}"), k));
    }
    for (n, who) in [("server2", &pki.server2), ("selfsigned", &pki.selfsigned)] {
        let mut k = fc(pki, CHACHA);
        k.cfg.cert = vec![who.cert.clone()];
        k.cfg.key = who.key;
        v.push((format!("cert.{n}"), k));
    }
    chk.each("client.certificates", &v, |(n, k), c| {
        if c.begin(n) {
            client(pki, k, c);
        }
    });

    // ------------------------------------------------ secrets with special forms
    // For the fixed secret of the code under test all secrets of the peer are tried until the
    // public values and the shared secret have zero bytes at their ends, and the signature every
    // length; the handshake is done with each of these.
    let forms: Vec<(&str, fn(&Seen, &[u8]) -> bool)> = vec![
        ("peer.first0", |_, q| q[0] == 0),
        ("peer.last0", |_, q| q[31] == 0),
        ("peer.high", |_, q| q[31] == 0x7f),
        ("shared.first0", |s, _| s.shared[0] == 0),
        ("shared.last0", |s, _| s.shared[31] == 0),
        ("shared.high", |s, _| s.shared[31] == 0x7f),
    ];
    let work: Vec<(bool, usize)> = [false, true].iter().flat_map(|s| (0..forms.len()).map(move |i| (*s, i))).collect();
    chk.each("secrets.peer", &work, |(is_server, i), c| {
        let (n, f) = forms[*i];
        if !c.begin(format!("{}.{n}", if *is_server { "server" } else { "client" })) {
            return;
        }
        let own = if *is_server { server(pki, &fs(pki, &[AES128]), c) } else { client(pki, &fc(pki, AES128), c) };
        let Some(own) = own else { return };
        let own: [u8; 32] = own.kse.try_into().unwrap();
        for j in 0..200_000u32 {
            let mut sk = *b"x25519 secret with special forms";
            sk[..4].copy_from_slice(&j.to_be_bytes());
            let q = x25519_base(&sk);
            let seen = Seen { kse: vec![], shared: if n.starts_with("peer") { vec![] } else { x25519(&sk, &own).to_vec() }, sig: vec![] };
            if !f(&seen, &q) {
                continue;
            }
            c.count("secrets tried", j as u64 + 1);
            if *is_server {
                let mut k = fs(pki, &[AES128]);
                k.cfg.sk = sk;
                server(pki, &k, c);
            } else {
                let mut k = fc(pki, AES128);
                k.cfg.sk = sk;
                client(pki, &k, c);
            }
            return;
        }
        c.fail("no such secret was found");
    });
    let n = if thorough { 20000 } else { 1500 };
    chk.range("secrets.own", n, |i, c| {
        for is_server in [false, true] {
            if !c.begin(format!("{i}.{}", if is_server { "server" } else { "client" })) {
                continue;
            }
            let seed = 1000 + i as u64;
            let s = if is_server {
                let mut k = fs(pki, &[SUITES[i % 3]]);
                k.seed = seed;
                k.cfg.random[..8].copy_from_slice(&seed.to_be_bytes());
                server(pki, &k, c)
            } else {
                let mut k = fc(pki, SUITES[i % 3]);
                k.seed = seed;
                k.cfg.random[..8].copy_from_slice(&seed.to_be_bytes());
                k.cfg.request = Some(vec![]);
                k.request = Some(requests[0].1.clone());
                k.own_cert = true;
                client(pki, &k, c)
            };
            if let Some(s) = s {
                let mut note = |b: bool, t: &str| {
                    if b {
                        c.count(t, 1)
                    }
                };
                note(s.kse[0] == 0, "own public value starts with 0");
                note(s.kse[31] == 0, "own public value ends with 0");
                note(s.shared[0] == 0, "shared secret starts with 0");
                note(s.shared[31] == 0, "shared secret ends with 0");
                c.count(&format!("signature of {} bytes", s.sig.len()), 1);
            }
        }
    });
    chk.finish()
}
