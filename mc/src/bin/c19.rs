//! C19: random bytes, numbers, randoms, session ids, key shares and signature nonces of all
//! histories of requests and connections, on a device under control.

use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, PrivateKey};
use anothertls::rand::{RngCore, SeedableRng, SimpleRng, URandomRng, PRNG};
use anothertls::ServerConnection;
use ibig::IBig;
use mc::prelude::*;

/// Everything that has to be random: name and value
type Values = Vec<(String, Vec<u8>)>;

fn nonce(d: &U, signed: &[u8], sig: &[u8]) -> Option<Vec<u8>> {
    let (r, s) = sig_parse(sig)?;
    let n = &p256().n;
    let z = n.red(&u_from_be(&sha256(signed)));
    let rd = n.mul(&n.to(&r), &n.to(d));
    let k = n.mul(&n.add(&rd, &n.to(&z)), &n.inv(&n.to(&s)));
    Some(u_to_be(&n.from(&k)).to_vec())
}
fn ibig_bytes(v: &IBig) -> Vec<u8> {
    let s = format!("{v:x}");
    hex(&if s.len() % 2 == 1 { format!("0{s}") } else { s })
}
fn u_ibig(u: &U) -> IBig {
    IBig::from_str_radix(&to_hex(&u_to_be(u)), 16).unwrap()
}
fn between(rng: &mut dyn RngCore<IBig>, a: usize, b: usize) -> Result<Vec<u8>, String> {
    let v = rng.between(a, b);
    let (lo, hi) = (IBig::from(1) << (8 * a), IBig::from(1) << (8 * b));
    if v < lo || v >= hi {
        return Err(format!("between({a}, {b}) returned {v:x}"));
    }
    let mut x = ibig_bytes(&v);
    while x.len() < b {
        x.insert(0, 0);
    }
    Ok(x)
}

/// The symbols of the histories
const SYMBOLS: [char; 9] = ['c', 'C', 'x', 's', 'R', 'p', 'b', 'n', 'e'];

struct World {
    pki: &'static Pki,
    fd: i32,
    conn: ServerConnection,
    fd2: i32,
    request: ServerConnection,
    fd3: i32,
    simple: ServerConnection,
    rng: URandomRng,
}
impl World {
    fn new(pki: &'static Pki) -> World {
        let (fd, l) = virtual_listener();
        let conn = ServerConnection::new(l, server_builder(pki).build().unwrap());
        let (fd2, l) = virtual_listener();
        let request = ServerConnection::new(l, server_builder(pki).add_client_cert_ca(pki.ca.cert_path.clone()).build().unwrap());
        let (fd3, l) = virtual_listener();
        let simple = ServerConnection::new(l, server_builder(pki).set_prng(PRNG::Simple).build().unwrap());
        World { pki, fd, conn, fd2, request, fd3, simple, rng: URandomRng::new() }
    }
    /// One step of the history. full: handshakes are completed
    fn step(&mut self, sym: char, full: bool, out: &mut Values) -> Result<(), String> {
        let at = out.len();
        let mut add = |n: &str, v: Vec<u8>, len: usize| {
            if v.len() != len {
                return Err(format!("{n} of {} bytes", v.len()));
            }
            out.push((format!("{n}{at}"), v));
            Ok(())
        };
        match sym {
            'b' => add("bytes", self.rng.bytes(32), 32),
            'n' => add("number", between(&mut self.rng, 1, 32)?, 32),
            'e' => {
                let d = self.pki.client2.key;
                let msg = b"something to be signed";
                let key = PrivateKey::new(Curve::secp256r1(), u_ibig(&d));
                let s = Ecdsa::urandom().sign(&key, &sha256(msg))?;
                let be = |x: &IBig| {
                    let mut b = ibig_bytes(x);
                    while b.len() < 32 {
                        b.insert(0, 0)
                    }
                    u_from_be(&b)
                };
                // the fields of the signature are found by trying
                let (r, s) = (be(&s.r), be(&s.s));
                let k = nonce(&d, msg, &sig_der(&r, &s)).ok_or("signature")?;
                add("nonce", k, 32)
            }
            'c' | 'C' | 'x' => {
                let mut cfg = srv_cfg(self.pki, 0x1303);
                cfg.request = (sym == 'C').then(|| b"ctx".to_vec());
                let mut srv = Srv::new(cfg);
                srv.client_key = Some(self.pki.client.public);
                let peer = cell(srv);
                let mut plan = honest_server();
                let sock = server_sock(&peer, move |p| if sym == 'x' { p.eof = true } else { plan(p) });
                let mut b = CB::new();
                if sym == 'C' {
                    b = b.add_client_cert_pem(self.pki.client.cert_path.clone()).add_client_key_pem(self.pki.client.key_path.clone());
                }
                let r = connect(b, &sock);
                flush_server(&sock, &peer);
                let p = lk(&peer);
                if r.is_ok() != (sym != 'x') || !p.bad.is_empty() {
                    return Err(format!("client {sym}: {}, peer: {:?}", r.name(), p.bad));
                }
                add("client-random", p.client_random.clone(), 32)?;
                add("session-id", p.session_id.clone(), 32)?;
                add("client-share", p.client_kse.clone(), 32)?;
                if sym == 'C' {
                    let k = nonce(&self.pki.client.key, &p.client_signed, &p.client_sig).ok_or("signature")?;
                    add("client-nonce", k, 32)?;
                }
                Ok(())
            }
            _ => {
                let mut cfg = cli_cfg(self.pki, 0x1303);
                cfg.session_id = vec![7; 32];
                let peer = cell(Cli::new(cfg));
                let auth = (sym == 'R').then(|| (vec![self.pki.client.cert.clone()], self.pki.client.key));
                let mut plan = honest_client(auth);
                let sock = client_sock(&peer, move |p| if !full && p.wait == Wait::Done { p.eof = true } else { plan(p) });
                let (fd, conn) = match sym {
                    's' => (self.fd, &self.conn),
                    'R' => (self.fd2, &self.request),
                    _ => (self.fd3, &self.simple),
                };
                enqueue(fd, sock.clone());
                let r = caught(|| conn.accept().map(|x| x.0));
                flush_client(&sock, &peer);
                let p = lk(&peer);
                let ok = matches!(r, Ok(Ok(_)));
                if ok != full || !p.bad.is_empty() || p.wait != Wait::Done {
                    return Err(format!("server {sym}: {:?}, peer: {:?}", r.map(|x| x.map(|_| ())), p.bad));
                }
                if sym != 'p' {
                    add("server-random", p.server_random.clone(), 32)?;
                    add("server-share", p.server_kse.clone(), 32)?;
                }
                if sym == 'R' {
                    add("context", p.req_ctx.clone().unwrap_or_default(), 32)?;
                }
                let k = nonce(&self.pki.server.key, &p.server_signed, &p.server_sig).ok_or("signature")?;
                add("server-nonce", k, 32)
            }
        }
    }
}

fn device(f: impl FnOnce(&mut Rng)) {
    with_rng(f);
}
fn history(pki: &'static Pki, word: &[char], full: bool, seed: u64, f: &dyn Fn(&mut Rng)) -> Result<(Values, usize), String> {
    fresh(1);
    let mut w = World::new(pki);
    seed_rng(seed);
    device(|r| f(r));
    let mut v = vec![];
    for s in word {
        w.step(*s, full, &mut v)?;
    }
    Ok((v, with_rng(|r| r.out.len())))
}

/// The same values for many contents of the device: no byte is constant, no two are the same
fn judge_fresh(c: &mut Case, runs: &[Values]) {
    let Some(first) = runs.first() else { return };
    for (i, (name, v)) in first.iter().enumerate() {
        let col = |k: usize| runs.iter().map(move |r| r[i].1[k]);
        for k in 0..v.len() {
            c.check(col(k).any(|b| b != v[k]), format!("byte {k} of {name} is always {:02x}", v[k]));
        }
    }
    for r in runs {
        c.check(r.len() == first.len(), "the number of values differs");
        for i in 0..r.len() {
            for j in 0..i {
                c.check(r[i].1 != r[j].1, format!("{} and {} are the same", r[i].0, r[j].0));
                if r[i].1.len() >= 32 && r[j].1.len() >= 32 {
                    c.check(r[i].1[..16] != r[j].1[..16] && r[i].1[16..32] != r[j].1[16..32], format!("{} and {} have a half in common", r[i].0, r[j].0));
                }
            }
        }
    }
    // values of different contents of the device differ
    for i in 0..first.len() {
        for a in 0..runs.len() {
            for b in 0..a {
                c.check(runs[a][i].1 != runs[b][i].1, format!("{} does not depend on the device", first[i].0));
            }
        }
    }
}
/// Random bytes: no two positions are always the same
fn judge_bytes(c: &mut Case, runs: &[Vec<u8>]) {
    use std::collections::HashMap;
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    for k in 0..runs[0].len() {
        let col: Vec<u8> = runs.iter().map(|r| r[k]).collect();
        c.check(col.iter().any(|b| *b != col[0]), format!("byte {k} is always {:02x}", col[0]));
        if let Some(o) = seen.insert(col, k) {
            c.fail(format!("bytes {o} and {k} are always the same"));
        }
    }
}

fn main() {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let chk = Check::start(
        "C19",
        "exploration",
        "every size and range, all short reads and failures of the device, all histories of requests and connections to the depth, every byte of the device changed: \
         which values depend on it, and whether any byte of a value never changes",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));

    // ------------------------------------------------ sizes
    let mut sizes: Vec<usize> = (0..=1100).collect();
    for k in 12..if thorough { 1000 } else { 120 } {
        sizes.extend([100 * k - 1, 100 * k, 100 * k + 1]);
    }
    sizes.extend([4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 1 << 20]);
    chk.each("sizes", &sizes, |n, c| {
        for max in [usize::MAX, 1, 2, 3, 7, 49, 50, 51, 99, 100, 101] {
            if c.begin(format!("urandom.{n}.{max}")) {
                let seeds = if *n <= 1100 { 12 } else { 1 };
                let runs: Vec<Vec<u8>> = (0..seeds)
                    .map(|s| {
                        fresh(s + 1);
                        device(|r| r.max_read = max);
                        URandomRng::new().bytes(*n)
                    })
                    .collect();
                c.check(runs.iter().all(|r| r.len() == *n), format!("bytes({n}) returned {:?}", runs.iter().map(|r| r.len()).collect::<Vec<_>>()));
                if !c.failed() && seeds > 1 {
                    judge_bytes(c, &runs);
                }
                c.nontrivial(("u", n, max));
                c.outcome("exact size");
            }
        }
        for seed in [0u32, 1, 10, 0x7fff_ffff, u32::MAX - 1, u32::MAX] {
            if *n <= 1100 && c.begin(format!("simple.{n}.{seed}")) {
                let a = SimpleRng::<u32>::from_seed(seed).bytes(*n);
                let b = SimpleRng::<IBig>::from_seed(IBig::from(seed)).bytes(*n);
                c.check(a.len() == *n && b.len() == *n, format!("{} and {} bytes", a.len(), b.len()));
                c.nontrivial(("s", n, seed));
                c.outcome("exact size, insecure generator");
            }
        }
    });

    // ------------------------------------------------ ranges
    let top = if thorough { 60 } else { 40 };
    let mut v = vec![];
    for a in 0..top {
        for b in a + 1..=top {
            v.push((a, b));
        }
    }
    chk.each("ranges", &v, |(a, b), c| {
        // every length the number of the device can have
        for residue in 0..50u8 {
            for fill in [0u8, 1, 0x7f, 0x80, 0xff] {
                if c.begin(format!("{a}-{b}.{residue}.{fill:02x}")) {
                    fresh(1);
                    device(|r| {
                        r.forced.extend([residue, 0, 0, 0, 0, 0, 0, 0]);
                        r.fill = Some(fill);
                    });
                    if let Err(e) = between(&mut URandomRng::new(), *a, *b) {
                        c.fail(e);
                    }
                    c.nontrivial((a, b, residue, fill));
                    c.outcome("in the range");
                }
            }
        }
        if c.begin(format!("{a}-{b}.seeds")) {
            let runs: Vec<Vec<u8>> = (0..100)
                .filter_map(|s| {
                    fresh(s);
                    between(&mut URandomRng::new(), *a, *b).map_err(|e| c.fail(e)).ok()
                })
                .collect();
            if !c.failed() && *b <= 40 {
                for k in 0..*b {
                    let (mut or, mut and) = (0, 0xff);
                    runs.iter().for_each(|r| {
                        or |= r[k];
                        and &= r[k];
                    });
                    // the byte of 2^(8a) cannot be zero if there is nothing above it
                    if !(*b == a + 1 && k == 0) {
                        c.check(or == 0xff && and == 0, format!("bits of byte {k} are constant: {or:02x} {and:02x}"));
                    } else {
                        c.check(or == 0xff, format!("bits of byte {k} are never set: {or:02x}"));
                    }
                }
            }
            c.nontrivial((a, b));
            c.outcome("no constant bits");
        }
        if c.begin(format!("{a}-{b}.simple")) {
            for seed in 0..20 {
                let mut r = SimpleRng::<IBig>::from_seed(IBig::from(seed * 7));
                for _ in 0..5 {
                    if let Err(e) = between(&mut r, *a, *b) {
                        c.fail(e);
                    }
                }
            }
            c.nontrivial((a, b, "simple"));
            c.outcome("in the range");
        }
    });
    let edge: Vec<u64> = [0u64, 1, 2, 3, 7, 10, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff].to_vec();
    chk.each("small-ranges", &edge, |a, c| {
        for b in &edge {
            if a < b && c.begin(format!("{a}-{b}")) {
                for seed in 0..1000u32 {
                    let v = SimpleRng::<u32>::from_seed(seed.wrapping_mul(4_294_967)).between(*a as usize, *b as usize) as u64;
                    c.check(*a <= v && v < *b, format!("seed {seed}: {v}"));
                }
                c.nontrivial((a, b));
                c.outcome("in the range");
            }
        }
    });

    // ------------------------------------------------ short reads and interruptions
    let mut v = vec![];
    for n in [1usize, 32, 99, 100, 101, 250] {
        for k in 0..6 {
            v.push((n, k));
        }
    }
    chk.each("short-reads", &v, |(n, k), c| {
        let run = |name: String, c: &mut Case, f: &dyn Fn(&mut Rng)| {
            if c.begin(format!("{n}.{name}")) {
                let runs: Vec<Vec<u8>> = (0..12)
                    .map(|s| {
                        fresh(s);
                        device(|r| f(r));
                        URandomRng::new().bytes(*n)
                    })
                    .collect();
                c.check(runs.iter().all(|r| r.len() == *n), "a wrong size");
                if !c.failed() {
                    judge_bytes(c, &runs);
                }
                c.nontrivial((n, &name));
                c.outcome("exact and fresh");
            }
        };
        for s in 1..100 {
            run(format!("short{k}.{s}"), c, &|r| r.shorts = vec![(*k, s)]);
            run(format!("short-and-interrupted{k}.{s}"), c, &|r| {
                r.shorts = vec![(*k, s)];
                r.faults = vec![(*k + 1, 4)];
            });
            for t in if thorough { 1..100 } else { 1..6 } {
                run(format!("short{k}.{s}.{t}"), c, &|r| r.shorts = vec![(*k, s), (*k + 1, t)]);
            }
        }
        run(format!("interrupted{k}"), c, &|r| r.faults = vec![(*k, 4)]);
        run(format!("interrupted-twice{k}"), c, &|r| r.faults = vec![(*k, 4), (*k + 1, 4)]);
        if *k == 0 {
            for m in 1..=100 {
                run(format!("all{m}"), c, &|r| r.max_read = m);
            }
        }
    });

    // ------------------------------------------------ histories
    let depth = if thorough { 4 } else { 3 };
    let mut v: Vec<Vec<char>> = vec![vec![]];
    let mut words = vec![];
    for _ in 0..depth {
        let mut next = vec![];
        for w in &v {
            for s in SYMBOLS {
                let mut x = w.clone();
                x.push(s);
                next.push(x);
            }
        }
        words.extend(next.clone());
        v = next;
    }
    chk.each("histories", &words, |w, c| {
        let name: String = w.iter().collect();
        if c.begin(&name) {
            let full = w.len() <= 2;
            let mut runs = vec![];
            for s in 0..if w.len() <= 2 { 12 } else { 6 } {
                match history(pki, w, full, s, &|_| ()) {
                    Ok((v, _)) => runs.push(v),
                    Err(e) => c.fail(e),
                }
            }
            if !c.failed() {
                judge_fresh(c, &runs);
            }
            c.nontrivial(&name);
            c.outcome(format!("{} values", runs.first().map_or(0, |r| r.len())));
        }
    });

    // ------------------------------------------------ every byte of the device
    let mut v = vec![];
    for w in &words {
        if w.len() <= if thorough { 3 } else { 2 } && !(w.len() == 3 && w.iter().any(|s| matches!(s, 'x' | 'p'))) {
            let name: String = w.iter().collect();
            if chk.replaying() && chk.replay_id("dependence").is_none() {
                continue;
            }
            let n = history(pki, w, false, 77, &|_| ()).map(|x| x.1).unwrap_or(0);
            for part in 0..n.div_ceil(50) {
                v.push((w.clone(), name.clone(), part, n));
            }
        }
    }
    let counts: std::sync::Mutex<std::collections::BTreeMap<String, (usize, usize, usize)>> = Default::default();
    chk.each("dependence", &v, |(w, name, part, n), c| {
        let mut base = None;
        for at in part * 50..(part * 50 + 50).min(*n) {
            if !c.begin(format!("{name}.{at}")) {
                continue;
            }
            if base.is_none() {
                match history(pki, w, false, 77, &|_| ()) {
                    Ok(b) => base = Some(b),
                    Err(e) => {
                        c.fail(e);
                        return;
                    }
                }
            }
            let (b, len) = base.as_ref().unwrap();
            let mut any = None;
            let masks = match (thorough, w.len()) {
                (true, 1) => vec![1u8, 2, 4, 8, 16, 32, 64, 128, 0xff],
                (false, 1) => vec![0x01, 0xff],
                _ => vec![0xff],
            };
            for x in masks {
                match history(pki, w, false, 77, &|r| r.xor = vec![(at, x)]) {
                    Err(e) => c.fail(e),
                    // more or less was read, so that everything later comes from elsewhere
                    Ok((_, l)) if l != *len => c.outcome("another amount is read"),
                    Ok((v, _)) => {
                        let changed: Vec<usize> = (0..b.len()).filter(|i| b[*i].1 != v[*i].1).collect();
                        c.check(changed.len() <= 1, format!("{:?} depend on the same byte", changed.iter().map(|i| &b[*i].0).collect::<Vec<_>>()));
                        any = any.or(changed.first().copied());
                    }
                }
            }
            if let Some(i) = any {
                let mut m = lk(&counts);
                let e = m.entry(format!("{name}.{}", b[i].0)).or_default();
                e.0 += 1;
            }
            for (n, _) in b {
                lk(&counts).entry(format!("{name}.{n}")).or_default().1 = *len;
            }
            c.nontrivial((name, at));
            c.outcome(if any.is_some() { "one value depends on the byte" } else { "not used" });
        }
    });
    if !chk.replaying() {
        let m = lk(&counts).clone();
        let list: Vec<(String, usize)> = m.into_iter().map(|(k, e)| (k, e.0)).collect();
        chk.each("enough", &list, |(name, n), c| {
            if c.begin(name) {
                c.check(*n >= 32, format!("only {n} bytes of the device have an influence on {name}"));
                c.outcome("at least 32 bytes");
                c.nontrivial(name);
            }
        });
    }

    // ------------------------------------------------ all values of the bytes of one value
    let list: Vec<(char, usize)> = "cRbn".chars().flat_map(|s| (0..if thorough { 460 } else { 200 }).map(move |k| (s, k))).collect();
    chk.each("bijective", &list, |(s, at), c| {
        if c.begin(format!("{s}.{at}")) {
            let sym = [if *s == 'c' { 'x' } else { *s }];
            let Ok((base, len)) = history(pki, &sym, false, 5, &|_| ()) else {
                c.fail("the history fails");
                return;
            };
            if *at >= len {
                c.outcome("not used");
                return;
            }
            let step = if thorough || *s == 'b' || *s == 'n' { 1 } else { 5 };
            let mut seen: Vec<std::collections::HashSet<Vec<u8>>> = base.iter().map(|b| [b.1.clone()].into()).collect();
            let mut runs = 1;
            for x in (1..=255u8).step_by(step) {
                match history(pki, &sym, false, 5, &|r| r.xor = vec![(*at, x)]) {
                    Ok((v, l)) if l == len => {
                        runs += 1;
                        v.into_iter().enumerate().for_each(|(i, x)| {
                            seen[i].insert(x.1);
                        });
                    }
                    _ => (),
                }
            }
            for (i, b) in base.iter().enumerate() {
                // bytes are used as they are, numbers modulo something, secrets without a few bits
                let plain = ["random", "session", "context", "bytes"].iter().any(|n| b.0.contains(n));
                if plain && seen[i].len() > 1 {
                    c.check(seen[i].len() == runs, format!("{} of {runs} values of the byte make a difference for {}", seen[i].len(), b.0));
                }
            }
            c.nontrivial((s, at));
            c.outcome("all values differ");
        }
    });

    // ------------------------------------------------ secrets of a smaller range
    // The secret of a share cannot be observed; but if it is a number of a smaller range, made from
    // any of the reads of the device, its upper bytes are constant.
    let list: Vec<(char, usize, usize)> = ['x', 's'].iter().flat_map(|s| (0..6).flat_map(move |k| (0..32).map(move |b| (*s, k, b)))).collect();
    chk.each("secrets", &list, |(s, skip, b), c| {
        if c.begin(format!("{s}.{skip}.{b}")) {
            for seed in 0..2 {
                match history(pki, &[*s], false, seed, &|_| ()) {
                    Ok((v, _)) => {
                        for a in 0..(*b).min(2) {
                            seed_rng(seed);
                            for _ in 0..*skip {
                                URandomRng::new().bytes(100);
                            }
                            let Ok(mut k) = between(&mut URandomRng::new(), a, *b) else { continue };
                            k.truncate(32);
                            // all ways to make a scalar of it
                            let mut front = [0; 32];
                            let mut back = [0; 32];
                            front[..k.len()].copy_from_slice(&k);
                            back[32 - k.len()..].copy_from_slice(&k);
                            let mut all = vec![front, back];
                            k.reverse();
                            front[..k.len()].copy_from_slice(&k);
                            back[32 - k.len()..].copy_from_slice(&k);
                            all.extend([front, back]);
                            for x in all.iter().map(x25519_base) {
                                c.check(v.iter().all(|v| v.1 != x), format!("the secret of the key share has only {b} bytes"));
                            }
                        }
                    }
                    Err(e) => c.fail(e),
                }
            }
            c.nontrivial((s, skip, b));
            c.outcome("not a secret of this range");
        }
    });

    // ------------------------------------------------ a device that always returns the same
    let v: Vec<(u8, char)> = (0..=255u8).flat_map(|f| SYMBOLS.map(|s| (f, s))).collect();
    chk.each("constant", &v, |(f, s), c| {
        if c.begin(format!("{s}.{f:02x}")) {
            if let Err(e) = history(pki, &[*s], true, 1, &|r| r.fill = Some(*f)) {
                c.fail(e);
            }
            c.nontrivial((f, s));
            c.outcome("works");
        }
    });

    // ------------------------------------------------ failures of the device
    let list: Vec<(char, i32)> = SYMBOLS.iter().flat_map(|s| [0, 5, 11, 9, 13, 24].map(|e| (*s, e))).collect();
    chk.each("failures", &list, |(s, e), c| {
        for k in 0..8 {
            for open in [false, true] {
                if *e == 0 && open {
                    continue;
                }
                if c.begin(format!("{s}.{}{k}.{e}", if open { "open" } else { "read" })) {
                    let mut all = vec![];
                    for seed in 0..6 {
                        fresh(1);
                        let mut w = World::new(pki);
                        seed_rng(seed);
                        device(|r| {
                            if open {
                                r.open_faults = vec![(k, *e)];
                            } else {
                                r.faults = vec![(k, *e)];
                            }
                        });
                        let mut v = vec![];
                        // a panic or an error is no value
                        let r = caught(|| w.step(*s, true, &mut v));
                        if matches!(r, Ok(Ok(()))) {
                            all.push(v);
                        }
                    }
                    if all.len() > 1 {
                        judge_fresh(c, &all);
                    }
                    c.nontrivial((s, e, k, open));
                    c.outcome(if all.is_empty() { "no value" } else { "fresh values" });
                }
            }
        }
    });
    chk.finish()
}
