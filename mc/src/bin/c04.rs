//! C04: ECDSA over P-256 against the reference: all pairs of edge values of the two scalars of
//! the verification equation, keys, digests, nonces, encodings and their single changes.

use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, Point, PrivateKey, PublicKey, Signature};
use anothertls::utils::bytes::to_ibig_be;
use ibig::IBig;
use mc::prelude::*;

fn int(u: &U) -> IBig {
    to_ibig_be(&u_to_be(u))
}
fn small(x: u64) -> U {
    [x, 0, 0, 0]
}
fn pow2(i: usize) -> U {
    let mut u = [0; 4];
    u[i / 64] = 1 << (i % 64);
    u
}
fn rnd(seed: u64) -> U {
    std::array::from_fn(|i| mix(seed * 4 + i as u64) >> (if i == 3 { 1 } else { 0 }))
}
fn nsub(x: u64) -> U {
    u_sub(&p256().n.m, &small(x)).0
}
fn nadd(x: u64) -> U {
    // no carry into the higher words for small x
    let mut u = p256().n.m;
    u[0] += x;
    u
}
/// a * b, a / b, a + b, a - b modulo n
fn mul(a: &U, b: &U) -> U {
    let n = &p256().n;
    n.from(&n.mul(&n.to(a), &n.to(b)))
}
fn div(a: &U, b: &U) -> U {
    let n = &p256().n;
    n.from(&n.mul(&n.to(a), &n.inv(&n.to(b))))
}
fn neg(q: &(U, U)) -> (U, U) {
    (q.0, u_sub(&p256().f.m, &q.1).0)
}
/// A point with this x, if there is one
fn lift(x: &U) -> Option<(U, U)> {
    let f = &p256().f;
    if u_cmp(x, &f.m) != std::cmp::Ordering::Less {
        return None;
    }
    let xm = f.to(x);
    let b = f.to(&u_hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"));
    let x3 = f.mul(&f.mul(&xm, &xm), &xm);
    let ax = f.add(&f.add(&xm, &xm), &xm);
    let v = f.add(&f.sub(&x3, &ax), &b);
    // (p + 1) / 4
    let e = u_hex("3fffffffc0000000400000000000000000000000400000000000000000000000");
    let y = f.from(&f.pow(&v, &e));
    let q = (*x, y);
    p256().on_curve(&q).then_some(q)
}

fn sut_verify_int(q: &(IBig, IBig), z: &[u8], r: &IBig, s: &IBig) -> Result<bool, String> {
    caught(|| {
        let k = PublicKey::new(Point::new(q.0.clone(), q.1.clone()), Curve::secp256r1());
        Ecdsa::verify(k, &Signature::new(s.clone(), r.clone()), z)
    })
}
fn sut_verify(q: &(U, U), z: &[u8], r: &U, s: &U) -> Result<bool, String> {
    sut_verify_int(&(int(&q.0), int(&q.1)), z, &int(r), &int(s))
}
/// Compare the verdicts
fn same(c: &mut Case, what: &str, q: &(U, U), z: &U, r: &U, s: &U) -> bool {
    let z = u_to_be(z);
    let want = p256().verify(q, &z, r, s);
    c.count(if want { "accepted" } else { "rejected" }, 1);
    match sut_verify(q, &z, r, s) {
        Ok(got) if got == want => (),
        got => c.fail(format!(
            "{what}: verification gives {got:?}, not {want}: r {} s {} digest {} key {} {}",
            to_hex(&u_to_be(r)),
            to_hex(&u_to_be(s)),
            to_hex(&z),
            to_hex(&u_to_be(&q.0)),
            to_hex(&u_to_be(&q.1))
        )),
    }
    want
}

/// The signature for which verification computes a G + b Q
fn make(q: &(U, U), a: &U, b: &U) -> Option<(U, U, U)> {
    let p = p256();
    let x = p.add(&p.mul(&Some(p.g), a), &p.mul(&Some(*q), b))?.0;
    let r = p.n.red(&x);
    if u_is_zero(&r) {
        return None;
    }
    let s = div(&r, b);
    Some((mul(a, &s), r, s))
}

/// Let the next 100 random bytes give this nonce (if the generator is the usual one)
fn force_nonce(k: &U) {
    let v = u_sub(k, &small(256)).0;
    with_rng(|r| {
        r.forced.extend([0u8; 18]);
        r.forced.extend(u_to_be(&v));
        r.forced.extend([0u8; 50]);
    })
}

/// Sign with the code under test and judge the result
fn sign(c: &mut Case, d: &U, q: &(U, U), z: &U, nonces: &[U], s_want: Option<&U>) {
    seed_rng(77);
    nonces.iter().for_each(force_nonce);
    let zb = u_to_be(z);
    let r = caught(|| Ecdsa::urandom().sign(&PrivateKey::new(Curve::secp256r1(), int(d)), &zb).map(|s| (s.to_der(), s)));
    let (der, sig) = match r {
        Ok(Ok(x)) => x,
        e => return c.fail(format!("signing fails: {:?}", e.map(|e| e.map(|_| ())))),
    };
    match sig_parse(&der) {
        None => c.fail(format!("the signature is not DER: {}", to_hex(&der))),
        Some((r, s)) => {
            c.check(int(&r) == sig.r && int(&s) == sig.s, "the encoding has other numbers");
            c.check(der == sig_der(&r, &s), "not the unique encoding");
            c.check(p256().verify(q, &zb, &r, &s), format!("a signature which does not verify: {} for {}", to_hex(&der), to_hex(&zb)));
            if let Some(w) = s_want {
                c.count(if s == *w { "as predicted" } else { "other nonce" }, 1);
            }
        }
    }
}

fn main() {
    let chk = Check::start(
        "C04",
        "exploration",
        "every combination of the listed keys, digests, nonces, scalars of the verification equation and encodings is evaluated on the real code, and the verdict compared with FIPS 186; a case is one combination",
    );
    let t = chk.thorough;
    let p = p256();
    let n = p.n.m;

    // --- verification
    let mut keys: Vec<(String, (U, U))> = vec![];
    for i in [1, 2, 3, 7] {
        let q = p.public(&small(i));
        keys.push((format!("{i}G"), q));
        keys.push((format!("-{i}G"), neg(&q)));
    }
    for x in 0..12u64 {
        if let Some(q) = lift(&small(x)) {
            keys.push((format!("x{x}"), q));
            keys.push((format!("x{x}n"), neg(&q)));
        }
        if let Some(q) = lift(&u_sub(&p.f.m, &small(x)).0) {
            keys.push((format!("p-{x}"), q));
        }
        if let Some(q) = lift(&nadd(x)) {
            keys.push((format!("n+{x}"), q));
        }
    }
    keys.push(("half".into(), p.public(&u_hex("7fffffff800000007fffffffffffffffde737d56d38bcf4279dce5617e3192a9"))));
    for i in 0..4 {
        keys.push((format!("rnd{i}"), p.public(&rnd(100 + i))));
    }
    let mut sc: Vec<U> = vec![small(1), small(2), small(3), nsub(1), nsub(2), pow2(64), pow2(128), pow2(255), rnd(1)];
    sc.push(u_hex("7fffffff800000007fffffffffffffffde737d56d38bcf4279dce5617e3192a9"));
    sc.push(u_hex("7fffffff800000007fffffffffffffffde737d56d38bcf4279dce5617e3192a8"));
    if t {
        sc.extend([small(4), small(5), small(255), small(256), pow2(32), pow2(192), rnd(2), nsub(3)]);
    }
    let mut a_vals = sc.clone();
    a_vals.push(small(0));
    let total = keys.len() * a_vals.len() * sc.len();
    chk.range("scalars", total, |i, c| {
        let (k, a, b) = (&keys[i / (a_vals.len() * sc.len())], &a_vals[i / sc.len() % a_vals.len()], &sc[i % sc.len()]);
        let id = format!("{}-{}-{}", k.0, to_hex(&u_to_be(a)), to_hex(&u_to_be(b)));
        if c.begin(&id) {
            c.nontrivial(&id);
            match make(&k.1, a, b) {
                Some((z, r, s)) => {
                    let ok = same(c, "constructed signature", &k.1, &z, &r, &s);
                    c.check(ok, "harness: the constructed signature is not valid");
                    // the digest is not reduced
                    if let (false, z2) = (z[3] == u64::MAX, u_sub(&z, &u_sub(&[0; 4], &n).0)) {
                        if z2.1 == 1 {
                            same(c, "digest above n", &k.1, &z2.0, &r, &s);
                        }
                    }
                    if (i % 7 == 0 || t) && !u_is_zero(&z) {
                        same(c, "negated key", &neg(&k.1), &z, &r, &s);
                        same(c, "negated s", &k.1, &z, &r, &u_sub(&n, &s).0);
                        same(c, "swapped", &k.1, &z, &s, &r);
                    }
                    c.outcome("point");
                }
                None => {
                    // infinity: never valid, for any r
                    for r in [small(1), nsub(1), p.n.red(&k.1 .0), rnd(9)] {
                        if u_is_zero(&r) {
                            continue;
                        }
                        let s = div(&r, b);
                        let ok = same(c, "point at infinity", &k.1, &mul(a, &s), &r, &s);
                        c.check(!ok, "harness: infinity accepted");
                    }
                    c.outcome("infinity");
                }
            }
        }
    });
    // the x coordinate is not less than n: r is x - n
    chk.range("x-above-n", 64, |i, c| {
        if let Some(pt) = lift(&nadd(i as u64)) {
            if i > 0 && c.begin(format!("{i}")) {
                c.nontrivial(("xn", i));
                let r = small(i as u64);
                for (j, s) in [small(5), rnd(40 + i as u64), nsub(7)].iter().enumerate() {
                    let z = p.n.red(&rnd(60 + j as u64));
                    // Q = (s R - z G) / r
                    let sr = p.mul(&Some(pt), s).unwrap();
                    let zg = p.mul(&Some(p.g), &z).unwrap();
                    let q = p.mul(&p.add(&Some(sr), &Some(neg(&zg))), &div(&small(1), &r)).unwrap();
                    let ok = same(c, "x above n", &q, &z, &r, s);
                    c.check(ok, "harness: constructed signature with x above n");
                    // r itself may not be above n
                    same(c, "r above n", &q, &z, &nadd(i as u64), s);
                    if s[1] == 0 {
                        same(c, "s above n", &q, &z, &r, &nadd(s[0]));
                    }
                }
                c.outcome("x above n");
            }
        }
    });
    // r and s out of range
    let d0 = rnd(7);
    let q0 = p.public(&d0);
    let z0 = rnd(8);
    let (r0, s0) = p.sign(&d0, &u_to_be(&z0), &rnd(9));
    let mut edge: Vec<(String, IBig)> = vec![("0".into(), IBig::from(0))];
    for i in 0..4u64 {
        edge.push((format!("n+{i}"), int(&nadd(i))));
        edge.push((format!("n-{i}"), int(&nsub(i))));
        edge.push((format!("{i}"), IBig::from(i)));
        edge.push((format!("-{i}"), -IBig::from(i)));
    }
    for (name, v) in [("r", &r0), ("s", &s0)] {
        edge.push((name.into(), int(v)));
        edge.push((format!("-{name}"), -int(v)));
        edge.push((format!("{name}-n"), int(v) - int(&n)));
        for m in 1..4 {
            edge.push((format!("{name}+{m}n"), int(v) + int(&n) * IBig::from(m)));
        }
        edge.push((format!("n-{name}"), int(&n) - int(v)));
        edge.push((format!("{name}+2^256"), int(v) + (IBig::from(1) << 256)));
        edge.push((format!("{name}+2^512"), int(v) + (IBig::from(1) << 512)));
    }
    edge.push(("2^256-1".into(), (IBig::from(1) << 256) - IBig::from(1)));
    edge.push(("p".into(), int(&p.f.m)));
    chk.range("range", edge.len() * edge.len(), |i, c| {
        let (r, s) = (&edge[i / edge.len()], &edge[i % edge.len()]);
        if c.begin(format!("r={},s={}", r.0, s.0)) {
            c.nontrivial(("range", i));
            let want = r.1 == int(&r0) && (s.1 == int(&s0) || s.1 == int(&n) - int(&s0));
            let got = sut_verify_int(&(int(&q0.0), int(&q0.1)), &u_to_be(&z0), &r.1, &s.1);
            c.check(got == Ok(want), format!("verification gives {got:?}"));
            c.outcome(format!("{got:?}"));
        }
    });
    // every bit of everything
    chk.range("bits", 256 * 5, |i, c| {
        let (bit, what) = (i % 256, i / 256);
        if c.begin(format!("{what}-{bit}")) {
            c.nontrivial(("bits", i));
            let mut v = [r0, s0, z0, q0.0, q0.1];
            v[what][bit / 64] ^= 1 << (bit % 64);
            let ok = same(c, "one bit changed", &(v[3], v[4]), &v[2], &v[0], &v[1]);
            c.check(!ok, "harness: changed bit accepted");
            c.outcome("rejected");
        }
    });
    // keys which are not on the curve or not reduced
    let f = &p.f.m;
    let mut badkeys: Vec<(String, (IBig, IBig))> = vec![
        ("zero".into(), (IBig::from(0), IBig::from(0))),
        ("x+p".into(), (int(&q0.0) + int(f), int(&q0.1))),
        ("y+p".into(), (int(&q0.0), int(&q0.1) + int(f))),
        ("x-p".into(), (int(&q0.0) - int(f), int(&q0.1))),
        ("y-p".into(), (int(&q0.0), int(&q0.1) - int(f))),
        ("-x".into(), (int(f) - int(&q0.0), int(&q0.1))),
        ("swapped".into(), (int(&q0.1), int(&q0.0))),
        ("n".into(), (int(&n), int(&n))),
        ("p".into(), (int(f), int(f))),
        ("x0".into(), (int(&q0.0), IBig::from(0))),
        ("y0".into(), (IBig::from(0), int(&q0.1))),
    ];
    for i in 1..20 {
        badkeys.push((format!("{i}"), (IBig::from(i), IBig::from(1))));
        badkeys.push((format!("y+{i}"), (int(&q0.0), int(&q0.1) + IBig::from(i))));
    }
    chk.range("bad-key", badkeys.len() * 4, |i, c| {
        let (k, v) = (&badkeys[i / 4], i % 4);
        if c.begin(format!("{}-{v}", k.0)) {
            c.nontrivial(("bk", i));
            // a forger knows the result of the equation for this key if the key is ignored
            let (z, r, s) = match v {
                0 => (z0, r0, s0),
                1 => (r0, p.n.red(&p.g.0), p.n.red(&p.g.0)),
                2 => {
                    // z / s = 1, r = x(G), the key does not contribute
                    let r = p.n.red(&p.g.0);
                    (s0, r, s0)
                }
                _ => ([0; 4], r0, r0),
            };
            let got = sut_verify_int(&k.1, &u_to_be(&z), &int(&r), &int(&s));
            let neg_y = k.0 == "y-p" || k.0 == "x-p";
            // negative numbers can not come out of any parser of the library
            c.check(got == Ok(false) || neg_y && got.is_ok(), format!("key {}: {got:?}", k.0));
            c.outcome(format!("{got:?}"));
        }
    });
    // a key whose coordinates are not reduced is no key, though the reduced one verifies
    chk.range("unreduced-key", keys.len() * 6, |i, c| {
        let (k, v) = (&keys[i / 6], i % 6);
        if c.begin(format!("{}-{v}", k.0)) {
            c.nontrivial(("uk", i));
            if let Some((z, r, s)) = make(&k.1, &rnd(70 + v as u64), &rnd(80)) {
                let add = |u: &U, n: u64| int(u) + int(f) * IBig::from(n);
                let q = match v {
                    0 => (add(&k.1 .0, 0), add(&k.1 .1, 0)),
                    1 => (add(&k.1 .0, 1), add(&k.1 .1, 0)),
                    2 => (add(&k.1 .0, 0), add(&k.1 .1, 1)),
                    3 => (add(&k.1 .0, 1), add(&k.1 .1, 1)),
                    4 => (add(&k.1 .0, 2), add(&k.1 .1, 0)),
                    _ => (add(&k.1 .0, 0), add(&k.1 .1, 2)),
                };
                let got = sut_verify_int(&q, &u_to_be(&z), &int(&r), &int(&s));
                c.check(got == Ok(v == 0), format!("key {}, variant {v}: {got:?}", k.0));
                c.outcome(format!("{got:?}"));
            }
        }
    });
    // other keys and digests
    chk.range("cross", 24 * 24, |i, c| {
        let (a, b) = (i as u64 / 24, i as u64 % 24);
        if c.begin(format!("{a}-{b}")) {
            c.nontrivial(("cross", i));
            let d = rnd(200 + a);
            let (r, s) = p.sign(&d, &u_to_be(&rnd(300 + a)), &rnd(400 + a));
            let x = same(c, "key", &p.public(&rnd(200 + b)), &rnd(300 + a), &r, &s);
            let y = same(c, "digest", &p.public(&d), &rnd(300 + b), &r, &s);
            c.check(x == (a == b) && y == (a == b), "harness");
            c.outcome(if a == b { "accepted" } else { "rejected" });
        }
    });

    // --- encodings: accepted exactly if the strict parser accepts and the numbers verify
    let mut base: Vec<(U, U, U)> = vec![(z0, r0, s0)];
    for s in [small(1), small(127), small(128), small(255), small(256), pow2(247), pow2(248), nsub(1)] {
        // z = s k - r d
        let k = rnd(9);
        let z = p.n.sub(&mul(&s, &k), &mul(&r0, &d0));
        base.push((z, r0, s));
    }
    for (bi, (z, r, s)) in base.iter().enumerate() {
        let good = sig_der(r, s);
        let mut enc: Vec<(String, Vec<u8>)> = vec![("good".into(), good.clone())];
        for i in 0..good.len() {
            for v in 0..=255u8 {
                let header = i < 6 || good[i] < 8 || i >= good.len() - 3 || t;
                if v != good[i] && (header || v == good[i] ^ 0x80 || v == 0) {
                    let mut x = good.clone();
                    x[i] = v;
                    enc.push((format!("{i}={v:02x}"), x));
                }
            }
            enc.push((format!("cut{i}"), good[..i].to_vec()));
            for v in [0u8, 1, 2, 0x30, 0x80, 0xff] {
                let mut x = good.clone();
                x.insert(i, v);
                enc.push((format!("ins{i}-{v:02x}"), x.clone()));
                x[1] = x[1].wrapping_add(1);
                enc.push((format!("insl{i}-{v:02x}"), x));
            }
            let mut x = good.clone();
            x.remove(i);
            enc.push((format!("del{i}"), x.clone()));
            if x.len() > 2 && i > 1 {
                x[1] = x[1].wrapping_sub(1);
                enc.push((format!("dell{i}"), x));
            }
        }
        let (rb, sb) = (der_uint(&u_to_be(r)), der_uint(&u_to_be(s)));
        let pad = |b: &[u8], k: usize| der(2, &[&vec![0; k][..], &b[2..]].concat());
        for k in 1..4 {
            enc.push((format!("r00x{k}"), der(0x30, &[pad(&rb, k), sb.clone()].concat())));
            enc.push((format!("s00x{k}"), der(0x30, &[rb.clone(), pad(&sb, k)].concat())));
        }
        // other forms of the lengths
        let body = [rb.clone(), sb.clone()].concat();
        for l in [vec![0x81, body.len() as u8], vec![0x82, 0, body.len() as u8], vec![0x84, 0, 0, 0, body.len() as u8], vec![0x80], vec![0x85, 0, 0, 0, 0, body.len() as u8]] {
            enc.push((format!("len{}", to_hex(&l)), [&[0x30][..], &l, &body].concat()));
        }
        let long = [&[2, 0x81][..], &rb[1..], &sb].concat();
        enc.push(("len-r".into(), der(0x30, &long)));
        let long = [&rb[..], &[2, 0x81], &sb[1..]].concat();
        enc.push(("len-s".into(), der(0x30, &long)));
        enc.push(("indefinite".into(), [&[0x30, 0x80][..], &body, &[0, 0]].concat()));
        enc.push(("trailing".into(), [&good[..], &[0]].concat()));
        enc.push(("trailing-in".into(), der(0x30, &[&body[..], &[0]].concat())));
        enc.push(("null-in".into(), der(0x30, &[&body[..], &[5, 0]].concat())));
        enc.push(("third".into(), der(0x30, &[&body[..], &sb].concat())));
        enc.push(("one".into(), der(0x30, &rb)));
        enc.push(("none".into(), der(0x30, &[])));
        enc.push(("empty-r".into(), der(0x30, &[&[2, 0][..], &sb].concat())));
        enc.push(("empty-s".into(), der(0x30, &[&rb[..], &[2, 0]].concat())));
        enc.push(("zeros".into(), der(0x30, &[2, 1, 0, 2, 1, 0])));
        enc.push(("negative".into(), der(0x30, &[2, 1, 0xff, 2, 1, 0xff])));
        enc.push(("swapped".into(), der(0x30, &[sb.clone(), rb.clone()].concat())));
        enc.push(("twice".into(), [good.clone(), good.clone()].concat()));
        enc.push(("huge".into(), der(0x30, &[der(2, &[1; 3000]), sb.clone()].concat())));
        enc.push(("empty".into(), vec![]));
        chk.each(&format!("encoding-{bi}"), &enc, |(name, e), c| {
            if c.begin(name) {
                c.nontrivial((bi, e));
                let zb = u_to_be(z);
                let want = sig_parse(e).is_some_and(|(r, s)| p.verify(&q0, &zb, &r, &s));
                let got = caught(|| match Signature::from_der(e) {
                    Ok((s, used)) => {
                        let v = Ecdsa::verify(PublicKey::new(Point::new(int(&q0.0), int(&q0.1)), Curve::secp256r1()), &s, &zb);
                        v && used == e.len()
                    }
                    Err(_) => false,
                });
                c.check(got == Ok(want), format!("accepted {got:?}, not {want}: {}", to_hex(e)));
                c.outcome(format!("{got:?}"));
            }
        });
    }

    // --- signing
    let mut ds: Vec<U> = vec![small(1), small(2), small(3), small(255), small(256), nsub(1), nsub(2), pow2(128), pow2(248), pow2(255), d0];
    if t {
        ds.extend((0..32).map(|i| pow2(8 * i)));
    }
    let zs: Vec<U> = vec![[0; 4], small(1), nsub(1), n, nadd(1), [u64::MAX; 4], pow2(255), z0];
    let ks: Vec<U> = vec![small(257), nsub(1), nsub(2), nadd(1), nadd(2), pow2(255), [u64::MAX; 4], rnd(9), small(300), pow2(64)];
    let dq: Vec<(U, (U, U))> = ds.iter().map(|d| (*d, p.public(d))).collect();
    chk.range("sign", dq.len() * zs.len() * ks.len(), |i, c| {
        let (d, z, k) = (&dq[i / (zs.len() * ks.len())], &zs[i / ks.len() % zs.len()], &ks[i % ks.len()]);
        let id = format!("{}-{}-{}", to_hex(&u_to_be(&d.0)), to_hex(&u_to_be(z)), to_hex(&u_to_be(k)));
        if c.begin(&id) {
            c.nontrivial(&id);
            sign(c, &d.0, &d.1, z, &[*k], None);
            c.outcome("valid");
        }
    });
    // nonces which give zero must not be used: k = n, and the digest for which s is zero
    chk.range("sign-zero", dq.len() * 4, |i, c| {
        let (d, v) = (&dq[i / 4], i % 4);
        if c.begin(format!("{}-{v}", to_hex(&u_to_be(&d.0)))) {
            c.nontrivial(("sz", i));
            let k = rnd(9);
            let r = p.n.red(&p.public(&k).0);
            let z = p.n.sub(&[0; 4], &mul(&r, &d.0));
            match v {
                0 => sign(c, &d.0, &d.1, &z0, &[n], None),
                1 => sign(c, &d.0, &d.1, &z, &[k], None),
                2 => sign(c, &d.0, &d.1, &z, &[n, n, k, k, n], None),
                _ => sign(c, &d.0, &d.1, &z, &[u_sub(&n, &k).0], None),
            }
            c.outcome("valid");
        }
    });
    // all lengths and leading bits of s
    let kr = rnd(9);
    let rr = p.n.red(&p.public(&kr).0);
    chk.range("sign-length", 256 * 3, |i, c| {
        let (bit, v) = (i / 3, i % 3);
        if c.begin(format!("{bit}-{v}")) {
            let one = pow2(bit);
            let s = p.n.red(&match v {
                0 => one,
                1 => u_sub(&one, &small(1)).0,
                _ => [one[0] | 0x5a, one[1], one[2], one[3]],
            });
            if u_is_zero(&s) {
                return;
            }
            c.nontrivial(("sl", i));
            let z = p.n.sub(&mul(&s, &kr), &mul(&rr, &d0));
            sign(c, &d0, &q0, &z, &[kr], Some(&s));
            c.outcome("valid");
        }
    });
    // leading zero bytes and leading bits of r
    let mut rk: Vec<(String, U, U)> = vec![];
    let classes: [(&str, fn(&[u8; 32]) -> bool); 6] = [
        ("00-0", |b| b[0] == 0 && b[1] < 0x80),
        ("00-8", |b| b[0] == 0 && b[1] >= 0x80),
        ("7f", |b| b[0] == 0x7f),
        ("80", |b| b[0] == 0x80),
        ("ff", |b| b[0] == 0xfe),
        ("01", |b| b[0] == 1),
    ];
    let mut i = 0;
    while rk.len() < classes.len() {
        i += 1;
        let k = rnd(5000 + i);
        let r = p.n.red(&p.public(&k).0);
        if let Some((n, _)) = classes.iter().find(|c| c.1(&u_to_be(&r)) && !rk.iter().any(|x| x.0 == c.0)) {
            rk.push((n.to_string(), k, r));
        }
    }
    let svals: Vec<U> = vec![small(1), small(0x80), small(0x7f), small(0x8000), pow2(239), pow2(240), pow2(247), pow2(248), pow2(254), pow2(255), nsub(1)];
    chk.range("sign-classes", rk.len() * svals.len(), |i, c| {
        let (rk, s) = (&rk[i / svals.len()], &svals[i % svals.len()]);
        if c.begin(format!("{}-{}", rk.0, to_hex(&u_to_be(s)))) {
            c.nontrivial(("sc", i));
            let z = p.n.sub(&mul(s, &rk.1), &mul(&rk.2, &d0));
            sign(c, &d0, &q0, &z, &[rk.1], Some(s));
            c.outcome("valid");
        }
    });
    // random streams
    chk.range("sign-random", if t { 6000 } else { 1200 }, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("sr", i));
            let d = p.n.red(&rnd(10_000 + i as u64));
            let q = p.public(&d);
            sign(c, &d, &q, &rnd(20_000 + i as u64), &[rnd(30_000 + i as u64)], None);
            c.outcome("valid");
        }
    });
    // the public key of a private key
    chk.range("public", 256 + 40, |i, c| {
        if c.begin(format!("{i}")) {
            c.nontrivial(("pk", i));
            let d = if i < 256 { p.n.red(&pow2(i)) } else if i < 276 { small(i as u64 - 255) } else { nsub(i as u64 - 275) };
            let want = p.public(&d);
            let got = caught(|| {
                let k = PrivateKey::new(Curve::secp256r1(), int(&d)).get_public_key();
                (k.point.x, k.point.y)
            });
            c.check(got == Ok((int(&want.0), int(&want.1))), format!("public key of {}", to_hex(&u_to_be(&d))));
            c.outcome("equal");
        }
    });
    chk.assume("the reference P-256 arithmetic passes the vectors of RFC 6979");
    chk.finish();
}
