//! C02: hash functions, HMAC and HKDF against a reference, over all lengths, all splits and all
//! histories of operations up to a depth.

use anothertls::hash::{sha256 as sut256, sha384 as sut384, HashType, Hkdf, Hmac, Sha256, Sha384, TranscriptHash};
use mc::prelude::*;

fn new(h: H) -> Box<dyn TranscriptHash> {
    match h {
        H::S256 => Box::new(Sha256::new()),
        H::S384 => Box::new(Sha384::new()),
    }
}
fn typ(h: H) -> HashType {
    match h {
        H::S256 => HashType::SHA256,
        H::S384 => HashType::SHA384,
    }
}
fn one(h: H, d: &[u8]) -> Vec<u8> {
    match h {
        H::S256 => sut256(d),
        H::S384 => sut384(d),
    }
}
fn data(n: usize, fill: u8) -> Vec<u8> {
    match fill {
        2 => (0..n).map(|i| mix(i as u64) as u8).collect(),
        f => vec![f; n],
    }
}

fn main() {
    let chk = Check::start(
        "C02",
        "exploration",
        "every length, split, key length, output length and history of operations of the listed ranges is run once on the real code and compared with the reference; distinct by length, split or history",
    );
    let t = chk.thorough;
    for (h, n) in [(H::S256, "sha256"), (H::S384, "sha384")] {
        chk.range(&format!("length-{n}"), if t { 20000 } else { 1200 }, |len, c| {
            if c.begin(format!("{len}")) {
                c.nontrivial((n, len));
                for f in [0, 0xff, 2] {
                    let d = data(len, f);
                    c.check(one(h, &d) == h.hash(&d), format!("digest of {len} bytes {f:02x}"));
                    let mut x = new(h);
                    x.update(&d);
                    c.check(x.finalize() == h.hash(&d), format!("incremental digest of {len} bytes {f:02x}"));
                }
                c.outcome("equal");
            }
        });
        // every value of every byte of two blocks
        chk.range(&format!("bytes-{n}"), 2 * h.block(), |pos, c| {
            if c.begin(format!("{pos}")) {
                c.nontrivial((n, "b", pos));
                for v in 0..256 {
                    let mut d = data(2 * h.block(), 0);
                    d[pos] = v as u8;
                    c.check(one(h, &d) == h.hash(&d), format!("digest with byte {pos} = {v:02x}"));
                }
                c.outcome("equal");
            }
        });
        // lengths at which another byte of the length field is used
        let big: Vec<usize> = vec![8191, 8192, 8193, 65535, 65536, 65537, (1 << 21) - 1, 1 << 21, (1 << 21) + 1];
        chk.each(&format!("big-{n}"), &big, |len, c| {
            if c.begin(format!("{len}")) {
                c.nontrivial((n, "big", len));
                let d = data(*len, 2);
                c.check(one(h, &d) == h.hash(&d), format!("digest of {len} bytes"));
                c.outcome("equal");
            }
        });
        // the length in bits needs more than 32 bits
        chk.each(&format!("huge-{n}"), &[(1usize << 29) - 1, 1 << 29, (1 << 29) + 1], |len, c| {
            if c.begin(format!("{len}")) {
                c.nontrivial((n, "huge", len));
                let (mut x, mut left) = (new(h), *len);
                let part = data(1 << 20, 2);
                while left > 0 {
                    let k = left.min(part.len());
                    x.update(&part[..k]);
                    left -= k;
                }
                c.check(x.finalize() == h.hash_repeated(&part, *len), format!("digest of {len} bytes"));
                c.outcome("equal");
            }
        });
        // all splits in two, and in three
        chk.range(&format!("split-{n}"), if t { 520 } else { 300 }, |len, c| {
            if c.begin(format!("{len}")) {
                let d = data(len, 2);
                let want = h.hash(&d);
                for i in 0..=len {
                    c.nontrivial((n, "split", len, i));
                    let mut x = new(h);
                    x.update(&d[..i]);
                    x.update(&d[i..]);
                    c.check(x.finalize() == want, format!("digest of {len} bytes split at {i}"));
                }
                let mut x = new(h);
                for b in &d {
                    x.update(&[*b]);
                }
                c.check(x.finalize() == want, format!("digest of {len} bytes, byte by byte"));
                c.outcome("equal");
            }
        });
        let top = if t { 3 * h.block() } else { 2 * h.block() + 20 };
        chk.range(&format!("split3-{n}"), top, |i, c| {
            if c.begin(format!("{i}")) {
                let d = data(top + 1, 2);
                let want = h.hash(&d);
                for j in i..=top {
                    c.nontrivial((n, "split3", i, j));
                    let mut x = new(h);
                    x.update(&d[..i]);
                    x.update(&d[i..j]);
                    x.update(&d[j..]);
                    c.check(x.finalize() == want, format!("digest of {} bytes split at {i} and {j}", top + 1));
                }
                c.outcome("equal");
            }
        });
        // histories: update with several sizes, read the digest, continue with a copy, continue with
        // the original after the copy was changed
        let b = h.block();
        let ops: Vec<i64> =
            vec![0, 1, (b - 17) as i64, (b - 9) as i64, (b - 8) as i64, (b - 1) as i64, b as i64, b as i64 + 1, 2 * b as i64, -1, -2, -3];
        let depth = if t { 5 } else { 4 };
        let k = ops.len();
        chk.range(&format!("history-{n}"), k.pow(depth - 1), |w, c| {
            for last in 0..k {
                let word: Vec<i64> = (0..depth as usize).map(|i| if i + 1 == depth as usize { ops[last] } else { ops[w / k.pow(i as u32) % k] }).collect();
                if !c.begin(format!("{word:?}")) {
                    continue;
                }
                c.nontrivial((n, &word));
                let mut x = new(h);
                let mut m: Vec<u8> = vec![];
                let mut others: Vec<(Box<dyn TranscriptHash>, Vec<u8>)> = vec![];
                for (step, op) in word.iter().enumerate() {
                    c.trans(1);
                    match op {
                        -1 => c.check(x.finalize() == h.hash(&m), format!("digest after {} operations of {word:?}", step + 1)),
                        -2 => {
                            // continue with the copy
                            let y = (*x).clone();
                            others.push((std::mem::replace(&mut x, y), m.clone()));
                        }
                        -3 => {
                            let mut y = (*x).clone();
                            y.update(b"something else in the copy");
                            others.push((y, [&m[..], b"something else in the copy"].concat()));
                        }
                        len => {
                            let d: Vec<u8> = (0..*len).map(|i| mix(i as u64 + 1000 * step as u64) as u8).collect();
                            x.update(&d);
                            m.extend(d);
                        }
                    }
                    c.state((n, m.len(), others.len()));
                }
                c.check(x.finalize() == h.hash(&m), format!("digest at the end of {word:?}"));
                c.check(x.finalize() == h.hash(&m), format!("second digest at the end of {word:?}"));
                for (y, m) in &others {
                    c.check(y.finalize() == h.hash(m), format!("digest of a copy made in {word:?}"));
                }
                c.check(x.get_type() == typ(h), "type");
                c.outcome("equal");
            }
        });
        // HMAC
        let msgs = [0usize, 1, 8, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 200];
        chk.range(&format!("hmac-{n}"), if t { 600 } else { 300 }, |kl, c| {
            if c.begin(format!("{kl}")) {
                c.nontrivial((n, "hmac", kl));
                for f in [0xff, 2] {
                    let key = data(kl, f);
                    for ml in msgs {
                        let m = data(ml, 2);
                        let want = hmac(h, &key, &m);
                        let mut x = Hmac::new(typ(h), &key);
                        x.update(&m);
                        c.check(x.result() == want, format!("HMAC, key of {kl} bytes, message of {ml}"));
                        c.check(x.result() == want, "HMAC read twice");
                        x.update(b"more");
                        c.check(x.result() == hmac(h, &key, &[&m[..], b"more"].concat()), "HMAC continued");
                        let mut x = Hmac::new(typ(h), &key);
                        x.update(&m[..ml / 3]);
                        x.update(&[]);
                        x.update(&m[ml / 3..]);
                        c.check(x.result() == want, format!("HMAC in parts, key of {kl} bytes, message of {ml}"));
                    }
                }
                c.outcome("equal");
            }
        });
        chk.range(&format!("hmacmsg-{n}"), 600, |ml, c| {
            if c.begin(format!("{ml}")) {
                c.nontrivial((n, "hmacmsg", ml));
                let m = data(ml, 2);
                for kl in [0, 32, 48, h.block(), h.block() + 1] {
                    let key = data(kl, 0x5c);
                    let mut x = Hmac::new(typ(h), &key);
                    x.update(&m);
                    c.check(x.result() == hmac(h, &key, &m), format!("HMAC, key of {kl} bytes, message of {ml}"));
                }
                c.outcome("equal");
            }
        });
        // HKDF
        chk.range(&format!("extract-{n}"), 300, |sl, c| {
            if c.begin(format!("{sl}")) {
                c.nontrivial((n, "extract", sl));
                for il in [0, 1, 32, 48, 64, 65, 128, 129] {
                    let (salt, ikm) = (data(sl, 2), data(il, 0x0b));
                    let x = Hkdf::extract(typ(h), &salt, &ikm);
                    let prk = hkdf_extract(h, &salt, &ikm);
                    c.check(x.pseudo_random_key == prk, format!("extract, salt of {sl} bytes, input of {il}"));
                    for ol in [0, 1, 16, h.len(), h.len() + 1] {
                        c.check(x.expand(b"info", ol).as_ref() == Some(&hkdf_expand(h, &prk, b"info", ol)), format!("expand to {ol} after extract"));
                    }
                }
                c.outcome("equal");
            }
        });
        let limit = 255 * h.len();
        let prk = data(h.len(), 2);
        let full = hkdf_expand(h, &prk, b"some info", limit);
        let step = if t { 1 } else { 7 };
        chk.range(&format!("expand-{n}"), limit / step + 1, |i, c| {
            let mut ls = vec![i * step];
            if (i * step) % h.len() < step {
                let b = i * step / h.len() * h.len();
                ls.extend([b.max(1) - 1, b, b + 1]);
            }
            if i == 0 {
                ls.extend([limit - 1, limit]);
                ls.extend(1..200);
            }
            for ol in ls {
                if ol <= limit && c.begin(format!("{ol}")) {
                    c.nontrivial((n, "expand", ol));
                    let x = Hkdf::from_prk(typ(h), prk.clone()).expand(b"some info", ol);
                    c.check(x.as_deref() == Some(&full[..ol]), format!("expand to {ol} bytes"));
                    c.outcome("equal");
                }
            }
        });
        chk.range(&format!("toolong-{n}"), 40, |i, c| {
            if c.begin(format!("{i}")) {
                c.nontrivial((n, "toolong", i));
                let ol = limit + 1 + i * i * i;
                let x = caught(|| Hkdf::from_prk(typ(h), prk.clone()).expand(b"some info", ol));
                c.check(matches!(x, Ok(None)), format!("expand to {ol} bytes is more than the standard allows"));
                c.outcome("refused");
            }
        });
        chk.range(&format!("info-{n}"), 300, |il, c| {
            if c.begin(format!("{il}")) {
                c.nontrivial((n, "info", il));
                for kl in [0, 1, h.len(), h.block(), h.block() + 1] {
                    let (prk, info) = (data(kl, 0xaa), data(il, 2));
                    for ol in [1, h.len() - 1, h.len(), 2 * h.len() + 1] {
                        let x = Hkdf::from_prk(typ(h), prk.clone()).expand(&info, ol);
                        c.check(x == Some(hkdf_expand(h, &prk, &info, ol)), format!("expand, key of {kl} bytes, info of {il}, to {ol}"));
                    }
                }
                c.outcome("equal");
            }
        });
    }
    chk.assume("the reference of the harness, checked against published vectors, is correct");
    chk.finish();
}
