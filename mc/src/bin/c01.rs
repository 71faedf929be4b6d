//! C01: the record ciphers against a reference, over a structured space of inputs that is
//! enumerated completely, and every small change of valid messages.

use anothertls::crypto::chacha20::Poly1305;
use anothertls::crypto::{Cipher, CipherSuite};
use mc::prelude::*;

fn cipher(s: u16) -> std::sync::Arc<dyn Cipher + Send + Sync> {
    match CipherSuite::new(s) {
        Ok(c) => match c.get_cipher() {
            Ok(c) => c,
            Err(_) => panic!("no cipher for {s:x}"),
        },
        Err(_) => panic!("suite {s:x} unknown"),
    }
}
fn seal(s: u16, key: &[u8], iv: &[u8], pt: &[u8], aad: &[u8]) -> (Vec<u8>, [u8; 16]) {
    if s == CHACHA {
        chapoly_seal(key, iv, pt, aad)
    } else {
        gcm_seal(key, iv, pt, aad)
    }
}
fn bytes(tag: u64, n: usize) -> Vec<u8> {
    (0..n).map(|i| mix(tag << 32 | i as u64) as u8).collect()
}

/// One message: encrypt, compare with the reference, decrypt
fn both(s: u16, key: &[u8], iv: &[u8], pt: &[u8], aad: &[u8], c: &mut Case) {
    let ci = cipher(s);
    let want = seal(s, key, iv, pt, aad);
    c.count("messages", 1);
    match caught(|| ci.encrypt(key, iv, pt, aad)) {
        Ok(Ok(got)) => {
            if got.0 != want.0 {
                c.fail(format!("ciphertext differs: key {} iv {} aad {} bytes, plaintext {} bytes", to_hex(key), to_hex(iv), aad.len(), pt.len()));
            }
            if got.1 != want.1 {
                c.fail(format!("tag differs: key {} iv {} aad {} bytes, plaintext {} bytes", to_hex(key), to_hex(iv), aad.len(), pt.len()));
            }
        }
        Ok(Err(e)) => c.fail(format!("encryption fails: {e:?}")),
        Err(e) => c.fail(format!("encryption panics: {e}")),
    }
    match caught(|| ci.decrypt(key, iv, &want.0, aad, &want.1)) {
        Ok(Ok(got)) => c.check(got == pt, format!("decryption of {} bytes returns something else", pt.len())),
        Ok(Err(e)) => c.fail(format!("a valid message of {} bytes with {} bytes of associated data is refused: {e:?}", pt.len(), aad.len())),
        Err(e) => c.fail(format!("decryption panics: {e}")),
    }
}
fn refused(s: u16, key: &[u8], iv: &[u8], ct: &[u8], aad: &[u8], tag: &[u8], what: &str, c: &mut Case) {
    let ci = cipher(s);
    c.count("altered", 1);
    match caught(|| ci.decrypt(key, iv, ct, aad, tag)) {
        Ok(Ok(_)) => c.fail(format!("accepted with {what}")),
        Ok(Err(_)) => (),
        Err(e) => c.fail(format!("panics with {what}: {e}")),
    }
}

fn main() {
    let chk = Check::start(
        "C01",
        "exploration",
        "every element of the listed products of lengths, single-byte and single-bit patterns and changes is run once on the real ciphers and compared with the reference; each case is a distinct input and non-trivial by construction (different lengths or bits)",
    );
    let t = chk.thorough;
    for s in SUITES {
        let n = suite_name(s);
        let kl = suite_klen(s);
        let key = bytes(1, kl);
        let iv = bytes(2, 12);
        // all lengths of plaintext and associated data
        let max = if t { 1100 } else { 530 };
        chk.range(&format!("lengths-{n}"), max, |pl, c| {
            for al in 0..35 {
                if c.begin(format!("{pl}-{al}")) {
                    c.nontrivial((s, pl, al));
                    both(s, &key, &iv, &bytes(3, pl), &bytes(4, al), c);
                    c.outcome("equal");
                }
            }
        });
        // long messages around every block boundary up to the largest record
        let top = if t { 1100 } else { 262 };
        chk.range(&format!("long-{n}"), top, |i, c| {
            for d in [-1i64, 0, 1] {
                let len = i as i64 * 64 + d;
                if len >= 0 && c.begin(format!("{len}")) {
                    c.nontrivial((s, len));
                    both(s, &key, &iv, &bytes(5, len as usize), &bytes(6, 5), c);
                    c.outcome("equal");
                }
            }
        });
        // where another byte of the block counter, or of the lengths, is used
        let block = if s == CHACHA { 64 } else { 16 };
        let mut big: Vec<(usize, usize)> = vec![];
        for k in [255usize, 256, 257, 65535, 65536] {
            for d in [0, 1, block - 1] {
                big.push((k * block + d, 5));
            }
        }
        for k in [8191usize, 8192, 8193, 65535, 65536, 65537, (1 << 21) - 1, 1 << 21] {
            big.push((3, k));
            big.push((k, 0));
        }
        if t {
            big.extend([(1 << 24, 0), (0, 1 << 24), ((1 << 24) + 17, (1 << 24) + 1)]);
        }
        chk.each(&format!("big-{n}"), &big, |(pl, al), c| {
            if c.begin(format!("{pl}-{al}")) {
                c.nontrivial((s, "big", pl, al));
                both(s, &key, &iv, &bytes(5, *pl), &bytes(6, *al), c);
                c.outcome("equal");
            }
        });
        chk.range(&format!("everylength-{n}"), if t { 16700 } else { 2200 }, |i, c| {
            if c.begin(format!("{i}")) {
                c.nontrivial((s, "every", i));
                both(s, &key, &iv, &bytes(5, i), &bytes(6, 5), c);
                c.outcome("equal");
            }
        });
        chk.range(&format!("longaad-{n}"), if t { 1100 } else { 300 }, |i, c| {
            if c.begin(format!("{i}")) {
                c.nontrivial((s, "aad", i));
                both(s, &key, &iv, &bytes(5, 20), &bytes(6, i), c);
                c.outcome("equal");
            }
        });
        // every value of every byte of key, nonce and plaintext block
        chk.range(&format!("keybytes-{n}"), kl * 256, |i, c| {
            if c.begin(format!("{i}")) {
                c.nontrivial((s, "key", i));
                let mut k = vec![0; kl];
                k[i / 256] = i as u8;
                both(s, &k, &[0; 12], &[0; 20], &[], c);
                let k: Vec<u8> = k.iter().map(|b| !b).collect();
                both(s, &k, &[0xff; 12], &[0xff; 20], &[0xff; 13], c);
                c.outcome("equal");
            }
        });
        chk.range(&format!("noncebytes-{n}"), 12 * 256, |i, c| {
            if c.begin(format!("{i}")) {
                c.nontrivial((s, "nonce", i));
                let mut v = vec![0; 12];
                v[i / 256] = i as u8;
                both(s, &key, &v, &[0x55; 33], &[1, 2, 3], c);
                let v: Vec<u8> = v.iter().map(|b| !b).collect();
                both(s, &key, &v, &[0x55; 33], &[1, 2, 3], c);
                c.outcome("equal");
            }
        });
        let span = 72;
        chk.range(&format!("plainbits-{n}"), span * 8, |i, c| {
            if c.begin(format!("{i}")) {
                c.nontrivial((s, "pt", i));
                for (len, fill) in [(span, 0), (span, 0xff)] {
                    let mut p = vec![fill; len];
                    p[i / 8] ^= 1 << (i % 8);
                    both(s, &key, &iv, &p, &[], c);
                    both(s, &key, &iv, &[], &p, c);
                }
                c.outcome("equal");
            }
        });
        // pairs of key and nonce from a set of patterns
        let pats: Vec<u8> = vec![0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x55, 0xaa];
        chk.range(&format!("patterns-{n}"), 512, |i, c| {
            if c.begin(format!("{i}")) {
                c.nontrivial((s, "pat", i));
                let (a, b, d) = (pats[i / 64], pats[i / 8 % 8], pats[i % 8]);
                for len in [1, 16, 64, 65] {
                    both(s, &vec![a; kl], &[b; 12], &vec![d; len], &[d; 13], c);
                }
                c.outcome("equal");
            }
        });
        // changes of valid messages
        let lens: Vec<(usize, usize)> = [0usize, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100]
            .iter()
            .flat_map(|p| [(*p, 0), (*p, 5), (*p, 16), (*p, 17)])
            .collect();
        chk.each(&format!("altered-{n}"), &lens, |&(pl, al), c| {
            let (pt, aad) = (bytes(7, pl), bytes(8, al));
            let (ct, tag) = seal(s, &key, &iv, &pt, &aad);
            if c.begin(format!("bits-{pl}-{al}")) {
                c.nontrivial((s, "bits", pl, al));
                for b in 0..pl * 8 {
                    let mut x = ct.clone();
                    x[b / 8] ^= 1 << (b % 8);
                    refused(s, &key, &iv, &x, &aad, &tag, &format!("bit {b} of {pl} bytes of ciphertext changed"), c);
                }
                for b in 0..128 {
                    let mut x = tag;
                    x[b / 8] ^= 1 << (b % 8);
                    refused(s, &key, &iv, &ct, &aad, &x, &format!("bit {b} of the tag changed, {pl} bytes"), c);
                }
                for b in 0..al * 8 {
                    let mut x = aad.clone();
                    x[b / 8] ^= 1 << (b % 8);
                    refused(s, &key, &iv, &ct, &x, &tag, &format!("bit {b} of the associated data changed"), c);
                }
                for b in 0..96 {
                    let mut x = iv.clone();
                    x[b / 8] ^= 1 << (b % 8);
                    refused(s, &key, &x, &ct, &aad, &tag, &format!("bit {b} of the nonce changed, {pl} bytes"), c);
                }
                for b in 0..kl * 8 {
                    let mut x = key.clone();
                    x[b / 8] ^= 1 << (b % 8);
                    refused(s, &x, &iv, &ct, &aad, &tag, &format!("bit {b} of the key changed"), c);
                }
                c.outcome("refused");
            }
            if c.begin(format!("shape-{pl}-{al}")) {
                c.nontrivial((s, "shape", pl, al));
                for k in 0..pl {
                    refused(s, &key, &iv, &ct[..k], &aad, &tag, &format!("ciphertext of {pl} cut to {k} bytes"), c);
                    refused(s, &key, &iv, &ct[pl - k..], &aad, &tag, &format!("last {k} bytes of {pl} only"), c);
                }
                for k in 1..=33 {
                    refused(s, &key, &iv, &[&ct[..], &vec![0; k][..]].concat(), &aad, &tag, &format!("{k} zero bytes appended to {pl}"), c);
                    refused(s, &key, &iv, &ct, &[&aad[..], &vec![0; k][..]].concat(), &tag, &format!("{k} zero bytes appended to the associated data"), c);
                }
                for k in 0..16 {
                    refused(s, &key, &iv, &ct, &aad, &tag[..k], &format!("tag cut to {k} bytes, message of {pl}"), c);
                    refused(s, &key, &iv, &ct, &aad, &tag[16 - k..], &format!("last {k} bytes of the tag, message of {pl}"), c);
                }
                for k in 1..=17 {
                    refused(s, &key, &iv, &ct, &aad, &[&tag[..], &vec![0; k][..]].concat(), &format!("{k} bytes appended to the tag"), c);
                    refused(s, &key, &iv, &ct, &aad, &[&tag[..], &tag[..k.min(16)]].concat(), "tag repeated", c);
                }
                for k in 0..al {
                    refused(s, &key, &iv, &ct, &aad[..k], &tag, &format!("associated data of {al} cut to {k}"), c);
                }
                refused(s, &key, &iv, &ct, &aad, &[0; 16], "tag of zero bytes", c);
                if pl + al > 0 {
                    // the border between associated data and ciphertext moved
                    let all = [&aad[..], &ct[..]].concat();
                    for k in 0..=all.len() {
                        if k != al {
                            refused(s, &key, &iv, &all[k..], &all[..k], &tag, &format!("border moved from {al} to {k}"), c);
                        }
                    }
                }
                c.outcome("refused");
            }
            // two bytes of the tag changed in ways a sloppy comparison misses
            if c.begin(format!("tagpairs-{pl}-{al}")) {
                c.nontrivial((s, "pairs", pl, al));
                for i in 0..16 {
                    for j in 0..16 {
                        if i == j {
                            continue;
                        }
                        for v in [1u8, 0x80, 0xff] {
                            let mut x = tag;
                            x[i] ^= v;
                            x[j] ^= v;
                            refused(s, &key, &iv, &ct, &aad, &x, &format!("bytes {i} and {j} of the tag changed by the same mask"), c);
                            let mut x = tag;
                            x[i] = x[i].wrapping_add(v);
                            x[j] = x[j].wrapping_sub(v);
                            refused(s, &key, &iv, &ct, &aad, &x, &format!("bytes {i} and {j} of the tag with the same sum"), c);
                        }
                        if tag[i] != tag[j] {
                            let mut x = tag;
                            x.swap(i, j);
                            refused(s, &key, &iv, &ct, &aad, &x, &format!("bytes {i} and {j} of the tag exchanged"), c);
                        }
                    }
                }
                let mut x = tag;
                x.reverse();
                refused(s, &key, &iv, &ct, &aad, &x, "tag reversed", c);
                c.outcome("refused");
            }
        });
        // one ciphertext under the other suites
        {
            chk.range(&format!("othersuite-{n}"), 66, |pl, c| {
                if c.begin(format!("{pl}")) {
                    c.nontrivial((s, "other", pl));
                    let pt = bytes(7, pl);
                    for o in SUITES {
                        if o != s {
                            let k = bytes(1, 32);
                            let (ct, tag) = seal(o, &k[..suite_klen(o)], &iv, &pt, &[]);
                            refused(s, &k[..kl], &iv, &ct, &[], &tag, "the ciphertext of another suite", c);
                        }
                    }
                    c.outcome("refused");
                }
            });
        }
    }
    // other lengths of the GCM nonce
    for s in [AES128, AES256] {
        let key = bytes(9, suite_klen(s));
        chk.range(&format!("ivlen-{}", suite_name(s)), if t { 200 } else { 70 }, |il, c| {
            for pl in [0, 1, 16, 17, 40] {
                if il > 0 && c.begin(format!("{il}-{pl}")) {
                    c.nontrivial((s, "iv", il, pl));
                    both(s, &key, &bytes(10, il), &bytes(11, pl), &bytes(12, 5), c);
                    c.outcome("equal");
                }
            }
        });
        // the 32 bit counter wraps inside of the message
        chk.range(&format!("wrap-{}", suite_name(s)), 12, |i, c| {
            if c.begin(format!("{i}")) {
                c.nontrivial((s, "wrap", i));
                for hi in [0u128, 1 << 32, u128::MAX << 32] {
                    let j0 = hi | (0xffff_ffffu128 - i as u128);
                    let iv = gcm_iv_for(&key, j0);
                    for pl in [1, 16, 17, 200] {
                        both(s, &key, &iv, &bytes(13, pl), &[], c);
                    }
                }
                c.outcome("equal");
            }
        });
    }
    // Poly1305: keys and messages that reach all carries
    let mut rs: Vec<[u8; 16]> = vec![[0; 16], [0xff; 16], [1; 16], [0x80; 16]];
    for i in 0..16 {
        for v in [1u8, 0x80, 0xfc, 0xff] {
            let mut r = [0u8; 16];
            r[i] = v;
            rs.push(r);
        }
    }
    let mut ss: Vec<[u8; 16]> = vec![[0; 16], [0xff; 16], [0x80; 16]];
    for i in [0, 7, 8, 15] {
        let mut r = [0u8; 16];
        r[i] = 1;
        ss.push(r);
    }
    let mut blocks: Vec<[u8; 16]> = vec![[0; 16], [0xff; 16], [1; 16], [0x80; 16], [0xfe; 16]];
    for v in [0xfau8, 0xfb, 0xfc, 0xfd, 0xfe] {
        let mut b = [0xffu8; 16];
        b[0] = v;
        blocks.push(b);
    }
    for v in [1u8, 2, 4, 5] {
        let mut b = [0u8; 16];
        b[0] = v;
        blocks.push(b);
    }
    let depth = if t { 3 } else { 2 };
    chk.each("poly1305", &rs, |r, c| {
        for (si, s) in ss.iter().enumerate() {
            if !c.begin(format!("{}-{si}", to_hex(r))) {
                continue;
            }
            c.nontrivial((r, si));
            let key = [&r[..], &s[..]].concat();
            let mut msgs: Vec<Vec<u8>> = vec![vec![]];
            let mut from = 0;
            for _ in 0..depth {
                let to = msgs.len();
                for i in from..to {
                    for b in &blocks {
                        let m = [&msgs[i][..], b].concat();
                        msgs.push(m);
                    }
                }
                from = to;
            }
            for m in &msgs {
                for cut in [0, 1, 15] {
                    if m.len() < cut {
                        continue;
                    }
                    let m = &m[..m.len() - cut];
                    match caught(|| Poly1305::mac(&key, m)) {
                        Ok(x) => c.check(x == poly1305(&key, m), format!("Poly1305 of {} with key {} differs", to_hex(m), to_hex(&key))),
                        Err(e) => c.fail(format!("Poly1305 panics: {e}")),
                    }
                    c.count("messages", 1);
                }
            }
            c.outcome("equal");
        }
    });
    chk.assume("the reference ciphers of the harness (checked against published vectors at every start) are correct");
    chk.assume("keys and texts outside of the enumerated patterns behave like those inside");
    chk.finish();
}
