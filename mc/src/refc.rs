//! Reference cryptography, written from the standards and independent of the code under test.

// ------------------------------------------------------------------ SHA-2 (FIPS 180-4)

fn primes(n: usize) -> Vec<u64> {
    let mut p: Vec<u64> = vec![];
    let mut c = 2u64;
    while p.len() < n {
        if p.iter().all(|q| c % q != 0) {
            p.push(c);
        }
        c += 1;
    }
    p
}
/// Floor of the fractional part of the n-th root (2 or 3) of p times 2^bits
fn root_frac(p: u64, n: u32, bits: u32) -> u64 {
    // binary search x with x^n <= p * 2^(n*bits)
    use ibig::{ubig, UBig};
    let target = UBig::from(p) << (n as usize * bits as usize);
    let mut lo = ubig!(0);
    let mut hi = UBig::from(p) << bits as usize;
    while &hi - &lo > ubig!(1) {
        let mid: UBig = (&lo + &hi) >> 1;
        if mid.pow(n as usize) <= target {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    let m = lo % (UBig::from(1u8) << bits as usize);
    u64::try_from(m).unwrap()
}

struct Consts {
    k256: Vec<u32>,
    k512: Vec<u64>,
    h256: Vec<u32>,
    h384: Vec<u64>,
}
fn consts() -> &'static Consts {
    static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        Consts {
            k256: p[..64].iter().map(|p| root_frac(*p, 3, 32) as u32).collect(),
            k512: p.iter().map(|p| root_frac(*p, 3, 64)).collect(),
            h256: p[..8].iter().map(|p| root_frac(*p, 2, 32) as u32).collect(),
            h384: p[8..16].iter().map(|p| root_frac(*p, 2, 64)).collect(),
        }
    })
}

pub fn sha256(data: &[u8]) -> Vec<u8> {
    sha256_repeated(data, data.len())
}
/// `part` again and again (a whole number of blocks, if more than once), cut at `len` bytes
fn sha256_repeated(part: &[u8], len: usize) -> Vec<u8> {
    let mut h: Vec<u32> = consts().h256.clone();
    let mut left = len;
    while left > part.len() {
        assert!(part.len() % 64 == 0 && !part.is_empty());
        sha256_blocks(&mut h, part);
        left -= part.len();
    }
    let mut m = part[..left].to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(((len as u64) * 8).to_be_bytes());
    sha256_blocks(&mut h, &m);
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn sha256_blocks(h: &mut [u32], m: &[u8]) {
    let c = consts();
    for b in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v: [u32; 8] = h[..].try_into().unwrap();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k256[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
}

pub fn sha384(data: &[u8]) -> Vec<u8> {
    sha384_repeated(data, data.len())
}
/// `part` again and again (a whole number of blocks, if more than once), cut at `len` bytes
fn sha384_repeated(part: &[u8], len: usize) -> Vec<u8> {
    let mut h: Vec<u64> = consts().h384.clone();
    let mut left = len;
    while left > part.len() {
        assert!(part.len() % 128 == 0 && !part.is_empty());
        sha384_blocks(&mut h, part);
        left -= part.len();
    }
    let mut m = part[..left].to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend(((len as u128) * 8).to_be_bytes());
    sha384_blocks(&mut h, &m);
    h[..6].iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn sha384_blocks(h: &mut [u64], m: &[u8]) {
    let c = consts();
    for b in m.chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 {
            w[i] = u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v: [u64; 8] = h[..].try_into().unwrap();
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k512[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum H {
    S256,
    S384,
}
impl H {
    pub fn len(self) -> usize {
        match self {
            H::S256 => 32,
            H::S384 => 48,
        }
    }
    pub fn block(self) -> usize {
        match self {
            H::S256 => 64,
            H::S384 => 128,
        }
    }
    pub fn hash(self, d: &[u8]) -> Vec<u8> {
        match self {
            H::S256 => sha256(d),
            H::S384 => sha384(d),
        }
    }
    /// The first `len` bytes of `part` repeated; `part` is a whole number of blocks
    pub fn hash_repeated(self, part: &[u8], len: usize) -> Vec<u8> {
        match self {
            H::S256 => sha256_repeated(part, len),
            H::S384 => sha384_repeated(part, len),
        }
    }
}

pub fn hmac(h: H, key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > h.block() { h.hash(key) } else { key.to_vec() };
    k.resize(h.block(), 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(data);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend(h.hash(&i));
    h.hash(&o)
}
pub fn hkdf_extract(h: H, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    hmac(h, salt, ikm)
}
pub fn hkdf_expand(h: H, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < len {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i);
        t = hmac(h, prk, &m);
        out.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(len);
    out
}
pub fn expand_label(h: H, secret: &[u8], label: &str, ctx: &[u8], len: usize) -> Vec<u8> {
    let mut info = (len as u16).to_be_bytes().to_vec();
    let l = format!("tls13 {label}");
    info.push(l.len() as u8);
    info.extend_from_slice(l.as_bytes());
    info.push(ctx.len() as u8);
    info.extend_from_slice(ctx);
    hkdf_expand(h, secret, &info, len)
}

// ------------------------------------------------------------------ AES (FIPS 197)

fn xtime(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for i in 0..256usize {
            let mut inv = 0u8;
            for j in 1..256usize {
                if gmul(i as u8, j as u8) == 1 {
                    inv = j as u8;
                }
            }
            s[i] = inv
                ^ inv.rotate_left(1)
                ^ inv.rotate_left(2)
                ^ inv.rotate_left(3)
                ^ inv.rotate_left(4)
                ^ 0x63;
        }
        s
    })
}

pub struct Aes {
    rk: Vec<[u8; 16]>,
}
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let s = sbox();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = xtime(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        let rk = w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect();
        Aes { rk }
    }
    pub fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut st = *b;
        let nr = self.rk.len() - 1;
        for i in 0..16 {
            st[i] ^= self.rk[0][i];
        }
        for r in 1..=nr {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[c * 4 + row] = s[st[((c + row) % 4) * 4 + row] as usize];
                }
            }
            if r != nr {
                for c in 0..4 {
                    let a: [u8; 4] = t[c * 4..c * 4 + 4].try_into().unwrap();
                    let all = a[0] ^ a[1] ^ a[2] ^ a[3];
                    for row in 0..4 {
                        t[c * 4 + row] = a[row] ^ all ^ xtime(a[row] ^ a[(row + 1) % 4]);
                    }
                }
            }
            for i in 0..16 {
                st[i] = t[i] ^ self.rk[r][i];
            }
        }
        st
    }
}

// ------------------------------------------------------------------ GCM (SP 800-38D)

fn ghash_mul(x: u128, h: u128) -> u128 {
    let mut z = 0u128;
    let mut v = h;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 {
            z ^= v;
        }
        v = if v & 1 == 1 { (v >> 1) ^ (0xe1u128 << 120) } else { v >> 1 };
    }
    z
}
struct GTable([[u128; 256]; 16]);
fn gtable(h: u128) -> Box<GTable> {
    let mut t = Box::new(GTable([[0; 256]; 16]));
    // v_i = h * x^i
    let mut v = h;
    for i in 0..128 {
        t.0[i / 8][0x80 >> (i % 8)] = v;
        v = if v & 1 == 1 { (v >> 1) ^ (0xe1u128 << 120) } else { v >> 1 };
    }
    for i in 0..16 {
        for b in 1..256usize {
            let low = b & b.wrapping_neg();
            if low != b {
                t.0[i][b] = t.0[i][low] ^ t.0[i][b ^ low];
            }
        }
    }
    t
}
fn ghash(h: u128, a: &[u8], c: &[u8]) -> u128 {
    let big = a.len() + c.len() > 600;
    let t = if big { Some(gtable(h)) } else { None };
    let mul = |x: u128| match &t {
        Some(t) => {
            let b = x.to_be_bytes();
            let mut z = 0;
            for i in 0..16 {
                z ^= t.0[i][b[i] as usize];
            }
            z
        }
        None => ghash_mul(x, h),
    };
    let mut y = 0u128;
    for part in [a, c] {
        for ch in part.chunks(16) {
            let mut b = [0u8; 16];
            b[..ch.len()].copy_from_slice(ch);
            y = mul(y ^ u128::from_be_bytes(b));
        }
    }
    mul(y ^ (((a.len() as u128 * 8) << 64) | (c.len() as u128 * 8)))
}
fn gcm_core(aes: &Aes, iv: &[u8], data: &[u8]) -> (Vec<u8>, u128, [u8; 16]) {
    let h = u128::from_be_bytes(aes.enc(&[0; 16]));
    let j0 = if iv.len() == 12 {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(iv);
        b[15] = 1;
        u128::from_be_bytes(b)
    } else {
        ghash(h, &[], iv)
    };
    let inc = |x: u128| (x & !0xffff_ffffu128) | ((x as u32).wrapping_add(1) as u128);
    let mut ctr = j0;
    let mut out = Vec::with_capacity(data.len());
    for ch in data.chunks(16) {
        ctr = inc(ctr);
        let ks = aes.enc(&ctr.to_be_bytes());
        out.extend(ch.iter().zip(ks).map(|(a, b)| a ^ b));
    }
    (out, h, aes.enc(&j0.to_be_bytes()))
}
pub fn gcm_seal(key: &[u8], iv: &[u8], pt: &[u8], aad: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let aes = Aes::new(key);
    let (ct, h, ej0) = gcm_core(&aes, iv, pt);
    let s = ghash(h, aad, &ct) ^ u128::from_be_bytes(ej0);
    (ct, s.to_be_bytes())
}
pub fn gcm_open(key: &[u8], iv: &[u8], ct: &[u8], aad: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let aes = Aes::new(key);
    let (pt, h, ej0) = gcm_core(&aes, iv, ct);
    let s = ghash(h, aad, ct) ^ u128::from_be_bytes(ej0);
    if s.to_be_bytes() == tag {
        Some(pt)
    } else {
        None
    }
}

// ------------------------------------------------------------------ ChaCha20-Poly1305 (RFC 8439)

pub fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> [u8; 64] {
    let mut s = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks(4).enumerate() {
        s[i] = u32::from_le_bytes(c.try_into().unwrap());
    }
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[i * 4..i * 4 + 4].try_into().unwrap());
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[i * 4..i * 4 + 4].try_into().unwrap());
    }
    let init = s;
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(16);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(12);
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(8);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(7);
    };
    for _ in 0..10 {
        q(0, 4, 8, 12);
        q(1, 5, 9, 13);
        q(2, 6, 10, 14);
        q(3, 7, 11, 15);
        q(0, 5, 10, 15);
        q(1, 6, 11, 12);
        q(2, 7, 8, 13);
        q(3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[i * 4..i * 4 + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}
pub fn chacha_xor(key: &[u8], mut ctr: u32, nonce: &[u8], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    for ch in data.chunks(64) {
        let ks = chacha_block(key, ctr, nonce);
        out.extend(ch.iter().zip(ks).map(|(a, b)| a ^ b));
        ctr = ctr.wrapping_add(1);
    }
    out
}
/// Poly1305 over 26 bit limbs
pub fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
    let le = |b: &[u8]| {
        let mut x = 0u128;
        for (i, v) in b.iter().enumerate() {
            x |= (*v as u128) << (8 * i);
        }
        x
    };
    let r = le(&key[..16]) & 0x0ffffffc0ffffffc0ffffffc0fffffff;
    let s = le(&key[16..32]);
    let m26 = 0x3ffffffu64;
    let limbs = |x: u128, hi: u64| -> [u64; 5] {
        [
            (x as u64) & m26,
            ((x >> 26) as u64) & m26,
            ((x >> 52) as u64) & m26,
            ((x >> 78) as u64) & m26,
            ((x >> 104) as u64) | (hi << 24),
        ]
    };
    let rl = limbs(r, 0);
    let mut h = [0u64; 5];
    for ch in msg.chunks(16) {
        let (x, hi) = if ch.len() == 16 { (le(ch), 1) } else { (le(ch) | (1u128 << (8 * ch.len())), 0) };
        let l = limbs(x, hi);
        for i in 0..5 {
            h[i] += l[i];
        }
        let mut d = [0u128; 5];
        for i in 0..5 {
            for j in 0..5 {
                let k = i + j;
                let p = h[i] as u128 * rl[j] as u128;
                if k < 5 {
                    d[k] += p;
                } else {
                    d[k - 5] += p * 5;
                }
            }
        }
        let mut c = 0u128;
        for i in 0..5 {
            d[i] += c;
            h[i] = (d[i] as u64) & m26;
            c = d[i] >> 26;
        }
        let mut c = (c as u64) * 5;
        let mut i = 0;
        while c > 0 {
            h[i] += c;
            c = h[i] >> 26;
            h[i] &= m26;
            if i == 4 {
                c *= 5;
            }
            i = (i + 1) % 5;
        }
    }
    // full reduction
    loop {
        let mut c = 0;
        for i in 0..5 {
            h[i] += c;
            c = h[i] >> 26;
            h[i] &= m26;
        }
        if c == 0 {
            break;
        }
        h[0] += c * 5;
    }
    let p: [u64; 5] = [m26 - 4, m26, m26, m26, m26];
    let ge = {
        let mut r = true;
        for i in (0..5).rev() {
            if h[i] != p[i] {
                r = h[i] > p[i];
                break;
            }
        }
        r
    };
    if ge {
        let mut b: i64 = 0;
        for i in 0..5 {
            let mut v = h[i] as i64 - p[i] as i64 - b;
            b = 0;
            if v < 0 {
                v += 1 << 26;
                b = 1;
            }
            h[i] = v as u64;
        }
    }
    let mut x = 0u128;
    for i in 0..5 {
        x = x.wrapping_add((h[i] as u128).wrapping_shl(26 * i as u32));
    }
    // the topmost bits of h[4] beyond 2^128 are dropped by the shift
    x.wrapping_add(s).to_le_bytes()
}
fn chapoly_tag(key: &[u8], nonce: &[u8], ct: &[u8], aad: &[u8]) -> [u8; 16] {
    let otk = chacha_block(key, 0, nonce);
    let mut m = aad.to_vec();
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(ct);
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend((aad.len() as u64).to_le_bytes());
    m.extend((ct.len() as u64).to_le_bytes());
    poly1305(&otk[..32], &m)
}
pub fn chapoly_seal(key: &[u8], nonce: &[u8], pt: &[u8], aad: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let ct = chacha_xor(key, 1, nonce, pt);
    let tag = chapoly_tag(key, nonce, &ct, aad);
    (ct, tag)
}
pub fn chapoly_open(key: &[u8], nonce: &[u8], ct: &[u8], aad: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    if chapoly_tag(key, nonce, ct, aad) != tag {
        return None;
    }
    Some(chacha_xor(key, 1, nonce, ct))
}

// ------------------------------------------------------------------ 256 bit arithmetic

pub type U = [u64; 4];

pub fn u_from_be(b: &[u8]) -> U {
    let mut p = [0u8; 32];
    p[32 - b.len()..].copy_from_slice(b);
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[3 - i] = u64::from_be_bytes(p[i * 8..i * 8 + 8].try_into().unwrap());
    }
    r
}
pub fn u_to_be(u: &U) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[i * 8..i * 8 + 8].copy_from_slice(&u[3 - i].to_be_bytes());
    }
    o
}
pub fn u_hex(s: &str) -> U {
    u_from_be(&hex(s))
}
pub fn hex(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn to_hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn u_cmp(a: &U, b: &U) -> std::cmp::Ordering {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
fn u_add(a: &U, b: &U) -> (U, u64) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c as u64)
}
pub fn u_sub(a: &U, b: &U) -> (U, u64) {
    let mut r = [0; 4];
    let mut bo = 0u64;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(bo);
        r[i] = x;
        bo = (b1 | b2) as u64;
    }
    (r, bo)
}
pub fn u_is_zero(a: &U) -> bool {
    a.iter().all(|x| *x == 0)
}

/// Montgomery arithmetic modulo an odd 256 bit number
pub struct Mont {
    pub m: U,
    inv: u64,
    pub r1: U,
    r2: U,
}
impl Mont {
    pub fn new(m: U) -> Mont {
        let mut inv = 1u64;
        for _ in 0..63 {
            inv = inv.wrapping_mul(inv).wrapping_mul(m[0]);
        }
        let inv = inv.wrapping_neg();
        let mut s = Mont { m, inv, r1: [0; 4], r2: [0; 4] };
        let mut x: U = [1, 0, 0, 0];
        for i in 0..512 {
            x = s.add(&x, &x);
            if i == 255 {
                s.r1 = x;
            }
        }
        s.r2 = x;
        s
    }
    pub fn red(&self, a: &U) -> U {
        let mut x = *a;
        while u_cmp(&x, &self.m) != std::cmp::Ordering::Less {
            x = u_sub(&x, &self.m).0;
        }
        x
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (r, c) = u_add(a, b);
        if c == 1 || u_cmp(&r, &self.m) != std::cmp::Ordering::Less {
            u_sub(&r, &self.m).0
        } else {
            r
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (r, c) = u_sub(a, b);
        if c == 1 {
            u_add(&r, &self.m).0
        } else {
            r
        }
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[j] as u128 * b[i] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(self.inv);
            let mut c = t[0] as u128 + m as u128 * self.m[0] as u128;
            c >>= 64;
            for j in 1..4 {
                c += t[j] as u128 + m as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || u_cmp(&r, &self.m) != std::cmp::Ordering::Less {
            u_sub(&r, &self.m).0
        } else {
            r
        }
    }
    pub fn to(&self, a: &U) -> U {
        self.mul(&self.red(a), &self.r2)
    }
    pub fn from(&self, a: &U) -> U {
        self.mul(a, &[1, 0, 0, 0])
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = self.r1;
        for i in (0..256).rev() {
            r = self.mul(&r, &r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// Inverse of an element in Montgomery form
    pub fn inv(&self, a: &U) -> U {
        let e = u_sub(&self.m, &[2, 0, 0, 0]).0;
        self.pow(a, &e)
    }
}

// ------------------------------------------------------------------ X25519 (RFC 7748)

fn f25519() -> &'static Mont {
    static M: std::sync::OnceLock<Mont> = std::sync::OnceLock::new();
    M.get_or_init(|| Mont::new([u64::MAX - 18, u64::MAX, u64::MAX, u64::MAX >> 1]))
}
pub fn x25519(scalar: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let mut k = *scalar;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    ladder25519(&k, u)
}
/// The Montgomery ladder with any scalar below 2^255
pub fn ladder25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let f = f25519();
    let mut ub = *u;
    ub[31] &= 127;
    ub.reverse();
    let x1 = f.to(&u_from_be(&ub));
    let (mut x2, mut z2, mut x3, mut z3) = (f.r1, [0u64; 4], x1, f.r1);
    let a24 = f.to(&[121665, 0, 0, 0]);
    let mut swap = 0;
    for t in (0..255).rev() {
        let b = (k[t / 8] >> (t % 8)) & 1;
        if b != swap {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = b;
        let a = f.add(&x2, &z2);
        let aa = f.mul(&a, &a);
        let b = f.sub(&x2, &z2);
        let bb = f.mul(&b, &b);
        let e = f.sub(&aa, &bb);
        let c = f.add(&x3, &z3);
        let d = f.sub(&x3, &z3);
        let da = f.mul(&d, &a);
        let cb = f.mul(&c, &b);
        let s = f.add(&da, &cb);
        x3 = f.mul(&s, &s);
        let s = f.sub(&da, &cb);
        z3 = f.mul(&x1, &f.mul(&s, &s));
        x2 = f.mul(&aa, &bb);
        z2 = f.mul(&e, &f.add(&aa, &f.mul(&a24, &e)));
    }
    if swap == 1 {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    let r = f.from(&f.mul(&x2, &f.inv(&z2)));
    let mut o = u_to_be(&r);
    o.reverse();
    o
}
/// A coordinate which X25519 with this scalar takes to `out`, if `out` is in a subgroup of prime order of curve or twist
pub fn x25519_preimage(scalar: &[u8; 32], out: &[u8; 32]) -> Option<[u8; 32]> {
    let le = |u: &U| -> [u8; 32] {
        let mut b = u_to_be(u);
        b.reverse();
        b
    };
    let orders = [
        "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed",
        "1fffffffffffffffffffffffffffffffd6420c42ba10c6534fdb39cb4614581d",
    ];
    let mut k = *scalar;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    k.reverse();
    for order in orders.map(u_hex) {
        if ladder25519(&le(&order), out) == [0; 32] {
            let n = Mont::new(order);
            let inv = le(&n.from(&n.inv(&n.to(&u_from_be(&k)))));
            return Some(ladder25519(&inv, out)).filter(|p| x25519(scalar, p) == *out);
        }
    }
    None
}
pub fn x25519_base(scalar: &[u8; 32]) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[0] = 9;
    x25519(scalar, &b)
}

// ------------------------------------------------------------------ P-256 and ECDSA (FIPS 186-4)

pub struct P256 {
    pub f: Mont,
    pub n: Mont,
    b: U,
    pub g: (U, U),
}
/// Jacobian coordinates in Montgomery form, None is the point at infinity
type Jac = Option<(U, U, U)>;

pub fn p256() -> &'static P256 {
    static P: std::sync::OnceLock<P256> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let f = Mont::new(u_hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"));
        let n = Mont::new(u_hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"));
        let b = f.to(&u_hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"));
        let g = (
            u_hex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            u_hex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
        );
        P256 { f, n, b, g }
    })
}
impl P256 {
    pub fn on_curve(&self, p: &(U, U)) -> bool {
        let f = &self.f;
        if u_cmp(&p.0, &f.m) != std::cmp::Ordering::Less || u_cmp(&p.1, &f.m) != std::cmp::Ordering::Less {
            return false;
        }
        let (x, y) = (f.to(&p.0), f.to(&p.1));
        let x3 = f.mul(&f.mul(&x, &x), &x);
        let ax = f.add(&f.add(&x, &x), &x);
        f.mul(&y, &y) == f.add(&f.sub(&x3, &ax), &self.b)
    }
    fn dbl(&self, p: &Jac) -> Jac {
        let (x, y, z) = p.as_ref()?;
        let f = &self.f;
        if u_is_zero(y) {
            return None;
        }
        let z2 = f.mul(z, z);
        let m = f.mul(&f.sub(x, &z2), &f.add(x, &z2));
        let m = f.add(&f.add(&m, &m), &m);
        let y2 = f.mul(y, y);
        let s = f.mul(x, &y2);
        let s = f.add(&s, &s);
        let s = f.add(&s, &s);
        let x3 = f.sub(&f.mul(&m, &m), &f.add(&s, &s));
        let y4 = f.mul(&y2, &y2);
        let mut e = f.add(&y4, &y4);
        e = f.add(&e, &e);
        e = f.add(&e, &e);
        let y3 = f.sub(&f.mul(&m, &f.sub(&s, &x3)), &e);
        let yz = f.mul(y, z);
        Some((x3, y3, f.add(&yz, &yz)))
    }
    fn jadd(&self, p: &Jac, q: &Jac) -> Jac {
        let (a, b) = match (p, q) {
            (None, _) => return *q,
            (_, None) => return *p,
            (Some(a), Some(b)) => (a, b),
        };
        let f = &self.f;
        let z1z1 = f.mul(&a.2, &a.2);
        let z2z2 = f.mul(&b.2, &b.2);
        let u1 = f.mul(&a.0, &z2z2);
        let u2 = f.mul(&b.0, &z1z1);
        let s1 = f.mul(&a.1, &f.mul(&z2z2, &b.2));
        let s2 = f.mul(&b.1, &f.mul(&z1z1, &a.2));
        if u1 == u2 {
            if s1 == s2 {
                return self.dbl(p);
            }
            return None;
        }
        let h = f.sub(&u2, &u1);
        let r = f.sub(&s2, &s1);
        let h2 = f.mul(&h, &h);
        let h3 = f.mul(&h2, &h);
        let u1h2 = f.mul(&u1, &h2);
        let x3 = f.sub(&f.sub(&f.mul(&r, &r), &h3), &f.add(&u1h2, &u1h2));
        let y3 = f.sub(&f.mul(&r, &f.sub(&u1h2, &x3)), &f.mul(&s1, &h3));
        Some((x3, y3, f.mul(&h, &f.mul(&a.2, &b.2))))
    }
    fn to_jac(&self, p: &Option<(U, U)>) -> Jac {
        p.as_ref().map(|p| (self.f.to(&p.0), self.f.to(&p.1), self.f.r1))
    }
    fn to_aff(&self, p: &Jac) -> Option<(U, U)> {
        let (x, y, z) = p.as_ref()?;
        let f = &self.f;
        let zi = f.inv(z);
        let z2 = f.mul(&zi, &zi);
        Some((f.from(&f.mul(x, &z2)), f.from(&f.mul(y, &f.mul(&z2, &zi)))))
    }
    fn jmul(&self, p: &Jac, k: &U) -> Jac {
        let mut r: Jac = None;
        for i in (0..256).rev() {
            r = self.dbl(&r);
            if (k[i / 64] >> (i % 64)) & 1 == 1 {
                r = self.jadd(&r, p);
            }
        }
        r
    }
    pub fn mul(&self, p: &Option<(U, U)>, k: &U) -> Option<(U, U)> {
        self.to_aff(&self.jmul(&self.to_jac(p), k))
    }
    pub fn add(&self, p: &Option<(U, U)>, q: &Option<(U, U)>) -> Option<(U, U)> {
        self.to_aff(&self.jadd(&self.to_jac(p), &self.to_jac(q)))
    }
    pub fn public(&self, d: &U) -> (U, U) {
        self.mul(&Some(self.g), d).unwrap()
    }
    /// Signature with the given nonce
    pub fn sign(&self, d: &U, hash: &[u8], k: &U) -> (U, U) {
        let n = &self.n;
        let r = n.red(&self.mul(&Some(self.g), k).unwrap().0);
        let z = n.red(&u_from_be(&hash[..32]));
        let rd = n.mul(&n.to(&r), &n.to(d));
        let s = n.mul(&n.add(&rd, &n.to(&z)), &n.inv(&n.to(k)));
        (r, n.from(&s))
    }
    pub fn verify(&self, q: &(U, U), hash: &[u8], r: &U, s: &U) -> bool {
        let n = &self.n;
        let lt = |a: &U| u_cmp(a, &n.m) == std::cmp::Ordering::Less;
        if u_is_zero(r) || u_is_zero(s) || !lt(r) || !lt(s) || !self.on_curve(q) {
            return false;
        }
        let z = n.red(&u_from_be(&hash[..32]));
        let w = n.inv(&n.to(s));
        let u1 = n.from(&n.mul(&n.to(&z), &w));
        let u2 = n.from(&n.mul(&n.to(r), &w));
        let p = self.jadd(
            &self.jmul(&self.to_jac(&Some(self.g)), &u1),
            &self.jmul(&self.to_jac(&Some(*q)), &u2),
        );
        match self.to_aff(&p) {
            None => false,
            Some((x, _)) => n.red(&x) == *r,
        }
    }
}

// ------------------------------------------------------------------ DER

pub fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    o.extend(der_len(body.len()));
    o.extend_from_slice(body);
    o
}
pub fn der_len(n: usize) -> Vec<u8> {
    if n < 128 {
        vec![n as u8]
    } else if n < 256 {
        vec![0x81, n as u8]
    } else if n < 65536 {
        vec![0x82, (n >> 8) as u8, n as u8]
    } else {
        vec![0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]
    }
}
pub fn der_uint(b: &[u8]) -> Vec<u8> {
    let mut v = b;
    while v.len() > 1 && v[0] == 0 {
        v = &v[1..];
    }
    let mut body = vec![];
    if v.is_empty() || v[0] & 0x80 != 0 {
        body.push(0);
    }
    body.extend_from_slice(v);
    der(2, &body)
}
pub fn sig_der(r: &U, s: &U) -> Vec<u8> {
    der(0x30, &[der_uint(&u_to_be(r)), der_uint(&u_to_be(s))].concat())
}
/// Strict DER parser of an ECDSA signature
pub fn sig_parse(b: &[u8]) -> Option<(U, U)> {
    if b.len() < 2 || b[0] != 0x30 || b[1] as usize != b.len() - 2 || b[1] >= 0x80 {
        return None;
    }
    let mut p = 2;
    let mut v = vec![];
    for _ in 0..2 {
        if b.len() < p + 2 || b[p] != 2 {
            return None;
        }
        let l = b[p + 1] as usize;
        let body = b.get(p + 2..p + 2 + l)?;
        if l == 0 || body[0] & 0x80 != 0 || (l > 1 && body[0] == 0 && body[1] & 0x80 == 0) {
            return None;
        }
        let body = if body[0] == 0 { &body[1..] } else { body };
        if body.len() > 32 {
            return None;
        }
        v.push(u_from_be(body));
        p += 2 + l;
    }
    if p != b.len() {
        return None;
    }
    Some((v[0], v[1]))
}

// ------------------------------------------------------------------ self test

/// Known answers of the standards: the oracle itself is checked before it is used
pub fn self_test() -> Result<(), String> {
    let check = |name: &str, a: &[u8], b: &str| {
        if a == hex(b) {
            Ok(())
        } else {
            Err(format!("self test {name}: {} != {b}", to_hex(a)))
        }
    };
    check("sha256", &sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    check("sha384", &sha384(b"abc"), "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7")?;
    check(
        "hmac256",
        &hmac(H::S256, b"Jefe", b"what do ya want for nothing?"),
        "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843",
    )?;
    check(
        "hkdf",
        &hkdf_expand(
            H::S256,
            &hkdf_extract(H::S256, &hex("000102030405060708090a0b0c"), &[0x0b; 22]),
            &hex("f0f1f2f3f4f5f6f7f8f9"),
            42,
        ),
        "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865",
    )?;
    check(
        "aes128",
        &Aes::new(&hex("000102030405060708090a0b0c0d0e0f")).enc(&hex("00112233445566778899aabbccddeeff").try_into().unwrap()),
        "69c4e0d86a7b0430d8cdb78070b4c55a",
    )?;
    check(
        "aes256",
        &Aes::new(&hex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"))
            .enc(&hex("00112233445566778899aabbccddeeff").try_into().unwrap()),
        "8ea2b7ca516745bfeafc49904b496089",
    )?;
    let (c, t) = gcm_seal(
        &hex("feffe9928665731c6d6a8f9467308308"),
        &hex("cafebabefacedbaddecaf888"),
        &hex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39"),
        &hex("feedfacedeadbeeffeedfacedeadbeefabaddad2"),
    );
    check("gcm ct", &c, "42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e091")?;
    check("gcm tag", &t, "5bc94fbc3221a5db94fae95ae7121a47")?;
    let (_, t) = gcm_seal(
        &hex("feffe9928665731c6d6a8f9467308308"),
        &hex("cafebabefacedbad"),
        &hex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39"),
        &hex("feedfacedeadbeeffeedfacedeadbeefabaddad2"),
    );
    check("gcm tag iv8", &t, "3612d2e79e3b0785561be14aaca2fccb")?;
    let h = 0x66e94bd4ef8a2c3b884cfa59ca342b2eu128;
    let long: Vec<u8> = (0..1000).map(|i| i as u8).collect();
    let a = ghash(h, &long, &[]);
    let mut y = 0u128;
    for ch in long.chunks(16) {
        let mut b = [0u8; 16];
        b[..ch.len()].copy_from_slice(ch);
        y = ghash_mul(y ^ u128::from_be_bytes(b), h);
    }
    y = ghash_mul(y ^ ((8000u128) << 64), h);
    if a != y {
        return Err("self test ghash table".into());
    }
    let key: Vec<u8> = (0x80..0xa0).collect();
    let (c, t) = chapoly_seal(
        &key,
        &hex("070000004041424344454647"),
        b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.",
        &hex("50515253c0c1c2c3c4c5c6c7"),
    );
    check("chapoly ct", &c[..16], "d31a8d34648e60db7b86afbc53ef7ec2")?;
    check("chapoly tag", &t, "1ae10b594f09e26a7e902ecbd0600691")?;
    // RFC 8439 A.3: values around 2^130 - 5
    let mut k = [0u8; 32];
    k[0] = 2;
    check("poly1305 #7", &poly1305(&k, &[0xff; 16]), "03000000000000000000000000000000")?;
    k[16..].fill(0xff);
    check("poly1305 #8", &poly1305(&k, &hex("02000000000000000000000000000000")), "03000000000000000000000000000000")?;
    let mut k = [0u8; 32];
    k[0] = 1;
    check(
        "poly1305 #9",
        &poly1305(&k, &hex("fffffffffffffffffffffffffffffffff0ffffffffffffffffffffffffffffff11000000000000000000000000000000")),
        "05000000000000000000000000000000",
    )?;
    k[0] = 2;
    check("poly1305 #11", &poly1305(&k, &hex("fdffffffffffffffffffffffffffffff")), "faffffffffffffffffffffffffffffff")?;
    check(
        "x25519",
        &x25519(
            &hex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4").try_into().unwrap(),
            &hex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c").try_into().unwrap(),
        ),
        "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552",
    )?;
    let p = p256();
    let q = p.public(&u_hex("c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721"));
    check("p256 pub", &u_to_be(&q.0), "60fed4ba255a9d31c961eb74c6356d68c049b8923b61fa6ce669622e60f29fb6")?;
    // RFC 6979 A.2.5 sample
    let hash = sha256(b"sample");
    let k = u_hex("a6e3c57dd01abe90086538398355dd4c3b17aa873382b0f24d6129493d8aad60");
    let (r, s) = p.sign(&u_hex("c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721"), &hash, &k);
    check("p256 r", &u_to_be(&r), "efd48b2aacb6a8fd1140dd9cd45e81d69d2c877b56aaf991c34d0ea84eaf3716")?;
    check("p256 s", &u_to_be(&s), "f7cb1c942d657c41d436c7a1b6e29f65f3e900dbb9aff4064dc4ab2f843acda8")?;
    if !p.verify(&q, &hash, &r, &s) || p.verify(&q, &sha256(b"sample2"), &r, &s) {
        return Err("self test p256 verify".into());
    }
    Ok(())
}

/// A 16 byte IV for which GCM starts with the counter block j0
pub fn gcm_iv_for(key: &[u8], j0: u128) -> [u8; 16] {
    let h = u128::from_be_bytes(Aes::new(key).enc(&[0; 16]));
    // h^(2^128 - 2) is the inverse of h
    let mut inv = 1u128 << 127;
    let mut sq = h;
    for _ in 1..128 {
        sq = ghash_mul(sq, sq);
        inv = ghash_mul(inv, sq);
    }
    assert_eq!(ghash_mul(inv, h), 1u128 << 127);
    // j0 = (iv * h + 128) * h
    let x = ghash_mul(j0, inv) ^ 128;
    ghash_mul(x, inv).to_be_bytes()
}
