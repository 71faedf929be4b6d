//! C10: an attacker between the peers. All words of attacker actions (delivering the records of
//! the sender in any order, changed, replayed, reflected, of other keys, made up) against the
//! real reader, compared with a model of one counter; all single changes of a record.

use mc::prelude::*;

const NREC: usize = 4;
const DATA: [&[u8]; NREC] = [b"alpha", b"the second record", b"c", b"and delta"];

/// The attacker does not know the keys; everything is made of records on the wire or made up.
/// The last ones are under keys of another connection, direction or phase.
const ALPHABET: &[&str] = &[
    "r0", "r1", "r2", "r3", "bit", "tag", "type", "trunc", "len+", "len-", "half", "bodyhdr", "own0", "other", "hskey", "plainapp", "plainclose", "plainalert",
    "ccs", "garbage", "empty", "zerolen", "pad",
];

struct Wire {
    recs: Vec<Vec<u8>>,
    own: Vec<u8>,
    other: Vec<Vec<u8>>,
    hs: Dir,
}
fn fix_len(mut r: Vec<u8>) -> Vec<u8> {
    let n = r.len() - 5;
    r[3] = (n >> 8) as u8;
    r[4] = n as u8;
    r
}
/// The bytes of an action, when n records were received
fn act(a: &str, w: &Wire, n: usize) -> Vec<u8> {
    let next = &w.recs[n.min(NREC - 1)];
    let prev = &w.recs[(n + 1) % NREC];
    match a {
        "r0" => w.recs[0].clone(),
        "r1" => w.recs[1].clone(),
        "r2" => w.recs[2].clone(),
        "r3" => w.recs[3].clone(),
        "bit" => {
            let mut r = next.clone();
            r[6] ^= 1;
            r
        }
        "tag" => {
            let mut r = next.clone();
            let l = r.len();
            r[l - 1] ^= 0x80;
            r
        }
        "type" => {
            let mut r = next.clone();
            r[0] = HANDSHAKE;
            r
        }
        "trunc" => fix_len(next[..next.len() - 1].to_vec()),
        "len+" => fix_len([&next[..], &[0]].concat()),
        "len-" => {
            let mut r = next.clone();
            let l = r.len() - 6;
            r[4] = l as u8;
            r
        }
        // the first half of one record with the second of another
        "half" => {
            let k = 5 + (next.len() - 5) / 2;
            fix_len([&next[..k], &prev[k.min(prev.len())..]].concat())
        }
        "bodyhdr" => fix_len([&next[..5], &prev[5..]].concat()),
        "own0" => w.own.clone(),
        "other" => w.other[n.min(NREC - 1)].clone(),
        "hskey" => {
            let mut d = w.hs.clone();
            d.seq = n as u64;
            d.seal(APPDATA, b"forged")
        }
        "plainapp" => plain_rec(APPDATA, b"forged data in the clear, long enough"),
        "plainclose" => plain_rec(ALERT, &[1, 0]),
        "plainalert" => plain_rec(ALERT, &[2, 80]),
        "ccs" => plain_rec(CCS, &[1]),
        "garbage" => vec![0xff; 40],
        "empty" => plain_rec(APPDATA, &[]),
        "zerolen" => plain_rec(APPDATA, &[0; 16]),
        "pad" => fix_len([&next[..next.len() - 16], &[0; 4], &next[next.len() - 16..]].concat()),
        _ => panic!("{a}"),
    }
}
fn wire(pki: &'static Pki, server: bool, suite: u16, s: &mut Sess) -> Result<Wire, String> {
    let mut d = s.wr();
    let recs = DATA.iter().map(|x| d.seal(APPDATA, x)).collect();
    let sch = s.sched();
    let hs = Dir::new(suite, if server { &sch.client_hs } else { &sch.server_hs });
    let own = s.own(b"written by the reader");
    let o = Sess::new(pki, server, suite, 1001)?;
    let mut d = o.wr();
    let other = DATA.iter().map(|x| d.seal(APPDATA, x)).collect();
    Ok(Wire { recs, own, other, hs })
}

/// The model: the number of records received in order, or dead
fn model(w: &[&str]) -> (usize, bool) {
    let mut n = 0;
    for a in w {
        if *a == format!("r{n}") {
            n += 1;
        } else {
            return (n, true);
        }
    }
    (n, false)
}

/// After the first wrong action up to `after` more are tried
fn run(pki: &'static Pki, server: bool, suite: u16, after: usize, w: &[&'static str], c: &mut Case) -> End {
    let (n, dead) = model(w);
    c.nontrivial(w);
    let mut s = match Sess::new(pki, server, suite, 31) {
        Ok(s) => s,
        Err(e) => {
            c.fail(e);
            return End::Over;
        }
    };
    let wi = match wire(pki, server, suite, &mut s) {
        Ok(w) => w,
        Err(e) => {
            c.fail(e);
            return End::Over;
        }
    };
    let mut i = 0;
    for a in &w[..w.len().min(n + 1)] {
        s.push(act(a, &wi, i));
        if *a == format!("r{i}") {
            i += 1;
        }
    }
    let (got, err, waits) = drain(&mut s, 64);
    let want: Vec<u8> = DATA[..n].concat();
    c.state((server, suite, n, dead, w.get(n), w.last()));
    c.outcome(format!("{n} records, {}", if dead { format!("then {err}") } else { "waits".into() }));
    c.check(!err.starts_with("panic"), format!("read: {err}"));
    if got != want {
        c.fail(format!("delivered {:?}, but the sender wrote {:?} before the attack", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want)));
    }
    if dead {
        // "len-" and "trunc"-like framing may leave an incomplete record: the reader may wait, but it must not deliver
        c.check(err != "CloseNotify", "a forged end of the data is reported as an orderly end");
        // whatever follows: never any data
        for a in &w[n + 1..] {
            s.push(act(a, &wi, n));
            let (g, e, _) = drain(&mut s, 64);
            c.check(g.is_empty() && e != "CloseNotify" && !e.starts_with("panic"), format!("data or an orderly end ({e}) after the error {err}"));
        }
        let mut d = s.wr();
        for k in 0..NREC {
            s.push(wi.recs[(n + k) % NREC].clone());
        }
        d.seq = n as u64;
        s.push(d.seal(APPDATA, b"late"));
        for _ in 0..3 {
            let (g, e, _) = drain(&mut s, 64);
            c.check(g.is_empty(), format!("data is delivered after the error {err}"));
            c.check(e != "CloseNotify", "orderly end after an error");
        }
        c.validated();
        return if w.len() - n - 1 < after && !c.failed() { End::Waiting } else { End::Over };
    }
    c.check(waits, format!("the honest records lead to {err}"));
    c.validated();
    if n < NREC && !c.failed() {
        End::Waiting
    } else {
        End::Over
    }
}

/// One record with the data, changed, after k good ones; nothing of it may be delivered
fn single(pki: &'static Pki, server: bool, suite: u16, k: usize, c: &mut Case, f: impl Fn(Vec<u8>) -> Vec<u8>) {
    let mut s = match Sess::new(pki, server, suite, 33) {
        Ok(s) => s,
        Err(e) => return c.fail(e),
    };
    let mut d = s.wr();
    let mut want = vec![];
    for i in 0..k {
        let x = format!("good {i}");
        s.push(d.seal(APPDATA, x.as_bytes()));
        want.extend(x.into_bytes());
    }
    let r = d.seal(APPDATA, b"twenty bytes of data");
    s.push(f(r));
    s.push(d.seal(APPDATA, b"next"));
    let (got, err, _) = drain(&mut s, 64);
    c.trans(1);
    c.outcome(&err);
    c.check(got == want, format!("delivered {:?}, wanted {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want)));
    c.check(!err.starts_with("panic") && err != "CloseNotify", format!("read: {err}"));
    s.push(d.seal(APPDATA, b"more"));
    s.end();
    for _ in 0..3 {
        let (g, e, _) = drain(&mut s, 64);
        c.check(g.is_empty() && e != "CloseNotify", format!("after the error {err}: data or orderly end ({e})"));
    }
    c.validated();
}

/// The protected handshake flight with the records in another order or changed
fn handshake(pki: &'static Pki, server: bool, suite: u16, req: bool, c: &mut Case, want: bool, f: impl Fn(Vec<Vec<u8>>) -> Vec<Vec<u8>> + Send + 'static) {
    fresh(35);
    let (r, left) = if server {
        let peer = cell(Cli::new(cli_cfg(pki, suite)));
        let mut phase = 0;
        let sock = client_sock(&peer, move |p: &mut Cli| {
            if phase == 0 {
                p.sent_hello();
                let r = plain_rec(HANDSHAKE, &p.ch.clone());
                p.out.push_back(r);
                phase = 1;
            } else if phase == 1 && p.wait == Wait::Done {
                phase = 2;
                let a = (vec![pki.client.cert.clone()], pki.client.key);
                let ms = p.honest_messages(Some((&a.0, &a.1)));
                let rs: Vec<Vec<u8>> = ms.iter().map(|m| p.wr.as_mut().unwrap().seal(HANDSHAKE, m)).collect();
                for r in f(rs) {
                    p.out.push_back(r);
                }
            }
        });
        let mut b = server_builder(pki);
        if req {
            b = b.add_client_cert_ca(pki.ca.cert_path.clone());
        }
        let r = accept(b, &sock);
        let n = lk(&peer).out.len();
        (r, n)
    } else {
        let mut cfg = srv_cfg(pki, suite);
        if req {
            cfg.request = Some(vec![]);
        }
        let peer = cell(Srv::new(cfg));
        let mut phase = 0;
        let sock = server_sock(&peer, move |p: &mut Srv| {
            if phase == 0 && !p.ch.is_empty() {
                phase = 1;
                let m = p.m_hello();
                p.out.push_back(plain_rec(HANDSHAKE, &m));
                let ms = p.honest_messages();
                let rs: Vec<Vec<u8>> = ms.iter().map(|m| p.wr.as_mut().unwrap().seal(HANDSHAKE, m)).collect();
                for r in f(rs) {
                    p.out.push_back(r);
                }
            }
        });
        let r = connect(CB::new(), &sock);
        let n = lk(&peer).out.len();
        (r, n)
    };
    c.trans(1);
    c.outcome(format!("handshake: {}", r.name()));
    c.check(r.is_ok() == want, format!("handshake with changed records: {} ({left} records not read)", r.name()));
    c.check(!r.name().starts_with("panic"), r.name());
    c.validated();
}

fn main() {
    let chk = Check::start(
        "C10",
        "model_checking",
        "every word of attacker actions is run against the real reader, from a fresh connection, as long as the reader still takes part; the model, one counter of records received in order, predicts exactly what is delivered",
    );
    let th = chk.thorough;
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    for server in [true, false] {
        for suite in SUITES {
            let tag = format!("{}-{}", if server { "server" } else { "client" }, suite_name(suite));
            let after = match (th, suite) {
                (true, CHACHA) => 2,
                (false, AES256) => 0,
                _ => 1,
            };
            words(&chk, &format!("words-{tag}"), ALPHABET, NREC + 1 + after, |w, c| run(pki, server, suite, after, w, c));
            // every bit of the record, header included, after 0 and 2 good ones
            let len = 5 + 20 + 1 + 16;
            let ks: &[usize] = if th { &[0, 1, 2, 3, 255, 256] } else { &[0, 2] };
            chk.range(&format!("bit-{tag}"), len * 8 * ks.len(), |i, c| {
                let (k, bit) = (ks[i / (len * 8)], i % (len * 8));
                if c.begin(format!("{k}-{bit}")) {
                    c.nontrivial((server, suite, i));
                    c.state((server, suite, "bit", bit));
                    single(pki, server, suite, k, c, |mut r| {
                        r[bit / 8] ^= 1 << (bit % 8);
                        r
                    });
                }
            });
            // every byte value of type and first bytes of the header
            chk.range(&format!("header-{tag}"), 256 * 3, |i, c| {
                let (at, v) = ([0, 1, 2][i / 256], (i % 256) as u8);
                let orig = [APPDATA, 3, 3][i / 256];
                if v != orig && (th || i % 3 == SUITES.iter().position(|s| *s == suite).unwrap()) && c.begin(format!("{at}-{v:02x}")) {
                    c.nontrivial((server, suite, "h", i));
                    single(pki, server, suite, 1, c, |mut r| {
                        r[at] = v;
                        r
                    });
                }
            });
            // all lengths: truncated with matching length field, extended, and removed pieces
            chk.range(&format!("length-{tag}"), 100, |n, c| {
                if n + 5 != len && c.begin(format!("{n}")) {
                    c.nontrivial((server, suite, "l", n));
                    single(pki, server, suite, 1, c, |mut r| {
                        r.resize(5 + n, 0x55);
                        fix_len(r)
                    });
                }
            });
            chk.range(&format!("remove-{tag}"), len, |i, c| {
                if i >= 5 && c.begin(format!("byte-{i}")) {
                    c.nontrivial((server, suite, "r", i));
                    single(pki, server, suite, 1, c, |mut r| {
                        r.remove(i);
                        fix_len(r)
                    });
                }
            });
            chk.range(&format!("swap-{tag}"), len - 6, |i, c| {
                if c.begin(format!("bytes-{i}")) {
                    c.nontrivial((server, suite, "s", i));
                    single(pki, server, suite, 0, c, |mut r| {
                        // the ciphertext is random, two equal neighbours are changed instead
                        if r[5 + i] == r[6 + i] {
                            r[5 + i] ^= 1;
                        } else {
                            r.swap(5 + i, 6 + i);
                        }
                        r
                    });
                }
            });
            // sealed with the right key and another number
            let seqs: Vec<u64> = {
                let mut v: Vec<u64> = (0..12).filter(|s| *s != 3).collect();
                for b in 4..64 {
                    v.push(3 + (1u64 << b));
                }
                v.push(u64::MAX);
                v.push((-3i64) as u64);
                v
            };
            chk.each(&format!("sequence-{tag}"), &seqs, |q, c| {
                if c.begin(format!("{q}")) {
                    c.nontrivial((server, suite, "q", q));
                    let mut s = match Sess::new(pki, server, suite, 33) {
                        Ok(s) => s,
                        Err(e) => return c.fail(e),
                    };
                    let mut d = s.wr();
                    for _ in 0..3 {
                        s.push(d.seal(APPDATA, b"x"));
                    }
                    d.seq = *q;
                    s.push(d.seal(APPDATA, b"forged"));
                    let (got, err, _) = drain(&mut s, 64);
                    c.trans(4);
                    c.outcome(&err);
                    c.check(got == b"xxx", format!("a record of number {q} is delivered as number 3"));
                    c.validated();
                }
            });
            // the own direction with every number near the expected one
            chk.range(&format!("reflect-{tag}"), 8 * 3, |i, c| {
                let (q, kind) = (i as u64 / 3, i % 3);
                if c.begin(format!("{q}-{kind}")) {
                    c.nontrivial((server, suite, "f", i));
                    let mut s = match Sess::new(pki, server, suite, 33) {
                        Ok(s) => s,
                        Err(e) => return c.fail(e),
                    };
                    let sch = s.sched();
                    let mut d = match kind {
                        0 => s.rd(),
                        1 => Dir::new(suite, &sch.client_hs),
                        _ => Dir::new(suite, &sch.server_hs),
                    };
                    d.seq = q;
                    s.push(d.seal(APPDATA, b"forged"));
                    let (got, err, _) = drain(&mut s, 64);
                    c.trans(1);
                    c.outcome(&err);
                    c.check(got.is_empty(), "a record under keys of another direction or phase is delivered");
                    c.validated();
                }
            });
            // the end of the stream at every byte
            chk.range(&format!("cut-{tag}"), 3 * (len + 2), |n, c| {
                if c.begin(format!("{n}")) {
                    c.nontrivial((server, suite, "c", n));
                    let mut s = match Sess::new(pki, server, suite, 33) {
                        Ok(s) => s,
                        Err(e) => return c.fail(e),
                    };
                    let mut d = s.wr();
                    let all: Vec<u8> = (0..3).flat_map(|_| d.seal(APPDATA, b"twenty bytes of data")).collect();
                    let all = [all, d.seal(ALERT, &[1, 0])].concat();
                    s.push(all[..n.min(all.len())].to_vec());
                    s.end();
                    let (got, err, _) = drain(&mut s, 64);
                    c.trans(1);
                    c.outcome(format!("cut: {err}"));
                    let whole = (n / len).min(3) * 20;
                    c.check(got == b"twenty bytes of data".repeat(3)[..whole], "not the complete records before the end");
                    c.check(err != "CloseNotify", "a truncated stream is reported as an orderly end");
                    c.validated();
                }
            });
            // many records: the numbers never come back
            let many: &[usize] = if th { &[255, 256, 257, 300, 65535, 65536, 65537] } else { &[255, 256, 257, 300] };
            chk.range(&format!("many-{tag}"), many.len() * 3, |i, c| {
                let (n, kind) = (many[i / 3], i % 3);
                if c.begin(format!("{n}-{kind}")) {
                    c.nontrivial((server, suite, "m", i));
                    let mut s = match Sess::new(pki, server, suite, 33) {
                        Ok(s) => s,
                        Err(e) => return c.fail(e),
                    };
                    let mut d = s.wr();
                    let d0 = d.clone();
                    let mut want = vec![];
                    for k in 0..n {
                        s.push(d.seal(APPDATA, &[k as u8]));
                        want.push(k as u8);
                    }
                    // a replay of the record of the same number modulo 256, the first, or the last
                    let mut e = d0;
                    e.seq = match kind {
                        0 => (n % 256) as u64,
                        1 => 0,
                        _ => n as u64 - 1,
                    };
                    if e.seq == n as u64 {
                        e.seq = 1;
                    }
                    s.push(e.seal(APPDATA, b"forged"));
                    let (got, err, _) = drain(&mut s, 64);
                    c.trans(n + 1);
                    c.outcome(&err);
                    c.check(got == want, format!("{} of {n} bytes delivered, or a replayed one", got.len()));
                    c.validated();
                }
            });
            // the flights of the handshake: all orders with repetition, and changes
            for req in [false, true] {
                let n: usize = match (server, req) {
                    (true, false) => 1,
                    (true, true) => 3,
                    (false, false) => 4,
                    (false, true) => 5,
                };
                let tag = format!("{tag}-{req}");
                let total = n.pow(n as u32);
                chk.range(&format!("flight-order-{tag}"), total, |i, c| {
                    let ord: Vec<usize> = (0..n).map(|k| i / n.pow(k as u32) % n).collect();
                    // quick: the words which are wrong only from the second record on are done by every suite, the rest in turn
                    if !th && ord[0] != 0 && i % 3 != SUITES.iter().position(|s| *s == suite).unwrap() {
                        return;
                    }
                    if c.begin(format!("{ord:?}")) {
                        c.nontrivial((server, suite, req, i));
                        let ok = ord.iter().enumerate().all(|(i, k)| i == *k);
                        c.state((server, req, "order", &ord));
                        handshake(pki, server, suite, req, c, ok, move |r| ord.iter().map(|k| r[*k].clone()).collect());
                    }
                });
                chk.range(&format!("flight-drop-{tag}"), n, |i, c| {
                    if c.begin(format!("{i}")) {
                        c.nontrivial((server, suite, req, "drop", i));
                        handshake(pki, server, suite, req, c, false, move |mut r| {
                            r.remove(i);
                            r
                        });
                    }
                });
                chk.range(&format!("flight-byte-{tag}"), n * 48, |i, c| {
                    if c.begin(format!("{}-{}", i / 48, i % 48)) {
                        c.nontrivial((server, suite, req, "byte", i));
                        handshake(pki, server, suite, req, c, false, move |mut r| {
                            let x = &mut r[i / 48];
                            // header, start and end of the record
                            let k = i % 48;
                            let at = if k < 24 { k } else { x.len() - 1 - (k - 24) };
                            x[at] ^= 1 << (i % 8);
                            r
                        });
                    }
                });
            }
        }
    }
    chk.assume("the attacker does not have the keys; guessing a tag is not considered");
    chk.finish();
}
