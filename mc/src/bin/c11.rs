//! C11: two queues. All short words of writes and reads of both ends, all sizes, buffers and
//! padding, and all cuts of the stream, compared with the model of two byte queues.

use mc::prelude::*;

fn bytes(n: usize, salt: u64) -> Vec<u8> {
    (0..n).map(|i| mix(salt.wrapping_mul(1 << 20).wrapping_add(i as u64 / 8)).to_be_bytes()[i % 8]).collect()
}
fn open(pki: &'static Pki, server: bool, suite: u16, c: &mut Case) -> Option<Sess> {
    match Sess::new(pki, server, suite, 41) {
        Ok(mut s) => match s.received() {
            Ok(_) => Some(s),
            Err(e) => {
                c.fail(e);
                None
            }
        },
        Err(e) => {
            c.fail(e);
            None
        }
    }
}

/// Write with the code under test, the peer gets exactly that
fn put(s: &mut Sess, data: &[u8]) -> Result<(), String> {
    match tls_write(s.stream(), data) {
        Res::Ok(()) => (),
        r => return Err(format!("write of {} bytes: {}", data.len(), r.name())),
    }
    let got = s.received()?;
    if got != data {
        return Err(format!("wrote {} bytes, the peer got {} bytes{}", data.len(), got.len(), if got.len() == data.len() { " of other content" } else { "" }));
    }
    Ok(())
}

const ALPHABET: &[&str] = &[
    "w0", "w1", "w77", "wbig", "p1", "p20", "pmax", "ppad", "p0", "p2in1", "psplit", "r1", "r7", "rall", "ticket",
    "tickets", "close",
];

struct Model {
    /// sent by the peer, not yet read
    q: Vec<u8>,
    n: u64,
    /// the peer has sent its close_notify; its side only
    closed: bool,
}

/// One action on the connection and the model; false: not possible in this state
fn act(a: &str, s: &mut Sess, m: &mut Model, server: bool) -> Result<bool, String> {
    m.n += 1;
    if m.closed && (a.starts_with('p') || a.starts_with("ticket") || a == "close") {
        return Ok(false);
    }
    let mut peer = |m: &mut Model, n: usize, pad: usize| {
        let d = bytes(n, m.n + pad as u64 * 1000);
        s.send(APPDATA, &d, pad);
        m.q.extend(d);
    };
    match a {
        "w0" => put(s, &[])?,
        "w1" => put(s, &bytes(1, m.n))?,
        "w77" => put(s, &bytes(77, m.n))?,
        "wbig" => put(s, &bytes(16384 + 5, m.n))?,
        "p0" => peer(m, 0, 0),
        "p1" => peer(m, 1, 0),
        "p20" => peer(m, 20, 0),
        "pmax" => peer(m, 16384, 0),
        "ppad" => peer(m, 9, 300),
        "p2in1" => {
            let (d1, d2) = (bytes(11, m.n), bytes(13, m.n + 7));
            let mut d = s.wr();
            let both = [d.seal(APPDATA, &d1), d.seal(APPDATA, &d2)].concat();
            s.advance(2);
            s.push(both);
            m.q.extend(d1);
            m.q.extend(d2);
        }
        "psplit" => {
            let x = bytes(30, m.n);
            let r = s.wr().seal(APPDATA, &x);
            s.advance(1);
            s.push(r[..3].to_vec());
            s.push(r[3..20].to_vec());
            s.push(r[20..].to_vec());
            m.q.extend(x);
        }
        "ticket" => {
            if server {
                return Ok(false);
            }
            let b = [&[0, 0, 0, 9, 0, 0, 0, 1][..], &v8(&[1]), &v16(&[7; 16]), &v16(&[])].concat();
            s.send(HANDSHAKE, &hs(NEW_SESSION_TICKET, &b), 0);
        }
        "tickets" => {
            if server {
                return Ok(false);
            }
            // one in two records, then two in one record
            let b = |n: u8| hs(NEW_SESSION_TICKET, &[&[0, 0, 0, 9, 0, 0, 0, 1][..], &v8(&[n]), &v16(&[n; 16]), &v16(&[])].concat());
            s.send(HANDSHAKE, &b(3)[..3], 0);
            s.send(HANDSHAKE, &b(3)[3..], 5);
            s.send(HANDSHAKE, &[b(1), b(2)].concat(), 0);
        }
        "close" => {
            s.send(ALERT, &[1, 0], 0);
            m.closed = true;
        }
        "r1" | "r7" | "rall" => {
            if m.q.is_empty() && m.closed {
                return match tls_read(s.stream(), &mut [0; 9]) {
                    Res::Err(anothertls::net::alert::TlsError::CloseNotify) => Ok(true),
                    r => Err(format!("read after close_notify: {}", r.name())),
                };
            }
            if m.q.is_empty() {
                return Ok(false);
            }
            let n = match a {
                "r1" => 1,
                "r7" => 7,
                _ => usize::MAX,
            };
            // a read may return less than asked for, but not nothing
            let mut zero = 0;
            loop {
                let mut b = vec![0xEE; n.min(40000)];
                let k = match tls_read(s.stream(), &mut b) {
                    Res::Ok(k) => k,
                    r => return Err(format!("read, {} bytes are waiting: {}", m.q.len(), r.name())),
                };
                if k > b.len() || k > m.q.len() {
                    return Err(format!("read returns {k} bytes, {} were sent", m.q.len()));
                }
                if b[..k] != m.q[..k] {
                    return Err("read returns other data than was sent".into());
                }
                if b[k..].iter().any(|x| *x != 0xEE) {
                    return Err("the buffer behind the returned bytes was changed".into());
                }
                m.q.drain(..k);
                zero = if k == 0 { zero + 1 } else { 0 };
                if zero > 40 {
                    return Err("read returns nothing, but data is waiting".into());
                }
                if (n != usize::MAX && k > 0) || m.q.is_empty() {
                    break;
                }
            }
        }
        _ => panic!("{a}"),
    }
    Ok(true)
}

fn run(pki: &'static Pki, server: bool, suite: u16, w: &[&'static str], c: &mut Case) -> End {
    c.nontrivial(w);
    let Some(mut s) = open(pki, server, suite, c) else { return End::Over };
    let mut m = Model { q: vec![], n: 0, closed: false };
    for a in w {
        match act(a, &mut s, &mut m, server) {
            Ok(true) => (),
            Ok(false) => {
                c.outcome("not possible");
                return End::Over;
            }
            Err(e) => {
                c.fail(e);
                return End::Over;
            }
        }
    }
    c.state((server, suite, m.q.len(), w.last()));
    c.outcome(format!("ends with {}", w[w.len() - 1]));
    // what is left can be read
    if !m.q.is_empty() {
        if let Err(e) = act("rall", &mut s, &mut m, server) {
            c.fail(format!("at the end: {e}"));
        }
    }
    c.validated();
    if c.failed() {
        End::Over
    } else {
        End::Waiting
    }
}

/// A sequence in which every word of the length over k letters occurs
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, out);
            }
        }
    }
    let mut a = vec![0; k * n + 1];
    let mut out = vec![];
    db(1, 1, k, n, &mut a, &mut out);
    let head: Vec<usize> = out[..n - 1].to_vec();
    out.extend(head);
    out
}

/// The peer sends these pieces, everything is read with this buffer
fn read_all(s: &mut Sess, want: &[u8], buf: usize) -> Result<(), String> {
    let (got, err, waits) = drain(s, buf);
    if got != want {
        let same = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Err(format!("{} bytes were sent, {} read (equal up to {same}), then {err}", want.len(), got.len()));
    }
    if !waits {
        return Err(format!("after the data: {err}"));
    }
    Ok(())
}

fn main() {
    let chk = Check::start(
        "C11",
        "model_checking",
        "every word of writes and reads of both ends is run on the real connection and compared with two byte queues, from a fresh connection and as parts of long de Bruijn sequences; all sizes, buffers, padding and cuts",
    );
    let th = chk.thorough;
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    // sizes of one record or write
    let mut sizes: Vec<usize> = (0..=300).collect();
    for b in [511, 1024, 2047, 2048, 4095, 4096, 8192, 16383, 16384] {
        sizes.extend([b - 1, b, b + 1]);
    }
    sizes.retain(|n| *n <= 16384);
    sizes.sort();
    sizes.dedup();
    let mut big = vec![];
    for k in 1..=if th { 20 } else { 5 } {
        for d in -2i64..=2 {
            big.push((k * 16384 + d) as usize);
        }
    }
    big.extend([100_000, 1 << 20]);
    for server in [true, false] {
        for suite in SUITES {
            let tag = format!("{}-{}", if server { "server" } else { "client" }, suite_name(suite));
            let depth = match (th, suite) {
                (true, _) => 4,
                (false, AES256) => 2,
                (false, _) => 3,
            };
            words(&chk, &format!("words-{tag}"), ALPHABET, depth, |w, c| run(pki, server, suite, w, c));
            chk.range(&format!("long-{tag}"), 1, |_, c| {
                let n = if th { 4 } else { 3 };
                if !c.begin(format!("debruijn-{n}")) {
                    return;
                }
                c.nontrivial(("db", n, server, suite));
                let Some(mut s) = open(pki, server, suite, c) else { return };
                let mut m = Model { q: vec![], n: 0, closed: false };
                for (i, l) in de_bruijn(ALPHABET.len() - 1, n).iter().enumerate() {
                    // keep the queue short enough
                    if m.q.len() > 200_000 {
                        if let Err(e) = act("rall", &mut s, &mut m, server) {
                            return c.fail(format!("step {i}: {e}"));
                        }
                    }
                    c.trans(1);
                    c.state((server, suite, m.q.len().min(3000), ALPHABET[*l]));
                    if let Err(e) = act(ALPHABET[*l], &mut s, &mut m, server) {
                        return c.fail(format!("step {i}, {}: {e}", ALPHABET[*l]));
                    }
                }
                c.outcome("all equal");
                c.validated();
            });
            // writes of every size; every block of sizes in one connection
            let blocks: Vec<&[usize]> = sizes.chunks(80).chain(big.chunks(4)).collect();
            chk.each(&format!("write-{tag}"), &blocks, |b, c| {
                if c.begin(format!("{}-{}", b[0], b[b.len() - 1])) {
                    c.nontrivial(("w", b, server, suite));
                    let Some(mut s) = open(pki, server, suite, c) else { return };
                    for n in b.iter() {
                        c.trans(1);
                        if let Err(e) = put(&mut s, &bytes(*n, *n as u64)) {
                            return c.fail(e);
                        }
                        // every record as large as the data allows to be checked: no record without need
                        let _ = n;
                    }
                    c.outcome("equal");
                    c.validated();
                }
            });
            // records of every size with every kind of padding, read with every kind of buffer
            chk.each(&format!("read-{tag}"), &sizes, |n, c| {
                let n = *n;
                if n > 300 && !th && suite == AES256 {
                    return;
                }
                if !c.begin(format!("{n}")) {
                    return;
                }
                c.nontrivial(("r", n, server, suite));
                let Some(mut s) = open(pki, server, suite, c) else { return };
                let mut pads = vec![0, 1, 2, 16];
                if n < 10 || n > 1000 || n % 16 == 0 {
                    pads.extend([255, 1000]);
                    pads.push(16384 - n);
                }
                pads.retain(|p| n + p <= 16384);
                for pad in pads {
                    let mut bufs = vec![n.max(1), n + 1, 20000];
                    if pad < 2 {
                        bufs.extend([1, 2, 3, n / 2 + 1, n.max(2) - 1]);
                    }
                    if n > 5000 {
                        bufs.retain(|b| *b > 2);
                    }
                    for b in bufs {
                        let d = bytes(n, (n + pad + b) as u64);
                        s.send(APPDATA, &d, pad);
                        c.trans(1);
                        if let Err(e) = read_all(&mut s, &d, b) {
                            return c.fail(format!("padding {pad}, buffer {b}: {e}"));
                        }
                    }
                }
                c.outcome("equal");
                c.validated();
            });
            // every size of the pieces which the transport delivers
            let segs: Vec<usize> = if th { (1..=300).collect() } else { (1..=60).chain([64, 100, 255, 1000, 4095, 4096, 4097]).collect() };
            chk.each(&format!("segment-{tag}"), &segs, |g, c| {
                if c.begin(format!("{g}")) {
                    c.nontrivial(("g", g, server, suite));
                    let Some(mut s) = open(pki, server, suite, c) else { return };
                    lk(&s.sock()).seg = vec![*g];
                    let mut want = vec![];
                    let mut all = vec![];
                    let mut d = s.wr();
                    for n in [0, 1, 17, 300, 0, 5000, 16384, 3] {
                        let x = bytes(n, n as u64);
                        all.extend(d.seal_padded(APPDATA, &x, if n < 100 { n } else { 0 }));
                        want.extend(x);
                    }
                    s.push(all);
                    c.trans(8);
                    if let Err(e) = read_all(&mut s, &want, 1000) {
                        c.fail(e);
                    }
                    c.outcome("equal");
                    c.validated();
                }
            });
            // every single cut, every pair of cuts of two short records; with an interrupted call between
            let cuts: Vec<(usize, usize)> = {
                let l = 2 * (5 + 3 + 17);
                let mut v: Vec<(usize, usize)> = (0..=l).map(|i| (i, i)).collect();
                for i in 0..=l {
                    for j in i + 1..=l {
                        if th || (suite == CHACHA && (i % 5 == 0 || j % 5 == 0 || j - i < 3)) {
                            v.push((i, j));
                        }
                    }
                }
                v
            };
            chk.each(&format!("cut-{tag}"), &cuts, |(i, j), c| {
                if c.begin(format!("{i}-{j}")) {
                    c.nontrivial(("c", i, j, server, suite));
                    let Some(mut s) = open(pki, server, suite, c) else { return };
                    let mut d = s.wr();
                    let all = [d.seal(APPDATA, b"abc"), d.seal(APPDATA, b"def")].concat();
                    for p in [&all[..*i], &all[*i..*j], &all[*j..]] {
                        if !p.is_empty() {
                            s.push(p.to_vec());
                        }
                    }
                    let k = lk(&s.sock()).recv_calls;
                    lk(&s.sock()).recv_faults = vec![(k + 1, Fault::Errno(EINTR)), (k + 3, Fault::Errno(EINTR))];
                    c.trans(2);
                    if let Err(e) = read_all(&mut s, b"abcdef", 4) {
                        c.fail(e);
                    }
                    c.outcome("equal");
                    c.validated();
                }
            });
            // the transport takes only a part of what is written
            let shorts: Vec<usize> = (1..=40).chain([100, 1000, 4096, 16000, 16384, 16400, 16405]).collect();
            chk.each(&format!("short-write-{tag}"), &shorts, |m, c| {
                if c.begin(format!("{m}")) {
                    c.nontrivial(("sw", m, server, suite));
                    let Some(mut s) = open(pki, server, suite, c) else { return };
                    let n = if *m < 40 { 100 } else { 40000 };
                    let first = lk(&s.sock()).send_calls;
                    // every call short, every third interrupted
                    lk(&s.sock()).send_faults =
                        (0..60000).map(|i| (first + i, if i % 3 == 2 && i < 30 { Fault::Errno(EINTR) } else { Fault::Short(*m) })).take(if *m < 40 { 500 } else { 1500 }).collect();
                    c.trans(3);
                    for k in 0..3 {
                        if let Err(e) = put(&mut s, &bytes(n, k)) {
                            return c.fail(e);
                        }
                    }
                    c.outcome("equal");
                    c.validated();
                }
            });
            // many records in both directions
            let many: &[usize] = if th { &[300, 700, 66000] } else { &[300, 700] };
            chk.each(&format!("many-{tag}"), many, |n, c| {
                if c.begin(format!("{n}")) {
                    c.nontrivial(("many", n, server, suite));
                    let Some(mut s) = open(pki, server, suite, c) else { return };
                    for i in 0..*n {
                        c.trans(2);
                        let x = [i as u8, (i >> 8) as u8];
                        if let Err(e) = put(&mut s, &x) {
                            return c.fail(format!("record {i}: {e}"));
                        }
                        s.send(APPDATA, &x, 0);
                        let mut b = [0; 4];
                        match tls_read(s.stream(), &mut b) {
                            Res::Ok(2) if b[..2] == x => (),
                            r => return c.fail(format!("record {i}: {}", r.name())),
                        }
                    }
                    c.outcome("equal");
                    c.validated();
                }
            });
        }
    }
    chk.assume("the reference peers follow RFC 8446; reads are made only when the peer sent data");
    chk.finish();
}
