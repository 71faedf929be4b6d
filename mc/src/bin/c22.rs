//! C22: a complete session (handshake, writes, reads, close_notify) of the real code, with every
//! failure of the transport at every operation and after every byte, single and in pairs.

use mc::prelude::*;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Conf {
    server: bool,
    auth: bool,
    suite: u16,
    /// Bytes per read call, 0 for all there is
    seg: usize,
}
impl Conf {
    fn name(&self) -> String {
        format!(
            "{}.{}.auth{}.seg{}",
            if self.server { "server" } else { "client" },
            suite_name(self.suite),
            self.auth as u8,
            self.seg
        )
    }
}

#[derive(Clone, Debug, Default)]
struct Plan {
    recv: Vec<(usize, Fault)>,
    send: Vec<(usize, Fault)>,
    recv_cut: Option<(usize, Fault)>,
    send_cut: Option<(usize, i32)>,
}
fn fatal(f: &Fault) -> bool {
    match f {
        Fault::Short(_) => false,
        Fault::Errno(e) => *e != EINTR,
        Fault::Eof => true,
    }
}

const W: [usize; 3] = [10, 20000, 3];
const D: [usize; 3] = [5, 9000, 100];
fn wdata(i: usize) -> Vec<u8> {
    (0..W[i]).map(|j| (j * 3 + i + 1) as u8).collect()
}
fn ddata() -> Vec<u8> {
    (0..D.iter().sum()).map(|j: usize| (j * 5 + 2) as u8).collect()
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Log {
    handshake: String,
    /// Bytes received and sent at the end of the handshake
    hs_rx: usize,
    hs_tx: usize,
    /// Result and bytes sent after each write
    writes: Vec<(String, usize)>,
    data: Vec<u8>,
    /// Bytes of the peer that had been received at each of the data lengths
    data_rx: Vec<(usize, usize)>,
    read_end: String,
    read_end_rx: usize,
    after: Vec<String>,
    sent: Vec<u8>,
    recv_calls: usize,
    send_calls: usize,
    io: Vec<Io>,
    peer_bad: Vec<String>,
    peer_partial: usize,
    peer_done: bool,
    peer_app: Vec<u8>,
    peer_alert: Option<(u8, u8, u8)>,
    /// Offset of the ends of: the last handshake record of the peer, its data records, close_notify
    offsets: Vec<usize>,
    panics: Vec<String>,
}

fn run(pki: &'static Pki, k: Conf, plan: &Plan) -> Log {
    fresh(22);
    let mut l = Log::default();
    let offsets = cell(vec![]);
    let off2 = offsets.clone();
    // data records and close_notify
    let tail = move |d: &mut Vec<u8>, wr: &mut Dir, before: usize| {
        let mut o = lk(&off2);
        o.push(before + d.len());
        let all = ddata();
        let mut p = 0;
        for n in D {
            d.extend(wr.seal(APPDATA, &all[p..p + n]));
            p += n;
            o.push(before + d.len());
        }
        d.extend(wr.seal(ALERT, &[1, 0]));
        o.push(before + d.len());
    };
    let (mut pc, mut ps) = (None, None);
    let sock: Sock;
    if k.server {
        let mut cfg = cli_cfg(pki, k.suite);
        cfg.server_cert = Some((pki.server.cert.clone(), pki.server.public));
        let peer = cell(Cli::new(cfg));
        let mut phase = 0;
        let mut first = 0;
        sock = client_sock(&peer, move |p: &mut Cli| {
            if phase == 0 {
                phase = 1;
                p.sent_hello();
                let r = plain_rec(HANDSHAKE, &p.ch.clone());
                first = r.len();
                p.out.push_back(r);
            } else if phase == 1 && p.wait == Wait::Done {
                phase = 2;
                let mut d = plain_rec(CCS, &[1]);
                let chain = [pki.client.cert.clone()];
                for m in p.honest_messages(if k.auth { Some((&chain, &pki.client.key)) } else { None }) {
                    d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                p.to_app();
                tail(&mut d, p.wr.as_mut().unwrap(), first);
                p.out.push_back(d);
            }
        });
        pc = Some(peer);
    } else {
        let mut cfg = srv_cfg(pki, k.suite);
        if k.auth {
            cfg.request = Some(vec![1]);
        }
        let mut srv = Srv::new(cfg);
        srv.client_key = Some(pki.client.public);
        let peer = cell(srv);
        let mut phase = 0;
        sock = server_sock(&peer, move |p: &mut Srv| {
            if phase == 0 && !p.ch.is_empty() {
                phase = 1;
                let m = p.m_hello();
                let mut d = plain_rec(HANDSHAKE, &m);
                d.extend(plain_rec(CCS, &[1]));
                for m in p.honest_messages() {
                    d.extend(p.wr.as_mut().unwrap().seal(HANDSHAKE, &m));
                }
                p.to_app();
                tail(&mut d, p.wr.as_mut().unwrap(), 0);
                p.out.push_back(d);
            }
        });
        ps = Some(peer);
    }
    {
        let mut s = lk(&sock);
        s.recv_faults = plan.recv.clone();
        s.send_faults = plan.send.clone();
        s.recv_cut = plan.recv_cut;
        s.send_cut = plan.send_cut;
        if k.seg > 0 {
            s.seg = vec![k.seg];
        }
    }
    let r = if k.server {
        let mut b = server_builder(pki);
        if k.auth {
            b = b.add_client_cert_ca(pki.ca.cert_path.clone());
        }
        accept(b, &sock)
    } else {
        let mut b = CB::new();
        if k.auth {
            b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
        }
        connect(b, &sock)
    };
    l.handshake = r.name();
    l.hs_rx = lk(&sock).total_rx;
    l.hs_tx = lk(&sock).sent.len();
    let mut note = |r: String| {
        if r.starts_with("panic") {
            l.panics.push(r);
        }
    };
    note(l.handshake.clone());
    if let Res::Ok(mut s) = r {
        for i in 0..2 {
            let r = tls_write(&mut s, &wdata(i)).name();
            note(r.clone());
            l.writes.push((r, lk(&sock).sent.len()));
        }
        let mut b = vec![0; 4096];
        for _ in 0..100 {
            let r = tls_read(&mut s, &mut b);
            note(r.name());
            match r {
                Res::Ok(n) => {
                    l.data.extend_from_slice(&b[..n]);
                    l.data_rx.push((l.data.len(), lk(&sock).total_rx));
                    l.read_end = "endless".into();
                }
                r => {
                    l.read_end = r.name();
                    l.read_end_rx = lk(&sock).total_rx;
                    break;
                }
            }
        }
        // after the error
        let r = tls_write(&mut s, &wdata(2)).name();
        note(r.clone());
        l.writes.push((r, lk(&sock).sent.len()));
        for _ in 0..3 {
            let r = tls_read(&mut s, &mut b);
            note(r.name());
            if let Res::Ok(n) = r {
                l.data.extend_from_slice(&b[..n]);
                l.data_rx.push((l.data.len(), lk(&sock).total_rx));
            }
            l.after.push(r.name());
        }
        if let Err(p) = caught(move || drop(s)) {
            l.panics.push(p);
        }
    }
    if let Some(p) = &pc {
        flush_client(&sock, p);
        let p = lk(p);
        l.peer_bad = p.bad.clone();
        l.peer_partial = p.partial();
        l.peer_done = p.wait == Wait::Done;
        l.peer_app = p.app_data();
        l.peer_alert = p.got_alert;
    }
    if let Some(p) = &ps {
        flush_server(&sock, p);
        let p = lk(p);
        l.peer_bad = p.bad.clone();
        l.peer_partial = p.partial();
        l.peer_done = p.wait == Wait::Done;
        l.peer_app = p.app_data();
        l.peer_alert = p.got_alert;
    }
    let s = lk(&sock);
    l.sent = s.sent.clone();
    l.recv_calls = s.recv_calls;
    l.send_calls = s.send_calls;
    l.io = s.io.clone();
    l.offsets = lk(&offsets).clone();
    l
}

/// What a failure of this plan may change
fn judge(c: &mut Case, base: &Log, plan: &Plan, l: &Log) {
    c.check(l.panics.is_empty(), format!("{:?}", l.panics));
    let all = ddata();
    c.check(all.starts_with(&l.data), "the data which was read is not what the peer sent");
    // did a fatal failure happen, and where?
    let rx_failed = l.io.iter().any(|i| matches!(i, Io::RecvEof) || matches!(i, Io::RecvErr(e) if *e != EINTR))
        && (plan.recv.iter().any(|f| fatal(&f.1)) || plan.recv_cut.is_some());
    let tx_failed = l.io.iter().any(|i| matches!(i, Io::SendErr(e) if *e != EINTR)) || l.io.contains(&Io::Send(0));
    if !rx_failed && !tx_failed {
        c.check(
            l.handshake == base.handshake
                && l.writes == base.writes
                && l.data == base.data
                && l.read_end == base.read_end
                && l.after == base.after
                && l.sent == base.sent,
            format!(
                "interruptions and short transfers change the session: handshake {}, writes {:?}, {} bytes read, then {}, {} bytes sent",
                l.handshake,
                l.writes,
                l.data.len(),
                l.read_end,
                l.sent.len()
            ),
        );
        c.outcome("not affected");
        c.nontrivial((&l.io.len(), &l.io.iter().filter(|i| matches!(i, Io::RecvErr(_) | Io::SendErr(_))).count()));
        return;
    }
    // the sequence of operations until the first fatal failure
    let mut rx = 0;
    let mut tx = 0;
    for i in &l.io {
        match i {
            Io::Recv(n) => rx += n,
            Io::Send(0) => break,
            Io::Send(n) => tx += n,
            Io::RecvEof => break,
            Io::RecvErr(e) | Io::SendErr(e) if *e != EINTR => break,
            _ => (),
        }
    }
    let ends = &base.offsets;
    // handshake: complete exactly if everything was received and sent before
    let complete = rx >= ends[0] && tx >= base.hs_tx;
    if l.handshake == "ok" {
        c.check(complete, format!("the handshake succeeded although the transport failed after {rx} received and {tx} sent bytes"));
    } else {
        c.check(!(complete && rx >= base.hs_rx), format!("the handshake failed with {} although it was complete before the failure", l.handshake));
        c.check(l.handshake != "CloseNotify", "the failure is reported as an orderly end");
    }
    // writes: acknowledged means sent, and in order
    for (i, (r, n)) in l.writes.iter().enumerate() {
        if r == "ok" {
            c.check(
                *n >= base.writes[i].1 && base.sent.starts_with(&l.sent[..base.writes[i].1.min(l.sent.len())]),
                format!("write {i} succeeded, but not all of it was sent"),
            );
        }
    }
    if !tx_failed {
        c.check(l.writes[..].iter().all(|w| w.0 == "ok") || rx_failed, "a write failed without a failure");
    }
    if tx_failed {
        c.check(
            base.sent.starts_with(&l.sent),
            format!("after a failed write other bytes were sent: {} bytes, the failure was after {tx}", l.sent.len()),
        );
        if l.handshake == "ok" {
            c.check(l.writes.iter().any(|w| w.0 != "ok"), "every write succeeded although one could not be sent");
        }
    } else {
        c.check(l.peer_bad.is_empty(), format!("the peer: {:?}", l.peer_bad));
        c.check(l.peer_partial == 0, "an incomplete record was sent");
    }
    // reads: only complete records, and the end only if it was received
    let whole = |rx: usize| (0..3).filter(|i| ends[i + 1] <= rx).map(|i| D[i]).sum::<usize>();
    for (n, rx) in &l.data_rx {
        c.check(*n <= whole(*rx), format!("{n} bytes of data were read when only {} were received completely", whole(*rx)));
    }
    if l.handshake == "ok" {
        c.check(
            l.read_end != "CloseNotify" || l.read_end_rx >= ends[4],
            format!("reported as an orderly end after {} of {} bytes", l.read_end_rx, ends[4]),
        );
        c.check(l.read_end != "endless" && l.read_end != "ok", "the reads never end");
        // the first failure stays: an end does, an error at one call does not
        let first = l.io.iter().find(|i| matches!(i, Io::RecvEof) || matches!(i, Io::RecvErr(e) if *e != EINTR));
        let persistent = first == Some(&Io::RecvEof) || (plan.recv_cut.is_some() && !plan.recv.iter().any(|f| fatal(&f.1)));
        if persistent && rx_failed {
            for a in &l.after {
                c.check(a != "ok" && (a != "CloseNotify" || l.read_end == "CloseNotify"), format!("after the end of the transport a read gives {a}"));
            }
            // everything which was complete is delivered
            if !tx_failed {
                c.check(
                    l.data.len() == whole(rx),
                    format!("{} bytes of complete records were received, but {} read", whole(rx), l.data.len()),
                );
            }
        }
    }
    c.outcome(format!(
        "{}: handshake {}, reads end with {}",
        if tx_failed { "send failed" } else { "receive failed" },
        l.handshake,
        if l.handshake == "ok" { &l.read_end } else { "-" }
    ));
    c.nontrivial((l.handshake.clone(), rx, tx, l.read_end.clone(), l.data.len()));
}

const ETIMEDOUT: i32 = 110;
const ENOTCONN: i32 = 107;
const EIO: i32 = 5;

fn main() {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let chk = Check::start(
        "C22",
        "fault_enumeration",
        "every failure (end, errors, interruptions, short transfers) at every single read and write call of a session, for several segmentations; \
         the end and an error after every byte received and every byte sent; all pairs of failures at all pairs of calls",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let mut confs = vec![];
    for server in [true, false] {
        for auth in [true, false] {
            for suite in SUITES {
                for seg in [0, 1, 7, 300] {
                    if (seg == 1 || seg == 7 && suite == AES256) && suite != AES128 && !thorough {
                        continue;
                    }
                    confs.push(Conf { server, auth, suite, seg });
                }
            }
        }
    }
    let bases: Mutex<Vec<(Conf, Log)>> = Mutex::default();
    chk.each("plain", &confs, |k, c| {
        let id = k.name();
        let run_it = c.begin(&id);
        let l = run(pki, *k, &Plan::default());
        if run_it {
            c.check(
                l.handshake == "ok"
                    && l.panics.is_empty()
                    && l.peer_bad.is_empty()
                    && l.writes.iter().all(|w| w.0 == "ok")
                    && l.data == ddata()
                    && l.read_end == "CloseNotify"
                    && l.peer_app == [wdata(0), wdata(1), wdata(2)].concat(),
                format!("the session without failures: {} {:?} {} {:?} {}", l.handshake, l.panics, l.read_end, l.peer_bad, l.data.len()),
            );
            c.rerun(run(pki, *k, &Plan::default()) == l);
            c.outcome(format!("{} reads, {} writes", l.recv_calls, l.send_calls));
        }
        bases.lock().unwrap().push((*k, l));
    });
    let bases = bases.into_inner().unwrap();
    if bases.iter().any(|b| b.1.handshake != "ok" || b.1.read_end != "CloseNotify") {
        chk.finish();
    }
    let base = |k: &Conf| &bases.iter().find(|b| b.0 == *k).unwrap().1;

    let recv_faults = |thorough: bool| {
        let mut v = vec![
            Fault::Eof,
            Fault::Errno(ECONNRESET),
            Fault::Errno(EINTR),
            Fault::Errno(EAGAIN),
            Fault::Errno(ETIMEDOUT),
            Fault::Short(1),
        ];
        if thorough {
            v.extend([Fault::Errno(EPIPE), Fault::Errno(ENOTCONN), Fault::Errno(EIO), Fault::Short(2), Fault::Short(5)]);
        }
        v
    };
    let send_faults = |thorough: bool| {
        let mut v = vec![
            Fault::Eof,
            Fault::Errno(ECONNRESET),
            Fault::Errno(EINTR),
            Fault::Errno(EAGAIN),
            Fault::Short(0),
            Fault::Short(1),
            Fault::Short(5),
        ];
        if thorough {
            v.extend([Fault::Errno(EPIPE), Fault::Errno(ETIMEDOUT), Fault::Errno(EIO), Fault::Short(3), Fault::Short(100), Fault::Short(2000)]);
        }
        v
    };

    // single failures
    let mut items = vec![];
    for k in &confs {
        let b = base(k);
        let few = k.seg == 1 && !thorough;
        for i in 0..b.recv_calls + 1 {
            // the inside of the large record is the same everywhere
            if few && i > 700 && i % 97 != 0 || !thorough && k.seg == 7 && i > 250 && i % 13 != 0 {
                continue;
            }
            for f in recv_faults(thorough) {
                if few && f != Fault::Eof && f != Fault::Errno(EINTR) {
                    continue;
                }
                items.push((*k, format!("recv{i}.{f:?}"), Plan { recv: vec![(i, f)], ..Default::default() }));
            }
        }
        for i in 0..b.send_calls + 1 {
            for f in send_faults(true) {
                if few {
                    continue;
                }
                items.push((*k, format!("send{i}.{f:?}"), Plan { send: vec![(i, f)], ..Default::default() }));
            }
            // the write is cut, the rest fails
            for n in [1, 4, 5, 20] {
                for f in [Fault::Eof, Fault::Errno(ECONNRESET), Fault::Errno(EINTR)] {
                    items.push((*k, format!("send{i}.cut{n}.{f:?}"), Plan { send: vec![(i, Fault::Short(n)), (i + 1, f)], ..Default::default() }));
                }
            }
        }
        // several interruptions in a row
        for i in 0..b.recv_calls.min(60) {
            let recv: Vec<(usize, Fault)> = (i..i + 5).map(|j| (j, Fault::Errno(EINTR))).collect();
            items.push((*k, format!("recv{i}.interrupted5"), Plan { recv, ..Default::default() }));
        }
        for i in 0..b.send_calls {
            let send: Vec<(usize, Fault)> = (i..i + 5).map(|j| (j, Fault::Errno(EINTR))).collect();
            items.push((*k, format!("send{i}.interrupted5"), Plan { send, ..Default::default() }));
        }
    }
    let go = |(k, n, p): &(Conf, String, Plan), c: &mut Case| {
        if c.begin(format!("{}.{n}", k.name())) {
            let l = run(pki, *k, p);
            judge(c, base(k), p, &l);
        }
    };
    chk.each("single", &items, go);

    // after every byte
    let mut items = vec![];
    for k in &confs {
        if k.seg != 0 || (k.suite != CHACHA && k.auth && !thorough) {
            continue;
        }
        let b = base(k);
        let close = b.offsets[4];
        for n in 0..close {
            // the inside of the large record is the same everywhere
            if !thorough && n > b.offsets[1] + 40 && n + 40 < b.offsets[2] && n % 59 != 0 {
                continue;
            }
            for f in [Fault::Eof, Fault::Errno(ECONNRESET)] {
                items.push((*k, format!("recv-cut{n}.{f:?}"), Plan { recv_cut: Some((n, f)), ..Default::default() }));
            }
        }
        for n in 0..b.sent.len() {
            if !thorough && n > b.hs_tx + 80 && n + 80 < b.sent.len() && n % 59 != 0 && !(16000..17000).contains(&(n - b.hs_tx)) {
                continue;
            }
            items.push((*k, format!("send-cut{n}"), Plan { send_cut: Some((n, EPIPE)), ..Default::default() }));
        }
    }
    chk.each("bytes", &items, go);

    // pairs
    let mut items = vec![];
    for k in &confs {
        if k.seg != 0 || (k.suite != AES128 && !thorough) {
            continue;
        }
        let b = base(k);
        let calls: Vec<(bool, usize)> = (0..b.recv_calls).map(|i| (true, i)).chain((0..b.send_calls + 1).map(|i| (false, i))).collect();
        for (x, a) in calls.iter().enumerate() {
            for a2 in &calls[x + 1..] {
                let fs = |r: bool| if r { recv_faults(false) } else { send_faults(false) };
                for f in fs(a.0) {
                    for f2 in fs(a2.0) {
                        let mut p = Plan::default();
                        for (w, f) in [(a, f), (a2, f2)] {
                            if w.0 {
                                p.recv.push((w.1, f));
                            } else {
                                p.send.push((w.1, f));
                            }
                        }
                        items.push((*k, format!("pair.{a:?}.{f:?}.{a2:?}.{f2:?}").replace(", ", "-"), p));
                    }
                }
            }
        }
    }
    chk.each("pairs", &items, go);

    // failures of accept itself: each is reported, and the server goes on
    const ERRORS: [i32; 8] = [EINTR, 103, EAGAIN, 24, 23, 71, 105, 12];
    let mut words: Vec<Vec<i32>> = vec![vec![]];
    let mut last = words.clone();
    for _ in 0..if chk.thorough { 4 } else { 3 } {
        last = last.iter().flat_map(|w| ERRORS.iter().map(move |e| [&w[..], &[*e]].concat())).collect();
        words.extend(last.clone());
    }
    chk.each("accept", &words, |w, c| {
        if !c.begin(w.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("-")) {
            return;
        }
        c.nontrivial(("accept", w));
        fresh(22);
        let (fd, l) = virtual_listener();
        w.iter().for_each(|e| enqueue_error(fd, *e));
        let peer = cell(Cli::new(cli_cfg(pki, CHACHA)));
        let sock = client_sock(&peer, honest_client(None));
        enqueue(fd, sock.clone());
        let server = match caught(|| anothertls::ServerConnection::new(l, server_builder(pki).build().unwrap())) {
            Ok(s) => s,
            Err(e) => return c.fail(format!("panic: {e}")),
        };
        for e in w.iter().filter(|e| **e != EINTR) {
            match caught(|| server.accept().map(|_| ())) {
                Ok(Err(_)) => c.trans(1),
                r => return c.fail(format!("accept fails with errno {e}, the server says {r:?}")),
            }
        }
        match caught(|| server.accept()) {
            Ok(Ok((mut s, _))) => {
                let r = tls_write(&mut s, b"data");
                flush_client(&sock, &peer);
                c.check(r.is_ok() && lk(&peer).app_data() == b"data", "the connection after the failures does not work");
                c.outcome("the server goes on");
            }
            r => c.fail(format!("the connection after the failures gives {:?}", r.map(|r| r.map(|_| ())))),
        }
    });
    chk.finish()
}
