//! C18: the key log of real connections, on a real file, with all interleavings of the file
//! operations of several connections, and faults of every operation.

use mc::prelude::*;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Log {
    None,
    Path(String),
    Default,
}
#[derive(Clone, Debug)]
struct Conn {
    server: bool,
    suite: u16,
    /// The client authenticates
    auth: bool,
    seed: u64,
    log: Log,
    /// The peer ends after this number of bytes
    cut: Option<usize>,
    /// This byte from the peer is changed
    flip: Option<usize>,
}
struct Out {
    res: String,
    ok: bool,
    /// Lines that have to be and that may be there
    must: BTreeSet<String>,
    may: BTreeSet<String>,
    sent: Vec<u8>,
    received: usize,
    bad: Vec<String>,
    data: bool,
    /// The hello of the peer was changed: the two have different secrets
    differ: bool,
}

fn lines(random: &[u8], s: &Sched, app: Option<(Vec<u8>, Vec<u8>)>) -> Vec<String> {
    let r = to_hex(random);
    let mut v = vec![format!("SERVER_HANDSHAKE_TRAFFIC_SECRET {r} {}", to_hex(&s.server_hs)), format!("CLIENT_HANDSHAKE_TRAFFIC_SECRET {r} {}", to_hex(&s.client_hs))];
    if let Some((c, s)) = app {
        v.push(format!("SERVER_TRAFFIC_SECRET_0 {r} {}", to_hex(&s)));
        v.push(format!("CLIENT_TRAFFIC_SECRET_0 {r} {}", to_hex(&c)));
    }
    v
}

/// One connection in the calling thread. The virtual file is set by the caller.
fn connection(pki: &'static Pki, k: &Conn, after_config: impl FnOnce()) -> Out {
    let differ = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mark = differ.clone();
    let edit = move |sock: &Sock, k: &Conn| {
        let mut s = lk(sock);
        if let Some(n) = k.cut {
            s.recv_cut = Some((n, Fault::Eof));
        }
        if let Some(n) = k.flip {
            let mut inner = s.driver.take().unwrap();
            let mut at = 0;
            let mark = mark.clone();
            s.driver = Some(Box::new(move |tx: &mut Vec<u8>| {
                let mut r = inner.step(tx);
                if let Step::Data(d) = &mut r {
                    if n >= at && n < at + d.len() {
                        // within the first record, a hello
                        if at == 0 && n < 5 + u16::from_be_bytes([d[3], d[4]]) as usize {
                            mark.store(true, std::sync::atomic::Ordering::SeqCst);
                        }
                        d[n - at] ^= 0x11;
                    }
                    at += d.len();
                }
                r
            }));
        }
    };
    let fin = |res: Res<anothertls::net::TlsStream>, sock: &Sock, push: &dyn Fn(bool) -> Vec<u8>| {
        let (ok, name) = (res.is_ok(), res.name());
        let mut data = false;
        if let Some(mut s) = res.ok() {
            let w = tls_write(&mut s, b"from the code under test").is_ok();
            let want = push(true);
            let mut buf = [0; 100];
            let r = tls_read(&mut s, &mut buf).ok();
            data = w && r == Some(want.len()) && buf[..want.len()] == want[..];
            push(false);
        }
        let mut s = lk(sock);
        (ok, name, data, std::mem::take(&mut s.sent), s.total_rx)
    };
    if k.server {
        let mut cfg = cli_cfg(pki, k.suite);
        cfg.random[..8].copy_from_slice(&mix(k.seed).to_be_bytes());
        cfg.sk[..8].copy_from_slice(&mix(k.seed + 1000).to_be_bytes());
        let random = cfg.random;
        let peer = cell(Cli::new(cfg));
        let auth = k.auth.then(|| (vec![pki.client.cert.clone()], pki.client.key));
        let sock = client_sock(&peer, honest_client(auth));
        edit(&sock, k);
        let mut b = server_builder(pki);
        if k.auth {
            b = b.add_client_cert_ca(pki.ca.cert_path.clone());
        }
        match &k.log {
            Log::None => (),
            Log::Path(p) => b = b.set_keylog_path(p.clone()),
            Log::Default => b = b.enable_keylog(),
        }
        after_config();
        let r = accept(b, &sock);
        let p2 = peer.clone();
        let sk = sock.clone();
        let (ok, res, data, sent, received) = fin(r, &sock, &|go| {
            flush_client(&sk, &p2);
            if go {
                let mut p = lk(&p2);
                let rec = p.wr.as_mut().unwrap().seal(APPDATA, b"from the peer");
                p.out.push_back(rec);
            }
            b"from the peer".to_vec()
        });
        flush_client(&sock, &peer);
        let p = lk(&peer);
        let mut may = BTreeSet::new();
        let mut must = BTreeSet::new();
        if let Some(s) = &p.sched {
            let l = lines(&random, s, p.app.clone());
            may.extend(l.clone());
            must.extend(l.into_iter().take(if ok { 4 } else { 2 }));
        }
        if ok && must.len() != 4 {
            must.insert("harness: four lines".into());
        }
        // the peer reports missing data when the code under test refuses what was changed
        Out { res, ok, must, may, sent, received, bad: if ok { p.bad.clone() } else { vec![] }, data, differ: differ.load(std::sync::atomic::Ordering::SeqCst) }
    } else {
        let mut cfg = srv_cfg(pki, k.suite);
        cfg.random[..8].copy_from_slice(&mix(k.seed).to_be_bytes());
        cfg.sk[..8].copy_from_slice(&mix(k.seed + 1000).to_be_bytes());
        cfg.request = k.auth.then(|| b"context".to_vec());
        let peer = cell(Srv::new(cfg));
        let sock = server_sock(&peer, honest_server());
        edit(&sock, k);
        let mut b = CB::new();
        if k.auth {
            b = b.add_client_cert_pem(pki.client.cert_path.clone()).add_client_key_pem(pki.client.key_path.clone());
        }
        match &k.log {
            Log::None => (),
            Log::Path(p) => b = b.set_keylog_path(p.clone()),
            Log::Default => b = b.enable_keylog(),
        }
        after_config();
        let r = connect(b, &sock);
        let p2 = peer.clone();
        let sk = sock.clone();
        let (ok, res, data, sent, received) = fin(r, &sock, &|go| {
            flush_server(&sk, &p2);
            if go {
                let mut p = lk(&p2);
                let rec = p.wr.as_mut().unwrap().seal(APPDATA, b"from the peer");
                p.out.push_back(rec);
            }
            b"from the peer".to_vec()
        });
        flush_server(&sock, &peer);
        let p = lk(&peer);
        let mut may = BTreeSet::new();
        let mut must = BTreeSet::new();
        if let Some(s) = &p.sched {
            let l = lines(&p.client_random, s, p.app.clone());
            may.extend(l.clone());
            // a protected record from the client
            let used = p.recs.iter().any(|r| r.typ == 23);
            must.extend(l.into_iter().take(if ok { 4 } else if used { 2 } else { 0 }));
        }
        if ok && must.len() != 4 {
            must.insert("harness: four lines".into());
        }
        Out { res, ok, must, may, sent, received, bad: if ok { p.bad.clone() } else { vec![] }, data, differ: differ.load(std::sync::atomic::Ordering::SeqCst) }
    }
}

/// The file has the old content and then exactly the lines of the connections
fn judge_file(c: &mut Case, before: &[u8], after: Option<Vec<u8>>, outs: &[&Out], faulty: bool) {
    let what = |after: &Option<Vec<u8>>| match after {
        None => "no file".to_string(),
        Some(a) => format!("{:?}", String::from_utf8_lossy(&a[before.len().min(a.len())..])),
    };
    let Some(content) = &after else {
        let need = outs.iter().any(|o| !o.must.is_empty());
        c.check(!need || faulty, "there is no key log");
        return;
    };
    if !content.starts_with(before) {
        c.fail(format!("the existing content is not kept: {}", to_hex(&content[..content.len().min(300)])));
        return;
    }
    let text = String::from_utf8_lossy(&content[before.len()..]).to_string();
    let mut left: BTreeSet<String> = outs.iter().flat_map(|o| o.may.iter().cloned()).collect();
    let mut must: BTreeSet<String> = outs.iter().flat_map(|o| o.must.iter().cloned()).collect();
    let mut rest = &text[..];
    while let Some(n) = rest.find('\n') {
        let (label, tail) = rest[..n].split_once(' ').unwrap_or((&rest[..n], ""));
        let l = format!("{label} {}", tail.to_lowercase());
        let ok = left.remove(&l);
        must.remove(&l);
        if !ok && !faulty {
            c.fail(format!("the line {l:?} is none of these connections, or doubled: {}", what(&after)));
            return;
        }
        rest = &rest[n + 1..];
    }
    if !faulty {
        c.check(rest.is_empty(), format!("an incomplete line: {}", what(&after)));
        c.check(must.is_empty(), format!("missing: {must:?} in {}", what(&after)));
    }
}
/// Only the form: the secrets of the code under test are not known
fn judge_form(c: &mut Case, before: &[u8], after: Option<Vec<u8>>) {
    let Some(content) = after else { return };
    if !content.starts_with(before) {
        c.fail("the existing content is not kept");
        return;
    }
    let text = String::from_utf8_lossy(&content[before.len()..]).to_string();
    c.check(text.is_empty() || text.ends_with('\n'), format!("an incomplete line: {text:?}"));
    let mut seen = BTreeSet::new();
    // another suite may be chosen after the change
    let hash = |n: usize| n == 64 || n == 96;
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let known = ["SERVER_HANDSHAKE_TRAFFIC_SECRET", "CLIENT_HANDSHAKE_TRAFFIC_SECRET", "SERVER_TRAFFIC_SECRET_0", "CLIENT_TRAFFIC_SECRET_0"];
        let ok = f.len() == 3 && known.contains(&f[0]) && f[1].len() == 64 && hash(f[2].len()) && f[1..].iter().all(|x| x.bytes().all(|b| b.is_ascii_hexdigit()));
        c.check(ok, format!("not a line of a key log: {l:?}"));
        c.check(seen.insert(f[0].to_string()), format!("doubled: {l:?}"));
    }
}
fn judge_conn(c: &mut Case, o: &Out) {
    c.check(!o.res.starts_with("panic"), &o.res);
    c.check(o.bad.is_empty(), format!("the peer reports {:?}", o.bad));
    c.check(o.ok == o.data, format!("handshake {}, data exchange {}", o.res, o.data));
}
fn shared(path: &str, real: bool) -> Arc<Mutex<VFile>> {
    Arc::new(Mutex::new(VFile { prefix: path.into(), real, ..Default::default() }))
}
fn prepare(path: &str, before: Option<&[u8]>) {
    let _ = std::fs::remove_file(path);
    if let Some(b) = before {
        std::fs::write(path, b).unwrap();
    }
}

fn main() {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let chk = Check::start(
        "C18",
        "model_checking",
        "states are the contents of the key log after each schedule, transitions the operations on the file: real handshakes of both roles with all suites, ended or disturbed at every byte, \
         all interleavings of the file operations of two connections, of three with few deviations, and every fault of every file operation; the lines are compared with the secrets of the reference peer",
    );
    let pki: &'static Pki = Box::leak(Box::new(Pki::new()));
    let dir = std::path::Path::new(&pki.server.key_path).parent().unwrap().to_str().unwrap().to_string();
    let suites = [0x1301u16, 0x1302, 0x1303];
    let mine = || format!("{dir}/log{:?}", std::thread::current().id()).replace(['(', ')'], "");
    let conn = |server: bool, suite: u16, auth: bool, seed: u64, log: Log| Conn { server, suite, auth, seed, log, cut: None, flip: None };
    let alone = |k: &Conn, f: Option<Arc<Mutex<VFile>>>| {
        fresh(k.seed);
        let o = connection(pki, k, || {
            set_vfile_shared(f);
        });
        set_vfile_shared(None);
        o
    };

    // ------------------------------------------------ one connection
    let contents: Vec<(&str, Option<Vec<u8>>)> = vec![
        ("absent", None),
        ("empty", Some(vec![])),
        ("lines", Some(b"# comment\nCLIENT_RANDOM 00 11\n".to_vec())),
        ("binary", Some([&[0xffu8, 0, 13][..], b"\r\n"].concat())),
        ("big", Some([&[b'x'; 100_000][..], b"\n"].concat())),
    ];
    let mut v = vec![];
    for server in [true, false] {
        for suite in suites {
            for auth in [false, true] {
                for (n, b) in &contents {
                    v.push((server, suite, auth, *n, b.clone()));
                }
            }
        }
    }
    chk.each("alone", &v, |(server, suite, auth, n, before), c| {
        let id = format!("{}.{suite:04x}.{auth}.{n}", if *server { "server" } else { "client" });
        let path = mine();
        if c.begin(&id) {
            prepare(&path, before.as_deref());
            let f = shared(&path, true);
            let mut content = before.clone().unwrap_or_default();
            // one connection after the other
            for seed in 0..3 {
                let k = conn(*server, *suite, *auth, seed, Log::Path(path.clone()));
                let o = alone(&k, Some(f.clone()));
                judge_conn(c, &o);
                c.check(o.ok, format!("the handshake fails: {}", o.res));
                let now = std::fs::read(&path).ok();
                judge_file(c, &content, now.clone(), &[&o], false);
                content = now.unwrap_or_default();
                c.state((&content, seed));
                c.trans(lk(&f).ops.len());
                let plain = alone(&conn(*server, *suite, *auth, seed, Log::None), None);
                c.check(plain.sent == o.sent, "the key log changes what is sent");
                c.validated();
            }
            c.outcome("logged");
        }
        // no key log: nothing is written
        if c.begin(format!("{id}.off")) {
            let f = shared("", false);
            lk(&f).prefix = "/".into();
            let g = f.clone();
            let k = conn(*server, *suite, *auth, 7, Log::None);
            let o = alone(&k, Some(g));
            judge_conn(c, &o);
            let ops = std::mem::take(&mut lk(&f).ops);
            c.check(ops.is_empty(), format!("files are used: {ops:?}"));
            c.outcome("nothing written");
        }
        if c.begin(format!("{id}.default")) {
            let f = shared("keylog.txt", false);
            let o = alone(&conn(*server, *suite, *auth, 8, Log::Default), Some(f.clone()));
            judge_conn(c, &o);
            let ops = std::mem::take(&mut lk(&f).ops);
            let mut content = vec![];
            for op in &ops {
                match op {
                    FileOp::Open { path, append, create, trunc } => c.check(path == "keylog.txt" && *append && *create && !trunc, format!("opened as {ops:?}")),
                    FileOp::Write(d) => content.extend(d),
                    FileOp::Close => (),
                }
            }
            judge_file(c, &[], Some(content), &[&o], false);
            c.outcome("keylog.txt");
        }
    });

    // ------------------------------------------------ unfinished connections
    let mut v = vec![];
    for server in [true, false] {
        for suite in suites {
            for auth in [false, true] {
                fresh(9);
                let o = alone(&conn(server, suite, auth, 9, Log::None), None);
                for n in 0..=o.received {
                    v.push((server, suite, auth, n));
                }
            }
        }
    }
    chk.each("unfinished", &v, |(server, suite, auth, n), c| {
        let path = mine();
        for flip in [false, true] {
            if c.begin(format!("{}.{suite:04x}.{auth}.{}{n}", if *server { "server" } else { "client" }, if flip { "changed" } else { "ended" })) {
                let before = b"before\n";
                prepare(&path, Some(before));
                let mut k = conn(*server, *suite, *auth, 9, Log::Path(path.clone()));
                if flip {
                    k.flip = Some(*n);
                } else {
                    k.cut = Some(*n);
                }
                let o = alone(&k, Some(shared(&path, true)));
                c.check(!o.res.starts_with("panic"), &o.res);
                let now = std::fs::read(&path).ok();
                c.state((&now, n));
                c.trans(1);
                if o.differ {
                    judge_form(c, before, now);
                    c.outcome("a changed hello");
                    continue;
                }
                judge_file(c, before, now, &[&o], false);
                c.validated();
                c.outcome(format!("{} {} lines needed", if o.ok { "ok," } else { "failed," }, o.must.len()));
            }
        }
    });

    // ------------------------------------------------ faults of the file
    let mut v = vec![];
    for server in [true, false] {
        for suite in suites {
            for auth in [false, true] {
                v.push((server, suite, auth));
            }
        }
    }
    chk.each("faults", &v, |(server, suite, auth), c| {
        let id = format!("{}.{suite:04x}.{auth}", if *server { "server" } else { "client" });
        let path = mine();
        let plain = alone(&conn(*server, *suite, *auth, 3, Log::None), None);
        let run = |name: String, c: &mut Case, f: &dyn Fn(&mut VFile), path: &str, lasting: bool| {
            if !c.begin(format!("{id}.{name}")) {
                return;
            }
            let file = shared(path, true);
            f(&mut lk(&file));
            let before = b"before\n";
            let normal = !path.ends_with('/') && !path.contains("missing");
            if normal {
                prepare(path, Some(before));
            }
            let o = alone(&conn(*server, *suite, *auth, 3, Log::Path(path.into())), Some(file.clone()));
            judge_conn(c, &o);
            c.check(o.ok, format!("the connection does not work: {}", o.res));
            c.check(o.sent == plain.sent, "the connection sends something else");
            c.trans(lk(&file).ops.len());
            if normal {
                let now = std::fs::read(path).ok();
                c.state((&now, &name));
                judge_file(c, before, now, &[&o], lasting);
            }
            c.outcome(if lasting { "lasting fault" } else { "transient fault" });
        };
        for e in [1, 2, 4, 5, 13, 21, 24, 28, 30] {
            if e != 4 {
                run(format!("open-all-{e}"), c, &|f| f.open_errno = e, &path, true);
            }
            for n in 0..6 {
                // an interruption is retried by the standard library
                run(format!("open{n}-{e}"), c, &|f| f.open_faults = vec![(n, e)], &path, e != 4);
                run(format!("write{n}-{e}"), c, &|f| f.write_faults = vec![(n, Fault::Errno(e))], &path, e != 4);
                if e != 4 {
                    run(format!("full-from{n}-{e}"), c, &|f| f.full_from = Some((n, e)), &path, true);
                }
                for m in 0..6 {
                    if e == 28 || thorough {
                        run(format!("pair{n}.{m}-{e}"), c, &|f| f.write_faults = vec![(n, Fault::Short(10)), (m, Fault::Errno(e))], &path, e != 4);
                    }
                }
            }
        }
        for n in 0..8 {
            for s in (0..20).chain([31, 32, 33, 64, 96, 97, 98, 99, 130, 161, 162, 163, 164, 200, 250, 300, 322, 323, 324]) {
                // a write of nothing is an error for the standard library
                run(format!("short{n}.{s}"), c, &|f| f.write_faults = vec![(n, Fault::Short(s))], &path, s == 0);
            }
        }
        for s in [1usize, 2, 7, 50] {
            run(format!("all-short{s}"), c, &|f| f.write_faults = (0..1000).map(|n| (n, Fault::Short(s))).collect(), &path, false);
        }
        run("directory".into(), c, &|_| (), &format!("{dir}/"), true);
        run("missing-directory".into(), c, &|_| (), &format!("{dir}/missing/log"), true);
    });
    // a device that is always full, and an unusable path
    chk.each("paths", &v, |(server, suite, auth), c| {
        for p in ["/dev/full", "", "/", "/proc/none", "a\0b"] {
            if c.begin(format!("{server}.{suite:04x}.{auth}.{p:?}")) {
                let o = alone(&conn(*server, *suite, *auth, 3, Log::Path(p.into())), None);
                judge_conn(c, &o);
                c.check(o.ok, format!("the connection does not work: {}", o.res));
                c.outcome("unusable path");
            }
        }
    });

    // ------------------------------------------------ connections at the same time
    let mask = |op: Op| matches!(op, Op::Start | Op::Open | Op::Write | Op::FileClose);
    let all = |_: Op| true;
    let parallel = |c: &mut Case, conns: &[Conn], path: &str, dev: &Deviations, mask: fn(Op) -> bool| -> Trace {
        let before = b"before\n";
        prepare(path, Some(before));
        let f = shared(path, true);
        let jobs: Vec<Box<dyn FnOnce() -> Out + Send>> = conns
            .iter()
            .map(|k| {
                let f = f.clone();
                let k = k.clone();
                Box::new(move || {
                    fresh(k.seed);
                    let o = connection(pki, &k, || {
                        set_vfile_shared(Some(f));
                    });
                    set_vfile_shared(None);
                    o
                }) as Box<dyn FnOnce() -> Out + Send>
            })
            .collect();
        let (outs, trace) = run_threads_masked(jobs, mask, choice_of(dev));
        for o in &outs {
            judge_conn(c, o);
        }
        c.check(outs.iter().zip(conns).all(|(o, k)| o.ok || k.cut.is_some()), "a connection fails");
        let now = std::fs::read(path).ok();
        c.state((&now, conns.len()));
        c.trans(trace.choices.len());
        judge_file(c, before, now, &outs.iter().collect::<Vec<_>>(), false);
        c.outcome(format!("{} connections", conns.len()));
        trace
    };
    let mut sets: Vec<(String, Vec<(bool, u16, bool, Option<usize>)>, usize, bool)> = vec![];
    let big = 1000;
    for (n, a) in [(true, 0x1301), (true, 0x1302), (false, 0x1303), (false, 0x1301)].iter().enumerate() {
        for (m, b) in [(true, 0x1303), (false, 0x1302)].iter().enumerate() {
            let full = n == 0 && m == 1 || thorough;
            sets.push((format!("two{n}{m}"), vec![(a.0, a.1, false, None), (b.0, b.1, false, None)], if full { big } else { 4 }, true));
        }
    }
    sets.push(("unfinished".into(), vec![(true, 0x1301, false, Some(300)), (true, 0x1301, false, None)], if thorough { big } else { 4 }, true));
    sets.push(("three".into(), vec![(true, 0x1301, false, None), (false, 0x1301, false, None), (true, 0x1303, false, None)], if thorough { 4 } else { 3 }, true));
    sets.push(("all-operations".into(), vec![(true, 0x1301, true, None), (false, 0x1301, true, None)], if thorough { 3 } else { 1 }, false));
    for (name, list, bound, only_file) in &sets {
        let conns = |path: &str| -> Vec<Conn> {
            list.iter()
                .enumerate()
                .map(|(i, (server, suite, auth, cut))| {
                    let mut k = conn(*server, *suite, *auth, 20 + i as u64, Log::Path(path.to_string()));
                    k.cut = *cut;
                    k
                })
                .collect()
        };
        explore(&chk, &format!("schedules-{name}"), *bound, |c, dev| {
            let path = mine();
            parallel(c, &conns(&path), &path, dev, if *only_file { mask } else { all })
        });
    }
    chk.finish()
}
