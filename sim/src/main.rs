//! Deterministic simulation of a FESTA deployment. See /verif/DESIGN.md.
mod alloc;
mod gen;
mod golden;
mod min;
mod node;
mod oracle;
mod outside;
mod prng;
mod seam;
mod world;

use crate::oracle::params;
use crate::prng::{mix, Prng};
use crate::seam::EntropySpec;
use crate::world::{Violation, World};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};

fn die(m: &str) -> ! {
    eprintln!("harness error: {m}");
    std::process::exit(2)
}

fn arg(k: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn num(k: &str, d: u64) -> u64 {
    arg(k).and_then(|x| x.parse().ok()).unwrap_or(d)
}

/// --ref BIN: the same plan, executed by the simulator built in another profile
pub fn other_build(ev: &[String]) -> Option<std::process::Child> {
    let bin = arg("--ref")?;
    let mut c = std::process::Command::new(&bin);
    c.arg("trail").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped());
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut c = c
        .spawn()
        .unwrap_or_else(|e| die(&format!("{bin}: {e}")));
    let mut i = c.stdin.take().unwrap();
    if i.write_all((ev.join("\n") + "\n").as_bytes()).is_err() {
        die("the other build does not listen");
    }
    Some(c)
}

/// execute the plan on stdin and say what every operation answered
fn trail() {
    let mut s = String::new();
    if std::io::stdin().read_to_string(&mut s).is_err() {
        die("no plan");
    }
    let ev: Vec<String> = s.lines().map(|x| x.to_string()).collect();
    let mut w = World::new();
    w.run(&ev);
    for l in &w.trail {
        println!("{l}");
    }
    println!("end");
}

#[derive(Default, Clone)]
struct Record {
    fp: u64,
    viol: Vec<Violation>,
    events: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    maxwork: BTreeMap<String, u64>,
    nums: [u64; 6],
    edges: BTreeSet<u32>,
    edges_total: u64,
}

fn record(w: &World) -> Record {
    let s = &w.stats;
    Record {
        fp: s.fp,
        viol: w.viol.clone(),
        events: s.events.clone(),
        faults: s.faults.clone(),
        probes: s.probes.clone(),
        maxwork: s.maxwork.clone(),
        nums: [s.sim_ms, s.work, s.draws, s.switches, s.judged, 0],
        edges: w.edges().clone(),
        edges_total: seam::edges_total() as u64,
    }
}

fn clean(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || c == '\t' { ' ' } else { c }).collect()
}

fn ser(i: u64, r: &Record) -> String {
    let mut o = format!("R {i} {:x} {}", r.fp, r.edges_total);
    for n in r.nums {
        o += &format!(" {n}");
    }
    o.push('\n');
    for v in &r.viol {
        o += &format!("V {}\t{}\n", v.class, clean(&v.detail));
    }
    for (c, m) in [("E", &r.events), ("F", &r.faults), ("P", &r.probes), ("M", &r.maxwork)] {
        for (k, v) in m {
            o += &format!("{c} {k} {v}\n");
        }
    }
    o += &format!("X {}\n", r.edges.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    o += ".\n";
    o
}

fn deser(t: &str) -> (u64, Record) {
    let mut r = Record::default();
    let mut idx = 0;
    for l in t.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "R" => {
                let v: Vec<&str> = rest.split(' ').collect();
                idx = v[0].parse().unwrap();
                r.fp = u64::from_str_radix(v[1], 16).unwrap();
                r.edges_total = v[2].parse().unwrap();
                for (i, x) in v[3..].iter().enumerate() {
                    r.nums[i] = x.parse().unwrap();
                }
            }
            "V" => {
                let (c, d) = rest.split_once('\t').unwrap();
                r.viol.push(Violation { class: c.into(), detail: d.into() });
            }
            "E" | "F" | "P" | "M" => {
                let (a, b) = rest.rsplit_once(' ').unwrap();
                let m = match k {
                    "E" => &mut r.events,
                    "F" => &mut r.faults,
                    "P" => &mut r.probes,
                    _ => &mut r.maxwork,
                };
                m.insert(a.into(), b.parse().unwrap());
            }
            "X" => r.edges.extend(rest.split(',').filter_map(|x| x.parse::<u32>().ok())),
            _ => {}
        }
    }
    (idx, r)
}

fn one_run(prop: &str, seed: u64, idx: u64) -> Record {
    let ev = gen::plan(prop, seed, idx);
    let mut w = World::new();
    w.want_edges = true;
    w.run(&ev);
    record(&w)
}

struct Sh {
    next: AtomicU64,
    min_bad: AtomicU64,
}

fn shared() -> &'static Sh {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Sh)
    }
}

/// Run the listed indices on `workers` processes; stop early at a violation of
/// `class` (lower indices are still finished, so the answer does not depend on
/// the number of workers).
fn batch(prop: &str, seed: u64, idxs: &[u64], workers: usize, class: &str, deadline: u64) -> BTreeMap<u64, Record> {
    let sh = shared();
    sh.next.store(0, Ordering::SeqCst);
    sh.min_bad.store(u64::MAX, Ordering::SeqCst);
    let mut pids = vec![];
    let mut fds = vec![];
    for _ in 0..workers.min(idxs.len().max(1)) {
        let mut p = [0i32; 2];
        unsafe {
            assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                for f in &fds {
                    libc::close(*f);
                }
                libc::close(p[0]);
                let mut w = std::fs::File::from_raw_fd(p[1]);
                loop {
                    let i = sh.next.fetch_add(1, Ordering::SeqCst);
                    if i >= idxs.len() as u64
                        || i > sh.min_bad.load(Ordering::SeqCst)
                        || seam::real_now_ns() > deadline
                    {
                        break;
                    }
                    let r = match std::panic::catch_unwind(|| one_run(prop, seed, idxs[i as usize])) {
                        Ok(r) => r,
                        Err(_) => {
                            eprintln!("harness panic in run {}", idxs[i as usize]);
                            libc::_exit(3)
                        }
                    };
                    if r.viol.iter().any(|v| v.class == class) {
                        sh.min_bad.fetch_min(i, Ordering::SeqCst);
                    }
                    if w.write_all(ser(idxs[i as usize], &r).as_bytes()).is_err() {
                        libc::_exit(3);
                    }
                }
                drop(w);
                libc::_exit(0);
            }
            libc::close(p[1]);
            pids.push(pid);
            fds.push(p[0]);
        }
    }
    let mut readers = vec![];
    for f in fds {
        readers.push(std::thread::spawn(move || {
            let mut s = String::new();
            let mut r = unsafe { std::fs::File::from_raw_fd(f) };
            let _ = r.read_to_string(&mut s);
            s
        }));
    }
    let mut out = BTreeMap::new();
    for r in readers {
        let s = r.join().unwrap();
        for b in s.split("\n.\n").filter(|b| !b.trim().is_empty()) {
            let (i, r) = deser(b);
            out.insert(i, r);
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            die(&format!("worker ended with status {st:#x}"));
        }
    }
    out
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(","))
}

/// Addresses are not random here: a replay sees the ones the batch saw.
fn fixed_addresses() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p & libc::ADDR_NO_RANDOMIZE != 0 || std::env::var_os("FESTA_SIM_EXEC").is_some() {
            return;
        }
        if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
            use std::os::unix::process::CommandExt;
            let mut a = std::env::args_os();
            let me = a.next();
            if let (Some(_), Ok(exe)) = (me, std::env::current_exe()) {
                let _ = std::process::Command::new(exe).args(a).env("FESTA_SIM_EXEC", "1").exec();
            }
        }
    }
}

fn main() {
    fixed_addresses();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        "selftest" => match oracle::selftest() {
            Ok(()) => println!("ok"),
            Err(e) => die(&e),
        },
        "golden" => make_golden(num("--keys", 8), num("--cts", 2), num("--plain", 8), num("--hashed", 0)),
        "plan" => {
            for l in gen::plan(&arg("--prop").unwrap(), num("--seed", 1), num("--index", 0)) {
                println!("{l}");
            }
        }
        "replay" => replay(&std::env::args().nth(2).unwrap_or_default()),
        "trail" => trail(),
        "run" => run(),
        _ => die("usage: run|replay|plan|golden|selftest"),
    }
}

fn run() {
    let prop = arg("--prop").unwrap();
    let seed = num("--seed", 1);
    let runs = num("--runs", 8);
    let workers = num("--workers", 8) as usize;
    let secs = num("--seconds", 600);
    let recheck = num("--recheck", 2);
    let class = gen::class_of(&prop);
    if let Err(e) = oracle::selftest() {
        die(&format!("oracle self-test: {e}"));
    }
    let t0 = seam::real_now_ns();
    let deadline = t0 + secs * 1_000_000_000;
    let first = num("--first", 0);
    let idxs: Vec<u64> = (first..first + runs).collect();
    let recs = batch(&prop, seed, &idxs, workers, class, deadline);
    let t1 = seam::real_now_ns();

    let mut tot = Record::default();
    let mut fps = BTreeSet::new();
    let mut bad: Option<(u64, Violation)> = None;
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut other_ex: Vec<String> = vec![];
    for (i, r) in &recs {
        if r.nums[4] > 0 {
            fps.insert(r.fp);
        }
        for (a, b) in [
            (&mut tot.events, &r.events),
            (&mut tot.faults, &r.faults),
            (&mut tot.probes, &r.probes),
        ] {
            for (k, v) in b {
                *a.entry(k.clone()).or_default() += v;
            }
        }
        for (k, v) in &r.maxwork {
            let e = tot.maxwork.entry(k.clone()).or_default();
            *e = (*e).max(*v);
        }
        for (a, b) in tot.nums.iter_mut().zip(r.nums) {
            *a += b;
        }
        tot.edges.extend(&r.edges);
        tot.edges_total = r.edges_total;
        for v in &r.viol {
            if v.class == class {
                if bad.is_none() {
                    bad = Some((*i, v.clone()));
                }
            } else {
                *other.entry(v.class.clone()).or_default() += 1;
                if other_ex.len() < 5 {
                    other_ex.push(format!("run {i}: {}: {}", v.class, v.detail));
                }
            }
        }
    }

    // the same seeds once more, on another number of workers
    let mut redone = 0;
    let mut redo_bad: Vec<u64> = vec![];
    if bad.is_none() && recheck > 0 {
        let done: Vec<u64> = recs.keys().copied().collect();
        let mut pick: BTreeSet<u64> = BTreeSet::new();
        let mut r = Prng::new(mix(seed, 0x0DE7));
        while (pick.len() as u64) < recheck.min(done.len() as u64) {
            pick.insert(*r.pick(&done));
        }
        let pick: Vec<u64> = pick.into_iter().collect();
        let again = batch(&prop, seed, &pick, (workers / 2).max(1), "", deadline + 200_000_000_000);
        for (i, r) in &again {
            redone += 1;
            if r.fp != recs[i].fp || r.viol != recs[i].viol {
                redo_bad.push(*i);
            }
        }
        if class == "determinism" && !redo_bad.is_empty() {
            bad = Some((
                redo_bad[0],
                Violation { class: class.into(), detail: "the same run executed twice had different outcomes".into() },
            ));
        }
    }
    let t2 = seam::real_now_ns();

    let mut replay_path = String::new();
    let mut min_info = String::from("null");
    if let Some((i, v)) = &bad {
        let ev = gen::plan(&prop, seed, *i);
        let m = min::minimise(&ev, class, workers, num("--min-seconds", 90));
        let path = arg("--replay").unwrap_or_else(|| "replay.txt".into());
        let mut o = String::new();
        o += "# festa_sim replay v1\n";
        o += &format!("# property={prop} class={class} flavour={} seed={seed} run={i}\n", params::NAME);
        o += &format!("# events: {} generated, {} after minimisation ({} candidates tried)\n", ev.len(), m.events.len(), m.tried);
        o += &format!("# first seen: {}\n", clean(&v.detail));
        o += &format!("# minimised: {}\n", clean(&m.detail));
        for l in &m.events {
            o += l;
            o.push('\n');
        }
        if let Err(e) = std::fs::write(&path, o) {
            die(&format!("{path}: {e}"));
        }
        min_info = format!("{{\"from\":{},\"to\":{},\"tried\":{}}}", ev.len(), m.events.len(), m.tried);
        replay_path = path;
        println!("violation in run {i} of {prop}/{}: {}", params::NAME, v.detail);
        println!("minimised: {}", m.detail);
    }
    let hours = (t1 - t0) as f64 / 3.6e12;
    let mut j = String::from("{");
    j += &format!("\"flavour\":\"{}\",\"prop\":\"{prop}\",\"seed\":{seed},\"planned\":{runs},\"runs\":{},", params::NAME, recs.len());
    j += &format!("\"seconds\":{:.3},\"recheck_seconds\":{:.3},\"runs_per_hour\":{:.1},", (t1 - t0) as f64 / 1e9, (t2 - t1) as f64 / 1e9, recs.len() as f64 / hours);
    j += &format!(
        "\"sim_ms\":{},\"work\":{},\"draws\":{},\"switches\":{},\"judged\":{},",
        tot.nums[0], tot.nums[1], tot.nums[2], tot.nums[3], tot.nums[4]
    );
    j += &format!("\"distinct\":{},\"edges\":{},\"edges_total\":{},", fps.len(), tot.edges.len(), tot.edges_total);
    j += &format!(
        "\"events\":{},\"faults\":{},\"probes\":{},\"maxwork\":{},",
        jmap(&tot.events),
        jmap(&tot.faults),
        jmap(&tot.probes),
        jmap(&tot.maxwork)
    );
    j += &format!("\"budget\":{},\"rechecked\":{redone},\"recheck_diff\":{:?},", world::BUDGET, redo_bad);
    j += &format!(
        "\"other\":{},\"other_examples\":[{}],",
        jmap(&other),
        other_ex.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
    );
    match &bad {
        None => j += "\"violation\":null}",
        Some((i, v)) => {
            j += &format!(
                "\"violation\":{{\"run\":{i},\"detail\":\"{}\",\"replay\":\"{}\",\"minimised\":{min_info}}}}}",
                esc(&v.detail),
                esc(&replay_path)
            )
        }
    }
    match arg("--out") {
        Some(p) => std::fs::write(&p, &j).unwrap_or_else(|e| die(&format!("{p}: {e}"))),
        None => println!("{j}"),
    }
    std::process::exit(if bad.is_some() { 1 } else { 0 });
}

fn replay(path: &str) {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    let mut class = String::new();
    let mut ev = vec![];
    for l in s.lines() {
        if let Some(h) = l.strip_prefix('#') {
            if let Some(f) = h.split_whitespace().find_map(|x| x.strip_prefix("flavour=")) {
                if f != params::NAME {
                    die(&format!("this replay is for the {f} build"));
                }
            }
            if let Some(c) = h.split_whitespace().find_map(|x| x.strip_prefix("class=")) {
                class = c.into();
            }
        } else if !l.trim().is_empty() {
            ev.push(l.to_string());
        }
    }
    let mut w = World::new();
    w.verbose = true;
    w.run(&ev);
    println!("fingerprint {:016x}", w.stats.fp);
    let mut hit = false;
    for v in &w.viol {
        println!("violated {}: {}", v.class, v.detail);
        hit |= class.is_empty() || v.class == class;
    }
    std::process::exit(if hit { 1 } else { 0 });
}

/// Produce the deployed keys and ciphertexts (run once, on the original tree)
/// Recreate the deployed keys and ciphertexts from the tree at hand. Run once,
/// on the unchanged tree; the result is committed.
fn make_golden(keys: u64, cts: u64, plain: u64, hashed: u64) {
    for group in (0..keys).collect::<Vec<_>>().chunks(8) {
        let mut hs = vec![];
        for &k in group {
            // nodes are separate processes; drive several at once
            let mut n = node::Node::spawn(1, 0, 0);
            hs.push(std::thread::spawn(move || {
                let mut r = Prng::new(mix(0x601D, k));
                let mut o = String::new();
                let c = |n: &mut node::Node, e: u64, op: &str| match n.call(&EntropySpec::plain(e), Some(0), None, None, op).0 {
                    node::Reply::Ok(v) => v,
                    x => die(&format!("{op}: {x:?}")),
                };
                c(&mut n, 1, "new 0");
                let mut kv = c(&mut n, 0x601D0 + k, "keygen 0 0");
                if k >= plain {
                    // an owner who drew other masks
                    let key = world::KeySt { pk: node::unhex(&kv[0]), sk: node::unhex(&kv[1]) };
                    let b = oracle::params::L_POWER as u64;
                    let key = world::remask(&key, &gen::mask(&mut r, b), &gen::mask(&mut r, b)).unwrap();
                    kv = vec![node::hex(&key.pk), node::hex(&key.sk)];
                    c(&mut n, 4, &format!("load 0 {}", kv[1]));
                }
                o += &format!("key {} {}\n", kv[0], kv[1]);
                let full = if k < plain { cts } else { 1 };
                for i in 0..full + hashed {
                    let m = gen::message(&mut r);
                    let ct = c(&mut n, 2, &format!("eval 0 {} {m}", kv[0]));
                    let back = c(&mut n, 3, &format!("inv 0 mem:0 {}", ct[0]));
                    if back[0] != m {
                        die("golden round trip");
                    }
                    if i < full {
                        o += &format!("ct {m} {}\n", ct[0]);
                    } else {
                        o += &format!("hct {m} {:x}\n", golden::digest(&node::unhex(&ct[0])));
                    }
                }
                o
            }));
        }
        for h in hs {
            print!("{}", h.join().unwrap());
        }
    }
}
