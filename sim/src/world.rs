//! The simulated deployment: key owners, senders, their processes and disks,
//! the network between them, and the oracles that judge what happens.
//!
//! A run is a list of event lines (the whole schedule and fault plan). Events
//! that no longer make sense (their message or key was removed by the
//! minimiser) are skipped, so any sub-list of a plan is again a plan.
use crate::golden::{golden, Golden};
use crate::node::{bigs, fmt_factors, hex, unhex, Node, Reply, Stats, OOM};
use crate::oracle::{self, f2_has_order, params::*, pow2, Curve, Pt, F2, FQ_LEN};
use crate::prng::{mix, mix_bytes, Prng};
use crate::seam::{EntropySpec, FAULT_KINDS};
use num_bigint::BigUint;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

#[derive(Default, Clone)]
pub struct RunStats {
    pub events: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sim_ms: u64,
    pub work: u64,
    pub draws: u64,
    pub switches: u64,
    pub maxwork: BTreeMap<String, u64>,
    /// fingerprint of the executed schedule (events, outcomes, preemptions)
    pub fp: u64,
    pub judged: u64,
}

struct NodeSt {
    node: Option<Node>,
    insts: BTreeSet<u32>,
    /// key slot -> came from disk
    slots: BTreeMap<u32, bool>,
    disk: BTreeMap<u32, DiskFile>,
    failed_before: bool,
}

#[derive(Clone)]
struct DiskFile {
    bytes: Vec<u8>,
    intact: bool,
}

#[derive(Clone)]
pub struct KeySt {
    pub pk: Vec<u8>,
    pub sk: Vec<u8>,
}

#[derive(Clone)]
struct MsgSt {
    key: u32,
    m: String,
    ct: Vec<u8>,
    genuine: bool,
}

pub struct World {
    nodes: BTreeMap<u32, NodeSt>,
    pub keys: BTreeMap<u32, KeySt>,
    msgs: BTreeMap<u32, MsgSt>,
    pub viol: Vec<Violation>,
    pub stats: RunStats,
    pub log: Vec<String>,
    pub verbose: bool,
    clock_ms: u64,
    refs: BTreeMap<u64, (Reply, Stats)>,
    base: Option<Basis>,
    /// keys generated in this run: were there entropy faults meanwhile?
    born: BTreeMap<u32, bool>,
    /// all keys generated in this run, in order, with the entropy hash
    gens: Vec<(KeySt, u64)>,
    points: Vec<(F2, F2)>,
    edges: BTreeSet<u32>,
    pub want_edges: bool,
    pub last_switches: String,
    boots: u64,
    step_no: u64,
    pub trail: Vec<String>,
}

#[derive(Clone)]
struct Basis {
    pb: Pt,
    qb: Pt,
    pd: Pt,
    qd: Pt,
    /// e(Pb,Qb) of order 2^L and e(Pb+Pd1, Qb+Qd1) of order 2^L d1
    w2: F2,
    w2d1: F2,
}

pub const SK_LEN: usize = 9 * FQ_LEN + 2 * 82;
pub const CT_LEN: usize = 10 * FQ_LEN;
pub const PK_LEN: usize = 5 * FQ_LEN;

/// is the code under test reachable below the scheme's API?
pub const INTERNALS: bool = cfg!(feature = "internals");

/// Work budget of one operation, in executed edges. At least 20 times what the
/// slowest operation of the shipped code takes.
#[cfg(feature = "toy")]
pub const BUDGET: u64 = 600_000_000;
#[cfg(not(feature = "toy"))]
pub const BUDGET: u64 = 40_000_000_000;

/// The most memory one operation may hold: at least four times what the slowest
/// operation of the shipped code does.
#[cfg(feature = "toy")]
pub const MEMORY: u64 = 64 << 20;
#[cfg(not(feature = "toy"))]
pub const MEMORY: u64 = 512 << 20;

pub fn pt_of(b: &[u8]) -> Option<Pt> {
    let x = F2::decode(&b[..FQ_LEN])?;
    let y = F2::decode(&b[FQ_LEN..2 * FQ_LEN])?;
    Some(Some((x, y)))
}

fn pt_hex_of(s: &str) -> Option<Pt> {
    if s == "inf" {
        return Some(None);
    }
    let b = unhex(s);
    if b.len() != 2 * FQ_LEN {
        return None;
    }
    pt_of(&b)
}

fn pt_tok(p: &Pt) -> String {
    match p {
        None => "inf".into(),
        Some((x, y)) => hex(&x.encode()) + &hex(&y.encode()),
    }
}

pub struct SkView {
    pub ea1: Curve,
    pub bd1: (Pt, Pt),
    pub d2: (Pt, Pt),
    pub a: (BigUint, BigUint),
}

pub fn sk_view(b: &[u8]) -> Option<SkView> {
    if b.len() != SK_LEN {
        return None;
    }
    let w = 2 * FQ_LEN;
    let p = |i: usize| pt_of(&b[FQ_LEN + i * w..FQ_LEN + (i + 1) * w]);
    let o = 9 * FQ_LEN;
    Some(SkView {
        ea1: Curve { A: F2::decode(&b[..FQ_LEN])? },
        bd1: (p(0)?, p(1)?),
        d2: (p(2)?, p(3)?),
        a: (
            BigUint::from_bytes_le(&b[o..o + 82]),
            BigUint::from_bytes_le(&b[o + 82..o + 164]),
        ),
    })
}

fn kv<'a>(t: &[&'a str], k: &str) -> Option<&'a str> {
    t.iter().find_map(|x| x.strip_prefix(k).and_then(|r| r.strip_prefix('=')))
}

/// Apply a byte-level fault; deterministic in `seed`
pub fn mangle(b: &[u8], kind: &str, seed: u64) -> Vec<u8> {
    let mut r = Prng::new(seed ^ 0xC0);
    let mut v = b.to_vec();
    let nel = v.len() / FQ_LEN;
    let el = r.below(nel.max(1) as u64) as usize;
    let set = |v: &mut Vec<u8>, el: usize, x: &[u8]| {
        if (el + 1) * FQ_LEN <= v.len() {
            v[el * FQ_LEN..(el + 1) * FQ_LEN].copy_from_slice(x)
        }
    };
    let plus_p = |x: &[u8], half: usize| -> Vec<u8> {
        // the same residue, written as value + p (needs no extra byte)
        let mut x = x.to_vec();
        let l = oracle::FP_LEN;
        let n = BigUint::from_bytes_le(&x[half * l..(half + 1) * l]) + oracle::modulus();
        let mut y = n.to_bytes_le();
        y.resize(l.max(y.len()), 0);
        x[half * l..(half + 1) * l].copy_from_slice(&y[..l]);
        x
    };
    match kind {
        "flip" => {
            let i = r.below(v.len() as u64 * 8);
            v[(i / 8) as usize] ^= 1 << (i % 8);
        }
        "flips" => {
            for _ in 0..r.range(2, 40) {
                let i = r.below(v.len() as u64 * 8);
                v[(i / 8) as usize] ^= 1 << (i % 8);
            }
        }
        "trunc" => {
            let n = v.len();
            let k = match r.below(8) {
                0 => 0,
                1 => n - 1,
                2 => r.below(nel as u64) as usize * FQ_LEN,
                // a few bytes short: what a trimming tool or a partial last
                // write leaves
                3 | 4 => n - n.min(r.range(1, 9) as usize),
                5 => {
                    // all trailing zeros
                    let z = v.iter().rev().take_while(|x| **x == 0).count();
                    n - z.max(1).min(n)
                }
                6 => n.saturating_sub(82 * r.range(1, 2) as usize),
                _ => r.below(n.max(1) as u64) as usize,
            };
            v.truncate(k);
        }
        "extend" => {
            let k = match r.below(5) {
                0 => 1,
                1 => FQ_LEN,
                2 => r.range(1, 8) as usize,
                3 => *r.pick(&[16, 32, 64, 82, 164, 512, oracle::FP_LEN]),
                _ => r.range(1, 600) as usize,
            };
            let mut e = vec![0u8; k];
            if r.chance(1, 2) {
                r.fill(&mut e);
            }
            v.extend(e);
        }
        "double" => {
            let c = v.clone();
            v.extend(c);
        }
        // a coordinate that is not a canonical residue
        "noncanon" => {
            let half = r.below(2) as usize;
            if (el + 1) * FQ_LEN <= v.len() {
                let half_with = |v: &[u8], n: BigUint| -> Vec<u8> {
                    let mut x = v[el * FQ_LEN..(el + 1) * FQ_LEN].to_vec();
                    let mut y = n.to_bytes_le();
                    y.resize(oracle::FP_LEN.max(y.len()), 0);
                    x[half * oracle::FP_LEN..(half + 1) * oracle::FP_LEN].copy_from_slice(&y[..oracle::FP_LEN]);
                    x
                };
                let x = match r.below(7) {
                    // just above p, in the lowest or in any one limb
                    4 => half_with(&v, oracle::modulus() + r.log_range(1, 1 << 40)),
                    5 => half_with(&v, oracle::modulus() + pow2(r.below(oracle::FP_LEN as u64 * 8 - 8) as u32)),
                    6 => {
                        let k = r.below(oracle::FP_LEN as u64 * 8 - 16);
                        half_with(&v, (oracle::modulus() >> k << k) + pow2(k as u32 + 1))
                    }
                    0 => plus_p(&v[el * FQ_LEN..(el + 1) * FQ_LEN], half),
                    1 => {
                        let mut x = v[el * FQ_LEN..(el + 1) * FQ_LEN].to_vec();
                        x[half * oracle::FP_LEN..(half + 1) * oracle::FP_LEN].fill(0xFF);
                        x
                    }
                    2 => {
                        // exactly p
                        let mut x = v[el * FQ_LEN..(el + 1) * FQ_LEN].to_vec();
                        let mut y = oracle::modulus().to_bytes_le();
                        y.resize(oracle::FP_LEN, 0);
                        x[half * oracle::FP_LEN..(half + 1) * oracle::FP_LEN].copy_from_slice(&y);
                        x
                    }
                    _ => {
                        let mut x = v[el * FQ_LEN..(el + 1) * FQ_LEN].to_vec();
                        x[(half + 1) * oracle::FP_LEN - 1] |= 0x80;
                        x
                    }
                };
                set(&mut v, el, &x);
            }
        }
        // the largest canonical residues, and ones that agree with p in all but
        // one limb: still valid
        "edge" => {
            let half = r.below(2) as usize;
            let p = oracle::modulus();
            let n = match r.below(5) {
                0 => p - 1u32,
                1 => p - r.log_range(1, 1 << 40),
                2 => p - pow2(r.below(p.bits() - 1) as u32),
                3 => BigUint::from(r.below(3)),
                _ => {
                    let k = r.below(p.bits() - 1);
                    p >> k << k
                }
            };
            let mut y = n.to_bytes_le();
            y.resize(oracle::FP_LEN, 0);
            if (el + 1) * FQ_LEN <= v.len() {
                let o = el * FQ_LEN + half * oracle::FP_LEN;
                v[o..o + oracle::FP_LEN].copy_from_slice(&y);
            }
        }
        // a key file whose masks are damaged: zero, even, too large
        k if k.starts_with("mask") => {
            if v.len() == SK_LEN {
                let o = 9 * FQ_LEN + if r.chance(1, 2) { 82 } else { 0 };
                match &k[4..] {
                    "zero" => v[o..o + 82].fill(0),
                    "even" => v[o] &= !1,
                    "big" => v[o + 81] |= 0x80 >> r.below(8),
                    _ => r.fill(&mut v[o..o + 82]),
                }
            }
        }
        "tornhead" | "torntail" => {
            // a torn write: part of the file is old (zero) sectors
            let cut = r.below(v.len() as u64) as usize / 64 * 64;
            if kind == "tornhead" {
                v[..cut].fill(0)
            } else {
                v[cut..].fill(0)
            }
        }
        "zeroel" => set(&mut v, el, &vec![0u8; FQ_LEN]),
        "randel" => {
            let x = F2::random(&mut r).encode();
            set(&mut v, el, &x)
        }
        "negel" => {
            if let Some(x) = F2::decode(&v[el * FQ_LEN..(el + 1) * FQ_LEN]) {
                set(&mut v, el, &x.neg().encode())
            }
        }
        "swapel" => {
            let e2 = r.below(nel.max(1) as u64) as usize;
            let a = v[el * FQ_LEN..(el + 1) * FQ_LEN].to_vec();
            let b = v[e2 * FQ_LEN..(e2 + 1) * FQ_LEN].to_vec();
            set(&mut v, el, &b);
            set(&mut v, e2, &a);
        }
        // replace the curve constant (elements 0 and, in a ciphertext, 5)
        k if k.starts_with("curve") => {
            let pos = if v.len() == CT_LEN && r.chance(1, 2) { 5 } else { 0 };
            let c = match &k[5..] {
                "rand" => F2::random(&mut r),
                "zero" => F2::ZERO,
                "two" => F2::small(2),
                "mtwo" => F2::small(2).neg(),
                "six" => F2::small(6),
                "neg" => F2::decode(&v[pos * FQ_LEN..(pos + 1) * FQ_LEN]).unwrap_or(F2::ZERO).neg(),
                "base" => {
                    let mut x = F2::random(&mut r);
                    x.b = F2::ZERO.b;
                    x
                }
                "conj" => {
                    let x = F2::decode(&v[pos * FQ_LEN..(pos + 1) * FQ_LEN]).unwrap_or(F2::ZERO);
                    F2 { a: x.a, b: x.b.neg() }
                }
                _ => F2::one(),
            };
            set(&mut v, pos, &c.encode());
        }
        "shuffle" => {
            let mut idx: Vec<usize> = (0..nel).collect();
            for i in (1..nel).rev() {
                idx.swap(i, r.below(i as u64 + 1) as usize);
            }
            let c = v.clone();
            for (i, j) in idx.into_iter().enumerate() {
                let x = c[j * FQ_LEN..(j + 1) * FQ_LEN].to_vec();
                set(&mut v, i, &x);
            }
        }
        "garbage" => r.fill(&mut v),
        "allrand" => {
            for i in 0..nel {
                let x = F2::random(&mut r).encode();
                set(&mut v, i, &x);
            }
        }
        "allzero" => v.fill(0),
        _ => {}
    }
    v
}

/// Would the strict codec accept these bytes (right length, canonical elements)?
pub fn well_encoded(b: &[u8], kind: &str) -> bool {
    let n = match kind {
        "ct" => 10,
        _ => 9,
    };
    let want = if kind == "ct" { CT_LEN } else { SK_LEN };
    b.len() == want && (0..n).all(|i| F2::decode(&b[i * FQ_LEN..(i + 1) * FQ_LEN]).is_some())
}

/// a bit that all of these encoded elements of GF(p^2) agree in (not counting the
/// top ones, which depend on p)
fn stuck_bit(all: &[Vec<u8>]) -> Option<usize> {
    let half = FQ_LEN / 2;
    let top = crate::oracle::modulus().bits() as usize - 2;
    (0..2 * top).find(|&b| {
        let (b, o) = (b % top, b / top * half);
        let c = all.iter().filter(|x| x[o + b / 8] >> (b % 8) & 1 == 1).count();
        c == 0 || c == all.len()
    })
}

impl World {
    pub fn new() -> World {
        World {
            nodes: BTreeMap::new(),
            keys: BTreeMap::new(),
            msgs: BTreeMap::new(),
            viol: vec![],
            stats: RunStats::default(),
            log: vec![],
            verbose: false,
            clock_ms: 1_700_000_000_000,
            refs: BTreeMap::new(),
            base: None,
            born: BTreeMap::new(),
            gens: vec![],
            points: vec![],
            edges: BTreeSet::new(),
            want_edges: false,
            last_switches: String::new(),
            boots: 0,
            step_no: 0,
            trail: vec![],
        }
    }

    /// what the other build of the same code must answer as well
    fn trace(&mut self, op: &str, r: &Reply) {
        let r = match r {
            Reply::Panic(m) => format!("panic\t({})", m.replace(['\n', '\t'], " ")),
            r => short(r),
        };
        self.trail.push(format!("event {} {} -> {r}", self.step_no, op.split(' ').next().unwrap()));
    }

    /// compare with the same plan in another build of the code under test
    fn cross(&mut self, other: std::process::Child) {
        let out = other.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        let theirs: Vec<&str> = out.lines().collect();
        if theirs.last() != Some(&"end") {
            crate::die("the other build did not finish");
        }
        let mine = std::mem::take(&mut self.trail);
        self.stats.judged += mine.len() as u64;
        for i in 0..mine.len().max(theirs.len() - 1) {
            let a = mine.get(i).map_or("nothing", |x| x);
            let b = if i + 1 < theirs.len() { theirs[i] } else { "nothing" };
            // why an operation was refused may be said differently
            if a.split('\t').next() != b.split('\t').next() {
                self.violate("profile", format!("with debug checks: {a}; optimised build: {b}").replace('\t', " "));
                break;
            }
        }
    }

    fn note(&mut self, s: String) {
        self.stats.fp = mix_bytes(self.stats.fp, s.as_bytes());
        if self.verbose {
            println!("  {s}");
        }
        self.log.push(s);
    }

    fn violate(&mut self, class: &str, detail: String) {
        self.note(format!("VIOLATED {class}: {detail}"));
        self.viol.push(Violation { class: class.into(), detail });
    }

    fn fault(&mut self, k: &str) {
        *self.stats.faults.entry(k.to_string()).or_default() += 1;
    }

    fn probe(&mut self, k: &str) {
        *self.stats.probes.entry(k.to_string()).or_default() += 1;
    }

    fn absorb(&mut self, kind: &str, s: &Stats) {
        self.stats.work += s.work;
        self.stats.draws += s.draws;
        let e = self.stats.maxwork.entry(kind.to_string()).or_default();
        *e = (*e).max(s.work);
        for (i, (_, n)) in FAULT_KINDS.iter().enumerate() {
            if s.faults[i] > 0 {
                *self.stats.faults.entry(format!("entropy_{n}")).or_default() += s.faults[i];
            }
        }
    }

    fn node(&mut self, n: u32) -> &mut NodeSt {
        self.nodes.entry(n).or_insert(NodeSt {
            node: None,
            insts: BTreeSet::new(),
            slots: BTreeMap::new(),
            disk: BTreeMap::new(),
            failed_before: false,
        })
    }

    /// run an op in node n's process, on the simulated clock
    fn call(&mut self, n: u32, ent: &EntropySpec, crash: Option<u64>, op: &str) -> (Reply, Stats) {
        self.call_within(n, ent, crash, BUDGET, op)
    }

    fn call_within(&mut self, n: u32, ent: &EntropySpec, crash: Option<u64>, budget: u64, op: &str) -> (Reply, Stats) {
        let clock = self.clock_ms * 1_000_000;
        let st = self.node(n);
        let (r, s) = match st.node.as_mut() {
            None => return (Reply::Died("down".into()), Stats::default()),
            Some(p) => p.call(ent, Some(clock), crash, Some(budget), op),
        };
        match &r {
            Reply::Ok(_) | Reply::Par(_) => {}
            Reply::Panic(_) => st.failed_before = true,
            _ => self.down(n),
        }
        let kind = op.split(' ').next().unwrap().to_string();
        self.trace(op, &r);
        self.absorb(&kind, &s);
        self.aside(&kind, &s.acts);
        if s.peak > MEMORY {
            self.violate("memory", format!("{kind} held {} MiB", s.peak >> 20));
        }
        if crash.is_some_and(|c| c & OOM != 0) {
            // a failed allocation ends the process, or the operation
            let hit = s.failed_allocs > 0 || matches!(&r, Reply::Died(s) if s == "signal 6");
            if hit {
                self.fault("allocation_failed");
                return (Reply::Crashed, s);
            }
        }
        (r, s)
    }

    /// what an operation did besides returning its result
    fn aside(&mut self, kind: &str, acts: &str) {
        for a in acts.split(',').filter(|x| !x.is_empty()) {
            self.violate("silence", format!("{kind}: {}", a.replace('_', " ")));
        }
    }

    fn down(&mut self, n: u32) {
        let want = self.want_edges;
        let st = self.node(n);
        let mut e: Vec<u32> = vec![];
        if want {
            if let Some(p) = st.node.as_mut() {
                if p.alive {
                    if let (Reply::Ok(v), _) = p.call(&EntropySpec::plain(0), None, None, None, "edges") {
                        e = v[0].split(',').filter_map(|x| x.parse().ok()).collect();
                    }
                }
            }
        }
        if let Some(mut p) = st.node.take() {
            p.kill();
        }
        st.insts.clear();
        st.slots.clear();
        st.failed_before = false;
        self.edges.extend(e);
    }

    fn boot(&mut self, n: u32, env: u32) {
        self.down(n);
        if env != 0 {
            self.fault("environment_changed");
            // how its clock runs while an operation does
            match env / 6 % 4 {
                1 => self.fault("slow_process"),
                2 => self.fault("clock_jumps_mid_operation"),
                3 => self.fault("clock_runs_back_mid_operation"),
                _ => {}
            }
        }
        let clock = self.clock_ms;
        self.boots += 1;
        let h = mix(self.boots, n as u64);
        let st = self.node(n);
        // process ids start over after a reboot: some machines look alike
        st.node = Some(Node::spawn(100 + (h % 7) as u32, h >> 8, env));
        let (r, _) = self.call(n, &EntropySpec::plain(clock), None, "new 0");
        match r {
            Reply::Ok(_) => {
                self.node(n).insts.insert(0);
            }
            r => {
                let d = format!("FESTACrypto::new() in a fresh process: {}", short(&r));
                for c in ["roundtrip", "durability", "keyform", "liveness", "golden", "entropy"] {
                    self.violate(c, d.clone());
                }
            }
        }
    }

    fn inst(&mut self, n: u32, i: u32) -> bool {
        if self.node(n).node.is_none() {
            return false;
        }
        if !self.node(n).insts.contains(&i) {
            let (r, _) = self.call(n, &EntropySpec::plain(i as u64), None, &format!("new {i}"));
            if !matches!(r, Reply::Ok(_)) {
                self.violate("liveness", format!("FESTACrypto::new(): {}", short(&r)));
                return false;
            }
            self.node(n).insts.insert(i);
        }
        true
    }

    /// The same operation alone in a pristine process
    fn reference(&mut self, ent: &EntropySpec, op: &str) -> (Reply, Stats) {
        let k = mix_bytes(mix_bytes(1, ent.fmt().as_bytes()), op.as_bytes());
        if let Some(r) = self.refs.get(&k) {
            return r.clone();
        }
        let mut p = Node::spawn(99, 0, 0);
        let (r, _) = p.call(&EntropySpec::plain(1), Some(0), None, Some(BUDGET), "new 0");
        let r = match r {
            Reply::Ok(_) => p.call(ent, Some(0), None, Some(BUDGET), op),
            r => (r, Stats::default()),
        };
        self.stats.work += r.1.work;
        self.refs.insert(k, r.clone());
        r
    }

    fn basis(&mut self) -> Option<Basis> {
        if self.base.is_none() {
            let (r, _) = self.reference(&EntropySpec::plain(2), "basis");
            let Reply::Ok(v) = r else { return None };
            let p: Option<Vec<Pt>> = v.iter().map(|x| pt_hex_of(x)).collect();
            let p = p?;
            let e = Curve::e0();
            let n = pow2(L_POWER);
            let n1 = &n * oracle::big_hex(D1_HEX);
            if p.len() != 4 || !p.iter().all(|x| e.on(x)) {
                return None;
            }
            self.base = Some(Basis {
                w2: e.weil(&p[0], &p[1], &n),
                w2d1: e.weil(&e.add(&p[0], &p[2]), &e.add(&p[1], &p[3]), &n1),
                pb: p[0],
                qb: p[1],
                pd: p[2],
                qd: p[3],
            });
        }
        self.base.clone()
    }

    /// Everything a well-formed key pair satisfies, checked with the oracle's
    /// own arithmetic. Returns the first thing that is wrong.
    pub fn check_key(&mut self, pk: &[u8], sk: &[u8]) -> Result<(), String> {
        let err = |s: &str| Err(s.to_string());
        if pk.len() != PK_LEN {
            return err("public key has the wrong length");
        }
        let Some(v) = sk_view(sk) else { return err("secret key encoding is not canonical") };
        let f = |i: usize| F2::decode(&pk[i * FQ_LEN..(i + 1) * FQ_LEN]);
        let (Some(a), Some(rx), Some(ry), Some(sx), Some(sy)) = (f(0), f(1), f(2), f(3), f(4)) else {
            return err("public key encoding is not canonical");
        };
        let ea = Curve { A: a };
        let (r, s) = (Some((rx, ry)), Some((sx, sy)));
        let l = pow2(L_POWER);
        let one = BigUint::from(1u32);
        let d1 = oracle::big_hex(D1_HEX);
        let d2 = oracle::big_hex(D2_HEX);
        let (da1, da2) = (oracle::big_hex(DA1_HEX), oracle::big_hex(DA2_HEX));
        for (x, n) in [(&v.a.0, "a11"), (&v.a.1, "a22")] {
            if !x.bit(0) || x >= &l {
                return Err(format!("mask {n} is not a unit below 2^{L_POWER}"));
            }
        }
        if !v.ea1.supersingular() {
            return err("E_A' is not supersingular");
        }
        if !ea.supersingular() {
            return err("E_A is not supersingular");
        }
        for (p, n) in [(&v.bd1.0, "P_b"), (&v.bd1.1, "Q_b"), (&v.d2.0, "P_d2"), (&v.d2.1, "Q_d2")] {
            if !v.ea1.on(p) {
                return Err(format!("secret image of {n} is not on E_A'"));
            }
        }
        if !ea.on(&r) || !ea.on(&s) {
            return err("R or S is not on E_A");
        }
        let f2: &[(u32, u32)] = &[(2, L_POWER)];
        if !ea.has_order(&r, f2) || !ea.has_order(&s, f2) {
            return err("R or S does not have order 2^b");
        }
        let mut bd: Vec<(u32, u32)> = vec![(2, L_POWER)];
        bd.extend_from_slice(D1_FACTORED);
        if !v.ea1.has_order(&v.bd1.0, &bd) || !v.ea1.has_order(&v.bd1.1, &bd) {
            return err("secret images of the (2^b d1)-basis have the wrong order");
        }
        if !v.ea1.has_order(&v.d2.0, D2_FACTORED) || !v.ea1.has_order(&v.d2.1, D2_FACTORED) {
            return err("secret d2-basis has the wrong order");
        }
        if !INTERNALS {
            return Ok(());
        }
        let Some(b) = self.basis() else { return err("no public basis of E0") };
        let n1 = &l * &d1;
        if v.ea1.weil(&v.bd1.0, &v.bd1.1, &n1) != b.w2d1.pow(&(&da1 % &n1)) {
            return err("secret images are not those of an isogeny of degree d_A1");
        }
        let want = b.w2.pow(&((&v.a.0 * &v.a.1 * &da1 * &da2) % &l));
        if ea.weil(&r, &s, &l) != want {
            return err("e(R,S) does not match the masks and degrees");
        }
        let e2 = v.ea1.weil(&v.d2.0, &v.d2.1, &d2);
        if !f2_has_order(&e2, D2_FACTORED) {
            return err("secret d2-points are dependent");
        }
        // phi_A2 maps the secret d2-points to the canonical d2-basis of E_A
        let op = format!("tbasis {} {}", hex(&a.encode()), fmt_factors(D2_FACTORED));
        let (rep, _) = self.reference(&EntropySpec::plain(3), &op);
        if let Reply::Ok(t) = rep {
            if let (Some(p), Some(q)) = (pt_hex_of(&t[0]), pt_hex_of(&t[1])) {
                if !ea.on(&p) || !ea.on(&q) {
                    return err("canonical d2-basis of E_A is off the curve");
                }
                let w = ea.weil(&p, &q, &d2);
                if !f2_has_order(&w, D2_FACTORED) {
                    return err("canonical d2-basis of E_A is not a basis");
                }
                // phi_A2 carries the secret d2-points to the canonical d2-basis of
                // E_A up to one common unit, so their pairing is that of the
                // canonical basis to a square
                let e2 = e2.pow(&(&da2 % &d2));
                for (l, _) in D2_FACTORED {
                    let c = &d2 / l;
                    let (g, h) = (w.pow(&c), e2.pow(&c));
                    let (mut x, mut k) = (g, 1u32);
                    while x != h && k < *l {
                        x = x.mul(&g);
                        k += 1;
                    }
                    let legendre = BigUint::from(k).modpow(&BigUint::from((l - 1) / 2), &BigUint::from(*l));
                    if k >= *l || legendre != one {
                        return err("secret d2-points are not preimages of the canonical d2-basis");
                    }
                }
            }
        } else {
            return Err(format!("torsion basis of E_A: {}", short(&rep)));
        }
        Ok(())
    }

    /// what a genuine ciphertext satisfies with respect to its key and message
    pub fn check_ct(&mut self, pk: &[u8], ct: &[u8]) -> Result<(), String> {
        let err = |s: &str| Err(s.to_string());
        if ct.len() != CT_LEN {
            return err("ciphertext has the wrong length");
        }
        let f = |b: &[u8], i: usize| F2::decode(&b[i * FQ_LEN..(i + 1) * FQ_LEN]);
        let mut c = vec![];
        for i in 0..10 {
            match f(ct, i) {
                Some(x) => c.push(x),
                None => return err("ciphertext encoding is not canonical"),
            }
        }
        let (e1, e2) = (Curve { A: c[0] }, Curve { A: c[5] });
        let p = |i: usize| Some((c[i], c[i + 1]));
        let (r1, s1, r2, s2) = (p(1), p(3), p(6), p(8));
        if !e1.supersingular() || !e2.supersingular() {
            return err("ciphertext curve is not supersingular");
        }
        if !e1.on(&r1) || !e1.on(&s1) || !e2.on(&r2) || !e2.on(&s2) {
            return err("ciphertext point off its curve");
        }
        let l = pow2(L_POWER);
        let (d1, d2) = (oracle::big_hex(D1_HEX), oracle::big_hex(D2_HEX));
        if !INTERNALS {
            return Ok(());
        }
        let Some(b) = self.basis() else { return err("no public basis") };
        if e1.weil(&r1, &s1, &l) != b.w2.pow(&(&d1 % &l)) {
            return err("e(R1,S1) does not match an isogeny of degree d1 masked by B");
        }
        let ea = Curve { A: f(pk, 0).unwrap_or(F2::ZERO) };
        let g = |i: usize| -> Pt { Some((f(pk, i)?, f(pk, i + 1)?)) };
        let w = ea.weil(&g(1), &g(3), &l);
        if e2.weil(&r2, &s2, &l) != w.pow(&(&d2 % &l)) {
            return err("e(R2,S2) does not match an isogeny of degree d2 masked by B");
        }
        Ok(())
    }

    pub fn run(&mut self, events: &[String]) {
        let other = crate::other_build(events);
        for e in events {
            self.step(e);
            self.step_no += 1;
            if self.viol.len() > 20 {
                break;
            }
        }
        self.finish();
        let ns: Vec<u32> = self.nodes.keys().copied().collect();
        for n in ns {
            self.down(n);
        }
        if let Some(o) = other {
            self.cross(o);
        }
    }

    pub fn edges(&self) -> &BTreeSet<u32> {
        &self.edges
    }

    fn open_judge(&mut self, n: u32, via: &str, id: u32, r: &Reply, restored: bool, golden_key: bool) {
        let Some(m) = self.msgs.get(&id).cloned() else { return };
        self.stats.judged += 1;
        if matches!(r, Reply::Crashed) {
            return;
        }
        if m.genuine {
            let ok = matches!(r, Reply::Ok(v) if v[0] == m.m);
            if !ok {
                let d = format!(
                    "node {n} opened a genuine ciphertext {id} of key {} ({via}): sealed {} got {}",
                    m.key,
                    m.m,
                    short(r)
                );
                self.violate("roundtrip", d.clone());
                match self.born.get(&m.key) {
                    Some(false) => self.violate("keyform", d.clone()),
                    Some(true) => {
                        self.violate("keyform", d.clone());
                        self.violate("entropy", d.clone());
                    }
                    None => {}
                }
                if restored {
                    self.violate("durability", d.clone());
                }
                if golden_key {
                    self.violate("golden", d.clone());
                }
                if matches!(r, Reply::Hang | Reply::HangWall | Reply::Deadlock) {
                    self.violate("liveness", d);
                }
            }
        } else if matches!(r, Reply::Hang | Reply::HangWall | Reply::Deadlock) {
            self.violate(
                "liveness",
                format!("opening damaged ciphertext {id} ({}) does not terminate: {}", m.m, short(r)),
            );
        } else if let Reply::Died(s) = r {
            if s != "down" && s != "not running" {
                self.violate("liveness", format!("opening damaged ciphertext {id} ({}) killed the process: {s}", m.m));
            }
        }
    }

    fn add_key(&mut self, k: u32, pk: Vec<u8>, sk: Vec<u8>) {
        self.keys.insert(k, KeySt { pk, sk });
    }

    pub fn golden(&self) -> &'static Golden {
        golden()
    }

    /// Execute one event line: `+<ms> <event> <args...>`
    fn step(&mut self, line: &str) {
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.len() < 2 {
            return;
        }
        let dt: u64 = t[0].trim_start_matches('+').parse().unwrap_or(0);
        self.clock_ms += dt;
        self.stats.sim_ms += dt;
        let ev = t[1].to_string();
        *self.stats.events.entry(ev.clone()).or_default() += 1;
        let a = &t[2..];
        let num = |i: usize| a.get(i).and_then(|x| x.parse::<u32>().ok()).unwrap_or(0);
        let ent = kv(a, "ent").and_then(EntropySpec::parse).unwrap_or(EntropySpec::plain(0));
        let crash = kv(a, "crash")
            .and_then(|x| x.parse::<u64>().ok())
            .or(kv(a, "oom").and_then(|x| x.parse::<u64>().ok()).map(|x| OOM | x));
        let inst: u32 = kv(a, "inst").and_then(|x| x.parse().ok()).unwrap_or(0);
        match ev.as_str() {
            "boot" => {
                self.boot(num(0), kv(a, "env").and_then(|x| x.parse().ok()).unwrap_or(0));
                self.note(format!("boot {}", num(0)));
            }
            "crash" => {
                self.down(num(0));
                self.fault("process_kill");
                self.note(format!("crash {}", num(0)));
            }
            "clock" => {
                // a clock jump (either direction) on top of normal time
                let d: i64 = a[0].parse().unwrap_or(0);
                self.clock_ms = self.clock_ms.saturating_add_signed(d);
                self.fault("clock_jump");
            }
            // golden <key> <index>: a key deployed by an earlier release
            "golden" => {
                let g = self.golden();
                let i = num(1) as usize % g.keys.len();
                self.add_key(num(0), g.keys[i].pk.clone(), g.keys[i].sk.clone());
                // golden keys are on every owner's disk already
                self.note(format!("golden key {} = #{i}", num(0)));
            }
            // remask <key> a= b=: the same deployed key, had its owner drawn
            // other masks (public points rescaled with the oracle's arithmetic)
            "remask" => {
                if let Some(k) = self.keys.get(&num(0)).cloned() {
                    let g = |n: &str| kv(a, n).map(bigs).unwrap_or(BigUint::from(1u32));
                    if let Some(k) = remask(&k, &g("a"), &g("b")) {
                        self.keys.insert(num(0), k);
                    }
                }
            }
            // nudge <key> a= b=: masks with these bits flipped
            "nudge" => {
                if let Some(k) = self.keys.get(&num(0)).cloned() {
                    let g = |n: &str| kv(a, n).map(bigs).unwrap_or(BigUint::from(0u32));
                    if let Some(v) = sk_view(&k.sk) {
                        if let Some(k) = remask(&k, &(v.a.0 ^ g("a")), &(v.a.1 ^ g("b"))) {
                            self.keys.insert(num(0), k);
                        }
                    }
                }
            }
            // copykey <new> <key>
            "copykey" => {
                if let Some(k) = self.keys.get(&num(1)).cloned() {
                    self.keys.insert(num(0), k);
                }
            }
            // twin <node> <new node>: the process is duplicated with all its state
            "twin" => {
                let (n, m) = (num(0), num(1));
                if self.node(n).node.is_some() && n != m {
                    self.down(m);
                    self.boots += 1;
                    let id = 200 + (self.boots % 5) as u32;
                    let st = self.node(n);
                    let (insts, slots) = (st.insts.clone(), st.slots.clone());
                    let t = st.node.as_mut().unwrap().twin(id);
                    if t.is_some() {
                        let f = st.failed_before;
                        let tw = self.node(m);
                        tw.node = t;
                        tw.insts = insts;
                        tw.slots = slots;
                        tw.failed_before = f;
                        self.fault("process_duplicated");
                        self.note(format!("twin {n} {m}"));
                    } else {
                        self.note("twin failed".into());
                    }
                }
            }
            // own <node> <key>: the owner's disk holds the key
            "own" => {
                if let Some(k) = self.keys.get(&num(1)).cloned() {
                    let f = DiskFile { bytes: k.sk, intact: true };
                    self.node(num(0)).disk.insert(num(1), f);
                }
            }
            "keygen" => self.ev_keygen(num(0), num(1), inst, &ent, crash, a),
            "persist" => self.ev_persist(num(0), num(1), a),
            "restore" => self.ev_restore(num(0), num(1), kv(a, "golden").is_some()),
            "seal" => {
                let mut m = kv(a, "m").unwrap_or("0:0:1:1").to_string();
                if let (Some(rel), Some(k)) = (kv(a, "rel"), self.keys.get(&num(1))) {
                    m = related(&m, rel, &k.sk);
                }
                self.ev_seal(num(0), num(1), num(2), inst, &m, &ent, crash, a)
            }
            // gct <id> <key> <golden key index> <ct index>: a stored ciphertext
            "gct" => {
                let g = self.golden();
                let i = num(2) as usize % g.keys.len();
                let c = &g.keys[i].cts[num(3) as usize % g.keys[i].cts.len()];
                self.msgs.insert(
                    num(0),
                    MsgSt { key: num(1), m: c.0.clone(), ct: c.1.clone(), genuine: true },
                );
            }
            // damage <new id> <id> <kind> <seed>
            "damage" => {
                if let Some(m) = self.msgs.get(&num(1)).cloned() {
                    let b = mangle(&m.ct, a[2], a[3].parse().unwrap_or(0));
                    let same = b == m.ct;
                    self.fault(&format!("net_{}", a[2]));
                    self.msgs.insert(
                        num(0),
                        MsgSt {
                            key: m.key,
                            m: if same { m.m.clone() } else { format!("damaged:{}", a[2]) },
                            ct: b,
                            genuine: same && m.genuine,
                        },
                    );
                }
            }
            "drop" => {
                self.fault("net_drop");
                self.note(format!("drop {}", num(0)));
            }
            "deliver" => {
                if kv(a, "dup").is_some() {
                    self.fault("net_duplicate");
                }
                if kv(a, "late").is_some() {
                    self.fault("net_reorder");
                }
                self.ev_open(num(0), num(1), inst, a, &ent, crash)
            }
            // misdeliver <node> <id> <key>: a ciphertext reaches the wrong owner
            "misdeliver" => {
                self.fault("net_misroute");
                let (n, id, k) = (num(0), num(1), num(2));
                if let (Some(m), Some(key)) = (self.msgs.get(&id).cloned(), self.keys.get(&k).cloned()) {
                    if k != m.key && self.inst(n, inst) {
                        let op = format!("inv {inst} {} {}", hex(&key.sk), hex(&m.ct));
                        let (r, _) = self.call(n, &ent, crash, &op);
                        self.note(format!("misdeliver {id}: {}", short(&r)));
                        self.stats.judged += 1;
                        if matches!(r, Reply::Hang | Reply::HangWall | Reply::Deadlock) {
                            self.violate("liveness", format!("opening ciphertext {id} with another owner's key: {}", short(&r)));
                        }
                        if let Reply::Ok(v) = &r {
                            let own = self.keys.get(&m.key).map(|x| x.sk.clone()).unwrap_or_default();
                            if v[0] == m.m && m.genuine && !same_opener(&key.sk, &own) {
                                self.violate("confidential", format!("ciphertext {id} of key {} opened to its message with key {k}", m.key));
                            }
                        }
                    }
                }
            }
            "codec" => self.ev_codec(num(0), a, &ent),
            "opendamagedkey" => self.ev_open_damaged_key(num(0), num(1), inst, a, &ent),
            "sealdamagedpk" => self.ev_seal_damaged_pk(num(0), num(1), inst, a, &ent),
            "fail" => self.ev_fail(num(0), inst, a, &ent),
            "same" => self.ev_same(num(0), inst, a, &ent),
            "par" => self.ev_par(num(0), a),
            "walk" | "sample" if !INTERNALS => {}
            "walk" => self.ev_walk(num(0), a, &ent),
            "sample" => self.ev_sample(num(0), a, &ent),
            "entpair" => self.ev_entpair(num(0), inst, a, &ent),
            "entmap" => self.ev_entmap(num(0), inst, &ent),
            "fresh" => self.ev_fresh(num(0), inst, a, &ent),
            "leak" => self.ev_leak(num(0), inst, a, &ent),
            "age" => self.ev_age(num(0), inst, a, &ent),
            "share" => {
                if let (Reply::Ok(v), _) = self.call(num(0), &ent, None, "share") {
                    self.stats.judged += 1;
                    if v[0] != "1" {
                        self.violate("threads", "the API types are no longer Send + Sync".into());
                    }
                }
            }
            _ => {}
        }
    }

    fn ev_keygen(&mut self, n: u32, k: u32, inst: u32, ent: &EntropySpec, crash: Option<u64>, a: &[&str]) {
        if !self.inst(n, inst) {
            return;
        }
        let (r, s) = self.call(n, ent, crash, &format!("keygen {inst} {k}"));
        self.note(format!("keygen {n} {k} {}", short(&r)));
        self.stats.judged += 1;
        let fired: u64 = s.faults.iter().sum();
        let has_faults = !ent.faults.is_empty();
        // a permanently dead source may block key generation, nothing else may
        let dead = ent.faults.iter().any(|f| f.len > 1_000_000);
        let hard = ent.faults.iter().any(|f| {
            use crate::seam::FaultKind::*;
            matches!(f.kind, Fail | OpenFail) || f.len > BURST
        });
        match r {
            Reply::Crashed => self.fault("process_crash_mid_keygen"),
            Reply::Ok(v) => {
                let (pk, sk) = (unhex(&v[0]), unhex(&v[1]));
                if kv(a, "check") != Some("no") {
                    if let Err(e) = self.check_key(&pk, &sk) {
                        let d = format!("keygen with entropy {}: {e}", ent.fmt());
                        self.violate("keyform", d.clone());
                        if has_faults {
                            self.violate("entropy", d);
                        }
                    } else if fired > 0 {
                        self.probe("wellformed_key_under_entropy_fault");
                    }
                }
                let failing = {
                    use crate::seam::FaultKind::*;
                    !ent.faults.is_empty() && ent.faults.iter().all(|f| matches!(f.kind, Fail | OpenFail))
                };
                if failing && fired > 0 {
                    // draws that failed must have been made again: with other
                    // entropy, every secret choice comes out differently
                    let mut e = ent.clone();
                    e.seed ^= 0x5eed_0f_0e72;
                    let (r2, _) = self.call(n, &e, None, &format!("keygen {inst} 91"));
                    if let Reply::Ok(w) = r2 {
                        let (pk2, sk2) = (unhex(&w[0]), unhex(&w[1]));
                        if let (Some(x), Some(y)) = (sk_view(&sk), sk_view(&sk2)) {
                            let cut = |b: &Vec<u8>| b[..FQ_LEN.min(b.len())].to_vec();
                            for (same, what) in [
                                (x.a.0 == y.a.0, "first mask"),
                                (x.a.1 == y.a.1, "second mask"),
                                (cut(&sk) == cut(&sk2), "secret curve"),
                                (cut(&pk) == cut(&pk2), "public curve"),
                            ] {
                                if same {
                                    let d = format!("keygen with entropy {}: the {what} was chosen without entropy", ent.fmt());
                                    self.violate("entropy", d);
                                }
                            }
                        }
                    }
                    self.probe("key_despite_failing_source");
                }
                let total = s.bytes + s.os_bytes;
                if total < 16 {
                    self.violate("fresh", format!("keygen drew only {total} bytes of entropy"));
                }
                let key = KeySt { pk, sk };
                if !has_faults {
                    self.gens.push((key.clone(), s.hash));
                }
                if key.pk.len() != PK_LEN || key.sk.len() != SK_LEN {
                    let d = format!("keygen gave a key of {}+{} bytes", key.pk.len(), key.sk.len());
                    for c in ["keyform", "durability", "roundtrip", "fresh"] {
                        self.violate(c, d.clone());
                    }
                    return;
                }
                self.keys.insert(k, key);
                self.born.insert(k, has_faults);
                self.node(n).slots.insert(k, false);
            }
            r => {
                let d = format!("keygen with entropy {}: {}", ent.fmt(), short(&r));
                let hang = matches!(r, Reply::Hang | Reply::HangWall | Reply::Deadlock);
                if hang && dead {
                    self.probe("keygen_blocks_on_dead_source");
                } else if hang {
                    self.violate("entropy", d.clone());
                    self.violate("liveness", d.clone());
                    if !has_faults {
                        self.violate("keyform", d);
                    }
                } else if matches!(r, Reply::Panic(_)) && hard {
                    self.probe("keygen_failed_cleanly");
                } else if matches!(r, Reply::Died(ref s) if s == "down") {
                } else {
                    if has_faults {
                        self.violate("entropy", d.clone());
                    }
                    self.violate("keyform", d.clone());
                    if matches!(r, Reply::Died(_)) {
                        self.violate("liveness", d);
                    }
                }
            }
        }
    }

    fn ev_persist(&mut self, n: u32, k: u32, a: &[&str]) {
        let Some(key) = self.keys.get(&k).cloned() else { return };
        if !self.node(n).slots.contains_key(&k) {
            return;
        }
        let (r, _) = self.call(n, &EntropySpec::plain(5), None, &format!("enc {k}"));
        let Reply::Ok(v) = r else {
            self.violate("durability", format!("encoding key {k} failed: {}", short(&r)));
            return;
        };
        let b = unhex(&v[0]);
        self.stats.judged += 1;
        if b != key.sk || b.len() != SK_LEN {
            self.violate("durability", format!("key {k} encoded differently from before ({} bytes)", b.len()));
        }
        match kv(a, "disk") {
            None => {
                self.node(n).disk.insert(k, DiskFile { bytes: b, intact: true });
            }
            Some("lost") => self.fault("disk_lost_write"),
            Some(f) => {
                let (kind, seed) = f.split_once(':').unwrap_or((f, "0"));
                let c = mangle(&b, kind, seed.parse().unwrap_or(0));
                self.fault(&format!("disk_{kind}"));
                let intact = c == b;
                self.node(n).disk.insert(k, DiskFile { bytes: c, intact });
            }
        }
        self.note(format!("persist {n} {k}"));
    }

    fn ev_restore(&mut self, n: u32, k: u32, golden: bool) {
        let Some(f) = self.node(n).disk.get(&k).cloned() else { return };
        // a damaged file, should it load at all, must not replace the live key
        let slot = if f.intact { k } else { k + 1000 };
        let (r, _) = self.call(n, &EntropySpec::plain(6), None, &format!("load {slot} {}", hex(&f.bytes)));
        self.note(format!("restore {n} {k} intact={} {}", f.intact, short(&r)));
        self.stats.judged += 1;
        match &r {
            Reply::Ok(v) => {
                if unhex(&v[0]) != f.bytes {
                    let d = format!("key {k} read from disk re-encodes to different bytes");
                    if f.intact {
                        self.violate("durability", d.clone());
                        if golden {
                            self.violate("golden", d.clone());
                        }
                    }
                    self.violate("codec", d);
                }
                if f.intact {
                    self.node(n).slots.insert(k, true);
                    self.probe("key_restored");
                }
            }
            Reply::Died(s) if s == "down" => {}
            r => {
                if f.intact {
                    let d = format!("key {k} on disk is intact but restoring it: {}", short(r));
                    self.violate("durability", d.clone());
                    if golden {
                        self.violate("golden", d);
                    }
                } else if matches!(r, Reply::Hang | Reply::HangWall) {
                    self.violate("liveness", format!("restoring damaged key {k}: {}", short(r)));
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn ev_seal(&mut self, n: u32, k: u32, id: u32, inst: u32, m: &str, ent: &EntropySpec, crash: Option<u64>, a: &[&str]) {
        let Some(key) = self.keys.get(&k).cloned() else { return };
        if !self.inst(n, inst) {
            return;
        }
        let (r, _) = self.call(n, ent, crash, &format!("eval {inst} {} {m}", hex(&key.pk)));
        self.note(format!("seal {n} {k} {id} {}", short(&r)));
        self.stats.judged += 1;
        match r {
            Reply::Ok(v) => {
                let ct = unhex(&v[0]);
                if ct.len() != CT_LEN {
                    let d = format!("sealing {m} to key {k} gave {} bytes", ct.len());
                    for c in ["roundtrip", "codec"] {
                        self.violate(c, d.clone());
                    }
                    return;
                }
                if kv(a, "check").is_some() {
                    if let Err(e) = self.check_ct(&key.pk, &ct) {
                        self.violate("roundtrip", format!("sealing {m} to key {k}: {e}"));
                    }
                }
                if let Some(w) = kv(a, "want") {
                    // the bytes an earlier release produced for this message
                    let (gi, ci) = w.split_once('/').unwrap_or(("0", "0"));
                    let g = self.golden();
                    let gk = &g.keys[gi.parse::<usize>().unwrap_or(0) % g.keys.len()];
                    let c = ci.parse::<usize>().unwrap_or(0) % gk.pairs();
                    if gk.message(c) == m && !gk.matches(c, &ct) {
                        self.violate("golden", format!("sealing {m} no longer gives the deployed ciphertext (golden {w})"));
                    }
                }
                self.msgs.insert(id, MsgSt { key: k, m: m.to_string(), ct, genuine: true });
            }
            Reply::Crashed => self.fault("process_crash_mid_seal"),
            Reply::Died(ref s) if s == "down" => {}
            r => {
                let d = format!("sealing {m} to key {k}: {}", short(&r));
                self.violate("roundtrip", d.clone());
                if let Some(f) = self.born.get(&k).copied() {
                    self.violate("keyform", d.clone());
                    if f {
                        self.violate("entropy", d.clone());
                    }
                }
                if kv(a, "want").is_some() {
                    self.violate("golden", d.clone());
                }
                if !matches!(r, Reply::Panic(_)) {
                    self.violate("liveness", d);
                }
            }
        }
    }

    fn ev_open(&mut self, n: u32, id: u32, inst: u32, a: &[&str], ent: &EntropySpec, crash: Option<u64>) {
        let Some(m) = self.msgs.get(&id).cloned() else { return };
        let Some(key) = self.keys.get(&m.key).cloned() else { return };
        if !self.inst(n, inst) {
            return;
        }
        let slot = self.node(n).slots.get(&m.key).copied();
        let via = kv(a, "via").unwrap_or("mem");
        let (sk, restored) = match (via, slot) {
            ("mem", Some(r)) => (format!("mem:{}", m.key), r),
            ("mem", None) => return, // the owner does not hold the key now
            _ => (hex(&key.sk), true),
        };
        let (r, _) = self.call(n, ent, crash, &format!("inv {inst} {sk} {}", hex(&m.ct)));
        self.note(format!("open {n} {id} {}", short(&r)));
        if matches!(r, Reply::Crashed) {
            self.fault("process_crash_mid_open");
        }
        self.open_judge(n, via, id, &r, restored, kv(a, "golden").is_some());
    }

    /// codec <node> what=ct|sk src=<msg id|key> kind=<mangle> seed=<n>
    fn ev_codec(&mut self, n: u32, a: &[&str], ent: &EntropySpec) {
        let what = kv(a, "what").unwrap_or("ct");
        let src: u32 = kv(a, "src").and_then(|x| x.parse().ok()).unwrap_or(0);
        let kind = kv(a, "kind").unwrap_or("flip");
        let seed = kv(a, "seed").and_then(|x| x.parse().ok()).unwrap_or(0);
        let b = match what {
            "ct" => match self.msgs.get(&src) {
                Some(m) => m.ct.clone(),
                None => return,
            },
            _ => match self.keys.get(&src) {
                Some(k) => k.sk.clone(),
                None => return,
            },
        };
        let c = mangle(&b, kind, seed);
        self.fault(&format!("{}_{kind}", if what == "ct" { "net" } else { "disk" }));
        let (r, _) = self.call(n, ent, None, &format!("dec{what} {}", hex(&c)));
        self.note(format!("codec {what} {kind} {}", short(&r)));
        self.stats.judged += 1;
        let good = well_encoded(&c, what);
        match &r {
            Reply::Ok(v) => {
                let back = unhex(&v[0]);
                if !good {
                    self.violate(
                        "codec",
                        format!("{what} of {} bytes, damaged by {kind}:{seed}, was accepted although malformed", c.len()),
                    );
                } else if back != c {
                    self.violate("codec", format!("{what} damaged by {kind}:{seed} was accepted as something else"));
                } else {
                    self.probe("well_encoded_accepted");
                }
            }
            Reply::Panic(_) => {
                if good {
                    self.violate("codec", format!("well-encoded {what} ({kind}:{seed}) was rejected: {}", short(&r)));
                } else {
                    self.probe("malformed_rejected");
                }
            }
            Reply::Died(s) if s == "down" => {}
            r => self.violate("codec", format!("decoding {what} ({kind}:{seed}): {}", short(r))),
        }
    }

    /// opendamagedkey <node> <id> kind= seed=: open with a key file damaged on disk
    fn ev_open_damaged_key(&mut self, n: u32, id: u32, inst: u32, a: &[&str], ent: &EntropySpec) {
        let Some(m) = self.msgs.get(&id).cloned() else { return };
        let Some(key) = self.keys.get(&m.key).cloned() else { return };
        if !self.inst(n, inst) {
            return;
        }
        let kind = kv(a, "kind").unwrap_or("flip");
        let seed = kv(a, "seed").and_then(|x| x.parse().ok()).unwrap_or(0);
        let b = mangle(&key.sk, kind, seed);
        self.fault(&format!("disk_{kind}"));
        let (r, _) = self.call(n, ent, None, &format!("inv {inst} {} {}", hex(&b), hex(&m.ct)));
        self.note(format!("opendamagedkey {id} {kind} {}", short(&r)));
        self.stats.judged += 1;
        if !matches!(r, Reply::Ok(_) | Reply::Panic(_)) {
            self.violate("liveness", format!("opening with a damaged key file ({kind}:{seed}): {}", short(&r)));
        }
    }

    /// sealdamagedpk <node> <key> kind= seed= m=
    fn ev_seal_damaged_pk(&mut self, n: u32, k: u32, inst: u32, a: &[&str], ent: &EntropySpec) {
        let Some(key) = self.keys.get(&k).cloned() else { return };
        if !self.inst(n, inst) {
            return;
        }
        let kind = kv(a, "kind").unwrap_or("flip");
        let seed = kv(a, "seed").and_then(|x| x.parse().ok()).unwrap_or(0);
        let b = mangle(&key.pk, kind, seed);
        if b.len() != PK_LEN {
            return;
        }
        self.fault(&format!("net_{kind}"));
        let m = kv(a, "m").unwrap_or("0:0:1:1");
        let (r, _) = self.call(n, ent, None, &format!("eval {inst} {} {m}", hex(&b)));
        self.note(format!("sealdamagedpk {k} {kind} {}", short(&r)));
        self.stats.judged += 1;
        if !matches!(r, Reply::Ok(_) | Reply::Panic(_)) {
            self.violate("liveness", format!("sealing to a damaged public key ({kind}:{seed}): {}", short(&r)));
        }
    }

    /// fail <node> what=...: an operation that is expected to be aborted
    fn ev_fail(&mut self, n: u32, inst: u32, a: &[&str], ent: &EntropySpec) {
        if !self.inst(n, inst) {
            return;
        }
        let what = kv(a, "what").unwrap_or("keygen");
        let kind = kv(a, "kind").unwrap_or("flip");
        let seed: u64 = kv(a, "seed").and_then(|x| x.parse().ok()).unwrap_or(0);
        let id: u32 = kv(a, "id").and_then(|x| x.parse().ok()).unwrap_or(0);
        let k: u32 = kv(a, "key").and_then(|x| x.parse().ok()).unwrap_or(0);
        let op = match what {
            "keygen" => format!("keygen {inst} 99"),
            "inv" => {
                let (Some(m), Some(key)) = (self.msgs.get(&id), self.keys.get(&k)) else { return };
                format!("inv {inst} {} {}", hex(&key.sk), hex(&mangle(&m.ct, kind, seed)))
            }
            "badkey" => {
                let (Some(m), Some(key)) = (self.msgs.get(&id), self.keys.get(&k)) else { return };
                format!("inv {inst} {} {}", hex(&mangle(&key.sk, kind, seed)), hex(&m.ct))
            }
            "eval" => {
                let Some(key) = self.keys.get(&k) else { return };
                let b = mangle(&key.pk, kind, seed);
                if b.len() != PK_LEN {
                    return;
                }
                format!("eval {inst} {} {}", hex(&b), kv(a, "m").unwrap_or("0:0:1:1"))
            }
            "decct" => {
                let Some(m) = self.msgs.get(&id) else { return };
                format!("decct {}", hex(&mangle(&m.ct, kind, seed)))
            }
            _ => {
                let Some(key) = self.keys.get(&k) else { return };
                format!("decsk {}", hex(&mangle(&key.sk, kind, seed)))
            }
        };
        let (r, _) = self.call(n, ent, None, &op);
        self.note(format!("fail {what} {kind} {}", short(&r)));
        self.fault(&format!("failing_{what}"));
        if matches!(r, Reply::Panic(_)) {
            self.probe("operation_aborted");
        }
    }

    /// same <node> op=eval|inv|keygen ...: the result must equal the one the
    /// same operation gives alone in a pristine process
    fn ev_same(&mut self, n: u32, inst: u32, a: &[&str], ent: &EntropySpec) {
        if !self.inst(n, inst) {
            return;
        }
        let Some((op, rop)) = self.op_of(a, inst) else { return };
        let failed = self.node(n).failed_before;
        // the reference runs with different entropy unless the operation is keygen
        let isgen = op.starts_with("keygen") || op.starts_with("cycle");
        let rent = if isgen { ent.clone() } else { EntropySpec::plain(77) };
        let (want, _) = self.reference(&rent, &rop);
        let got = if kv(a, "thr") == Some("1") {
            self.call_in_thread(n, ent, &op)
        } else {
            self.call(n, ent, None, &op).0
        };
        self.note(format!("same {} {}", op.split(' ').next().unwrap(), short(&got)));
        self.stats.judged += 1;
        if !same_reply(&got, &want) {
            let d = format!(
                "{} in node {n} (instance {inst}) gave {} but alone in a fresh process it gives {}",
                a.join(" "),
                short(&got),
                short(&want)
            );
            self.violate("determinism", d.clone());
            if failed {
                self.violate("isolation", d);
            }
        } else if failed {
            self.probe("correct_after_failure");
        }
    }

    /// a call from a thread that lives only for this call
    fn call_in_thread(&mut self, n: u32, ent: &EntropySpec, op: &str) -> Reply {
        let st = self.node(n);
        let jobs = vec![vec![(ent.clone(), op.to_string())]];
        let r = st.node.as_mut().unwrap().par("x:", Some(2 * BUDGET), &jobs);
        *self.stats.faults.entry("caller_thread_changed".into()).or_default() += 1;
        match r {
            Reply::Par(mut p) => {
                self.stats.work += p.work;
                self.aside(op.split(' ').next().unwrap(), &p.acts);
                let r = p.threads.pop().and_then(|mut t| t.pop()).map_or(Reply::Died("no answer".into()), |x| x.0);
                self.trace(op, &r);
                r
            }
            r => {
                self.down(n);
                r
            }
        }
    }

    /// op strings (in-node, reference) of a `same`/`par` operation
    fn op_of(&mut self, a: &[&str], inst: u32) -> Option<(String, String)> {
        let k: u32 = kv(a, "key").and_then(|x| x.parse().ok()).unwrap_or(0);
        let id: u32 = kv(a, "id").and_then(|x| x.parse().ok()).unwrap_or(0);
        let m = kv(a, "m").unwrap_or("0:0:1:1");
        let f = |op: String| (format!("{} {inst} {}", op.split_once(' ').unwrap().0, op.split_once(' ').unwrap().1), ());
        let _ = f;
        let mk = |o: &str, rest: String| (format!("{o} {inst}{rest}"), format!("{o} 0{rest}"));
        match kv(a, "op")? {
            "keygen" => Some(mk("keygen", " 90".into())),
            "cycle" => Some(mk("cycle", format!(" {m}"))),
            "eval" => {
                let key = self.keys.get(&k)?;
                Some(mk("eval", format!(" {} {m}", hex(&key.pk))))
            }
            "inv" => {
                let ms = self.msgs.get(&id)?;
                let key = self.keys.get(&ms.key)?;
                let ct = match kv(a, "kind") {
                    None => ms.ct.clone(),
                    Some(kd) => mangle(&ms.ct, kd, kv(a, "seed").and_then(|x| x.parse().ok()).unwrap_or(0)),
                };
                Some(mk("inv", format!(" {} {}", hex(&key.sk), hex(&ct))))
            }
            "decct" => {
                let ms = self.msgs.get(&id)?;
                let s = format!("decct {}", hex(&ms.ct));
                Some((s.clone(), s))
            }
            "decsk" => {
                let key = self.keys.get(&k)?;
                let s = format!("decsk {}", hex(&key.sk));
                Some((s.clone(), s))
            }
            "tbasis" if !INTERNALS => None,
            "tbasis" => {
                let key = self.keys.get(&k)?;
                let s = format!("tbasis {} {}", hex(&key.pk[..FQ_LEN]), fmt_factors(D2_FACTORED));
                Some((s.clone(), s))
            }
            _ => None,
        }
    }

    /// par <node> policy=<p> : t<i>=<op spec with , for space> ...
    /// e.g. par 0 policy=r:500:3:17 job=0/eval/key,1/m,../ent
    fn ev_par(&mut self, n: u32, a: &[&str]) {
        if !self.inst(n, 0) {
            return;
        }
        let policy = kv(a, "policy").unwrap_or("r:1000:2:1").to_string();
        // job=<thread>|<field>|<field>...
        let mut threads: Vec<Vec<(EntropySpec, String, EntropySpec, String, String)>> = vec![];
        let mut order: Vec<u32> = vec![];
        for j in a.iter().filter_map(|x| x.strip_prefix("job=")) {
            let f: Vec<&str> = j.split('|').collect();
            let th: u32 = f[0].parse().unwrap_or(0);
            let ent = kv(&f, "ent").and_then(EntropySpec::parse).unwrap_or(EntropySpec::plain(th as u64));
            let inst: u32 = kv(&f, "inst").and_then(|x| x.parse().ok()).unwrap_or(0);
            if !self.inst(n, inst) {
                return;
            }
            let Some((op, rop)) = self.op_of(&f[1..], inst) else { continue };
            let isgen = op.starts_with("keygen") || op.starts_with("cycle");
            let rent = if isgen { ent.clone() } else { EntropySpec::plain(77) };
            let pos = match order.iter().position(|x| *x == th) {
                Some(p) => p,
                None => {
                    order.push(th);
                    threads.push(vec![]);
                    order.len() - 1
                }
            };
            threads[pos].push((ent, op, rent, rop, f[1..].join(" ")));
        }
        if threads.is_empty() {
            return;
        }
        let mut wants = vec![];
        for t in &threads {
            let mut w = vec![];
            for (_, _, re, ro, _) in t {
                w.push(self.reference(re, ro).0);
            }
            wants.push(w);
        }
        let jobs: Vec<Vec<(EntropySpec, String)>> = threads
            .iter()
            .map(|t| t.iter().map(|(e, o, _, _, _)| (e.clone(), o.clone())).collect())
            .collect();
        let njobs: u64 = jobs.iter().map(|x| x.len() as u64).sum();
        let st = self.node(n);
        let r = st.node.as_mut().unwrap().par(&policy, Some(BUDGET * (njobs + 1)), &jobs);
        match r {
            Reply::Par(p) => {
                self.stats.work += p.work;
                self.aside("concurrent operations", &p.acts);
                let ns = p.switches.split(',').count() as u64;
                self.stats.switches += ns;
                self.stats.fp = mix(self.stats.fp, p.hash);
                self.last_switches = p.switches.clone();
                *self.stats.faults.entry("preemption".into()).or_default() += ns;
                self.note(format!("par {} threads {} switches {:x}", threads.len(), ns, p.hash));
                for (ti, t) in p.threads.iter().enumerate() {
                    for (ji, (got, _)) in t.iter().enumerate() {
                        self.stats.judged += 1;
                        self.trace(&threads[ti][ji].1, got);
                        let Some(want) = wants.get(ti).and_then(|x| x.get(ji)) else { continue };
                        if !same_reply(got, want) {
                            let d = format!(
                                "thread {ti} {}: got {} under this schedule, alone it gives {}",
                                threads[ti][ji].4,
                                short(got),
                                short(want)
                            );
                            self.violate("threads", d);
                        }
                        // distinct keys for distinct entropy, also across threads
                        if let (Reply::Ok(v), true) = (got, threads[ti][ji].1.starts_with("keygen")) {
                            let key = KeySt { pk: unhex(&v[0]), sk: unhex(&v[1]) };
                            if threads[ti][ji].0.faults.is_empty() {
                                self.gens.push((key, threads[ti][ji].0.seed));
                            }
                        }
                    }
                }
            }
            r => {
                self.note(format!("par {}", short(&r)));
                self.violate("threads", format!("concurrent operations: {}", short(&r)));
                self.down(n);
            }
        }
    }

    /// walk <node> curve=e0|key:<k> f=<factors> steps=<n>
    fn ev_walk(&mut self, n: u32, a: &[&str], ent: &EntropySpec) {
        if !self.inst(n, 0) {
            return;
        }
        let Some(b) = self.basis() else {
            self.violate("walk", "the public 2^b-basis of E0 is not on E0".into());
            return;
        };
        let (cv, ctok, p, q) = match kv(a, "curve").and_then(|c| c.strip_prefix("key:")) {
            Some(k) => {
                let Some(key) = self.keys.get(&k.parse().unwrap_or(0)) else { return };
                let f = |i: usize| F2::decode(&key.pk[i * FQ_LEN..(i + 1) * FQ_LEN]).unwrap_or(F2::ZERO);
                (Curve { A: f(0) }, hex(&key.pk[..FQ_LEN]), Some((f(1), f(2))), Some((f(3), f(4))))
            }
            None => (Curve::e0(), "e0".to_string(), b.pb, b.qb),
        };
        let fs = kv(a, "f").unwrap_or("3^1");
        let steps: u32 = kv(a, "steps").and_then(|x| x.parse().ok()).unwrap_or(1);
        let op = format!("walk {ctok} {fs} {steps} {} {}", pt_tok(&p), pt_tok(&q));
        let (r, s) = self.call(n, ent, None, &op);
        self.note(format!("walk {fs} {steps} {}", short(&r)));
        self.stats.judged += 1;
        let hard = ent.faults.iter().any(|f| {
            use crate::seam::FaultKind::*;
            matches!(f.kind, Fail | OpenFail) || f.len > BURST
        });
        let Reply::Ok(v) = r else {
            if matches!(r, Reply::Panic(_)) && hard {
                self.probe("walk_failed_cleanly");
            } else if !matches!(r, Reply::Died(ref s) if s == "down") {
                self.violate("walk", format!("walk {fs} x{steps}, entropy {}: {}", ent.fmt(), short(&r)));
            }
            return;
        };
        if s.faults.iter().sum::<u64>() > 0 {
            self.probe("walk_under_entropy_fault");
        }
        let l = pow2(L_POWER);
        let mut deg = BigUint::from(1u32);
        for x in fs.split(';') {
            let (l, e) = x.split_once('^').unwrap_or(("1", "1"));
            deg *= bigs_dec(l).pow(e.parse().unwrap_or(1));
        }
        let deg = deg.pow(steps);
        let e = (|| -> Result<(), String> {
            let cod = F2::decode(&unhex(&v[0])).ok_or("codomain not canonical")?;
            let cod2 = F2::decode(&unhex(&v[3])).ok_or("codomain not canonical")?;
            if cod != cod2 {
                return Err("the chain's evaluation ends on another curve".into());
            }
            let c = Curve { A: cod };
            if !c.supersingular() {
                return Err("the codomain is not supersingular".into());
            }
            let (p2, q2) = (pt_hex_of(&v[1]).ok_or("bad point")?, pt_hex_of(&v[2]).ok_or("bad point")?);
            if !c.on(&p2) || !c.on(&q2) {
                return Err("image off the codomain".into());
            }
            let w = cv.weil(&p, &q, &l);
            if c.weil(&p2, &q2, &l) != w.pow(&(&deg % &l)) {
                return Err("the degree differs from the one asked for".into());
            }
            // every step has the full degree: a degenerate kernel would leave
            // the walk on the start curve or scale the pairing differently
            Ok(())
        })();
        if let Err(e) = e {
            self.violate("walk", format!("walk {fs} x{steps}, entropy {}: {e}", ent.fmt()));
        }
    }

    /// sample <node> what=points|order|fqs|nqr curve=.. n=.. f=..
    fn ev_sample(&mut self, n: u32, a: &[&str], ent: &EntropySpec) {
        if !self.inst(n, 0) {
            return;
        }
        let what = kv(a, "what").unwrap_or("points");
        let (cv, ctok) = match kv(a, "curve").and_then(|c| c.strip_prefix("key:")) {
            Some(k) => {
                let Some(key) = self.keys.get(&k.parse().unwrap_or(0)) else { return };
                (Curve { A: F2::decode(&key.pk[..FQ_LEN]).unwrap_or(F2::ZERO) }, hex(&key.pk[..FQ_LEN]))
            }
            None => (Curve::e0(), "e0".into()),
        };
        let cnt = kv(a, "n").unwrap_or("8");
        let fs = kv(a, "f").unwrap_or("3^1");
        let op = match what {
            "points" => format!("points {ctok} {cnt}"),
            "order" => format!("order {ctok} {fs}"),
            x => format!("{x} {cnt}"),
        };
        let (r, s) = self.call(n, ent, None, &op);
        self.note(format!("sample {what} {}", short(&r)));
        self.stats.judged += 1;
        let dead = ent.faults.iter().any(|f| f.len > 1_000_000);
        let hard = ent.faults.iter().any(|f| {
            use crate::seam::FaultKind::*;
            matches!(f.kind, Fail | OpenFail) || f.len > BURST
        });
        let fired: u64 = s.faults.iter().sum();
        let v = match r {
            Reply::Ok(v) => v,
            Reply::Panic(_) if hard => return self.probe("sampling_failed_cleanly"),
            Reply::Hang | Reply::HangWall if dead => return self.probe("sampling_blocks_on_dead_source"),
            Reply::Died(ref s) if s == "down" => return,
            r => return self.violate("sampling", format!("{op}, entropy {}: {}", ent.fmt(), short(&r))),
        };
        let clean = ent.faults.is_empty();
        let mut bad: Option<String> = None;
        match what {
            "points" | "order" => {
                let mut pts = vec![];
                for x in &v {
                    match pt_hex_of(x) {
                        Some(Some(p)) if cv.on(&Some(p)) => pts.push(p),
                        Some(None) if what == "order" && hard => {}
                        Some(None) => bad = Some("returned the point at infinity".into()),
                        _ => bad = Some("returned a point off the curve".into()),
                    }
                }
                if what == "order" {
                    let f: Vec<(u32, u32)> = fs
                        .split(';')
                        .filter_map(|x| {
                            let (a, b) = x.split_once('^')?;
                            Some((a.parse().ok()?, b.parse().ok()?))
                        })
                        .collect();
                    for p in &pts {
                        if !cv.has_order(&Some(*p), &f) {
                            bad = Some(format!("returned a point that does not have exact order {fs}"));
                        }
                    }
                }
                if clean && what == "points" && bad.is_none() && pts.len() >= 64 {
                    let all: Vec<Vec<u8>> = pts.iter().map(|p| p.0.encode()).collect();
                    if let Some(b) = stuck_bit(&all) {
                        bad = Some(format!("gave {} points whose x agree in bit {b}", all.len()));
                    }
                    self.probe("point_bits");
                }
                if clean && what == "points" {
                    self.points.extend(pts);
                }
            }
            _ => {
                for x in &v {
                    match F2::decode(&unhex(x)) {
                        None => bad = Some("returned a non-canonical field element".into()),
                        Some(x) => {
                            if what == "nqr" && (x.is_zero() || x.sqrt().is_some()) {
                                bad = Some("returned a square".into());
                            }
                        }
                    }
                }
                if clean && v.len() >= 2 {
                    let s: BTreeSet<&String> = v.iter().collect();
                    if s.len() != v.len() {
                        bad = Some("repeated itself".into());
                    }
                }
                if clean && v.len() >= 64 && bad.is_none() {
                    // no bit of either component is stuck (the top bits depend on p)
                    let all: Vec<Vec<u8>> = v.iter().map(|x| unhex(x)).collect();
                    if stuck_bit(&all).is_some() {
                        bad = Some(format!("gave {} elements that agree in a bit", all.len()));
                    }
                    self.probe("field_element_bits");
                }
            }
        }
        if let Some(b) = bad {
            self.violate("sampling", format!("{op}, entropy {}: {b}", ent.fmt()));
        } else if fired > 0 {
            self.probe("good_sample_under_entropy_fault");
        }
    }

    /// entpair <node> at=<draw>: two keygens whose entropy agrees except from
    /// draw `at` on (by 1 draw) -- used for sensitivity; and the same entropy
    /// twice, which must give the same key
    fn ev_entpair(&mut self, n: u32, inst: u32, a: &[&str], ent: &EntropySpec) {
        if !self.inst(n, inst) {
            return;
        }
        let op = format!("keygen {inst} 95");
        let (r1, s1) = self.call(n, ent, None, &op);
        let at: u64 = kv(a, "at").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut e2 = ent.clone();
        e2.faults.push(crate::seam::Fault { kind: crate::seam::FaultKind::Period, at: at % s1.draws.max(1), len: 1 });
        let (r2, s2) = self.call(n, &e2, None, &op);
        self.note(format!("entpair {} {}", short(&r1), short(&r2)));
        self.stats.judged += 1;
        if let (Reply::Ok(a), Reply::Ok(b)) = (&r1, &r2) {
            if s1.hash != s2.hash && a[1] == b[1] && s1.draws > 0 && at % s1.draws < 2 {
                self.probe("insensitive_draw");
            }
            if s1.hash == s2.hash && a != b {
                self.violate("determinism", format!("two keygens with the same entropy {} differ", ent.fmt()));
            }
        }
    }

    /// age <node> n=<times> op=<op> ...: a process that has done the same thing many
    /// times. Every outcome but that of key generation must be the same.
    fn ev_age(&mut self, n: u32, inst: u32, a: &[&str], ent: &EntropySpec) {
        if !self.inst(n, inst) {
            return;
        }
        let Some((op, rop)) = self.op_of(a, inst) else { return };
        let times: u64 = kv(a, "n").and_then(|x| x.parse().ok()).unwrap_or(100).clamp(1, 2000);
        let (r, _) = self.call_within(n, ent, None, BUDGET * times, &format!("rep {times} {op}"));
        self.note(format!("age {} x{times} {}", kv(a, "op").unwrap_or(""), short(&r)));
        self.stats.judged += 1;
        *self.stats.faults.entry("aged_operations".into()).or_default() += times;
        if op.starts_with("keygen") || op.starts_with("cycle") {
            return;
        }
        let what = format!("{} repeated {times} times in one process", kv(a, "op").unwrap_or(""));
        let (want, _) = self.reference(&EntropySpec::plain(77), &rop);
        let want = match want {
            Reply::Ok(v) => v.join("+"),
            Reply::Panic(_) => "panic".into(),
            _ => return,
        };
        let bad = match r {
            Reply::Ok(v) if v[0] != "1" => format!("{what} has {} different outcomes", v[0]),
            Reply::Ok(v) if v[1] != want => format!("{what} ends with another outcome than in a fresh process"),
            Reply::Ok(_) => return,
            r => {
                format!("{what}: {}", short(&r))
            }
        };
        for c in ["determinism", "isolation"] {
            self.violate(c, bad.clone());
        }
        if want != "panic" {
            self.violate("roundtrip", bad.clone());
            self.violate("golden", bad);
        }
    }

    /// leak <node> rounds=<r> thr=0|1 op=<ops>: all of these operations, round
    /// after round, with fresh entropy each time and nothing kept
    fn ev_leak(&mut self, n: u32, inst: u32, a: &[&str], ent: &EntropySpec) {
        if !self.inst(n, inst) {
            return;
        }
        let rounds: u64 = kv(a, "rounds").and_then(|x| x.parse().ok()).unwrap_or(8).clamp(4, 200);
        let thr = kv(a, "thr").unwrap_or("0");
        let id: u32 = kv(a, "id").and_then(|x| x.parse().ok()).unwrap_or(0);
        let seed: u64 = kv(a, "seed").and_then(|x| x.parse().ok()).unwrap_or(0);
        let kind = kv(a, "kind").unwrap_or("flip");
        let m = kv(a, "m").unwrap_or("0:0:1:1");
        let mut ops = vec![];
        for o in kv(a, "op").unwrap_or("").split('+') {
            let Some(ms) = self.msgs.get(&id) else { continue };
            let Some(key) = self.keys.get(&ms.key) else { continue };
            let (sk, ct) = (hex(&key.sk), hex(&ms.ct));
            ops.push(match o {
                "fresh" => format!("fresh {inst} {m}"),
                "keygen" => format!("keygen {inst} 90"),
                "eval" => format!("eval {inst} {} {m}", hex(&key.pk)),
                "inv" => format!("inv {inst} {sk} {ct}"),
                "badct" => format!("inv {inst} {sk} {}", hex(&mangle(&ms.ct, kind, seed))),
                "badkey" => format!("inv {inst} {} {ct}", hex(&mangle(&key.sk, kind, seed))),
                "decct" => format!("decct {ct}"),
                "decbad" => format!("decct {}", hex(&mangle(&ms.ct, "trunc", seed))),
                "decsk" => format!("decsk {sk}"),
                "decskbad" => format!("decsk {}", hex(&mangle(&key.sk, "noncanon", seed))),
                "new" => "new 9".to_string(),
                _ => continue,
            });
        }
        if ops.is_empty() {
            return;
        }
        let k = ops.len() as u64 * rounds * 8;
        let op = format!("leak {rounds} {} {thr} {}", ent.fmt(), ops.join(" ;; "));
        let (r, _) = self.call_within(n, &EntropySpec::plain(0), None, 3 * BUDGET * k, &op);
        self.note(format!("leak {} {}", kv(a, "op").unwrap_or(""), short(&r)));
        self.stats.judged += 1;
        match r {
            Reply::Ok(v) => {
                let done: u64 = v[0].parse().unwrap_or(0);
                *self.stats.faults.entry("aged_operations".into()).or_default() += done * ops.len() as u64;
                if v[1] != "-" {
                    let x: Vec<&str> = v[1].split(':').collect();
                    self.violate(
                        "memory",
                        format!(
                            "{} repeated: the process holds {} {} after {} rounds, {} after {}, {} after {done}",
                            kv(a, "op").unwrap_or(""), x[1], x[0], done / 4, x[2], done / 2, x[3]
                        ),
                    );
                }
            }
            r => self.violate("memory", format!("{} repeated: {}", kv(a, "op").unwrap_or(""), short(&r))),
        }
    }

    /// fresh <node> n=<times> seed=<s>: many key pairs and messages in one process
    fn ev_fresh(&mut self, n: u32, inst: u32, a: &[&str], ent: &EntropySpec) {
        if !self.inst(n, inst) {
            return;
        }
        let times: u64 = kv(a, "n").and_then(|x| x.parse().ok()).unwrap_or(10).clamp(1, 1000);
        let mut r = Prng::new(kv(a, "seed").and_then(|x| x.parse().ok()).unwrap_or(0));
        let ms: Vec<String> = (0..times).map(|_| crate::gen::message(&mut r)).collect();
        let op = format!("fresh {inst} {}", ms.join(","));
        let (r, _) = self.call_within(n, ent, None, 3 * BUDGET * times, &op);
        self.note(format!("fresh x{times} {}", short(&r)));
        self.stats.judged += times;
        match r {
            Reply::Ok(v) if v[0] == "0" => self.probe("many_keys_one_process"),
            Reply::Ok(v) => self.violate("roundtrip", format!("{} of {times} messages, each to a new key, did not open to themselves", v[0])),
            r => self.violate("roundtrip", format!("{times} messages, each to a new key: {}", short(&r))),
        }
    }

    /// entmap <node>: which bytes of the entropy does each secret choice depend
    /// on? One key generation is repeated with single draws, then single bytes,
    /// of its entropy changed.
    fn ev_entmap(&mut self, n: u32, inst: u32, ent: &EntropySpec) {
        use crate::seam::{Fault, FaultKind::Flip};
        if !self.inst(n, inst) {
            return;
        }
        let op = format!("keygen {inst} 94");
        // both masks, the secret curve, the public curve
        let parts = |r: &Reply| -> Option<[Vec<u8>; 4]> {
            let Reply::Ok(v) = r else { return None };
            let (pk, sk) = (unhex(&v[0]), unhex(&v[1]));
            if pk.len() != PK_LEN || sk.len() != SK_LEN {
                return None;
            }
            let m = (SK_LEN - 9 * FQ_LEN) / 2;
            let o = 9 * FQ_LEN;
            Some([sk[o..o + m].to_vec(), sk[o + m..].to_vec(), sk[..FQ_LEN].to_vec(), pk[..FQ_LEN].to_vec()])
        };
        let (r, s) = self.call(n, ent, None, &op);
        let Some(base) = parts(&r) else { return };
        let lens = s.lens.clone();
        let diff = |w: &mut World, at: usize, len: u64| -> Option<[bool; 4]> {
            let mut e = ent.clone();
            e.faults.push(Fault { kind: Flip, at: at as u64, len });
            let (r, _) = w.call(n, &e, None, &op);
            let x = parts(&r)?;
            Some(std::array::from_fn(|i| x[i] != base[i]))
        };
        let mut draws: Vec<[bool; 4]> = vec![];
        for j in 0..lens.len() {
            let Some(d) = diff(self, j, 0) else { return };
            draws.push(d);
        }
        // the public curve also follows the secret one: prefer the draws that
        // move it alone
        let alone: Vec<bool> = draws.iter().map(|d| d[3] && !d[2]).collect();
        let mut bytes = [0usize; 4];
        // bytes that decide j but not i, and bytes that decide all four
        let (mut without, mut seed) = ([[0usize; 4]; 4], 0);
        for (j, d) in draws.iter().enumerate() {
            let counts = |i: usize| d[i] && (i < 3 || alone[j] || !alone.contains(&true));
            if !(0..4).any(|i| counts(i) && bytes[i] < 40) {
                continue;
            }
            let len = lens[j] as usize;
            let step = if len <= 40 { 1 } else { len / 8 };
            let (mut hit, mut only, mut all, mut tried) = ([0usize; 4], [[0usize; 4]; 4], 0, 0);
            for b in (j % step..len).step_by(step) {
                let Some(d) = diff(self, j, b as u64 + 1) else { return };
                tried += 1;
                all += d.iter().all(|x| *x) as usize;
                for i in 0..4 {
                    hit[i] += (d[i] && counts(i)) as usize;
                    for k in 0..4 {
                        only[i][k] += (!d[i] && d[k]) as usize;
                    }
                }
            }
            let scale = |n: usize| n * len / tried.max(1);
            seed += scale(all);
            for i in 0..4 {
                bytes[i] += scale(hit[i]);
                for k in 0..4 {
                    without[i][k] += scale(only[i][k]);
                }
            }
        }
        self.note(format!("entmap {bytes:?} of {lens:?}"));
        self.stats.judged += 1;
        let names = ["first mask", "second mask", "secret curve", "public curve"];
        for (i, what) in names.iter().enumerate() {
            if bytes[i] < 12 {
                self.violate(
                    "fresh",
                    format!("the {what} of a generated key depends on {} bytes of the entropy drawn", bytes[i]),
                );
            }
        }
        // Two choices that follow from the same bytes are one choice - unless there
        // is one seed that everything follows from. (Changing the secret curve
        // always moves the public one, so that pair only counts one way.)
        if seed < 32 {
            for (i, j) in [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1), (0, 3), (3, 0), (1, 3), (3, 1), (2, 3)] {
                if without[i][j] < 12 && bytes[i] >= 12 && bytes[j] >= 12 {
                    self.violate(
                        "fresh",
                        format!(
                            "the {} of a generated key depends on {} bytes of entropy that do not also decide the {}",
                            names[j], without[i][j], names[i]
                        ),
                    );
                }
            }
        }
        self.probe("entropy_sensitivity_map");
    }

    /// checks over the whole history of the run
    fn finish(&mut self) {
        let g = std::mem::take(&mut self.gens);
        if g.len() >= 2 {
            let mut masks: BTreeSet<BigUint> = BTreeSet::new();
            let mut curves: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
            let mut curves1: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
            let mut seen_hash: BTreeSet<u64> = BTreeSet::new();
            let mut vs = vec![];
            for (k, h) in &g {
                if !seen_hash.insert(*h) {
                    continue; // deliberately the same entropy
                }
                if let Some(v) = sk_view(&k.sk) {
                    vs.push((k.clone(), v));
                }
            }
            let mut dup_mask = 0;
            for (k, v) in &vs {
                for m in [&v.a.0, &v.a.1] {
                    if !masks.insert(m.clone()) {
                        dup_mask += 1;
                    }
                }
                *curves.entry(k.pk[..FQ_LEN].to_vec()).or_default() += 1;
                *curves1.entry(k.sk[..FQ_LEN].to_vec()).or_default() += 1;
            }
            self.stats.judged += 1;
            let n = vs.len();
            if dup_mask > 0 {
                self.violate("fresh", format!("{dup_mask} of {} masks repeat in {n} keys from distinct entropy", 2 * n));
            }
            // chance collisions of the reduced walks are rare but possible
            let slack = if NAME == "toy" { 1 } else { 0 };
            for (c, nm) in [(&curves, "E_A"), (&curves1, "E_A'")] {
                let col: u32 = c.values().map(|x| x - 1).sum();
                if col > slack {
                    self.violate("fresh", format!("{col} repeated curves {nm} in {n} keys from distinct entropy"));
                }
            }
            // every mask bit above bit 0 takes both values
            if n >= 40 {
                for w in 0..2 {
                    for i in 1..L_POWER as u64 {
                        let ones = vs.iter().filter(|x| (if w == 0 { &x.1.a.0 } else { &x.1.a.1 }).bit(i)).count();
                        if ones == 0 || ones == n {
                            self.violate(
                                "fresh",
                                format!("bit {i} of mask {} is constant over {n} keys", if w == 0 { "a11" } else { "a22" }),
                            );
                        }
                    }
                }
                // no bit of the two masks is tied to another one: all pairs
                let cols: Vec<(String, Vec<u64>)> = [0usize, 1]
                    .iter()
                    .flat_map(|w| (1..L_POWER as u64).map(move |i| (*w, i)))
                    .map(|(w, i)| {
                        let mut c = vec![0u64; n.div_ceil(64)];
                        for (t, x) in vs.iter().enumerate() {
                            let m = if w == 0 { &x.1.a.0 } else { &x.1.a.1 };
                            if m.bit(i) {
                                c[t / 64] |= 1 << (t % 64);
                            }
                        }
                        (format!("{i} of {}", if w == 0 { "a11" } else { "a22" }), c)
                    })
                    .collect();
                'pairs: for (i, (ni, ci)) in cols.iter().enumerate() {
                    for (nj, cj) in &cols[..i] {
                        let d: u32 = ci.iter().zip(cj).map(|(x, y)| (x ^ y).count_ones()).sum();
                        if d == 0 || d as usize == n {
                            self.violate("fresh", format!("bits {nj} and {ni} are tied over {n} keys"));
                            break 'pairs;
                        }
                    }
                }
                // nor to any combination of others: the bits are affinely
                // independent once there are clearly more keys than bits
                if n >= cols.len() + 40 {
                    let mut rows: Vec<Vec<u64>> = cols.iter().map(|c| c.1.clone()).collect();
                    let mut one = vec![0u64; n.div_ceil(64)];
                    for t in 0..n {
                        one[t / 64] |= 1 << (t % 64);
                    }
                    rows.push(one);
                    let total = rows.len();
                    let mut rank = 0;
                    for t in 0..n {
                        let bit = |r: &Vec<u64>| r[t / 64] >> (t % 64) & 1 == 1;
                        let Some(p) = (rank..total).find(|i| bit(&rows[*i])) else { continue };
                        rows.swap(rank, p);
                        let (h, tl) = rows.split_at_mut(rank + 1);
                        for r in tl {
                            if bit(r) {
                                for (a, b) in r.iter_mut().zip(&h[rank]) {
                                    *a ^= b;
                                }
                            }
                        }
                        rank += 1;
                    }
                    if rank < total {
                        self.violate(
                            "fresh",
                            format!("the mask bits of {n} keys satisfy {} linear relations", total - rank),
                        );
                    }
                    self.probe("mask_bit_rank");
                }
                self.probe("mask_bit_statistics");
            }
        }
        let pts = std::mem::take(&mut self.points);
        if pts.len() >= 64 {
            // both square roots occur, and equally often, however a root's sign is
            // named: no convention may be off by more than six standard deviations
            let sign = |y: &F2, how: usize| {
                let (e, n) = (y.encode(), y.neg().encode());
                match how {
                    0 => e < n,
                    1 => e.iter().rev().lt(n.iter().rev()),
                    2 => e[0] & 1 == 1,
                    3 => e[FQ_LEN / 2] & 1 == 1,
                    _ => e[..FQ_LEN / 2].iter().rev().lt(n[..FQ_LEN / 2].iter().rev()),
                }
            };
            self.stats.judged += 1;
            for how in 0..5 {
                let pos = pts.iter().filter(|(_, y)| sign(y, how)).count() as f64;
                let n = pts.len() as f64;
                if (pos - n / 2.0).abs() > 3.0 * n.sqrt() {
                    self.violate("sampling", format!("of {n} random points {pos} have the same sign of y"));
                    break;
                }
            }
            let xs: BTreeSet<Vec<u8>> = pts.iter().map(|(x, _)| x.encode()).collect();
            if xs.len() < pts.len() {
                self.violate("sampling", "random points repeat".into());
            }
            self.probe("point_sign_statistics");
        }
    }
}

/// Do the two keys open the same ciphertexts by the scheme's design? The kernel
/// of the (2,2)-chain has order 2^(b-2), so keys whose masks agree modulo 2^(b-2),
/// up to one common sign, are the same key.
fn same_opener(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() || a.len() != SK_LEN || a[..9 * FQ_LEN] != b[..9 * FQ_LEN] {
        return false;
    }
    let (Some(x), Some(y)) = (sk_view(a), sk_view(b)) else { return false };
    let n = pow2(L_POWER - 2);
    let eq = (&x.a.0 % &n) == (&y.a.0 % &n) && (&x.a.1 % &n) == (&y.a.1 % &n);
    let neg = ((&x.a.0 + &y.a.0) % &n).bits() == 0 && ((&x.a.1 + &y.a.1) % &n).bits() == 0;
    eq || neg
}

/// The same key with masks (a, b): R and S are the masked images of the public
/// basis, so they scale by the ratio of the masks.
pub fn remask(k: &KeySt, a: &BigUint, b: &BigUint) -> Option<KeySt> {
    let v = sk_view(&k.sk)?;
    let l = pow2(L_POWER);
    let f = |i: usize| F2::decode(&k.pk[i * FQ_LEN..(i + 1) * FQ_LEN]);
    let ea = Curve { A: f(0)? };
    let ca = (a * b22_of(&v.a.0)) % &l;
    let cb = (b * b22_of(&v.a.1)) % &l;
    let (rx, ry) = ea.mul(&Some((f(1)?, f(2)?)), &ca)?;
    let (sx, sy) = ea.mul(&Some((f(3)?, f(4)?)), &cb)?;
    let mut pk = k.pk[..FQ_LEN].to_vec();
    for x in [rx, ry, sx, sy] {
        pk.extend(x.encode());
    }
    let mut sk = k.sk[..9 * FQ_LEN].to_vec();
    for m in [a, b] {
        let mut y = m.to_bytes_le();
        y.resize(82, 0);
        sk.extend(y);
    }
    Some(KeySt { pk, sk })
}

/// Bursts of bad entropy up to this many draws must be ridden out
pub const BURST: u64 = 150;

fn bigs_dec(s: &str) -> BigUint {
    s.parse::<u64>().map(BigUint::from).unwrap_or_default()
}

fn same_reply(a: &Reply, b: &Reply) -> bool {
    match (a, b) {
        (Reply::Ok(x), Reply::Ok(y)) => x == y,
        // the wording of a failure is not part of the contract
        (Reply::Panic(_), Reply::Panic(_)) => true,
        _ => a == b,
    }
}

pub fn short(r: &Reply) -> String {
    match r {
        Reply::Ok(v) => {
            let mut h = 0;
            for x in v {
                h = mix_bytes(h, x.as_bytes());
            }
            let s = v.join(" ");
            if s.len() <= 80 {
                format!("ok({s})")
            } else {
                format!("ok(#{h:016x})")
            }
        }
        Reply::Panic(m) => format!("panic({m})"),
        r => format!("{r:?}"),
    }
}

pub fn b22_of(b11: &BigUint) -> BigUint {
    // inverse modulo 2^L by Newton iteration
    let l = pow2(L_POWER);
    let mut x = BigUint::from(1u32);
    let mut bits = 1;
    while bits < L_POWER {
        bits *= 2;
        let t = (b11 * &x) % &l;
        let two = BigUint::from(2u32);
        let u = if t <= two { &two - &t } else { &l + &two - &t };
        x = (x * u) % &l;
    }
    x
}

/// the same message with a mask that is tied to the recipient's own
fn related(m: &str, rel: &str, sk: &[u8]) -> String {
    let n = sk.len().saturating_sub(164);
    let big = |i: usize| BigUint::from_bytes_le(sk.get(n + 82 * i..n + 82 * (i + 1)).unwrap_or(&[1]));
    let all = pow2(L_POWER);
    let inv = |x: &BigUint| b22_of(&(x % &all));
    let (a, c) = (big(0) | BigUint::from(1u32), big(1) | BigUint::from(1u32));
    let v = match rel {
        "a" => a,
        "c" => c,
        "ai" => inv(&a),
        "ci" => inv(&c),
        "q" => a * inv(&c),
        _ => a * c,
    } % &all;
    let v = if v.bit(L_POWER as u64 - 1) { &all - v } else { v };
    let t: Vec<&str> = m.split(':').collect();
    format!("{}:{}:{v:x}:{:x}", t[0], t[1], b22_of(&v))
}

pub fn msg(s1: &BigUint, s2: &BigUint, b11: &BigUint) -> String {
    format!("{s1:x}:{s2:x}:{b11:x}:{:x}", b22_of(b11))
}

#[allow(dead_code)]
pub fn hexbig(s: &str) -> BigUint {
    bigs(s)
}
