//! Plan generators: from (property, seed, index) to one run's event list.
//! Everything that varies between runs -- topology, workload, message values,
//! delays, which faults are enabled and where they strike -- is decided here by
//! one PRNG.
use crate::golden::golden;
use crate::oracle::{big_hex, params::*, pow2};
use crate::prng::{mix, mix_bytes, Prng};
use crate::world::msg;
use num_bigint::BigUint;

pub const TOY: bool = cfg!(feature = "toy");

/// rough cost in executed edges of the operations, to place crash points inside
const W_KEYGEN: u64 = if TOY { 11_000_000 } else { 2_000_000_000 };
const W_EVAL: u64 = if TOY { 6_000_000 } else { 1_100_000_000 };
const W_INV: u64 = if TOY { 12_000_000 } else { 2_250_000_000 };

pub struct Plan {
    pub r: Prng,
    q: Vec<(u64, u64, String)>,
    t: u64,
    seq: u64,
    next_msg: u32,
    /// the first few runs of the full-size build are short, for the quick tier
    lean: bool,
}

fn d1() -> BigUint {
    big_hex(D1_HEX)
}
fn d2() -> BigUint {
    big_hex(D2_HEX)
}

/// a value below n with the interesting ones over-represented
fn scalar(r: &mut Prng, n: &BigUint, f: &[(u32, u32)]) -> BigUint {
    let one = BigUint::from(1u32);
    let v = match r.below(if TOY { 18 } else { 24 }) {
        0 => BigUint::from(0u32),
        1 => one,
        2 => n - 1u32,
        3 => n >> 1,
        4 => {
            // a multiple of one prime (power)
            let (l, e) = *r.pick(f);
            let m = BigUint::from(l).pow(r.range(1, e as u64) as u32);
            let k = n / &m;
            r.big_below(&k) * m
        }
        5 => {
            // a multiple of all but one prime power
            let (l, e) = *r.pick(f);
            let m = n / BigUint::from(l).pow(e);
            r.big_below(&BigUint::from(l)) * m
        }
        6 => BigUint::from(r.below(1 << 16)),
        7 => one << r.below(n.bits()),
        8 => n - 1u32 - r.below(1000),
        // the scalar's low or high limb is special
        9 => (r.big_below(n) >> 32u32) << 32u32,
        10 => r.big_below(n) >> r.below(n.bits()),
        11..=15 => r.big_below(n),
        _ => residues(r, n, f),
    };
    v % n
}

/// special digits at many primes at once, chosen one by one
fn residues(r: &mut Prng, n: &BigUint, f: &[(u32, u32)]) -> BigUint {
    let mut v = BigUint::from(0u32);
    let often = r.range(1, 4);
    for &(l, e) in f {
        let q = BigUint::from(l).pow(e);
        let x = match r.below(6 + 2 * often) {
            0 => BigUint::from(0u32),
            1 => BigUint::from(1u32),
            2 => &q - 1u32,
            // a zero digit, lowest or highest
            3 => r.big_below(&q) / l * l,
            4 => r.big_below(&q) % BigUint::from(l),
            5 => &q - 1u32 - r.below(l as u64),
            _ => r.big_below(&q),
        };
        let m = n / &q;
        // m^-1 by Euler: the group modulo l^e has order (l - 1) l^(e - 1)
        let k = BigUint::from(l).pow(e - 1) * (l - 1) - 1u32;
        let inv = (&m % &q).modpow(&k, &q);
        v += m * ((x * inv) % q);
    }
    v
}

/// an odd mask entry below 2^bits
pub fn mask(r: &mut Prng, bits: u64) -> BigUint {
    let one = BigUint::from(1u32);
    let mut v = match r.below(14) {
        0 => one.clone(),
        1 => BigUint::from(3u32),
        2 => (&one << bits) - 1u32,
        3 => (&one << (bits - 1)) + 1u32,
        4 => (&one << r.below(bits)) + 1u32,
        5 => (&one << r.range(1, bits)) - 1u32,
        6 => r.bits(bits) & r.bits(bits) & r.bits(bits),
        7 => r.bits(bits) | r.bits(bits) | r.bits(bits),
        8 => {
            let k = r.range(1, bits);
            r.bits(k)
        }
        // low part fixed to 1, the rest random
        9 => {
            let k = r.range(1, bits - 1);
            ((r.bits(bits - k)) << k) + 1u32
        }
        _ => r.bits(bits),
    };
    v.set_bit(0, true);
    v % pow2(bits as u32)
}

pub fn message(r: &mut Prng) -> String {
    let s1 = scalar(r, &d1(), D1_FACTORED);
    let mut s2 = scalar(r, &d2(), D2_FACTORED);
    let mut b = mask(r, L_POWER as u64 - 1);
    // parts that are equal or follow from each other
    match r.below(24) {
        0 => s2 = &s1 % d2(),
        1 => b = (&s1 | BigUint::from(1u32)) % pow2(L_POWER - 1),
        2 => b = (&s2 | BigUint::from(1u32)) % pow2(L_POWER - 1),
        3 => s2 = &b % d2(),
        _ => {}
    }
    msg(&s1, &s2, &b)
}

const SOFT: [&str; 6] = ["zero", "ones", "stuck", "period", "sparse", "dense"];

const CT_DAMAGE: [&str; 20] = [
    "flip", "flip", "flips", "trunc", "extend", "noncanon", "zeroel", "randel", "negel", "swapel",
    "curverand", "curvezero", "curvetwo", "curvemtwo", "curvesix", "curveneg", "curvebase", "curveconj",
    "shuffle", "allrand",
];
/// damage to a key file: that of a ciphertext, and to the masks
const SK_DAMAGE: [&str; 6] = ["maskzero", "maskeven", "maskbig", "maskrand", "edge", "allzero"];
const CODEC: [&str; 21] = [
    "edge", "edge", "maskrand", "maskbig",
    "none", "flip", "flip", "flips", "trunc", "extend", "double", "noncanon", "noncanon", "tornhead", "torntail",
    "zeroel", "randel", "swapel", "garbage", "allrand", "allzero",
];
const DISK: [&str; 8] = ["lost", "tornhead", "torntail", "trunc", "flip", "flips", "noncanon", "garbage"];

impl Plan {
    fn new(prop: &str, seed: u64, idx: u64) -> Plan {
        let h = mix(mix_bytes(seed, prop.as_bytes()), idx);
        Plan { r: Prng::new(mix(h, TOY as u64)), q: vec![], t: 0, seq: 0, next_msg: 1, lean: !TOY && idx < 8 }
    }
    fn at(&mut self, t: u64, s: String) {
        self.seq += 1;
        self.q.push((t, self.seq, s));
    }
    fn now(&mut self, s: String) {
        let d = self.r.log_range(1, 3_600_000);
        self.t += d;
        self.at(self.t, s);
    }
    fn finish(mut self) -> Vec<String> {
        self.q.sort();
        let mut last = 0;
        let salt = self.r.u64();
        self.q
            .into_iter()
            .map(|(t, q, mut s)| {
                let d = t - last;
                last = t;
                let h = mix(salt, q);
                if s.starts_with("boot ") && h & 1 == 1 {
                    // this time it starts in another environment
                    s += &format!(" env={}", 1 + (h >> 8) % 23);
                }
                if let (Some((a, b)), 0) = (s.split_once(" crash="), h >> 1 & 3) {
                    // it dies of a failed allocation instead
                    let rest = b.split_once(' ').map_or(String::new(), |x| format!(" {}", x.1));
                    let k = 1 + (h >> 8) % (1u64 << (1 + (h >> 40) % 17));
                    s = format!("{a} oom={k}{rest}");
                }
                format!("+{d} {s}")
            })
            .collect()
    }
    /// now and then a seal's mask is tied to the recipient's own masks
    fn rel(&mut self) -> String {
        if self.r.chance(1, 10) {
            return format!(" rel={}", self.r.pick(&["a", "c", "ai", "ci", "q", "p"]));
        }
        String::new()
    }
    fn ent(&mut self) -> String {
        format!("{:x}", self.r.u64() >> 8)
    }
    fn msg_id(&mut self) -> u32 {
        self.next_msg += 1;
        self.next_msg - 1
    }
    fn crash_in(&mut self, w: u64) -> u64 {
        match self.r.below(3) {
            0 => self.r.log_range(1, w),
            1 => self.r.log_range(1, 100_000),
            _ => self.r.range(1, w + w / 8),
        }
    }
    /// entropy whose values (not its availability) are unusual
    fn odd_ent(&mut self) -> String {
        let mut s = self.ent();
        match self.r.below(8) {
            0 | 1 => {}
            // the first draws decide the masks
            2..=4 => {
                for i in 0..self.r.range(1, 2) {
                    let k = *self.r.pick(&SOFT);
                    s += &format!(",{k}@{}+{}", i, self.r.range(1, 2));
                }
            }
            _ => {
                for _ in 0..self.r.range(1, 4) {
                    let k = *self.r.pick(&SOFT);
                    let at = self.r.log_range(1, if TOY { 120 } else { 200 }) - 1;
                    let len = self.r.log_range(1, crate::world::BURST - 20);
                    s += &format!(",{k}@{at}+{len}");
                    break;
                }
            }
        }
        s
    }

    /// key `k`, owned by node `n`: deployed, deployed with unusual masks, or new
    fn key(&mut self, n: u32, k: u32, fresh: (u64, u64)) {
        let (a, b) = fresh;
        if self.r.chance(a, b) {
            let e = self.odd_ent();
            self.now(format!("keygen {n} {k} ent={e}"));
            self.now(format!("persist {n} {k}"));
            return;
        }
        self.deployed(n, k);
    }
    fn deployed(&mut self, n: u32, k: u32) {
        let g = self.r.below(golden().keys.len() as u64);
        self.now(format!("golden {k} {g}"));
        if self.r.chance(2, 3) {
            let a = mask(&mut self.r, L_POWER as u64);
            let b = mask(&mut self.r, L_POWER as u64);
            self.now(format!("remask {k} a={a:x} b={b:x}"));
        }
        self.now(format!("own {n} {k}"));
        self.now(format!("restore {n} {k}"));
    }
    fn boot(&mut self, n: u32) {
        self.now(format!("boot {n}"));
    }
    fn damaged_key(&mut self) -> &'static str {
        if self.r.chance(1, 2) {
            *self.r.pick(&SK_DAMAGE)
        } else {
            self.damaged()
        }
    }
    fn damaged(&mut self) -> &'static str {
        *self.r.pick(&CT_DAMAGE)
    }
}

/// a message; often it shares parts with one sent before (the same text to
/// several people, a resend, a counter)
fn next_message(p: &mut Plan, sent: &mut Vec<String>) -> String {
    let m = if !sent.is_empty() && p.r.chance(1, 3) {
        let old: Vec<String> = p.r.pick(sent).split(':').map(|x| x.to_string()).collect();
        let old: Vec<BigUint> = old.iter().map(|x| big_hex(x)).collect();
        let one = BigUint::from(1u32);
        match p.r.below(6) {
            0 | 1 => msg(&old[0], &old[1], &old[2]),
            2 => {
                let b = mask(&mut p.r, L_POWER as u64 - 1);
                msg(&old[0], &old[1], &b)
            }
            3 => {
                let s2 = scalar(&mut p.r, &d2(), D2_FACTORED);
                msg(&old[0], &s2, &old[2])
            }
            4 => {
                let s1 = scalar(&mut p.r, &d1(), D1_FACTORED);
                msg(&s1, &old[1], &old[2])
            }
            _ => msg(&((&old[0] + &one) % d1()), &((&old[1] + &one) % d2()), &old[2]),
        }
    } else {
        message(&mut p.r)
    };
    sent.push(m.clone());
    m
}

/// one long-lived process that seals and opens for many keys, far longer than
/// any test; the same work also restarts in between
fn c01_marathon(p: &mut Plan, idx: u64) {
    p.boot(0);
    p.boot(10);
    let nk = p.r.range(2, 4) as u32;
    for k in 0..nk {
        p.key(0, k, (1, 3));
    }
    let mut sent = vec![];
    let mut open: Vec<u32> = vec![];
    if idx % 64 == 17 {
        let (e, sd) = (p.ent(), p.r.below(1 << 40));
        p.now(format!("fresh 0 n=72 seed={sd} ent={e}"));
    } else if idx % 64 == 1 {
        let m = message(&mut p.r);
        p.now(format!("age 10 n=264 op=eval key=0 m={m}"));
    }
    for i in 0..p.r.range(25, 45) {
        let id = p.msg_id();
        let k = p.r.below(nk as u64) as u32;
        let m = next_message(p, &mut sent);
        let s = if p.r.chance(3, 4) { 0 } else { 10 };
        let rel = p.rel();
        p.now(format!("seal {s} {k} {id} m={m}{rel}"));
        open.push(id);
        if i % 7 == 3 {
            // failures in between
            let nid = p.msg_id();
            let kd = p.damaged();
            let sd = p.r.below(1 << 30);
            p.now(format!("damage {nid} {id} {kd} {sd}"));
            p.now(format!("deliver 0 {nid} via=disk"));
        }
        while open.len() > 3 || (!open.is_empty() && p.r.chance(1, 2)) {
            let x = p.r.below(open.len() as u64) as usize;
            let id = if p.r.chance(1, 6) { open[x] } else { open.swap_remove(x) };
            let via = if p.r.chance(1, 4) { "disk" } else { "mem" };
            p.now(format!("deliver 0 {id} via={via}"));
        }
        if p.r.chance(1, 40) {
            p.now("twin 0 10".into());
        }
    }
    for id in open {
        p.now(format!("deliver 0 {id} via=mem late=1"));
    }
}

fn c01(p: &mut Plan, idx: u64) {
    if TOY && idx % 16 == 1 {
        return c01_marathon(p, idx);
    }
    let nk = if TOY { p.r.range(1, 3) as u32 } else { 1 };
    let nm = if TOY { p.r.range(3, 7) } else { 1 };
    let ns = p.r.range(1, 2) as u32;
    for n in 0..nk {
        p.boot(n);
        p.key(n, n, if TOY { (2, 3) } else if p.lean { (0, 1) } else { (1, 8) });
    }
    for s in 0..ns {
        p.boot(10 + s);
    }
    let t0 = p.t;
    let span = 600_000u64;
    let faulty = p.r.chance(3, 4);
    let mut sent = vec![];
    for _ in 0..nm {
        let id = p.msg_id();
        let k = p.r.below(nk as u64) as u32;
        let s = 10 + p.r.below(ns as u64) as u32;
        let m = next_message(p, &mut sent);
        let mut t = t0 + p.r.below(span);
        let e = p.ent();
        if faulty && !p.lean && p.r.chance(1, 10) {
            // the sender dies half way and tries again later
            let c = p.crash_in(W_EVAL);
            p.at(t, format!("seal {s} {k} {id} m={m} ent={e} crash={c}"));
            t += p.r.log_range(1, 10_000);
            p.at(t, format!("boot {s}"));
        }
        let inst = if p.r.chance(1, 4) { 1 } else { 0 };
        let chk = if !p.lean && p.r.chance(1, if TOY { 2 } else { 3 }) { " check=1" } else { "" };
        let rel = p.rel();
        p.at(t, format!("seal {s} {k} {id} m={m}{rel} inst={inst} ent={e}{chk}"));
        // the network decides how many copies arrive, and when
        if faulty && !p.lean && p.r.chance(1, 12) {
            p.at(t + 1, format!("drop {id}"));
            continue;
        }
        let copies = if faulty && !p.lean && p.r.chance(1, 5) { 2 } else { 1 };
        for c in 0..copies {
            let dt = p.r.log_range(1, 400_000);
            let via = if p.r.chance(1, 3) { "disk" } else { "mem" };
            let e = p.odd_ent();
            let flag = if c > 0 { " dup=1" } else if dt > 60_000 { " late=1" } else { "" };
            p.at(t + dt, format!("deliver {k} {id} via={via} ent={e}{flag}"));
        }
        if TOY && faulty && p.r.chance(1, 5) {
            let nid = p.msg_id();
            let kd = p.damaged();
            let sd = p.r.below(1 << 30);
            p.at(t + 5, format!("damage {nid} {id} {kd} {sd}"));
            let dt = p.r.log_range(10, 300_000);
            p.at(t + dt, format!("deliver {k} {nid} via=disk"));
        }
    }
    if faulty {
        for n in 0..nk {
            if p.r.chance(1, 3) {
                let t = t0 + p.r.below(span);
                let dt = p.r.log_range(1, 60_000);
                p.at(t, format!("crash {n}"));
                p.at(t + dt, format!("boot {n}"));
                p.at(t + dt, format!("restore {n} {n}"));
            }
        }
        if p.r.chance(1, 4) {
            let j = p.r.below(2_000_000_000) as i64 - 1_000_000_000;
            let t = t0 + p.r.below(span);
            p.at(t, format!("clock {j}"));
        }
    }
}

fn c02(p: &mut Plan) {
    p.boot(0);
    p.boot(10);
    let nk = if TOY { p.r.range(1, 3) as u32 } else { 1 };
    for k in 0..nk {
        if (TOY && p.r.chance(1, 2)) || (!TOY && !p.lean && p.r.chance(1, 8)) {
            if p.r.chance(1, 4) {
                let c = p.crash_in(W_KEYGEN);
                let e = p.ent();
                p.now(format!("keygen 0 {k} ent={e} crash={c}"));
                p.boot(0);
            }
            let e = p.odd_ent();
            p.now(format!("keygen 0 {k} ent={e}"));
            if p.r.chance(1, 3) {
                // a first attempt to store it goes wrong, the second is good
                let d = *p.r.pick(&DISK);
                let sd = p.r.below(1 << 30);
                let d = if d == "lost" { d.to_string() } else { format!("{d}:{sd}") };
                p.now(format!("persist 0 {k} disk={d}"));
                if p.r.chance(1, 2) {
                    p.now(format!("restore 0 {k}"));
                }
            }
            p.now(format!("persist 0 {k}"));
        } else {
            p.deployed(0, k);
        }
    }
    let rounds = if TOY { p.r.range(2, 4) } else { 1 };
    let mut live: Vec<(u32, u32)> = vec![];
    for _ in 0..rounds {
        let k = p.r.below(nk as u64) as u32;
        if live.is_empty() || TOY || !p.lean && p.r.chance(1, 2) {
            let id = p.msg_id();
            let m = message(&mut p.r);
            p.now(format!("seal 10 {k} {id} m={m}"));
            live.push((id, k));
        }
        if !p.lean && p.r.chance(1, 4) {
            let (id, _) = *p.r.pick(&live);
            let c = p.crash_in(W_INV);
            p.now(format!("deliver 0 {id} via=mem crash={c}"));
        } else {
            p.now("crash 0".into());
        }
        p.boot(0);
        for k in 0..nk {
            p.now(format!("restore 0 {k}"));
            if p.r.chance(1, 2) {
                // write it back: the stored form must be stable over generations
                p.now(format!("persist 0 {k}"));
                if p.r.chance(1, 2) {
                    p.now("crash 0".into());
                    p.boot(0);
                    for j in 0..nk {
                        p.now(format!("restore 0 {j}"));
                    }
                }
            }
        }
        let (id, _) = live[live.len() - 1];
        let via = if p.r.chance(1, 5) { "disk" } else { "mem" };
        p.now(format!("deliver 0 {id} via={via}"));
    }
}

fn c03(p: &mut Plan) {
    p.boot(0);
    let nk = 3u32;
    let ng = golden().keys.len() as u64;
    for k in 0..nk {
        let g = p.r.below(ng);
        p.now(format!("golden {k} {g}"));
        if p.r.chance(1, 2) {
            let a = mask(&mut p.r, L_POWER as u64);
            let b = mask(&mut p.r, L_POWER as u64);
            p.now(format!("remask {k} a={a:x} b={b:x}"));
        }
        p.now(format!("own 0 {k}"));
        let c = p.r.below(8);
        p.now(format!("gct {k} {k} {g} {c}"));
    }
    let n = if TOY { 120 } else { 120 };
    for _ in 0..n {
        let w = if p.r.chance(1, 2) { "ct" } else { "sk" };
        let k = *p.r.pick(&CODEC);
        let s = p.r.below(1 << 40);
        let src = p.r.below(nk as u64);
        p.now(format!("codec 0 what={w} src={src} kind={k} seed={s}"));
    }
    // the same through the disk: torn, lost and partial key files
    for k in 0..nk {
        p.now(format!("restore 0 {k}"));
        for _ in 0..3 {
            let d = DISK[1 + p.r.below(DISK.len() as u64 - 1) as usize];
            let s = p.r.below(1 << 30);
            p.now(format!("persist 0 {k} disk={d}:{s}"));
            p.now("crash 0".into());
            p.boot(0);
            p.now(format!("restore 0 {k}"));
            p.now(format!("own 0 {k}"));
            p.now(format!("restore 0 {k}"));
        }
    }
}

fn c04(p: &mut Plan) {
    p.boot(0);
    let n = if TOY { p.r.range(3, 6) } else { 1 };
    for k in 0..n {
        let inst = p.r.below(2);
        let e = p.odd_ent();
        p.now(format!("keygen 0 {k} inst={inst} ent={e}"));
        if !p.lean && p.r.chance(1, 3) {
            // the key is only as good as what can be opened with it
            let id = p.msg_id();
            let m = message(&mut p.r);
            let rel = p.rel();
            p.now(format!("seal 0 {k} {id} m={m}{rel}"));
            p.now(format!("deliver 0 {id} via=mem"));
        }
        if TOY && p.r.chance(1, 6) {
            let c = p.crash_in(W_KEYGEN);
            p.now(format!("keygen 0 9 crash={c} ent={e}"));
            p.boot(0);
        }
        if p.r.chance(1, 5) {
            let j = p.r.below(2_000_000_000) as i64 - 1_000_000_000;
            p.now(format!("clock {j}"));
        }
    }
}

fn c05(p: &mut Plan, idx: u64) {
    p.boot(0);
    p.boot(1);
    // once in a while enough keys for a rank test on all mask bits
    let many = TOY && idx % 24 == 2;
    let n: u32 = if many { 312 } else if TOY { 44 } else if p.lean { 2 } else { 4 };
    // Key ceremonies that happen at the same instant on machines that look
    // alike. The history may run twice from a fresh start, with other entropy:
    // whatever depends on it rather than on the entropy then repeats itself.
    let halves = if !p.lean && p.r.chance(1, 2) { 2 } else { 1 };
    let per = n / halves;
    // in some histories the generator of the thread keeps unused entropy, as the
    // real one does, for the process and its duplicates to use up
    let buf = if p.r.chance(1, 3) { ",buf" } else { "" };
    let mut steps: Vec<(u64, u64, u64, u64)> = vec![];
    for _ in 0..per {
        let s = (p.r.below(2), p.r.below(2), p.r.below(if buf.is_empty() { 16 } else { 6 }), p.r.u64());
        steps.push(s);
    }
    for h in 0..halves {
        if h > 0 {
            let t = p.t;
            p.at(t, "boot 0".into());
            p.at(t, "boot 1".into());
        }
        for (i, (node, inst, what, x)) in steps.iter().enumerate() {
            let k = h * per + i as u32;
            let e = p.ent();
            let t = p.t;
            p.at(t, format!("keygen {node} {k} inst={inst} ent={e}{buf} check=no"));
            match what {
                0 => {
                    p.at(t, format!("crash {node}"));
                    p.at(t, format!("boot {node}"));
                }
                1 => p.t += 1 + x % 100_000,
                2 => {
                    let j = (x % 100_000) as i64 - 100_000;
                    p.at(t, format!("clock {j}"));
                }
                // a process or machine is duplicated with all its state
                3 => p.at(t, format!("twin {node} {}", 1 - node)),
                _ => {}
            }
        }
    }
    if TOY && p.r.chance(1, 2) {
        // two threads of one process ask for keys at the same time
        let pol = policy(p);
        let (a, b, c) = (p.ent(), p.ent(), p.ent());
        p.now(format!("par 0 policy={pol} job=0|op=keygen|ent={a} job=1|op=keygen|ent={b} job=2|op=keygen|ent={c}"));
    }
    if TOY {
        for _ in 0..2 {
            let at = p.r.below(40);
            let e = p.ent();
            p.now(format!("entpair 0 at={at} ent={e}"));
        }
        if idx % 40 == 9 {
            let e = p.ent();
            p.now(format!("entmap 0 ent={e}"));
        }
    }
}

fn c06(p: &mut Plan) {
    p.boot(0);
    let n = if TOY { p.r.range(2, 4) } else { 1 };
    for k in 0..n {
        let mut e = p.ent();
        let at = p.r.log_range(1, if TOY { 150 } else { 300 }) - 1;
        match p.r.below(if TOY { 8 } else { 6 }) {
            // the source fails once, or for good
            0 => {
                let l = p.r.log_range(1, 1000);
                e += &format!(",fail@{at}+{l}");
            }
            1 => e += &format!(",fail@{at}+1"),
            2 => {
                let o = p.r.below(8);
                e += &format!(",openfail@{o}+{}", p.r.range(1, 3));
            }
            // a burst of useless output that ends
            3..=5 => {
                for _ in 0..p.r.range(1, 3) {
                    let k = *p.r.pick(&SOFT);
                    let at = p.r.log_range(1, 150) - 1;
                    let l = p.r.log_range(1, 50);
                    e += &format!(",{k}@{at}+{l}");
                }
            }
            6 => {
                let k = *p.r.pick(&SOFT);
                let l = p.r.range(100, 150);
                e += &format!(",{k}@{at}+{l}");
            }
            // more than key generation is expected to ride out: it may give
            // up, but must not hand out a bad key
            _ => {
                let k = *p.r.pick(&["zero", "stuck", "ones", "period"]);
                let l = p.r.log_range(200, 20_000);
                e += &format!(",{k}@{at}+{l}");
            }
        }
        p.now(format!("keygen 0 {k} ent={e}"));
        // the same instance still works once the source recovers
        if TOY {
            let e = p.ent();
            p.now(format!("keygen 0 {} ent={e}", k + 20));
            if p.r.chance(1, 3) {
                let id = p.msg_id();
                let m = message(&mut p.r);
                p.now(format!("seal 0 {} {id} m={m}", k + 20));
                p.now(format!("deliver 0 {id} via=mem"));
            }
        }
    }
    if !TOY {
        let g = p.r.below(golden().keys.len() as u64);
        p.now(format!("golden 50 {g}"));
        p.now("own 0 50".into());
        p.now("restore 0 50".into());
        let what = *p.r.pick(&["points", "order", "fqs"]);
        let e = p.ent();
        p.now(format!("sample 0 what={what} n=3 f=5^2;7^2 ent={e}"));
    }
}

fn policy(p: &mut Plan) -> String {
    let gap = match p.r.below(4) {
        0 => 0,
        1 => p.r.log_range(20, 2000),
        _ => p.r.log_range(1000, if TOY { 2_000_000 } else { 400_000_000 }),
    };
    let mut rare = *p.r.pick(&[0u64, 1, 2, 4, 16]);
    // very dense schedules only in short windows
    let gap = if gap > 0 && gap < 500 && !TOY { 200_000 } else { gap };
    if gap == 0 && rare == 0 {
        rare = 3;
    }
    let seed = p.r.below(1 << 40);
    format!("r:{gap}:{rare}:{seed}")
}

fn c07(p: &mut Plan) {
    p.boot(0);
    p.now("share 0".into());
    let ng = golden().keys.len() as u64;
    let nk = if TOY { 3 } else { 2 };
    for k in 0..nk {
        let g = p.r.below(ng);
        p.now(format!("golden {k} {g}"));
        if TOY && p.r.chance(1, 3) {
            let a = mask(&mut p.r, L_POWER as u64);
            let b = mask(&mut p.r, L_POWER as u64);
            p.now(format!("remask {k} a={a:x} b={b:x}"));
            let m = message(&mut p.r);
            let rel = p.rel();
            p.now(format!("seal 0 {k} {} m={m}{rel}", k + 1));
        } else {
            let c = p.r.below(8);
            p.now(format!("gct {} {k} {g} {c}", k + 1));
        }
    }
    for _ in 0..if TOY { p.r.range(1, 3) } else { 1 } {
        let nt = if TOY { p.r.range(2, 4) } else { 2 };
        let mut s = String::new();
        let uniform = if p.r.chance(1, 3) { Some(p.r.below(10)) } else { None };
        for t in 0..nt {
            for _ in 0..if TOY && p.r.chance(1, 3) { 2 } else { 1 } {
                let k = p.r.below(nk as u64);
                let e = p.ent();
                // everybody shares instance 0 most of the time
                let inst = if p.r.chance(1, 8) { 1 } else { 0 };
                let w = uniform.unwrap_or_else(|| p.r.below(if TOY { 12 } else { 10 }));
                // one inversion per short run, beside cheaper work
                let w = if !p.lean || !(4..=7).contains(&w) || t == 0 { w } else { 8 };
                s += &match w {
                    0..=3 => {
                        let m = message(&mut p.r);
                        format!(" job={t}|op=eval|key={k}|m={m}|inst={inst}|ent={e}")
                    }
                    4..=7 => format!(" job={t}|op=inv|id={}|inst={inst}|ent={e}", k + 1),
                    8 => {
                        if TOY {
                            let kd = p.damaged();
                            let sd = p.r.below(1 << 30);
                            format!(" job={t}|op=inv|id={}|inst={inst}|kind={kd}|seed={sd}|ent={e}", k + 1)
                        } else {
                            format!(" job={t}|op=decsk|key={k}|ent={e} job={t}|op=decct|id={}|ent={e}", k + 1)
                        }
                    }
                    9 => format!(" job={t}|op=tbasis|key={k}|ent={e}"),
                    10 => format!(" job={t}|op=keygen|inst={inst}|ent={e}"),
                    _ => {
                        let m = message(&mut p.r);
                        format!(" job={t}|op=cycle|m={m}|inst={inst}|ent={e}")
                    }
                };
            }
        }
        let pol = policy(p);
        p.now(format!("par 0 policy={pol}{s}"));
    }
    // Cold starts: what a process does only once is done by several threads at
    // once, switching where code runs for the first time.
    for _ in 0..if TOY { 2 } else { 0 } {
        p.now("crash 0".into());
        p.now("boot 0".into());
        let w = p.r.below(6);
        let mut s = String::new();
        for t in 0..p.r.range(2, 3) {
            let e = p.ent();
            let k = p.r.below(nk as u64);
            s += &match w {
                0 => {
                    let m = message(&mut p.r);
                    format!(" job={t}|op=eval|key={k}|m={m}|inst=0|ent={e}")
                }
                1 => format!(" job={t}|op=keygen|inst=0|ent={e}"),
                2 => format!(" job={t}|op=tbasis|key={k}|ent={e}"),
                _ => format!(" job={t}|op=inv|id={}|inst=0|ent={e}", k + 1),
            };
        }
        let gap = if p.r.chance(1, 2) { 0 } else { p.r.log_range(100_000, 20_000_000) };
        let rare = p.r.range(1, 3);
        let seed = p.r.below(1 << 40);
        p.now(format!("par 0 policy=r:{gap}:{rare}:{seed}{s}"));
    }
}

/// a process that has done one thing many times
fn age(p: &mut Plan, nk: u64, n: u64, kind: u64) {
    let k = p.r.below(nk);
    let sd = p.r.below(1 << 30);
    let s = match kind {
        0 => {
            let m = message(&mut p.r);
            format!("op=eval key={k} m={m}")
        }
        1 => format!("op=inv id={}", k + 1),
        2 => {
            let kd = p.damaged();
            format!("op=inv id={} kind={kd} seed={sd}", k + 1)
        }
        3 => format!("op=decsk key={k}"),
        _ => format!("op=decct id={}", k + 1),
    };
    let e = p.ent();
    p.now(format!("age 0 n={n} {s} ent={e}"));
}

/// an operation judged against the same operation in a pristine process
fn same(p: &mut Plan, nk: u64, gen_ok: bool) {
    let inst = p.r.below(3);
    let e = p.odd_ent();
    let k = p.r.below(nk);
    let s = match p.r.below(if gen_ok { 8 } else { 6 }) {
        0..=2 => {
            let m = message(&mut p.r);
            let t = if p.r.chance(1, 3) { " thr=1" } else { "" };
            format!("same 0 op=eval key={k} m={m} inst={inst}{t} ent={e}")
        }
        3..=5 => {
            let t = if p.r.chance(1, 3) { " thr=1" } else { "" };
            format!("same 0 op=inv id={} inst={inst}{t} ent={e}", k + 1)
        }
        6 => format!("same 0 op=keygen inst={inst} ent={e}"),
        _ => {
            let m = message(&mut p.r);
            format!("same 0 op=cycle m={m} inst={inst} ent={e}")
        }
    };
    p.now(s);
}

fn store(p: &mut Plan, nk: u32) {
    let ng = golden().keys.len() as u64;
    for k in 0..nk {
        let g = p.r.below(ng);
        p.now(format!("golden {k} {g}"));
        let c = p.r.below(8);
        p.now(format!("gct {} {k} {g} {c}", k + 1));
    }
}

fn c08(p: &mut Plan, idx: u64) {
    p.boot(0);
    let nk = if TOY { 3 } else { 2 };
    store(p, nk);
    if TOY {
        match idx % 80 {
            2 => age(p, nk as u64, 264, 0),
            3 => age(p, nk as u64, 264, 1),
            x if x % 8 == 4 => {
                let (n, w) = (p.r.range(8, 40), p.r.below(4));
                age(p, nk as u64, n, w)
            }
            _ => {}
        }
    }
    let n = if TOY { p.r.range(4, 8) } else { 1 };
    for _ in 0..n {
        same(p, nk as u64, TOY);
        match p.r.below(8) {
            0 => {
                let j = p.r.below(200_000_000_000) as i64 - 100_000_000_000;
                p.now(format!("clock {j}"));
            }
            1 if TOY => {
                p.now("crash 0".into());
                p.boot(0);
            }
            2 => fail(p, nk as u64),
            3 if TOY => {
                // the process is duplicated; the copy carries on in its place
                p.now("twin 0 1".into());
                p.now("crash 0".into());
                p.now("twin 1 0".into());
            }
            _ => {}
        }
    }
    if !TOY && !p.lean {
        // the same message sealed again by the now warm instance
        let m = message(&mut p.r);
        let e = p.odd_ent();
        p.now(format!("same 0 op=eval key=0 m={m} ent={e}"));
    }
}

fn fail(p: &mut Plan, nk: u64) {
    let k = p.r.below(nk);
    let inst = p.r.below(2);
    let sd = p.r.below(1 << 30);
    let s = match p.r.below(if TOY { 9 } else { 7 }) {
        0 => {
            let at = p.r.log_range(1, if TOY { 150 } else { 12 }) - 1;
            let e = p.ent();
            format!("fail 0 what=keygen ent={e},fail@{at}+1000000 inst={inst}")
        }
        1 => {
            let o = p.r.below(6);
            let e = p.ent();
            let o = if TOY { o } else { 0 };
            format!("fail 0 what=keygen ent={e},openfail@{o}+1000000 inst={inst}")
        }
        2 => {
            let kd = *p.r.pick(&["trunc", "garbage", "noncanon", "tornhead"]);
            format!("fail 0 what=decct id={} kind={kd} seed={sd}", k + 1)
        }
        3 => {
            let kd = *p.r.pick(&["trunc", "garbage", "noncanon", "tornhead"]);
            format!("fail 0 what=decsk key={k} kind={kd} seed={sd}")
        }
        4 => {
            let kd = *p.r.pick(&["curvezero", "curvetwo", "curverand", "allrand", "zeroel"]);
            format!("fail 0 what=inv id={} key={k} kind={kd} seed={sd} inst={inst}", k + 1)
        }
        5 => {
            let kd = *p.r.pick(&["trunc", "curvezero", "curvetwo", "allzero"]);
            format!("fail 0 what=inv id={} key={k} kind={kd} seed={sd} inst={inst}", k + 1)
        }
        6 => {
            let m = message(&mut p.r);
            let kd = *p.r.pick(&["curvezero", "curvetwo", "curverand"]);
            format!("fail 0 what=eval key={k} kind={kd} seed={sd} m={m} inst={inst}")
        }
        7 => {
            let kd = p.damaged_key();
            format!("fail 0 what=badkey id={} key={k} kind={kd} seed={sd} inst={inst}", k + 1)
        }
        _ => {
            let kd = p.damaged();
            format!("fail 0 what=inv id={} key={k} kind={kd} seed={sd} inst={inst}", k + 1)
        }
    };
    p.now(s);
}

fn c09(p: &mut Plan, idx: u64) {
    p.boot(0);
    let nk = if TOY { 3 } else { 2 };
    store(p, nk);
    if TOY {
        // many failures in a row
        match idx % 80 {
            2 => age(p, nk as u64, 264, 2),
            x if x % 8 == 3 => {
                let (n, w) = (p.r.range(8, 40), 1 + p.r.below(4));
                age(p, nk as u64, n, w)
            }
            _ => {}
        }
    }
    let n = if TOY { p.r.range(2, 4) } else { 1 };
    for _ in 0..n {
        for _ in 0..p.r.range(1, 3) {
            fail(p, nk as u64);
        }
        same(p, nk as u64, TOY);
    }
}

fn c10(p: &mut Plan) {
    p.boot(0);
    let nk = 2;
    store(p, nk);
    let n = if TOY { p.r.range(4, 9) } else { 2 };
    for _ in 0..n {
        let k = p.r.below(nk as u64);
        let kd = p.damaged();
        let sd = p.r.below(1 << 30);
        match p.r.below(4) {
            0 | 1 => {
                let id = 100 + p.msg_id();
                p.now(format!("damage {id} {} {kd} {sd}", k + 1));
                p.now(format!("deliver 0 {id} via=disk"));
            }
            2 => {
                let kd = p.damaged_key();
                p.now(format!("opendamagedkey 0 {} kind={kd} seed={sd}", k + 1))
            }
            _ => {
                let m = message(&mut p.r);
                p.now(format!("sealdamagedpk 0 {k} kind={kd} seed={sd} m={m}"));
            }
        }
    }
    if TOY {
        let e = p.odd_ent();
        p.now(format!("keygen 0 7 ent={e}"));
    }
}

fn c11(p: &mut Plan) {
    p.boot(0);
    let nk = if TOY { 3 } else { 2 };
    store(p, nk);
    if TOY && p.r.chance(1, 2) {
        let e = p.ent();
        p.now(format!("keygen 0 8 ent={e}"));
        let m = message(&mut p.r);
        p.now(format!("seal 0 8 50 m={m}"));
        let k = p.r.below(nk as u64);
        if p.r.chance(1, 2) {
            p.now("deliver 0 50 via=mem".into());
        }
        p.now(format!("misdeliver 0 50 {k}"));
        p.now("deliver 0 50 via=mem".into());
    }
    let n = if TOY { p.r.range(3, 6) } else { 2 };
    for i in 0..n {
        let k = p.r.below(nk as u64);
        let mut j = p.r.below(nk as u64);
        if j == k {
            j = (j + 1) % nk as u64;
        }
        let mut wrong = j;
        if p.r.chance(1, 2) {
            // a key differing only in its masks: the right isogenies, the wrong
            // matrix
            wrong = 40;
            p.now(format!("copykey 40 {k}"));
            match p.r.below(3) {
                0 => {
                    let a = mask(&mut p.r, L_POWER as u64);
                    let b = mask(&mut p.r, L_POWER as u64);
                    p.now(format!("remask 40 a={a:x} b={b:x}"));
                }
                // ... by a single bit
                1 => {
                    let x = BigUint::from(1u32) << p.r.range(1, L_POWER as u64 - 3);
                    let w = *p.r.pick(&["a", "b"]);
                    p.now(format!("nudge 40 {w}={x:x}"));
                }
                // ... or by a few in both
                _ => {
                    let mut x = || BigUint::from(1u32) << p.r.range(1, L_POWER as u64 - 3);
                    let (a, b) = (x() | x(), x());
                    p.now(format!("nudge 40 a={a:x} b={b:x}"));
                }
            }
        }
        // the process may just have opened that ciphertext, or another one, for
        // its owner
        match p.r.below(4) {
            0 | 1 if TOY || i == 0 => p.now(format!("deliver 0 {} via=disk", k + 1)),
            2 if TOY => p.now(format!("deliver 0 {} via=disk", j + 1)),
            _ => {}
        }
        if TOY && p.r.chance(1, 6) {
            p.now("twin 0 1".into());
            p.now(format!("misdeliver 1 {} {wrong}", k + 1));
        }
        p.now(format!("misdeliver 0 {} {wrong}", k + 1));
    }
}

fn subset(r: &mut Prng, f: &[(u32, u32)], n: u64) -> String {
    let mut v: Vec<(u32, u32)> = f.to_vec();
    let k = r.range(1, n.min(f.len() as u64)) as usize;
    while v.len() > k {
        let i = r.below(v.len() as u64) as usize;
        v.remove(i);
    }
    v.iter().map(|(l, e)| format!("{l}^{}", r.range(1, *e as u64))).collect::<Vec<_>>().join(";")
}

fn c12(p: &mut Plan) {
    p.boot(0);
    let ng = golden().keys.len() as u64;
    for k in 0..2 {
        let g = p.r.below(ng);
        p.now(format!("golden {k} {g}"));
    }
    let n = if TOY { 12 } else { 5 };
    for i in 0..n {
        let cv = match p.r.below(3) {
            0 => "e0".to_string(),
            _ => format!("key:{}", p.r.below(2)),
        };
        let e = match p.r.below(3) {
            0 => p.ent(),
            1 => p.odd_ent(),
            _ => {
                let k = *p.r.pick(&SOFT);
                let at = p.r.log_range(1, 20) - 1;
                let l = p.r.log_range(1, 60);
                format!("{},{k}@{at}+{l}", p.ent())
            }
        };
        let what = *p.r.pick(&["points", "points", "order", "order", "fqs", "nqr"]);
        let f = match p.r.below(5) {
            0 => subset(&mut p.r, D1_FACTORED, 3),
            1 => subset(&mut p.r, D2_FACTORED, 3),
            2 => DA1_FACTORED.iter().map(|(l, e)| format!("{l}^{e}")).collect::<Vec<_>>().join(";"),
            3 => subset(&mut p.r, DA2_FACTORED, 2),
            _ => subset(&mut p.r, D1_FACTORED, 9),
        };
        let cnt = if i == 0 { if TOY { 160 } else { 64 } } else if i == 1 { 64 } else { p.r.range(1, 12) };
        let (what, e) = match i {
            0 => ("points", p.ent()),
            1 => (if p.r.chance(1, 2) { "fqs" } else { "nqr" }, p.ent()),
            _ => (what, e),
        };
        p.now(format!("sample 0 what={what} curve={cv} n={cnt} f={f} ent={e}"));
    }
}

fn c13(p: &mut Plan) {
    p.boot(0);
    let ng = golden().keys.len() as u64;
    for k in 0..2 {
        let g = p.r.below(ng);
        p.now(format!("golden {k} {g}"));
    }
    let n = if TOY { 8 } else { 3 };
    let full = |f: &[(u32, u32)]| f.iter().map(|(l, e)| format!("{l}^{e}")).collect::<Vec<_>>().join(";");
    for _ in 0..n {
        let cv = match p.r.below(2) {
            0 => "e0".to_string(),
            _ => format!("key:{}", p.r.below(2)),
        };
        let small = !TOY && p.r.chance(2, 3);
        let f = match p.r.below(4) {
            _ if small => {
                let v: Vec<(u32, u32)> = D1_FACTORED.iter().chain(D2_FACTORED).copied().filter(|x| x.0 < 300).collect();
                subset(&mut p.r, &v, 2)
            }
            0 => full(DA1_FACTORED),
            1 => full(DA2_FACTORED),
            2 => subset(&mut p.r, D1_FACTORED, 4),
            _ => subset(&mut p.r, D2_FACTORED, 4),
        };
        let steps = p.r.range(1, if small || TOY { 3 } else { 2 });
        let e = p.odd_ent();
        p.now(format!("walk 0 curve={cv} f={f} steps={steps} ent={e}"));
    }
}

fn c14(p: &mut Plan, idx: u64) {
    p.boot(0);
    let g = golden();
    let nk = g.keys.len() as u64;
    let n = if TOY { 4 } else { 1 };
    for j in 0..n {
        // walk through all deployed keys and ciphertexts in turn
        let x = idx * n + j;
        let i = x % nk;
        let key = &g.keys[i as usize];
        let c = (x / nk) % key.pairs() as u64;
        let m = key.message(c as usize);
        p.now(format!("golden {j} {i}"));
        p.now(format!("own 0 {j}"));
        p.now(format!("restore 0 {j} golden=1"));
        let e = p.odd_ent();
        // the ciphertext as stored, or if only its hash is, as sealed again
        let id = if (c as usize) < key.cts.len() { j + 1 } else { 50 + j };
        let mut ev = vec![format!("seal 0 {j} {} m={m} want={i}/{c} ent={e}", 50 + j)];
        if id == j + 1 {
            p.now(format!("gct {id} {j} {i} {c}"));
            if p.r.chance(1, 2) {
                ev.clear();
                p.now(format!("seal 0 {j} {} m={m} want={i}/{c} ent={e}", 50 + j));
            }
        } else {
            p.now(ev.pop().unwrap());
        }
        if !p.lean && p.r.chance(1, 3) {
            let cr = p.crash_in(W_INV);
            p.now(format!("deliver 0 {id} via=mem golden=1 crash={cr}"));
            p.boot(0);
            p.now(format!("restore 0 {j}"));
        }
        let e = p.odd_ent();
        p.now(format!("deliver 0 {id} via=mem golden=1 ent={e}"));
        for s in ev {
            p.now(s);
        }
        if p.r.chance(1, 4) {
            let jj = p.r.below(200_000_000_000) as i64 - 100_000_000_000;
            p.now(format!("clock {jj}"));
        }
        // more stored keys, only restored
        for q in 0..4 {
            let i = p.r.below(nk);
            let k = 100 + j * 4 + q;
            p.now(format!("golden {k} {i}"));
            p.now(format!("own 0 {k}"));
            p.now(format!("restore 0 {k} golden=1"));
        }
    }
    if TOY {
        match idx % 60 {
            5 => age(p, n, 264, 1),
            x if x % 15 == 2 => {
                let t = p.r.range(8, 40);
                age(p, n, t, 1)
            }
            _ => {}
        }
    }
}

/// operations of every kind, repeated; what they leave behind must not add up
fn c21(p: &mut Plan, idx: u64) {
    p.boot(0);
    let nk = 2;
    store(p, nk);
    let n = if TOY { p.r.range(2, 3) } else { 1 };
    for i in 0..n {
        let rounds = if TOY { *p.r.pick(&[8, 8, 12, 16]) } else { [32, 4, 32, 4][(idx % 4) as usize] };
        let thr = p.r.below(2);
        let id = 1 + p.r.below(nk as u64);
        let kd = p.damaged();
        let sd = p.r.below(1 << 30);
        let m = message(&mut p.r);
        let mut e = p.ent();
        let kinds: &[&str] = &[
            "fresh", "keygen+eval", "inv+badct", "badct+decct", "badkey+decsk", "decct+decbad+decsk+decskbad",
            "eval+inv", "keygen", "new+decsk",
        ];
        let op = if TOY {
            *p.r.pick(kinds)
        } else {
            ["decct+decbad+decsk+decskbad", "badct", "decct+decbad+decsk+decskbad", "eval"][((idx + i) % 4) as usize]
        };
        if op.starts_with("keygen") && p.r.chance(2, 3) {
            let at = p.r.log_range(1, if TOY { 150 } else { 12 }) - 1;
            let k = *p.r.pick(&["fail", "openfail", "zero", "stuck"]);
            let len = if k.ends_with("fail") { 1_000_000 } else { p.r.range(1, 40) };
            e += &format!(",{k}@{at}+{len}");
        }
        p.now(format!("leak 0 rounds={rounds} thr={thr} op={op} id={id} kind={kd} seed={sd} m={m} ent={e}"));
        if p.r.chance(1, 4) {
            fail(p, nk as u64);
        }
    }
}

/// every other kind of run; judged is what it does to the world outside
fn c22(p: &mut Plan, idx: u64) {
    match idx % if TOY { 10 } else { 8 } {
        0 => c09(p, 1),
        1 => c02(p),
        2 => c03(p),
        3 => c06(p),
        4 => c01(p, 0),
        5 => c10(p),
        6 => c11(p),
        7 => c08(p, 1),
        8 => c07(p),
        _ => c13(p),
    }
}

/// the genuine part of every other kind of run: no damaged ciphertexts or keys
/// are worked on (they are decoded), and nothing is cut short
fn c23(p: &mut Plan, idx: u64) {
    match idx % if TOY { 10 } else { 6 } {
        0 => c02(p),
        1 => c13(p),
        2 => c04(p),
        3 => c12(p),
        4 => c01(p, 0),
        5 => c03(p),
        6 => c08(p, 1),
        7 => c07(p),
        8 => c14(p, idx),
        _ => c11(p),
    }
    const DAMAGED: [&str; 6] = ["damage", "misdeliver", "opendamagedkey", "sealdamagedpk", "fail", "leak"];
    p.q.retain(|(_, _, s)| {
        let ev = s.split(' ').next().unwrap();
        // decoding is compared on damaged bytes too
        !DAMAGED.contains(&ev) && (ev == "codec" || !s.contains("kind="))
    });
    for (_, _, s) in p.q.iter_mut() {
        *s = s.split(' ').filter(|x| !x.starts_with("crash=")).collect::<Vec<_>>().join(" ");
    }
}

pub fn plan(prop: &str, seed: u64, idx: u64) -> Vec<String> {
    let mut p = Plan::new(prop, seed, idx);
    match prop {
        "C01" => c01(&mut p, idx),
        "C02" => c02(&mut p),
        "C03" => c03(&mut p),
        "C04" => c04(&mut p),
        "C05" => c05(&mut p, idx),
        "C06" => c06(&mut p),
        "C07" => c07(&mut p),
        "C08" => c08(&mut p, idx),
        "C09" => c09(&mut p, idx),
        "C10" => c10(&mut p),
        "C11" => c11(&mut p),
        "C12" => c12(&mut p),
        "C13" => c13(&mut p),
        "C14" => c14(&mut p, idx),
        "C21" => c21(&mut p, idx),
        "C22" => c22(&mut p, idx),
        "C23" => c23(&mut p, idx),
        _ => {}
    }
    p.finish()
}

/// the violation class a property's check reports
pub fn class_of(prop: &str) -> &'static str {
    match prop {
        "C01" => "roundtrip",
        "C02" => "durability",
        "C03" => "codec",
        "C04" => "keyform",
        "C05" => "fresh",
        "C06" => "entropy",
        "C07" => "threads",
        "C08" => "determinism",
        "C09" => "isolation",
        "C10" => "liveness",
        "C11" => "confidential",
        "C12" => "sampling",
        "C13" => "walk",
        "C14" => "golden",
        "C21" => "memory",
        "C22" => "silence",
        "C23" => "profile",
        _ => "?",
    }
}
