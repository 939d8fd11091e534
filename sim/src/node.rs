//! A simulated process: a forked child that runs the real festa_rs code and
//! serves one request at a time. All of its nondeterminism comes from seam.rs.
#[cfg(feature = "internals")]
use crate::oracle::params;
use crate::oracle::FQ_LEN;
use crate::seam::{self, EntropySpec, EntropyStats, Policy};
use crate::{alloc, outside};
#[cfg(feature = "internals")]
use festa_rs::ecFESTA::evaluate_isogeny_chain_for_basis;
use festa_rs::ecFESTA::{Curve, Fq, Point};
use festa_rs::festa::{FESTACrypto, PublicKey, SecretKey, TrapdoorInput, TrapdoorOutput};
#[cfg(feature = "internals")]
use festa_rs::supersingular as ss;
use num_bigint::BigUint;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let v = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
    b.chunks(2).map(|c| if c.len() == 2 { v(c[0]) << 4 | v(c[1]) } else { 0 }).collect()
}

pub fn bigs(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap_or_default()
}

thread_local! {
    /// the whole message of the last panic
    static PANIC_ALL: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

#[derive(Default)]
struct State {
    inst: BTreeMap<u32, Box<FESTACrypto>>,
    keys: BTreeMap<u32, Box<SecretKey>>,
}

// The simulator shares instances and keys across its threads even if a change
// made them !Sync (it runs one thread at a time); `share` reports that case.
struct Shared<'a>(&'a State);
unsafe impl Sync for Shared<'_> {}
unsafe impl Send for Shared<'_> {}
impl<'a> Shared<'a> {
    fn get(&self) -> &'a State {
        self.0
    }
}

mod probe {
    pub struct P<T: ?Sized>(pub std::marker::PhantomData<T>);
    pub trait No {
        fn ok(&self) -> bool {
            false
        }
    }
    impl<T: ?Sized> No for P<T> {}
    impl<T: ?Sized + Send + Sync> P<T> {
        pub fn ok(&self) -> bool {
            true
        }
    }
}

fn shareable() -> bool {
    #[allow(unused_imports)]
    use probe::No as _;
    use std::marker::PhantomData as D;
    probe::P(D::<FESTACrypto>).ok()
        && probe::P(D::<SecretKey>).ok()
        && probe::P(D::<PublicKey>).ok()
        && probe::P(D::<TrapdoorInput>).ok()
        && probe::P(D::<TrapdoorOutput>).ok()
}

fn fq(b: &[u8]) -> Fq {
    Fq::decode(b).0
}

fn pk_decode(b: &[u8]) -> PublicKey {
    let f = |i: usize| fq(&b[i * FQ_LEN..(i + 1) * FQ_LEN]);
    PublicKey::new(
        &Curve::new(&f(0)),
        &Point::new_xy(&f(1), &f(2)),
        &Point::new_xy(&f(3), &f(4)),
    )
}

fn pk_encode(pk: &PublicKey) -> Vec<u8> {
    let (e, r, s) = pk.extract();
    let mut v = e.get_constant().encode().to_vec();
    for p in [r, s] {
        let (x, y) = p.to_xy();
        v.extend_from_slice(&x.encode());
        v.extend_from_slice(&y.encode());
    }
    v
}

fn pt_hex(p: &Point) -> String {
    if p.isinfinity() != 0 {
        return "inf".into();
    }
    let (x, y) = p.to_xy();
    let mut v = x.encode().to_vec();
    v.extend_from_slice(&y.encode());
    hex(&v)
}

fn pt_from(s: &str) -> Point {
    let b = unhex(s);
    Point::new_xy(&fq(&b[..FQ_LEN]), &fq(&b[FQ_LEN..]))
}

fn curve_from(s: &str) -> Curve {
    if s == "e0" {
        Curve::new(&(Fq::TWO + Fq::FOUR))
    } else {
        Curve::new(&fq(&unhex(s)))
    }
}

fn factors(s: &str) -> Vec<(u32, u32)> {
    s.split(';')
        .filter_map(|x| {
            let (a, b) = x.split_once('^')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect()
}

pub fn fmt_factors(f: &[(u32, u32)]) -> String {
    f.iter().map(|(l, e)| format!("{l}^{e}")).collect::<Vec<_>>().join(";")
}

fn prod(f: &[(u32, u32)]) -> BigUint {
    f.iter().fold(BigUint::from(1u32), |m, (l, e)| m * BigUint::from(*l).pow(*e))
}

/// An opened message. Callers compare it with `==` and print it, so both must
/// tell it from every other message.
fn msg_hex(m: &TrapdoorInput) -> String {
    let (s1, s2, (a, b)) = m.extract();
    let r = format!("{s1:x}:{s2:x}:{a:x}:{b:x}");
    let text = m.to_string();
    let same = TrapdoorInput::new(&s1, &s2, &(a.clone(), b.clone()));
    if *m != same || same != *m || same.to_string() != text {
        return r + ":unequal_to_itself";
    }
    let top = |x: &BigUint| x + (BigUint::from(1u32) << 64);
    for f in [&(|x: &BigUint| x + 1u32) as &dyn Fn(&BigUint) -> BigUint, &top] {
        for o in [
            TrapdoorInput::new(&f(&s1), &s2, &(a.clone(), b.clone())),
            TrapdoorInput::new(&s1, &f(&s2), &(a.clone(), b.clone())),
            TrapdoorInput::new(&s1, &s2, &(f(&a), b.clone())),
            TrapdoorInput::new(&s1, &s2, &(a.clone(), f(&b))),
        ] {
            if *m == o || o == *m || o.to_string() == text {
                return r + ":equal_to_another";
            }
        }
    }
    r
}

fn msg_from(s: &str) -> TrapdoorInput {
    let v: Vec<BigUint> = s.split(':').map(bigs).collect();
    TrapdoorInput::new(&v[0], &v[1], &(v[2].clone(), v[3].clone()))
}

/// what has grown from one half of a series to the next, and again
fn grows(at: &[(i64, i64, i64)]) -> Option<String> {
    let n = at.len() - 1;
    let (a, b, c) = (at[n / 4], at[n / 2], at[n]);
    let per = |x: i64| 4 * x;
    if b.0 - a.0 >= per((n / 2 - n / 4) as i64) && c.0 - b.0 >= per((n - n / 2) as i64) {
        return Some(format!("bytes:{}:{}:{}", a.0, b.0, c.0));
    }
    if b.1 > a.1 && c.1 > b.1 {
        return Some(format!("threads:{}:{}:{}", a.1, b.1, c.1));
    }
    if b.2 > a.2 && c.2 > b.2 {
        return Some(format!("files:{}:{}:{}", a.2, b.2, c.2));
    }
    None
}

enum Side {
    None,
    Inst(u32, Box<FESTACrypto>),
    Key(u32, Box<SecretKey>),
}

/// Every operation takes `op args...`; the reply's tokens are separated by spaces
fn exec(st: &State, t: &[&str]) -> (String, Side) {
    let n = |i: usize| t[i].parse::<u32>().unwrap_or(0);
    let inst = |i: usize| st.inst.get(&n(i)).expect("no instance");
    let none = |s: String| (s, Side::None);
    match t[0] {
        // new <inst>
        "new" => (String::new(), Side::Inst(n(1), Box::new(FESTACrypto::new()))),
        // rep <n> <op...> -> the op n times: number of different outcomes, last one
        "rep" => {
            let mut seen: std::collections::BTreeSet<String> = Default::default();
            let mut last = String::new();
            for _ in 0..n(1) {
                last = match catch_unwind(AssertUnwindSafe(|| exec(st, &t[2..]))) {
                    Ok((s, _)) => s.replace(' ', "+"),
                    Err(_) => {
                        PANIC_MSG.with(|p| std::mem::take(&mut *p.borrow_mut()));
                        "panic".into()
                    }
                };
                seen.insert(last.clone());
            }
            none(format!("{} {last}", seen.len()))
        }
        // keygen <inst> <slot> -> pk sk
        "keygen" => {
            let (pk, sk) = inst(1).keygen();
            let r = format!("{} {}", hex(&pk_encode(&pk)), hex(&sk.encode()));
            (r, Side::Key(n(2), Box::new(sk)))
        }
        // load <slot> <sk> -> re-encoded
        "load" => {
            let k = SecretKey::decode(&unhex(t[2]));
            (hex(&k.encode()), Side::Key(n(1), Box::new(k)))
        }
        // enc <slot>
        "enc" => none(hex(&st.keys.get(&n(1)).expect("no key").encode())),
        // eval <inst> <pk> <msg> -> ct
        "eval" => {
            let pk = pk_decode(&unhex(t[2]));
            none(hex(&inst(1).trapdoor_eval(&pk, &msg_from(t[3])).encode()))
        }
        // inv <inst> <mem:slot|sk> <ct> -> msg
        "inv" => {
            let owned;
            let sk: &SecretKey = match t[2].strip_prefix("mem:") {
                Some(s) => st.keys.get(&s.parse().unwrap_or(0)).expect("no key"),
                None => {
                    owned = SecretKey::decode(&unhex(t[2]));
                    &owned
                }
            };
            let ct = TrapdoorOutput::decode(&unhex(t[3]));
            none(msg_hex(&inst(1).trapdoor_inverse(&ct, sk)))
        }
        // fresh-object variants: a key pair that never left memory
        // cycle <inst> <msg> -> pk sk ct msg  (in-memory objects all the way)
        "cycle" => {
            let f = inst(1);
            let (pk, sk) = f.keygen();
            let ct = f.trapdoor_eval(&pk, &msg_from(t[2]));
            let m = f.trapdoor_inverse(&ct, &sk);
            none(format!(
                "{} {} {} {}",
                hex(&pk_encode(&pk)),
                hex(&sk.encode()),
                hex(&ct.encode()),
                msg_hex(&m)
            ))
        }
        // fresh <inst> <m,m,...>: a new key pair, sealing and opening for every
        // message -> how many did not come back
        "fresh" => {
            let f = inst(1);
            let mut bad = 0;
            let mut last = String::new();
            for m in t[2].split(',') {
                let want = msg_hex(&msg_from(m));
                match catch_unwind(AssertUnwindSafe(|| {
                    let (pk, sk) = f.keygen();
                    let ct = f.trapdoor_eval(&pk, &msg_from(m));
                    last = hex(&ct.encode());
                    msg_hex(&f.trapdoor_inverse(&ct, &sk)) == want
                })) {
                    Ok(true) => {}
                    _ => {
                        PANIC_MSG.with(|p| std::mem::take(&mut *p.borrow_mut()));
                        bad += 1
                    }
                }
            }
            none(format!("{bad} {last}"))
        }
        // leak <rounds> <entropy> <thr> <op> ;; <op>...: all ops, round after round,
        // nothing kept. Until memory stops growing, for 8 times the rounds at most.
        // -> rounds done, bytes held after 1/4, 1/2 and all of them, census before/after
        "leak" => {
            let (rounds, thr) = (n(1) as u64, n(3));
            let spec = EntropySpec::parse(t[2]).expect("entropy spec");
            let ops: Vec<Vec<&str>> = t[4..].split(|x| *x == ";;").map(|x| x.to_vec()).collect();
            let outer = seam::suspend_entropy();
            let mut at: Vec<(i64, i64, i64)> = Vec::with_capacity(rounds as usize * 8 + 1);
            let held = || {
                let c = outside::census();
                (alloc::live(), c.0 as i64, c.1 as i64)
            };
            let start = held();
            at.push(start);
            let (mut r, mut end, mut peak) = (0usize, rounds as usize, 0);
            while r < end {
                for (i, op) in ops.iter().enumerate() {
                    let mut e = spec.clone();
                    e.seed = crate::prng::mix(spec.seed, (r * 64 + i) as u64);
                    let sh = Shared(st);
                    let once = || guarded(sh.get(), op, &e).2.peak;
                    let p = if thr == 0 {
                        once()
                    } else {
                        std::thread::scope(|s| s.spawn(once).join().unwrap_or(0))
                    };
                    peak = peak.max(p);
                }
                r += 1;
                at.push(held());
                if r == end && end < rounds as usize * 8 && grows(&at).is_some() {
                    end *= 2;
                }
            }
            seam::resume_entropy(outer);
            alloc::raise(start.0 + peak);
            none(format!("{r} {}", grows(&at).unwrap_or_else(|| "-".into())))
        }
        // decct <bytes> -> re-encoded
        "decct" => none(hex(&TrapdoorOutput::decode(&unhex(t[1])).encode())),
        // decsk <bytes>
        "decsk" => none(hex(&SecretKey::decode(&unhex(t[1])).encode())),
        "share" => none(format!("{}", shareable() as u8)),
        "edges" => none(seam::edges_seen().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        _ => none(internal(t)),
    }
}

/// Operations on the building blocks rather than the scheme. They use functions
/// that are public but not the scheme's API; a tree that reshapes those still
/// builds without them.
#[cfg(not(feature = "internals"))]
fn internal(t: &[&str]) -> String {
    let _ = (pt_from, curve_from, factors, prod, rand_handle, pt_hex);
    panic!("unknown op {}", t[0])
}

#[cfg(feature = "internals")]
#[allow(unused_parens)]
fn internal(t: &[&str]) -> String {
    let n = |i: usize| t[i].parse::<u32>().unwrap_or(0);
    match t[0] {
        // basis: the public bases of E0 the scheme is built on
        "basis" => {
            let e0 = curve_from("e0");
            let cof = (crate::oracle::modulus() + 1u32) >> params::L_POWER;
            let (p, q) = ss::entangled_torsion_basis(&e0, &cof);
            let (r, s) = ss::torsion_basis(&e0, params::D1_FACTORED, params::L_POWER as usize);
            (format!("{} {} {} {}", pt_hex(&p), pt_hex(&q), pt_hex(&r), pt_hex(&s)))
        }
        // tbasis <curve> <factors>
        "tbasis" => {
            let e = curve_from(t[1]);
            let (p, q) = ss::torsion_basis(&e, &factors(t[2]), params::L_POWER as usize);
            (format!("{} {}", pt_hex(&p), pt_hex(&q)))
        }
        // walk <curve> <factors> <steps> <P> <Q> -> codomain P' Q' codomain'
        "walk" => {
            let e = curve_from(t[1]);
            let f = factors(t[2]);
            let steps: usize = t[3].parse().unwrap();
            let (phi, cod) = ss::random_isogeny_x_only(&e, &f, steps);
            let deg = prod(&f).pow(steps as u32);
            let ord = BigUint::from(2u32).pow(params::L_POWER);
            let (c2, (p, q)) =
                evaluate_isogeny_chain_for_basis(&e, &(pt_from(t[4]), pt_from(t[5])), &phi, &ord, &deg);
            (format!(
                "{} {} {} {}",
                hex(&cod.get_constant().encode()),
                pt_hex(&p),
                pt_hex(&q),
                hex(&c2.get_constant().encode())
            ))
        }
        // order <curve> <factors> -> point of exact order
        "order" => {
            let e = curve_from(t[1]);
            let p = ss::generate_random_point_order_factored_D(&e, &factors(t[2]), params::L_POWER as usize);
            (pt_hex(&p))
        }
        // points <curve> <n> -> points
        "points" => {
            let e = curve_from(t[1]);
            let mut rng = rand_handle();
            let k = n(2);
            ((0..k).map(|_| pt_hex(&e.rand_point(&mut rng))).collect::<Vec<_>>().join(" "))
        }
        // fqs <n> -> random field elements
        "fqs" => {
            let mut rng = rand_handle();
            ((0..n(1)).map(|_| hex(&Fq::rand(&mut rng).encode())).collect::<Vec<_>>().join(" "))
        }
        // nqr <n> -> random non-squares
        "nqr" => {
            let mut rng = rand_handle();
            (
                (0..n(1))
                    .map(|_| hex(&Fq::ZERO.rand_nonsquare(&mut rng).encode()))
                    .collect::<Vec<_>>()
                    .join(" ")
            )
        }
        _ => panic!("unknown op {}", t[0]),
    }
}

fn rand_handle() -> rand::rngs::ThreadRng {
    rand::thread_rng()
}

/// work draws opens bytes os_bytes hash faults lens
fn stats_str(work: u64, e: &EntropyStats) -> String {
    format!(
        "{} {} {} {} {} {:x} {} {} {}",
        work,
        e.draws,
        e.opens,
        e.bytes,
        e.os_bytes,
        e.hash,
        e.faults.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        e.lens.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        e.peak.max(0)
    )
}

/// what an operation knows that nobody else may learn
fn secrets(st: &State, t: &[&str], es: &EntropyStats) -> Vec<Vec<u8>> {
    let mut v = es.drawn.clone();
    let mut key = |b: &[u8]| {
        let n = 9 * FQ_LEN;
        if b.len() >= n + 164 {
            for c in b[..n].chunks(FQ_LEN) {
                v.push(c.to_vec());
                // as the machine words it is held in
                let e = fq(c);
                let p = &e as *const Fq as *const u8;
                v.push(unsafe { std::slice::from_raw_parts(p, std::mem::size_of::<Fq>()) }.to_vec());
            }
            v.push(b[n..n + 82].to_vec());
            v.push(b[n + 82..n + 164].to_vec());
        } else {
            v.push(b.to_vec());
        }
    };
    match t[0] {
        "load" => key(&unhex(t[2])),
        "decsk" => key(&unhex(t[1])),
        "inv" => match t[2].strip_prefix("mem:") {
            Some(s) => {
                if let Some(k) = st.keys.get(&s.parse().unwrap_or(0)) {
                    key(&catch_unwind(AssertUnwindSafe(|| k.encode())).unwrap_or_default())
                }
            }
            None => key(&unhex(t[2])),
        },
        "eval" | "cycle" => {
            for x in t[t.len() - 1].split(':') {
                v.push(bigs(x).to_bytes_le())
            }
        }
        _ => {}
    }
    v
}

/// panics must still be reported the way the caller set up
fn hook_in_place() -> bool {
    PANIC_ALL.with(|p| p.borrow_mut().clear());
    let _ = catch_unwind(|| panic!("probe"));
    let ok = PANIC_ALL.with(|p| !p.borrow().is_empty());
    PANIC_ALL.with(|p| p.borrow_mut().clear());
    PANIC_MSG.with(|p| p.borrow_mut().clear());
    ok
}

fn acts() -> String {
    let v = outside::take_acts();
    if v.is_empty() {
        "-".into()
    } else {
        v.join(",")
    }
}

fn guarded(st: &State, toks: &[&str], ent: &EntropySpec) -> (String, Side, EntropyStats) {
    seam::set_entropy(ent);
    PANIC_ALL.with(|p| p.borrow_mut().clear());
    let before = alloc::mark();
    let r = catch_unwind(AssertUnwindSafe(|| exec(st, toks)));
    let peak = alloc::peak() - before;
    alloc::fail_in(0);
    let mut es = seam::take_entropy();
    es.peak = peak;
    match r {
        Ok((s, side)) => {
            if matches!(toks[0], "new" | "keygen" | "eval" | "inv" | "load" | "decct" | "decsk") && PANIC_ALL.with(|p| !p.borrow().is_empty()) {
                // the default hook would have printed it
                outside::act(&format!("{} panicked inside and went on", toks[0]));
            }
            (format!("ok {s}"), side, es)
        }
        Err(_) => {
            let all = PANIC_ALL.with(|p| std::mem::take(&mut *p.borrow_mut()));
            if let Some(w) = outside::reveals(&all, &secrets(st, toks, &es)) {
                outside::act(&format!("the panic message of {} shows {w} of a secret", toks[0]));
            }
            let m = PANIC_MSG.with(|p| std::mem::take(&mut *p.borrow_mut()));
            (format!("panic {m}"), Side::None, es)
        }
    }
}

fn apply(st: &mut State, s: Side) {
    match s {
        Side::None => {}
        Side::Inst(i, f) => {
            st.inst.insert(i, f);
        }
        Side::Key(i, k) => {
            st.keys.insert(i, k);
        }
    }
}

fn opt(s: &str) -> Option<u64> {
    s.parse().ok()
}

/// Request line: `R <entropy> <clock|-> <crash|-> <budget|-> op...`
/// or `P <policy> <budget|-> | <entropy> op... | <entropy> op... ; ...` where
/// each thread is a `;`-list of ops.
fn serve(st: &mut State, line: &str) -> String {
    let mut it = line.splitn(2, ' ');
    let kind = it.next().unwrap();
    let rest = it.next().unwrap_or("");
    if kind == "R" {
        let t: Vec<&str> = rest.split(' ').collect();
        let ent = EntropySpec::parse(t[0]).expect("entropy spec");
        if let Some(c) = opt(t[1]) {
            seam::set_clock(c);
        }
        match t[2].strip_prefix('m') {
            // the k-th allocation fails
            Some(k) => {
                seam::arm(None, opt(t[3]));
                alloc::fail_in(k.parse().unwrap_or(0));
            }
            None => seam::arm(opt(t[2]), opt(t[3])),
        }
        let w0 = seam::work();
        let (r, side, es) = guarded(st, &t[4..], &ent);
        let w = seam::work() - w0;
        seam::arm(None, None);
        apply(st, side);
        if !hook_in_place() {
            outside::act(&format!("{} replaced the panic hook", t[4]));
        }
        return format!("{r}\t{} {} {}", stats_str(w, &es), acts(), alloc::failed());
    }
    // P <policy> <budget> # thread # thread ; thread = job ~ job ; job = <entropy> op...
    let mut parts = rest.split(" # ");
    let head: Vec<&str> = parts.next().unwrap().split(' ').collect();
    let policy = parse_policy(head[0]);
    seam::arm(None, opt(head[1]));
    let w0 = seam::work();
    let sh = Shared(st);
    let mut jobs: Vec<Box<dyn FnOnce() -> Vec<(String, Side, EntropyStats)> + Send>> = vec![];
    for th in parts {
        let sh = &sh;
        jobs.push(Box::new(move || {
            let st: &State = sh.0;
            let mut out = vec![];
            for j in th.split(" ~ ") {
                let t: Vec<&str> = j.split(' ').collect();
                let ent = EntropySpec::parse(t[0]).expect("entropy spec");
                out.push(guarded(st, &t[1..], &ent));
            }
            out
        }));
    }
    let r = seam::run_par(&policy, jobs);
    let w = seam::work() - w0;
    seam::arm(None, None);
    let mut s = format!(
        "par {:x} {} {} {}",
        r.hash,
        w,
        r.switches.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(","),
        acts()
    );
    for o in r.out {
        s.push_str(" # ");
        match o {
            None => s.push_str("lost"),
            Some(v) => {
                s += &v
                    .into_iter()
                    .map(|(r, _, es)| format!("{r}\t{}", stats_str(0, &es)))
                    .collect::<Vec<_>>()
                    .join(" ~ ")
            }
        }
    }
    s
}

unsafe impl Send for Side {}

pub fn parse_policy(s: &str) -> Policy {
    if let Some(r) = s.strip_prefix("r:") {
        let v: Vec<u64> = r.split(':').map(|x| x.parse().unwrap_or(0)).collect();
        return Policy::Random { gap: v[0], rare: v[1] as u8, seed: v[2] };
    }
    let r = s.strip_prefix("x:").unwrap_or("");
    Policy::Explicit(
        r.split(',')
            .filter_map(|x| {
                let (a, b) = x.split_once(':')?;
                Some((a.parse().ok()?, b.parse().ok()?))
            })
            .collect(),
    )
}

fn child(rfd: i32, wfd: i32, mut ctl: i32) -> ! {
    let mut r = unsafe { std::fs::File::from_raw_fd(rfd) };
    let mut w = unsafe { std::fs::File::from_raw_fd(wfd) };
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_ALL.with(|p| {
            let mut p = p.borrow_mut();
            if p.len() < 20_000 {
                p.extend(m.chars().take(20_000));
                p.push('\n');
            }
        });
        let m: String = m
            .chars()
            .map(|c| if c == '\t' || c == '\n' || c == '#' || c == '~' { '_' } else { c })
            .take(120)
            .collect();
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
    seam::enter_node();
    alloc::enter_node();
    let mut st = State::default();
    let mut len = [0u8; 4];
    loop {
        if r.read_exact(&mut len).is_err() {
            unsafe { libc::_exit(0) };
        }
        let mut b = vec![0u8; u32::from_le_bytes(len) as usize];
        if r.read_exact(&mut b).is_err() {
            unsafe { libc::_exit(0) };
        }
        let line = String::from_utf8(b).unwrap();
        if let Some(id) = line.strip_prefix("F ") {
            let Some(fds) = (unsafe { recv_fds(ctl) }) else { unsafe { libc::_exit(1) } };
            let pid = unsafe { seam::fork_sibling() };
            let reply = if pid == 0 {
                unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                seam::set_identity(id.parse().unwrap_or(1));
                unsafe { libc::close(ctl) };
                ctl = fds[2];
                // replaced files are closed: the twin lets go of its original's pipes
                r = unsafe { std::fs::File::from_raw_fd(fds[0]) };
                w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                None
            } else {
                for f in fds {
                    unsafe { libc::close(f) };
                }
                Some(pid.to_string())
            };
            if let Some(p) = reply {
                let b = p.as_bytes();
                if w.write_all(&(b.len() as u32).to_le_bytes()).and_then(|_| w.write_all(b)).is_err() {
                    unsafe { libc::_exit(0) };
                }
            }
            continue;
        }
        let rep = serve(&mut st, &line);
        let b = rep.as_bytes();
        if w.write_all(&(b.len() as u32).to_le_bytes()).and_then(|_| w.write_all(b)).is_err() {
            unsafe { libc::_exit(0) };
        }
    }
}

// ------------------------------------------------------------- world's side
#[derive(Debug, Clone, PartialEq)]
pub enum Reply {
    Ok(Vec<String>),
    Panic(String),
    /// process died at the injected crash point
    Crashed,
    /// the work budget ran out
    Hang,
    Deadlock,
    /// wall-clock watchdog (only if the loop is outside instrumented code)
    HangWall,
    /// process ended some other way (abort, signal)
    Died(String),
    Par(Box<ParReply>),
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Stats {
    pub work: u64,
    pub draws: u64,
    pub opens: u64,
    pub bytes: u64,
    pub os_bytes: u64,
    pub hash: u64,
    pub faults: [u64; 9],
    pub lens: Vec<u32>,
    /// most memory held during the operation
    pub peak: u64,
    /// what it did outside its process
    pub acts: String,
    /// allocations that were made to fail
    pub failed_allocs: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub struct ParReply {
    pub hash: u64,
    pub work: u64,
    pub switches: String,
    pub acts: String,
    pub threads: Vec<Vec<(Reply, Stats)>>,
}

pub struct Node {
    pid: i32,
    rfd: i32,
    wfd: i32,
    /// socket to pass the descriptors of a twin's pipes through
    ctl: i32,
    pub alive: bool,
}

unsafe fn send_fds(sock: i32, fds: [i32; 3]) -> bool {
    let mut byte = 1u8;
    let mut iov = libc::iovec { iov_base: &mut byte as *mut u8 as *mut _, iov_len: 1 };
    let mut buf = [0u64; 8];
    let mut m: libc::msghdr = std::mem::zeroed();
    m.msg_iov = &mut iov;
    m.msg_iovlen = 1;
    m.msg_control = buf.as_mut_ptr() as *mut _;
    m.msg_controllen = libc::CMSG_SPACE(12) as _;
    let c = libc::CMSG_FIRSTHDR(&m);
    (*c).cmsg_level = libc::SOL_SOCKET;
    (*c).cmsg_type = libc::SCM_RIGHTS;
    (*c).cmsg_len = libc::CMSG_LEN(12) as _;
    std::ptr::copy_nonoverlapping(fds.as_ptr() as *const u8, libc::CMSG_DATA(c), 12);
    libc::sendmsg(sock, &m, 0) == 1
}

unsafe fn recv_fds(sock: i32) -> Option<[i32; 3]> {
    let mut byte = 0u8;
    let mut iov = libc::iovec { iov_base: &mut byte as *mut u8 as *mut _, iov_len: 1 };
    let mut buf = [0u64; 8];
    let mut m: libc::msghdr = std::mem::zeroed();
    m.msg_iov = &mut iov;
    m.msg_iovlen = 1;
    m.msg_control = buf.as_mut_ptr() as *mut _;
    m.msg_controllen = std::mem::size_of_val(&buf) as _;
    if libc::recvmsg(sock, &mut m, libc::MSG_CMSG_CLOEXEC) != 1 {
        return None;
    }
    let c = libc::CMSG_FIRSTHDR(&m);
    if c.is_null() || (*c).cmsg_type != libc::SCM_RIGHTS {
        return None;
    }
    let mut fds = [0i32; 3];
    std::ptr::copy_nonoverlapping(libc::CMSG_DATA(c), fds.as_mut_ptr() as *mut u8, 12);
    Some(fds)
}

fn parse_one(s: &str) -> (Reply, Stats) {
    let (a, b) = s.rsplit_once('\t').unwrap_or((s, ""));
    let v: Vec<&str> = b.split(' ').collect();
    let mut st = Stats::default();
    if v.len() >= 9 {
        st.work = v[0].parse().unwrap_or(0);
        st.draws = v[1].parse().unwrap_or(0);
        st.opens = v[2].parse().unwrap_or(0);
        st.bytes = v[3].parse().unwrap_or(0);
        st.os_bytes = v[4].parse().unwrap_or(0);
        st.hash = u64::from_str_radix(v[5], 16).unwrap_or(0);
        for (i, x) in v[6].split(',').enumerate().take(9) {
            st.faults[i] = x.parse().unwrap_or(0);
        }
        st.lens = v[7].split(',').filter_map(|x| x.parse().ok()).collect();
        st.peak = v[8].parse().unwrap_or(0);
        st.acts = v.get(9).filter(|x| **x != "-").unwrap_or(&"").to_string();
        st.failed_allocs = v.get(10).and_then(|x| x.parse().ok()).unwrap_or(0);
    }
    let (k, r) = a.split_once(' ').unwrap_or((a, ""));
    let rep = match k {
        "ok" => Reply::Ok(r.split(' ').map(|x| x.to_string()).collect()),
        "panic" => Reply::Panic(r.to_string()),
        _ => Reply::Died(format!("protocol: {k}")),
    };
    (rep, st)
}

/// calls `f` with the stack `n` frames further down
#[inline(never)]
fn deeper(n: u64, f: &mut dyn FnMut()) {
    let pad = std::hint::black_box([n as u8; 1000]);
    if n == 0 {
        f();
    } else {
        deeper(n - 1, f);
    }
    std::hint::black_box(&pad);
}

fn channels() -> ([i32; 2], [i32; 2], [i32; 2]) {
    let (mut a, mut b, mut c) = ([0i32; 2], [0i32; 2], [0i32; 2]);
    unsafe {
        assert!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        assert!(libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        assert!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, c.as_mut_ptr()) == 0);
    }
    (a, b, c)
}

impl Node {
    /// A fresh process. `id` is what it sees as its process id; `shift` moves
    /// where its heap and stack start, so that nothing may depend on addresses;
    /// `env` is what it finds in its environment.
    pub fn spawn(id: u32, shift: u64, env: u32) -> Node {
        let (a, b, c) = channels();
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(a[1]);
                libc::close(b[0]);
                libc::close(c[0]);
                let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                seam::set_identity(id);
                outside::enter_node(env);
                seam::set_pace(env / 6 % 4);
                seam::trap_tsc();
                if shift != 0 {
                    std::hint::black_box(libc::malloc(1 + shift as usize % 99_991));
                }
                deeper(shift % 61, &mut || child(a[0], b[1], c[1]));
            }
            libc::close(a[0]);
            libc::close(b[1]);
            libc::close(c[1]);
            Node { pid, rfd: b[0], wfd: a[1], ctl: c[0], alive: true }
        }
    }

    /// A second process that continues from this one's exact state (a fork, or
    /// a snapshot of a machine resumed twice). The twin is forked by the process
    /// itself but becomes a child of ours (CLONE_PARENT).
    pub fn twin(&mut self, id: u32) -> Option<Node> {
        if !self.alive {
            return None;
        }
        let (a, b, c) = channels();
        unsafe {
            let sent = send_fds(self.ctl, [a[0], b[1], c[1]]);
            let r = if sent { self.exchange(&format!("F {id}"), WALL).ok() } else { None };
            for f in [a[0], b[1], c[1]] {
                libc::close(f);
            }
            match r.and_then(|p| p.parse::<i32>().ok()).filter(|p| *p > 0) {
                Some(pid) => Some(Node { pid, rfd: b[0], wfd: a[1], ctl: c[0], alive: true }),
                None => {
                    for f in [a[1], b[0], c[0]] {
                        libc::close(f);
                    }
                    None
                }
            }
        }
    }

    fn write(&self, s: &str) -> bool {
        let mut b = (s.len() as u32).to_le_bytes().to_vec();
        b.extend_from_slice(s.as_bytes());
        let mut o = 0;
        while o < b.len() {
            let n = unsafe { libc::write(self.wfd, b[o..].as_ptr() as *const _, b.len() - o) };
            if n <= 0 {
                return false;
            }
            o += n as usize;
        }
        true
    }

    fn read(&self, n: usize, deadline: u64) -> Result<Vec<u8>, bool> {
        let mut b = vec![0u8; n];
        let mut o = 0;
        while o < n {
            let now = seam::real_now_ns();
            if now >= deadline {
                return Err(true);
            }
            let mut pf = libc::pollfd { fd: self.rfd, events: libc::POLLIN, revents: 0 };
            let ms = ((deadline - now) / 1_000_000 + 1).min(i32::MAX as u64) as i32;
            let r = unsafe { libc::poll(&mut pf, 1, ms) };
            if r == 0 {
                return Err(true);
            }
            if r < 0 {
                continue;
            }
            let k = unsafe { libc::read(self.rfd, b[o..].as_mut_ptr() as *mut _, n - o) };
            if k <= 0 {
                return Err(false);
            }
            o += k as usize;
        }
        Ok(b)
    }

    fn reap(&mut self) -> Reply {
        self.alive = false;
        let mut st = 0;
        unsafe { libc::waitpid(self.pid, &mut st, 0) };
        self.close();
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                seam::EXIT_CRASH => return Reply::Crashed,
                seam::EXIT_HANG => return Reply::Hang,
                seam::EXIT_DEADLOCK => return Reply::Deadlock,
                c => return Reply::Died(format!("exit {c}")),
            }
        }
        Reply::Died(format!("signal {}", libc::WTERMSIG(st)))
    }

    fn close(&self) {
        unsafe {
            libc::close(self.rfd);
            libc::close(self.wfd);
            libc::close(self.ctl);
        }
    }

    pub fn kill(&mut self) {
        if self.alive {
            unsafe { libc::kill(self.pid, libc::SIGKILL) };
            self.reap();
        }
    }

    fn exchange(&mut self, s: &str, wall_s: u64) -> Result<String, Reply> {
        if !self.alive {
            return Err(Reply::Died("not running".into()));
        }
        if !self.write(s) {
            return Err(self.reap());
        }
        let dl = seam::real_now_ns() + wall_s * 1_000_000_000;
        let r = self
            .read(4, dl)
            .and_then(|l| self.read(u32::from_le_bytes([l[0], l[1], l[2], l[3]]) as usize, dl));
        match r {
            Ok(b) => Ok(String::from_utf8_lossy(&b).into_owned()),
            Err(true) => {
                self.kill();
                Err(Reply::HangWall)
            }
            Err(false) => Err(self.reap()),
        }
    }

    pub fn call(&mut self, ent: &EntropySpec, clock: Option<u64>, crash: Option<u64>, budget: Option<u64>, op: &str) -> (Reply, Stats) {
        let o = |x: Option<u64>| x.map_or("-".to_string(), |v| v.to_string());
        let c = match crash {
            Some(k) if k & OOM != 0 => format!("m{}", k & !OOM),
            c => o(c),
        };
        let s = format!("R {} {} {} {} {}", ent.fmt(), o(clock), c, o(budget), op);
        match self.exchange(&s, WALL) {
            Ok(r) => parse_one(&r),
            Err(r) => (r, Stats::default()),
        }
    }

    pub fn par(&mut self, policy: &str, budget: Option<u64>, threads: &[Vec<(EntropySpec, String)>]) -> Reply {
        let mut s = format!("P {} {}", policy, budget.map_or("-".to_string(), |v| v.to_string()));
        for t in threads {
            s.push_str(" # ");
            s += &t.iter().map(|(e, o)| format!("{} {}", e.fmt(), o)).collect::<Vec<_>>().join(" ~ ");
        }
        match self.exchange(&s, WALL) {
            Ok(r) => {
                let mut parts = r.split(" # ");
                let h: Vec<&str> = parts.next().unwrap().split(' ').collect();
                Reply::Par(Box::new(ParReply {
                    hash: u64::from_str_radix(h[1], 16).unwrap_or(0),
                    work: h[2].parse().unwrap_or(0),
                    switches: h.get(3).unwrap_or(&"").to_string(),
                    acts: h.get(4).filter(|x| **x != "-").unwrap_or(&"").to_string(),
                    threads: parts
                        .map(|p| {
                            if p == "lost" {
                                vec![(Reply::Died("thread lost".into()), Stats::default())]
                            } else {
                                p.split(" ~ ").map(parse_one).collect()
                            }
                        })
                        .collect(),
                }))
            }
            Err(r) => r,
        }
    }
}

/// a crash point that counts allocations: that one fails
pub const OOM: u64 = 1 << 62;

impl Drop for Node {
    fn drop(&mut self) {
        self.kill();
    }
}

#[cfg(feature = "toy")]
const WALL: u64 = 400;
#[cfg(not(feature = "toy"))]
const WALL: u64 = 700;
