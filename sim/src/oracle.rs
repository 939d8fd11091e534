//! Reference arithmetic used to judge results. Written from the definitions and
//! independent of festa_rs: own parameters, own field, curve and Weil pairing.
use crate::prng::Prng;
use num_bigint::BigUint;
use std::sync::OnceLock;

#[cfg(not(feature = "toy"))]
#[path = "params_real.rs"]
pub mod params;
#[cfg(feature = "toy")]
#[path = "params_toy.rs"]
pub mod params;

use params::*;

pub fn big_hex(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

struct Ctx {
    p: [u64; NL],
    pinv: u64,
    r2: [u64; NL],
    one: [u64; NL],
    pbig: BigUint,
    sqrt_e: BigUint,
    inv_e: BigUint,
}

fn limbs(b: &BigUint) -> [u64; NL] {
    let mut r = [0u64; NL];
    for (i, d) in b.to_u64_digits().into_iter().enumerate() {
        r[i] = d;
    }
    r
}

fn ctx() -> &'static Ctx {
    static C: OnceLock<Ctx> = OnceLock::new();
    C.get_or_init(|| {
        let p = big_hex(P_HEX);
        let r = BigUint::from(1u32) << (64 * NL);
        let p0 = limbs(&p)[0];
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(p0.wrapping_mul(inv)));
        }
        Ctx {
            p: limbs(&p),
            pinv: inv.wrapping_neg(),
            r2: limbs(&((&r * &r) % &p)),
            one: limbs(&(&r % &p)),
            sqrt_e: (&p + 1u32) >> 2,
            inv_e: &p - 2u32,
            pbig: p,
        }
    })
}

pub fn modulus() -> &'static BigUint {
    &ctx().pbig
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fp([u64; NL]);

fn geq(a: &[u64; NL], b: &[u64; NL]) -> bool {
    for i in (0..NL).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}

fn sub_raw(a: &mut [u64; NL], b: &[u64; NL]) -> bool {
    let mut br = false;
    for i in 0..NL {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(br as u64);
        a[i] = y;
        br = b1 | b2;
    }
    br
}

fn add_raw(a: &mut [u64; NL], b: &[u64; NL]) -> bool {
    let mut c = false;
    for i in 0..NL {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (y, c2) = x.overflowing_add(c as u64);
        a[i] = y;
        c = c1 | c2;
    }
    c
}

impl Fp {
    pub const ZERO: Fp = Fp([0; NL]);
    pub fn one() -> Fp {
        Fp(ctx().one)
    }
    pub fn from_big(b: &BigUint) -> Fp {
        Fp(limbs(&(b % &ctx().pbig))).mul(&Fp(ctx().r2))
    }
    pub fn to_big(self) -> BigUint {
        let mut o = [0u64; NL];
        o[0] = 1;
        let v = self.mul(&Fp(o));
        let mut b = Vec::new();
        for w in v.0 {
            b.extend_from_slice(&w.to_le_bytes());
        }
        BigUint::from_bytes_le(&b)
    }
    pub fn add(&self, o: &Fp) -> Fp {
        let mut r = self.0;
        let c = add_raw(&mut r, &o.0);
        if c || geq(&r, &ctx().p) {
            sub_raw(&mut r, &ctx().p);
        }
        Fp(r)
    }
    pub fn sub(&self, o: &Fp) -> Fp {
        let mut r = self.0;
        if sub_raw(&mut r, &o.0) {
            add_raw(&mut r, &ctx().p);
        }
        Fp(r)
    }
    pub fn neg(&self) -> Fp {
        Fp::ZERO.sub(self)
    }
    pub fn mul(&self, o: &Fp) -> Fp {
        let c = ctx();
        let mut t = [0u64; NL + 2];
        for i in 0..NL {
            let mut carry = 0u128;
            for j in 0..NL {
                let v = t[j] as u128 + self.0[j] as u128 * o.0[i] as u128 + carry;
                t[j] = v as u64;
                carry = v >> 64;
            }
            let v = t[NL] as u128 + carry;
            t[NL] = v as u64;
            t[NL + 1] = (v >> 64) as u64;
            let m = t[0].wrapping_mul(c.pinv);
            let mut carry = (t[0] as u128 + m as u128 * c.p[0] as u128) >> 64;
            for j in 1..NL {
                let v = t[j] as u128 + m as u128 * c.p[j] as u128 + carry;
                t[j - 1] = v as u64;
                carry = v >> 64;
            }
            let v = t[NL] as u128 + carry;
            t[NL - 1] = v as u64;
            t[NL] = t[NL + 1] + (v >> 64) as u64;
        }
        let mut r = [0u64; NL];
        r.copy_from_slice(&t[..NL]);
        if t[NL] != 0 || geq(&r, &c.p) {
            sub_raw(&mut r, &c.p);
        }
        Fp(r)
    }
    pub fn pow(&self, e: &BigUint) -> Fp {
        let mut r = Fp::one();
        for i in (0..e.bits()).rev() {
            r = r.mul(&r);
            if e.bit(i) {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn inv(&self) -> Fp {
        self.pow(&ctx().inv_e)
    }
    pub fn sqrt(&self) -> Option<Fp> {
        let s = self.pow(&ctx().sqrt_e);
        (s.mul(&s) == *self).then_some(s)
    }
    pub fn is_zero(&self) -> bool {
        *self == Fp::ZERO
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F2 {
    pub a: Fp,
    pub b: Fp,
}

pub const FP_LEN: usize = (FP_BITS + 7) / 8;
const FP_BITS: usize = P_HEX.len() * 4
    - match P_HEX.as_bytes()[0] {
        b'1' => 3,
        b'2' | b'3' => 2,
        b'4'..=b'7' => 1,
        _ => 0,
    };
pub const FQ_LEN: usize = 2 * FP_LEN;

impl F2 {
    pub const ZERO: F2 = F2 { a: Fp::ZERO, b: Fp::ZERO };
    pub fn one() -> F2 {
        F2 { a: Fp::one(), b: Fp::ZERO }
    }
    pub fn small(n: u32) -> F2 {
        F2 { a: Fp::from_big(&BigUint::from(n)), b: Fp::ZERO }
    }
    pub fn add(&self, o: &F2) -> F2 {
        F2 { a: self.a.add(&o.a), b: self.b.add(&o.b) }
    }
    pub fn sub(&self, o: &F2) -> F2 {
        F2 { a: self.a.sub(&o.a), b: self.b.sub(&o.b) }
    }
    pub fn neg(&self) -> F2 {
        F2 { a: self.a.neg(), b: self.b.neg() }
    }
    pub fn mul(&self, o: &F2) -> F2 {
        let t0 = self.a.mul(&o.a);
        let t1 = self.b.mul(&o.b);
        let t2 = self.a.add(&self.b).mul(&o.a.add(&o.b));
        F2 { a: t0.sub(&t1), b: t2.sub(&t0).sub(&t1) }
    }
    pub fn sq(&self) -> F2 {
        self.mul(self)
    }
    pub fn inv(&self) -> F2 {
        let n = self.a.mul(&self.a).add(&self.b.mul(&self.b)).inv();
        F2 { a: self.a.mul(&n), b: self.b.neg().mul(&n) }
    }
    pub fn is_zero(&self) -> bool {
        *self == F2::ZERO
    }
    pub fn pow(&self, e: &BigUint) -> F2 {
        let mut r = F2::one();
        for i in (0..e.bits()).rev() {
            r = r.sq();
            if e.bit(i) {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn sqrt(&self) -> Option<F2> {
        if self.is_zero() {
            return Some(*self);
        }
        let n = self.a.mul(&self.a).add(&self.b.mul(&self.b));
        let s = n.sqrt()?;
        let half = Fp::from_big(&BigUint::from(2u32)).inv();
        for s in [s, s.neg()] {
            let t = self.a.add(&s).mul(&half);
            if let Some(x) = t.sqrt() {
                if x.is_zero() {
                    // self = -b^2 with zero imaginary part
                    if let Some(y) = self.a.neg().sqrt() {
                        return Some(F2 { a: Fp::ZERO, b: y });
                    }
                    continue;
                }
                let r = F2 { a: x, b: self.b.mul(&x.add(&x).inv()) };
                if r.sq() == *self {
                    return Some(r);
                }
            }
        }
        None
    }
    /// Canonical decoding; None on a value >= p or a wrong length
    pub fn decode(b: &[u8]) -> Option<F2> {
        if b.len() != FQ_LEN {
            return None;
        }
        let x = BigUint::from_bytes_le(&b[..FP_LEN]);
        let y = BigUint::from_bytes_le(&b[FP_LEN..]);
        if &x >= modulus() || &y >= modulus() {
            return None;
        }
        Some(F2 { a: Fp::from_big(&x), b: Fp::from_big(&y) })
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut r = vec![0u8; FQ_LEN];
        let x = self.a.to_big().to_bytes_le();
        let y = self.b.to_big().to_bytes_le();
        r[..x.len()].copy_from_slice(&x);
        r[FP_LEN..FP_LEN + y.len()].copy_from_slice(&y);
        r
    }
    pub fn random(r: &mut Prng) -> F2 {
        F2 {
            a: Fp::from_big(&r.big_below(modulus())),
            b: Fp::from_big(&r.big_below(modulus())),
        }
    }
}

/// Affine point, None = infinity
pub type Pt = Option<(F2, F2)>;

/// y^2 = x^3 + A x^2 + x
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Curve {
    pub A: F2,
}

#[derive(Clone, Copy)]
struct Jac {
    x: F2,
    y: F2,
    z: F2,
}

impl Jac {
    fn inf() -> Jac {
        Jac { x: F2::one(), y: F2::one(), z: F2::ZERO }
    }
    fn from(p: &Pt) -> Jac {
        match p {
            None => Jac::inf(),
            Some((x, y)) => Jac { x: *x, y: *y, z: F2::one() },
        }
    }
    fn is_inf(&self) -> bool {
        self.z.is_zero()
    }
    fn affine(&self) -> Pt {
        if self.is_inf() {
            return None;
        }
        let zi = self.z.inv();
        let z2 = zi.sq();
        Some((self.x.mul(&z2), self.y.mul(&z2.mul(&zi))))
    }
}

impl Curve {
    pub fn e0() -> Curve {
        Curve { A: F2::small(6) }
    }
    pub fn rhs(&self, x: &F2) -> F2 {
        x.mul(&x.sq().add(&self.A.mul(x)).add(&F2::one()))
    }
    pub fn on(&self, p: &Pt) -> bool {
        match p {
            None => true,
            Some((x, y)) => y.sq() == self.rhs(x),
        }
    }
    pub fn singular(&self) -> bool {
        self.A.sq() == F2::small(4)
    }
    fn dbl(&self, p: &Jac) -> (Jac, F2) {
        // returns 2p and M (numerator of the tangent slope)
        let y2 = p.y.sq();
        let x2 = p.x.sq();
        let z2 = p.z.sq();
        let axz = self.A.mul(&p.x).mul(&z2);
        let m = x2.add(&x2).add(&x2).add(&axz).add(&axz).add(&z2.sq());
        let s = {
            let t = p.x.mul(&y2);
            let t = t.add(&t);
            t.add(&t)
        };
        let yz = p.y.mul(&p.z);
        let z3 = yz.add(&yz);
        let x3 = m.sq().sub(&self.A.mul(&z3.sq())).sub(&s).sub(&s);
        let y4 = y2.sq();
        let y4 = y4.add(&y4);
        let y4 = y4.add(&y4);
        let y4 = y4.add(&y4);
        let y3 = m.mul(&s.sub(&x3)).sub(&y4);
        (Jac { x: x3, y: y3, z: z3 }, m)
    }
    fn add_aff(&self, p: &Jac, qx: &F2, qy: &F2) -> (Jac, F2) {
        // p + (qx, qy); returns r as well. Caller handles p = inf, p = +-q.
        let z2 = p.z.sq();
        let h = qx.mul(&z2).sub(&p.x);
        let r = qy.mul(&z2.mul(&p.z)).sub(&p.y);
        let z3 = p.z.mul(&h);
        let h2 = h.sq();
        let u1h2 = p.x.mul(&h2);
        let x3 = r
            .sq()
            .sub(&self.A.mul(&z3.sq()))
            .sub(&u1h2)
            .sub(&qx.mul(&z2).mul(&h2));
        let y3 = r.mul(&u1h2.sub(&x3)).sub(&p.y.mul(&h2.mul(&h)));
        (Jac { x: x3, y: y3, z: z3 }, r)
    }
    fn add_any(&self, p: &Jac, q: &Pt) -> Jac {
        let (qx, qy) = match q {
            None => return *p,
            Some(v) => v,
        };
        if p.is_inf() {
            return Jac::from(q);
        }
        let z2 = p.z.sq();
        if qx.mul(&z2) == p.x {
            if qy.mul(&z2.mul(&p.z)) == p.y {
                if p.y.is_zero() {
                    return Jac::inf();
                }
                return self.dbl(p).0;
            }
            return Jac::inf();
        }
        self.add_aff(p, qx, qy).0
    }
    pub fn mul(&self, p: &Pt, k: &BigUint) -> Pt {
        let mut r = Jac::inf();
        for i in (0..k.bits()).rev() {
            if !r.is_inf() {
                if r.y.is_zero() {
                    r = Jac::inf();
                } else {
                    r = self.dbl(&r).0;
                }
            }
            if k.bit(i) {
                r = self.add_any(&r, p);
            }
        }
        r.affine()
    }
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt {
        self.add_any(&Jac::from(p), q).affine()
    }
    pub fn random_point(&self, r: &mut Prng) -> Pt {
        loop {
            let x = F2::random(r);
            if let Some(y) = self.rhs(&x).sqrt() {
                let y = if r.chance(1, 2) { y.neg() } else { y };
                return Some((x, y));
            }
        }
    }
    /// #E(GF(p^2)) = (p+1)^2 with full exponent p+1: every point is killed by p+1
    pub fn supersingular(&self) -> bool {
        if self.singular() {
            return false;
        }
        let mut r = Prng::new(0x5551);
        let n = modulus() + 1u32;
        (0..2).all(|_| {
            let p = self.random_point(&mut r);
            self.mul(&p, &n).is_none()
        })
    }
    /// exact order of p is prod l^e
    pub fn has_order(&self, p: &Pt, f: &[(u32, u32)]) -> bool {
        let mut n = BigUint::from(1u32);
        for (l, e) in f {
            n *= BigUint::from(*l).pow(*e);
        }
        if p.is_none() || self.mul(p, &n).is_some() {
            return false;
        }
        f.iter().all(|(l, _)| self.mul(p, &(&n / *l)).is_some())
    }
    fn miller(&self, p: &(F2, F2), q: &(F2, F2), n: &BigUint) -> (F2, F2) {
        let (mut num, mut den) = (F2::one(), F2::one());
        let mut t = Jac::from(&Some(*p));
        let (qx, qy) = q;
        for i in (0..n.bits() - 1).rev() {
            num = num.sq();
            den = den.sq();
            if !t.is_inf() {
                let z2 = t.z.sq();
                if t.y.is_zero() {
                    num = num.mul(&qx.mul(&z2).sub(&t.x));
                    den = den.mul(&z2);
                    t = Jac::inf();
                } else {
                    let (d, m) = self.dbl(&t);
                    let z3c = z2.mul(&t.z);
                    let l = qy
                        .mul(&z3c)
                        .sub(&t.y)
                        .mul(&d.z)
                        .sub(&m.mul(&t.z).mul(&qx.mul(&z2).sub(&t.x)));
                    num = num.mul(&l);
                    den = den.mul(&z3c).mul(&d.z);
                    let dz2 = d.z.sq();
                    num = num.mul(&dz2);
                    den = den.mul(&qx.mul(&dz2).sub(&d.x));
                    t = d;
                }
            }
            if n.bit(i) {
                if t.is_inf() {
                    t = Jac::from(&Some(*p));
                } else {
                    let z2 = t.z.sq();
                    if p.0.mul(&z2) == t.x {
                        if p.1.mul(&z2.mul(&t.z)) == t.y {
                            // t = p: tangent at p (does not occur for n > 3)
                            let (d, m) = self.dbl(&t);
                            let z3c = z2.mul(&t.z);
                            let l = qy.mul(&z3c).sub(&t.y).mul(&d.z).sub(
                                &m.mul(&t.z).mul(&qx.mul(&z2).sub(&t.x)),
                            );
                            num = num.mul(&l).mul(&d.z.sq());
                            den = den.mul(&z3c).mul(&d.z).mul(&qx.mul(&d.z.sq()).sub(&d.x));
                            t = d;
                        } else {
                            num = num.mul(&qx.sub(&p.0));
                            t = Jac::inf();
                        }
                    } else {
                        let (s, r) = self.add_aff(&t, &p.0, &p.1);
                        let l = qy.sub(&p.1).mul(&s.z).sub(&r.mul(&qx.sub(&p.0)));
                        num = num.mul(&l);
                        den = den.mul(&s.z);
                        let sz2 = s.z.sq();
                        num = num.mul(&sz2);
                        den = den.mul(&qx.mul(&sz2).sub(&s.x));
                        t = s;
                    }
                }
            }
        }
        (num, den)
    }
    /// Weil pairing of two n-torsion points
    pub fn weil(&self, p: &Pt, q: &Pt, n: &BigUint) -> F2 {
        let (p, q) = match (p, q) {
            (Some(p), Some(q)) => (p, q),
            _ => return F2::one(),
        };
        let (a, b) = self.miller(p, q, n);
        let (c, d) = self.miller(q, p, n);
        // f_P(Q) / f_Q(P)
        let num = a.mul(&d);
        let den = b.mul(&c);
        if num.is_zero() || den.is_zero() {
            return F2::one(); // dependent points
        }
        let e = num.mul(&den.inv());
        if n.bit(0) {
            e.neg()
        } else {
            e
        }
    }
}

/// the multiplicative order of v is exactly prod l^e
pub fn f2_has_order(v: &F2, f: &[(u32, u32)]) -> bool {
    let mut n = BigUint::from(1u32);
    for (l, e) in f {
        n *= BigUint::from(*l).pow(*e);
    }
    v.pow(&n) == F2::one() && f.iter().all(|(l, _)| v.pow(&(&n / *l)) != F2::one())
}

pub fn pow2(e: u32) -> BigUint {
    BigUint::from(1u32) << e
}

/// Self-check of the reference arithmetic, run before it judges anything
pub fn selftest() -> Result<(), String> {
    let mut r = Prng::new(7);
    let e = Curve::e0();
    let n = modulus() + 1u32;
    let (p, q) = (e.random_point(&mut r), e.random_point(&mut r));
    let chk = |c: bool, s: &str| if c { Ok(()) } else { Err(format!("oracle self-test: {s}")) };
    chk(e.on(&p) && e.on(&q), "points")?;
    chk(e.on(&e.mul(&p, &BigUint::from(12345u32))), "mul")?;
    chk(e.supersingular(), "E0 supersingular")?;
    let k = &n >> L_POWER;
    let (p, q) = (e.mul(&p, &k), e.mul(&q, &k));
    let l = pow2(L_POWER);
    let w = e.weil(&p, &q, &l);
    chk(w.pow(&l) == F2::one() && w != F2::one(), "pairing order")?;
    let (a, b) = (BigUint::from(123457u32), BigUint::from(98763u32));
    chk(e.weil(&e.mul(&p, &a), &e.mul(&q, &b), &l) == w.pow(&(&a * &b)), "bilinear")?;
    chk(e.weil(&e.add(&p, &q), &q, &l) == w, "alternating")?;
    let m = big_hex(D1_HEX);
    let k = &n / &m;
    let (p, q) = (e.random_point(&mut r), e.random_point(&mut r));
    let (p, q) = (e.mul(&p, &k), e.mul(&q, &k));
    let w = e.weil(&p, &q, &m);
    chk(w.pow(&m) == F2::one() && w != F2::one(), "odd pairing order")?;
    chk(e.weil(&e.mul(&p, &a), &e.mul(&q, &b), &m) == w.pow(&(&a * &b)), "odd bilinear")?;
    chk(e.weil(&e.add(&p, &q), &q, &m) == w, "odd alternating")?;
    let x = F2::random(&mut r);
    chk(F2::decode(&x.encode()) == Some(x), "codec")
}
