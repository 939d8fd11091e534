#!/usr/bin/env python3
"""Generate the reduced FESTA parameter set used by the simulator
(/repo/src/fields_sim_toy.rs), following precompute/gen_fp.sage.

The set has the shape of the shipped one: m1^2*dA1*d1 + m2^2*dA2*d2 = 2^b with
b = THETA_ISOGENY_LENGTH = L_POWER - 2, coprime smooth odd degrees, dA1 and dA2
squares walked in two steps, p = 2^(b+2)*f*d1*d2*rad(dA1)*rad(dA2) - 1 prime.
X^2 + 7*Y^2 = 2^b comes from the powers of (1+sqrt(-7))/2.
"""
import sys
from math import isqrt, log2

B = 128
D1F = [(3, 6), (29, 2), (37, 2), (251, 2)]
DA1F = [(83, 1), (167, 1)]
D2F = [(5, 2), (7, 3), (13, 2), (17, 2), (43, 2)]
DA2F = [(41, 1), (127, 1)]

def is_prime(n):
    if n < 2: return False
    for q in (2,3,5,7,11,13,17,19,23,29,31,37,41,43,47):
        if n % q == 0: return n == q
    d, s = n-1, 0
    while d % 2 == 0: d//=2; s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37,41,43,47):
        x = pow(a,d,n)
        if x in (1,n-1): continue
        for _ in range(s-1):
            x = x*x % n
            if x == n-1: break
        else: return False
    return True

def prod(f):
    r = 1
    for l,e in f: r *= l**e
    return r

u, v = 1, 1
while u*u + 7*v*v < 2**B:
    u, v = (u-7*v)//2, (u+v)//2
X, Y = abs(u), abs(v)
assert X*X + 7*Y*Y == 2**B
d1, d2 = prod(D1F), prod(D2F)
r1, r2 = prod(DA1F), prod(DA2F)
dA1, dA2 = r1*r1, r2*r2
m1s, rem = divmod(X*X, d1*dA1); assert rem == 0, "d1*dA1"
m2s, rem = divmod(7*Y*Y, d2*dA2); assert rem == 0, "d2*dA2"
m1, m2 = isqrt(m1s), isqrt(m2s)
assert m1*m1 == m1s and m2*m2 == m2s
assert m1*m1*dA1*d1 + m2*m2*dA2*d2 == 2**B
L_POWER = B + 2
f = 1
while not is_prime(2**L_POWER*f*d1*d2*r1*r2 - 1): f += 2
p = 2**L_POWER*f*d1*d2*r1*r2 - 1
BITLEN = p.bit_length(); N = (BITLEN+63)//64
print("f", f, "BITLEN", BITLEN, "N", N, "log d1", log2(d1), "log d2", log2(d2), file=sys.stderr)
assert 64*N - BITLEN >= 4

def words(n, bits, cnt):
    return [(n >> (bits*i)) & ((1 << bits)-1) for i in range(cnt)]
def a64(n): return "[" + ", ".join("0x%016X" % w for w in words(n, 64, N)) + "]"
def a32(n):
    c = max(1, (n.bit_length()+31)//32)
    return "[u32; %d] = [%s]" % (c, ", ".join("0x%08X" % w for w in words(n, 32, c)))
def afac(fl): return "[(u32, u32); %d] = [%s]" % (len(fl), ", ".join("(%d, %d)" % t for t in fl))
R = 2**(64*N)
n1 = (2*BITLEN-34)//31; n2 = 2*BITLEN - 31*n1 - 2
def digits(e):
    el = 0
    while e % 2**(5*(el+1)) == 0: el += 1
    e >>= 5*el
    d = []
    while e: d.append(e & 31); e >>= 5
    return el, d
sel, seh = digits((p+1)//4)
fel, feh = digits((p+1)//8)
P1 = p >> (BITLEN-32)
P1DIV_M = 1 + ((2**32-P1)*2**64)//P1
nqr = 1
while pow((nqr*nqr+1) % p, (p-1)//2, p) == 1: nqr += 1

# (2,2)-chain strategy: optimal binary strategy for B leaves, cost(double)=cost(eval)
def strategy(n, mul=8, ev=5):
    S = {1: ([], 0)}
    for i in range(2, n+1):
        b, cost = min(((b, S[i-b][1] + S[b][1] + b*mul + (i-b)*ev) for b in range(1, i)), key=lambda t: t[1])
        S[i] = ([b] + S[i-b][0] + S[b][0], cost)
    return S[n][0]
st = strategy(B)
assert len(st) == B-1

def ladder_pt():
    # a basis-like pair of Fp points on y^2 = x^3+6x^2+x, kept only so that the module exports the same names
    pts = []
    x = 2
    while len(pts) < 2:
        rhs = (x*x*x + 6*x*x + x) % p
        y = pow(rhs, (p+1)//4, p)
        if y*y % p == rhs: pts.append((x, y))
        x += 1
    return pts
(P0x, P0y), (Q0x, Q0y) = ladder_pt()
DAF = sorted([(l, 2*e) for l, e in DA1F + DA2F])
print(f"""//! Reduced FESTA parameter set. Only compiled with `--cfg festa_sim_toy`, where it
//! stands in for `fields.rs` so that a simulator can run many complete executions.
//! It offers no security whatsoever. Generated, same shape as `fields.rs`.
pub mod FpFESTA {{
    const N: usize = {N};
    const BITLEN: usize = {BITLEN};
    const MODULUS: [u64; N] = {a64(p)};
    const HALF_MODULUS: [u64; N] = {a64((p+1)//2)};
    const R_VAL: [u64; N] = {a64(R % p)};
    const MINUS_R_VAL: [u64; N] = {a64(-R % p)};
    const DR_VAL: [u64; N] = {a64(2*R % p)};
    const TR_VAL: [u64; N] = {a64(3*R % p)};
    const QR_VAL: [u64; N] = {a64(4*R % p)};
    const R2_VAL: [u64; N] = {a64(R*R % p)};
    const P0I: u64 = {pow(-p, -1, 2**64)};
    const TFIXDIV_VAL: [u64; N] = {a64(pow(2, 33*n1+64-n2+2*64*N, p))};
    const TDEC_VAL: [u64; N] = {a64(pow(2, 64*(2*N-1), p))};
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; {len(seh)}] = {seh};
    const SQRT_EL: usize = {sel};
    const FOURTH_ROOT_EH: [u8; {len(feh)}] = {feh};
    const FOURTH_ROOT_EL: usize = {fel};
    const P1: u64 = {P1};
    const P1DIV_M: u64 = {P1DIV_M};

    crate::finitefield::fp_gen::define_fp_core! {{}}
}}

pub mod FpFESTAExt {{
    use num_bigint::BigUint;

    use super::FpFESTA::Fp;
    const NQR_RE: Fp = Fp::new({a64(nqr*R % p)});

    pub const P0x: Fp = Fp::new({a64(P0x*R % p)});
    pub const P0y: Fp = Fp::new({a64(P0y*R % p)});
    pub const Q0x: Fp = Fp::new({a64(Q0x*R % p)});
    pub const Q0y: Fp = Fp::new({a64(Q0y*R % p)});

    /// Public parameters
    pub const D1: {a32(d1)};
    pub const D1_FACTORED: {afac(D1F)};
    pub const D2: {a32(d2)};
    pub const D2_FACTORED: {afac(D2F)};
    pub const DA: {a32(dA1*dA2)};
    pub const DA_FACTORED: {afac(DAF)};
    pub const DA1: {a32(dA1)};
    pub const DA1_FACTORED: {afac(DA1F)};
    pub const DA2: {a32(dA2)};
    pub const DA2_FACTORED: {afac(DA2F)};
    pub const M1: {a32(m1)};
    pub const M2: {a32(m2)};

    pub const L_POWER: u32 = {L_POWER};
    pub const THETA_ISOGENY_LENGTH: u32 = {B};

    pub const BASIS_ORDER: {a32(p+1)};
    pub const BIGUINT_MODULUS: {a32(p)};

    pub const THETA_STRATEGY: [usize; {len(st)}] = {st};

    crate::finitefield::fp2_gen::define_fp2_core! {{}}
}}""")
