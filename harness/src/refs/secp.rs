//! Reference secp256k1 arithmetic on 4x64-bit integers (not constant time, not clever).
use std::cmp::Ordering;

pub type U256 = [u64; 4]; // little endian limbs

pub const P: U256 = [0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX];
pub const N: U256 = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, u64::MAX];
const GX: U256 = [0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC];
const GY: U256 = [0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465];

pub fn from_be(b: &[u8; 32]) -> U256 {
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    r
}
pub fn to_be(a: &U256) -> [u8; 32] {
    let mut r = [0u8; 32];
    for i in 0..4 {
        r[8 * i..8 * i + 8].copy_from_slice(&a[3 - i].to_be_bytes());
    }
    r
}
pub fn cmp(a: &U256, b: &U256) -> Ordering {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
pub fn is_zero(a: &U256) -> bool {
    *a == [0; 4]
}
fn add_raw(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    (r, c != 0)
}
fn sub_raw(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0; 4];
    let mut br = 0i128;
    for i in 0..4 {
        let t = a[i] as i128 - b[i] as i128 + br;
        r[i] = t as u64;
        br = if t < 0 { -1 } else { 0 };
    }
    (r, br != 0)
}
pub fn add(a: &U256, b: &U256, m: &U256) -> U256 {
    let (r, c) = add_raw(a, b);
    if c || cmp(&r, m) != Ordering::Less {
        sub_raw(&r, m).0
    } else {
        r
    }
}
pub fn sub(a: &U256, b: &U256, m: &U256) -> U256 {
    let (r, br) = sub_raw(a, b);
    if br {
        add_raw(&r, m).0
    } else {
        r
    }
}
pub fn neg(a: &U256, m: &U256) -> U256 {
    if is_zero(a) {
        *a
    } else {
        sub_raw(m, a).0
    }
}
pub fn reduce(a: &U256, m: &U256) -> U256 {
    if cmp(a, m) != Ordering::Less {
        sub_raw(a, m).0
    } else {
        *a
    }
}
fn mul_wide(a: &U256, b: &U256) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + 4] = c as u64;
    }
    r
}
/// a*b mod m by repeatedly folding the high half with 2^256 = (2^256 - m) (mod m).
pub fn mul(a: &U256, b: &U256, m: &U256) -> U256 {
    let c = sub_raw(&[0; 4], m).0; // 2^256 - m
    let mut w = mul_wide(a, b);
    while w[4..].iter().any(|x| *x != 0) {
        let hi: U256 = [w[4], w[5], w[6], w[7]];
        let lo: U256 = [w[0], w[1], w[2], w[3]];
        let mut f = mul_wide(&hi, &c);
        let mut carry = 0u128;
        for i in 0..8 {
            let t = f[i] as u128 + if i < 4 { lo[i] as u128 } else { 0 } + carry;
            f[i] = t as u64;
            carry = t >> 64;
        }
        w = f;
    }
    let r = [w[0], w[1], w[2], w[3]];
    reduce(&r, m)
}
pub fn pow(a: &U256, e: &U256, m: &U256) -> U256 {
    let mut r: U256 = [1, 0, 0, 0];
    for i in (0..256).rev() {
        r = mul(&r, &r, m);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mul(&r, a, m);
        }
    }
    r
}
pub fn inv(a: &U256, m: &U256) -> U256 {
    pow(a, &sub_raw(m, &[2, 0, 0, 0]).0, m)
}

/// Affine point; None is the point at infinity.
pub type Pt = Option<(U256, U256)>;

#[derive(Clone, Copy)]
struct Jac {
    x: U256,
    y: U256,
    z: U256, // z == 0 is infinity
}
const JINF: Jac = Jac { x: [1, 0, 0, 0], y: [1, 0, 0, 0], z: [0; 4] };

fn dbl(p: &Jac) -> Jac {
    if is_zero(&p.z) || is_zero(&p.y) {
        return JINF;
    }
    let m = |a: &U256, b: &U256| mul(a, b, &P);
    let ysq = m(&p.y, &p.y);
    let s0 = m(&p.x, &ysq);
    let s = add(&add(&s0, &s0, &P), &add(&s0, &s0, &P), &P);
    let xx = m(&p.x, &p.x);
    let mm = add(&add(&xx, &xx, &P), &xx, &P);
    let x3 = sub(&m(&mm, &mm), &add(&s, &s, &P), &P);
    let y4 = m(&ysq, &ysq);
    let y42 = add(&y4, &y4, &P);
    let y44 = add(&y42, &y42, &P);
    let y48 = add(&y44, &y44, &P);
    let y3 = sub(&m(&mm, &sub(&s, &x3, &P)), &y48, &P);
    let z = m(&p.y, &p.z);
    Jac { x: x3, y: y3, z: add(&z, &z, &P) }
}
fn addj(p: &Jac, q: &Jac) -> Jac {
    if is_zero(&p.z) {
        return *q;
    }
    if is_zero(&q.z) {
        return *p;
    }
    let m = |a: &U256, b: &U256| mul(a, b, &P);
    let z1 = m(&p.z, &p.z);
    let z2 = m(&q.z, &q.z);
    let u1 = m(&p.x, &z2);
    let u2 = m(&q.x, &z1);
    let s1 = m(&p.y, &m(&z2, &q.z));
    let s2 = m(&q.y, &m(&z1, &p.z));
    if u1 == u2 {
        return if s1 == s2 { dbl(p) } else { JINF };
    }
    let h = sub(&u2, &u1, &P);
    let r = sub(&s2, &s1, &P);
    let h2 = m(&h, &h);
    let h3 = m(&h2, &h);
    let v = m(&u1, &h2);
    let x3 = sub(&sub(&m(&r, &r), &h3, &P), &add(&v, &v, &P), &P);
    let y3 = sub(&m(&r, &sub(&v, &x3, &P)), &m(&s1, &h3), &P);
    Jac { x: x3, y: y3, z: m(&h, &m(&p.z, &q.z)) }
}
fn to_jac(p: &Pt) -> Jac {
    match p {
        None => JINF,
        Some((x, y)) => Jac { x: *x, y: *y, z: [1, 0, 0, 0] },
    }
}
fn to_aff(p: &Jac) -> Pt {
    if is_zero(&p.z) {
        return None;
    }
    let zi = inv(&p.z, &P);
    let zi2 = mul(&zi, &zi, &P);
    Some((mul(&p.x, &zi2, &P), mul(&p.y, &mul(&zi2, &zi, &P), &P)))
}
pub fn g() -> Pt {
    Some((GX, GY))
}
pub fn padd(a: &Pt, b: &Pt) -> Pt {
    to_aff(&addj(&to_jac(a), &to_jac(b)))
}
fn mulj(p: &Pt, k: &U256) -> Jac {
    let b = to_jac(p);
    let mut r = JINF;
    for i in (0..256).rev() {
        r = dbl(&r);
        if k[i / 64] >> (i % 64) & 1 == 1 {
            r = addj(&r, &b);
        }
    }
    r
}
pub fn pmul(p: &Pt, k: &U256) -> Pt {
    to_aff(&mulj(p, k))
}
fn gtable() -> &'static Vec<[Jac; 16]> {
    static T: std::sync::OnceLock<Vec<[Jac; 16]>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut base = to_jac(&g());
        let mut v = Vec::new();
        for _ in 0..64 {
            let mut row = [JINF; 16];
            for j in 1..16 {
                row[j] = addj(&row[j - 1], &base);
            }
            v.push(row);
            for _ in 0..4 {
                base = dbl(&base);
            }
        }
        v
    })
}
fn gmulj(k: &U256) -> Jac {
    let t = gtable();
    let mut r = JINF;
    for i in 0..64 {
        let d = (k[i / 16] >> (4 * (i % 16)) & 15) as usize;
        if d != 0 {
            r = addj(&r, &t[i][d]);
        }
    }
    r
}
/// k*G
pub fn gmul(k: &U256) -> Pt {
    to_aff(&gmulj(k))
}
/// a + k*G with a single inversion
pub fn padd_gmul(a: &Pt, k: &U256) -> Pt {
    to_aff(&addj(&to_jac(a), &gmulj(k)))
}

pub fn compress(p: &Pt) -> Option<[u8; 33]> {
    let (x, y) = (*p)?;
    let mut r = [0u8; 33];
    r[0] = 2 + (y[0] & 1) as u8;
    r[1..].copy_from_slice(&to_be(&x));
    Some(r)
}
/// Decode a 33-byte compressed point, rejecting anything that is not one.
pub fn decompress(b: &[u8; 33]) -> Pt {
    if b[0] != 2 && b[0] != 3 {
        return None;
    }
    let x = from_be(b[1..].try_into().unwrap());
    if cmp(&x, &P) != Ordering::Less {
        return None;
    }
    let rhs = add(&mul(&mul(&x, &x, &P), &x, &P), &[7, 0, 0, 0], &P);
    // sqrt by exponent (p+1)/4
    let (p1, _) = add_raw(&P, &[1, 0, 0, 0]);
    let mut e = [0u64; 4];
    for i in 0..4 {
        e[i] = p1[i] >> 2 | if i < 3 { p1[i + 1] << 62 } else { 0 };
    }
    let mut y = pow(&rhs, &e, &P);
    if mul(&y, &y, &P) != rhs {
        return None;
    }
    if (y[0] & 1) as u8 != b[0] & 1 {
        y = neg(&y, &P);
    }
    Some((x, y))
}
pub fn valid_scalar(b: &[u8; 32]) -> Option<U256> {
    let k = from_be(b);
    if is_zero(&k) || cmp(&k, &N) != Ordering::Less {
        None
    } else {
        Some(k)
    }
}
pub fn pubkey(sk: &[u8; 32]) -> Option<[u8; 33]> {
    compress(&gmul(&valid_scalar(sk)?))
}

/// ECDSA verification with digest reduced modulo n.
pub fn ecdsa_verify(q: &Pt, z: &[u8; 32], r: &U256, s: &U256) -> bool {
    for v in [r, s] {
        if is_zero(v) || cmp(v, &N) != Ordering::Less {
            return false;
        }
    }
    let z = reduce(&from_be(z), &N);
    let w = inv(s, &N);
    let u1 = mul(&z, &w, &N);
    let u2 = mul(r, &w, &N);
    match to_aff(&addj(&gmulj(&u1), &mulj(q, &u2))) {
        None => false,
        Some((x, _)) => reduce(&x, &N) == *r,
    }
}
/// Public key recovery (SEC 1, 4.1.6).
pub fn ecdsa_recover(z: &[u8; 32], r: &U256, s: &U256, recid: u8) -> Pt {
    if recid > 3 {
        return None;
    }
    for v in [r, s] {
        if is_zero(v) || cmp(v, &N) != Ordering::Less {
            return None;
        }
    }
    let x = if recid & 2 != 0 {
        let (x, c) = add_raw(r, &N);
        if c || cmp(&x, &P) != Ordering::Less {
            return None;
        }
        x
    } else {
        *r
    };
    let mut cb = [0u8; 33];
    cb[0] = 2 + (recid & 1);
    cb[1..].copy_from_slice(&to_be(&x));
    let rp = decompress(&cb);
    rp?;
    let z = reduce(&from_be(z), &N);
    let ri = inv(r, &N);
    let u1 = neg(&mul(&z, &ri, &N), &N);
    let u2 = mul(s, &ri, &N);
    to_aff(&addj(&gmulj(&u1), &mulj(&rp, &u2)))
}
pub fn is_high(s: &U256) -> bool {
    // s > n/2  <=>  2s > n
    let (d, c) = add_raw(s, s);
    c || cmp(&d, &N) == Ordering::Greater
}
