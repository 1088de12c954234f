//! Reference hash functions, written from FIPS 180-4, RFC 2104, RFC 8018 and the RIPEMD-160 paper.

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

const K256: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for block in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(block[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

/// First 64 bits of the fractional part of the cube root (or square root) of a prime,
/// computed by integer root extraction instead of being typed in.
fn frac_root(p: u64, cube: bool) -> u64 {
    // find largest x with x^k <= p << (64*k), where x has a 64 bit fraction; x < 2^72
    let mut lo: u128 = 0;
    let mut hi: u128 = 1 << 70;
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let sq = mulbig(&[mid as u64, (mid >> 64) as u64], &[mid as u64, (mid >> 64) as u64]);
        let (pow, shift) = if cube {
            (mulbig(&sq, &[mid as u64, (mid >> 64) as u64]), 3)
        } else {
            (sq, 2)
        };
        // compare pow with p << 64*shift
        let mut target = vec![0u64; shift];
        target.push(p);
        if cmpbig(&pow, &target) != std::cmp::Ordering::Greater {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u64
}
fn mulbig(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![0u64; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    r
}
fn cmpbig(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    let n = a.len().max(b.len());
    for i in (0..n).rev() {
        let x = a.get(i).copied().unwrap_or(0);
        let y = b.get(i).copied().unwrap_or(0);
        if x != y {
            return x.cmp(&y);
        }
    }
    std::cmp::Ordering::Equal
}

struct C512 {
    k: [u64; 80],
    h: [u64; 8],
}
fn c512() -> &'static C512 {
    static C: std::sync::OnceLock<C512> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        let mut c = C512 { k: [0; 80], h: [0; 8] };
        for i in 0..80 {
            c.k[i] = frac_root(p[i], true);
        }
        for i in 0..8 {
            c.h[i] = frac_root(p[i], false);
        }
        c
    })
}

fn sha512_block(h: &mut [u64; 8], block: &[u8]) {
    let k = &c512().k;
    let mut w = [0u64; 80];
    for i in 0..16 {
        w[i] = u64::from_be_bytes(block[8 * i..8 * i + 8].try_into().unwrap());
    }
    for i in 16..80 {
        let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
        let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..80 {
        let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

/// Finish a SHA-512 whose first `prefix_len` bytes (a multiple of 128) are already in `h`.
fn sha512_finish(mut h: [u64; 8], prefix_len: usize, msg: &[u8]) -> [u8; 64] {
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&(((prefix_len + msg.len()) as u128) * 8).to_be_bytes());
    for b in m.chunks(128) {
        sha512_block(&mut h, b);
    }
    let mut out = [0u8; 64];
    for i in 0..8 {
        out[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn sha512(msg: &[u8]) -> [u8; 64] {
    sha512_finish(c512().h, 0, msg)
}

pub struct Hmac512 {
    inner: [u64; 8],
    outer: [u64; 8],
}
impl Hmac512 {
    pub fn new(key: &[u8]) -> Self {
        let mut k = [0u8; 128];
        if key.len() > 128 {
            k[..64].copy_from_slice(&sha512(key));
        } else {
            k[..key.len()].copy_from_slice(key);
        }
        let mut ip = [0u8; 128];
        let mut op = [0u8; 128];
        for i in 0..128 {
            ip[i] = k[i] ^ 0x36;
            op[i] = k[i] ^ 0x5c;
        }
        let mut inner = c512().h;
        let mut outer = c512().h;
        sha512_block(&mut inner, &ip);
        sha512_block(&mut outer, &op);
        Hmac512 { inner, outer }
    }
    pub fn mac(&self, msg: &[u8]) -> [u8; 64] {
        let i = sha512_finish(self.inner, 128, msg);
        sha512_finish(self.outer, 128, &i)
    }
}
pub fn hmac_sha512(key: &[u8], msg: &[u8]) -> [u8; 64] {
    Hmac512::new(key).mac(msg)
}

/// First (and only) 64-byte block of PBKDF2-HMAC-SHA512.
pub fn pbkdf2_sha512_64(password: &[u8], salt: &[u8], rounds: u32) -> [u8; 64] {
    let h = Hmac512::new(password);
    let mut s = salt.to_vec();
    s.extend_from_slice(&1u32.to_be_bytes());
    let mut u = h.mac(&s);
    let mut out = u;
    for _ in 1..rounds {
        u = h.mac(&u);
        for i in 0..64 {
            out[i] ^= u[i];
        }
    }
    out
}

pub fn ripemd160(msg: &[u8]) -> [u8; 20] {
    const R1: [usize; 80] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3,
        10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0,
        5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
    ];
    const R2: [usize; 80] = [
        5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15,
        5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15,
        10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
    ];
    const S1: [u32; 80] = [
        11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
        11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
        9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
    ];
    const S2: [u32; 80] = [
        8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
        9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
        8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
    ];
    const K1: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    const K2: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j {
            0 => x ^ y ^ z,
            1 => (x & y) | (!x & z),
            2 => (x | !y) ^ z,
            3 => (x & z) | (y & !z),
            _ => x ^ (y | !z),
        }
    }
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_le_bytes());
    for b in m.chunks(64) {
        let x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let (mut a, mut c) = (h, h);
        for j in 0..80 {
            let t = a[0]
                .wrapping_add(f(j / 16, a[1], a[2], a[3]))
                .wrapping_add(x[R1[j]])
                .wrapping_add(K1[j / 16])
                .rotate_left(S1[j])
                .wrapping_add(a[4]);
            a = [a[4], t, a[1], a[2].rotate_left(10), a[3]];
            let t = c[0]
                .wrapping_add(f(4 - j / 16, c[1], c[2], c[3]))
                .wrapping_add(x[R2[j]])
                .wrapping_add(K2[j / 16])
                .rotate_left(S2[j])
                .wrapping_add(c[4]);
            c = [c[4], t, c[1], c[2].rotate_left(10), c[3]];
        }
        let t = h[1].wrapping_add(a[2]).wrapping_add(c[3]);
        h[1] = h[2].wrapping_add(a[3]).wrapping_add(c[4]);
        h[2] = h[3].wrapping_add(a[4]).wrapping_add(c[0]);
        h[3] = h[4].wrapping_add(a[0]).wrapping_add(c[1]);
        h[4] = h[0].wrapping_add(a[1]).wrapping_add(c[2]);
        h[0] = t;
    }
    let mut out = [0u8; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}

pub fn hash160(msg: &[u8]) -> [u8; 20] {
    ripemd160(&sha256(msg))
}
