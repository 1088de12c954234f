use super::hash::sha256;
pub const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// Plain Base58 by repeated division of the big-endian number by 58.
pub fn encode(data: &[u8]) -> String {
    let zeros = data.iter().take_while(|b| **b == 0).count();
    let mut num: Vec<u32> = Vec::new(); // big endian, base 2^32
    let mut padded = vec![0u8; (4 - data.len() % 4) % 4];
    padded.extend_from_slice(data);
    for c in padded.chunks(4) {
        num.push(u32::from_be_bytes(c.try_into().unwrap()));
    }
    let mut out = Vec::new();
    while num.iter().any(|x| *x != 0) {
        let mut rem = 0u64;
        for d in num.iter_mut() {
            let t = rem << 32 | *d as u64;
            *d = (t / 58) as u32;
            rem = t % 58;
        }
        out.push(ALPHABET[rem as usize]);
    }
    out.extend(std::iter::repeat(b'1').take(zeros));
    out.reverse();
    String::from_utf8(out).unwrap()
}
pub fn decode(s: &str) -> Option<Vec<u8>> {
    let mut num: Vec<u8> = Vec::new(); // little endian
    for c in s.bytes() {
        let mut carry = ALPHABET.iter().position(|a| *a == c)? as u32;
        for b in num.iter_mut() {
            carry += *b as u32 * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            num.push(carry as u8);
            carry >>= 8;
        }
    }
    num.extend(s.bytes().take_while(|c| *c == b'1').map(|_| 0));
    num.reverse();
    Some(num)
}
pub fn check_encode(payload: &[u8]) -> String {
    let mut v = payload.to_vec();
    v.extend_from_slice(&sha256(&sha256(payload))[..4]);
    encode(&v)
}
pub fn check_decode(s: &str) -> Option<Vec<u8>> {
    let mut v = decode(s)?;
    if v.len() < 4 {
        return None;
    }
    let c = v.split_off(v.len() - 4);
    if sha256(&sha256(&v))[..4] != c[..] {
        return None;
    }
    Some(v)
}
