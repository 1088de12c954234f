//! Reference model, written from the specifications. Shares no code with kms or its dependencies.
pub mod base58;
pub mod bip32;
pub mod bip39;
pub mod hash;
pub mod nfkd;
pub mod secp;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Known-answer tests of the reference model itself; a failure is an error of the harness.
pub fn self_test() -> Result<(), String> {
    fn eq(what: &str, a: String, b: &str) -> Result<(), String> {
        if a == b {
            Ok(())
        } else {
            Err(format!("reference self-test {}: {} != {}", what, a, b))
        }
    }
    use hash::*;
    eq("sha256", hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    eq("sha512", hex(&sha512(b"abc")), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")?;
    eq("ripemd160", hex(&ripemd160(b"message digest")), "5d0689ef49d2fae572b881b123a85ffa21595f36")?;
    eq("ripemd160 long", hex(&ripemd160(&[b'a'; 1000])), "aa69deee9a8922e92f8105e007f76110f381e9cf")?;
    eq("hmac512", hex(&hmac_sha512(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"))[..32].to_string(), "80b24263c7c1a3ebb71493c1dd7be8b4")?;
    let g = secp::gmul(&[1, 0, 0, 0]);
    eq("G", hex(&secp::compress(&g).unwrap()), "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")?;
    let nm1 = secp::sub(&secp::N, &[1, 0, 0, 0], &secp::P);
    eq("(n-1)G", hex(&secp::compress(&secp::gmul(&nm1)).unwrap()), "0379be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")?;
    if secp::gmul(&secp::N).is_some() || secp::padd(&g, &secp::gmul(&nm1)).is_some() {
        return Err("reference self-test: nG is not infinity".into());
    }
    let k = secp::from_be(&sha256(b"k"));
    if secp::gmul(&k) != secp::pmul(&g, &k) || secp::decompress(&secp::compress(&secp::gmul(&k)).unwrap()) != secp::gmul(&k) {
        return Err("reference self-test: ladder/table/decompress".into());
    }
    // BIP39 vector (English) with BIP32 master key
    let e = unhex("9e885d952ad362caeb4efe34a8e91bd2");
    let ph = bip39::phrase(&e, bip39::Lang::En);
    eq("bip39", ph.clone(), "ozone drill grab fiber curtain grace pudding thank cruise elder eight picnic")?;
    let seed = bip39::seed(&ph, bip39::Lang::En, "TREZOR");
    eq("seed", hex(&seed), "274ddc525802f7c828d8ef7ddbcdc5304e87ac3535913611fbbfa986d0c9e5476c91689f9c8a54fd55bd38606aa6a8595ad213d4c9c9f9aca3fb217069a41028")?;
    let m = bip32::master(&seed).unwrap();
    eq("master", m.text(0x0488ade4), "xprv9s21ZrQH143K2oZ9stBYpoaZ2ktHj7jLz7iMqpgg1En8kKFTXJHsjxry1JbKH19YrDTicVwKPehFKTbmaxgVEc5TpHdS1aYhB2s9aFJBeJH")?;
    // BIP32 vector 1, m/0'/1/2'/2/1000000000
    let mut x = bip32::master(&unhex("000102030405060708090a0b0c0d0e0f")).unwrap();
    for i in [0x80000000u32, 1, 0x80000002, 2] {
        x = x.child(i).unwrap();
    }
    let p = x.neuter().child(1000000000).unwrap();
    eq("vector1 xpub", p.text(0x0488b21e), "xpub6H1LXWLaKsWFhvm6RVpEL9P4KfRZSW7abD2ttkWP3SSQvnyA8FSVqNTEcYFgJS2UaFcxupHiYkro49S8yGasTvXEYBVPamhGW6cFJodrTHy")?;
    eq("vector1 xprv", x.child(1000000000).unwrap().text(0x0488ade4), "xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76")?;
    // BIP32 vector 3: retention of leading zeros
    let m = bip32::master(&unhex("4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d0c64d2e8a1e7d1457df2e5a3c51c73235be")).unwrap();
    eq("vector3", m.child(0x80000000).unwrap().text(0x0488ade4), "xprv9uPDJpEQgRQfDcW7BkF7eTya6RPxXeJCqCJGHuCJ4GiRVLzkTXBAJMu2qaMWPrS7AANYqdq6vcBcBUdJCVVFceUvJFjaPdGZ2y9WACViL4L")?;
    if bip32::parse("xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzF93Y5wvzdUayhgkkFoicQZcP3y52uPPxFnfoLZB21Teqt1VvEHx").is_some() {
        return Err("reference self-test: vector 5 scalar 0 accepted".into());
    }
    // NFKD password vector
    eq("nfkd", hex(&bip39::seed("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", bip39::Lang::En, "nullius　à　nym.zone ¹teſts² English")), "61f3aa13adcf5f4b8661fc062501d67eca3a53fc0ed129076ad7a22983b6b5ed0e84e47b24cff23b7fca57e127f62f28c1584ed487872d4bfbc773257bdbc434")?;
    eq("hangul", nfkd::nfkd("각힣"), "\u{1100}\u{1161}\u{11a8}\u{1112}\u{1175}\u{11c2}")?;
    eq("order", nfkd::nfkd("a\u{301}\u{323}"), "a\u{323}\u{301}")?;
    eq("wordlists", hex(&sha256(bip39::EN_TXT.as_bytes()))[..16].to_string(), "2f5eed53a4727b4b")?;
    eq("wordlists", hex(&sha256(bip39::ZH_TXT.as_bytes()))[..16].to_string(), "5c5942792bd8340c")?;
    Ok(())
}
