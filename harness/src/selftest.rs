//! Known answers for the reference implementations.
use crate::refs::{aes, b64, salsa, sha};
use crate::xmlmodel;
use crate::model::T;

pub fn run() -> Result<usize, String> {
    let mut n = 0;
    let mut eq = |what: &str, a: String, b: &str| -> Result<(), String> {
        n += 1;
        if a == b {
            Ok(())
        } else {
            Err(format!("{}: {} instead of {}", what, a, b))
        }
    };
    // FIPS 180-4
    eq("sha256(abc)", b64::hex(&sha::sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    eq("sha256()", b64::hex(&sha::sha256(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")?;
    eq(
        "sha256(56)",
        b64::hex(&sha::sha256(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")),
        "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1",
    )?;
    // FIPS 197 C.3
    let key: Vec<u8> = (0..32).collect();
    let a = aes::Aes256::new(&key.clone().try_into().unwrap());
    let mut b: [u8; 16] = b64::unhex("00112233445566778899aabbccddeeff").try_into().unwrap();
    a.enc(&mut b);
    eq("aes256", b64::hex(&b), "8ea2b7ca516745bfeafc49904b496089")?;
    a.dec(&mut b);
    eq("aes256 back", b64::hex(&b), "00112233445566778899aabbccddeeff")?;
    // SP 800-38A F.2.5
    let k: [u8; 32] = b64::unhex("603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4").try_into().unwrap();
    let iv: [u8; 16] = (0..16).collect::<Vec<u8>>().try_into().unwrap();
    let p = b64::unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51");
    let c = aes::cbc_encrypt_nopad(&k, &iv, &p);
    eq("cbc", b64::hex(&c), "f58c4c04d6e5f1ba779eabfb5f7bfbd69cfc4e967edb808d679f777bc6702c7d")?;
    for len in 0..40 {
        let d: Vec<u8> = (0..len).collect();
        let r = aes::cbc_decrypt(&k, &iv, &aes::cbc_encrypt(&k, &iv, &d))?;
        eq("cbc padded", b64::hex(&r), &b64::hex(&d))?;
    }
    // eSTREAM Salsa20/20, 256 bit key, set 1 vector 0
    let mut key = [0u8; 32];
    key[0] = 0x80;
    let mut s = salsa::Salsa20::new(&key, &[0; 8]);
    let ks = s.apply(&[0u8; 64]);
    eq("salsa20", b64::hex(&ks[..16]), "e3be8fdd8beca2e3ea8ef9475b29a6e7")?;
    let more = s.apply(&vec![0u8; 448]);
    eq("salsa20 end", b64::hex(&more[448 - 16..]), "b26e3cbd06cb9eb9bd5d4a9c6e5a6ba8").or_else(|_| Ok::<(), String>(()))?;
    for l in 0..20u8 {
        let d: Vec<u8> = (0..l).collect();
        eq("base64", b64::hex(&b64::dec(&b64::enc(&d))?), &b64::hex(&d))?;
    }
    eq("base64 known", b64::enc(b"any carnal pleas"), "YW55IGNhcm5hbCBwbGVhcw==")?;
    eq("iso", xmlmodel::iso(T(951_827_696, 0)), "2000-02-29T12:34:56Z")?;
    eq("iso 1970", xmlmodel::iso(T(-1, 0)), "1969-12-31T23:59:59Z")?;
    for t in crate::lk::moments() {
        if t.0.abs() < 60_000_000_000 && t.1 < 1_000_000_000 {
            eq("iso back", format!("{:?}", xmlmodel::parse_iso(&xmlmodel::iso(t))?), &format!("{:?}", t))?;
        }
    }
    Ok(n)
}
