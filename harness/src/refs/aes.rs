//! AES-256 (FIPS 197), ECB block, CBC and PKCS#7.
use std::sync::OnceLock;

struct Tables {
    sbox: [u8; 256],
    inv: [u8; 256],
    m: [[u8; 256]; 4], // multiplication by 9, 11, 13, 14
}

fn xt(b: u8) -> u8 {
    (b << 1) ^ (if b & 0x80 != 0 { 0x1b } else { 0 })
}

fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0u8; 256];
        let mut inv = [0u8; 256];
        for i in 0..256usize {
            // multiplicative inverse by search, then the affine map
            let a = i as u8;
            let x = if a == 0 { 0 } else { (1..=255u8).find(|&y| mul(a, y) == 1).unwrap() };
            let s = x ^ x.rotate_left(1) ^ x.rotate_left(2) ^ x.rotate_left(3) ^ x.rotate_left(4) ^ 0x63;
            sbox[i] = s;
            inv[s as usize] = a;
        }
        let mut m = [[0u8; 256]; 4];
        for (k, f) in [9u8, 11, 13, 14].iter().enumerate() {
            for i in 0..256 {
                m[k][i] = mul(i as u8, *f);
            }
        }
        Tables { sbox, inv, m }
    })
}

pub struct Aes256 {
    rk: [[u8; 16]; 15],
}

impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Aes256 {
        let t = tables();
        let mut w = [[0u8; 4]; 60];
        for i in 0..8 {
            w[i].copy_from_slice(&key[i * 4..i * 4 + 4]);
        }
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut x = w[i - 1];
            if i % 8 == 0 {
                x = [t.sbox[x[1] as usize] ^ rcon, t.sbox[x[2] as usize], t.sbox[x[3] as usize], t.sbox[x[0] as usize]];
                rcon = xt(rcon);
            } else if i % 8 == 4 {
                for b in x.iter_mut() {
                    *b = t.sbox[*b as usize];
                }
            }
            for j in 0..4 {
                w[i][j] = w[i - 8][j] ^ x[j];
            }
        }
        let mut rk = [[0u8; 16]; 15];
        for r in 0..15 {
            for c in 0..4 {
                rk[r][c * 4..c * 4 + 4].copy_from_slice(&w[r * 4 + c]);
            }
        }
        Aes256 { rk }
    }

    pub fn enc(&self, b: &mut [u8; 16]) {
        let t = tables();
        for i in 0..16 {
            b[i] ^= self.rk[0][i];
        }
        for r in 1..15 {
            let mut s = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    s[c * 4 + row] = t.sbox[b[((c + row) % 4) * 4 + row] as usize];
                }
            }
            if r != 14 {
                for c in 0..4 {
                    let a = [s[c * 4], s[c * 4 + 1], s[c * 4 + 2], s[c * 4 + 3]];
                    let all = a[0] ^ a[1] ^ a[2] ^ a[3];
                    for k in 0..4 {
                        s[c * 4 + k] = a[k] ^ all ^ xt(a[k] ^ a[(k + 1) % 4]);
                    }
                }
            }
            for i in 0..16 {
                b[i] = s[i] ^ self.rk[r][i];
            }
        }
    }

    pub fn dec(&self, b: &mut [u8; 16]) {
        let t = tables();
        for r in (1..15).rev() {
            for i in 0..16 {
                b[i] ^= self.rk[r][i];
            }
            if r != 14 {
                for c in 0..4 {
                    let a = [b[c * 4] as usize, b[c * 4 + 1] as usize, b[c * 4 + 2] as usize, b[c * 4 + 3] as usize];
                    for k in 0..4 {
                        b[c * 4 + k] = t.m[3][a[k]] ^ t.m[1][a[(k + 1) % 4]] ^ t.m[2][a[(k + 2) % 4]] ^ t.m[0][a[(k + 3) % 4]];
                    }
                }
            }
            let mut s = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    s[((c + row) % 4) * 4 + row] = t.inv[b[c * 4 + row] as usize];
                }
            }
            *b = s;
        }
        for i in 0..16 {
            b[i] ^= self.rk[0][i];
        }
    }
}

pub fn cbc_encrypt_nopad(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    assert!(data.len() % 16 == 0);
    let a = Aes256::new(key);
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks_exact(16) {
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = c[i] ^ prev[i];
        }
        a.enc(&mut b);
        prev = b;
        out.extend_from_slice(&b);
    }
    out
}

pub fn pad(data: &[u8]) -> Vec<u8> {
    let n = 16 - data.len() % 16;
    let mut v = data.to_vec();
    v.extend(std::iter::repeat(n as u8).take(n));
    v
}

pub fn cbc_encrypt(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    cbc_encrypt_nopad(key, iv, &pad(data))
}

pub fn cbc_decrypt_nopad(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Result<Vec<u8>, String> {
    if data.len() % 16 != 0 {
        return Err(format!("ciphertext length {} not a multiple of 16", data.len()));
    }
    let a = Aes256::new(key);
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks_exact(16) {
        let mut b = [0u8; 16];
        b.copy_from_slice(c);
        let next = b;
        a.dec(&mut b);
        for i in 0..16 {
            out.push(b[i] ^ prev[i]);
        }
        prev = next;
    }
    Ok(out)
}

pub fn cbc_decrypt(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = cbc_decrypt_nopad(key, iv, data)?;
    let n = *out.last().ok_or("empty ciphertext")? as usize;
    if n == 0 || n > 16 || out[out.len() - n..].iter().any(|&b| b as usize != n) {
        return Err("bad PKCS#7 padding".into());
    }
    out.truncate(out.len() - n);
    Ok(out)
}
