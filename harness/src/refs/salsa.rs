//! Salsa20/20 with a 256-bit key (Bernstein's specification), as a byte stream.
pub const KEEPASS_NONCE: [u8; 8] = [0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a];

pub struct Salsa20 {
    key: [u8; 32],
    nonce: [u8; 8],
    ctr: u64,
    buf: [u8; 64],
    pos: usize,
    pub used: u64,
}

impl Salsa20 {
    pub fn new(key: &[u8; 32], nonce: &[u8; 8]) -> Salsa20 {
        Salsa20 { key: *key, nonce: *nonce, ctr: 0, buf: [0; 64], pos: 64, used: 0 }
    }

    fn refill(&mut self) {
        let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let k = &self.key;
        let s = b"expand 32-byte k";
        let c = self.ctr.to_le_bytes();
        let st: [u32; 16] = [
            w(&s[0..]), w(&k[0..]), w(&k[4..]), w(&k[8..]), w(&k[12..]), w(&s[4..]),
            w(&self.nonce[0..]), w(&self.nonce[4..]), w(&c[0..]), w(&c[4..]), w(&s[8..]),
            w(&k[16..]), w(&k[20..]), w(&k[24..]), w(&k[28..]), w(&s[12..]),
        ];
        let mut x = st;
        fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
            x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
            x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
            x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
            x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
        }
        for _ in 0..10 {
            qr(&mut x, 0, 4, 8, 12);
            qr(&mut x, 5, 9, 13, 1);
            qr(&mut x, 10, 14, 2, 6);
            qr(&mut x, 15, 3, 7, 11);
            qr(&mut x, 0, 1, 2, 3);
            qr(&mut x, 5, 6, 7, 4);
            qr(&mut x, 10, 11, 8, 9);
            qr(&mut x, 15, 12, 13, 14);
        }
        for i in 0..16 {
            self.buf[i * 4..i * 4 + 4].copy_from_slice(&x[i].wrapping_add(st[i]).to_le_bytes());
        }
        self.ctr += 1;
        self.pos = 0;
    }

    pub fn apply(&mut self, data: &[u8]) -> Vec<u8> {
        self.used += data.len() as u64;
        data.iter()
            .map(|b| {
                if self.pos == 64 {
                    self.refill();
                }
                let r = b ^ self.buf[self.pos];
                self.pos += 1;
                r
            })
            .collect()
    }
}
