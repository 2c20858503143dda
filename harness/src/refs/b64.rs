//! Base64 (RFC 4648, strict) and hex.
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn enc(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 4 / 3 + 4);
    for c in d.chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let n = (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32;
        s.push(A[(n >> 18) as usize & 63] as char);
        s.push(A[(n >> 12) as usize & 63] as char);
        s.push(if c.len() > 1 { A[(n >> 6) as usize & 63] as char } else { '=' });
        s.push(if c.len() > 2 { A[n as usize & 63] as char } else { '=' });
    }
    s
}

pub fn dec(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return Err(format!("base64 length {}", b.len()));
    }
    let mut out = Vec::with_capacity(b.len() / 4 * 3);
    let nq = b.len() / 4;
    for (qi, q) in b.chunks_exact(4).enumerate() {
        let pads = if qi + 1 == nq { q.iter().rev().take_while(|&&c| c == b'=').count() } else { 0 };
        if pads > 2 {
            return Err("base64 padding".into());
        }
        let mut n = 0u32;
        for (i, &c) in q.iter().enumerate() {
            let v = if i >= 4 - pads {
                0
            } else {
                A.iter().position(|&a| a == c).ok_or_else(|| format!("base64 character {:#x}", c))? as u32
            };
            n = n << 6 | v;
        }
        if pads == 2 && n & 0xffff != 0 || pads == 1 && n & 0xff != 0 {
            return Err("base64 trailing bits".into());
        }
        out.push((n >> 16) as u8);
        if pads < 2 {
            out.push((n >> 8) as u8);
        }
        if pads < 1 {
            out.push(n as u8);
        }
    }
    Ok(out)
}

pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
