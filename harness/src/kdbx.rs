//! Independent KDBX 3.1 container codec with full control over every byte.
use crate::refs::{aes, salsa, sha};
use std::io::{Read, Write};

pub const SIG1: [u8; 4] = [0x03, 0xd9, 0xa2, 0x9a];
pub const SIG2: [u8; 4] = [0x67, 0xfb, 0x4b, 0xb5];
pub const SIG2_KDB1: [u8; 4] = [0x65, 0xfb, 0x4b, 0xb5];
pub const AES_ID: [u8; 16] = [
    0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff,
];

pub fn transform(ckey: &[u8; 32], seed: &[u8; 32], rounds: u64) -> [u8; 32] {
    let a = aes::Aes256::new(seed);
    let mut l = [0u8; 16];
    let mut r = [0u8; 16];
    l.copy_from_slice(&ckey[..16]);
    r.copy_from_slice(&ckey[16..]);
    for _ in 0..rounds {
        a.enc(&mut l);
        a.enc(&mut r);
    }
    sha::sha256_cat(&[&l, &r])
}

pub fn stream_cipher(psk: &[u8]) -> salsa::Salsa20 {
    salsa::Salsa20::new(&sha::sha256(psk), &salsa::KEEPASS_NONCE)
}

/// Everything that determines a container, apart from the XML.
#[derive(Clone, Debug)]
pub struct Params {
    pub ckey: [u8; 32],
    pub major: u16,
    pub minor: u16,
    pub comment: Option<Vec<u8>>,
    pub gzip: bool,
    pub rounds: u64,
    pub master_seed: [u8; 32],
    pub transform_seed: [u8; 32],
    pub iv: [u8; 16],
    pub psk: [u8; 32],
    pub ssb: [u8; 32],
    pub order: Vec<u8>,
    pub end_data: Vec<u8>,
}

pub const DEFAULT_ORDER: [u8; 10] = [1, 2, 3, 4, 5, 6, 7, 8, 10, 9];

impl Params {
    pub fn new(ckey: [u8; 32]) -> Params {
        let f = |n: u8| {
            let mut b = [0u8; 32];
            for (i, x) in b.iter_mut().enumerate() {
                *x = (i as u8).wrapping_mul(37).wrapping_add(n.wrapping_mul(61)) ^ n;
            }
            b
        };
        let mut iv = [0u8; 16];
        iv.copy_from_slice(&f(3)[..16]);
        Params {
            ckey,
            major: 3,
            minor: 1,
            comment: None,
            gzip: true,
            rounds: 1,
            master_seed: f(1),
            transform_seed: f(2),
            iv,
            psk: f(4),
            ssb: f(5),
            order: DEFAULT_ORDER.to_vec(),
            end_data: b"\r\n\r\n".to_vec(),
        }
    }

    /// Takes over the header settings of a model.
    pub fn version_of(&mut self, m: &crate::model::MDb) {
        self.major = m.version.0;
        self.minor = m.version.1;
        self.comment = m.comment.clone();
        self.rounds = m.rounds;
    }

    pub fn field(&self, id: u8) -> Option<Vec<u8>> {
        Some(match id {
            0 => self.end_data.clone(),
            1 => return self.comment.clone(),
            2 => AES_ID.to_vec(),
            3 => (self.gzip as u32).to_le_bytes().to_vec(),
            4 => self.master_seed.to_vec(),
            5 => self.transform_seed.to_vec(),
            6 => self.rounds.to_le_bytes().to_vec(),
            7 => self.iv.to_vec(),
            8 => self.psk.to_vec(),
            9 => self.ssb.to_vec(),
            10 => 2u32.to_le_bytes().to_vec(),
            _ => return None,
        })
    }

    /// Header fields in order, as (id, data), including the end field.
    pub fn fields(&self) -> Vec<(u8, Vec<u8>)> {
        let mut v: Vec<(u8, Vec<u8>)> = self.order.iter().filter_map(|&i| self.field(i).map(|d| (i, d))).collect();
        v.push((0, self.end_data.clone()));
        v
    }

    pub fn header(&self) -> Vec<u8> {
        header_bytes(self.major, self.minor, &self.fields())
    }

    pub fn master_key(&self) -> [u8; 32] {
        let t = transform(&self.ckey, &self.transform_seed, self.rounds);
        sha::sha256_cat(&[&self.master_seed, &t])
    }

    pub fn salsa(&self) -> salsa::Salsa20 {
        stream_cipher(&self.psk)
    }

    /// header + encrypted (start bytes + stream)
    pub fn seal(&self, stream: &[u8]) -> Vec<u8> {
        self.seal_with(&self.header(), stream)
    }

    pub fn seal_with(&self, header: &[u8], stream: &[u8]) -> Vec<u8> {
        let plain = [&self.ssb[..], stream].concat();
        self.seal_raw(header, &aes::pad(&plain))
    }

    /// header + encryption of exactly these plaintext bytes (a multiple of 16)
    pub fn seal_raw(&self, header: &[u8], padded_plain: &[u8]) -> Vec<u8> {
        let mut out = header.to_vec();
        out.extend(aes::cbc_encrypt_nopad(&self.master_key(), &self.iv, padded_plain));
        out
    }

    /// Ordinary file holding this XML in one block.
    pub fn file(&self, xml: &[u8]) -> Vec<u8> {
        self.seal(&stream(&[self.pack(xml)]))
    }

    pub fn pack(&self, chunk: &[u8]) -> Vec<u8> {
        if self.gzip {
            gzip(chunk)
        } else {
            chunk.to_vec()
        }
    }
}

pub fn header_bytes(major: u16, minor: u16, fields: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut h = Vec::new();
    h.extend(SIG1);
    h.extend(SIG2);
    h.extend(minor.to_le_bytes());
    h.extend(major.to_le_bytes());
    for (id, d) in fields {
        h.push(*id);
        h.extend((d.len() as u16).to_le_bytes());
        h.extend(d);
    }
    h
}

pub fn gzip(d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}

/// gzip with stored (uncompressed) deflate blocks and optional file name field.
pub fn gzip_stored(d: &[u8], name: Option<&str>) -> Vec<u8> {
    let mut v = vec![0x1f, 0x8b, 8, if name.is_some() { 8 } else { 0 }, 0, 0, 0, 0, 0, 255];
    if let Some(n) = name {
        v.extend(n.as_bytes());
        v.push(0);
    }
    let mut chunks: Vec<&[u8]> = d.chunks(1000).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    let n = chunks.len();
    for (i, c) in chunks.into_iter().enumerate() {
        v.push((i + 1 == n) as u8);
        v.extend((c.len() as u16).to_le_bytes());
        v.extend((!(c.len() as u16)).to_le_bytes());
        v.extend(c);
    }
    let mut crc = !0u32;
    for b in d {
        crc ^= *b as u32;
        for _ in 0..8 {
            crc = (crc >> 1) ^ (if crc & 1 == 1 { 0xedb88320 } else { 0 });
        }
    }
    v.extend((!crc).to_le_bytes());
    v.extend((d.len() as u32).to_le_bytes());
    v
}

/// gzip data of several members.
pub fn gzip_members(d: &[u8], n: usize) -> Vec<u8> {
    d.chunks(n.max(1)).enumerate().flat_map(|(i, c)| if i % 2 == 0 { gzip(c) } else { gzip_stored(c, None) }).chain(if d.is_empty() { gzip(d) } else { vec![] }).collect()
}

/// gzip with every optional header field.
pub fn gzip_full(d: &[u8]) -> Vec<u8> {
    let g = gzip_stored(d, None);
    let mut v = g[..10].to_vec();
    v[3] = 2 | 4 | 8 | 16;
    v.extend([5, 0, b'A', b'p', 1, 0, 0x1f]);
    v.extend(b"a name\0and a comment\0");
    let mut crc = !0u32;
    for b in &v {
        crc ^= *b as u32;
        for _ in 0..8 {
            crc = (crc >> 1) ^ (if crc & 1 == 1 { 0xedb88320 } else { 0 });
        }
    }
    v.extend((!crc as u16).to_le_bytes());
    v.extend(&g[10..]);
    v
}

pub fn gunzip(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut g = flate2::bufread::GzDecoder::new(d);
    g.read_to_end(&mut out).map_err(|e| format!("gzip: {}", e))?;
    if !g.into_inner().is_empty() {
        return Err("bytes after the gzip member".into());
    }
    Ok(out)
}

pub fn block(id: u32, hash: &[u8; 32], size: u32, data: &[u8]) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    v.extend(hash);
    v.extend(size.to_le_bytes());
    v.extend(data);
    v
}

pub fn good_block(id: u32, data: &[u8]) -> Vec<u8> {
    block(id, &sha::sha256(data), data.len() as u32, data)
}

pub fn final_block(id: u32) -> Vec<u8> {
    block(id, &[0; 32], 0, &[])
}

/// Hashed block stream of these (already compressed) blocks.
pub fn stream(blocks: &[Vec<u8>]) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, b) in blocks.iter().enumerate() {
        v.extend(good_block(i as u32, b));
    }
    v.extend(final_block(blocks.len() as u32));
    v
}

/// A file taken apart by the rules of the format.
#[derive(Debug)]
pub struct Parts {
    pub major: u16,
    pub minor: u16,
    pub fields: Vec<(u8, Vec<u8>)>,
    pub header: Vec<u8>,
    pub params: Params,
    pub blocks: Vec<Vec<u8>>,
    pub xml: Vec<u8>,
}

impl Parts {
    pub fn field(&self, id: u8) -> Option<&[u8]> {
        self.fields.iter().find(|f| f.0 == id).map(|f| &f.1[..])
    }
}

pub fn parse_header(file: &[u8]) -> Result<(u16, u16, Vec<(u8, Vec<u8>)>, usize), String> {
    let take = |pos: usize, n: usize| file.get(pos..pos + n).ok_or_else(|| format!("header ends at {}", pos));
    if take(0, 4)? != SIG1 || take(4, 4)? != SIG2 {
        return Err("wrong signature".into());
    }
    let minor = u16::from_le_bytes(take(8, 2)?.try_into().unwrap());
    let major = u16::from_le_bytes(take(10, 2)?.try_into().unwrap());
    let mut pos = 12;
    let mut fields: Vec<(u8, Vec<u8>)> = vec![];
    loop {
        let id = take(pos, 1)?[0];
        let n = u16::from_le_bytes(take(pos + 1, 2)?.try_into().unwrap()) as usize;
        let d = take(pos + 3, n)?.to_vec();
        pos += 3 + n;
        if fields.iter().any(|f| f.0 == id) {
            return Err(format!("header field {} twice", id));
        }
        fields.push((id, d));
        if id == 0 {
            break;
        }
    }
    Ok((major, minor, fields, pos))
}

/// Decodes a file completely and strictly.
pub fn open(file: &[u8], ckey: &[u8; 32]) -> Result<Parts, String> {
    let (major, minor, fields, pos) = parse_header(file)?;
    let get = |id: u8, n: usize| -> Result<Vec<u8>, String> {
        let f = fields.iter().find(|f| f.0 == id).ok_or_else(|| format!("header field {} missing", id))?;
        if f.1.len() != n {
            return Err(format!("header field {} has size {}", id, f.1.len()));
        }
        Ok(f.1.clone())
    };
    if get(2, 16)? != AES_ID {
        return Err("cipher id".into());
    }
    let gz = match get(3, 4)?[..] {
        [0, 0, 0, 0] => false,
        [1, 0, 0, 0] => true,
        _ => return Err("compression id".into()),
    };
    if get(10, 4)? != [2, 0, 0, 0] {
        return Err("stream cipher id".into());
    }
    let a32 = |v: Vec<u8>| -> [u8; 32] { v.try_into().unwrap() };
    for f in &fields {
        if f.0 > 10 {
            return Err(format!("unknown header field {}", f.0));
        }
    }
    let params = Params {
        ckey: *ckey,
        major,
        minor,
        comment: fields.iter().find(|f| f.0 == 1).map(|f| f.1.clone()),
        gzip: gz,
        rounds: u64::from_le_bytes(get(6, 8)?.try_into().unwrap()),
        master_seed: a32(get(4, 32)?),
        transform_seed: a32(get(5, 32)?),
        iv: get(7, 16)?.try_into().unwrap(),
        psk: a32(get(8, 32)?),
        ssb: a32(get(9, 32)?),
        order: fields.iter().map(|f| f.0).filter(|&i| i != 0).collect(),
        end_data: fields.last().unwrap().1.clone(),
    };
    let plain = aes::cbc_decrypt(&params.master_key(), &params.iv, &file[pos..])?;
    if plain.len() < 32 || plain[..32] != params.ssb {
        return Err("start bytes do not match".into());
    }
    let mut p = 32;
    let mut blocks = vec![];
    let mut xml = vec![];
    loop {
        let take = |pos: usize, n: usize| plain.get(pos..pos + n).ok_or_else(|| format!("block stream ends at {}", pos));
        let id = u32::from_le_bytes(take(p, 4)?.try_into().unwrap());
        let hash = take(p + 4, 32)?.to_vec();
        let size = u32::from_le_bytes(take(p + 36, 4)?.try_into().unwrap()) as usize;
        let data = take(p + 40, size)?.to_vec();
        p += 40 + size;
        if id as usize != blocks.len() {
            return Err(format!("block number {}", id));
        }
        if size == 0 {
            if hash != [0; 32] {
                return Err("final block hash".into());
            }
            break;
        }
        if hash != sha::sha256(&data) {
            return Err("block hash".into());
        }
        xml.extend_from_slice(&data);
        blocks.push(data);
    }
    if p != plain.len() {
        return Err(format!("{} bytes after the final block", plain.len() - p));
    }
    let xml = if gz {
        // the standard compresses the document as one gzip stream laid into blocks; a stream per
        // block is only the same thing when there is one block
        gunzip(&xml)?
    } else {
        xml
    };
    Ok(Parts { major, minor, header: file[..pos].to_vec(), fields, params, blocks, xml })
}
