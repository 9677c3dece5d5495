//! A strict reader of zip archives: local headers, central directory, sizes and CRCs must agree.
use std::io::Read;
pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
    pub method: u16,
}
fn u16le(b: &[u8], i: usize) -> Result<usize, String> {
    b.get(i..i + 2).map(|x| u16::from_le_bytes([x[0], x[1]]) as usize).ok_or_else(|| "zip: truncated".into())
}
fn u32le(b: &[u8], i: usize) -> Result<usize, String> {
    b.get(i..i + 4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize).ok_or_else(|| "zip: truncated".into())
}
/// (uncompressed, compressed) size of a header, looking in its zip64 extra field if needed.
fn sizes(b: &[u8], at: usize, extra: usize, len: usize) -> Result<(usize, usize), String> {
    let (c, u) = (u32le(b, at)?, u32le(b, at + 4)?);
    if c != 0xffff_ffff && u != 0xffff_ffff {
        return Ok((u, c));
    }
    let mut p = extra;
    while p + 4 <= extra + len {
        let (id, n) = (u16le(b, p)?, u16le(b, p + 2)?);
        if id == 1 {
            let mut q = p + 4;
            let mut next = |v: usize| -> Result<usize, String> {
                if v != 0xffff_ffff {
                    return Ok(v);
                }
                let r = u32le(b, q)?;
                q += 8;
                if q > p + 4 + n {
                    return Err("zip: short zip64 field".into());
                }
                Ok(r)
            };
            let u = next(u)?;
            let c = next(c)?;
            return Ok((u, c));
        }
        p += 4 + n;
    }
    Err("zip: zip64 size without zip64 field".into())
}
pub fn read(b: &[u8]) -> Result<Vec<Entry>, String> {
    if b.len() < 22 {
        return Err(format!("zip: only {} bytes", b.len()));
    }
    let eocd = b.len() - 22;
    if u32le(b, eocd)? != 0x06054b50 {
        return Err("zip: no end of central directory record at the end of the file".into());
    }
    let n = u16le(b, eocd + 10)?;
    let cd_size = u32le(b, eocd + 12)?;
    let cd_off = u32le(b, eocd + 16)?;
    if cd_off + cd_size != eocd || u16le(b, eocd + 8)? != n {
        return Err("zip: central directory does not end at the end record".into());
    }
    let mut out = vec![];
    let mut p = cd_off;
    let mut expect_local = 0;
    for _ in 0..n {
        if u32le(b, p)? != 0x02014b50 {
            return Err("zip: bad central header".into());
        }
        let method = u16le(b, p + 10)?;
        let crc = u32le(b, p + 16)?;
        let nl = u16le(b, p + 28)?;
        let el = u16le(b, p + 30)?;
        let cl = u16le(b, p + 32)?;
        let (usize_, csize) = sizes(b, p + 20, p + 46 + nl, el)?;
        let off = u32le(b, p + 42)?;
        let name = b.get(p + 46..p + 46 + nl).ok_or("zip: truncated")?;
        p += 46 + nl + el + cl;
        if off != expect_local {
            return Err(format!("zip: local header at {off}, expected {expect_local}"));
        }
        if u32le(b, off)? != 0x04034b50 {
            return Err("zip: bad local header".into());
        }
        let flags = u16le(b, off + 6)?;
        if flags & 8 != 0 {
            return Err("zip: streaming data descriptor".into());
        }
        let lnl = u16le(b, off + 26)?;
        let lel = u16le(b, off + 28)?;
        if b.get(off + 30..off + 30 + lnl) != Some(name) {
            return Err("zip: local and central names differ".into());
        }
        if u16le(b, off + 8)? != method || u32le(b, off + 14)? != crc {
            return Err("zip: local and central headers differ".into());
        }
        // Sizes may be in a zip64 extra field for large files.
        let (lus, lcs) = sizes(b, off + 18, off + 30 + lnl, lel)?;
        if lcs != csize || lus != usize_ {
            return Err("zip: local and central sizes differ".into());
        }
        let st = off + 30 + lnl + lel;
        let raw = b.get(st..st + csize).ok_or("zip: truncated data")?;
        expect_local = st + csize;
        let data = match method {
            0 => raw.to_vec(),
            8 => {
                let mut v = Vec::with_capacity(usize_);
                let mut d = flate2::read::DeflateDecoder::new(raw);
                d.read_to_end(&mut v).map_err(|e| format!("zip: inflate: {e}"))?;
                if d.total_in() as usize != csize {
                    return Err("zip: trailing deflate data".into());
                }
                v
            }
            m => return Err(format!("zip: method {m}")),
        };
        if data.len() != usize_ {
            return Err("zip: uncompressed size differs".into());
        }
        if crc32fast::hash(&data) as usize != crc {
            return Err("zip: bad CRC".into());
        }
        let name = String::from_utf8(name.to_vec()).map_err(|_| "zip: name not UTF-8")?;
        out.push(Entry { name, data, method: method as u16 });
    }
    if p != eocd || expect_local != cd_off {
        return Err("zip: gaps between the sections".into());
    }
    Ok(out)
}
