//! C34: the size and resolution of an image are read as the file states them.
use super::util::*;
use super::Prop;
use crate::engine::{guarded, seq, seqs, Rec, Run};
use rust_xlsxwriter::*;

type R = Result<(), String>;

pub const PROP: Prop = Prop {
    id: "C34",
    level: "model_checking",
    rule: "for every sequence of chunks or segments the size, resolution and kind of the image are those an independent reading of the formats gives; no truncated or altered file panics, and an image that is accepted has a size and can be saved unchanged",
    assumes: &["a field beyond the end of a truncated file may be read as zero or refused"],
    run,
};

#[derive(Clone, Debug, PartialEq)]
struct Info {
    kind: &'static str,
    w: f64,
    h: f64,
    dpi: (f64, f64),
}
fn read(bytes: &[u8]) -> Result<Result<Image, XlsxError>, String> {
    guarded(|| Image::new_from_buffer(bytes)).map_err(|p| format!("panic: {p}"))
}
/// The image is read as expected and saved unchanged.
fn check(bytes: &[u8], want: &Info, rec: &mut Rec) -> R {
    rec.trace();
    rec.state(bytes);
    let got = read(bytes)?;
    if want.w == 0.0 || want.h == 0.0 {
        return match got {
            Err(XlsxError::ImageDimensionError) => Ok(()),
            x => Err(format!("an image without size gave {:?}", x.map(|_| ()))),
        };
    }
    let img = e(got)?;
    let got = Info { kind: want.kind, w: img.width(), h: img.height(), dpi: (img.width_dpi(), img.height_dpi()) };
    eq("image", want, &got)?;
    place(bytes, &img, want.kind)
}
fn place(bytes: &[u8], img: &Image, kind: &str) -> R {
    // Larger objects do not fit a worksheet, which is not the subject here.
    let px = |x: f64, dpi: f64| x * 96.0 / dpi <= 100_000.0;
    if !px(img.width(), img.width_dpi()) || !px(img.height(), img.height_dpi()) {
        return Ok(());
    }
    let mut wb = Workbook::new();
    let w = wb.add_worksheet();
    e(w.insert_image(1, 1, img))?;
    let p = closed(&mut wb)?;
    let m: Vec<_> = p.parts.iter().filter(|p| p.name.starts_with("xl/media/")).collect();
    eq("media parts", 1, m.len())?;
    eq("name", format!("xl/media/image1.{kind}"), m[0].name.clone())?;
    if m[0].data != bytes {
        return Err("the image was changed".into());
    }
    // The place of the image is a proper one.
    let d = p.part("xl/drawings/drawing1.xml").and_then(|d| d.xml.as_ref()).ok_or("no drawing")?;
    for (part, n) in [("xdr:col", 16384), ("xdr:row", 1048576)] {
        for x in d.find_all(part) {
            let v: i64 = x.text().parse().map_err(|_| format!("{part} {}", x.text()))?;
            if v < 0 || v > n {
                return Err(format!("{part} is {v}"));
            }
        }
    }
    Ok(())
}
fn be32(x: u32) -> [u8; 4] {
    x.to_be_bytes()
}
fn chunk(name: &str, data: &[u8]) -> Vec<u8> {
    let mut v = be32(data.len() as u32).to_vec();
    v.extend(name.as_bytes());
    v.extend(data);
    v.extend(be32(0x1234_5678));
    v
}
/// (bytes, what it says)
type Piece = (String, Vec<u8>, fn(&mut Info, &[u8]));
fn png_pieces() -> Vec<Piece> {
    let mut v: Vec<Piece> = vec![];
    for (w, h) in [(1u32, 1u32), (300, 7), (65_536, 256), (0, 5)] {
        let mut d = [be32(w), be32(h)].concat();
        d.extend([8, 2, 0, 0, 0]);
        v.push((format!("IHDR {w}x{h}"), chunk("IHDR", &d), |i, b| {
            i.w = f64::from(u32::from_be_bytes(b[8..12].try_into().unwrap()));
            i.h = f64::from(u32::from_be_bytes(b[12..16].try_into().unwrap()));
        }));
    }
    for (x, y, u) in [(3780u32, 3780u32, 1u8), (11811, 2835, 1), (3780, 3780, 0), (0, 3780, 1), (3780, 0, 1)] {
        let mut d = [be32(x), be32(y)].concat();
        d.push(u);
        v.push((format!("pHYs {x} {y} {u}"), chunk("pHYs", &d), |i, b| {
            let x = u32::from_be_bytes(b[8..12].try_into().unwrap());
            let y = u32::from_be_bytes(b[12..16].try_into().unwrap());
            if b[16] == 1 && x > 0 && y > 0 {
                i.dpi = (f64::from(x) * 0.0254, f64::from(y) * 0.0254);
            }
        }));
    }
    v.push(("tEXt with IHDR inside".into(), chunk("tEXt", b"a\0....IHDR\0\0\0\x09\0\0\0\x09pHYs\0\0\0\x01\0\0\0\x01\x01"), |_, _| {}));
    v.push(("IDAT".into(), chunk("IDAT", &[0xFF; 11]), |_, _| {}));
    v.push(("empty chunk".into(), chunk("tIME", &[]), |_, _| {}));
    v
}
fn seg(marker: u16, data: &[u8]) -> Vec<u8> {
    let mut v = marker.to_be_bytes().to_vec();
    v.extend((data.len() as u16 + 2).to_be_bytes());
    v.extend(data);
    v
}
fn jpg_pieces() -> Vec<Piece> {
    let mut v: Vec<Piece> = vec![];
    for m in 0xFFC0..=0xFFCFu16 {
        let mut d = vec![8];
        d.extend((m - 0xFF00).to_be_bytes());
        d.extend((m - 0xFEFF + 256).to_be_bytes());
        d.extend([1, 1, 0x11, 0]);
        v.push((format!("{m:04X}"), seg(m, &d), |i, b| {
            if ![0xC4, 0xC8, 0xCC].contains(&b[1]) {
                i.h = f64::from(u16::from_be_bytes(b[5..7].try_into().unwrap()));
                i.w = f64::from(u16::from_be_bytes(b[7..9].try_into().unwrap()));
            }
        }));
    }
    for (u, x, y) in [(0u8, 1u16, 1u16), (1, 300, 72), (1, 0, 0), (1, 1, 1), (2, 100, 50), (0, 300, 300)] {
        let mut d = b"JFIF\0\x01\x02".to_vec();
        d.push(u);
        d.extend(x.to_be_bytes());
        d.extend(y.to_be_bytes());
        d.extend([0, 0]);
        v.push((format!("APP0 {u} {x} {y}"), seg(0xFFE0, &d), |i, b| {
            let x = f64::from(u16::from_be_bytes(b[12..14].try_into().unwrap()));
            let y = f64::from(u16::from_be_bytes(b[14..16].try_into().unwrap()));
            let k = match b[11] {
                1 => 1.0,
                2 => 2.54,
                _ => return,
            };
            let of = |x: f64| if x * k == 0.0 || x * k == 1.0 { 96.0 } else { x * k };
            i.dpi = (of(x), of(y));
        }));
    }
    v.push(("APP1".into(), seg(0xFFE1, b"Exif\0\0\xFF\xC0\0\x11\x08\0\x09\0\x09"), |_, _| {}));
    v.push(("DQT".into(), seg(0xFFDB, &[7; 65]), |_, _| {}));
    v.push(("empty segment".into(), seg(0xFFFE, &[]), |_, _| {}));
    v
}
fn assemble(jpg: bool, s: &[usize], v: &[Piece], cut: bool) -> (Vec<u8>, Info) {
    let mut i = Info { kind: if jpg { "jpeg" } else { "png" }, w: 0.0, h: 0.0, dpi: (96.0, 96.0) };
    let mut b = if jpg { vec![0xFF, 0xD8] } else { b"\x89PNG\r\n\x1a\n".to_vec() };
    for k in s {
        (v[*k].2)(&mut i, &v[*k].1);
        b.extend(&v[*k].1);
    }
    // What follows the end is not read.
    if !cut {
        if jpg {
            b.extend(seg(0xFFDA, &[1, 1, 0, 0, 0x3F, 0]));
            b.extend([0xFF, 0xC0, 0, 0x11, 8, 0, 9, 0, 9, 1, 1, 1, 1, 1, 1]);
        } else {
            b.extend(chunk("IEND", &[]));
            b.extend(chunk("IHDR", &[0, 0, 0, 9, 0, 0, 0, 9, 8, 2, 0, 0, 0]));
        }
    }
    (b, i)
}
fn gif(ver: &[u8], w: u16, h: u16) -> Vec<u8> {
    let mut b = ver.to_vec();
    b.extend(w.to_le_bytes());
    b.extend(h.to_le_bytes());
    b.extend([0, 0, 0, 0x3B]);
    b
}
fn bmp(w: u32, h: i32) -> Vec<u8> {
    let mut b = b"BM".to_vec();
    b.extend([70, 0, 0, 0, 0, 0, 0, 0, 54, 0, 0, 0, 40, 0, 0, 0]);
    b.extend(w.to_le_bytes());
    b.extend(h.to_le_bytes());
    b.extend([1, 0, 24, 0]);
    b.extend([0; 24]);
    b
}
/// Sound images of all kinds, to be cut and altered.
fn sound() -> Vec<(&'static str, Vec<u8>)> {
    let (p, j) = (png_pieces(), jpg_pieces());
    vec![
        ("png", assemble(false, &[1, 4, 9, 10], &p, false).0),
        ("jpeg", assemble(true, &[17, 22, 23, 0], &j, false).0),
        ("gif", gif(b"GIF89a", 300, 7)),
        ("bmp", bmp(300, 7)),
        ("empty", vec![]),
    ]
}
/// A file that is cut or altered.
fn hurt(name: &str, b: &[u8], rec: &mut Rec) -> R {
    rec.trace();
    rec.state(b);
    match read(b)? {
        Err(XlsxError::UnknownImageType | XlsxError::ImageDimensionError) => Ok(()),
        Err(x) => Err(format!("error {x}")),
        Ok(img) => {
            if !(img.width() > 0.0 && img.height() > 0.0 && img.width_dpi() > 0.0 && img.height_dpi() > 0.0) {
                return Err(format!("{name} has size {} x {}, resolution {} x {}", img.width(), img.height(), img.width_dpi(), img.height_dpi()));
            }
            let kind = match b {
                [_, b'P', b'N', b'G', ..] => "png",
                [0xFF, 0xD8, ..] => "jpeg",
                [b'B', b'M', ..] => "bmp",
                _ => "gif",
            };
            place(b, &img, kind)
        }
    }
}
fn run(run: &mut Run) {
    let (p, j) = (png_pieces(), jpg_pieces());
    for (name, jpg, v, d) in [("png", false, &p, run.pick(3, 5)), ("jpeg", true, &j, run.pick(3, 4))] {
        let n = v.len() as u64;
        run.explore(name, seqs(n, d) * 2, |i, rec| {
            let s = seq(i / 2, n);
            rec.describe(|| format!("{:?}, end {}", s.iter().map(|k| v[*k].0.as_str()).collect::<Vec<_>>(), i % 2 == 0));
            rec.steps(s.len());
            let (b, info) = assemble(jpg, &s, v, i % 2 == 1);
            check(&b, &info, rec)
        });
    }
    let dims = [0u32, 1, 2, 255, 256, 65_535, 65_536, 1 << 24, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];
    let k = dims.len() as u64;
    run.explore("sizes", k * k * 5, |i, rec| {
        let (w, h, f) = (dims[(i % k) as usize], dims[(i / k % k) as usize], i / k / k);
        rec.describe(|| format!("format {f} {w} x {h}"));
        let info = |kind, w: u32, h: u32| Info { kind, w: f64::from(w), h: f64::from(h), dpi: (96.0, 96.0) };
        let (b, want) = match f {
            0 | 1 => (gif(if f == 0 { b"GIF87a" } else { b"GIF89a" }, w as u16, h as u16), info("gif", u32::from(w as u16), u32::from(h as u16))),
            2 if w < 0x8000_0000 => (bmp(w, h as i32), info("bmp", w, (h as i32).unsigned_abs())),
            3 if w < 0x8000_0000 && h < 0x8000_0000 => {
                let mut d = [be32(w), be32(h)].concat();
                d.extend([8, 2, 0, 0, 0]);
                let mut b = b"\x89PNG\r\n\x1a\n".to_vec();
                b.extend(chunk("IHDR", &d));
                (b, info("png", w, h))
            }
            4 => {
                let mut d = vec![8];
                d.extend((h as u16).to_be_bytes());
                d.extend((w as u16).to_be_bytes());
                let mut b = vec![0xFF, 0xD8];
                b.extend(seg(0xFFC2, &d));
                (b, info("jpeg", u32::from(w as u16), u32::from(h as u16)))
            }
            _ => return Ok(()),
        };
        check(&b, &want, rec)
    });
    let all = sound();
    let cuts: Vec<(usize, usize)> = all.iter().enumerate().flat_map(|(k, x)| (0..=x.1.len()).map(move |n| (k, n))).collect();
    run.explore("cut", cuts.len() as u64, |i, rec| {
        let (k, n) = cuts[i as usize];
        rec.describe(|| format!("{} cut to {n} bytes", all[k].0));
        hurt(all[k].0, &all[k].1[..n], rec)
    });
    // One byte, or two in the thorough check, with another value.
    let values: Vec<u8> = if run.pick(true, false) { vec![0, 1, 2, 0x7F, 0x80, 0xC0, 0xDA, 0xE0, 0xFE, 0xFF] } else { (0..=255).collect() };
    let bytes: Vec<(usize, usize)> = cuts.iter().copied().filter(|(k, n)| *n < all[*k].1.len()).collect();
    let nv = values.len() as u64;
    run.explore("one byte", bytes.len() as u64 * nv, |i, rec| {
        let ((k, n), v) = (bytes[(i / nv) as usize], values[(i % nv) as usize]);
        rec.describe(|| format!("{} with byte {n} = {v:#x}", all[k].0));
        let mut b = all[k].1.clone();
        b[n] = v;
        hurt(all[k].0, &b, rec)
    });
    let few = [0u8, 2, 0x80, 0xFF];
    let pairs: Vec<(usize, usize, usize)> = bytes.iter().flat_map(|&(k, n)| bytes.iter().filter(move |x| x.0 == k && x.1 > n).map(move |x| (k, n, x.1))).collect();
    let pairs: Vec<_> = if run.pick(true, false) { pairs.into_iter().filter(|x| x.2 - x.1 < 6).collect() } else { pairs };
    run.explore("two bytes", pairs.len() as u64 * 16, |i, rec| {
        let ((k, n, m), v) = (pairs[(i / 16) as usize], (i % 16) as usize);
        rec.describe(|| format!("{} with byte {n} = {:#x} and byte {m} = {:#x}", all[k].0, few[v % 4], few[v / 4]));
        let mut b = all[k].1.clone();
        b[n] = few[v % 4];
        b[m] = few[v / 4];
        hurt(all[k].0, &b, rec)
    });
    // All short files over the bytes that start an image.
    let abc = [0u8, 0xFF, 0xD8, b'B', b'M', b'P', b'N', b'G', b'I', b'F', b'8'];
    let d = run.pick(5, 6);
    run.explore("short", seqs(abc.len() as u64, d), |i, rec| {
        let b: Vec<u8> = seq(i, abc.len() as u64).iter().map(|k| abc[*k]).collect();
        rec.describe(|| format!("{b:?}"));
        hurt("short file", &b, rec)
    });
}
