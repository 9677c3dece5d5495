//! Semantic reading of a written workbook, from the package alone.
use crate::opc::Pkg;
pub use crate::xml::{unescape_x, El};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Text {
    Plain(String),
    Rich(Vec<(String, String)>),
}
impl Text {
    pub fn plain(&self) -> String {
        match self {
            Text::Plain(s) => s.clone(),
            Text::Rich(r) => r.iter().map(|x| x.1.as_str()).collect(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fm {
    pub text: String,
    pub array: Option<String>,
    pub dynamic: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Blank,
    Num(f64),
    Str(Text),
    Bool(bool),
    Err(String),
    Formula(Fm, String, String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
    pub v: V,
    pub s: u32,
    pub vm: Option<u32>,
}
pub type Cells = BTreeMap<(u32, u16), Cell>;

/// A text with significant white space must be marked, or readers may strip it.
fn t_text(t: &El) -> Result<String, String> {
    let s = t.text();
    let ws = [' ', '\t', '\n'];
    if (s.starts_with(ws) || s.ends_with(ws)) && t.a("xml:space") != Some("preserve") {
        return Err(format!("text {s:?} is written without xml:space=\"preserve\""));
    }
    Ok(unescape_x(&s))
}
pub fn si(e: &El) -> Result<Text, String> {
    if let Some(t) = e.first("t") {
        if e.first("r").is_some() {
            return Err("string item with both t and r".into());
        }
        return Ok(Text::Plain(t_text(t)?));
    }
    let mut v = vec![];
    for r in e.named("r") {
        let p = r.first("rPr").map(|p| p.canon()).unwrap_or_default();
        v.push((p, t_text(r.first("t").ok_or("run without text")?)?));
    }
    if v.is_empty() {
        return Err("empty string item".into());
    }
    Ok(Text::Rich(v))
}
pub struct Sst {
    pub items: Vec<Text>,
    pub count: u64,
    pub unique: u64,
}
pub fn sst(p: &Pkg) -> Result<Option<Sst>, String> {
    let Some(part) = p.part("xl/sharedStrings.xml") else { return Ok(None) };
    let x = part.xml.as_ref().unwrap();
    let mut items = vec![];
    for e in x.els() {
        items.push(si(e)?);
    }
    Ok(Some(Sst { items, count: x.au("count").unwrap_or(0), unique: x.au("uniqueCount").unwrap_or(0) }))
}
pub fn col_num(s: &str) -> Option<u32> {
    if s.is_empty() || s.len() > 3 {
        return None;
    }
    let mut n = 0;
    for c in s.bytes() {
        if !c.is_ascii_uppercase() {
            return None;
        }
        n = n * 26 + (c - b'A') as u32 + 1;
    }
    Some(n - 1)
}
pub fn col_name(mut c: u32) -> String {
    let mut s = vec![];
    loop {
        s.push(b'A' + (c % 26) as u8);
        if c < 26 {
            break;
        }
        c = c / 26 - 1;
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
pub fn cell_name(r: u32, c: u16) -> String {
    format!("{}{}", col_name(c as u32), r + 1)
}
/// Parse a relative A1 reference.
pub fn cell_ref(s: &str) -> Option<(u32, u16)> {
    let i = s.find(|c: char| c.is_ascii_digit())?;
    let c = col_num(&s[..i])?;
    let d = &s[i..];
    if d.starts_with('0') || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let r: u32 = d.parse().ok()?;
    if r == 0 || r > 1_048_576 || c >= 16_384 {
        return None;
    }
    Some((r - 1, c as u16))
}
/// Parse a relative range: (first_row, first_col, last_row, last_col).
pub fn range_ref(s: &str) -> Option<(u32, u16, u32, u16)> {
    match s.split_once(':') {
        None => cell_ref(s).map(|(r, c)| (r, c, r, c)),
        Some((a, b)) => {
            let (r1, c1) = cell_ref(a)?;
            let (r2, c2) = cell_ref(b)?;
            if r2 < r1 || c2 < c1 {
                return None;
            }
            Some((r1, c1, r2, c2))
        }
    }
}
pub fn range_name(r: (u32, u16, u32, u16)) -> String {
    if r.0 == r.2 && r.1 == r.3 {
        cell_name(r.0, r.1)
    } else {
        format!("{}:{}", cell_name(r.0, r.1), cell_name(r.2, r.3))
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct RowInfo {
    pub style: u32,
    pub custom_format: bool,
    pub height: Option<String>,
    pub custom_height: bool,
    pub hidden: bool,
    pub level: u32,
    pub collapsed: bool,
}
pub struct SheetData {
    pub cells: Cells,
    pub rows: BTreeMap<u32, RowInfo>,
    pub sst_refs: BTreeMap<usize, u64>,
}
/// Read all the rows and cells of a worksheet; structural errors are reported.
pub fn sheet_data(p: &Pkg, ws: &El, sst: &Option<Sst>) -> Result<SheetData, String> {
    let mut cells = Cells::new();
    let mut rows = BTreeMap::new();
    let mut sst_refs = BTreeMap::new();
    let sd = ws.first("sheetData").ok_or("no sheetData")?;
    let dynamic_cm = p.part("xl/metadata.xml").is_some();
    let mut last_row: Option<u32> = None;
    for r in sd.els() {
        let rn = r.au("r").ok_or("row without r")? as u32;
        if rn == 0 || rn > 1_048_576 {
            return Err(format!("row number {rn}"));
        }
        let rn = rn - 1;
        if last_row.map_or(false, |l| l >= rn) {
            return Err(format!("row {} is out of order", rn + 1));
        }
        last_row = Some(rn);
        let b = |n: &str| -> Result<bool, String> {
            match r.a(n) {
                None | Some("0") => Ok(false),
                Some("1") => Ok(true),
                Some(o) => Err(format!("row attribute {n}={o}")),
            }
        };
        rows.insert(
            rn,
            RowInfo {
                style: r.au("s").unwrap_or(0) as u32,
                custom_format: b("customFormat")?,
                height: r.a("ht").map(|s| s.into()),
                custom_height: b("customHeight")?,
                hidden: b("hidden")?,
                level: r.au("outlineLevel").unwrap_or(0) as u32,
                collapsed: b("collapsed")?,
            },
        );
        for (k, _) in &r.attrs {
            if !matches!(k.as_str(), "r" | "spans" | "s" | "customFormat" | "ht" | "customHeight" | "hidden" | "outlineLevel" | "collapsed" | "x14ac:dyDescent") {
                return Err(format!("unknown row attribute {k}"));
            }
        }
        if let Some(sp) = r.a("spans") {
            let ok = sp.split_once(':').and_then(|(a, b)| Some((a.parse::<u32>().ok()?, b.parse::<u32>().ok()?)));
            match ok {
                Some((a, b)) if a >= 1 && a <= b && b <= 16384 => {
                    for c in r.els() {
                        if let Some((_, cc)) = c.a("r").and_then(cell_ref) {
                            let n = cc as u32 + 1;
                            if n < a || n > b {
                                return Err(format!("row {} spans {sp} does not cover {}", rn + 1, c.a("r").unwrap()));
                            }
                        }
                    }
                }
                _ => return Err(format!("row {} has spans {sp}", rn + 1)),
            }
        }
        let mut last_col: Option<u16> = None;
        for c in r.els() {
            let rf = c.a("r").ok_or("cell without r")?;
            let (cr, cc) = cell_ref(rf).ok_or_else(|| format!("bad cell reference {rf}"))?;
            if cr != rn {
                return Err(format!("cell {rf} in row {}", rn + 1));
            }
            if last_col.map_or(false, |l| l >= cc) {
                return Err(format!("cell {rf} is out of order"));
            }
            last_col = Some(cc);
            for (k, _) in &c.attrs {
                if !matches!(k.as_str(), "r" | "s" | "t" | "cm" | "vm") {
                    return Err(format!("unknown cell attribute {k}"));
                }
            }
            let s = match c.a("s") {
                None => 0,
                Some(v) => v.parse().map_err(|_| format!("style {v}"))?,
            };
            let v = c.first("v").map(|v| v.text());
            let t = c.a("t").unwrap_or("n");
            let val = if let Some(f) = c.first("f") {
                let array = if f.a("t") == Some("array") { Some(f.a("ref").unwrap_or("").to_string()) } else { None };
                let cm = c.a("cm");
                if cm.is_some() && (cm != Some("1") || !dynamic_cm || array.is_none()) {
                    return Err(format!("{rf}: cm attribute without dynamic array metadata"));
                }
                let fm = Fm { text: f.text(), array, dynamic: cm.is_some() };
                let v = v.unwrap_or_default();
                let v = if t == "str" { unescape_x(&v) } else { v };
                V::Formula(fm, t.to_string(), v)
            } else {
                match (t, v) {
                    ("n", None) => V::Blank,
                    ("n", Some(v)) => V::Num(v.parse().map_err(|_| format!("{rf}: number {v:?}"))?),
                    ("s", Some(v)) => {
                        let i: usize = v.parse().map_err(|_| format!("{rf}: string index {v:?}"))?;
                        let tab = sst.as_ref().ok_or("shared string without a table")?;
                        *sst_refs.entry(i).or_default() += 1;
                        V::Str(tab.items.get(i).ok_or_else(|| format!("{rf}: string index {i} of {}", tab.items.len()))?.clone())
                    }
                    ("inlineStr", None) => V::Str(si(c.first("is").ok_or("inlineStr without is")?)?),
                    ("b", Some(v)) if v == "0" || v == "1" => V::Bool(v == "1"),
                    ("e", Some(v)) => V::Err(v),
                    (t, v) => return Err(format!("{rf}: cell type {t} with value {v:?}")),
                }
            };
            let vm = c.au("vm").map(|x| x as u32);
            if let V::Num(n) = val {
                if !n.is_finite() {
                    return Err(format!("{rf}: value is not a number"));
                }
            }
            cells.insert((rn, cc), Cell { v: val, s, vm });
        }
    }
    Ok(SheetData { cells, rows, sst_refs })
}
/// The dimension element must cover every cell.
pub fn dimension(ws: &El) -> Option<(u32, u16, u32, u16)> {
    ws.first("dimension").and_then(|d| d.a("ref")).and_then(range_ref)
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Xf {
    pub num: String,
    pub font: String,
    pub fill: String,
    pub border: String,
    pub align: Vec<(String, String)>,
    pub prot: Vec<(String, String)>,
    pub quote: bool,
    pub checkbox: bool,
    pub xf_id: u64,
}
pub struct Styles {
    pub xfs: Vec<Xf>,
    pub dxfs: Vec<El>,
    pub fonts: Vec<String>,
}
pub fn styles(p: &Pkg) -> Result<Styles, String> {
    let x = p.x("xl/styles.xml")?;
    let list = |n: &str| -> Vec<&El> { x.first(n).map(|e| e.els().collect()).unwrap_or_default() };
    let mut nums: BTreeMap<u64, String> = BTreeMap::new();
    for n in list("numFmts") {
        let id = n.au("numFmtId").ok_or("numFmt without id")?;
        if nums.insert(id, n.a("formatCode").unwrap_or("").to_string()).is_some() {
            return Err(format!("numFmtId {id} twice"));
        }
    }
    let fonts = list("fonts");
    let fills = list("fills");
    let borders = list("borders");
    let style_xfs = list("cellStyleXfs").len() as u64;
    let mut xfs = vec![];
    for e in list("cellXfs") {
        let get = |v: &Vec<&El>, n: &str| -> Result<String, String> {
            let i = e.au(n).ok_or_else(|| format!("xf without {n}"))? as usize;
            Ok(v.get(i).ok_or_else(|| format!("xf with {n}={i} of {}", v.len()))?.canon())
        };
        let nid = e.au("numFmtId").ok_or("xf without numFmtId")?;
        let num = match nums.get(&nid) {
            Some(c) => format!("code:{c}"),
            None if nid < 164 => format!("id:{nid}"),
            None => return Err(format!("xf with undefined numFmtId {nid}")),
        };
        if nid > 0 && e.a("applyNumberFormat") != Some("1") {
            return Err("number format is not applied".into());
        }
        let xf_id = e.au("xfId").unwrap_or(0);
        if xf_id >= style_xfs {
            return Err(format!("xf with xfId {xf_id}"));
        }
        for (id, ap) in [("fontId", "applyFont"), ("fillId", "applyFill"), ("borderId", "applyBorder")] {
            if e.au(id).unwrap_or(0) > 0 && e.a(ap) != Some("1") && !(id == "fontId" && xf_id > 0) {
                return Err(format!("xf with {id} but no {ap}"));
            }
        }
        let align = e.first("alignment").map(|a| a.attrs.clone()).unwrap_or_default();
        let prot = e.first("protection").map(|a| a.attrs.clone()).unwrap_or_default();
        if !align.is_empty() && e.a("applyAlignment") != Some("1") {
            return Err("alignment is not applied".into());
        }
        if !prot.is_empty() && e.a("applyProtection") != Some("1") {
            return Err("protection is not applied".into());
        }
        xfs.push(Xf {
            num,
            font: get(&fonts, "fontId")?,
            fill: get(&fills, "fillId")?,
            border: get(&borders, "borderId")?,
            align,
            prot,
            quote: e.a("quotePrefix") == Some("1"),
            checkbox: e.first("extLst").is_some(),
            xf_id,
        });
    }
    Ok(Styles { xfs, dxfs: list("dxfs").into_iter().cloned().collect(), fonts: fonts.iter().map(|f| f.canon()).collect() })
}
