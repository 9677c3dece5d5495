//! Shared helpers: saving, opening, and compact views of formats.
pub use crate::book::{self, cell_name, range_name, sheet_data, Cell, Cells, Fm, RowInfo, SheetData, Styles, Text, Xf, V};
pub use crate::engine::{fact, guarded, perm, seq, seqs, subsets, Dig, Rec, Run};
pub use crate::opc::{self, Pkg};
pub use crate::schema;
pub use crate::xml::El;
pub use rust_xlsxwriter::*;

pub type R = Result<(), String>;
pub fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|x| x.to_string())
}
pub fn save(wb: &mut Workbook) -> Result<Vec<u8>, String> {
    wb.save_to_buffer().map_err(|x| format!("save failed: {x}"))
}
/// Save and open without the closure check.
pub fn pkg(wb: &mut Workbook) -> Result<Pkg, String> {
    Pkg::open(&save(wb)?)
}
/// Save, open, and check package closure and element order.
pub fn closed(wb: &mut Workbook) -> Result<Pkg, String> {
    let p = pkg(wb)?;
    opc::check(&p)?;
    schema::check(&p)?;
    Ok(p)
}
/// Everything read back of one worksheet.
pub struct Sheet<'a> {
    pub x: &'a El,
    pub data: SheetData,
}
pub fn sheet<'a>(p: &'a Pkg, n: usize) -> Result<Sheet<'a>, String> {
    let sst = book::sst(p)?;
    let x = p.sheet(n)?;
    let data = sheet_data(p, x, &sst)?;
    Ok(Sheet { x, data })
}
/// A compact tag of a resolved cell format: which of the marker properties it has.
pub fn tag(x: &Xf) -> String {
    let mut s = String::new();
    for (k, t) in [("<b>", "B"), ("<i>", "I"), ("<strike>", "S")] {
        if x.font.contains(k) {
            s.push_str(t);
        }
    }
    if x.font.contains("<u>") || x.font.contains("<u ") {
        s.push('U');
    }
    if let Some(i) = x.font.find("<color rgb=\"") {
        s.push_str(&format!("[font {}]", &x.font[i + 12..i + 20]));
    }
    if x.font.contains("<color theme=\"10\"") {
        s.push_str("[link]");
    }
    if x.num != "id:0" {
        s.push_str(&format!("[{}]", x.num));
    }
    if x.fill != "<fill><patternFill patternType=\"none\"></></>" {
        s.push_str(&format!("[fill {}]", x.fill));
    }
    if x.border != "<border><left></><right></><top></><bottom></><diagonal></></>" {
        s.push_str(&format!("[border {}]", x.border));
    }
    if !x.align.is_empty() {
        s.push_str(&format!("[align {:?}]", x.align));
    }
    if !x.prot.is_empty() {
        s.push_str(&format!("[prot {:?}]", x.prot));
    }
    if x.quote {
        s.push_str("[quote]");
    }
    if x.checkbox {
        s.push_str("[checkbox]");
    }
    s
}
pub fn xf<'a>(st: &'a Styles, i: u32) -> Result<&'a Xf, String> {
    st.xfs.get(i as usize).ok_or_else(|| format!("style index {i} of {}", st.xfs.len()))
}
/// Cells as (value text, format tag), without unformatted blanks.
pub fn view(p: &Pkg, n: usize) -> Result<std::collections::BTreeMap<(u32, u16), (String, String)>, String> {
    let st = book::styles(p)?;
    let s = sheet(p, n)?;
    let mut m = std::collections::BTreeMap::new();
    for (k, c) in &s.data.cells {
        let t = tag(xf(&st, c.s)?);
        let v = vtext(&c.v);
        if v == "blank" && t.is_empty() {
            continue;
        }
        m.insert(*k, (v, t));
    }
    let d = book::dimension(s.x).ok_or("no dimension")?;
    for k in s.data.cells.keys() {
        if k.0 < d.0 || k.0 > d.2 || k.1 < d.1 || k.1 > d.3 {
            return Err(format!("cell {} is outside the dimension {}", cell_name(k.0, k.1), range_name(d)));
        }
    }
    Ok(m)
}
pub fn vtext(v: &V) -> String {
    match v {
        V::Blank => "blank".into(),
        V::Num(n) => format!("num {n:?}"),
        V::Str(Text::Plain(s)) => format!("str {s:?}"),
        V::Str(Text::Rich(r)) => format!("rich {r:?}"),
        V::Bool(b) => format!("bool {b}"),
        V::Err(s) => format!("err {s}"),
        V::Formula(f, t, r) => format!("{}{} {:?} type {t} result {r:?}", if f.dynamic { "dynamic " } else { "" }, f.array.as_ref().map(|a| format!("array {a}")).unwrap_or("formula".into()), f.text),
    }
}
/// First difference of two ordered maps, as text.
pub fn diff<K: Ord + std::fmt::Debug, W: PartialEq + std::fmt::Debug>(want: &std::collections::BTreeMap<K, W>, got: &std::collections::BTreeMap<K, W>) -> R {
    for (k, w) in want {
        match got.get(k) {
            None => return Err(format!("{k:?}: expected {w:?}, found nothing")),
            Some(g) if g != w => return Err(format!("{k:?}: expected {w:?}, found {g:?}")),
            _ => {}
        }
    }
    for (k, g) in got {
        if !want.contains_key(k) {
            return Err(format!("{k:?}: unexpected {g:?}"));
        }
    }
    Ok(())
}
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> R {
    if want != got {
        return Err(format!("{what}: expected {want:?}, found {got:?}"));
    }
    Ok(())
}
