//! C01: the saved cells are exactly those of the last write to each cell.
use super::util::*;
use super::Prop;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C01",
    level: "model_checking",
    rule: "Model: a map from cell to (value, format), a map of row and one of column formats, transformed by each operation. All operation sequences up to the depth are applied to the real Worksheet, saved, and the cells read back from the package are compared with the model state.",
    assumes: &["cells are observed by an independent reader of the written package", "3 cells in a 2x2 block plus a distant one stand for all positions"],
    run,
};
#[derive(Clone, Copy, Debug)]
enum Op {
    Num(f64, u8),
    Str(&'static str, u8),
    Bool(bool, u8),
    Formula(u8),
    Dyn(u8),
    DynAuto(u8),
    Array(u8),
    Blank(u8),
    Date(u8),
    Rich(u8),
    Url(u8),
    Checkbox(u8),
    Clear,
    ClearFmt,
    SetFmt(u8),
    Range(u8),
    Result,
    ResultDefault,
    Row(u8),
    Col(u8),
    RowData,
    ColData,
    Matrix,
    GenericNone,
}
use Op::*;
fn f(n: u8) -> Format {
    match n {
        1 => Format::new().set_bold(),
        2 => Format::new().set_italic(),
        4 => Format::new().set_font_strikethrough(),
        _ => Format::new(),
    }
}
fn ftag(n: u8) -> &'static str {
    ["", "B", "I", "BI", "S", "BS", "IS", "BIS"][n as usize]
}
type C = (u32, u16);
/// Format of a model cell: bits of the marker formats or a special one.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum F {
    Bits(u8),
    Link,
    Check(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    cells: BTreeMap<C, (String, F)>,
    rows: BTreeMap<u32, u8>,
    cols: BTreeMap<u16, u8>,
    default: String,
    formulas: BTreeMap<C, (String, String)>,
}
impl M {
    fn put(&mut self, c: C, v: String, fm: u8) {
        let fm = self.eff(c, fm);
        self.cells.insert(c, (v, F::Bits(fm)));
        self.formulas.remove(&c);
    }
    fn eff(&self, c: C, fm: u8) -> u8 {
        // An unformatted write where both a row and a column format exist takes the combination.
        if fm == 0 {
            if let (Some(r), Some(k)) = (self.rows.get(&c.0), self.cols.get(&c.1)) {
                return r | k;
            }
        }
        fm
    }
    fn formula(&mut self, c: C, head: String, fm: u8, result: Option<&str>) {
        let r = result.map(|s| s.to_string()).unwrap_or(self.default.clone());
        self.put(c, String::new(), fm);
        self.formulas.insert(c, (head, r));
    }
    fn view(&self) -> BTreeMap<C, (String, String)> {
        let mut m = BTreeMap::new();
        for (c, (v, fm)) in &self.cells {
            let v = match self.formulas.get(c) {
                Some((h, r)) => {
                    let t = if r.parse::<f64>().is_ok() {
                        "n"
                    } else if r == "TRUE" || r == "FALSE" {
                        "b"
                    } else if r.starts_with('#') {
                        "e"
                    } else {
                        "str"
                    };
                    let r = if r == "TRUE" { "1" } else if r == "FALSE" { "0" } else { r };
                    format!("{h} type {t} result {r:?}")
                }
                None => v.clone(),
            };
            let t = match fm {
                F::Bits(0) => ftag(*self.rows.get(&c.0).or(self.cols.get(&c.1)).unwrap_or(&0)).to_string(),
                F::Bits(b) => ftag(*b).to_string(),
                F::Link => "U[link]".to_string(),
                F::Check(b) => format!("{}[checkbox]", ftag(*b)),
            };
            m.insert(*c, (v, t));
        }
        self.visible(m)
    }
    /// A blank cell that only repeats the format of its row or column shows nothing of its own.
    fn visible(&self, m: BTreeMap<C, (String, String)>) -> BTreeMap<C, (String, String)> {
        m.into_iter().filter(|(c, (v, t))| v != "blank" || t != ftag(*self.rows.get(&c.0).or(self.cols.get(&c.1)).unwrap_or(&0))).collect()
    }
}
fn opt(ws: &mut Worksheet, c: C, v: impl IntoExcelData, fm: u8) -> R {
    if fm == 0 {
        e(ws.write(c.0, c.1, v)).map(|_| ())
    } else {
        e(ws.write_with_format(c.0, c.1, v, &f(fm))).map(|_| ())
    }
}
/// Apply to the model and the real worksheet.
fn apply(m: &mut M, ws: &mut Worksheet, op: Op, c: C, typed: bool) -> R {
    let (r, k) = c;
    match op {
        Num(n, fm) => {
            m.put(c, format!("num {n:?}"), fm);
            match (typed, fm) {
                (false, _) => opt(ws, c, n, fm)?,
                (true, 0) => e(ws.write_number(r, k, n)).map(|_| ())?,
                (true, _) => e(ws.write_number_with_format(r, k, n, &f(fm))).map(|_| ())?,
            }
        }
        Str(s, fm) => {
            if !s.is_empty() {
                m.put(c, format!("str {s:?}"), fm);
            } else if fm != 0 {
                m.put(c, "blank".into(), fm);
            }
            match (typed, fm) {
                (false, _) => opt(ws, c, s, fm)?,
                (true, 0) => e(ws.write_string(r, k, s)).map(|_| ())?,
                (true, _) => e(ws.write_string_with_format(r, k, s, &f(fm))).map(|_| ())?,
            }
        }
        Bool(b, fm) => {
            m.put(c, format!("bool {b}"), fm);
            match (typed, fm) {
                (false, _) => opt(ws, c, b, fm)?,
                (true, 0) => e(ws.write_boolean(r, k, b)).map(|_| ())?,
                (true, _) => e(ws.write_boolean_with_format(r, k, b, &f(fm))).map(|_| ())?,
            }
        }
        Formula(fm) => {
            let res = if fm == 2 { Some("x<y") } else { None };
            m.formula(c, "formula \"A9+1\"".into(), fm, res);
            let mut fo = rust_xlsxwriter::Formula::new("=A9+1");
            if let Some(x) = res {
                fo = fo.set_result(x);
            }
            match (typed, fm) {
                (false, _) => opt(ws, c, fo, fm)?,
                (true, 0) => e(ws.write_formula(r, k, fo)).map(|_| ())?,
                (true, _) => e(ws.write_formula_with_format(r, k, fo, &f(fm))).map(|_| ())?,
            }
        }
        Dyn(fm) => {
            m.formula(c, format!("dynamic array {} \"A9*2\"", cell_name(r, k)), fm, None);
            if fm == 0 {
                e(ws.write_dynamic_formula(r, k, "=A9*2"))?;
            } else {
                e(ws.write_dynamic_formula_with_format(r, k, "=A9*2", &f(fm)))?;
            }
        }
        DynAuto(fm) => {
            m.formula(c, format!("dynamic array {} \"_xlfn.UNIQUE(A9)\"", cell_name(r, k)), fm, None);
            if fm == 0 {
                e(ws.write_formula(r, k, "=UNIQUE(A9)"))?;
            } else {
                e(ws.write_formula_with_format(r, k, "=UNIQUE(A9)", &f(fm)))?;
            }
        }
        Array(fm) => {
            m.formula(c, format!("array {} \"A8:A9\"", range_name((r, k, r + 1, k + 1))), fm, None);
            for (a, b) in [(0, 1), (1, 0), (1, 1)] {
                m.put((r + a, k + b), "num 0.0".into(), fm);
            }
            if fm == 0 {
                e(ws.write_array_formula(r, k, r + 1, k + 1, "{=A8:A9}"))?;
            } else {
                e(ws.write_array_formula_with_format(r, k, r + 1, k + 1, "{=A8:A9}", &f(fm)))?;
            }
        }
        Blank(fm) => {
            m.put(c, "blank".into(), fm);
            e(ws.write_blank(r, k, &f(fm)))?;
        }
        Date(fm) => {
            m.put(c, "num 45000.25".into(), fm);
            let d = e(ExcelDateTime::from_serial_datetime(45000.25))?;
            match (typed, fm) {
                (false, 0) => return e(ws.write_datetime(r, k, &d)).map(|_| ()),
                (false, _) => opt(ws, c, d, fm)?,
                (true, 0) => e(ws.write_datetime(r, k, &d)).map(|_| ())?,
                (true, _) => e(ws.write_datetime_with_format(r, k, &d, &f(fm))).map(|_| ())?,
            }
        }
        Rich(fm) => {
            m.put(c, "RICH".into(), fm);
            let (d, b) = (Format::new(), Format::new().set_bold());
            let segs = [(&d, "ab"), (&b, "cd")];
            if fm == 0 {
                e(ws.write_rich_string(r, k, &segs))?;
            } else {
                e(ws.write_rich_string_with_format(r, k, &segs, &f(fm)))?;
            }
        }
        Url(fm) => {
            m.put(c, "str \"http://a.b/\"".into(), if fm == 0 { 1 } else { fm });
            if fm == 0 {
                m.cells.get_mut(&c).unwrap().1 = F::Link;
            }
            let u = "http://a.b/";
            if fm == 0 {
                e(ws.write_url(r, k, u))?;
            } else {
                e(ws.write_url_with_format(r, k, u, &f(fm)))?;
            }
        }
        Checkbox(fm) => {
            m.put(c, "bool true".into(), 1);
            m.cells.get_mut(&c).unwrap().1 = F::Check(fm);
            if fm == 0 {
                e(ws.insert_checkbox(r, k, true))?;
            } else {
                e(ws.insert_checkbox_with_format(r, k, true, &f(fm)))?;
            }
        }
        Clear => {
            m.cells.remove(&c);
            m.formulas.remove(&c);
            ws.clear_cell(r, k);
        }
        ClearFmt => {
            if let Some(x) = m.cells.get_mut(&c) {
                x.1 = F::Bits(0);
            }
            ws.clear_cell_format(r, k);
        }
        SetFmt(fm) => {
            m.cells.entry(c).or_insert(("blank".into(), F::Bits(0))).1 = F::Bits(fm);
            e(ws.set_cell_format(r, k, &f(fm)))?;
        }
        Range(fm) => {
            for a in 0..2 {
                for b in 0..2 {
                    m.cells.entry((r + a, k + b)).or_insert(("blank".into(), F::Bits(0))).1 = F::Bits(fm);
                }
            }
            e(ws.set_range_format(r, k, r + 1, k + 1, &f(fm)))?;
        }
        Op::Result => {
            if let Some(x) = m.formulas.get_mut(&c) {
                x.1 = "TRUE".into();
            }
            ws.set_formula_result(r, k, "TRUE");
        }
        ResultDefault => {
            m.default = "#N/A".into();
            ws.set_formula_result_default("#N/A");
        }
        Row(fm) => {
            m.rows.insert(r, fm);
            e(ws.set_row_format(r, &f(fm)))?;
        }
        Col(fm) => {
            m.cols.insert(k, fm);
            e(ws.set_column_format(k, &f(fm)))?;
        }
        RowData => {
            for (i, n) in [7.0, 8.0].iter().enumerate() {
                m.put((r, k + i as u16), format!("num {n:?}"), 0);
            }
            e(ws.write_row(r, k, [7, 8]))?;
        }
        ColData => {
            for (i, n) in ["p", "q"].iter().enumerate() {
                m.put((r + i as u32, k), format!("str {n:?}"), 2);
            }
            e(ws.write_column_with_format(r, k, ["p", "q"], &f(2)))?;
        }
        Matrix => {
            for (i, n) in [1.5, 2.5, 3.5, 4.5].iter().enumerate() {
                m.put((r + (i as u32) / 2, k + (i as u16) % 2), format!("num {n:?}"), 0);
            }
            e(ws.write_row_matrix(r, k, [[1.5, 2.5], [3.5, 4.5]]))?;
        }
        GenericNone => {
            // An empty optional writes nothing without a format, a blank with one.
            m.put(c, "blank".into(), 1);
            opt(ws, c, None::<f64>, 1)?;
        }
    }
    Ok(())
}
fn check(ops: &[(Op, C)], typed: bool, rec: &mut Rec) -> R {
    let mut m = M { cells: BTreeMap::new(), rows: BTreeMap::new(), cols: BTreeMap::new(), default: "0".into(), formulas: BTreeMap::new() };
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    rec.describe(|| ops.iter().map(|(o, c)| format!("{o:?}@{}", cell_name(c.0, c.1))).collect::<Vec<_>>().join(" "));
    rec.state(&m);
    for (o, c) in ops {
        apply(&mut m, ws, *o, *c, typed)?;
        rec.state(&m);
        rec.step();
    }
    let p = pkg(&mut wb)?;
    let got = m.visible(view(&p, 0)?);
    let mut want = m.view();
    for v in want.values_mut() {
        if v.0 == "RICH" {
            v.0 = r#"rich [("", "ab"), ("<rPr><b></><sz val=\"11\"></><color theme=\"1\"></><rFont val=\"Calibri\"></><family val=\"2\"></><scheme val=\"minor\"></></>", "cd")]"#.into();
        }
    }
    rec.trace();
    rec.seen(&format!("{got:?}"));
    diff(&want, &got)
}
fn run(run: &mut Run) {
    // All sequences over the full alphabet at overlapping cells.
    let full = [
        Num(1.5, 0), Num(-2.0, 1), Str("a&b", 0), Str("t", 2), Str("", 0), Str("", 1), Bool(true, 0), Bool(false, 1), Formula(0), Formula(1), Formula(2), Dyn(0), Dyn(1), DynAuto(0), DynAuto(2), Array(0), Array(1), Blank(0), Blank(1),
        Date(0), Date(2), Rich(0), Rich(2), Url(0), Url(1), Checkbox(0), Checkbox(1), Clear, ClearFmt, SetFmt(1), SetFmt(0), Range(2), Op::Result, ResultDefault, Row(1), Row(2), Col(2), Col(4), RowData, ColData, Matrix, GenericNone,
    ];
    let at: [C; 3] = [(1, 1), (1, 2), (2, 1)];
    let mut alpha: Vec<(Op, C)> = vec![];
    for o in full {
        alpha.push((o, at[0]));
        if !matches!(o, ResultDefault) {
            alpha.push((o, at[1]));
        }
        if matches!(o, Num(_, 0) | Clear | Array(1) | Row(1) | Blank(0) | SetFmt(1) | Matrix) {
            alpha.push((o, at[2]));
        }
    }
    let k = alpha.len() as u64;
    let d = 2;
    run.explore("all-ops", seqs(k, d), |i, rec| {
        let s: Vec<(Op, C)> = seq(i, k).into_iter().map(|j| alpha[j]).collect();
        check(&s, i % 2 == 1, rec)
    });
    run.explore("all-ops over row and column formats", seqs(k, d), |i, rec| {
        let mut s = vec![(Row(1), at[0]), (Col(2), at[0]), (Col(4), at[1])];
        if i % 3 == 1 {
            s.remove(0);
        }
        s.extend(seq(i, k).into_iter().map(|j| alpha[j]));
        check(&s, i % 2 == 0, rec)
    });
    // Deeper: a reduced alphabet with one representative of each storage path.
    let small = [Num(3.0, 0), Str("s", 1), Str("", 2), Formula(2), Array(0), Blank(1), Clear, ClearFmt, SetFmt(2), Op::Result, Row(1), Col(2), Rich(0), Range(1)];
    let mut beta: Vec<(Op, C)> = vec![];
    for o in small {
        beta.push((o, at[0]));
        if matches!(o, Num(..) | Clear | SetFmt(_) | Blank(_)) {
            beta.push((o, (1, 2)));
        }
    }
    let k = beta.len() as u64;
    let d = run.pick(3, 4);
    run.explore("deep", seqs(k, d), |i, rec| {
        let s: Vec<(Op, C)> = seq(i, k).into_iter().map(|j| beta[j]).collect();
        check(&s, i % 2 == 0, rec)
    });
    run.explore("deep over row and column formats", seqs(k, d), |i, rec| {
        let mut s = vec![(Row(1), at[0]), (Col(2), at[0]), (Col(4), at[1])];
        s.extend(seq(i, k).into_iter().map(|j| beta[j]));
        check(&s, i % 2 == 0, rec)
    });
    // Positions: each value kind at every boundary coordinate, in both write orders with a second cell.
    let rows = [0, 1, 15, 16, 17, 31, 32, 1023, 1024, 65535, 65536, 999_999, 1_048_575u32];
    let cols = [0, 1, 24, 25, 26, 27, 255, 256, 701, 702, 703, 16_382, 16_383u16];
    let kinds = [Num(1.0, 0), Str("p", 1), Bool(true, 0), Formula(1), Blank(1), Url(0), Dyn(0), Rich(0), Date(1), Checkbox(0)];
    run.explore("positions", (rows.len() * cols.len() * kinds.len() * 2) as u64, |i, rec| {
        let mut g = Dig(i);
        let (r, c, kd, ord) = (*g.of(&rows), *g.of(&cols), *g.of(&kinds), g.flag());
        // Every row inside the dimension costs time in the library, so pair with a near cell.
        let near = (if r > 0 { r - 1 } else { 5 }, if c > 0 { c - 1 } else { 3 });
        let mut s = vec![(kd, (r, c)), (Num(2.0, 0), near)];
        if ord {
            s.reverse();
        }
        check(&s, ord, rec)
    });
}
