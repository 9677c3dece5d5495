//! C20 and C33: sizes, formats, visibility and outline levels of rows and columns.
use super::util::*;
use super::Prop;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C20",
    level: "model_checking",
    rule: "Model: for each row and column the size, format and visibility set so far, the default height and the hiding of unused rows. All operation sequences up to the depth are applied to the real worksheet and the size, style and visibility of every row and column as Excel would read them are compared; every size of a boundary list and every pixel size is checked alone and against the object anchors that depend on it.",
    assumes: &["column widths are converted with the formula of ECMA-376 18.3.1.13 for a digit width of 7 pixels"],
    run,
};
pub const OUTLINE: Prop = Prop {
    id: "C33",
    level: "model_checking",
    rule: "Model: the outline level, visibility and collapse mark of each row and column. All sequences of grouping calls over nested, overlapping, crossing and invalid ranges up to the depth, and repeated grouping to beyond the level limit, are applied to the real worksheet and compared with the rows, columns and the outline levels announced in the sheet header.",
    assumes: &[],
    run: outline,
};
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    H(u32, f64),
    Hpx(u32, u16),
    RFmt(u32, u8),
    RHide(u32),
    RShow(u32),
    Def(f64),
    Unused(bool),
    W(u16, f64),
    Wpx(u16, u16),
    Auto(u16, u16),
    CFmt(u16, u8),
    CHide(u16),
    RangeW(u16, u16, f64),
    RangePx(u16, u16, u16),
    RangeFmt(u16, u16, u8),
    RangeHide(u16, u16),
    Num(u32, u16),
    GR(u32, u32, bool),
    GC(u16, u16, bool),
    Above(bool),
    Left(bool),
}
use Op::*;
fn fm(n: u8) -> Format {
    match n {
        1 => Format::new().set_bold(),
        2 => Format::new().set_italic(),
        _ => Format::new(),
    }
}
fn ft(n: u8) -> &'static str {
    ["", "B", "I"][n as usize]
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Line {
    size: Option<u64>,
    auto: bool,
    fmt: u8,
    hidden: bool,
    level: u8,
    collapsed: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct M {
    rows: BTreeMap<u32, Line>,
    cols: BTreeMap<u16, Line>,
    data: std::collections::BTreeSet<(u32, u16)>,
    def: u64,
    unused: bool,
    above: bool,
    left: bool,
}
const RMAX: u32 = 1_048_576;
const CMAX: u16 = 16_384;
fn px_width(px: u16) -> f64 {
    if px < 12 {
        px as f64 / 12.0
    } else {
        (px as f64 - 5.0) / 7.0
    }
}
impl M {
    fn new() -> M {
        M { def: 15f64.to_bits(), ..M::default() }
    }
    fn row(&mut self, r: u32) -> Result<&mut Line, ()> {
        if r >= RMAX {
            return Err(());
        }
        Ok(self.rows.entry(r).or_default())
    }
    fn col(&mut self, c: u16) -> Result<&mut Line, ()> {
        if c >= CMAX {
            return Err(());
        }
        Ok(self.cols.entry(c).or_default())
    }
    fn width(&mut self, c: u16, w: f64, auto: bool) -> Result<(), ()> {
        let l = self.col(c)?;
        if w == 0.0 {
            l.hidden = true;
        } else if auto && !l.auto && l.size.is_some_and(|s| f64::from_bits(s) >= w) {
            // Automatic widths never narrow a width set by the user.
        } else {
            l.size = Some(w.min(255.0).to_bits());
            l.auto = auto;
        }
        Ok(())
    }
    /// The documented effect of a call, or an error and no effect.
    fn step(&mut self, op: Op) -> Result<(), ()> {
        let mut n = self.clone();
        n.try_step(op)?;
        *self = n;
        Ok(())
    }
    fn try_step(&mut self, op: Op) -> Result<(), ()> {
        match op {
            H(r, h) => {
                let l = self.row(r)?;
                if h == 0.0 {
                    l.hidden = true;
                } else {
                    l.size = Some(h.to_bits());
                }
            }
            Hpx(r, px) => return self.try_step(H(r, px as f64 * 0.75)),
            RFmt(r, f) => self.row(r)?.fmt = f,
            RHide(r) => self.row(r)?.hidden = true,
            RShow(r) => {
                if r >= RMAX {
                    return Err(());
                }
                if let Some(l) = self.rows.get_mut(&r) {
                    l.hidden = false;
                }
            }
            Def(h) => {
                if h > 0.0 {
                    self.def = h.to_bits();
                }
            }
            Unused(b) => self.unused = b,
            W(c, w) => self.width(c, w, false)?,
            Wpx(c, p) => self.width(c, px_width(p), false)?,
            Auto(c, p) => self.width(c, px_width(p), true)?,
            CFmt(c, f) => self.col(c)?.fmt = f,
            CHide(c) => self.col(c)?.hidden = true,
            RangeW(a, b, w) => self.range(a, b, |m, c| m.width(c, w, false))?,
            RangePx(a, b, p) => self.range(a, b, |m, c| m.width(c, px_width(p), false))?,
            RangeFmt(a, b, f) => self.range(a, b, |m, c| m.try_step(CFmt(c, f)))?,
            RangeHide(a, b) => self.range(a, b, |m, c| m.try_step(CHide(c)))?,
            Num(r, c) => {
                self.data.insert((r, c));
            }
            GR(a, b, coll) => {
                if a > b || a >= RMAX || b >= RMAX {
                    return Err(());
                }
                if coll {
                    self.row(b + 1)?.collapsed = true;
                }
                for r in a..=b {
                    let l = self.row(r)?;
                    l.level += 1;
                    l.hidden |= coll;
                    if l.level > 7 {
                        return Err(());
                    }
                }
            }
            GC(a, b, coll) => {
                if a > b || a >= CMAX || b >= CMAX {
                    return Err(());
                }
                if coll {
                    self.col(b + 1)?.collapsed = true;
                }
                for c in a..=b {
                    let l = self.col(c)?;
                    l.level += 1;
                    l.hidden |= coll;
                    if l.level > 7 {
                        return Err(());
                    }
                }
            }
            Above(b) => self.above = b,
            Left(b) => self.left = b,
        }
        Ok(())
    }
    fn range(&mut self, a: u16, b: u16, f: impl Fn(&mut M, u16) -> Result<(), ()>) -> Result<(), ()> {
        if a > b || b >= CMAX {
            return Err(());
        }
        for c in a..=b {
            f(self, c)?;
        }
        Ok(())
    }
}
fn apply(ws: &mut Worksheet, op: Op) -> Result<(), XlsxError> {
    match op {
        H(r, h) => ws.set_row_height(r, h).map(|_| ()),
        Hpx(r, p) => ws.set_row_height_pixels(r, p).map(|_| ()),
        RFmt(r, f) => ws.set_row_format(r, &fm(f)).map(|_| ()),
        RHide(r) => ws.set_row_hidden(r).map(|_| ()),
        RShow(r) => ws.set_row_unhidden(r).map(|_| ()),
        Def(h) => {
            ws.set_default_row_height(h);
            Ok(())
        }
        Unused(b) => {
            ws.hide_unused_rows(b);
            Ok(())
        }
        W(c, w) => ws.set_column_width(c, w).map(|_| ()),
        Wpx(c, p) => ws.set_column_width_pixels(c, p).map(|_| ()),
        Auto(c, p) => ws.set_column_autofit_width(c, p).map(|_| ()),
        CFmt(c, f) => ws.set_column_format(c, &fm(f)).map(|_| ()),
        CHide(c) => ws.set_column_hidden(c).map(|_| ()),
        RangeW(a, b, w) => ws.set_column_range_width(a, b, w).map(|_| ()),
        RangePx(a, b, p) => ws.set_column_range_width_pixels(a, b, p).map(|_| ()),
        RangeFmt(a, b, f) => ws.set_column_range_format(a, b, &fm(f)).map(|_| ()),
        RangeHide(a, b) => ws.set_column_range_hidden(a, b).map(|_| ()),
        Num(r, c) => ws.write_number(r, c, 7).map(|_| ()),
        GR(a, b, false) => ws.group_rows(a, b).map(|_| ()),
        GR(a, b, true) => ws.group_rows_collapsed(a, b).map(|_| ()),
        GC(a, b, false) => ws.group_columns(a, b).map(|_| ()),
        GC(a, b, true) => ws.group_columns_collapsed(a, b).map(|_| ()),
        Above(b) => {
            ws.group_symbols_above(b);
            Ok(())
        }
        Left(b) => {
            ws.group_symbols_to_left(b);
            Ok(())
        }
    }
}
/// What the size attribute of a column says for a width in characters.
fn col_size(w: f64) -> f64 {
    let px = if w < 1.0 { (w * 12.0).round() } else { (w * 7.0).round() + 5.0 };
    (px / 7.0 * 256.0).floor() / 256.0
}
fn num(e: &El, a: &str) -> Result<Option<f64>, String> {
    e.a(a).map(|v| v.parse::<f64>().map_err(|_| format!("{a}={v:?}"))).transpose()
}
fn check(p: &Pkg, n: usize, m: &M) -> R {
    let st = book::styles(p)?;
    let s = sheet(p, n)?;
    let fp = s.x.first("sheetFormatPr").ok_or("no sheetFormatPr")?;
    let def = num(fp, "defaultRowHeight")?.ok_or("no default height")?;
    eq("default height", f64::from_bits(m.def), def)?;
    eq("custom default height", def != 15.0, fp.a("customHeight") == Some("1"))?;
    eq("unused rows hidden", m.unused, fp.a("zeroHeight") == Some("1"))?;
    let top = |l: Option<u8>| l.filter(|x| *x > 0).map(|x| x.to_string());
    eq("row outline levels", top(m.rows.values().map(|l| l.level).max()), fp.a("outlineLevelRow").map(|x| x.to_string()))?;
    eq("column outline levels", top(m.cols.values().map(|l| l.level).max()), fp.a("outlineLevelCol").map(|x| x.to_string()))?;
    let op = s.x.first("sheetPr").and_then(|x| x.first("outlinePr"));
    eq("summary below", !m.above, op.and_then(|x| x.a("summaryBelow")) != Some("0"))?;
    eq("summary right", !m.left, op.and_then(|x| x.a("summaryRight")) != Some("0"))?;
    // Rows.
    let mut want = BTreeMap::new();
    for (r, l) in &m.rows {
        want.insert(*r, (f64::from_bits(l.size.unwrap_or(m.def)), l.hidden, ft(l.fmt).to_string(), l.level as u32, l.collapsed));
    }
    for (r, _) in &m.data {
        want.entry(*r).or_insert((def, false, String::new(), 0, false));
    }
    let mut got = BTreeMap::new();
    for (r, i) in &s.data.rows {
        let h = match &i.height {
            None => {
                if i.custom_height {
                    return Err(format!("row {} has a custom height but no height", r + 1));
                }
                def
            }
            Some(h) => {
                if !i.custom_height {
                    return Err(format!("row {} has a height that is not marked custom", r + 1));
                }
                h.parse().map_err(|_| format!("height {h:?}"))?
            }
        };
        let t = if i.style > 0 || i.custom_format { tag(xf(&st, i.style)?) } else { String::new() };
        if i.custom_format != (i.style > 0) {
            return Err(format!("row {} has style {} and customFormat {}", r + 1, i.style, i.custom_format));
        }
        got.insert(*r, (h, i.hidden, t, i.level, i.collapsed));
    }
    // A row without any property says nothing, unless unused rows are hidden.
    if !m.unused {
        let plain = (def, false, String::new(), 0, false);
        want.retain(|_, v| *v != plain);
        got.retain(|_, v| *v != plain);
    }
    diff(&want, &got).map_err(|x| format!("row: {x}"))?;
    // Columns.
    let mut want = BTreeMap::new();
    for (c, l) in &m.cols {
        let w = match l.size {
            Some(w) => Some(col_size(f64::from_bits(w))),
            None => Some(col_size(8.43)),
        };
        let custom = w != Some(col_size(8.43));
        let w = if l.hidden && !custom { None } else { w };
        want.insert(*c, (w, custom && !l.hidden, l.auto, l.hidden, ft(l.fmt).to_string(), l.level as u32, l.collapsed));
    }
    let mut got = BTreeMap::new();
    let mut last = 0;
    if let Some(cs) = s.x.first("cols") {
        for c in cs.els() {
            for (k, _) in &c.attrs {
                if !matches!(k.as_str(), "min" | "max" | "width" | "style" | "bestFit" | "hidden" | "customWidth" | "outlineLevel" | "collapsed") {
                    return Err(format!("unknown column attribute {k}"));
                }
            }
            let (a, b) = (c.au("min").ok_or("no min")?, c.au("max").ok_or("no max")?);
            if a <= last || b < a || b > CMAX as u64 {
                return Err(format!("columns {a} to {b} after {last}"));
            }
            last = b;
            let on = |k: &str| c.a(k) == Some("1");
            let w = num(c, "width")?.ok_or("no width")?;
            let hidden = on("hidden");
            let custom = on("customWidth");
            if hidden && !custom {
                return Err("a hidden column has no custom width".into());
            }
            let w = if hidden && (w == 0.0 || w == col_size(8.43)) { None } else { Some(w) };
            let t = match c.a("style") {
                Some(v) => tag(xf(&st, v.parse().map_err(|_| format!("style {v}"))?)?),
                None => String::new(),
            };
            for i in a..=b {
                got.insert(i as u16 - 1, (w, custom && !hidden && w != Some(col_size(8.43)), on("bestFit"), hidden, t.clone(), c.au("outlineLevel").unwrap_or(0) as u32, on("collapsed")));
            }
        }
    }
    let plain = (Some(col_size(8.43)), false, false, false, String::new(), 0, false);
    want.retain(|_, v| *v != plain);
    got.retain(|_, v| *v != plain);
    diff(&want, &got).map_err(|x| format!("column: {x}"))?;
    for (r, c) in &m.data {
        // Cells without a format have the one of their row, or else of their column.
        let f = |l: Option<&Line>| l.map(|l| ft(l.fmt).to_string()).filter(|t| !t.is_empty());
        let want = f(m.rows.get(r)).or(f(m.cols.get(c))).unwrap_or_default();
        let cell = s.data.cells.get(&(*r, *c)).ok_or_else(|| format!("no cell {}", cell_name(*r, *c)))?;
        eq(&format!("format of {}", cell_name(*r, *c)), want, tag(xf(&st, cell.s)?))?;
    }
    eq("cells", m.data.len(), s.data.cells.len())
}
fn replay(s: &[Op], rec: &mut Rec) -> R {
    rec.describe(|| s.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" "));
    let mut m = M::new();
    rec.state(&m);
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    for op in s {
        let want = m.step(*op);
        let got = guarded(|| apply(ws, *op))?;
        if want.is_ok() != got.is_ok() {
            return Err(format!("{op:?}: expected {want:?}, found {got:?}"));
        }
        rec.state(&m);
        rec.step();
    }
    let p = closed(&mut wb)?;
    rec.trace();
    rec.seen(&m);
    check(&p, 0, &m)
}
fn run(run: &mut Run) {
    let ops = vec![
        H(1, 20.0),
        H(1, 15.0),
        H(1, 0.0),
        H(2, 30.75),
        H(40, 20.0),
        Hpx(1, 40),
        Hpx(2, 0),
        RFmt(1, 1),
        RFmt(1, 2),
        RFmt(2, 1),
        RFmt(1, 0),
        RHide(1),
        RHide(2),
        RHide(40),
        RShow(1),
        RShow(2),
        Def(20.0),
        Def(15.0),
        Def(30.75),
        Def(0.0),
        Def(-5.0),
        Unused(true),
        Unused(false),
        W(1, 20.0),
        W(1, 8.43),
        W(1, 0.0),
        W(1, 0.5),
        W(2, 20.0),
        W(3, 20.0),
        W(2, 300.0),
        Wpx(1, 100),
        Wpx(2, 7),
        Wpx(1, 64),
        Wpx(2, 0),
        Auto(1, 100),
        Auto(1, 200),
        Auto(1, 40),
        Auto(2, 100),
        CFmt(1, 1),
        CFmt(1, 2),
        CFmt(2, 1),
        CFmt(3, 1),
        CFmt(1, 0),
        CHide(1),
        CHide(2),
        RangeW(1, 3, 20.0),
        RangeW(0, 2, 8.43),
        RangePx(1, 2, 100),
        RangeFmt(1, 3, 1),
        RangeFmt(2, 4, 2),
        RangeHide(1, 3),
        Num(1, 1),
        Num(2, 3),
        Num(0, 0),
        RangeW(3, 1, 20.0),
        RangeFmt(3, 1, 1),
        RangeHide(3, 1),
        RangePx(2, 1, 100),
    ];
    let k = ops.len() as u64;
    run.explore("call sequences", seqs(k, run.pick(2, 3)), |i, rec| replay(&seq(i, k).iter().map(|j| ops[*j]).collect::<Vec<_>>(), rec));
    // Deeper over the calls that meet at one row or column.
    let rows = [H(1, 20.0), H(1, 15.0), H(1, 0.0), RFmt(1, 1), RHide(1), RShow(1), Def(20.0), Def(15.0), Unused(true), Num(1, 1)];
    let k = rows.len() as u64;
    run.explore("one row", seqs(k, run.pick(4, 5)), |i, rec| replay(&seq(i, k).iter().map(|j| rows[*j]).collect::<Vec<_>>(), rec));
    let cols = [W(1, 20.0), W(1, 8.43), W(1, 0.0), W(2, 20.0), CFmt(1, 1), CHide(1), Auto(1, 150), Auto(1, 40), RangeW(0, 2, 20.0), RangeFmt(1, 2, 1), RangeHide(2, 3)];
    let k = cols.len() as u64;
    run.explore("neighbouring columns", seqs(k, run.pick(4, 5)), |i, rec| replay(&seq(i, k).iter().map(|j| cols[*j]).collect::<Vec<_>>(), rec));
    // Limits: nothing changes when a call is refused.
    let lim = [
        H(RMAX - 1, 20.0),
        H(RMAX, 20.0),
        H(u32::MAX, 0.0),
        RFmt(RMAX, 1),
        RFmt(RMAX - 1, 1),
        RHide(RMAX),
        RShow(RMAX),
        W(CMAX - 1, 20.0),
        W(CMAX, 20.0),
        W(u16::MAX, 0.0),
        CFmt(CMAX, 1),
        CFmt(CMAX - 1, 1),
        CHide(CMAX),
        CHide(CMAX - 1),
        RangeW(CMAX - 2, CMAX, 20.0),
        RangePx(CMAX - 2, CMAX, 100),
        RangeFmt(CMAX - 2, CMAX, 1),
        RangeHide(CMAX - 2, CMAX),
        RangeW(CMAX - 2, CMAX - 1, 20.0),
        Auto(CMAX, 100),
    ];
    let k = lim.len() as u64;
    run.explore("limits", seqs(k, run.pick(2, 3)), |i, rec| replay(&seq(i, k).iter().map(|j| lim[*j]).collect::<Vec<_>>(), rec));
    // Every pixel size, many to a sheet, with the anchors of a shape that spans them.
    run.explore("all pixel sizes", 2048 / 16 + 1, |i, rec| {
        let mut s = vec![];
        for j in 0..16u16 {
            let px = i as u16 * 16 + j;
            s.push(Wpx(j, px));
            s.push(Hpx(j as u32, px.min(545)));
        }
        replay(&s, rec)
    });
    let sizes = [0.01, 0.08, 0.09, 0.5, 0.83, 0.99, 1.0, 1.01, 1.57, 8.0, 8.42, 8.43, 8.44, 8.57, 9.14, 10.0, 99.99, 254.0, 254.99, 255.0, 255.01, 300.0, 1000.0];
    run.explore("boundary sizes", (sizes.len() * 2) as u64, |i, rec| {
        let mut g = Dig(i);
        let (j, pre) = (g.take(sizes.len()), g.flag());
        let mut s = vec![W(1, sizes[j]), H(1, sizes[j])];
        if pre {
            s.insert(0, RangeW(0, 3, 20.0));
            s.insert(0, Def(20.0));
        }
        replay(&s, rec)
    });
}
fn outline(run: &mut Run) {
    let mut ops = vec![];
    for coll in [false, true] {
        for (a, b) in [(1, 4), (2, 3), (3, 6), (4, 4), (5, 7)] {
            ops.push(GR(a, b, coll));
            ops.push(GC(a as u16, b as u16, coll));
        }
    }
    ops.extend([RHide(3), RShow(3), H(3, 20.0), RFmt(4, 1), H(5, 0.0), CHide(3), W(3, 20.0), CFmt(4, 1), W(5, 0.0), Num(3, 3), Above(true), Above(false), Left(true), GR(4, 1, false), GR(4, 1, true), GC(4, 1, false), GC(4, 1, true), Def(20.0)]);
    let k = ops.len() as u64;
    run.explore("call sequences", seqs(k, run.pick(2, 3)), |i, rec| replay(&seq(i, k).iter().map(|j| ops[*j]).collect::<Vec<_>>(), rec));
    let rows = [GR(1, 4, false), GR(2, 3, true), GR(3, 5, false), GR(4, 4, true), RShow(3), RHide(4), H(2, 20.0), Num(4, 0)];
    let k = rows.len() as u64;
    run.explore("rows", seqs(k, run.pick(4, 5)), |i, rec| replay(&seq(i, k).iter().map(|j| rows[*j]).collect::<Vec<_>>(), rec));
    let cols = [GC(1, 4, false), GC(2, 3, true), GC(3, 5, false), GC(4, 4, true), CHide(3), W(4, 20.0), CFmt(2, 1), GC(0, 2, false)];
    let k = cols.len() as u64;
    run.explore("columns", seqs(k, run.pick(4, 5)), |i, rec| replay(&seq(i, k).iter().map(|j| cols[*j]).collect::<Vec<_>>(), rec));
    // Levels: up to nine nested groups, then one more call; a refused call changes nothing.
    let last = [GR(0, 8, false), GR(0, 8, true), GR(4, 4, false), GR(4, 4, true), GC(0, 8, false), GC(0, 8, true), GC(4, 4, true), H(4, 20.0), Num(4, 4)];
    run.explore("nesting", 10 * 2 * 2 * (1 + last.len() as u64), |i, rec| {
        let mut g = Dig(i);
        let (depth, coll, nested, l) = (g.take(10), g.flag(), g.flag(), g.take(1 + last.len()));
        let mut s = vec![];
        for d in 0..depth as u32 {
            let (a, b) = if nested { (d.min(4), 8 - d.min(4)) } else { (4, 6) };
            s.push(GR(a, b, coll));
            s.push(GC(a as u16, b as u16, coll));
        }
        if l > 0 {
            s.push(last[l - 1]);
        }
        replay(&s, rec)
    });
    let lim = [
        GR(RMAX - 2, RMAX - 1, false),
        GR(RMAX - 2, RMAX - 1, true),
        GR(RMAX - 2, RMAX, false),
        GR(RMAX - 2, RMAX, true),
        GR(RMAX, RMAX, true),
        GR(0, u32::MAX, true),
        GR(0, u32::MAX, false),
        GR(5, 2, true),
        GC(CMAX - 2, CMAX - 1, false),
        GC(CMAX - 2, CMAX - 1, true),
        GC(CMAX - 2, CMAX, true),
        GC(CMAX - 3, CMAX - 2, true),
        GC(0, u16::MAX, true),
        GC(0, u16::MAX, false),
        GC(5, 2, true),
        GR(1, 2, true),
        GC(1, 2, true),
    ];
    let k = lim.len() as u64;
    run.explore("limits", seqs(k, 2), |i, rec| replay(&seq(i, k).iter().map(|j| lim[*j]).collect::<Vec<_>>(), rec));
}
