//! C37: autofit makes each column as wide as its widest cell needs.
use super::util::*;
use super::Prop;
use rust_xlsxwriter::cell_autofit_width;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C37",
    level: "model_checking",
    rule: "Model: the text, number or other content of each cell, the header cells of filters, and the width of each column with whether it was fitted. All sequences of writes of all kinds of content, overwrites, filters, tables, explicit widths, fits with and without a maximum, and saves, up to the depth, are applied to the real code; the widths of all columns in the saved file are compared with the model. All texts up to a length over characters of all widths are fitted, alone and as lines of one cell, and texts around the length limit.",
    assumes: &["widths of characters are those of Calibri 11 in pixels"],
    run,
};
/// Widths in pixels of the characters 32 to 126 of Calibri 11.
#[rustfmt::skip]
const W: [u16; 95] = [
    3, 5, 6, 7, 7, 11, 10, 3, 5, 5, 7, 7, 4, 5, 4, 6, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 4, 4, 7, 7, 7, 7,
    13, 9, 8, 8, 9, 7, 7, 9, 9, 4, 5, 8, 6, 12, 10, 10, 8, 10, 8, 7, 7, 9, 9, 13, 8, 7, 7, 5, 6, 5, 7, 7,
    4, 7, 8, 6, 8, 8, 5, 7, 8, 4, 4, 7, 4, 12, 8, 8, 8, 8, 5, 6, 5, 8, 7, 11, 7, 7, 6, 5, 7, 5, 7,
];
fn text_px(s: &str) -> u32 {
    if s.chars().count() > 233 {
        return 1790;
    }
    s.chars().map(|c| u32::from(W.get((c as usize).wrapping_sub(32)).copied().unwrap_or(8))).sum::<u32>().min(1790)
}
fn lines_px(s: &str) -> u32 {
    s.split('\n').map(text_px).max().unwrap_or(0)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Col {
    px: u32,
    fitted: bool,
}
#[derive(Clone, Debug, Default, Hash)]
struct M {
    /// Pixels of the contents.
    cells: BTreeMap<(u32, u16), u32>,
    filter: BTreeSet<(u32, u16)>,
    heads: BTreeSet<(u32, u16)>,
    cols: BTreeMap<u16, Col>,
    hidden: BTreeSet<u16>,
    table: bool,
    out: bool,
}
impl M {
    fn fit(&mut self, max: u32) {
        let mut best: BTreeMap<u16, u32> = BTreeMap::new();
        for (at, px) in &self.cells {
            if *px > 0 {
                let arrow = if self.filter.contains(at) || self.heads.contains(at) { 16 } else { 0 };
                let b = best.entry(at.1).or_default();
                *b = (*b).max((px + arrow + 7).min(max));
            }
        }
        for (c, px) in best {
            if px > 0 {
                self.auto(c, px);
            }
        }
    }
    fn auto(&mut self, c: u16, px: u32) {
        match self.cols.get(&c) {
            Some(o) if !o.fitted && o.px >= px => {}
            _ => {
                self.cols.insert(c, Col { px: px.min(1790), fitted: true });
            }
        }
    }
    fn table(&mut self, r: u32, c: u16, arrows: bool) {
        self.out |= self.table;
        self.table = true;
        for (k, t) in ["Head", "Column2"].iter().enumerate() {
            let at = (r, c + k as u16);
            self.cells.insert(at, text_px(t));
            if arrows {
                self.heads.insert(at);
            }
        }
    }
}
type Op = (&'static str, Box<dyn Fn(&mut Worksheet) -> Result<(), XlsxError> + Sync + Send>, Box<dyn Fn(&mut M) + Sync + Send>);
const RED: &str = "red";
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    macro_rules! op {
        ($n:expr, $w:expr, $m:expr) => {
            v.push(($n, Box::new($w), Box::new($m)));
        };
    }
    macro_rules! cell {
        ($r:expr, $c:expr, $n:expr, |$w:ident: &mut Worksheet| $e:expr, $px:expr) => {
            op!($n, |$w: &mut Worksheet| $e.map(|_| ()), |m: &mut M| {
                m.cells.insert(($r, $c), $px);
            });
        };
    }
    cell!(0, 0, "A1 text", |w: &mut Worksheet| w.write_string(0, 0, "Hello"), text_px("Hello"));
    cell!(1, 0, "A2 longer text", |w: &mut Worksheet| w.write(1, 0, "The quick %W@m fox"), text_px("The quick %W@m fox"));
    cell!(0, 1, "B1 lines", |w: &mut Worksheet| w.write_string(0, 1, "a\nbbbb mm\ncc"), text_px("bbbb mm"));
    cell!(0, 0, "A1 very long text", |w: &mut Worksheet| w.write_string(0, 0, "i".repeat(234)), 1790);
    cell!(0, 1, "B1 number", |w: &mut Worksheet| w.write_number(0, 1, -123.5), 42);
    cell!(1, 1, "B2 large number", |w: &mut Worksheet| w.write_number(1, 1, 1e21), 7 * 22);
    cell!(1, 0, "A2 true", |w: &mut Worksheet| w.write_boolean(1, 0, true), 31);
    cell!(0, 1, "B1 false", |w: &mut Worksheet| w.write_boolean(0, 1, false), 36);
    cell!(0, 0, "A1 date", |w: &mut Worksheet| w.write_datetime_with_format(0, 0, ExcelDateTime::from_ymd(2024, 1, 2).unwrap(), &Format::new().set_num_format("dd mmmm yyyy hh:mm")), 68);
    cell!(1, 1, "B2 formula", |w: &mut Worksheet| w.write_formula(1, 1, "=SUM(A1:A2)+1000000"), 0);
    cell!(1, 0, "A2 formula with result", |w: &mut Worksheet| w.write_formula(1, 0, Formula::new("=1").set_result("Result: 12")), text_px("Result: 12"));
    cell!(0, 1, "B1 array formula with result", |w: &mut Worksheet| w.write_array_formula(0, 1, 0, 1, Formula::new("=1").set_result("31")), 14);
    cell!(0, 0, "A1 rich", |w: &mut Worksheet| w.write_rich_string(0, 0, &[(&Format::new().set_bold(), "bold "), (&Format::default(), "ice")]), text_px("bold ice"));
    cell!(0, 0, "A1 blank", |w: &mut Worksheet| w.write_blank(0, 0, &Format::new().set_font_color(RED)), 0);
    cell!(1, 0, "A2 url", |w: &mut Worksheet| w.write_url_with_text(1, 0, "https://example.com/a/b/c", "here"), text_px("here"));
    cell!(1, 1, "B2 url", |w: &mut Worksheet| w.write_url(1, 1, "https://a.io/"), text_px("https://a.io/"));
    op!("clear A1", |w: &mut Worksheet| -> Result<(), XlsxError> { w.clear_cell(0, 0); Ok(()) }, |m: &mut M| {
        m.cells.remove(&(0, 0));
    });
    op!("filter of row 1", |w: &mut Worksheet| w.autofilter(0, 0, 4, 1).map(|_| ()), |m: &mut M| m.filter = [(0, 0), (0, 1)].into());
    op!("filter of row 2", |w: &mut Worksheet| w.autofilter(1, 0, 4, 0).map(|_| ()), |m: &mut M| m.filter = [(1, 0)].into());
    op!("table", |w: &mut Worksheet| w.add_table(6, 1, 8, 2, &Table::new().set_columns(&[TableColumn::new().set_header("Head")])).map(|_| ()), |m: &mut M| m.table(6, 1, true));
    op!("table without arrows", |w: &mut Worksheet| w.add_table(6, 1, 8, 2, &Table::new().set_autofilter(false).set_columns(&[TableColumn::new().set_header("Head")])).map(|_| ()), |m: &mut M| m.table(6, 1, false));
    op!("width of A", |w: &mut Worksheet| w.set_column_width(0, 9).map(|_| ()), |m: &mut M| {
        m.cols.insert(0, Col { px: 68, fitted: false });
    });
    op!("pixels of B", |w: &mut Worksheet| w.set_column_width_pixels(1, 30).map(|_| ()), |m: &mut M| {
        m.cols.insert(1, Col { px: 30, fitted: false });
    });
    op!("fitted width of B", |w: &mut Worksheet| w.set_column_autofit_width(1, 200).map(|_| ()), |m: &mut M| m.auto(1, 200));
    op!("hide A", |w: &mut Worksheet| w.set_column_hidden(0).map(|_| ()), |m: &mut M| {
        m.hidden.insert(0);
    });
    op!("fit", |w: &mut Worksheet| -> Result<(), XlsxError> { w.autofit(); Ok(()) }, |m: &mut M| m.fit(1790));
    op!("fit to 45", |w: &mut Worksheet| -> Result<(), XlsxError> { w.autofit_to_max_width(45); Ok(()) }, |m: &mut M| m.fit(45));
    op!("fit to 5000", |w: &mut Worksheet| -> Result<(), XlsxError> { w.autofit_to_max_width(5000); Ok(()) }, |m: &mut M| m.fit(1790));
    v
}
/// Width (in 1/256 of a character), fitted, and hidden, of each column that has an element.
fn read(p: &Pkg) -> Result<BTreeMap<u16, (u32, bool, bool)>, String> {
    let mut m = BTreeMap::new();
    for c in p.sheet(0)?.first("cols").map(|c| c.els().collect::<Vec<_>>()).unwrap_or_default() {
        let w: f64 = c.a("width").and_then(|w| w.parse().ok()).ok_or("no width")?;
        for i in c.au("min").unwrap_or(0)..=c.au("max").unwrap_or(0) {
            m.insert(i as u16 - 1, ((w * 256.0).round() as u32, c.a("bestFit") == Some("1"), c.a("hidden") == Some("1")));
        }
    }
    Ok(m)
}
fn compare(wb: &mut Workbook, m: &M) -> R {
    let p = closed(wb)?;
    let got = read(&p)?;
    let mut want = BTreeMap::new();
    for (c, w) in &m.cols {
        want.insert(*c, (w.px * 256 / 7, w.fitted, m.hidden.contains(c)));
    }
    for c in &m.hidden {
        if !want.contains_key(c) {
            // The width of a hidden column without one says nothing.
            let w = got.get(c).map(|g| g.0).unwrap_or(0);
            want.insert(*c, (w, false, true));
        }
    }
    // The default width may be written or left out.
    let plain = |m: BTreeMap<u16, (u32, bool, bool)>| m.into_iter().filter(|x| x.1 != (64 * 256 / 7, false, false)).collect::<BTreeMap<_, _>>();
    diff(&plain(want), &plain(got))
}
fn run(run: &mut Run) {
    let all = ops();
    let k = all.len() as u64;
    let last = [25usize, 26];
    assert!(all[25].0 == "fit" && all[26].0 == "fit to 45");
    run.explore("call sequences", seqs(k, run.pick(3, 4)) * 2, |i, rec| {
        let mut s = seq(i / 2, k);
        s.push(last[(i % 2) as usize]);
        rec.describe(|| format!("{:?}", s.iter().map(|j| all[*j].0).collect::<Vec<_>>()));
        let mut m = M::default();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        for j in &s {
            all[*j].2(&mut m);
            if m.out {
                return Ok(());
            }
            e(all[*j].1(w)).map_err(|x| format!("{}: {x}", all[*j].0))?;
            rec.step();
            rec.state(&m);
        }
        rec.trace();
        compare(&mut wb, &m)?;
        compare(&mut wb, &m).map_err(|x| format!("second save: {x}"))
    });
    // Fitted widths of all texts over characters of every width, alone, over others and as lines.
    let cs: Vec<char> = " ,-\"0Bb A&%M@\u{e9}\u{1F600}\n".chars().collect();
    let n = cs.len() as u64;
    run.explore("texts", seqs(n, run.pick(3, 4)), |i, rec| {
        let s: String = seq(i, n).iter().map(|j| cs[*j]).collect();
        rec.describe(|| format!("{s:?}"));
        rec.step();
        rec.trace();
        rec.state(&s);
        if !s.contains('\n') {
            eq("cell_autofit_width", text_px(&s) + 7, u32::from(cell_autofit_width(&s)))?;
        }
        let mut m = M::default();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        for (c, t) in [s.clone(), format!("{s}\nlll"), format!("m{s}")].iter().enumerate() {
            let at = (c as u32 % 2, c as u16);
            e(w.write_string(at.0, at.1, t))?;
            m.cells.insert(at, lines_px(t));
        }
        w.autofit();
        m.fit(1790);
        compare(&mut wb, &m)
    });
    run.explore("characters", 0x250 - 32, |i, rec| {
        let c = char::from_u32(i as u32 + 32).unwrap();
        rec.describe(|| format!("{c:?}"));
        rec.step();
        rec.trace();
        if (127..160).contains(&(c as u32)) {
            return Ok(());
        }
        eq("width", text_px(&c.to_string()) + 7, u32::from(cell_autofit_width(&c.to_string())))
    });
    run.explore("long texts", 4 * 261, |i, rec| {
        let n = (i / 4) as usize;
        let s = ["W", "i", "\u{e9}", "w "][(i % 4) as usize].repeat(n);
        rec.describe(|| format!("{n} times {:?}", s.chars().take(2).collect::<String>()));
        rec.step();
        rec.trace();
        let mut m = M::default();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        e(w.write_string(0, 0, &s))?;
        e(w.write_string(1, 0, "x"))?;
        e(w.autofilter(0, 0, 3, 0))?;
        m.cells.insert((0, 0), text_px(&s));
        m.cells.insert((1, 0), 7);
        m.filter.insert((0, 0));
        w.autofit();
        m.fit(1790);
        compare(&mut wb, &m)
    });
    // Numbers: not narrower than their digits.
    run.explore("numbers", 400, |i, rec| {
        let x = [1.0, -1.0, 1.5, 0.1, 123_456_789.25][(i % 5) as usize] * 10f64.powi((i / 5) as i32 - 40);
        rec.describe(|| format!("{x:?}"));
        rec.step();
        rec.trace();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        e(w.write_number(0, 0, x))?;
        w.autofit();
        let mut m = M::default();
        m.cells.insert((0, 0), 7 * x.to_string().len() as u32);
        m.fit(1790);
        compare(&mut wb, &m)
    });
}
