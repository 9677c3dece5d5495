//! C15: merged ranges, tables and filters don't overlap; refused calls leave nothing behind.
use super::util::*;
use super::Prop;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C15",
    level: "model_checking",
    rule: "Model: the lists of merged ranges and tables, the filter of the worksheet, and a map of cells. All pairs (thorough: triples on a smaller grid) of calls which merge, add a table with or without header, filter or totals, or set the filter, over all ranges of a grid, are applied to the real code. Each call must be accepted or refused as the model says, with the documented error, and the saved file must hold exactly the model's merged ranges, tables, filter, defined names and cells.",
    assumes: &["merged ranges may overlap tables, as the library doesn't document otherwise"],
    run,
};
type Rg = (u32, u16, u32, u16);
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum K {
    Merge,
    Table { header: bool, filter: bool, total: bool },
    Filter,
    Number,
}
const KINDS: [K; 7] = [
    K::Merge,
    K::Table { header: true, filter: true, total: false },
    K::Table { header: false, filter: true, total: false },
    K::Table { header: true, filter: false, total: false },
    K::Table { header: true, filter: true, total: true },
    K::Filter,
    K::Number,
];
#[derive(Default, Hash)]
struct Model {
    merges: Vec<Rg>,
    tables: Vec<(Rg, bool, bool, bool)>,
    filter: Option<Rg>,
    cells: BTreeMap<(u32, u16), (String, bool)>,
}
fn meet(a: Rg, b: Rg) -> bool {
    a.0 <= b.2 && b.0 <= a.2 && a.1 <= b.3 && b.1 <= a.3
}
fn top(a: Rg) -> Rg {
    (a.0, a.1, a.0, a.3)
}
impl Model {
    fn step(&mut self, k: K, r: Rg, n: usize) -> Result<(), &'static str> {
        if r.0 >= 1_048_576 || r.2 >= 1_048_576 || r.1 >= 16_384 || r.3 >= 16_384 {
            return Err("RowColumnLimitError");
        }
        if r.0 > r.2 || r.1 > r.3 {
            return Err("RowColumnOrderError");
        }
        match k {
            K::Merge => {
                if r.0 == r.2 && r.1 == r.3 {
                    return Err("MergeRangeSingleCell");
                }
                if self.merges.iter().any(|m| meet(*m, r)) {
                    return Err("MergeRangeOverlaps");
                }
                self.merges.push(r);
                for row in r.0..=r.2 {
                    for col in r.1..=r.3 {
                        let v = if (row, col) == (r.0, r.1) { format!("str \"m{n}\"") } else { "blank".into() };
                        self.cells.insert((row, col), (v, true));
                    }
                }
            }
            K::Table { header, filter, total } => {
                if r.2 - r.0 + 1 <= u32::from(header) + u32::from(total) {
                    return Err("TableError");
                }
                let filter = filter && header;
                if self.tables.iter().any(|t| meet(t.0, r)) {
                    return Err("TableRangeOverlaps");
                }
                if filter && self.filter.is_some_and(|f| meet(top(f), top(r))) {
                    return Err("AutofilterRangeOverlaps");
                }
                self.tables.push((r, header, filter, total));
                if header {
                    for col in r.1..=r.3 {
                        let v = match self.cells.get(&(r.0, col)) {
                            Some((v, _)) if v.starts_with("str") => v.clone(),
                            _ => format!("str \"Column{}\"", col - r.1 + 1),
                        };
                        self.cells.insert((r.0, col), (v, false));
                    }
                }
            }
            K::Filter => {
                if self.tables.iter().any(|t| t.2 && meet(top(t.0), top(r))) {
                    return Err("AutofilterRangeOverlaps");
                }
                self.filter = Some(r);
            }
            K::Number => {
                self.cells.insert((r.0, r.1), (format!("num {n}.0"), false));
            }
        }
        Ok(())
    }
}
fn call(w: &mut Worksheet, k: K, r: Rg, n: usize) -> Result<(), XlsxError> {
    match k {
        K::Merge => w.merge_range(r.0, r.1, r.2, r.3, &format!("m{n}"), &Format::new().set_bold()).map(|_| ()),
        K::Table { header, filter, total } => {
            let mut t = Table::new();
            if !header {
                t = t.set_header_row(false);
            }
            t = t.set_autofilter(filter);
            if total {
                t = t.set_total_row(true);
            }
            w.add_table(r.0, r.1, r.2, r.3, &t).map(|_| ())
        }
        K::Filter => w.autofilter(r.0, r.1, r.2, r.3).map(|_| ()),
        K::Number => w.write_number(r.0, r.1, n as f64).map(|_| ()),
    }
}
fn kind(e: &XlsxError) -> String {
    let t = format!("{e:?}");
    t.split(['(', ' ']).next().unwrap_or("").to_string()
}
fn case(ops: &[(K, Rg)], rec: &mut Rec) -> R {
    rec.trace();
    let mut m = Model::default();
    let mut wb = Workbook::new();
    let w = wb.add_worksheet();
    for (n, (k, r)) in ops.iter().enumerate() {
        rec.step();
        let want = m.step(*k, *r, n);
        rec.state(&m);
        let got = guarded(|| call(w, *k, *r, n)).map_err(|p| format!("call {n} panics: {p}"))?;
        let got = got.map_err(|e| kind(&e));
        // With several reasons any of them may be given; headers taken from the other table are repeated.
        let several = ["TableRangeOverlaps", "TableError", "AutofilterRangeOverlaps"];
        if let (K::Table { .. }, Err("TableRangeOverlaps"), Err(g)) = (k, want, &got) {
            if several.contains(&g.as_str()) {
                continue;
            }
        }
        if want.map_err(String::from) != got {
            return Err(format!("call {n}: expected {want:?}, was {got:?}"));
        }
    }
    let p = closed(&mut wb)?;
    let mut want: BTreeMap<(u32, u16), (String, String)> = BTreeMap::new();
    for (k, (v, b)) in &m.cells {
        want.insert(*k, (v.clone(), if *b { "B".into() } else { String::new() }));
    }
    diff(&want, &view(&p, 0)?).map_err(|e| format!("cells: {e}"))?;
    let x = p.sheet(0)?;
    let set = |v: Vec<&El>| -> BTreeSet<String> { v.iter().filter_map(|e| e.a("ref")).map(String::from).collect() };
    let names = |v: &[Rg]| -> BTreeSet<String> { v.iter().map(|r| range_name(*r)).collect() };
    eq("merged ranges", &names(&m.merges), &set(x.find_all("mergeCell")))?;
    let mut got = BTreeSet::new();
    let mut want = BTreeSet::new();
    for part in p.parts.iter().filter(|t| t.name.starts_with("xl/tables/")) {
        let t = p.x(&part.name)?;
        got.insert(format!("{} {:?} {:?} {:?}", t.a("ref").unwrap_or(""), t.a("headerRowCount"), t.first("autoFilter").and_then(|f| f.a("ref")), t.a("totalsRowCount")));
    }
    for (r, header, filter, total) in &m.tables {
        let f = range_name((r.0, r.1, r.2 - u32::from(*total), r.3));
        want.insert(format!("{} {:?} {:?} {:?}", range_name(*r), if *header { None } else { Some("0") }, if *filter { Some(f.as_str()) } else { None }, if *total { Some("1") } else { None }));
    }
    rec.seen(&got);
    eq("tables", &want, &got)?;
    eq("filter", &m.filter.map(range_name), &x.first("autoFilter").and_then(|e| e.a("ref")).map(String::from))?;
    let name = p.x("xl/workbook.xml")?.find_all("definedName").iter().map(|e| e.text()).collect::<Vec<_>>();
    let want: Vec<String> = m.filter.iter()
        .map(|r| {
            let f = |a: u32, b: u16| format!("${}${}", book::col_name(b.into()), a + 1);
            let one = (r.0, r.1) == (r.2, r.3);
            format!("Sheet1!{}{}", f(r.0, r.1), if one { String::new() } else { format!(":{}", f(r.2, r.3)) })
        })
        .collect();
    eq("defined names", &want, &name)
}
fn ranges(rows: u32, cols: u16) -> Vec<Rg> {
    let mut v = vec![];
    for a in 0..rows {
        for b in 0..cols {
            for c in a..rows {
                for d in b..cols {
                    v.push((a, b, c, d));
                }
            }
        }
    }
    v
}
fn all(rows: u32, cols: u16) -> Vec<(K, Rg)> {
    let mut v = vec![];
    for k in KINDS {
        for r in ranges(rows, cols) {
            if k != K::Number || (r.0 == r.2 && r.1 == r.3) {
                v.push((k, r));
            }
        }
    }
    v
}
fn text(s: &[(K, Rg)]) -> String {
    s.iter().map(|(k, r)| format!("{k:?} {}", range_name(*r))).collect::<Vec<_>>().join("; ")
}
fn run(run: &mut Run) {
    let a = all(3, 3);
    let n = a.len() as u64;
    run.explore("pairs of ranges", seqs(n, 2), |i, rec| {
        let s: Vec<(K, Rg)> = seq(i, n).into_iter().map(|x| a[x]).collect();
        rec.describe(|| text(&s));
        case(&s, rec)
    });
    // Two tables with a filter or merged range between, and after a refused call.
    let a = if run.thorough { all(3, 2) } else { all(2, 2) };
    let n = a.len() as u64;
    run.explore("triples of ranges", n * n * n, |i, rec| {
        let mut d = Dig(i);
        let s: Vec<(K, Rg)> = (0..3).map(|_| *d.of(&a)).collect();
        rec.describe(|| text(&s));
        case(&s, rec)
    });
    let a: Vec<(K, Rg)> = all(2, 2).into_iter().filter(|x| x.1 .2 - x.1 .0 + u32::from(x.1 .3 - x.1 .1) < 2 && !matches!(x.0, K::Number | K::Table { total: true, .. })).collect();
    let n = a.len() as u64;
    run.explore("four ranges", if run.thorough { n * n * n * n } else { 0 }, |i, rec| {
        let mut d = Dig(i);
        let s: Vec<(K, Rg)> = (0..4).map(|_| *d.of(&a)).collect();
        rec.describe(|| text(&s));
        case(&s, rec)
    });
    // Limits and reversed ranges, before and after a range that is accepted.
    let odd: [Rg; 9] = [(2, 0, 1, 0), (0, 2, 0, 1), (1_048_576, 0, 1_048_576, 1), (0, 0, 1_048_576, 0), (0, 16_384, 1, 16_384), (0, 0, 0, 16_384), (1_048_574, 16_382, 1_048_575, 16_383), (1_048_573, 0, 1_048_575, 0), (0, 16_380, 1, 16_383)];
    let near: [Rg; 3] = [(1_048_574, 16_383, 1_048_575, 16_383), (0, 0, 1, 1), (0, 16_383, 2, 16_383)];
    run.explore("limits", 7 * 7 * 27, |i, rec| {
        let mut d = Dig(i);
        let s = vec![(*d.of(&KINDS), *d.of(&odd)), (*d.of(&KINDS), *d.of(&near))];
        if s.iter().any(|x| x.0 == K::Number) {
            return Ok(());
        }
        rec.describe(|| s.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join("; "));
        case(&s, rec)
    });
}
