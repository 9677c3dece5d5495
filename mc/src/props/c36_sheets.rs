//! C36: the sheets of a workbook: order, names, visibility, selection.
use super::util::*;
use super::Prop;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C36",
    level: "model_checking",
    rule: "Model: a list of sheets with name, kind, visibility, active, selected and first-tab flags. All sequences of sheet operations up to the depth, from several starting workbooks, are applied to the model and to the real Workbook; the saved sheet list, tab states, active and first tab, lookups by name and position, and the error for a reused name are compared.",
    assumes: &["firstSheet is written as position + 1, as the existing tests require"],
    run,
};
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Low,
    Const,
    Chart,
    Push,
    PushNamed(&'static str),
    Name(usize, &'static str),
    Active(usize, bool),
    Selected(usize, bool),
    Hidden(usize, bool),
    Very(usize, bool),
    First(usize, bool),
    Remove(usize),
    Swap(usize, usize),
    Insert(usize),
    Save,
}
use Op::*;
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Vis {
    Shown,
    Hidden,
    Very,
}
#[derive(Clone, Debug, Hash)]
struct S {
    id: u16,
    name: String,
    chart: bool,
    vis: Vis,
    active: bool,
    selected: bool,
    first: bool,
}
#[derive(Clone, Debug, Hash, Default)]
struct M {
    sheets: Vec<S>,
    next: u16,
    added: usize,
    charts: usize,
}
impl M {
    fn new_sheet(&mut self, name: String, chart: bool) -> S {
        self.next += 1;
        S { id: self.next, name, chart, vis: Vis::Shown, active: false, selected: false, first: false }
    }
    /// Apply; false when the operation is not possible.
    fn apply(&mut self, op: Op) -> bool {
        let n = self.sheets.len();
        match op {
            Add | Low | Const | Push => {
                self.added += 1;
                let s = self.new_sheet(format!("Sheet{}", self.added), false);
                self.sheets.push(s);
            }
            Chart => {
                self.charts += 1;
                let s = self.new_sheet(format!("Chart{}", self.charts), true);
                self.sheets.push(s);
            }
            PushNamed(x) => {
                self.added += 1;
                let s = self.new_sheet(x.into(), false);
                self.sheets.push(s);
            }
            Insert(i) => {
                if i > n {
                    return false;
                }
                let s = self.new_sheet(format!("Inserted{}", self.next + 1), false);
                self.sheets.insert(i, s);
            }
            Remove(i) => {
                if i >= n || n == 1 {
                    return false;
                }
                self.sheets.remove(i);
            }
            Swap(i, j) => {
                if i >= n || j >= n {
                    return false;
                }
                self.sheets.swap(i, j);
            }
            Save => {}
            Name(i, _) | Active(i, _) | Selected(i, _) | Hidden(i, _) | Very(i, _) | First(i, _) => {
                let Some(s) = self.sheets.get_mut(i) else { return false };
                match op {
                    Name(_, x) => {
                        if valid(x) {
                            s.name = x.into();
                        }
                    }
                    Active(_, b) => {
                        s.active = b;
                        if b {
                            s.selected = true;
                            s.vis = Vis::Shown;
                        }
                    }
                    Selected(_, b) => {
                        s.selected = b;
                        if b {
                            s.vis = Vis::Shown;
                        }
                    }
                    Hidden(_, b) | Very(_, b) => {
                        s.vis = match (b, op) {
                            (false, _) => Vis::Shown,
                            (_, Hidden(..)) => Vis::Hidden,
                            _ => Vis::Very,
                        };
                        if b {
                            s.active = false;
                            s.selected = false;
                        }
                    }
                    First(_, b) => {
                        s.first = b;
                        if b {
                            s.vis = Vis::Shown;
                        }
                    }
                    _ => {}
                }
            }
        }
        true
    }
}
/// The documented rules for sheet names.
pub fn valid(s: &str) -> bool {
    !s.is_empty() && s.chars().count() <= 31 && !s.contains(|c| "[]:*?/\\".contains(c)) && !s.starts_with('\'') && !s.ends_with('\'')
}
fn mark(ws: &mut Worksheet, id: u16) -> R {
    ws.set_zoom(20 + id);
    Ok(())
}
fn apply(wb: &mut Workbook, op: Op, m: &M) -> R {
    let at = |wb: &mut Workbook, i: usize, f: &dyn Fn(&mut Worksheet)| -> R {
        f(e(wb.worksheet_from_index(i))?);
        Ok(())
    };
    // The model already has the new sheet.
    let id = m.next;
    match op {
        Add => mark(wb.add_worksheet(), id),
        Low => mark(wb.add_worksheet_with_low_memory(), id),
        Const => mark(wb.add_worksheet_with_constant_memory(), id),
        Chart => {
            let c = wb.add_chartsheet();
            let mut ch = rust_xlsxwriter::Chart::new_bar();
            ch.add_series().set_values("=Sheet1!$A$1:$A$2");
            e(c.insert_chart(0, 0, &ch))?;
            mark(c, id)
        }
        Push => {
            let mut w = Worksheet::new();
            mark(&mut w, id)?;
            wb.push_worksheet(w);
            Ok(())
        }
        PushNamed(x) => {
            let mut w = Worksheet::new();
            e(w.set_name(x))?;
            mark(&mut w, id)?;
            wb.push_worksheet(w);
            Ok(())
        }
        Insert(i) => {
            let mut w = Worksheet::new();
            e(w.set_name(format!("Inserted{id}")))?;
            mark(&mut w, id)?;
            wb.worksheets_mut().insert(i, w);
            Ok(())
        }
        Remove(i) => {
            wb.worksheets_mut().remove(i);
            Ok(())
        }
        Swap(i, j) => {
            wb.worksheets_mut().swap(i, j);
            Ok(())
        }
        Save => {
            let _ = wb.save_to_buffer();
            Ok(())
        }
        Name(i, x) => {
            let w = e(wb.worksheet_from_index(i))?;
            let ok = w.set_name(x).is_ok();
            eq(&format!("set_name({x:?}) accepted"), valid(x), ok)
        }
        Active(i, b) => at(wb, i, &|w| drop(w.set_active(b))),
        Selected(i, b) => at(wb, i, &|w| drop(w.set_selected(b))),
        Hidden(i, b) => at(wb, i, &|w| drop(w.set_hidden(b))),
        Very(i, b) => at(wb, i, &|w| drop(w.set_very_hidden(b))),
        First(i, b) => at(wb, i, &|w| drop(w.set_first_tab(b))),
    }
}
fn check(wb: &mut Workbook, m: &M, rec: &mut Rec) -> R {
    // Lookups.
    eq("number of sheets", m.sheets.len(), wb.worksheets().len())?;
    for (i, s) in m.sheets.iter().enumerate() {
        eq("name by position", s.name.clone(), e(wb.worksheet_from_index(i))?.name())?;
    }
    if wb.worksheet_from_index(m.sheets.len()).is_ok() || wb.worksheet_from_name("No such sheet").is_ok() {
        return Err("a sheet was found that does not exist".into());
    }
    let mut seen = BTreeSet::new();
    let dup = m.sheets.iter().any(|s| !seen.insert(s.name.to_lowercase()));
    if !dup {
        for (i, s) in m.sheets.iter().enumerate() {
            let a = e(wb.worksheet_from_name(&s.name))? as *const Worksheet;
            let b = &wb.worksheets()[i] as *const Worksheet;
            if a != b {
                return Err(format!("{:?} leads to another sheet", s.name));
            }
        }
    }
    let r = wb.save_to_buffer();
    rec.trace();
    if dup {
        return match r {
            Err(XlsxError::SheetnameReused(_)) => Ok(()),
            Err(x) => Err(format!("reused name: {x}")),
            Ok(_) => Err("saved with a reused name".into()),
        };
    }
    // A chart sheet's chart refers to Sheet1.
    if m.sheets.iter().any(|s| s.chart) && !m.sheets.iter().any(|s| s.name == "Sheet1") {
        return if r.is_err() { Ok(()) } else { Err("saved a chart of an unknown sheet".into()) };
    }
    let p = Pkg::open(&e(r)?)?;
    opc::check(&p)?;
    let got = p.sheets()?;
    eq("number of sheets in the file", m.sheets.len(), got.len())?;
    let act = m.sheets.iter().rposition(|s| s.active).unwrap_or(0);
    let first = m.sheets.iter().rposition(|s| s.first).unwrap_or(0);
    for (i, (s, g)) in m.sheets.iter().zip(&got).enumerate() {
        let w = |x: &str| format!("{x} of sheet {i}");
        eq(&w("name"), s.name.as_str(), &g.name)?;
        eq(&w("kind"), s.chart, g.chart)?;
        eq(&w("sheetId"), (i + 1).to_string(), g.sheet_id.clone())?;
        let state = match s.vis {
            _ if i == act => "visible",
            Vis::Shown => "visible",
            Vis::Hidden => "hidden",
            Vis::Very => "veryHidden",
        };
        eq(&w("state"), state, &g.state)?;
        let v = p.sheet(i)?.path("sheetViews/sheetView").ok_or("no view")?;
        eq(&w("identity"), Some(20 + s.id as u64), v.au("zoomScale"))?;
        eq(&w("tabSelected"), if s.selected || i == act { Some("1") } else { None }, v.a("tabSelected"))?;
    }
    let v = p.x("xl/workbook.xml")?.path("bookViews/workbookView").ok_or("no workbookView")?;
    eq("activeTab", act as u64, v.au("activeTab").unwrap_or(0))?;
    eq("firstSheet", if first > 0 { Some(first as u64 + 1) } else { None }, v.au("firstSheet"))?;
    rec.seen(&got.iter().map(|g| (g.name.clone(), g.state.clone())).collect::<Vec<_>>());
    Ok(())
}
fn case(start: &[Op], ops: &[Op], rec: &mut Rec) -> R {
    let mut m = M::default();
    let mut wb = Workbook::new();
    rec.describe(|| format!("{start:?} then {ops:?}"));
    for op in start.iter().chain(ops) {
        let mut n = m.clone();
        if !n.apply(*op) {
            // Not possible here: this sequence is another one with fewer operations.
            return Ok(());
        }
        m = n;
        apply(&mut wb, *op, &m)?;
        rec.state(&m);
        rec.step();
    }
    check(&mut wb, &m, rec)
}
fn run(run: &mut Run) {
    let mut ops = vec![Add, Low, Const, Chart, Push, PushNamed("Sheet2"), PushNamed("sheet3"), Save];
    for i in 0..3 {
        ops.extend([Active(i, true), Selected(i, true), Hidden(i, true), Very(i, true), First(i, true), Remove(i)]);
        ops.extend([Active(i, false), Selected(i, false), Hidden(i, false), Very(i, false), First(i, false)]);
    }
    ops.extend([Swap(0, 1), Swap(0, 2), Insert(0), Insert(1)]);
    ops.extend([Name(0, "SHEET2"), Name(0, "new name"), Name(1, "a/b"), Name(1, "Sheet1"), Name(0, "Chart1"), Name(1, "\u{c9}t\u{e9}")]);
    let starts: [&[Op]; 4] = [&[Add, Add, Add], &[Add, Chart, Push], &[Add], &[Push, Const]];
    let k = ops.len() as u64;
    for st in starts.iter() {
        let depth = run.pick(2, 3);
        run.explore(&format!("operations from {st:?}"), seqs(k, depth), |i, rec| {
            let s: Vec<Op> = seq(i, k).into_iter().map(|j| ops[j]).collect();
            case(st, &s, rec)
        });
    }
    // Deeper over fewer operations.
    let few: Vec<Op> = ops.iter().copied().filter(|o| !matches!(o, Low | Const | Push | Active(_, false) | Selected(_, false) | Hidden(_, false) | Very(_, false) | First(_, false) | Name(1, _) | Insert(1))).collect();
    let k = few.len() as u64;
    let depth = run.pick(3, 4);
    run.explore("fewer operations", seqs(k, depth), |i, rec| {
        let s: Vec<Op> = seq(i, k).into_iter().map(|j| few[j]).collect();
        case(&[Add, Add, Add], &s, rec)
    });
    // The tab state of one sheet between two others, to a greater depth.
    let tab = [Active(1, true), Active(1, false), Selected(1, true), Selected(1, false), Hidden(1, true), Hidden(1, false), Very(1, true), Very(1, false), First(1, true), First(1, false), Active(2, true), Hidden(0, true)];
    let k = tab.len() as u64;
    let depth = run.pick(4, 5);
    run.explore("tab state", seqs(k, depth), |i, rec| {
        let s: Vec<Op> = seq(i, k).into_iter().map(|j| tab[j]).collect();
        case(&[Add, Add, Add], &s, rec)
    });
    // Names.
    let alpha = ['a', 'Z', '\'', '[', ']', ':', '*', '?', '/', '\\', ' ', '!', '&', '<', '\u{e9}', '\u{1F600}', '.'];
    let k = alpha.len() as u64;
    let depth = run.pick(3, 4);
    run.explore("names", seqs(k, depth) / 16 + 1, |b, rec| {
        let mut wb = Workbook::new();
        let mut want = vec![];
        let mut low = BTreeSet::new();
        rec.describe(|| format!("names {} to {}", b * 16, b * 16 + 15));
        for i in b * 16..(b * 16 + 16).min(seqs(k, depth)) {
            let s: String = seq(i, k).into_iter().map(|j| alpha[j]).collect();
            rec.state(&s);
            rec.step();
            let mut w = Worksheet::new();
            let ok = w.set_name(&s).is_ok();
            eq(&format!("set_name({s:?}) accepted"), valid(&s), ok)?;
            eq(&format!("check_sheet_name({s:?}) accepted"), valid(&s), utility::check_sheet_name(&s).is_ok())?;
            if ok && low.insert(s.to_lowercase()) {
                wb.push_worksheet(w);
                want.push(s);
            }
        }
        // Lengths.
        for n in [1usize, 30, 31, 32, 40] {
            for c in ["x", "\u{e9}", "\u{4e2d}"] {
                let s = c.repeat(n);
                eq(&format!("check_sheet_name({n} of {c}) accepted"), n <= 31, utility::check_sheet_name(&s).is_ok())?;
            }
        }
        if want.is_empty() {
            return Ok(());
        }
        let p = closed(&mut wb)?;
        rec.trace();
        eq("names", want, p.sheets()?.into_iter().map(|s| s.name).collect::<Vec<_>>())
    });
}
