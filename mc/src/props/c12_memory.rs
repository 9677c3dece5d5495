//! C12: constant and low memory worksheets hold the same as standard ones.
use super::util::*;
use super::Prop;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C12",
    level: "model_checking",
    rule: "Model: the row in progress and the calls which are in row order. All sequences of calls up to the depth over rows that meet are applied to a constant memory and a low memory worksheet; those in order are also applied to a standard worksheet. After saving, all three must hold the same cells, values, formats, rows, merged ranges and all other settings and parts, each read by an independent reader; calls for rows already passed must have no effect. Each sequence is run with the worksheets in workbooks of their own, together in one workbook in either order, created by the workbook or added to it, with saves in between, and with sheets written in turns.",
    assumes: &["what the standard worksheet holds is decided by C01, C20, C33 and others", "the spans of rows are hints and not compared", "formats of columns set after rows were written, and rows hidden by filters, are outside the documented use of the modes"],
    run,
};
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    /// Writes in one row, which becomes the row in progress.
    Cell(u32),
    /// Writes in the first row and ahead to the last.
    Ahead(u32),
    /// Writes rows from first to last in order.
    Walk(u32, u32),
    /// Formats cells of the row in progress.
    Fmt(u32),
    /// Sets options of rows not yet passed.
    Rows(u32, u32),
    /// Sets the result of a formula in the row in progress, whatever row is given.
    Result(u32),
    /// Only before any data.
    First,
    Meta,
    Embed(u32),
    /// A table, whose column formats change cells already written; with header or not.
    Table(u32, bool),
}
struct Op {
    name: String,
    k: K,
    f: Box<dyn Fn(&mut Worksheet, usize) -> Result<(), XlsxError> + Sync + Send>,
}
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    macro_rules! op {
        ($name:expr, $k:expr, $f:expr) => {
            v.push(Op { name: $name.to_string(), k: $k, f: Box::new($f) })
        };
    }
    let bold = Format::new().set_bold();
    let ital = Format::new().set_italic().set_background_color(Color::Yellow);
    for r in [0u32, 1, 3] {
        let b = bold.clone();
        let i = ital.clone();
        op!(format!("number at {r}"), K::Cell(r), move |w, _| w.write_number(r, 0, 1.5 + f64::from(r)).map(|_| ()));
        op!(format!("string at {r}"), K::Cell(r), move |w, _| w.write_string(r, 1, "text <&>").map(|_| ()));
        op!(format!("bold string at {r}"), K::Cell(r), { let b = b.clone(); move |w, _| w.write_string_with_format(r, 0, format!(" bold{} ", r / 2), &b).map(|_| ()) });
        op!(format!("rich string at {r}"), K::Cell(r), { let b = b.clone(); move |w, _| w.write_rich_string(r, 1, &[(&Format::default(), "plain "), (&b, "fat")]).map(|_| ()) });
        op!(format!("blank at {r}"), K::Cell(r), { let i = i.clone(); move |w, _| w.write_blank(r, 2, &i).map(|_| ()) });
        op!(format!("formula at {r}"), K::Cell(r), move |w, _| w.write_formula(r, 0, "=B1&\"<\"").map(|_| ()));
        op!(format!("formula with result at {r}"), K::Cell(r), move |w, _| w.write_formula(r, 1, Formula::new("=A1+1").set_result("a & b")).map(|_| ()));
        op!(format!("boolean at {r}"), K::Cell(r), move |w, _| w.write_boolean(r, 2, r != 1).map(|_| ()));
        op!(format!("date at {r}"), K::Cell(r), { let b = Format::new().set_num_format("yyyy"); move |w, _| w.write_datetime_with_format(r, 0, &ExcelDateTime::from_ymd(2024, 1, 1)?, &b).map(|_| ()) });
        op!(format!("link at {r}"), K::Ahead(r), move |w, _| w.write_url(r, 1, "https://example.com/a").map(|_| ()));
        op!(format!("dynamic formula at {r}"), K::Cell(r), move |w, _| w.write_dynamic_formula(r, 0, "=SORT(A9:A11)").map(|_| ()));
        op!(format!("checkbox at {r}"), K::Cell(r), move |w, _| w.insert_checkbox(r, 2, true).map(|_| ()));
        op!(format!("row of values at {r}"), K::Cell(r), move |w, _| w.write_row(r, 0, ["a", "text <&>", "c"]).map(|_| ()));
        op!(format!("cell format at {r}"), K::Fmt(r), { let i = i.clone(); move |w, _| w.set_cell_format(r, 0, &i).map(|_| ()) });
        op!(format!("range format at {r}"), K::Fmt(r), { let b = b.clone(); move |w, _| w.set_range_format(r, 1, r, 2, &b).map(|_| ()) });
        op!(format!("clear cell at {r}"), K::Fmt(r), move |w, _| { w.clear_cell(r, 1); Ok(()) });
        op!(format!("clear format at {r}"), K::Fmt(r), move |w, _| { w.clear_cell_format(r, 0); Ok(()) });
        op!(format!("formula result at {r}"), K::Result(r), move |w, _| { w.set_formula_result(r, 0, "7"); Ok(()) });
        op!(format!("row height {r}"), K::Rows(r, r), move |w, _| w.set_row_height(r, 30).map(|_| ()));
        op!(format!("row format {r}"), K::Rows(r, r), { let i = i.clone(); move |w, _| w.set_row_format(r, &i).map(|_| ()) });
        op!(format!("hidden row {r}"), K::Rows(r, r), move |w, _| w.set_row_hidden(r).map(|_| ()));
        op!(format!("embedded image at {r}"), K::Embed(r), move |w, _| w.embed_image(r, 2, &image(r)?).map(|_| ()));
    }
    let i2 = ital.clone();
    for (a, b, c, d) in [(0u32, 0u16, 1u32, 1u16), (1, 0, 3, 1), (0, 2, 3, 2), (1, 0, 1, 2)] {
        let b2 = bold.clone();
        let i = i2.clone();
        op!(format!("merge {}", range_name((a, b, c, d))), K::Ahead(a), { let i = i.clone(); move |w, _| w.merge_range(a, b, c, d, "merged", &i).map(|_| ()) });
        op!(format!("array {}", range_name((a, b, c, d))), K::Ahead(a), move |w, _| w.write_array_formula(a, b, c, d, "{=A9:B9}").map(|_| ()));
        op!(format!("array with format {}", range_name((a, b, c, d))), K::Ahead(a), move |w, _| w.write_array_formula_with_format(a, b, c, d, "=A9:B9", &b2).map(|_| ()));
    }
    op!("table", K::Table(0, true), |w, _| w.add_table(0, 0, 3, 2, &Table::new()).map(|_| ()));
    op!("table with totals", K::Table(1, true), |w, _| {
        let t = Table::new().set_total_row(true).set_columns(&[
            TableColumn::new().set_header("One").set_total_label("Sum"),
            TableColumn::new().set_header("Two").set_formula("[@One]*2").set_total_function(TableFunction::Sum),
            TableColumn::new().set_header("Three").set_format(Format::new().set_bold()),
        ]);
        w.add_table(1, 0, 4, 2, &t).map(|_| ())
    });
    op!("table without header", K::Table(1, false), |w, _| w.add_table(1, 0, 3, 1, &Table::new().set_header_row(false).set_columns(&[TableColumn::new().set_formula("=1+1")])).map(|_| ()));
    op!("group rows 0-1", K::Rows(0, 1), |w, _| w.group_rows(0, 1).map(|_| ()));
    op!("group rows 1-3 collapsed", K::Rows(1, 4), |w, _| w.group_rows_collapsed(1, 3).map(|_| ()));
    op!("unused row height 6", K::Rows(6, 6), |w, _| w.set_row_height(6, 12).map(|_| ()));
    op!("column of values", K::Walk(0, 2), |w, _| w.write_column(0, 1, [1, 2, 3]).map(|_| ()));
    op!("matrix of values", K::Walk(1, 2), |w, _| w.write_row_matrix(1, 0, [["a", "b"], ["c", "d"]]).map(|_| ()));
    op!("bold column", K::First, |w, _| w.set_column_format(1, &Format::new().set_bold()).map(|_| ()));
    op!("red column", K::First, |w, _| w.set_column_format(0, &Format::new().set_font_color(Color::Red)).map(|_| ()));
    op!("default row height", K::First, |w, _| { w.set_default_row_height(24); Ok(()) });
    op!("column width", K::Meta, |w, _| w.set_column_width(2, 20).map(|_| ()));
    op!("note", K::Meta, |w, _| w.insert_note(1, 1, &Note::new("n")).map(|_| ()));
    op!("conditional format", K::Meta, |w, _| w.add_conditional_format(0, 0, 3, 0, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::GreaterThan(1)).set_format(Format::new().set_bold())).map(|_| ()));
    op!("validation", K::Meta, |w, _| w.add_data_validation(0, 0, 3, 0, &DataValidation::new().allow_whole_number(DataValidationRule::GreaterThan(1))).map(|_| ()));
    op!("sparkline", K::Meta, |w, _| w.add_sparkline(5, 5, &Sparkline::new().set_range(("Dummy", 0, 0, 0, 4))).map(|_| ()));
    op!("image", K::Meta, |w, _| w.insert_image(1, 4, &image(9)?).map(|_| ()));
    op!("frozen panes", K::Meta, |w, _| w.set_freeze_panes(1, 1).map(|_| ()));
    op!("autofilter", K::Meta, |w, _| w.autofilter(0, 0, 3, 2).map(|_| ()));
    v
}
fn image(k: u32) -> Result<Image, XlsxError> {
    Image::new_from_buffer(&crate::feat::png(8, 8, k, None))
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Std,
    Const,
    Low,
}
/// A sheet as read back: everything but the row spans.
#[derive(Debug, Default)]
struct Seen {
    cells: BTreeMap<(u32, u16), String>,
    rows: BTreeMap<u32, String>,
    rest: BTreeMap<String, String>,
}
fn strip(x: &El, f: &mut dyn FnMut(&mut El)) -> El {
    let mut y = x.clone();
    f(&mut y);
    for k in &mut y.kids {
        if let crate::xml::Node::El(e) = k {
            *e = strip(e, f);
        }
    }
    y
}
fn read(p: &Pkg, n: usize) -> Result<Seen, String> {
    let st = book::styles(p)?;
    let s = sheet(p, n)?;
    let mut out = Seen::default();
    let f = |i: u32| -> Result<String, String> {
        let x = xf(&st, i)?;
        Ok(format!("{}{}", tag(x), if x.xf_id > 0 { " named style" } else { "" }))
    };
    let d = book::dimension(s.x).ok_or("no dimension")?;
    for (k, c) in &s.data.cells {
        if c.v == V::Blank && c.s == 0 {
            continue;
        }
        if k.0 < d.0 || k.0 > d.2 || k.1 < d.1 || k.1 > d.3 {
            return Err(format!("cell {} is outside the dimension {}", cell_name(k.0, k.1), range_name(d)));
        }
        let vm = match c.vm {
            None => String::new(),
            Some(i) => {
                // The picture behind the value.
                let rv = p.x("xl/richData/rdrichvalue.xml")?;
                let at = rv.find_all("rv").get(i as usize - 1).and_then(|x| x.find_all("v").first().map(|v| v.text())).ok_or(format!("no rich value {i}"))?;
                let rel = p.x("xl/richData/richValueRel.xml")?;
                let id = rel.find_all("rel").get(at.parse::<usize>().map_err(|e| e.to_string())?).and_then(|x| x.a("r:id").map(String::from)).ok_or("no picture relation")?;
                let t = p.rels("xl/richData/richValueRel.xml").into_iter().find(|r| r.id == id).ok_or("no picture")?;
                let t = opc::resolve("xl/richData/richValueRel.xml", &t.target);
                format!(" picture {:x}", crate::engine::h(&p.part(&t).ok_or(format!("no part {t}"))?.data))
            }
        };
        out.cells.insert(*k, format!("{} {}{vm}", vtext(&c.v), f(c.s)?));
    }
    let default = s.x.first("sheetFormatPr").and_then(|x| x.a("defaultRowHeight"));
    for (r, i) in &s.data.rows {
        let mut t = i.clone();
        let s = if t.custom_format { f(t.style)? } else { String::new() };
        t.style = 0;
        if t.height.is_some() && t.height.as_deref() == default {
            t.height = None;
            t.custom_height = false;
        }
        if t == RowInfo::default() {
            continue;
        }
        out.rows.insert(*r, format!("{s} {t:?}"));
    }
    let mut rest = |name: &str, x: &El| {
        let y = strip(x, &mut |e| {
            e.attrs.retain(|a| !(["tabSelected", "uid", "xr:uid", "xr2:uid"].contains(&a.0.as_str())));
            if name == "table" && e.name == "table" {
                e.attrs.retain(|a| !["id", "name", "displayName"].contains(&a.0.as_str()));
            }
        });
        let y = y.canon();
        let mut y = y;
        if name == "hyperlinks" {
            y = strip(x, &mut |e| e.attrs.retain(|a| a.0 != "display")).canon();
        }
        if name == "cols" {
            // The style index of a column depends on the order of formats.
            y = String::new();
            for c in x.els() {
                let s = c.au("style").unwrap_or(0) as u32;
                y.push_str(&format!("{:?}-{:?} {:?} {:?} {:?} {} ", c.a("min"), c.a("max"), c.a("width"), c.a("hidden"), c.a("customWidth"), f(s).unwrap_or_default()));
            }
        }
        if name == "conditionalFormatting" || name == "table" {
            for w in [" dxfId=", " dataDxfId="] {
                while let Some(i) = y.find(w) {
                    let j = y[i + w.len() + 1..].find('"').unwrap_or(0) + i + w.len() + 2;
                    y.replace_range(i..j, "");
                }
            }
        }
        let mut k = name.to_string();
        while out.rest.contains_key(&k) {
            k.push('+');
        }
        out.rest.insert(k, y);
    };
    for x in s.x.els() {
        if !["sheetData", "dimension", "legacyDrawing"].contains(&x.name.as_str()) {
            rest(&x.name, x);
        }
    }
    let me = p.sheets()?.get(n).ok_or("no sheet")?.part.clone();
    for r in p.rels(&me) {
        if r.external {
            rest("link", &El { name: "link".into(), attrs: vec![("to".into(), r.target.clone())], kids: vec![] });
            continue;
        }
        let t = opc::resolve(&me, &r.target);
        if t.ends_with(".vml") {
            continue;
        }
        let x = p.x(&t)?;
        rest(&x.name.clone(), x);
    }
    Ok(out)
}
fn same(want: &Seen, got: &Seen) -> R {
    diff(&want.cells, &got.cells).map_err(|e| format!("cells: {e}"))?;
    diff(&want.rows, &got.rows).map_err(|e| format!("rows: {e}"))?;
    diff(&want.rest, &got.rest)
}
/// Which calls are in row order: (apply to the modes, apply to the standard sheet).
struct Order {
    cur: u32,
    data: bool,
    ahead: bool,
}
impl Order {
    fn step(&mut self, k: K) -> (bool, bool) {
        match k {
            K::Meta => (true, true),
            K::First => (!self.data, !self.data),
            K::Cell(r) | K::Embed(r) => {
                let ok = r >= self.cur;
                self.data |= ok;
                self.cur = self.cur.max(r);
                (true, ok)
            }
            K::Ahead(r) | K::Walk(r, _) => {
                let ok = r >= self.cur;
                if ok {
                    self.data = true;
                    self.ahead |= matches!(k, K::Ahead(_));
                    self.cur = if let K::Walk(_, b) = k { b } else { r };
                }
                (ok, ok)
            }
            K::Table(r, header) => {
                let ok = r >= self.cur && !self.ahead;
                if ok {
                    self.data = true;
                    self.ahead = true;
                    if header {
                        self.cur = r;
                    }
                }
                (ok, ok)
            }
            K::Fmt(r) => {
                let ok = r == self.cur;
                self.data |= ok;
                (true, ok)
            }
            K::Result(r) => (r == self.cur, r == self.cur),
            K::Rows(a, b) => (a >= self.cur || a == b, a >= self.cur),
        }
    }
}
fn add(wb: &mut Workbook, m: M) -> &mut Worksheet {
    match m {
        M::Std => wb.add_worksheet(),
        M::Const => wb.add_worksheet_with_constant_memory(),
        M::Low => wb.add_worksheet_with_low_memory(),
    }
}
fn detached(wb: &mut Workbook, m: M) -> Worksheet {
    match m {
        M::Std => Worksheet::new(),
        M::Const => wb.new_worksheet_with_constant_memory(),
        M::Low => wb.new_worksheet_with_low_memory(),
    }
}
fn apply(w: &mut Worksheet, o: &Op, m: M, plan: (bool, bool), i: usize) -> Result<String, String> {
    let go = if m == M::Std { plan.1 } else { plan.0 };
    if !go {
        return Ok(String::new());
    }
    let r = guarded(|| (o.f)(w, i)).map_err(|p| format!("{} on the {m:?} sheet panics: {p}", o.name))?;
    if let (K::Embed(_), true) = (o.k, plan.0 && !plan.1) {
        if r.is_ok() {
            return Err(format!("{} was accepted", o.name));
        }
        return Ok(String::new());
    }
    Ok(format!("{:?}", r.err()))
}
const MODES: [M; 3] = [M::Std, M::Const, M::Low];
fn case(all: &[Op], s: &[usize], variants: u32, rec: &mut Rec) -> R {
    let mut ord = Order { cur: 0, data: false, ahead: false };
    let plan: Vec<(bool, bool)> = s
        .iter()
        .map(|&i| {
            rec.step();
            let p = ord.step(all[i].k);
            rec.state(&(ord.cur, ord.data, ord.ahead, i));
            p
        })
        .collect();
    if plan.iter().any(|p| !p.0) {
        // The rest of the sequence is the same as without the call.
        return Ok(());
    }
    for variant in 0..variants {
        rec.trace();
        let ctx = |e: String| format!("{}: {e}", ["in workbooks of their own", "together", "together, low memory first, added after writing"][variant as usize]);
        let mut pk: Vec<(M, Pkg, usize)> = vec![];
        if variant == 0 {
            let mut said: Vec<Vec<String>> = vec![];
            for m in MODES {
                let mut wb = Workbook::new();
                wb.add_worksheet().set_name("Dummy").map_err(|x| x.to_string())?;
                let w = add(&mut wb, m);
                let mut t = vec![];
                for (n, &i) in s.iter().enumerate() {
                    t.push(apply(w, &all[i], m, plan[n], n).map_err(ctx)?);
                }
                said.push(t);
                let p = guarded(|| closed(&mut wb)).unwrap_or_else(|p| Err(format!("saving panics: {p}"))).map_err(|e| ctx(format!("{m:?} sheet: {e}")))?;
                pk.push((m, p, 1));
            }
            for (n, p) in plan.iter().enumerate() {
                if p.1 && said.iter().any(|t| t[n] != said[0][n]) {
                    return Err(format!("{}: {:?}", all[s[n]].name, said.iter().map(|t| t[n].clone()).collect::<Vec<_>>()));
                }
            }
        } else {
            let mut wb = Workbook::new();
            wb.add_worksheet().set_name("Dummy").map_err(|x| x.to_string())?;
            let order = if variant == 1 { [M::Std, M::Const, M::Low] } else { [M::Low, M::Const, M::Std] };
            if variant == 1 {
                for m in order {
                    add(&mut wb, m);
                }
                for (n, &i) in s.iter().enumerate() {
                    for (k, m) in order.iter().enumerate() {
                        apply(wb.worksheet_from_index(k + 1).map_err(|x| x.to_string())?, &all[i], *m, plan[n], n).map_err(ctx)?;
                    }
                }
            } else {
                let mut ws: Vec<Worksheet> = order.iter().map(|m| detached(&mut wb, *m)).collect();
                for (k, m) in order.iter().enumerate() {
                    for (n, &i) in s.iter().enumerate() {
                        apply(&mut ws[k], &all[i], *m, plan[n], n).map_err(ctx)?;
                    }
                }
                for w in ws {
                    wb.push_worksheet(w);
                }
            }
            let p = guarded(|| closed(&mut wb)).unwrap_or_else(|p| Err(format!("saving panics: {p}"))).map_err(ctx)?;
            let b = std::rc::Rc::new(p);
            let want = read(&b, 1 + order.iter().position(|m| *m == M::Std).unwrap()).map_err(ctx)?;
            for (k, m) in order.iter().enumerate() {
                if *m != M::Std {
                    let got = read(&b, k + 1).map_err(|e| ctx(format!("{m:?} sheet: {e}")))?;
                    same(&want, &got).map_err(|e| ctx(format!("{m:?} sheet: {e}")))?;
                }
            }
            continue;
        }
        let want = read(&pk[0].1, pk[0].2).map_err(ctx)?;
        let link = |p: &Pkg| -> Result<bool, String> { Ok(p.x("xl/styles.xml")?.find_all("cellStyle").iter().any(|x| x.a("name") == Some("Hyperlink"))) };
        for (m, p, n) in &pk[1..] {
            let got = read(p, *n).map_err(|e| ctx(format!("{m:?} sheet: {e}")))?;
            same(&want, &got).map_err(|e| ctx(format!("{m:?} sheet: {e}")))?;
            if link(p)? != link(&pk[0].1)? {
                return Err(ctx(format!("{m:?} sheet: the style for links is missing or superfluous")));
            }
        }
        rec.seen(&format!("{want:?}"));
    }
    Ok(())
}
/// Calls with saves in between: rows that were saved have been passed.
fn saves(all: &[Op], s: &[usize], at: usize, rec: &mut Rec) -> R {
    let mut seen: Vec<Seen> = vec![];
    for m in MODES {
        rec.trace();
        let mut ord = Order { cur: 0, data: false, ahead: false };
        let mut wb = Workbook::new();
        wb.add_worksheet().set_name("Dummy").map_err(|x| x.to_string())?;
        add(&mut wb, m);
        let mut last = None;
        for (n, &i) in s.iter().enumerate() {
            if n == at {
                guarded(|| closed(&mut wb)).unwrap_or_else(|p| Err(format!("first save panics: {p}"))).map_err(|e| format!("{m:?} sheet: first save: {e}"))?;
                // All rows which were written are passed.
                if let Some(r) = last {
                    ord.cur = ord.cur.max(r + 1);
                    ord.data = true;
                }
            }
            rec.step();
            let k = all[i].k;
            if n >= at && !matches!(k, K::Meta) && matches!(k, K::Fmt(_) | K::Result(_) | K::Table(_, _)) {
                return Ok(());
            }
            let plan = ord.step(k);
            if !plan.1 {
                return Ok(());
            }
            last = match k {
                K::Cell(r) | K::Embed(r) | K::Fmt(r) => last.max(Some(r)),
                K::Rows(_, b) | K::Walk(_, b) => last.max(Some(b)),
                K::Ahead(_) | K::Table(_, _) => last.max(Some(5)),
                _ => last,
            };
            rec.state(&(ord.cur, last, i));
            let w = wb.worksheet_from_index(1).map_err(|x| x.to_string())?;
            apply(w, &all[i], m, plan, n)?;
        }
        if at == s.len() {
            save(&mut wb).map_err(|e| format!("{m:?} sheet: first save: {e}"))?;
        }
        let p = guarded(|| closed(&mut wb)).unwrap_or_else(|p| Err(format!("second save panics: {p}"))).map_err(|e| format!("{m:?} sheet: second save: {e}"))?;
        seen.push(read(&p, 1)?);
    }
    rec.seen(&format!("{:?}", seen[0]));
    same(&seen[0], &seen[1]).map_err(|e| format!("constant memory: {e}"))?;
    same(&seen[0], &seen[2]).map_err(|e| format!("low memory: {e}"))
}
fn run(run: &mut Run) {
    let all = ops();
    let n = all.len() as u64;
    let depth = run.pick(2, 3);
    run.explore("sequences of calls", seqs(n, depth), |i, rec| {
        let s = seq(i, n);
        rec.describe(|| s.iter().map(|&i| all[i].name.clone()).collect::<Vec<_>>().join("; "));
        case(&all, &s, if s.len() < 3 { 3 } else { 1 }, rec)
    });
    let few: Vec<usize> = ["number at 0", "bold string at 0", "string at 1", "blank at 1", "rich string at 3", "formula at 3", "row format 1", "row height 3", "merge A2:B4", "array A1:B2", "table without header", "cell format at 1", "group rows 1-3 collapsed", "embedded image at 0", "embedded image at 3"]
        .iter()
        .map(|x| all.iter().position(|o| o.name == *x).unwrap_or_else(|| panic!("{x}")))
        .collect();
    let k = few.len() as u64;
    run.explore("longer sequences of calls", seqs(k, run.pick(4, 5)), |i, rec| {
        let s: Vec<usize> = seq(i, k).into_iter().map(|x| few[x]).collect();
        rec.describe(|| s.iter().map(|&i| all[i].name.clone()).collect::<Vec<_>>().join("; "));
        case(&all, &s, if s.len() < 4 { 3 } else { 1 }, rec)
    });
    run.explore("saves in between", seqs(n, 2) * 3, |i, rec| {
        let s = seq(i / 3, n);
        let at = (i % 3) as usize;
        if at > s.len() {
            return Ok(());
        }
        rec.describe(|| format!("{}; with a save after {at} calls", s.iter().map(|&i| all[i].name.clone()).collect::<Vec<_>>().join("; ")));
        saves(&all, &s, at, rec)
    });
    let depth = run.pick(3, 4);
    run.explore("longer sequences with a save", seqs(k, depth) * u64::from(depth + 1), |i, rec| {
        let s: Vec<usize> = seq(i / u64::from(depth + 1), k).into_iter().map(|x| few[x]).collect();
        let at = (i % u64::from(depth + 1)) as usize;
        if at > s.len() {
            return Ok(());
        }
        rec.describe(|| format!("{}; with a save after {at} calls", s.iter().map(|&i| all[i].name.clone()).collect::<Vec<_>>().join("; ")));
        saves(&all, &s, at, rec)
    });
    // Positions: first and last rows and columns of a sheet, and far apart.
    let rows = [0u32, 1, 15, 16, 65_535, 1_048_574, 1_048_575];
    let cols = [0u16, 25, 26, 701, 702, 16_383];
    let (a, b) = (rows.len() as u64, cols.len() as u64);
    run.explore("positions", a * b * a * b, |i, rec| {
        let mut d = Dig(i);
        let (p, q) = ((*d.of(&rows), *d.of(&cols)), (*d.of(&rows), *d.of(&cols)));
        if q.0 < p.0 {
            return Ok(());
        }
        rec.describe(|| format!("writes at {p:?} and {q:?}"));
        rec.trace();
        rec.step();
        let mut wb = Workbook::new();
        wb.add_worksheet();
        for m in MODES {
            let w = add(&mut wb, m);
            for (n, x) in [p, q].iter().enumerate() {
                if n == 1 {
                    // Rows in between with settings but without cells.
                    for r in rows.iter().filter(|r| p.0 < **r && **r < q.0) {
                        w.set_row_height(*r, 40).map_err(|x| x.to_string())?;
                    }
                }
                w.write_string(x.0, x.1, format!("s{n}")).map_err(|x| x.to_string())?;
                w.set_row_height(x.0, 20 + n as u32).map_err(|x| x.to_string())?;
            }
        }
        let pk = closed(&mut wb)?;
        let want = read(&pk, 1)?;
        for k in 2..4 {
            same(&want, &read(&pk, k)?).map_err(|e| format!("{:?} sheet: {e}", MODES[k - 1]))?;
        }
        Ok(())
    });
}
