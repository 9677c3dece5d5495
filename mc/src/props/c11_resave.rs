//! C11: saving does not change a workbook: it can be saved again, changed, and saved again.
use super::c03_package as pk;
use super::c05_objects::{self as c05, name};
use super::util::*;
use super::Prop;
use crate::feat::{self, F};

pub const PROP: Prop = Prop {
    id: "C11",
    level: "model_checking",
    rule: "A case is a history of feature additions and saves on one workbook. states counts distinct expected contents at a save; transitions counts additions and saves; traces counts saved files compared with the file of a workbook built without the earlier saves.",
    assumes: &["the creation time is set by the program"],
    run,
};
fn new() -> Workbook {
    let mut wb = Workbook::new();
    wb.set_properties(&DocProperties::new().set_creation_datetime(&ExcelDateTime::from_ymd(2024, 1, 2).unwrap()));
    wb
}
/// Part by part comparison.
pub fn same_files(want: &[u8], got: &[u8]) -> R {
    if want == got {
        return Ok(());
    }
    let (a, b) = (Pkg::open(want)?, Pkg::open(got)?);
    for x in &a.parts {
        let y = b.part(&x.name).ok_or_else(|| format!("part {} is missing", x.name))?;
        // The dimension is a hint; it may cover rows that a save has hidden.
        if x.data != y.data && (x.xml.is_none() || undim(&x.data) != undim(&y.data)) {
            let k = x.data.iter().zip(&y.data).position(|c| c.0 != c.1).unwrap_or(x.data.len().min(y.data.len())).saturating_sub(40);
            let cut = |d: &[u8]| String::from_utf8_lossy(&d[k.min(d.len())..(k + 140).min(d.len())]).to_string();
            return Err(format!("{}: expected {:?}, found {:?}", x.name, cut(&x.data), cut(&y.data)));
        }
    }
    for y in &b.parts {
        if a.part(&y.name).is_none() {
            return Err(format!("unexpected part {}", y.name));
        }
    }
    Ok(())
}
fn undim(d: &[u8]) -> String {
    let s = String::from_utf8_lossy(d).to_string();
    match (s.find("<dimension "), s.find("<sheetViews>")) {
        (Some(a), Some(b)) if a < b => format!("{}{}", &s[..a], &s[b..]),
        _ => s,
    }
}
/// A package as text, with references into the style and string tables resolved: the order of
/// those tables depends on when the entries were first used.
pub fn resolved(p: &Pkg) -> Result<std::collections::BTreeMap<String, String>, String> {
    let st = book::styles(p)?;
    let sst = book::sst(p)?;
    let dxfs: Vec<String> = p.x("xl/styles.xml")?.first("dxfs").map(|d| d.els().map(feat::dxf_text).collect()).unwrap_or_default();
    let mut m = std::collections::BTreeMap::new();
    fn go(e: &El, sheet: bool, st: &Styles, sst: &Option<book::Sst>, dxfs: &[String], axes: &mut Vec<String>, s: &mut String) -> R {
        s.push_str(&format!("<{}", e.name));
        let text = sheet && e.name == "c" && e.a("t") == Some("s");
        for (k, v) in &e.attrs {
            // Axis ids only have a meaning within their chart.
            if k == "val" && matches!(e.name.as_str(), "c:axId" | "c:crossAx") {
                let n = axes.iter().position(|a| a == v).unwrap_or_else(|| {
                    axes.push(v.clone());
                    axes.len() - 1
                });
                s.push_str(&format!(" axis {n}"));
                continue;
            }
            let v = match (e.name.as_str(), k.as_str()) {
                ("dimension", _) if sheet => continue,
                ("c", "s") | ("row", "s") | ("col", "style") if sheet => tag(xf(st, v.parse().unwrap_or(9999))?),
                (_, "dxfId") | (_, "dataDxfId") => dxfs.get(v.parse::<usize>().unwrap_or(9999)).ok_or("dxf index")?.clone(),
                _ => v.clone(),
            };
            s.push_str(&format!(" {k}={v:?}"));
        }
        s.push('>');
        for k in &e.kids {
            match k {
                crate::xml::Node::El(x) if text && x.name == "v" => {
                    let i: usize = x.text().parse().unwrap_or(99999);
                    s.push_str(&format!("{:?}", sst.as_ref().and_then(|t| t.items.get(i)).ok_or("string index")?));
                }
                crate::xml::Node::El(x) => go(x, sheet, st, sst, dxfs, axes, s)?,
                crate::xml::Node::Text(t) => s.push_str(&format!("{t:?}")),
            }
        }
        s.push_str("</>");
        Ok(())
    }
    for part in &p.parts {
        let t = match (&part.xml, part.name.as_str()) {
            (_, "xl/styles.xml") | (_, "xl/sharedStrings.xml") => String::new(),
            (Some(x), n) => {
                let mut s = String::new();
                go(x, n.starts_with("xl/worksheets/"), &st, &sst, &dxfs, &mut vec![], &mut s)?;
                s
            }
            (None, _) => format!("{:x}", crate::engine::h(&part.data)),
        };
        m.insert(part.name.clone(), t);
    }
    Ok(m)
}
pub fn same_content(want: &[u8], got: &[u8]) -> R {
    if want == got {
        return Ok(());
    }
    let (a, b) = (resolved(&Pkg::open(want)?)?, resolved(&Pkg::open(got)?)?);
    for (n, x) in &a {
        let y = b.get(n).ok_or_else(|| format!("{n} is missing"))?;
        if x != y {
            let k = x.char_indices().zip(y.chars()).find(|c| c.0 .1 != c.1).map(|c| c.0 .0).unwrap_or(0);
            let cut = |d: &str| d.chars().skip(d[..k.min(d.len())].chars().count().saturating_sub(40)).take(140).collect::<String>();
            return Err(format!("{n}: expected {:?}, found {:?}", cut(x), cut(y)));
        }
    }
    for n in b.keys() {
        if !a.contains_key(n) {
            return Err(format!("unexpected {n}"));
        }
    }
    Ok(())
}
/// A history: steps on sheets, each an addition or a save.
#[derive(Clone, Copy, Debug)]
enum S {
    Add(usize, F),
    Save,
}
fn play(nsheets: usize, h: &[S], saves: bool) -> Result<Vec<u8>, String> {
    let mut wb = new();
    for i in 0..nsheets {
        e(wb.add_worksheet().set_name(name(i)))?;
    }
    let mut last = vec![];
    for s in h {
        match s {
            S::Add(i, f) => {
                let ws = e(wb.worksheet_from_index(*i))?;
                feat::apply(ws, &name(*i), *f).map_err(|m| format!("{f:?}: {m}"))?;
            }
            S::Save if saves => last = save(&mut wb)?,
            S::Save => {}
        }
    }
    if !saves {
        last = save(&mut wb)?;
    }
    Ok(last)
}
fn check(nsheets: usize, h: &[S], rec: &mut Rec) -> R {
    let mut per: Vec<Vec<F>> = vec![vec![]; nsheets];
    for s in h {
        rec.step();
        if let S::Add(i, f) = s {
            per[*i].push(*f);
        }
    }
    let text: Vec<Vec<String>> = per.iter().enumerate().map(|(i, v)| v.iter().flat_map(|f| feat::expected(&name(i), *f)).collect()).collect();
    rec.state(&text);
    let fresh = play(nsheets, h, false)?;
    let again = play(nsheets, h, true)?;
    rec.trace();
    rec.seen(&text);
    let p = Pkg::open(&again)?;
    opc::check(&p)?;
    schema::check(&p)?;
    for (i, fs) in per.iter().enumerate() {
        feat::check(&p, i, &name(i), fs)?;
    }
    // Without additions after the first save the files are the same.
    let first_save = h.iter().position(|s| matches!(s, S::Save)).unwrap_or(0);
    if h[first_save..].iter().all(|s| matches!(s, S::Save)) {
        return same_files(&fresh, &again);
    }
    same_content(&fresh, &again)
}
const OPS: usize = 18;
fn op_text(k: usize) -> String {
    match k {
        0..=2 => format!("activate sheet {k}"),
        3..=4 => format!("select sheet {}", k - 3),
        5..=6 => format!("hide sheet {}", k - 4),
        7..=8 => format!("first tab sheet {}", k - 6),
        9..=10 => format!("rename sheet {}", k - 9),
        11 => "add a sheet".into(),
        12 => "remove the first sheet".into(),
        13 => "swap sheets 0 and 1".into(),
        14 => "define a global name".into(),
        15 => "add a table without a name to the first sheet".into(),
        16 => "add a table without a name to the last sheet".into(),
        _ => "protect the first sheet".into(),
    }
}
fn sheet_op(wb: &mut Workbook, k: usize, n: usize) -> R {
    let count = wb.worksheets().len();
    let ws = wb.worksheets_mut();
    match k {
        0..=2 => drop(ws[k.min(count - 1)].set_active(true)),
        3..=4 => drop(ws[k - 3].set_selected(true)),
        5..=6 => {
            if k - 4 < count {
                ws[k - 4].set_hidden(true);
            }
        }
        7..=8 => {
            if k - 6 < count {
                ws[k - 6].set_first_tab(true);
            }
        }
        9..=10 => drop(e(ws[k - 9].set_name(format!("New name {n}")))?),
        11 => drop(wb.add_worksheet()),
        12 => {
            if count > 2 {
                ws.remove(0);
            }
        }
        13 => ws.swap(0, 1),
        14 => drop(e(wb.define_name(format!("Name_{n}").as_str(), "=1+2"))?),
        15 => drop(e(ws[0].add_table(100 + 10 * n as u32, 1, 103 + 10 * n as u32, 2, &Table::new()))?),
        16 => drop(e(ws[count - 1].add_table(100 + 10 * n as u32, 1, 103 + 10 * n as u32, 2, &Table::new()))?),
        _ => drop(ws[0].protect()),
    }
    Ok(())
}
const SETS: [&str; 30] = [
    "A2 = 1", "A2 = text", "A2 cleared", "A3 = 1", "A3 blank with a format", "filter A1:B5", "list filter on A", "custom filter on A", "filter on A removed",
    "automatic filter off", "hide row 2", "unhide row 2", "height of row 3", "format of row 2", "format of column A", "width of column A", "autofit", "show notes", "hide notes", "a note at C3",
    "a visible note at C4", "a chart over A2:A4", "a header", "no header", "protect", "a page break", "freeze panes", "clear the format of A2", "embed an image at E5", "an image over rows 2 to 4",
];
fn set(ws: &mut Worksheet, k: usize, n: usize) -> R {
    let bold = Format::new().set_bold().set_font_size(10 + n as u32);
    match k {
        0 => drop(e(ws.write(1, 0, 1))?),
        1 => drop(e(ws.write(1, 0, "text"))?),
        2 => drop(ws.clear_cell(1, 0)),
        3 => drop(e(ws.write(2, 0, 1))?),
        4 => drop(e(ws.write_blank(2, 0, &bold))?),
        5 => drop(e(ws.autofilter(0, 0, 4, 1))?),
        6 => drop(e(ws.filter_column(0, &FilterCondition::new().add_list_filter(1)))?),
        7 => drop(e(ws.filter_column(0, &FilterCondition::new().add_custom_filter(FilterCriteria::GreaterThan, 0)))?),
        8 => drop(ws.filter_column(0, &FilterCondition::new().add_list_blanks_filter())),
        9 => drop(ws.filter_automatic_off()),
        10 => drop(e(ws.set_row_hidden(1))?),
        11 => drop(e(ws.set_row_unhidden(1))?),
        12 => drop(e(ws.set_row_height(2, 20 + n as u32))?),
        13 => drop(e(ws.set_row_format(1, &bold))?),
        14 => drop(e(ws.set_column_format(0, &bold))?),
        15 => drop(e(ws.set_column_width(0, 20 + n as u32))?),
        16 => drop(ws.autofit()),
        17 => drop(ws.show_all_notes(true)),
        18 => drop(ws.show_all_notes(false)),
        19 => drop(e(ws.insert_note(2, 2, &Note::new(format!("note {n}"))))?),
        20 => drop(e(ws.insert_note(3, 2, &Note::new(format!("note {n}")).set_visible(true).set_author("X")))?),
        21 => {
            let mut c = Chart::new(ChartType::Line);
            c.add_series().set_values("Data!$A$2:$A$4").set_name("Data!$A$2");
            c.title().set_name("Data!$A$3");
            drop(e(ws.insert_chart(10, 1, &c))?)
        }
        22 => drop(ws.set_header(format!("&C{n}"))),
        23 => drop(ws.set_header("")),
        24 => drop(ws.protect()),
        25 => drop(e(ws.set_page_breaks(&[3 + n as u32]))?),
        26 => drop(e(ws.set_freeze_panes(n as u32 + 1, 1))?),
        27 => drop(ws.clear_cell_format(1, 0)),
        28 => drop(e(ws.embed_image(4, 4, &feat::image(0, n as u32)?))?),
        _ => drop(e(ws.insert_image(0, 5, &feat::image(1, n as u32)?.set_scale_height(800.0).set_object_movement(ObjectMovement::MoveAndSizeWithCells)))?),
    }
    Ok(())
}
fn run(run: &mut Run) {
    run.explore("settings of one sheet changed between saves", (SETS.len() as u64).pow(if run.thorough { 4 } else { 3 }), |i, rec| {
        let depth = if rec.thorough { 4 } else { 3 };
        let mut d = Dig(i);
        let h: Vec<usize> = (0..depth).map(|_| d.take(SETS.len())).collect();
        rec.describe(|| h.iter().map(|k| SETS[*k]).collect::<Vec<_>>().join("; "));
        rec.state(&h);
        rec.steps(h.len());
        let play = |saves: bool| -> Result<Option<Vec<u8>>, String> {
            let mut wb = new();
            let ws = wb.add_worksheet();
            e(ws.set_name("Data"))?;
            e(ws.write(0, 0, "Head"))?;
            e(ws.write(4, 1, 2))?;
            for (n, k) in h.iter().enumerate() {
                if set(e(wb.worksheet_from_index(0))?, *k, n).is_err() {
                    return Ok(None);
                }
                if saves && n + 1 < h.len() {
                    save(&mut wb)?;
                }
            }
            Ok(Some(save(&mut wb)?))
        };
        let (fresh, again) = match (play(false)?, play(true)?) {
            (Some(a), Some(b)) => (a, b),
            (None, None) => return Ok(()),
            (a, _) => return Err(format!("a call is {} only with saves between", if a.is_none() { "accepted" } else { "refused" })),
        };
        rec.trace();
        rec.seen(&h);
        same_content(&fresh, &again)
    });
    let ks = feat::KINDS;
    let n = ks.len() as u64;
    let x = |k, slot, id| F { k, slot, id };
    run.explore("one feature saved up to three times", n * 4, |i, rec| {
        let mut d = Dig(i);
        let k = *d.of(ks);
        let saves = 2 + d.take(2);
        let two = d.flag();
        rec.describe(|| format!("{k:?} and {saves} saves{}", if two { ", twice" } else { "" }));
        let mut h = vec![S::Add(1, x(k, 0, 1))];
        if two {
            h.push(S::Add(0, x(k, 1, 2)));
            if !feat::single(k) {
                h.push(S::Add(1, x(k, 2, 3)));
            }
        }
        for _ in 0..saves {
            h.push(S::Save);
        }
        check(2, &h, rec)
    });
    let lays = run.pick(3, 6);
    run.explore("save, add, save for every pair of features", n * n * lays, |i, rec| {
        let mut d = Dig(i);
        let (a, b) = (*d.of(ks), *d.of(ks));
        let h = match d.take(lays as usize) {
            0 => vec![S::Add(0, x(a, 0, 1)), S::Save, S::Add(0, x(b, 1, 2)), S::Save],
            1 => vec![S::Add(1, x(a, 0, 1)), S::Save, S::Add(0, x(b, 0, 2)), S::Save],
            2 => vec![S::Add(0, x(a, 0, 1)), S::Add(0, x(b, 1, 2)), S::Save, S::Save],
            3 => vec![S::Add(0, x(a, 0, 1)), S::Add(1, x(b, 0, 2)), S::Save, S::Add(1, x(a, 1, 3)), S::Save, S::Add(0, x(b, 1, 4)), S::Save],
            4 => vec![S::Save, S::Add(0, x(a, 0, 1)), S::Save, S::Add(0, x(b, 1, 2)), S::Save, S::Save],
            _ => vec![S::Add(0, x(b, 2, 1)), S::Save, S::Add(0, x(a, 0, 2)), S::Save, S::Add(1, x(b, 1, 3)), S::Save],
        };
        rec.describe(|| format!("{h:?}"));
        let per: Vec<F> = h.iter().filter_map(|s| if let S::Add(_, f) = s { Some(*f) } else { None }).collect();
        if c05::clash(&per) {
            return Ok(());
        }
        check(2, &h, rec)
    });
    let ls = &feat::LINKED[..run.pick(20, feat::LINKED.len() as u64) as usize];
    let m = ls.len() as u64;
    run.explore("save, add, save, add, save", m * m * m, |i, rec| {
        let mut d = Dig(i);
        let (a, b, c) = (*d.of(ls), *d.of(ls), *d.of(ls));
        let h = [S::Add(0, x(a, 0, 1)), S::Save, S::Add(0, x(b, 1, 2)), S::Save, S::Add(1, x(c, 0, 3)), S::Save];
        rec.describe(|| format!("{h:?}"));
        if c05::clash(&[x(a, 0, 1), x(b, 1, 2)]) {
            return Ok(());
        }
        check(2, &h, rec)
    });
    run.explore("operations on the sheets and names, with and without saves between", (OPS as u64).pow(3), |i, rec| {
        let mut d = Dig(i);
        let h = [d.take(OPS), d.take(OPS), d.take(OPS)];
        rec.describe(|| format!("operations {h:?}: {}", h.map(op_text).join(", ")));
        rec.state(&h);
        rec.steps(3);
        let play = |saves: bool| -> Result<(Vec<u8>, Vec<u8>), String> {
            let mut wb = new();
            for k in 0..3u32 {
                let ws = wb.add_worksheet();
                e(ws.set_name(name(k as usize)))?;
                for (s, f) in [feat::K::Filter, feat::K::PrintArea, feat::K::Png, feat::K::Plain].into_iter().enumerate() {
                    if k != 1 || s != 1 {
                        feat::apply(ws, &name(k as usize), x(f, s as u32, 10 * k + s as u32))?;
                    }
                }
            }
            let mut last = vec![];
            for (n, k) in h.iter().enumerate() {
                if saves && n > 0 {
                    save(&mut wb)?;
                }
                sheet_op(&mut wb, *k, n)?;
            }
            if saves {
                last = save(&mut wb)?;
            }
            Ok((save(&mut wb)?, last))
        };
        let (fresh, _) = play(false)?;
        let (again, last) = play(true)?;
        rec.trace();
        rec.seen(&h);
        opc::check(&Pkg::open(&again)?)?;
        same_content(&fresh, &again)?;
        same_files(&again, &last)
    });
    // The sheets of two features change place between saves.
    run.explore("sheets with features moved between saves", n * n * 5, |i, rec| {
        let mut d = Dig(i);
        let (a, b, op) = (*d.of(ks), *d.of(ks), d.take(5));
        rec.describe(|| format!("{a:?} in sheet 0, {b:?} in sheet 1, save, {}", ["swap", "remove sheet 0", "insert a sheet", "remove sheet 1", "insert a sheet with a note and an image"][op]));
        rec.state(&i);
        rec.steps(3);
        let play = |saves: bool| -> Result<Vec<u8>, String> {
            let mut wb = new();
            for (k, f) in [x(a, 0, 1), x(b, 0, 2)].into_iter().enumerate() {
                let ws = wb.add_worksheet();
                e(ws.set_name(name(k)))?;
                feat::apply(ws, &name(k), f)?;
            }
            // The tables of strings and formats keep the entries of a removed sheet.
            let ws = wb.add_worksheet();
            e(ws.write(0, 0, "text"))?;
            e(ws.insert_checkbox(1, 0, true))?;
            if saves {
                save(&mut wb)?;
            }
            let ws = wb.worksheets_mut();
            match op {
                0 => ws.swap(0, 1),
                1 => drop(ws.remove(0)),
                3 => drop(ws.remove(1)),
                _ => {
                    let mut w = Worksheet::new();
                    e(w.set_name("Inserted"))?;
                    if op == 4 {
                        feat::apply(&mut w, "Inserted", x(feat::K::Note, 0, 3))?;
                        feat::apply(&mut w, "Inserted", x(feat::K::Png, 1, 4))?;
                    }
                    ws.insert(0, w);
                }
            }
            save(&mut wb)
        };
        let (fresh, again) = (play(false)?, play(true)?);
        rec.trace();
        rec.seen(&i);
        opc::check(&Pkg::open(&again)?)?;
        same_content(&fresh, &again)
    });
    run.explore("workbook features saved twice", 1 << pk::WS.len(), |i, rec| {
        let w: Vec<pk::W> = pk::WS.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|x| *x.1).collect();
        if w.contains(&pk::W::Vba) && w.contains(&pk::W::Signed) {
            return Ok(());
        }
        rec.describe(|| format!("{w:?}"));
        let build = || {
            let mut wb = pk::build(&w, &[vec![x(feat::K::Formatted, 0, 1), x(feat::K::Note, 1, 2), x(feat::K::Chart, 2, 3)]])?;
            wb.set_properties(&DocProperties::new().set_creation_datetime(&ExcelDateTime::from_ymd(2024, 1, 2).unwrap()));
            Ok::<Workbook, String>(wb)
        };
        rec.state(&i);
        rec.steps(3);
        rec.trace();
        rec.seen(&i);
        let fresh = save(&mut build()?)?;
        let mut wb = build()?;
        save(&mut wb)?;
        let again = save(&mut wb)?;
        opc::check(&Pkg::open(&again)?)?;
        same_files(&fresh, &again)
    });
}
