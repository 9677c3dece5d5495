//! C27: the view, page and print settings of a sheet.
use super::util::*;
use super::Prop;
use crate::opt;
use crate::opt::{Dom, Flat, Opt, St};

pub const PROP: Prop = Prop {
    id: "C27",
    level: "model_checking",
    rule: "Model: the setting in force for each group of settings (the last call wins), rendered to the expected elements and attributes of the sheet and its print names. All sequences of settings up to the depth, every setting on top of all the others, and all but one group, are applied to the real Worksheet and the whole sheet part is compared.",
    assumes: &["a missing pageSetup stands for its defaults; empty printOptions and headerFooter elements say nothing"],
    run,
};
type V = Vec<Opt<Worksheet>>;
fn sw(v: &mut V, name: &str, f: fn(&mut Worksheet, bool), on: &str, off: &str) {
    let g = name.to_string();
    opt!(v, format!("{name} on"), g, move |w| { f(w, true); Ok(()) }, on);
    opt!(v, format!("{name} off"), g, move |w| { f(w, false); Ok(()) }, off);
}
const VIEW: &str = "ws/sheetViews/sheetView";
pub fn opts() -> V {
    let mut v: V = vec![];
    // The view.
    sw(&mut v, "gridlines", |w, b| { w.set_screen_gridlines(b); }, "", &format!("{VIEW}@showGridLines=0"));
    sw(&mut v, "right to left", |w, b| { w.set_right_to_left(b); }, &format!("{VIEW}@rightToLeft=1"), "");
    for z in [10u16, 75, 100, 400] {
        opt!(v, format!("zoom {z}"), "zoom", move |w| { w.set_zoom(z); Ok(()) }, "");
    }
    for z in [9u16, 401] {
        // Out of range: ignored.
        opt!(v, format!("zoom {z}"), format!("bad zoom {z}"), move |w| { w.set_zoom(z); Ok(()) }, "");
    }
    opt!(v, "view normal", "view", |w| { w.set_view_normal(); Ok(()) }, "");
    opt!(v, "view page layout", "view", |w| { w.set_view_page_layout(); Ok(()) }, format!("{VIEW}@view=pageLayout"));
    opt!(v, "view page breaks", "view", |w| { w.set_view_page_break_preview(); Ok(()) }, format!("{VIEW}@view=pageBreakPreview"));
    for (r, c, n) in [(31, 26, "AA32"), (0, 1, "B1"), (0, 0, "")] {
        opt!(v, format!("top left {r} {c}"), "top left", move |w| e(w.set_top_left_cell(r, c)).map(|_| ()), if n.is_empty() { String::new() } else { format!("{VIEW}@topLeftCell={n}") });
    }
    for (a, t, s) in [((3, 2, 3, 2), "C4", "C4"), ((6, 6, 3, 2), "G7", "C4:G7"), ((3, 6, 6, 2), "G4", "C4:G7"), ((0, 0, 0, 0), "A1", "A1")] {
        opt!(v, format!("selection {a:?}"), "selection", move |w| e(w.set_selection(a.0, a.1, a.2, a.3)).map(|_| ()), format!("SEL@activeCell={t};SEL@sqref={s}"));
    }
    for (r, c) in [(0, 0), (1, 0), (0, 1), (2, 3)] {
        opt!(v, format!("freeze {r} {c}"), "freeze", move |w| e(w.set_freeze_panes(r, c)).map(|_| ()), "");
    }
    for (r, c) in [(0, 0), (20, 0), (7, 5)] {
        opt!(v, format!("top cell {r} {c}"), "top cell", move |w| e(w.set_freeze_panes_top_cell(r, c)).map(|_| ()), "");
    }
    // Sheet properties.
    opt!(v, "tab color", "tab color", |w| { w.set_tab_color(Color::RGB(0xFF9900)); Ok(()) }, "ws/sheetPr/tabColor@rgb=FFFF9900");
    opt!(v, "tab color theme", "tab color", |w| { w.set_tab_color(Color::Theme(5, 1)); Ok(()) }, "ws/sheetPr/tabColor@theme=5;ws/sheetPr/tabColor@tint=0.79998168889431442");
    opt!(v, "code name", "code name", |w| e(w.set_vba_name("Code_1")).map(|_| ()), "ws/sheetPr@codeName=Code_1");
    sw(&mut v, "symbols above", |w, b| { w.group_symbols_above(b); }, "ws/sheetPr/outlinePr@summaryBelow=0", "");
    sw(&mut v, "symbols left", |w, b| { w.group_symbols_to_left(b); }, "ws/sheetPr/outlinePr@summaryRight=0", "");
    // Print options.
    let po = "ws/printOptions";
    sw(&mut v, "center horizontally", |w, b| { w.set_print_center_horizontally(b); }, &format!("{po}@horizontalCentered=1"), "");
    sw(&mut v, "center vertically", |w, b| { w.set_print_center_vertically(b); }, &format!("{po}@verticalCentered=1"), "");
    sw(&mut v, "print gridlines", |w, b| { w.set_print_gridlines(b); }, &format!("{po}@gridLines=1"), "");
    sw(&mut v, "print headings", |w, b| { w.set_print_headings(b); }, &format!("{po}@headings=1"), "");
    // Margins.
    for (i, n) in ["left", "right", "top", "bottom", "header", "footer"].iter().enumerate() {
        for x in [0.0, 1.25] {
            opt!(v, format!("margin {n} {x}"), format!("margin {n}"), move |w| {
                let mut m = [-1.0; 6];
                m[i] = x;
                w.set_margins(m[0], m[1], m[2], m[3], m[4], m[5]);
                Ok(())
            }, format!("ws/pageMargins@{n}={x}"));
        }
    }
    // Page setup.
    let ps = "ws/pageSetup";
    opt!(v, "landscape", "orientation", |w| { w.set_landscape(); Ok(()) }, format!("{ps}@orientation=landscape"));
    opt!(v, "portrait", "orientation", |w| { w.set_portrait(); Ok(()) }, format!("{ps}@orientation=portrait"));
    for n in [0u8, 1, 9, 255] {
        opt!(v, format!("paper {n}"), "paper", move |w| { w.set_paper_size(n); Ok(()) }, if n > 0 { format!("{ps}@paperSize={n}") } else { String::new() });
    }
    sw(&mut v, "page order", |w, b| { w.set_page_order(b); }, "", &format!("{ps}@pageOrder=overThenDown"));
    sw(&mut v, "black and white", |w, b| { w.set_print_black_and_white(b); }, &format!("{ps}@blackAndWhite=1"), "");
    sw(&mut v, "draft", |w, b| { w.set_print_draft(b); }, &format!("{ps}@draft=1"), "");
    for n in [1u16, 2, 300] {
        let first = if n == 1 { String::new() } else { format!(";{ps}@firstPageNumber={n}") };
        opt!(v, format!("first page {n}"), "first page", move |w| { w.set_print_first_page_number(n); Ok(()) }, format!("{ps}@useFirstPageNumber=1{first}"));
    }
    // Scale and fit exclude each other.
    for n in [10u16, 100, 400] {
        opt!(v, format!("scale {n}"), "scale or fit", move |w| { w.set_print_scale(n); Ok(()) }, if n == 100 { String::new() } else { format!("{ps}@scale={n}") });
    }
    for n in [9u16, 401] {
        opt!(v, format!("scale {n}"), format!("bad scale {n}"), move |w| { w.set_print_scale(n); Ok(()) }, "");
    }
    for (a, b) in [(1u16, 1u16), (1, 0), (0, 2), (3, 1)] {
        let mut s = "ws/sheetPr/pageSetUpPr@fitToPage=1".to_string();
        if a != 1 {
            s.push_str(&format!(";{ps}@fitToWidth={a}"));
        }
        if b != 1 {
            s.push_str(&format!(";{ps}@fitToHeight={b}"));
        }
        opt!(v, format!("fit {a} {b}"), "scale or fit", move |w| { w.set_print_fit_to_pages(a, b); Ok(()) }, s);
    }
    // Header and footer.
    let hf = "ws/headerFooter";
    for (i, (t, x)) in [("&L&[Tab]&C&[Page] of &[Pages]&R&[Date] <&[Time]>", "&L&A&C&P of &N&R&D <&T>"), ("plain", "plain"), ("&C&[File] in &[Path]", "&C&F in &Z"), ("", "")].iter().enumerate() {
        opt!(v, format!("header {i}"), "header", move |w| { w.set_header(*t); Ok(()) }, if x.is_empty() { String::new() } else { format!("{hf}/oddHeader={x}") });
        opt!(v, format!("footer {i}"), "footer", move |w| { w.set_footer(*t); Ok(()) }, if x.is_empty() { String::new() } else { format!("{hf}/oddFooter={x}") });
    }
    // One character too long (after expansion): ignored. 255 are accepted.
    let l255 = "x".repeat(255);
    opt!(v, "header 255", "header", { let t = l255.clone(); move |w: &mut Worksheet| { w.set_header(&t); Ok(()) } }, format!("{hf}/oddHeader={l255}"));
    opt!(v, "header 256", "bad header", move |w| { w.set_header("\u{e9}".repeat(256)); Ok(()) }, "");
    opt!(v, "footer 256", "bad footer", move |w| { w.set_footer("y".repeat(254) + "&[Page]"); Ok(()) }, "");
    opt!(v, "header expanded 255", "header", move |w| { w.set_header("\u{e9}".repeat(253) + "&[Page]"); Ok(()) }, format!("{hf}/oddHeader={}&P", "\u{e9}".repeat(253)));
    sw(&mut v, "scale with document", |w, b| { w.set_header_footer_scale_with_doc(b); }, "", &format!("{hf}@scaleWithDoc=0"));
    sw(&mut v, "align with page", |w, b| { w.set_header_footer_align_with_page(b); }, "", &format!("{hf}@alignWithMargins=0"));
    // Page breaks.
    for (el, max, row) in [("rowBreaks", 16383, true), ("colBreaks", 1048575, false)] {
        for b in [vec![3u32], vec![20, 1, 20, 0, 7], vec![0], vec![if row { 1_048_575 } else { 16_383 }], vec![5, 4, 3, 2, 1]] {
            let mut s: Vec<u32> = b.iter().copied().filter(|x| *x > 0).collect();
            s.sort();
            s.dedup();
            let mut want = String::new();
            // A break behind the last row or column is refused.
            let bad = s.last() == Some(&if row { 1_048_576 } else { 16_384 });
            if !s.is_empty() {
                want = format!("ws/{el}@count={0};ws/{el}@manualBreakCount={0}", s.len());
                for (i, x) in s.iter().enumerate() {
                    let n = if i == 0 { String::new() } else { format!("[{}]", i + 1) };
                    want.push_str(&format!(";ws/{el}/brk{n}@id={x};ws/{el}/brk{n}@max={max};ws/{el}/brk{n}@man=1"));
                }
            }
            assert!(!bad);
            opt!(v, format!("{el} {b:?}"), el, move |w| if row { e(w.set_page_breaks(&b)).map(|_| ()) } else { e(w.set_vertical_page_breaks(&b)).map(|_| ()) }, want);
        }
    }
    // Print area and titles: names of this sheet.
    for (a, t) in [
        ((0, 0, 31, 12), "$A$1:$M$32"),
        ((2, 1, 2, 1), "$B$3"),
        ((4, 0, 31, 16383), "$5:$32"),
        ((0, 2, 1_048_575, 12), "$C:$M"),
        ((0, 0, 1_048_575, 16_383), ""),
    ] {
        opt!(v, format!("print area {a:?}"), "print area", move |w| e(w.set_print_area(a.0, a.1, a.2, a.3)).map(|_| ()), if t.is_empty() { String::new() } else { format!("names/1/_xlnm.Print_Area='It''s'!{t}") });
    }
    for (a, b) in [(0u32, 0u32), (3, 1_048_575)] {
        opt!(v, format!("repeat rows {a} {b}"), "repeat rows", move |w| e(w.set_repeat_rows(a, b)).map(|_| ()), format!("ROWS='It''s'!${}:${}", a + 1, b + 1));
    }
    for (a, b, t) in [(0u16, 0u16, "$A:$A"), (26, 16_383, "$AA:$XFD")] {
        opt!(v, format!("repeat columns {a} {b}"), "repeat columns", move |w| e(w.set_repeat_columns(a, b)).map(|_| ()), format!("COLS='It''s'!{t}"));
    }
    // Default row settings.
    for h in [15.0, 20.25, 30.0] {
        opt!(v, format!("default row height {h}"), "default row height", move |w| { w.set_default_row_height(h); Ok(()) }, if h == 15.0 { String::new() } else { format!("ws/sheetFormatPr@defaultRowHeight={h};ws/sheetFormatPr@customHeight=1") });
    }
    sw(&mut v, "hide unused", |w, b| { w.hide_unused_rows(b); }, "ws/sheetFormatPr@zeroHeight=1", "");
    // Ignored errors.
    for (i, (k, n)) in [
        (IgnoreError::NumberStoredAsText, "numberStoredAsText"),
        (IgnoreError::FormulaError, "evalError"),
        (IgnoreError::FormulaDiffers, "formula"),
        (IgnoreError::FormulaRefersToEmptyCells, "emptyCellReference"),
        (IgnoreError::FormulaOmitsCells, "formulaRange"),
        (IgnoreError::DataValidationError, "listDataValidation"),
        (IgnoreError::TwoDigitTextYear, "twoDigitTextYear"),
        (IgnoreError::UnlockedCellsWithFormula, "unlockedFormula"),
        (IgnoreError::InconsistentColumnFormula, "calculatedColumn"),
    ]
    .into_iter()
    .enumerate()
    {
        // A range may be named only once.
        opt!(v, format!("ignore {n}"), format!("ignore {n}"), move |w| { let _ = w.ignore_error_range(i as u32, 0, i as u32 + 1, 2, k); Ok(()) }, format!("IGN/{n}=A{}:C{}", i + 1, i + 2));
    }
    v
}
fn rule(st: &St, m: &mut Flat) {
    // Zoom depends on the view.
    let z = st.force.get("zoom").map(|z| z[5..].to_string()).unwrap_or("100".into());
    if z != "100" {
        m.insert(format!("{VIEW}@zoomScale"), z.clone());
        let k = match st.force.get("view") {
            Some(&"view page layout") => "zoomScalePageLayoutView",
            Some(&"view page breaks") => "zoomScaleSheetLayoutView",
            _ => "zoomScaleNormal",
        };
        m.insert(format!("{VIEW}@{k}"), z);
    }
    // Panes.
    let num = |s: &str| -> Vec<u32> { s.split(' ').filter_map(|x| x.parse().ok()).collect() };
    let fz = st.force.get("freeze").map(|s| num(s)).unwrap_or(vec![0, 0]);
    let top = st.force.get("top cell").map(|s| num(s)).unwrap_or(vec![0, 0]);
    let (r, c) = (fz[0], fz[1] as u16);
    let mut nsel = 0;
    if r > 0 || c > 0 {
        let p = format!("{VIEW}/pane");
        m.insert(p.clone(), String::new());
        if c > 0 {
            m.insert(format!("{p}@xSplit"), c.to_string());
        }
        if r > 0 {
            m.insert(format!("{p}@ySplit"), r.to_string());
        }
        let t = if top == [0, 0] { (r, c) } else { (top[0], top[1] as u16) };
        m.insert(format!("{p}@topLeftCell"), cell_name(t.0, t.1));
        m.insert(format!("{p}@state"), "frozen".into());
        let active = if r > 0 && c > 0 { "bottomRight" } else if c > 0 { "topRight" } else { "bottomLeft" };
        m.insert(format!("{p}@activePane"), active.into());
        let mut sel = |pane: &str, cell: Option<String>| {
            nsel += 1;
            let s = if nsel == 1 { format!("{VIEW}/selection") } else { format!("{VIEW}/selection[{nsel}]") };
            m.insert(s.clone(), String::new());
            m.insert(format!("{s}@pane"), pane.into());
            if let Some(x) = cell {
                m.insert(format!("{s}@activeCell"), x.clone());
                m.insert(format!("{s}@sqref"), x);
            }
        };
        if r > 0 && c > 0 {
            sel("topRight", Some(cell_name(0, c)));
            sel("bottomLeft", Some(cell_name(r, 0)));
        }
        sel(active, None);
    }
    if let (Some(a), Some(s)) = (m.remove("SEL@activeCell"), m.remove("SEL@sqref")) {
        m.remove("SEL");
        let p = if nsel == 0 { format!("{VIEW}/selection") } else { format!("{VIEW}/selection[{}]", nsel + 1) };
        m.insert(p.clone(), String::new());
        m.insert(format!("{p}@activeCell"), a);
        m.insert(format!("{p}@sqref"), s);
    }
    let t: Vec<String> = ["COLS", "ROWS"].iter().filter_map(|k| m.remove(*k)).collect();
    if !t.is_empty() {
        m.insert("names".into(), String::new());
        m.insert("names/1".into(), String::new());
        m.insert("names/1/_xlnm.Print_Titles".into(), t.join(","));
    }
    // Ignored errors: one element per kind, a set here.
    let ign: Vec<(String, String)> = m.iter().filter(|(k, _)| k.starts_with("IGN/")).map(|(k, v)| (k[4..].to_string(), v.clone())).collect();
    m.retain(|k, _| !k.starts_with("IGN"));
    for (k, v) in ign {
        m.insert("ws/ignoredErrors".into(), String::new());
        m.insert(format!("ws/ignoredErrors/{k}"), v);
    }
}
/// The facts of the n-th sheet, with defaults filled in.
pub fn facts(p: &Pkg, n: usize) -> Result<Flat, String> {
    let mut m = crate::opt::flat(p.sheet(n)?, "ws");
    m.retain(|k, _| !k.starts_with("ws@xmlns") && k != "ws@mc:Ignorable");
    let bare = |m: &Flat, p: &str| m.contains_key(p) && !m.keys().any(|k| k.len() > p.len() && k.starts_with(p) && matches!(k.as_bytes()[p.len()], b'/' | b'@'));
    for p in ["ws/printOptions", "ws/headerFooter", "ws/sheetPr"] {
        if bare(&m, p) {
            m.remove(p);
        }
    }
    if !m.contains_key("ws/pageSetup") {
        for (k, v) in [("", ""), ("@orientation", "portrait"), ("@horizontalDpi", "200"), ("@verticalDpi", "200")] {
            m.insert(format!("ws/pageSetup{k}"), v.into());
        }
    }
    // Ignored errors by kind.
    let ig: Vec<(String, String)> = m.iter().filter(|(k, _)| k.starts_with("ws/ignoredErrors/")).map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, _) in &ig {
        m.remove(k);
    }
    for (k, v) in &ig {
        if let Some((el, a)) = k.split_once('@') {
            if a != "sqref" {
                if v != "1" {
                    return Err(format!("{k}={v}"));
                }
                let s = ig.iter().find(|x| x.0 == format!("{el}@sqref")).map(|x| x.1.clone()).unwrap_or_default();
                if m.insert(format!("ws/ignoredErrors/{a}"), s).is_some() {
                    return Err(format!("two elements for {a}"));
                }
            }
        }
    }
    // The names of the workbook.
    if let Some(d) = p.x("xl/workbook.xml")?.first("definedNames") {
        m.insert("names".into(), String::new());
        for x in d.els() {
            let id = x.a("localSheetId").unwrap_or("-");
            m.insert(format!("names/{id}"), String::new());
            let k = format!("names/{id}/{}", x.a("name").unwrap_or(""));
            if m.insert(k.clone(), x.text()).is_some() {
                return Err(format!("{k} defined twice"));
            }
        }
    }
    Ok(m)
}
pub fn observe(sel: &[&Opt<Worksheet>]) -> Result<Flat, String> {
    let mut wb = Workbook::new();
    wb.add_worksheet();
    let ws = wb.add_worksheet();
    e(ws.set_name("It's"))?;
    for o in sel {
        (o.apply)(ws).map_err(|m| format!("{}: {m}", o.name))?;
    }
    wb.add_worksheet();
    let p = closed(&mut wb)?;
    // The sheets next to it have no settings.
    let base = facts(&p, 2)?;
    let mut first = facts(&p, 0)?;
    first.remove("ws/sheetViews/sheetView@tabSelected");
    crate::opt::compare(&base, &first).map_err(|m| format!("other sheet: {m}"))?;
    if base.iter().any(|(k, _)| k.starts_with("ws/printOptions") || k.starts_with("ws/sheetPr") || k.starts_with("ws/headerFooter")) {
        return Err("other sheet has settings".into());
    }
    facts(&p, 1)
}
pub fn base() -> Flat {
    let mut m = Flat::new();
    crate::opt::edits(
        &mut m,
        "ws;ws/dimension@ref=A1;ws/sheetViews/sheetView@workbookViewId=0;ws/sheetFormatPr@defaultRowHeight=15;ws/sheetData;ws/pageMargins@left=0.7;ws/pageMargins@right=0.7;ws/pageMargins@top=0.75;ws/pageMargins@bottom=0.75;ws/pageMargins@header=0.3;ws/pageMargins@footer=0.3;ws/pageSetup@orientation=portrait;ws/pageSetup@horizontalDpi=200;ws/pageSetup@verticalDpi=200",
    );
    m
}
pub fn dom() -> Dom<Worksheet> {
    Dom { name: "sheet settings".into(), opts: opts(), base: base(), rule }
}
fn run(run: &mut Run) {
    let d = dom();
    let depth = run.pick(2, 3);
    crate::opt::explore(run, &d, depth, observe);
}
