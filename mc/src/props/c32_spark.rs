//! C32: sparklines are written as configured.
use super::util::*;
use super::Prop;
use crate::opt::{edits, flat, Dom, Flat, Opt, St};

pub const PROP: Prop = Prop {
    id: "C32",
    level: "model_checking",
    rule: "Model: the last setting of each option of a sparkline (a colour of a point also shows that point, a custom limit and a group limit replace each other, a style sets seven colours at once), and the split of a data range over the cells of a group. All sequences of settings up to the depth, all 37 styles with a colour before and after, all shapes of groups with all shapes of data in both orders, and all histories of sparklines on two worksheets are applied to the real code; every attribute and element of the written sparkline groups is compared with the model, and what must be refused has to leave no trace.",
    assumes: &["the axis limits and weights are finite", "the groups of a worksheet are written last one first"],
    run,
};
const URI: &str = "{05C60535-1F16-4fd2-B633-F4F36F0B64E0}";
const G: &str = "g";
/// The colours of the styles as Excel defines them, in the order series, negative, markers, first, last, high, low.
fn style(n: u8) -> Option<[String; 7]> {
    let t = |t: u8, tint: &str| if tint.is_empty() { format!("theme={t}") } else { format!("theme={t} tint={tint}") };
    let rgb = |c: &str| format!("rgb=FF{c}");
    const L8: &str = "0.79998168889431442";
    const L4: &str = "0.39997558519241921";
    const D2: &str = "-0.249977111117893";
    const D5: &str = "-0.499984740745262";
    let all = |s: String, neg: String, p: String| [s, neg, p.clone(), p.clone(), p.clone(), p.clone(), p];
    let next = |k: u8| if k == 9 { 4 } else { k + 1 };
    Some(match n {
        1..=6 => {
            let k = n + 3;
            [t(k, D5), t(next(k), ""), t(k, D5), t(k, L4), t(k, L4), t(k, ""), t(k, "")]
        }
        7..=12 => all(t(n - 3, D2), t(next(n - 3), ""), t(next(n - 3), D2)),
        13..=18 => all(t(n - 9, ""), t(next(n - 9), ""), t(n - 9, D2)),
        19..=24 => {
            let k = n - 15;
            [t(k, L4), t(0, D5), t(k, L8), t(k, D2), t(k, D2), t(k, D5), t(k, D5)]
        }
        25 => all(t(1, "0.499984740745262"), t(1, "0.249977111117893"), t(1, "0.249977111117893")),
        26 => all(t(1, "0.34998626667073579"), t(0, D2), t(0, D2)),
        27 => all(rgb("323232"), rgb("D00000"), rgb("D00000")),
        28 => all(rgb("000000"), rgb("0070C0"), rgb("0070C0")),
        29 => all(rgb("376092"), rgb("D00000"), rgb("D00000")),
        30 => all(rgb("0070C0"), rgb("000000"), rgb("000000")),
        31 => ["5F5F5F", "FFB620", "D70077", "5687C2", "359CEB", "56BE79", "FF5055"].map(rgb),
        32 => ["5687C2", "FFB620", "D70077", "777777", "359CEB", "56BE79", "FF5055"].map(rgb),
        33 => ["C6EFCE", "FFC7CE", "8CADD6", "FFDC47", "FFEB9C", "60D276", "FF5367"].map(rgb),
        34 => ["00B050", "FF0000", "0070C0", "FFC000", "FFC000", "00B050", "FF0000"].map(rgb),
        35 => [3, 9, 8, 4, 5, 6, 7].map(|k| t(k, "")),
        36 => [1, 9, 8, 4, 5, 6, 7].map(|k| t(k, "")),
        _ => return None,
    })
}
const PARTS: [&str; 7] = ["Series", "Negative", "Markers", "First", "Last", "High", "Low"];
/// Replace a colour.
fn paint(m: &mut Flat, part: &str, c: &str) {
    let p = format!("{G}/x14:color{part}");
    edits(m, &format!("-{p};{p}"));
    for a in c.split(' ') {
        edits(m, &format!("{p}@{a}"));
    }
}
fn dress(m: &mut Flat, n: u8) {
    if let Some(c) = style(n) {
        for (p, c) in PARTS.iter().zip(c) {
            paint(m, p, &c);
        }
    }
}
const COLORS: [&str; 3] = ["red", "theme", "bad theme"];
fn color(n: &str) -> Color {
    match n {
        "red" => Color::RGB(0x00FF_0000),
        "theme" => Color::Theme(6, 3),
        _ => Color::Theme(10, 0),
    }
}
fn cwant(n: &str) -> &str {
    match n {
        "red" => "rgb=FFFF0000",
        "theme" => "theme=6 tint=0.39997558519241921",
        _ => "",
    }
}
const STYLES: [u8; 6] = [1, 6, 19, 31, 0, 37];
fn opts() -> Vec<Opt<Sparkline>> {
    let mut v: Vec<Opt<Sparkline>> = vec![];
    macro_rules! o {
        ($name:expr, $group:expr, $f:expr, $want:expr) => {
            crate::opt!(
                v,
                $name,
                $group,
                move |t: &mut Sparkline| {
                    let s: Sparkline = $f(t.clone());
                    *t = s;
                    Ok(())
                },
                $want
            )
        };
    }
    macro_rules! flag {
        ($group:expr, $f:ident, $attr:expr) => {
            for b in [true, false] {
                let a = $attr;
                o!(format!("{} {}", $group, b), $group, |t: Sparkline| t.$f(b), if a.is_empty() { String::new() } else if b { format!("{G}@{a}=1") } else { format!("-{G}@{a}") });
            }
        };
    }
    flag!("high", show_high_point, "");
    flag!("low", show_low_point, "");
    flag!("first", show_first_point, "");
    flag!("last", show_last_point, "");
    flag!("negative", show_negative_points, "");
    flag!("markers", show_markers, "");
    flag!("axis", show_axis, "displayXAxis");
    flag!("hidden", show_hidden_data, "displayHidden");
    flag!("rtl", set_right_to_left, "rightToLeft");
    flag!("gmax", set_group_max, "");
    flag!("gmin", set_group_min, "");
    flag!("column order", set_column_order, "");
    for (n, c, w) in [("gaps", ChartEmptyCells::Gaps, "gap"), ("zero", ChartEmptyCells::Zero, ""), ("connected", ChartEmptyCells::Connected, "span")] {
        o!(format!("empty {n}"), "empty", |t: Sparkline| t.show_empty_cells_as(c), if w.is_empty() { format!("-{G}@displayEmptyCellsAs") } else { format!("{G}@displayEmptyCellsAs={w}") });
    }
    for (n, k, w) in [("line", SparklineType::Line, ""), ("column", SparklineType::Column, "column"), ("winlose", SparklineType::WinLose, "stacked")] {
        o!(format!("type {n}"), "type", |t: Sparkline| t.set_type(k), if w.is_empty() { format!("-{G}@type") } else { format!("{G}@type={w}") });
    }
    for x in [0.25, 3.0] {
        o!(format!("weight {x}"), "weight", |t: Sparkline| t.set_line_weight(x), format!("{G}@lineWeight={x}"));
    }
    for x in [-1.5, 0.0] {
        o!(format!("max {x}"), "max", |t: Sparkline| t.set_custom_max(x), "");
        o!(format!("min {x}"), "min", |t: Sparkline| t.set_custom_min(x), "");
    }
    for (n, r) in [("here", ("Sheet1", 9, 0, 9, 4)), ("there", ("It's", 0, 1, 4, 1))] {
        o!(format!("dates {n}"), "dates", |t: Sparkline| t.set_date_range(r), format!("{G}@dateAxis=1;{G}/xm:f={}", if n == "here" { "Sheet1!A10:E10" } else { "'It''s'!B1:B5" }));
    }
    for n in COLORS {
        o!(format!("color Series {n}"), "cSeries", |t: Sparkline| t.set_sparkline_color(color(n)), "");
        o!(format!("color High {n}"), "cHigh", |t: Sparkline| t.set_high_point_color(color(n)), "");
        o!(format!("color Low {n}"), "cLow", |t: Sparkline| t.set_low_point_color(color(n)), "");
        o!(format!("color First {n}"), "cFirst", |t: Sparkline| t.set_first_point_color(color(n)), "");
        o!(format!("color Last {n}"), "cLast", |t: Sparkline| t.set_last_point_color(color(n)), "");
        o!(format!("color Negative {n}"), "cNegative", |t: Sparkline| t.set_negative_points_color(color(n)), "");
        o!(format!("color Markers {n}"), "cMarkers", |t: Sparkline| t.set_markers_color(color(n)), "");
    }
    for n in STYLES {
        o!(format!("style {n}"), "style", |t: Sparkline| t.set_style(n), "");
    }
    v
}
/// The rules over the sequence: later settings replace earlier ones that touch the same fact.
fn rule(s: &St, m: &mut Flat) {
    let (mut max, mut min) = (String::new(), String::new());
    for n in &s.seq {
        let w: Vec<&str> = n.splitn(3, ' ').collect();
        match w[0] {
            "high" | "low" | "first" | "last" | "negative" | "markers" => edits(m, &format!("{}{G}@{}{}", if w[1] == "true" { "" } else { "-" }, w[0], if w[1] == "true" { "=1" } else { "" })),
            "gmax" | "gmin" => {
                let l = if w[0] == "gmax" { &mut max } else { &mut min };
                if w[1] == "true" {
                    *l = "group".into();
                } else if l.as_str() == "group" {
                    l.clear();
                }
            }
            "max" => max = w[1].into(),
            "min" => min = w[1].into(),
            "style" => dress(m, w[1].parse().unwrap_or(0)),
            "color" => {
                let c = cwant(w[2]);
                if !c.is_empty() {
                    paint(m, w[1], c);
                    if w[1] != "Series" {
                        edits(m, &format!("{G}@{}=1", w[1].to_lowercase()));
                    }
                }
            }
            _ => {}
        }
    }
    for (l, a, b) in [(max, "manualMax", "maxAxisType"), (min, "manualMin", "minAxisType")] {
        match l.as_str() {
            "" => {}
            "group" => edits(m, &format!("{G}@{b}=group")),
            x => edits(m, &format!("{G}@{a}={x};{G}@{b}=custom")),
        }
    }
}
/// The sparkline groups of a worksheet.
fn groups(x: &El) -> Result<Vec<&El>, String> {
    let exts: Vec<&El> = x.path("extLst").map(|l| l.els().filter(|e| e.a("uri") == Some(URI)).collect()).unwrap_or_default();
    match exts.len() {
        0 => Ok(vec![]),
        1 => {
            let gs = exts[0].path("x14:sparklineGroups").ok_or("no sparkline groups in their extension")?;
            Ok(gs.els().collect())
        }
        n => Err(format!("{n} extensions of sparklines")),
    }
}
/// Cell and data of the sparklines of a group.
fn lines(g: &El) -> Vec<(String, String)> {
    g.path("x14:sparklines").map(|l| l.els().map(|s| (s.path("xm:sqref").map(El::text).unwrap_or_default(), s.path("xm:f").map(El::text).unwrap_or_default())).collect()).unwrap_or_default()
}
fn base() -> Flat {
    let mut m = Flat::new();
    edits(&mut m, &format!("{G}@displayEmptyCellsAs=gap;{G}/x14:colorAxis@rgb=FF000000;{G}/x14:sparklines/x14:sparkline/xm:f=Sheet1!B2:E2;{G}/x14:sparklines/x14:sparkline/xm:sqref=A1"));
    dress(&mut m, 1);
    m
}
fn observe(s: &[&Opt<Sparkline>], memory: bool) -> Result<Flat, String> {
    let mut t = Sparkline::new().set_range(("Sheet1", 1, 1, 1, 4));
    for o in s {
        (o.apply)(&mut t)?;
    }
    let mut wb = Workbook::new();
    let w = if memory { wb.add_worksheet_with_constant_memory() } else { wb.add_worksheet() };
    e(w.add_sparkline(0, 0, &t))?;
    let p = closed(&mut wb)?;
    let x = p.sheet(0)?;
    let g = groups(x)?;
    match g[..] {
        [g] => Ok(flat(g, G)),
        _ => Err(format!("{} groups", g.len())),
    }
}
fn abs((r1, c1, r2, c2): (u32, u16, u32, u16)) -> String {
    range_name((r1, c1, r2, c2))
}
/// The worksheet names, and how a formula refers to them.
const SHEETS: [(&str, &str); 3] = [("Sheet1", "Sheet1"), ("It's", "'It''s'"), ("Q 1", "'Q 1'")];

fn run(run: &mut Run) {
    // Sequences of settings.
    let dom = Dom { name: "options".into(), opts: opts(), base: base(), rule };
    crate::opt::explore(run, &dom, run.pick(2, 3), |s| observe(s, false));
    // Every style, with every colour set before and after it.
    run.explore("styles", 38 * 8 * 2, |i, rec| {
        let mut d = Dig(i);
        let (n, k, after) = (d.take(38) as u8, d.take(8) as usize, d.flag());
        rec.describe(|| format!("style {n}{}", if k == 0 { String::new() } else { format!(", {} in red {}", PARTS[k - 1], if after { "after it" } else { "before it" }) }));
        rec.step();
        rec.trace();
        let mut t = Sparkline::new().set_range(("Sheet1", 1, 1, 1, 4));
        let mut m = base();
        let put = |t: Sparkline, m: &mut Flat| {
            if k == 0 {
                return t;
            }
            let p = PARTS[k - 1];
            paint(m, p, "rgb=FFFF0000");
            if p != "Series" {
                edits(m, &format!("{G}@{}=1", p.to_lowercase()));
            }
            match p {
                "Series" => t.set_sparkline_color("#FF0000"),
                "Negative" => t.set_negative_points_color("#FF0000"),
                "Markers" => t.set_markers_color("#FF0000"),
                "First" => t.set_first_point_color("#FF0000"),
                "Last" => t.set_last_point_color("#FF0000"),
                "High" => t.set_high_point_color("#FF0000"),
                _ => t.set_low_point_color("#FF0000"),
            }
        };
        if !after {
            t = put(t, &mut m);
        }
        t = t.set_style(n);
        dress(&mut m, n);
        if after {
            t = put(t, &mut m);
        }
        rec.state(&m);
        let mut wb = Workbook::new();
        e(wb.add_worksheet().add_sparkline(0, 0, &t))?;
        let p = pkg(&mut wb)?;
        let g = groups(p.sheet(0)?)?;
        crate::opt::compare(&m, &flat(g.first().ok_or("no group")?, G))
    });
    // Groups: all small shapes of cells and of data, both orders, at different places and sheets.
    let k = run.pick(4usize, 5);
    run.explore("groups", (k as u64).pow(4) * 12, |i, rec| {
        let mut d = Dig(i);
        let (cr, cc) = (d.take(k) as u32, d.take(k) as u16);
        let (dr, dc) = (d.take(k) as u32, d.take(k) as u16);
        let (col, sh, memory) = (d.flag(), d.take(3) as usize, d.flag());
        let cells = (2, 7, 2 + cr, 7 + cc);
        let data = (5, 1, 5 + dr, 1 + dc);
        rec.describe(|| format!("group {} of data {}!{}{}", abs(cells), SHEETS[sh].0, abs(data), if col { " by columns" } else { " by rows" }));
        rec.step();
        rec.trace();
        let t = Sparkline::new().set_range((SHEETS[sh].0, data.0, data.1, data.2, data.3)).set_column_order(col);
        let mut wb = Workbook::new();
        let w = if memory { wb.add_worksheet_with_constant_memory() } else { wb.add_worksheet() };
        let r = w.add_sparkline_group(cells.0, cells.1, cells.2, cells.3, &t).map(|_| ());
        // A group covers one row or one column of cells, with one row (or column) of the data for each.
        let n = if col { dc as u32 } else { dr };
        let ok = dr > 0 && dc > 0 && (cr == 0 || cc == 0) && cr.max(u32::from(cc)) == n;
        rec.state(&(cells, data, col, ok));
        let p = match (ok, r) {
            (true, r) => {
                e(r)?;
                closed(&mut wb)?
            }
            (false, Err(XlsxError::SparklineError(_))) => {
                let p = closed(&mut wb)?;
                eq("groups after the refusal", 0, groups(p.sheet(0)?)?.len())?;
                return Ok(());
            }
            (false, r) => return Err(format!("a group that doesn't fit its data gave {r:?}")),
        };
        let want: Vec<(String, String)> = (0..=n)
            .map(|j| {
                let at = if cc == 0 { (cells.0 + j, cells.1) } else { (cells.0, cells.1 + j as u16) };
                let from = if col { (data.0, data.1 + j as u16, data.2, data.1 + j as u16) } else { (data.0 + j, data.1, data.0 + j, data.3) };
                (crate::book::cell_name(at.0, at.1), format!("{}!{}", SHEETS[sh].1, abs(from)))
            })
            .collect();
        let g = groups(p.sheet(0)?)?;
        eq("groups", 1, g.len())?;
        eq("sparklines", want, lines(g[0]))
    });
    // Single sparklines: all shapes of data and the limits of a worksheet.
    const ROWS: [u32; 4] = [0, 3, 1_048_575, 1_048_576];
    const COLS: [u16; 4] = [0, 3, 16_383, 16_384];
    run.explore("single", 4u64.pow(6) * 2, |i, rec| {
        let mut d = Dig(i);
        let at = (ROWS[d.take(4) as usize], COLS[d.take(4) as usize]);
        let r = (ROWS[d.take(4) as usize], COLS[d.take(4) as usize], ROWS[d.take(4) as usize], COLS[d.take(4) as usize]);
        let group = d.flag();
        rec.describe(|| format!("{} at {at:?} of data {r:?}", if group { "group of one" } else { "sparkline" }));
        rec.step();
        rec.trace();
        let t = Sparkline::new().set_range(("Sheet1", r.0, r.1, r.2, r.3));
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        let res = if group { w.add_sparkline_group(at.0, at.1, at.0, at.1, &t).map(|_| ()) } else { w.add_sparkline(at.0, at.1, &t).map(|_| ()) };
        let inside = at.0 < 1_048_576 && at.1 < 16_384;
        let valid = r.0 <= r.2 && r.1 <= r.3 && r.2 < 1_048_576 && r.3 < 16_384;
        let line = r.0 == r.2 || r.1 == r.3;
        rec.state(&(inside, valid, line, group));
        let want = match (inside, valid, line && !group) {
            (false, _, _) => "RowColumnLimitError",
            (_, false, _) => "ChartError",
            (_, _, true) => "",
            _ => "SparklineError",
        };
        let got = res.map_err(|e| format!("{e:?}")).err().unwrap_or_default();
        let got = got.split('(').next().unwrap_or_default().to_string();
        eq("outcome", want, got.as_str())?;
        let p = pkg(&mut wb)?;
        let g = groups(p.sheet(0)?)?;
        if want.is_empty() {
            eq("groups", 1, g.len())?;
            eq("sparklines", vec![(crate::book::cell_name(at.0, at.1), format!("Sheet1!{}", abs(r)))], lines(g[0]))
        } else {
            eq("groups after the refusal", 0, g.len())
        }
    });
    // Histories over two worksheets, with conditional formats that use the same extension list, and saves between.
    run.explore("histories", seqs(8, run.pick(3, 4)), |i, rec| {
        let s = seq(i, 8);
        const OPS: [&str; 8] = ["sparkline on 1", "sparkline on 2", "group on 1", "group on 2", "refused on 1", "data bar on 1", "save", "sparkline in the same cell of 1"];
        rec.describe(|| format!("{:?}", s.iter().map(|x| OPS[*x]).collect::<Vec<_>>()));
        rec.trace();
        let mut wb = Workbook::new();
        wb.add_worksheet();
        e(wb.add_worksheet().set_name("It's"))?;
        let mut want: [Vec<Vec<(String, String)>>; 2] = [vec![], vec![]];
        let mut bars = 0;
        for (n, o) in s.iter().enumerate() {
            rec.step();
            let at = n as u32 * 4 + 10;
            let k = match OPS[*o] {
                "sparkline on 2" | "group on 2" => 1,
                _ => 0,
            };
            if OPS[*o] == "save" {
                e(wb.save_to_buffer())?;
                continue;
            }
            let w = e(wb.worksheet_from_index(k))?;
            match OPS[*o] {
                "sparkline on 1" | "sparkline on 2" => {
                    e(w.add_sparkline(at, 2, &Sparkline::new().set_range("=It's!$A$1:$A$5")).map(|_| ())).or_else(|_| e(w.add_sparkline(at, 2, &Sparkline::new().set_range("='It''s'!$A$1:$A$5")).map(|_| ())))?;
                    want[k].insert(0, vec![(format!("C{}", at + 1), "'It''s'!A1:A5".into())]);
                }
                "sparkline in the same cell of 1" => {
                    e(w.add_sparkline(0, 0, &Sparkline::new().set_range(("Sheet1", n as u32, 0, n as u32, 3))))?;
                    want[k].insert(0, vec![("A1".into(), format!("Sheet1!A{0}:D{0}", n + 1))]);
                }
                "group on 1" | "group on 2" => {
                    e(w.add_sparkline_group(at, 3, at + 1, 3, &Sparkline::new().set_range(("Sheet1", 0, 0, 1, 3))))?;
                    want[k].insert(0, vec![(format!("D{}", at + 1), "Sheet1!A1:D1".into()), (format!("D{}", at + 2), "Sheet1!A2:D2".into())]);
                }
                "refused on 1" => {
                    if w.add_sparkline_group(at, 3, at + 2, 3, &Sparkline::new().set_range(("Sheet1", 0, 0, 1, 3))).is_ok() || w.add_sparkline(at, 3, &Sparkline::new()).is_ok() {
                        return Err("a wrong sparkline was taken".into());
                    }
                }
                _ => {
                    e(w.add_conditional_format(at, 0, at, 3, &ConditionalFormatDataBar::new()))?;
                    bars += 1;
                }
            }
            rec.state(&(want.clone(), bars));
        }
        let p = closed(&mut wb)?;
        for k in 0..2 {
            let x = p.sheet(k)?;
            let got: Vec<_> = groups(x)?.iter().map(|g| lines(g)).collect();
            eq("groups", &want[k], &got)?;
            let ext = x.path("extLst").map(|l| l.els().count()).unwrap_or(0);
            eq("extensions", usize::from(!want[k].is_empty()) + usize::from(k == 0 && bars > 0), ext)?;
            if k == 0 {
                eq("data bars", bars, x.find_all("x14:cfRule").len())?;
            }
        }
        rec.seen(&want);
        Ok(())
    });
}
