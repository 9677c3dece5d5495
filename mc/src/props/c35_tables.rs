//! C35: tables are written as configured.
use super::util::*;
use super::Prop;
use crate::opt::{flat, Dom, Flat, Opt, St};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C35",
    level: "model_checking",
    rule: "Model: the last setting of each option of a table and its columns, the cells a table writes and formats, and the names and order of the tables of a workbook. All sequences of settings up to the depth, all contents of the header cells, all dimensions of small tables, all styles, and all histories of tables with and without names on two worksheets are applied to the real code; the whole table part, the cells with their formats, the differential formats, and the relations are compared with the model.",
    assumes: &["a table whose name is taken, also by a name given by default, is refused when saving"],
    run,
};
struct T {
    t: Table,
    c: [TableColumn; 2],
}
const FUN: [(&str, &str, &str); 9] = [
    ("average", "average", "101"),
    ("count", "count", "103"),
    ("numbers", "countNums", "102"),
    ("max", "max", "104"),
    ("min", "min", "105"),
    ("sum", "sum", "109"),
    ("stddev", "stdDev", "107"),
    ("var", "var", "110"),
    ("none", "", ""),
];
fn fun(n: &str) -> TableFunction {
    match n {
        "average" => TableFunction::Average,
        "count" => TableFunction::Count,
        "numbers" => TableFunction::CountNumbers,
        "max" => TableFunction::Max,
        "min" => TableFunction::Min,
        "sum" => TableFunction::Sum,
        "stddev" => TableFunction::StdDev,
        "var" => TableFunction::Var,
        "none" => TableFunction::None,
        _ => TableFunction::Custom(Formula::new("=SUM([One])+1")),
    }
}
const HEADS: [(&str, &str); 3] = [("head One", "One"), ("head odd", "It's #[1]"), ("head none", "")];
const FORMULAS: [(&str, &str, &str); 3] = [("formula this row", "=[@One]*2", "[[#This Row],One]*2"), ("formula text", "=\"a@b\"&[@One]", "\"a@b\"&[[#This Row],One]"), ("formula plain", "=SUM(A1:A2)", "SUM(A1:A2)")];
fn opts() -> Vec<Opt<T>> {
    let mut v: Vec<Opt<T>> = vec![];
    macro_rules! o {
        ($name:expr, $group:expr, $f:expr) => {
            crate::opt!(v, $name, $group, $f, "")
        };
    }
    macro_rules! flag {
        ($group:expr, $f:ident) => {
            for b in [true, false] {
                o!(format!("{} {}", $group, if b { "on" } else { "off" }), $group, move |t: &mut T| {
                    t.t = t.t.clone().$f(b);
                    Ok(())
                });
            }
        };
    }
    flag!("header", set_header_row);
    flag!("total", set_total_row);
    flag!("rows", set_banded_rows);
    flag!("columns", set_banded_columns);
    flag!("first", set_first_column);
    flag!("last", set_last_column);
    flag!("filter", set_autofilter);
    for (n, s) in [("none", TableStyle::None), ("light", TableStyle::Light11), ("dark", TableStyle::Dark1), ("medium", TableStyle::Medium9)] {
        o!(format!("style {n}"), "style", move |t: &mut T| {
            t.t = t.t.clone().set_style(s);
            Ok(())
        });
    }
    for n in ["Sales", "_x.1"] {
        o!(format!("name {n}"), "name", move |t: &mut T| {
            t.t = t.t.clone().set_name(n);
            Ok(())
        });
    }
    for k in 0..2usize {
        let c = format!("c{k} ");
        for (n, h) in HEADS {
            // The second column keeps another header.
            let h = if k == 1 && !h.is_empty() { format!("{h} 2") } else { h.to_string() };
            o!(format!("{c}{n}"), format!("{c}head"), move |t: &mut T| {
                t.c[k] = t.c[k].clone().set_header(h.clone());
                Ok(())
            });
        }
        for n in FUN.iter().map(|f| f.0).chain(["custom"]) {
            if k == 1 && !["sum", "custom"].contains(&n) {
                continue;
            }
            o!(format!("{c}total {n}"), format!("{c}fun"), move |t: &mut T| {
                t.c[k] = t.c[k].clone().set_total_function(fun(n));
                Ok(())
            });
        }
        for n in ["Total <&>", ""] {
            o!(format!("{c}label {n}"), format!("{c}label"), move |t: &mut T| {
                t.c[k] = t.c[k].clone().set_total_label(n);
                Ok(())
            });
        }
        for (n, f, _) in FORMULAS {
            o!(format!("{c}{n}"), format!("{c}formula"), move |t: &mut T| {
                t.c[k] = t.c[k].clone().set_formula(f);
                Ok(())
            });
        }
        for n in ["bold", "italic"] {
            o!(format!("{c}format {n}"), format!("{c}format"), move |t: &mut T| {
                t.c[k] = t.c[k].clone().set_format(fmt(n));
                Ok(())
            });
            o!(format!("{c}header format {n}"), format!("{c}header format"), move |t: &mut T| {
                t.c[k] = t.c[k].clone().set_header_format(fmt(n));
                Ok(())
            });
        }
    }
    v
}
fn fmt(n: &str) -> Format {
    if n == "bold" {
        Format::new().set_bold()
    } else {
        Format::new().set_italic()
    }
}
fn ft(n: &str) -> &str {
    if n == "bold" {
        "B"
    } else {
        "I"
    }
}
/// The option in force of a group, without the group's name.
fn opt<'a>(s: &St<'a>, g: &str, strip: &str) -> Option<&'a str> {
    s.force.get(g).map(|n| n.strip_prefix(strip).unwrap_or(n))
}
/// A table of three columns in B3:D7 of a sheet with a few cells.
fn rule(s: &St, m: &mut Flat) {
    m.clear();
    let mut put = |k: &str, v: &str| {
        m.insert(k.to_string(), v.to_string());
    };
    let on = |g: &str, default: bool| opt(s, g, "").map(|n| n.ends_with(" on")).unwrap_or(default);
    let header = on("header", true);
    let total = on("total", false);
    // Switching the header off switches the filter off as well.
    let filter = {
        let off = s.last("header off");
        match opt(s, "filter", "") {
            Some("filter on") if s.last("filter on") > off => true,
            Some("filter on") | Some("filter off") => false,
            _ => off.is_none(),
        }
    } && header;
    let (r1, r2) = (2u32, 6u32);
    put("table@ref", "B3:D7");
    put("table", "");
    put("table@id", "1");
    let name = opt(s, "name", "name ").unwrap_or("Table1");
    put("table@name", name);
    put("table@displayName", name);
    if !header {
        put("table@headerRowCount", "0");
    }
    if total {
        put("table@totalsRowCount", "1");
    } else {
        put("table@totalsRowShown", "0");
    }
    if filter {
        put("table/autoFilter", "");
        put("table/autoFilter@ref", if total { "B3:D6" } else { "B3:D7" });
    }
    put("table/tableColumns", "");
    put("table/tableColumns@count", "3");
    put("table/tableStyleInfo", "");
    match opt(s, "style", "style ") {
        Some("none") => {}
        x => put("table/tableStyleInfo@name", match x {
            Some("light") => "TableStyleLight11",
            Some("dark") => "TableStyleDark1",
            _ => "TableStyleMedium9",
        }),
    }
    let b = |x: bool| if x { "1" } else { "0" };
    put("table/tableStyleInfo@showFirstColumn", b(on("first", false)));
    put("table/tableStyleInfo@showLastColumn", b(on("last", false)));
    put("table/tableStyleInfo@showRowStripes", b(on("rows", true)));
    put("table/tableStyleInfo@showColumnStripes", b(on("columns", false)));
    let (first, last) = (if header { r1 + 1 } else { r1 }, if total { r2 - 1 } else { r2 });
    let mut cells = before();
    for k in 0..3usize {
        let c = format!("c{k} ");
        let col = k as u16 + 1;
        let p = if k == 0 { "table/tableColumns/tableColumn".to_string() } else { format!("table/tableColumns/tableColumn[{}]", k + 1) };
        put(&p, "");
        put(&format!("{p}@id"), &format!("{}", k + 1));
        let head = opt(s, &format!("{c}head"), &c).map(|n| HEADS.iter().find(|h| h.0 == n).unwrap().1).unwrap_or("");
        let head = match head {
            "" if header && k == 2 => "Given".to_string(),
            "" => format!("Column{}", k + 1),
            h if k == 1 => format!("{h} 2"),
            h => h.to_string(),
        };
        put(&format!("{p}@name"), &head);
        let format = opt(s, &format!("{c}format"), &format!("{c}format "));
        if let Some(f) = format {
            put(&format!("{p}@dataDxfId"), ft(f));
        }
        let tag = format.map(ft).unwrap_or("");
        if header {
            let t = opt(s, &format!("{c}header format"), &format!("{c}header format ")).map(ft).unwrap_or("");
            cells.insert((r1, col), (format!("str {head:?}"), t.into()));
        }
        let label = opt(s, &format!("{c}label"), &format!("{c}label ")).unwrap_or("");
        let f = opt(s, &format!("{c}fun"), &format!("{c}total ")).unwrap_or("none");
        let esc = head.replace('\'', "''").replace('#', "'#").replace('[', "'[").replace(']', "']");
        let text = match f {
            "none" => None,
            "custom" => Some("SUM([One])+1".to_string()),
            x => Some(format!("SUBTOTAL({},[{esc}])", FUN.iter().find(|y| y.0 == x).unwrap().2)),
        };
        if !label.is_empty() {
            put(&format!("{p}@totalsRowLabel"), label);
        } else if f != "none" {
            put(&format!("{p}@totalsRowFunction"), FUN.iter().find(|y| y.0 == f).map(|y| y.1).unwrap_or("custom"));
        }
        if f == "custom" {
            put(&format!("{p}/totalsRowFormula"), text.as_ref().unwrap());
        }
        if total {
            if !label.is_empty() {
                cells.insert((r2, col), (format!("str {label:?}"), tag.into()));
            } else if let Some(t) = &text {
                cells.insert((r2, col), (format!("formula {t:?} type n result \"0\""), tag.into()));
            }
        }
        if let Some(f) = opt(s, &format!("{c}formula"), &c) {
            let f = FORMULAS.iter().find(|x| x.0 == f).unwrap().2;
            put(&format!("{p}/calculatedColumnFormula"), f);
            for r in first..=last {
                cells.insert((r, col), (format!("formula {f:?} type n result \"0\""), tag.into()));
            }
        } else if !tag.is_empty() {
            for r in first..=last {
                if let Some(x) = cells.get_mut(&(r, col)) {
                    x.1 = tag.into();
                }
            }
        }
    }
    for ((r, c), (v, t)) in cells {
        if v == "blank" && t.is_empty() {
            continue;
        }
        put(&format!("cell {}", cell_name(r, c)), &format!("{v} {t}"));
    }
}
fn before() -> BTreeMap<(u32, u16), (String, String)> {
    let mut m = BTreeMap::new();
    for (r, c, v, t) in [(2u32, 3u16, "str \"Given\"", ""), (3, 1, "num 1.0", ""), (4, 1, "num 2.0", "I"), (4, 2, "str \"x\"", ""), (6, 1, "num 9.0", ""), (7, 1, "num 8.0", ""), (1, 2, "num 7.0", ""), (3, 4, "num 6.0", "")] {
        m.insert((r, c), (v.to_string(), t.to_string()));
    }
    m
}
fn observe(s: &[&Opt<T>]) -> Result<Flat, String> {
    let mut wb = Workbook::new();
    let mut t = T { t: Table::new(), c: [TableColumn::new(), TableColumn::new()] };
    for o in s {
        (o.apply)(&mut t)?;
    }
    let w = wb.add_worksheet();
    let it = Format::new().set_italic();
    e(w.write(1, 2, 7))?;
    e(w.write(2, 3, "Given"))?;
    e(w.write(3, 1, 1))?;
    e(w.write(3, 4, 6))?;
    e(w.write_with_format(4, 1, 2, &it))?;
    e(w.write(4, 2, "x"))?;
    e(w.write(6, 1, 9))?;
    e(w.write(7, 1, 8))?;
    let t = t.t.set_columns(&t.c);
    e(w.add_table(2, 1, 6, 3, &t))?;
    let p = closed(&mut wb)?;
    let mut m = flat(p.x("xl/tables/table1.xml")?, "table");
    let st = book::styles(&p)?;
    for (k, v) in &mut m {
        if k.ends_with("@dataDxfId") {
            let d = st.dxfs.get(v.parse::<usize>().map_err(|e| e.to_string())?).ok_or(format!("no differential format {v}"))?.canon();
            *v = match d.as_str() {
                "<dxf><font><b></></></>" => "B".into(),
                "<dxf><font><i></></></>" => "I".into(),
                _ => d,
            };
        }
    }
    m.remove("table@xmlns");
    for ((r, c), (v, t)) in view(&p, 0)? {
        m.insert(format!("cell {}", cell_name(r, c)), format!("{v} {t}"));
    }
    Ok(m)
}
fn run(run: &mut Run) {
    let d = Dom { name: "table".into(), opts: opts(), base: Flat::new(), rule };
    crate::opt::explore(run, &d, 3, observe);
    if run.thorough {
        let o = opts().into_iter().filter(|o| ["header", "total", "filter"].contains(&o.group.as_str()) || o.group.starts_with("c0")).collect();
        let d = Dom { name: "rows and one column".into(), opts: o, base: Flat::new(), rule };
        crate::opt::explore(run, &d, 4, observe);
    }
    // Which rows a table of each size has.
    run.explore("sizes", 5 * 4 * 4 * 3 * 2, |i, rec| {
        let mut g = Dig(i);
        let (rows, cols, flags, extra, low) = (1 + g.take(5) as u32, 1 + g.take(4) as u16, g.take(4), g.take(3), g.flag());
        let (header, total) = (flags & 1 == 0, flags & 2 != 0);
        // Too few, enough or too many columns are configured.
        let n = (cols as usize + extra).saturating_sub(1);
        rec.describe(|| format!("{rows} rows, {cols} columns, header {header}, total {total}, {n} columns configured"));
        rec.trace();
        rec.step();
        let mut wb = Workbook::new();
        let w = if low { wb.add_worksheet_with_constant_memory() } else { wb.add_worksheet() };
        let c: Vec<TableColumn> = (0..n).map(|k| TableColumn::new().set_header(format!("H{k}")).set_formula("=1").set_total_function(TableFunction::Sum)).collect();
        let t = Table::new().set_header_row(header).set_total_row(total).set_columns(&c);
        let r = guarded(|| w.add_table(2, 1, 2 + rows - 1, cols, &t).map(|_| ())).map_err(|p| format!("panics: {p}"))?;
        let need = 1 + u32::from(header) + u32::from(total);
        rec.state(&(rows, cols, header, total));
        if rows < need {
            return if r.is_err() { Ok(()) } else { Err("a table without data rows is accepted".into()) };
        }
        e(r)?;
        let p = closed(&mut wb)?;
        let x = p.x("xl/tables/table1.xml")?;
        eq("range", Some(range_name((2, 1, 2 + rows - 1, cols)).as_str()), x.a("ref"))?;
        let names: Vec<String> = x.find_all("tableColumn").iter().map(|c| c.a("name").unwrap_or("").to_string()).collect();
        let want: Vec<String> = (0..cols as usize).map(|k| if k < n { format!("H{k}") } else { format!("Column{}", k + 1) }).collect();
        eq("columns", &want, &names)?;
        let mut cells = BTreeMap::new();
        for k in 0..cols as usize {
            let c = 1 + k as u16;
            if header {
                cells.insert((2, c), (format!("str {:?}", want[k]), String::new()));
            }
            if k < n {
                for r in 2 + u32::from(header)..2 + rows - u32::from(total) {
                    cells.insert((r, c), ("formula \"1\" type n result \"0\"".to_string(), String::new()));
                }
                if total {
                    cells.insert((2 + rows - 1, c), (format!("formula \"SUBTOTAL(109,[H{k}])\" type n result \"0\""), String::new()));
                }
            }
        }
        diff(&cells, &view(&p, 0)?)
    });
    // Headers are the cells' texts unless given; no two are the same.
    const IN: [&str; 9] = ["", "x", "X", "Column2", "rich", "number", "formula", "blank", "column1"];
    const SET: [&str; 5] = ["", "x", "Column1", "COLUMN2", "Y"];
    let cell: u64 = (IN.len() * SET.len()) as u64;
    run.explore("headers", cell * cell * 3, |i, rec| {
        let mut g = Dig(i);
        let a: Vec<(&str, &str)> = (0..2).map(|_| (*g.of(&IN), *g.of(&SET))).collect();
        let mode = g.take(3);
        if mode > 0 && a.iter().any(|x| x.0 == "formula") {
            return Ok(());
        }
        rec.describe(|| format!("cells and headers {a:?}, mode {mode}"));
        rec.trace();
        let mut wb = Workbook::new();
        let w = [Workbook::add_worksheet, Workbook::add_worksheet_with_constant_memory, Workbook::add_worksheet_with_low_memory][mode](&mut wb);
        let b = Format::new().set_bold();
        let mut want: Vec<String> = vec![];
        for (k, (i, h)) in a.iter().enumerate() {
            rec.step();
            let c = k as u16;
            match *i {
                "" => {}
                "rich" => e(w.write_rich_string(0, c, &[(&Format::default(), "a"), (&b, "b")]).map(|_| ()))?,
                "number" => e(w.write_number(0, c, 5).map(|_| ()))?,
                "formula" => e(w.write_formula(0, c, "=\"q\"").map(|_| ()))?,
                "blank" => e(w.write_blank(0, c, &b).map(|_| ()))?,
                s => e(w.write_string(0, c, s).map(|_| ()))?,
            }
            want.push(match (*h, *i) {
                ("", "rich") => "ab".into(),
                ("", "" | "number" | "formula" | "blank") => format!("Column{}", k + 1),
                ("", s) => s.to_string(),
                (h, _) => h.to_string(),
            });
        }
        let cols: Vec<TableColumn> = a.iter().map(|x| if x.1.is_empty() { TableColumn::new() } else { TableColumn::new().set_header(x.1) }).collect();
        let r = w.add_table(0, 0, 2, 1, &Table::new().set_columns(&cols)).map(|_| ());
        let twice = want[0].to_lowercase() == want[1].to_lowercase();
        rec.state(&(want.clone(), twice));
        if twice {
            return match r {
                Err(XlsxError::TableError(_)) => Ok(()),
                x => Err(format!("two headers {want:?} gave {x:?}")),
            };
        }
        e(r)?;
        let p = closed(&mut wb)?;
        let names: Vec<String> = p.x("xl/tables/table1.xml")?.find_all("tableColumn").iter().map(|c| c.a("name").unwrap_or("").to_string()).collect();
        eq("headers", &want, &names)?;
        let v = view(&p, 0)?;
        for (k, h) in want.iter().enumerate() {
            let got = v.get(&(0, k as u16)).map(|x| x.0.clone());
            eq("header cell", Some(format!("str {h:?}")), got)?;
        }
        Ok(())
    });
    // All styles.
    run.explore("styles", 1, |_, rec| {
        rec.describe(|| "all table styles".into());
        let all = styles();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        for (i, (s, _)) in all.iter().enumerate() {
            rec.step();
            e(w.add_table(0, i as u16 * 2, 3, i as u16 * 2, &Table::new().set_style(*s)))?;
        }
        rec.trace();
        let p = closed(&mut wb)?;
        for (i, (_, n)) in all.iter().enumerate() {
            let x = p.x(&format!("xl/tables/table{}.xml", i + 1))?;
            eq("style", if n.is_empty() { None } else { Some(n.as_str()) }, x.path("tableStyleInfo").and_then(|x| x.a("name")))?;
        }
        Ok(())
    });
    // Tables over worksheets: ids, names, parts, and what refuses a file.
    const NAMES: [&str; 7] = ["", "Sales", "SALES", "Table1", "Table2", "\u{c4}rger", "\u{e4}RGER"];
    let per = (NAMES.len() * 2) as u64;
    run.explore("names", seqs(per, run.pick(3, 4)) * 2, |i, rec| {
        let s = seq(i / 2, per);
        let twice = i % 2 == 1;
        rec.describe(|| format!("tables {:?}{}", s.iter().map(|x| (NAMES[x / 2], x % 2)).collect::<Vec<_>>(), if twice { ", last one after a first save" } else { "" }));
        rec.trace();
        let mut wb = Workbook::new();
        wb.add_worksheet();
        wb.add_worksheet();
        let mut sheets: [Vec<String>; 2] = [vec![], vec![]];
        let resolve = |sheets: &[Vec<String>; 2]| -> Option<Vec<String>> {
            let mut n = 0;
            let mut seen = BTreeSet::new();
            let mut out = vec![];
            for t in sheets.iter().flatten() {
                n += 1;
                let name = if t.is_empty() { format!("Table{n}") } else { t.clone() };
                if !seen.insert(name.to_lowercase()) {
                    return None;
                }
                out.push(name);
            }
            Some(out)
        };
        for (k, x) in s.iter().enumerate() {
            rec.step();
            if twice && k + 1 == s.len() {
                let r = wb.save_to_buffer();
                if resolve(&sheets).is_some() != r.is_ok() {
                    return Err(format!("first save: {:?}", r.map(|_| ())));
                }
            }
            let n = NAMES[x / 2];
            let at = sheets[x % 2].len() as u16 * 2;
            let w = e(wb.worksheet_from_index(x % 2))?;
            e(w.add_table(0, at, 2, at, &if n.is_empty() { Table::new() } else { Table::new().set_name(n) }))?;
            sheets[x % 2].push(n.to_string());
            rec.state(&(sheets.clone(), resolve(&sheets)));
        }
        let Some(names) = resolve(&sheets) else {
            return match wb.save_to_buffer() {
                Err(XlsxError::TableNameReused(_)) => Ok(()),
                r => Err(format!("a name used twice gave {:?}", r.map(|_| ()))),
            };
        };
        let p = closed(&mut wb)?;
        let mut at = 0;
        for (k, t) in sheets.iter().enumerate() {
            let sr = &p.sheets()?[k];
            let x = p.sheet(k)?;
            let ids: Vec<String> = x.find_all("tablePart").iter().map(|t| t.a("r:id").unwrap_or("").to_string()).collect();
            eq("table parts", t.len(), ids.len())?;
            for (j, id) in ids.iter().enumerate() {
                let part = p.follow(&sr.part, id, "table")?;
                let x = p.x(&part)?;
                eq("id", Some((at + 1).to_string().as_str()), x.a("id"))?;
                eq("name", Some(names[at].as_str()), x.a("name"))?;
                eq("displayName", Some(names[at].as_str()), x.a("displayName"))?;
                eq("ref", Some(range_name((0, j as u16 * 2, 2, j as u16 * 2)).as_str()), x.a("ref"))?;
                at += 1;
            }
        }
        rec.seen(&names);
        Ok(())
    });
}
fn styles() -> Vec<(TableStyle, String)> {
    use TableStyle::*;
    let l = [Light1, Light2, Light3, Light4, Light5, Light6, Light7, Light8, Light9, Light10, Light11, Light12, Light13, Light14, Light15, Light16, Light17, Light18, Light19, Light20, Light21];
    let m = [Medium1, Medium2, Medium3, Medium4, Medium5, Medium6, Medium7, Medium8, Medium9, Medium10, Medium11, Medium12, Medium13, Medium14, Medium15, Medium16, Medium17, Medium18, Medium19, Medium20, Medium21, Medium22, Medium23, Medium24, Medium25, Medium26, Medium27, Medium28];
    let d = [Dark1, Dark2, Dark3, Dark4, Dark5, Dark6, Dark7, Dark8, Dark9, Dark10, Dark11];
    let mut v = vec![(TableStyle::None, String::new())];
    for (k, s) in [("Light", &l[..]), ("Medium", &m[..]), ("Dark", &d[..])] {
        for (i, x) in s.iter().enumerate() {
            v.push((*x, format!("TableStyle{k}{}", i + 1)));
        }
    }
    v
}
