//! C28: defined names and references to sheets. C16: cell reference helpers.
use super::c36_sheets::valid;
use super::util::*;
use super::Prop;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C28",
    level: "model_checking",
    rule: "Model: sheets, user names, print areas, repeated rows and columns and filters; expected is the sorted list of names with their sheet and an unambiguous reference. All sheet names up to a length over an alphabet are quoted and parsed back by an independent reference parser; all sequences of naming operations up to the depth are run on the real Workbook and read back from workbook.xml, charts and sparklines.",
    assumes: &["names with letters outside ASCII may be quoted without need"],
    run,
};
pub const CELLS: Prop = Prop {
    id: "C16",
    level: "model_checking",
    rule: "The relation between numbers and references is written independently as counting in a 26 letter bijective numeral system; every column number and all letter strings up to a length, and all boundary rows, are enumerated and converted both ways by the real functions.",
    assumes: &[],
    run: run_cells,
};
fn letter(c: char) -> bool {
    c.is_ascii_alphabetic()
}
/// Whether a sheet name has to be quoted in a reference.
pub fn needs_quote(s: &str) -> bool {
    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '.' || c > '\u{ffff}';
    if !s.chars().all(word) || s.starts_with(|c: char| c.is_ascii_digit() || c == '.' || c > '\u{ffff}') {
        return true;
    }
    let up = s.to_uppercase();
    if ["R", "C", "RC"].contains(&up.as_str()) {
        return true;
    }
    let n = up.chars().take_while(|c| letter(*c)).count();
    let (l, d) = up.split_at(n);
    let digits: String = d.chars().take_while(|c| c.is_ascii_digit()).collect();
    if digits.is_empty() {
        return false;
    }
    let num = digits.parse::<u64>().unwrap_or(u64::MAX);
    // A cell reference.
    if (1..=3).contains(&n) && digits.len() == d.len() {
        let col = book::col_num(l).unwrap_or(99_999);
        if col < 16_384 && (1..=1_048_576).contains(&num) {
            return true;
        }
    }
    // The start of a reference in the row and column number style.
    match l {
        "R" => (1..=1_048_576).contains(&num),
        "C" | "RC" => (1..=16_384).contains(&num),
        _ => false,
    }
}
/// Split "sheet!rest" as a formula reader would.
pub fn parse_ref(f: &str) -> Result<(String, String), String> {
    if let Some(r) = f.strip_prefix('\'') {
        let mut name = String::new();
        let mut it = r.char_indices().peekable();
        while let Some((i, c)) = it.next() {
            if c == '\'' {
                if it.peek().map(|x| x.1) == Some('\'') {
                    it.next();
                    name.push('\'');
                    continue;
                }
                let rest = r[i + 1..].strip_prefix('!').ok_or_else(|| format!("{f}: no ! after the sheet name"))?;
                return Ok((name, rest.to_string()));
            }
            name.push(c);
        }
        return Err(format!("{f}: the quoted sheet name does not end"));
    }
    let (s, r) = f.split_once('!').ok_or_else(|| format!("{f}: no sheet name"))?;
    if needs_quote(s) {
        return Err(format!("{f}: the sheet name must be quoted"));
    }
    Ok((s.to_string(), r.to_string()))
}
#[derive(Clone, Debug)]
enum Op {
    Global(&'static str, &'static str),
    /// Name local to a sheet, by position; quoted by the caller as needed.
    Local(usize, &'static str),
    Raw(&'static str, bool),
    Area(usize, (u32, u16, u32, u16)),
    Rows(usize, u32, u32),
    Cols(usize, u16, u16),
    Filter(usize, (u32, u16, u32, u16)),
    Rename(usize, &'static str),
    Swap,
    Save,
}
use Op::*;
#[derive(Clone, Default, Debug, Hash)]
struct Sh {
    name: String,
    area: Option<(u32, u16, u32, u16)>,
    rows: Option<(u32, u32)>,
    cols: Option<(u16, u16)>,
    filter: Option<(u32, u16, u32, u16)>,
}
#[derive(Clone, Default, Debug, Hash)]
struct M {
    sheets: Vec<Sh>,
    /// (sheet name when local, name, text)
    user: Vec<(Option<String>, String, String)>,
}
pub fn abs(r: (u32, u16, u32, u16)) -> String {
    let c = |n: u16| book::col_name(n as u32);
    if r.1 == 0 && r.3 == 16_383 {
        return format!("${}:${}", r.0 + 1, r.2 + 1);
    }
    if r.0 == 0 && r.2 == 1_048_575 {
        return format!("${}:${}", c(r.1), c(r.3));
    }
    let a = format!("${}${}", c(r.1), r.0 + 1);
    let b = format!("${}${}", c(r.3), r.2 + 1);
    if a == b {
        a
    } else {
        format!("{a}:{b}")
    }
}
pub fn q(s: &str) -> String {
    if needs_quote(s) {
        format!("'{}'", s.replace('\'', "''"))
    } else {
        s.to_string()
    }
}
type N = (String, Option<usize>, bool, String);
impl M {
    /// The names as written, or None when a name is of no sheet.
    fn want(&self) -> Option<Vec<N>> {
        // (sort key, range, name)
        let mut v: Vec<((String, String), N)> = vec![];
        for (local, name, text) in &self.user {
            let id = match local {
                None => None,
                Some(s) => Some(self.sheets.iter().position(|x| x.name == *s)?),
            };
            v.push(((name.to_lowercase(), text.clone()), (name.clone(), id, false, text.clone())));
        }
        for (i, s) in self.sheets.iter().enumerate() {
            let n = q(&s.name);
            if let Some(r) = s.filter {
                let t = format!("{n}!{}", abs(r));
                v.push((("_filterdatabase{}".into(), t.clone()), ("_xlnm._FilterDatabase".into(), Some(i), true, t)));
            }
            if let Some(r) = s.area {
                let t = format!("{n}!{}", abs(r));
                v.push((("print_area{}".into(), t.clone()), ("_xlnm.Print_Area".into(), Some(i), false, t)));
            }
            let mut t = vec![];
            if let Some((a, b)) = s.cols {
                t.push(format!("{n}!${}:${}", book::col_name(a as u32), book::col_name(b as u32)));
            }
            if let Some((a, b)) = s.rows {
                t.push(format!("{n}!${}:${}", a + 1, b + 1));
            }
            if !t.is_empty() {
                let t = t.join(",");
                v.push((("print_titles".into(), t.clone()), ("_xlnm.Print_Titles".into(), Some(i), false, t)));
            }
        }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        Some(v.into_iter().map(|x| x.1).collect())
    }
}
fn good_name(n: &str) -> bool {
    n.starts_with(|c: char| c.is_alphabetic() || c == '_' || c == '\\') && !n.contains(|c| " ,/*[]:\"'".contains(c))
}
fn apply(wb: &mut Workbook, m: &mut M, op: &Op) -> R {
    match op {
        Global(n, f) => {
            m.user.push((None, n.to_string(), f.trim_start_matches('=').to_string()));
            e(wb.define_name(*n, f)).map(|_| ())
        }
        Local(i, n) => {
            let s = m.sheets[*i].name.clone();
            let f = format!("{}!$A$1", q(&s));
            m.user.push((Some(s.clone()), n.to_string(), f.clone()));
            e(wb.define_name(format!("{}!{n}", q(&s)), &f)).map(|_| ())
        }
        Raw(n, ok) => {
            let r = wb.define_name(*n, "=1").is_ok();
            if *ok {
                let (s, l) = match n.rsplit_once('!') {
                    Some((s, l)) => (Some(s.trim_matches('\'').replace("''", "'")), l),
                    None => (None, *n),
                };
                m.user.push((s, l.to_string(), "1".into()));
            }
            eq(&format!("name {n:?} accepted"), *ok, r)
        }
        Area(i, r) => {
            m.sheets[*i].area = if *r == (0, 0, 1_048_575, 16_383) { None } else { Some(*r) };
            e(wb.worksheets_mut()[*i].set_print_area(r.0, r.1, r.2, r.3)).map(|_| ())
        }
        Rows(i, a, b) => {
            m.sheets[*i].rows = Some((*a, *b));
            e(wb.worksheets_mut()[*i].set_repeat_rows(*a, *b)).map(|_| ())
        }
        Cols(i, a, b) => {
            m.sheets[*i].cols = Some((*a, *b));
            e(wb.worksheets_mut()[*i].set_repeat_columns(*a, *b)).map(|_| ())
        }
        Filter(i, r) => {
            m.sheets[*i].filter = Some(*r);
            e(wb.worksheets_mut()[*i].autofilter(r.0, r.1, r.2, r.3)).map(|_| ())
        }
        Rename(i, n) => {
            m.sheets[*i].name = n.to_string();
            e(wb.worksheets_mut()[*i].set_name(*n)).map(|_| ())
        }
        Swap => {
            m.sheets.swap(0, 1);
            wb.worksheets_mut().swap(0, 1);
            Ok(())
        }
        Save => {
            let _ = wb.save_to_buffer();
            Ok(())
        }
    }
}
fn names(p: &Pkg) -> Result<Vec<N>, String> {
    let wb = p.x("xl/workbook.xml")?;
    Ok(match wb.first("definedNames") {
        None => vec![],
        Some(d) => d.named("definedName").map(|n| (n.a("name").unwrap_or("").to_string(), n.au("localSheetId").map(|x| x as usize), n.a("hidden") == Some("1"), n.text())).collect(),
    })
}
fn check(wb: &mut Workbook, m: &M, rec: &mut Rec) -> R {
    let r = wb.save_to_buffer();
    rec.trace();
    let mut seen = std::collections::BTreeSet::new();
    let dup = m.sheets.iter().any(|s| !seen.insert(s.name.to_lowercase()));
    let want = m.want();
    if dup || want.is_none() {
        return if r.is_err() { Ok(()) } else { Err("saved although a name is of no sheet, or a sheet name is used twice".into()) };
    }
    let p = Pkg::open(&e(r)?)?;
    opc::check(&p)?;
    schema::check(&p)?;
    let got = names(&p)?;
    eq("defined names", want.unwrap(), got)?;
    // Each reference that the library made leads to its sheet.
    for (n, id, _, t) in names(&p)? {
        if n.starts_with("_xlnm.") {
            let i = id.ok_or("no sheet")?;
            for part in if n.ends_with("Titles") { split_refs(&t) } else { vec![t.clone()] } {
                eq(&format!("sheet of {n} {part}"), &m.sheets[i].name, &parse_ref(&part)?.0)?;
            }
        }
    }
    for (i, s) in m.sheets.iter().enumerate() {
        let got = p.sheet(i)?.first("autoFilter").and_then(|a| a.a("ref"));
        eq("filter of a sheet", s.filter.map(range_name), got.map(|x| x.to_string()))?;
    }
    Ok(())
}
/// Split at the commas outside of quotes.
fn split_refs(t: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut quoted = false;
    for c in t.chars() {
        if c == '\'' {
            quoted = !quoted;
        }
        if c == ',' && !quoted {
            v.push(String::new());
        } else {
            v.last_mut().unwrap().push(c);
        }
    }
    v
}
fn run(run: &mut Run) {
    // Quoting.
    let alpha = ['a', 'R', 'c', 'X', '1', '0', '9', '.', '_', ' ', '\'', '!', '-', '\u{e9}', '\u{1F600}'];
    let k = alpha.len() as u64;
    let depth = run.pick(4, 5);
    let n = seqs(k, depth);
    let fixed = ["XFD1", "XFE1", "XFD1048576", "XFD1048577", "A1048576", "A1048577", "R1048576", "R1048577", "C16384", "C16385", "RC16384", "RC1048577", "rc1", "r1c1", "R1C1x", "C1x", "Rx1", "AAAA1", "ZZZ1", "A01", "A0", "R0", "C0", "RC0", "R99999999999999999999", "A99999999999999999999", "Sheet1", "TRUE", "a.b", "a.1", "1a", "_1", "\u{df}1", "\u{e9}1", "R\u{e9}"];
    run.explore("quoting", n / 64 + 1, |b, rec| {
        rec.describe(|| format!("names {} to {}", b * 64, b * 64 + 63));
        let mut v: Vec<String> = (b * 64..(b * 64 + 64).min(n)).map(|i| seq(i, k).into_iter().map(|j| alpha[j]).collect()).collect();
        if b == 0 {
            v.extend(fixed.iter().map(|x| x.to_string()));
        }
        for s in v {
            rec.state(&s);
            rec.step();
            if !valid(&s) {
                continue;
            }
            let t = utility::quote_sheet_name(&s);
            let (back, rest) = parse_ref(&format!("{t}!A1")).map_err(|m| format!("quote_sheet_name({s:?}): {m}"))?;
            eq(&format!("name in {t}"), (&s, "A1"), (&back, rest.as_str()))?;
            if s.is_ascii() {
                eq(&format!("quote_sheet_name({s:?})"), q(&s), t)?;
            }
            rec.trace();
        }
        Ok(())
    });
    // Every reference the library makes to a sheet with such a name.
    let depth = run.pick(3, 4);
    let n = seqs(k, depth);
    let per = 12;
    run.explore("references", n / per + 1, |b, rec| {
        rec.describe(|| format!("names {} to {}", b * per, b * per + per - 1));
        let mut ns: Vec<String> = vec![];
        let mut all: Vec<String> = (b * per..(b * per + per).min(n)).map(|i| seq(i, k).into_iter().map(|j| alpha[j]).collect()).collect();
        if b == 0 {
            all.extend(fixed.iter().map(|x| x.to_string()));
        }
        for s in all {
            if valid(&s) && !ns.iter().any(|x| x.to_lowercase() == s.to_lowercase()) {
                ns.push(s);
            }
        }
        if ns.is_empty() {
            return Ok(());
        }
        let mut wb = Workbook::new();
        for (i, s) in ns.iter().enumerate() {
            rec.state(s);
            rec.step();
            let ws = wb.add_worksheet();
            e(ws.set_name(s))?;
            e(ws.write(1, 1, i as f64 + 0.5))?;
            e(ws.write(2, 1, i as f64 + 0.25))?;
            e(ws.set_print_area(0, 0, 5, 5))?;
            e(ws.set_repeat_rows(0, 1))?;
            e(ws.set_repeat_columns(0, 1))?;
            e(ws.autofilter(0, 0, 5, 5))?;
        }
        for s in &ns {
            e(wb.define_name(format!("{}!Here", q(s)), &format!("={}!$A$1", q(s))))?;
        }
        let ws = wb.add_worksheet();
        e(ws.set_name("The charts"))?;
        for (i, s) in ns.iter().enumerate() {
            let mut c = Chart::new_line();
            c.add_series().set_values((s.as_str(), 1, 1, 2, 1)).set_categories(format!("={}!$B$2:$B$3", q(s)).as_str()).set_name((s.as_str(), 1, 1));
            c.title().set_name((s.as_str(), 2, 1));
            e(ws.insert_chart(i as u32, 0, &c))?;
            e(ws.add_sparkline(i as u32, 5, &Sparkline::new().set_range((s.as_str(), 1, 1, 2, 1))))?;
            e(ws.add_sparkline(i as u32, 6, &Sparkline::new().set_range(format!("={}!B2:B3", q(s)).as_str())))?;
        }
        let p = closed(&mut wb)?;
        rec.trace();
        let mut cnt: BTreeMap<(String, usize), u64> = BTreeMap::new();
        for (n, id, _, t) in names(&p)? {
            let i = id.ok_or("a name without sheet")?;
            for r in split_refs(&t) {
                eq(&format!("sheet of {n} {r}"), &ns[i], &parse_ref(&r)?.0)?;
            }
            *cnt.entry((n, i)).or_default() += 1;
        }
        eq("names", ns.len() * 4, cnt.len())?;
        let d = p.follow_type(&p.sheets()?[ns.len()].part, "drawing");
        let d = d.first().ok_or("no drawing")?;
        let mut charts = 0;
        for r in p.rels(d) {
            let x = p.x(&opc::resolve(d, &r.target))?;
            let fs: Vec<(String, String)> = x.find_all("c:f").iter().map(|f| parse_ref(&f.text())).collect::<Result<_, _>>()?;
            let i = ns.iter().position(|s| *s == fs[0].0).ok_or_else(|| format!("chart of unknown sheet {:?}", fs[0].0))?;
            eq("chart references", vec![(ns[i].clone(), "$B$3".to_string()), (ns[i].clone(), "$B$2".to_string()), (ns[i].clone(), "$B$2:$B$3".to_string()), (ns[i].clone(), "$B$2:$B$3".to_string())], fs)?;
            // The cached values are those of the sheet.
            let vals: Vec<String> = x.find_all("c:val").iter().flat_map(|v| v.find_all("c:v")).map(|v| v.text()).collect();
            eq("cached values", vec![format!("{}", i as f64 + 0.5), format!("{}", i as f64 + 0.25)], vals)?;
            charts += 1;
        }
        eq("charts", ns.len(), charts)?;
        let x = p.sheet(ns.len())?;
        let mut sp: Vec<(String, String)> = vec![];
        for s in x.find_all("x14:sparkline") {
            sp.push((s.path("xne:sqref").or(s.path("xm:sqref")).map(|t| t.text()).unwrap_or_default(), s.path("xm:f").map(|t| t.text()).unwrap_or_default()));
        }
        eq("sparklines", ns.len() * 2, sp.len())?;
        for (at, f) in sp {
            let row = book::cell_ref(&at).ok_or("sparkline cell")?.0 as usize;
            eq(&format!("reference of the sparkline in {at}"), (ns[row].clone(), "B2:B3".to_string()), parse_ref(&f)?)?;
        }
        Ok(())
    });
    // Sequences.
    let ops = vec![
        Global("Total", "=Sheet1!$A$1"),
        Global("total2", "=1+2"),
        Global("_x.y", "=\"a<b\"&\"c\""),
        Local(0, "Total"),
        Local(1, "zz"),
        Raw("", false),
        Raw("Sheet1!", false),
        Raw("'!x", true),
        Raw("1x", false),
        Raw("a b", false),
        Raw("Nowhere!ok", true),
        Raw("a!b!c", true),
        Raw("'Sheet1'!quoted", true),
        Raw("\\back", true),
        Raw("Print_Area", true),
        Area(0, (0, 0, 3, 3)),
        Area(0, (0, 0, 1_048_575, 16_383)),
        Area(1, (2, 0, 4, 16_383)),
        Area(1, (0, 2, 1_048_575, 2)),
        Area(0, (5, 5, 5, 5)),
        Rows(0, 0, 0),
        Rows(1, 1, 4),
        Cols(0, 0, 2),
        Cols(1, 3, 3),
        Filter(0, (0, 0, 9, 3)),
        Filter(1, (2, 2, 2, 2)),
        Filter(0, (1, 0, 9, 1)),
        Rename(0, "It's here"),
        Rename(1, "a,b!c"),
        Rename(1, "A1"),
        Rename(0, "sheet2"),
        Swap,
        Save,
    ];
    let k = ops.len() as u64;
    let depth = run.pick(3, 4);
    run.explore("operations", seqs(k, depth), |i, rec| {
        let s: Vec<&Op> = seq(i, k).into_iter().map(|j| &ops[j]).collect();
        rec.describe(|| format!("{s:?}"));
        let mut wb = Workbook::new();
        wb.add_worksheet();
        wb.add_worksheet();
        let mut m = M { sheets: vec![Sh { name: "Sheet1".into(), ..Default::default() }, Sh { name: "Sheet2".into(), ..Default::default() }], user: vec![] };
        for op in &s {
            apply(&mut wb, &mut m, op)?;
            rec.state(&m);
            rec.step();
        }
        check(&mut wb, &m, rec)
    });
    // Characters of a name.
    let alpha = ['a', 'Z', '1', '_', '\\', '.', ' ', ',', '/', '*', '[', ']', ':', '"', '\'', '?', '\u{e9}', '-'];
    let k = alpha.len() as u64;
    let depth = run.pick(3, 4);
    run.explore("names", seqs(k, depth), |i, rec| {
        let s: String = seq(i, k).into_iter().map(|j| alpha[j]).collect();
        rec.describe(|| format!("{s:?}"));
        rec.state(&s);
        rec.step();
        let mut wb = Workbook::new();
        wb.add_worksheet();
        for local in [false, true] {
            let n = if local { format!("Sheet1!{s}") } else { s.clone() };
            eq(&format!("{n:?} accepted"), good_name(&s), wb.define_name(n.as_str(), "=1").is_ok())?;
        }
        if i % 16 == 0 {
            let p = pkg(&mut wb)?;
            let want: Vec<N> = if good_name(&s) { vec![(s.clone(), None, false, "1".into()), (s.clone(), Some(0), false, "1".into())] } else { vec![] };
            eq("names", want, names(&p)?)?;
            rec.trace();
        }
        Ok(())
    });
}
fn run_cells(run: &mut Run) {
    run.explore("columns", 64, |b, rec| {
        rec.describe(|| format!("columns from {}", b * 1024));
        for c in b * 1024..(b * 1024 + 1024).min(65_535) {
            let c = c as u16;
            let want = book::col_name(c as u32);
            rec.state(&want);
            rec.steps(2);
            eq(&format!("name of column {c}"), &want, &utility::column_number_to_name(c))?;
            eq(&format!("number of column {want}"), c, utility::column_name_to_number(&want))?;
        }
        rec.trace();
        Ok(())
    });
    let rows = [0u32, 1, 8, 9, 98, 99, 998, 999, 9_998, 9_999, 65_534, 65_535, 65_536, 99_999, 999_998, 999_999, 1_048_574, 1_048_575];
    let cols = [0u16, 1, 24, 25, 26, 27, 51, 52, 700, 701, 702, 703, 727, 728, 16_382, 16_383];
    let (nr, nc) = (rows.len(), cols.len());
    let cell = |r: u32, c: u16| format!("{}{}", book::col_name(c as u32), r + 1);
    let cella = |r: u32, c: u16| format!("${}${}", book::col_name(c as u32), r + 1);
    run.explore("cells and ranges", (nr * nc) as u64, |i, rec| {
        let mut d = Dig(i);
        let (r, c) = (*d.of(&rows), *d.of(&cols));
        rec.describe(|| format!("cell {r} {c}"));
        rec.state(&(r, c));
        eq("cell", cell(r, c), utility::row_col_to_cell(r, c))?;
        eq("absolute cell", cella(r, c), utility::row_col_to_cell_absolute(r, c))?;
        eq("parsed cell", Some((r, c)), book::cell_ref(&utility::row_col_to_cell(r, c)))?;
        for r2 in rows {
            for c2 in cols {
                rec.steps(4);
                let one = (r, c) == (r2, c2);
                let want = if one { cell(r, c) } else { format!("{}:{}", cell(r, c), cell(r2, c2)) };
                let wanta = if one { cella(r, c) } else { format!("{}:{}", cella(r, c), cella(r2, c2)) };
                eq("range", &want, &utility::cell_range(r, c, r2, c2))?;
                eq("absolute range", &wanta, &utility::cell_range_absolute(r, c, r2, c2))?;
                eq("sheet range", format!("'a b'!{want}"), utility::worksheet_range("a b", r, c, r2, c2))?;
                eq("absolute sheet range", format!("Data!{wanta}"), utility::worksheet_range_absolute("Data", r, c, r2, c2))?;
            }
        }
        rec.trace();
        Ok(())
    });
    // All letter strings.
    let depth = run.pick(3, 4);
    run.explore("column names", seqs(26, depth) / 512 + 1, |b, rec| {
        rec.describe(|| format!("names from {}", b * 512));
        for i in b * 512..(b * 512 + 512).min(seqs(26, depth)) {
            let s: String = seq(i, 26).into_iter().map(|j| (b'A' + j as u8) as char).collect();
            if s.is_empty() {
                continue;
            }
            rec.state(&s);
            rec.step();
            let n = utility::column_name_to_number(&s);
            let want = s.chars().fold(0u32, |a, c| a * 26 + (c as u32 - 64)) - 1;
            if want < 65_534 {
                eq(&format!("number of column {s}"), want, n as u32)?;
                eq("name", &s, &utility::column_number_to_name(n))?;
            } else if (n as u32) < 16_384 {
                return Err(format!("column {s} is taken for column {n}"));
            }
        }
        rec.trace();
        Ok(())
    });
}
