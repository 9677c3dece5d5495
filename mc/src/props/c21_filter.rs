//! C21: autofilters are written as configured and hide the rows that Excel hides.
use super::util::*;
use super::Prop;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C21",
    level: "model_checking",
    rule: "Model: the filter of each column as the last builder calls left it, and a matching relation between filter values and cells (numbers, dates, texts, texts of blanks, formatted and missing blanks) with Excel's rules: a value that reads as a number is a number, texts are compared without case and surrounding blanks, the order of numbers and texts is separate, criteria on texts never hold for numbers, negated ones hold for all they don't describe. All sequences of builder calls are applied to all kinds of cells, all pairs of filters on two columns are combined, and all histories of filters, ranges, row settings, cell writes and saves are applied to the real code; the written filter and the set of hidden rows are compared with the model.",
    assumes: &["the values of filters contain no wildcards", "blanks are filtered by the list or by the documented custom filter of a blank", "formulas, booleans, errors and dates in lists are left alone"],
    run,
};
#[derive(Clone, Copy, PartialEq, Debug)]
enum Val {
    T(&'static str),
    N(f64),
}
use FilterCriteria as K;
use Val::{N, T};
const KS: [(K, &str, &str); 12] = [
    (K::EqualTo, "=", ""),
    (K::NotEqualTo, "!=", "notEqual"),
    (K::GreaterThan, ">", "greaterThan"),
    (K::GreaterThanOrEqualTo, ">=", "greaterThanOrEqual"),
    (K::LessThan, "<", "lessThan"),
    (K::LessThanOrEqualTo, "<=", "lessThanOrEqual"),
    (K::BeginsWith, "begins", ""),
    (K::DoesNotBeginWith, "not begins", "notEqual"),
    (K::EndsWith, "ends", ""),
    (K::DoesNotEndWith, "not ends", "notEqual"),
    (K::Contains, "contains", ""),
    (K::DoesNotContain, "not contains", "notEqual"),
];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Call {
    List(Val),
    Blanks,
    Custom(usize, Val),
    Or,
}
/// What the calls leave.
#[derive(Clone, PartialEq, Debug, Default, Hash)]
struct Filter {
    list: Vec<String>,
    blanks: bool,
    custom: Vec<(usize, String)>,
    or: bool,
    is_custom: bool,
}
fn text(v: Val) -> String {
    match v {
        T(s) => s.to_string(),
        N(n) => n.to_string(),
    }
}
impl Filter {
    fn of(calls: &[Call]) -> Filter {
        let mut f = Filter::default();
        for c in calls {
            match c {
                Call::List(v) => {
                    f.list.push(text(*v));
                    f.is_custom = false;
                }
                Call::Blanks => {
                    f.blanks = true;
                    f.is_custom = false;
                }
                Call::Custom(k, v) => {
                    if f.custom.len() < 2 {
                        f.custom.push((*k, text(*v)));
                    }
                    f.is_custom = true;
                }
                Call::Or => f.or = true,
            }
        }
        f
    }
    fn empty(&self) -> bool {
        self.list.is_empty() && !self.blanks && self.custom.is_empty()
    }
    fn matches(&self, c: C) -> Option<bool> {
        if !self.is_custom {
            return Some(match c {
                C::Missing | C::Blank => self.blanks,
                C::Text(s) => (self.blanks && s.trim().is_empty()) || self.list.iter().any(|v| same(v, s)),
                C::Number(n) => self.list.iter().any(|v| num(v) == Some(n)),
                C::Date(_) | C::Bool | C::Formula => return None,
            });
        }
        let mut r = vec![];
        for (k, v) in &self.custom {
            r.push(hit(KS[*k].0, v, c)?);
        }
        Some(match r[..] {
            [a] => a,
            [a, b] => {
                if self.or {
                    a || b
                } else {
                    a && b
                }
            }
            _ => unreachable!(),
        })
    }
    fn xml(&self) -> String {
        let mut s = String::new();
        if self.is_custom {
            s += if self.custom.len() > 1 && !self.or { "custom and" } else { "custom" };
            for (k, v) in &self.custom {
                let v = match KS[*k].0 {
                    K::BeginsWith | K::DoesNotBeginWith => format!("{v}*"),
                    K::EndsWith | K::DoesNotEndWith => format!("*{v}"),
                    K::Contains | K::DoesNotContain => format!("*{v}*"),
                    _ => v.clone(),
                };
                s += &format!(" [{} {v}]", KS[*k].2);
            }
        } else {
            s += if self.blanks { "list blank" } else { "list" };
            for v in &self.list {
                s += &format!(" [{v}]");
            }
        }
        s
    }
    fn build(calls: &[Call]) -> FilterCondition {
        let mut f = FilterCondition::new();
        for c in calls {
            f = match c {
                Call::List(T(s)) => f.add_list_filter(*s),
                Call::List(N(n)) => f.add_list_filter(*n),
                Call::Blanks => f.add_list_blanks_filter(),
                Call::Custom(k, T(s)) => f.add_custom_filter(KS[*k].0, *s),
                Call::Custom(k, N(n)) => f.add_custom_filter(KS[*k].0, *n),
                Call::Or => f.add_custom_boolean_or(),
            };
        }
        f
    }
}
fn num(v: &str) -> Option<f64> {
    v.trim().parse().ok().filter(|n: &f64| n.is_finite())
}
fn same(a: &str, b: &str) -> bool {
    a.trim().to_lowercase() == b.trim().to_lowercase()
}
/// Does a custom condition hold for a cell?
fn hit(k: K, v: &str, c: C) -> Option<bool> {
    let negated = matches!(k, K::NotEqualTo | K::DoesNotBeginWith | K::DoesNotEndWith | K::DoesNotContain);
    if let K::NotEqualTo = k {
        if v == " " {
            // All but blanks.
            return Some(match c {
                C::Missing | C::Blank => false,
                C::Text(s) => !s.trim().is_empty(),
                _ => true,
            });
        }
    }
    Some(match c {
        C::Missing | C::Blank => negated,
        C::Number(n) | C::Date(n) => match (k, num(v)) {
            (K::EqualTo, Some(v)) => n == v,
            (K::NotEqualTo, Some(v)) => n != v,
            (K::GreaterThan, Some(v)) => n > v,
            (K::GreaterThanOrEqualTo, Some(v)) => n >= v,
            (K::LessThan, Some(v)) => n < v,
            (K::LessThanOrEqualTo, Some(v)) => n <= v,
            _ => negated,
        },
        C::Text(s) => {
            let (s, w) = (s.trim().to_lowercase(), v.trim().to_lowercase());
            let texts = num(v).is_none();
            match k {
                K::EqualTo => s == w,
                K::NotEqualTo => s != w,
                K::GreaterThan => texts && s > w,
                K::GreaterThanOrEqualTo => texts && s >= w,
                K::LessThan => texts && s < w,
                K::LessThanOrEqualTo => texts && s <= w,
                K::BeginsWith => s.starts_with(&w),
                K::DoesNotBeginWith => !s.starts_with(&w),
                K::EndsWith => s.ends_with(&w),
                K::DoesNotEndWith => !s.ends_with(&w),
                K::Contains => s.contains(&w),
                K::DoesNotContain => !s.contains(&w),
            }
        }
        C::Bool | C::Formula => return None,
    })
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum C {
    Missing,
    Blank,
    Text(&'static str),
    Number(f64),
    Date(f64),
    Bool,
    Formula,
}
const CELLS: [C; 23] = [
    C::Missing,
    C::Blank,
    C::Text("East"),
    C::Text("EAST "),
    C::Text("eastern"),
    C::Text("Northeast"),
    C::Text("West"),
    C::Text("  "),
    C::Text("5"),
    C::Text("50"),
    C::Text("10"),
    C::Text("ÉTÉ"),
    C::Number(5.0),
    C::Number(5.000_000_000_01),
    C::Number(-5.0),
    C::Number(50.0),
    C::Number(4.5),
    C::Number(0.0),
    C::Number(100.0),
    C::Date(45000.0),
    C::Date(4.0),
    C::Bool,
    C::Formula,
];
fn put(w: &mut Worksheet, row: u32, col: u16, c: C) -> R {
    match c {
        C::Missing => Ok(()),
        C::Blank => e(w.write_blank(row, col, &Format::new().set_bold()).map(|_| ())),
        // Half of the texts are rich ones.
        C::Text(s) if s.len() % 2 == 0 && s.len() > 2 => e(w.write_rich_string(row, col, &[(&Format::default(), &s[..1]), (&Format::new().set_bold(), &s[1..])]).map(|_| ())),
        C::Text(s) => e(w.write_string(row, col, s).map(|_| ())),
        C::Number(n) => e(w.write_number(row, col, n).map(|_| ())),
        C::Date(n) => e(ExcelDateTime::from_serial_datetime(n).and_then(|d| w.write_datetime_with_format(row, col, &d, &Format::new().set_num_format("yyyy")).map(|_| ()))),
        C::Bool => e(w.write_boolean(row, col, true).map(|_| ())),
        C::Formula => e(w.write_formula(row, col, "=1").map(|_| ())),
    }
}
/// The calls for single conditions.
fn calls() -> Vec<Call> {
    let mut v = vec![Call::Blanks, Call::Or];
    for x in [T("East"), T("5"), N(5.0), T(" west"), T("été"), N(4.5), T("-5"), N(0.0)] {
        v.push(Call::List(x));
    }
    for k in 0..KS.len() {
        for x in [T("east"), N(5.0), T("5"), T("North"), T("tern")] {
            v.push(Call::Custom(k, x));
        }
    }
    v.push(Call::Custom(1, T(" ")));
    for k in [0, 1, 2, 6, 10, 11] {
        v.push(Call::Custom(k, T("Ét")));
    }
    v.push(Call::Custom(0, T(" éTÉ")));
    v
}
/// Fewer calls, for longer sequences.
fn few() -> Vec<Call> {
    vec![Call::Blanks, Call::Or, Call::List(T("East")), Call::List(N(5.0)), Call::Custom(0, T("West")), Call::Custom(1, T(" ")), Call::Custom(2, N(4.0)), Call::Custom(4, N(60.0)), Call::Custom(11, T("east")), Call::Custom(8, T("5"))]
}
/// The written autofilter: its range, and its columns.
fn written(x: &El) -> (Option<String>, Vec<(String, String)>) {
    let Some(a) = x.path("autoFilter") else { return (None, vec![]) };
    let mut v = vec![];
    for c in a.els() {
        let mut s = String::new();
        for l in c.els() {
            if l.name == "filters" {
                s += if l.a("blank") == Some("1") { "list blank" } else { "list" };
                for f in l.els() {
                    s += &format!(" [{}]", f.a("val").unwrap_or("-"));
                }
            } else {
                s += if l.a("and") == Some("1") { "custom and" } else { "custom" };
                for f in l.els() {
                    s += &format!(" [{} {}]", f.a("operator").unwrap_or(""), f.a("val").unwrap_or("-"));
                }
            }
        }
        v.push((c.a("colId").unwrap_or("-").to_string(), s));
    }
    (a.a("ref").map(str::to_string), v)
}
fn hidden(x: &El) -> BTreeSet<u32> {
    x.path("sheetData").map(|d| d.els().filter(|r| r.a("hidden") == Some("1")).filter_map(|r| r.a("r")?.parse::<u32>().ok()).map(|r| r - 1).collect()).unwrap_or_default()
}
/// Compare the hidden rows, apart from those the model leaves open.
fn same_rows(want: &[(u32, Option<bool>)], got: &BTreeSet<u32>) -> R {
    for (r, h) in want {
        if let Some(h) = h {
            if got.contains(r) != *h {
                return Err(format!("row {r} should be {}", if *h { "hidden" } else { "shown" }));
            }
        }
    }
    match got.iter().find(|r| !want.iter().any(|w| w.0 == **r)) {
        Some(r) => Err(format!("row {r} is hidden but isn't filtered")),
        None => Ok(()),
    }
}
fn one(cs: &[Call], rec: &mut Rec) -> R {
    rec.describe(|| format!("filter {cs:?}").replace("Custom(", "Custom(#"));
    rec.trace();
    for _ in cs {
        rec.step();
    }
    let f = Filter::of(cs);
    rec.state(&f);
    let mut wb = Workbook::new();
    let w = wb.add_worksheet();
    let (top, left) = (3, 2);
    e(w.write(top, left, "Head"))?;
    for (i, c) in CELLS.iter().enumerate() {
        put(w, top + 1 + i as u32, left, *c)?;
    }
    let bottom = top + CELLS.len() as u32;
    // A row below the range.
    e(w.write(bottom + 1, left, "Below"))?;
    e(w.autofilter(top, left - 1, bottom, left + 1))?;
    let r = w.filter_column(left, &Filter::build(cs)).map(|_| ());
    if f.empty() {
        if !matches!(r, Err(XlsxError::ParameterError(_))) {
            return Err(format!("an empty filter gave {r:?}"));
        }
        let p = pkg(&mut wb)?;
        eq("filters", 0, written(p.sheet(0)?).1.len())?;
        return eq("hidden rows", 0, hidden(p.sheet(0)?).len());
    }
    e(r)?;
    let p = closed(&mut wb)?;
    let x = p.sheet(0)?;
    let (range, cols) = written(x);
    eq("range", Some(range_name((top, left - 1, bottom, left + 1))), range)?;
    eq("filter", vec![("1".to_string(), f.xml())], cols)?;
    let want: Vec<(u32, Option<bool>)> = CELLS.iter().enumerate().map(|(i, c)| (top + 1 + i as u32, f.matches(*c).map(|m| !m))).collect();
    rec.seen(&want.iter().map(|w| w.1).collect::<Vec<_>>());
    for (i, c) in CELLS.iter().enumerate() {
        same_rows(&[want[i]], &hidden(x).into_iter().filter(|r| *r == want[i].0).collect()).map_err(|m| format!("{m}, with {c:?}"))?;
    }
    same_rows(&want, &hidden(x))
}
/// Small filters for histories.
const SMALL: [&[Call]; 4] = [&[Call::List(T("a"))], &[Call::Blanks], &[Call::Custom(2, N(1.0))], &[Call::Custom(1, T(" "))]];
const OPS: [&str; 14] = ["range", "shorter range", "range to the right", "filter 0 text", "filter 0 blanks", "filter 1 number", "filter 1 not blank", "filter outside", "text in row 2", "number in row 2", "text in row 3", "user hides row 2", "height of row 3", "save"];

fn run(run: &mut Run) {
    let all = calls();
    run.explore("conditions", seqs(all.len() as u64, 2), |i, rec| {
        let s: Vec<Call> = seq(i, all.len() as u64).iter().map(|k| all[*k]).collect();
        one(&s, rec)
    });
    let some = few();
    run.explore("builders", seqs(some.len() as u64, run.pick(4, 5)), |i, rec| {
        let s: Vec<Call> = seq(i, some.len() as u64).iter().map(|k| some[*k]).collect();
        one(&s, rec)
    });
    // Two filtered columns over all pairs of cells.
    let n = all.len() as u64;
    run.explore("two columns", n * n, |i, rec| {
        let (a, b) = (all[(i / n) as usize], all[(i % n) as usize]);
        let (f, g) = (Filter::of(&[a]), Filter::of(&[b]));
        rec.describe(|| format!("filters {a:?} and {b:?}"));
        if f.empty() || g.empty() {
            return Ok(());
        }
        rec.step();
        rec.step();
        rec.trace();
        rec.state(&(&f, &g));
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        let mut want = vec![];
        let m = CELLS.len();
        for x in 0..m {
            for y in 0..3 {
                let row = 1 + (x * 3 + y) as u32;
                let (c, d) = (CELLS[x], CELLS[(x * 7 + y * 5) % m]);
                put(w, row, 0, c)?;
                put(w, row, 1, d)?;
                let h = match (f.matches(c), g.matches(d)) {
                    (Some(false), _) | (_, Some(false)) => Some(true),
                    (Some(true), Some(true)) => Some(false),
                    _ => None,
                };
                want.push((row, h));
            }
        }
        e(w.autofilter(0, 0, (m * 3) as u32, 1))?;
        e(w.filter_column(1, &Filter::build(&[b])))?;
        e(w.filter_column(0, &Filter::build(&[a])))?;
        let p = pkg(&mut wb)?;
        let x = p.sheet(0)?;
        eq("filters", vec![("0".to_string(), f.xml()), ("1".to_string(), g.xml())], written(x).1)?;
        same_rows(&want, &hidden(x))?;
        // A new range drops the filters, and the rows hidden by them are shown.
        e(e(wb.worksheet_from_index(0))?.autofilter(0, 0, 1, 1))?;
        rec.step();
        let p = pkg(&mut wb)?;
        eq("filters after a new range", 0, written(p.sheet(0)?).1.len())?;
        same_rows(&[], &hidden(p.sheet(0)?)).map_err(|m| format!("after a new range: {m}"))
    });
    // Histories: ranges drop the filters, filters need a range, saves leave nothing behind.
    for off in [false, true] {
        run.explore(if off { "histories, rows left alone" } else { "histories" }, seqs(OPS.len() as u64, run.pick(4, 5)), |i, rec| {
            let s = seq(i, OPS.len() as u64);
            rec.describe(|| format!("{:?}", s.iter().map(|x| OPS[*x]).collect::<Vec<_>>()));
            rec.trace();
            let mut wb = Workbook::new();
            wb.add_worksheet();
            let mut range: Option<(u32, u16, u32, u16)> = None;
            let mut filters: std::collections::BTreeMap<u16, usize> = Default::default();
            let mut cells = std::collections::BTreeMap::from([((1, 1), C::Number(0.5)), ((4, 1), C::Number(3.0)), ((1, 0), C::Text("a")), ((3, 0), C::Blank), ((6, 1), C::Number(1.0))]);
            let mut user = false;
            let mut tall = false;
            let w = e(wb.worksheet_from_index(0))?;
            if off {
                w.filter_automatic_off();
            }
            for ((r, c), x) in &cells {
                put(w, *r, *c, *x)?;
            }
            for (n, o) in s.iter().chain(&[13]).enumerate() {
                rec.step();
                let w = e(wb.worksheet_from_index(0))?;
                match OPS[*o] {
                    "range" | "shorter range" | "range to the right" => {
                        let r = match OPS[*o] {
                            "range" => (0, 0, 5, 1),
                            "shorter range" => (1, 0, 3, 1),
                            _ => (0, 1, 5, 2),
                        };
                        e(w.autofilter(r.0, r.1, r.2, r.3))?;
                        range = Some(r);
                        filters.clear();
                    }
                    "filter 0 text" | "filter 0 blanks" | "filter 1 number" | "filter 1 not blank" | "filter outside" => {
                        let (col, f) = match OPS[*o] {
                            "filter 0 text" => (0, 0),
                            "filter 0 blanks" => (0, 1),
                            "filter 1 number" => (1, 2),
                            "filter 1 not blank" => (1, 3),
                            _ => (7, 0),
                        };
                        let ok = range.is_some_and(|r| r.1 <= col && col <= r.3);
                        match (ok, w.filter_column(col, &Filter::build(SMALL[f])).map(|_| ())) {
                            (true, Ok(())) => {
                                filters.insert(col, f);
                            }
                            (false, Err(XlsxError::ParameterError(_))) => {}
                            (_, r) => return Err(format!("call {n}: a filter {} gave {r:?}", if ok { "in range" } else { "out of range" })),
                        }
                    }
                    "text in row 2" | "number in row 2" | "text in row 3" => {
                        let (at, c) = match OPS[*o] {
                            "text in row 2" => ((2, 0), C::Text("A")),
                            "number in row 2" => ((2, 1), C::Number(2.0)),
                            _ => ((3, 0), C::Text("b")),
                        };
                        put(w, at.0, at.1, c)?;
                        cells.insert(at, c);
                    }
                    "user hides row 2" => {
                        e(w.set_row_hidden(2))?;
                        user = true;
                    }
                    "height of row 3" => {
                        e(w.set_row_height(3, 30))?;
                        tall = true;
                    }
                    _ => {
                        let p = if n == s.len() { closed(&mut wb)? } else { pkg(&mut wb)? };
                        let x = p.sheet(0)?;
                        let (ar, cols) = written(x);
                        eq("range", range.map(range_name), ar)?;
                        let left = range.map_or(0, |r| r.1);
                        eq("filters", filters.iter().map(|(c, f)| ((c - left).to_string(), Filter::of(SMALL[*f]).xml())).collect::<Vec<_>>(), cols)?;
                        let filter_mode = x.path("sheetPr").is_some_and(|p| p.a("filterMode") == Some("1"));
                        eq("filter mode", !filters.is_empty(), filter_mode)?;
                        let mut want = BTreeSet::new();
                        if user {
                            want.insert(2);
                        }
                        if let (Some(r), false) = (range, off) {
                            for row in r.0 + 1..=r.2 {
                                if filters.iter().any(|(c, f)| Filter::of(SMALL[*f]).matches(cells.get(&(row, *c)).copied().unwrap_or(C::Missing)) == Some(false)) {
                                    want.insert(row);
                                }
                            }
                        }
                        eq("hidden rows", &want, &hidden(x)).map_err(|m| format!("save {n}: {m}"))?;
                        let ht = x.path("sheetData").and_then(|d| d.els().find(|r| r.a("r") == Some("4")).and_then(|r| r.a("ht").map(str::to_string)));
                        eq("height", if tall { Some("30".to_string()) } else { None }, ht)?;
                        rec.seen(&want);
                    }
                }
                rec.state(&(range, filters.clone(), cells.len(), user, tall));
            }
            Ok(())
        });
    }
}
