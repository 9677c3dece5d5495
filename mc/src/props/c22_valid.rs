//! C22: data validations.
use super::util::*;
use super::Prop;
use crate::opt;
use crate::opt::{Dom, Flat, Opt, St};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C22",
    level: "model_checking",
    rule: "Model: the setting in force for each group of settings of a data validation (the last call wins), rendered to the expected element, and for a sheet the validation last added to each range. All setting sequences up to the depth, every rule kind with every operator and value type, all text lengths around the limits, and all sequences of additions to ranges are applied to the real code and compared.",
    assumes: &["a validation of any value without any message says nothing and need not be written"],
    run,
};
type D = Vec<Opt<DataValidation>>;
fn by(f: impl Fn(DataValidation) -> Result<DataValidation, XlsxError> + Send + Sync + 'static) -> impl Fn(&mut DataValidation) -> R + Send + Sync {
    move |d| {
        *d = e(f(d.clone()))?;
        Ok(())
    }
}
/// The rule kinds over one value type: (operator, text, rule).
fn rules<T: IntoDataValidationValue + Clone>(a: T, b: T) -> Vec<(&'static str, bool, DataValidationRule<T>)> {
    use DataValidationRule::*;
    vec![
        ("equal", false, EqualTo(a.clone())),
        ("notEqual", false, NotEqualTo(a.clone())),
        ("greaterThan", false, GreaterThan(a.clone())),
        ("greaterThanOrEqual", false, GreaterThanOrEqualTo(a.clone())),
        ("lessThan", false, LessThan(a.clone())),
        ("lessThanOrEqual", false, LessThanOrEqualTo(a.clone())),
        ("between", true, Between(a.clone(), b.clone())),
        ("notBetween", true, NotBetween(a, b)),
    ]
}
fn add<T: IntoDataValidationValue + Clone + Send + Sync + 'static>(v: &mut D, kind: &str, ty: &str, a: (T, &str), b: (T, &str), f: fn(DataValidation, DataValidationRule<T>) -> DataValidation, all: bool) {
    for (op, two, r) in rules(a.0.clone(), b.0.clone()) {
        if !all && !matches!(op, "equal" | "between" | "notBetween" | "lessThanOrEqual") {
            continue;
        }
        let mut s = format!("dv@type={ty};dv@operator={op};dv/formula1={}", a.1);
        if two {
            s.push_str(&format!(";dv/formula2={}", b.1));
        }
        opt!(v, format!("{kind} {op}"), "rule", by(move |d| Ok(f(d, r.clone()))), s);
    }
}
fn opts(all: bool) -> D {
    let mut v: D = vec![];
    add(&mut v, "whole", "whole", (-5i32, "-5"), (100, "100"), |d, r| d.allow_whole_number(r), true);
    add(&mut v, "whole formula", "whole", (Formula::new("=A1+1"), "A1+1"), (Formula::new("$B$2"), "$B$2"), |d, r| d.allow_whole_number_formula(r), all);
    add(&mut v, "decimal", "decimal", (-1.5, "-1.5"), (2.25, "2.25"), |d, r| d.allow_decimal_number(r), all);
    add(&mut v, "decimal formula", "decimal", (Formula::new("=A1<\"x\""), "A1<\"x\""), (Formula::new("=B2"), "B2"), |d, r| d.allow_decimal_number_formula(r), all);
    add(&mut v, "length", "textLength", (0u32, "0"), (10, "10"), |d, r| d.allow_text_length(r), all);
    add(&mut v, "length formula", "textLength", (Formula::new("=C1"), "C1"), (Formula::new("=C2"), "C2"), |d, r| d.allow_text_length_formula(r), all);
    let day = |y, m, d| ExcelDateTime::from_ymd(y, m, d).unwrap();
    let time = |h, m| ExcelDateTime::from_hms(h, m, 0).unwrap();
    add(&mut v, "date", "date", (day(2025, 1, 1), "45658"), (day(2025, 12, 31), "46022"), |d, r| d.allow_date(r), all);
    add(&mut v, "date formula", "date", (Formula::new("=TODAY()"), "TODAY()"), (Formula::new("=TODAY()+7"), "TODAY()+7"), |d, r| d.allow_date_formula(r), all);
    add(&mut v, "time", "time", (time(6, 0), "0.25"), (time(12, 0), "0.5"), |d, r| d.allow_time(r), all);
    add(&mut v, "time formula", "time", (Formula::new("=D1"), "D1"), (Formula::new("=D2"), "D2"), |d, r| d.allow_time_formula(r), all);
    opt!(v, "any", "rule", by(|d| Ok(d.allow_any_value())), "");
    opt!(v, "custom", "rule", by(|d| Ok(d.allow_custom(Formula::new("=AND(ISNUMBER(A1),LEN(A1)<3)")))), "dv@type=custom;dv/formula1=AND(ISNUMBER(A1),LEN(A1)<3)");
    opt!(v, "list formula", "rule", by(|d| Ok(d.allow_list_formula(Formula::new("='Other sheet'!$A$1:$A$9")))), "dv@type=list;dv/formula1='Other sheet'!$A$1:$A$9");
    for (n, l, x) in [("strings", vec!["a", "b & c", "<d>"], "a,b & c,<d>"), ("quotes", vec!["say \"hi\"", "x"], "say \"\"hi\"\",x"), ("one", vec!["only"], "only")] {
        opt!(v, format!("list {n}"), "rule", by(move |d| d.allow_list_strings(&l)), format!("dv@type=list;dv/formula1=\"{x}\""));
    }
    // At the limit of 255 characters, and beyond it: refused.
    let l: Vec<String> = vec!["\u{e9}".repeat(100), "y".repeat(154)];
    let x = l.join(",");
    opt!(v, "list 255", "rule", by(move |d| d.allow_list_strings(&l)), format!("dv@type=list;dv/formula1=\"{x}\""));
    for (n, b) in [("ignore blank", 0), ("dropdown", 1), ("show input", 2), ("show error", 3)] {
        for on in [true, false] {
            let f: fn(DataValidation, bool) -> DataValidation = match b {
                0 => |d, x| d.ignore_blank(x),
                1 => |d, x| d.show_dropdown(x),
                2 => |d, x| d.show_input_message(x),
                _ => |d, x| d.show_error_message(x),
            };
            let a = ["allowBlank", "showDropDown", "showInputMessage", "showErrorMessage"][b];
            opt!(v, format!("{n} {on}"), n, by(move |d| Ok(f(d, on))), format!("dv@{a}={}", (on != (b == 1)) as u8));
        }
    }
    for (n, f, a, max) in [
        ("input title", (|d, s| d.set_input_title(s)) as fn(DataValidation, &str) -> Result<DataValidation, XlsxError>, "promptTitle", 32),
        ("input message", |d, s| d.set_input_message(s), "prompt", 255),
        ("error title", |d, s| d.set_error_title(s), "errorTitle", 32),
        ("error message", |d, s| d.set_error_message(s), "error", 255),
    ] {
        for (i, t) in [format!("text of {n} & \"<x>\""), format!("two\n{n}"), String::new(), "\u{e9}".repeat(max)].into_iter().enumerate() {
            let s = t.clone();
            opt!(v, format!("{n} {i}"), n, by(move |d| f(d, &s)), if t.is_empty() { String::new() } else { format!("dv@{a}={t}") });
        }
    }
    for (n, s, x) in [("stop", DataValidationErrorStyle::Stop, "stop"), ("warning", DataValidationErrorStyle::Warning, "warning"), ("information", DataValidationErrorStyle::Information, "information")] {
        opt!(v, format!("style {n}"), "style", by(move |d| Ok(d.set_error_style(s.clone()))), format!("dv@errorStyle={x}"));
    }
    opt!(v, "multi range", "range", by(|d| Ok(d.set_multi_range("A1:B2,$D$4 F6:F9"))), "dv@sqref=A1:B2 D4 F6:F9");
    v
}
fn base() -> Flat {
    let mut m = Flat::new();
    crate::opt::edits(&mut m, "dv@type=none;dv@operator=between;dv@errorStyle=stop;dv@allowBlank=1;dv@showDropDown=0;dv@showInputMessage=1;dv@showErrorMessage=1;dv@sqref=C3:D5");
    m
}
fn rule(s: &St, m: &mut Flat) {
    let any = m["dv@type"] == "none";
    if any && !["promptTitle", "prompt", "errorTitle", "error"].iter().any(|a| m.contains_key(&format!("dv@{a}"))) {
        m.clear();
    } else if any {
        // The kind of message box says nothing when no value is refused.
        m.remove("dv@errorStyle");
    }
    let _ = s;
}
fn facts(x: &El) -> Flat {
    let mut m = crate::opt::flat(x, "dv");
    for (a, d) in [("type", "none"), ("operator", "between"), ("errorStyle", "stop"), ("allowBlank", "0"), ("showDropDown", "0"), ("showInputMessage", "0"), ("showErrorMessage", "0")] {
        m.entry(format!("dv@{a}")).or_insert(d.into());
    }
    if m["dv@type"] == "none" {
        m.remove("dv@errorStyle");
    }
    m
}
fn list<'a>(p: &'a Pkg, n: usize) -> Result<Vec<&'a El>, String> {
    let x = p.sheet(n)?;
    match x.first("dataValidations") {
        None => Ok(vec![]),
        Some(d) => {
            let v: Vec<&El> = d.els().collect();
            if v.is_empty() {
                return Err("empty dataValidations".into());
            }
            eq("count", v.len() as u64, d.au("count").unwrap_or(0))?;
            Ok(v)
        }
    }
}
fn observe(sel: &[&Opt<DataValidation>]) -> Result<Flat, String> {
    let mut d = DataValidation::new();
    for o in sel {
        (o.apply)(&mut d).map_err(|m| format!("{}: {m}", o.name))?;
    }
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    e(ws.add_data_validation(2, 2, 4, 3, &d))?;
    wb.add_worksheet();
    let p = closed(&mut wb)?;
    eq("validations of the other sheet", 0, list(&p, 1)?.len())?;
    let v = list(&p, 0)?;
    match v.len() {
        0 => Ok(Flat::new()),
        1 => Ok(facts(v[0])),
        n => Err(format!("{n} validations")),
    }
}
fn run(run: &mut Run) {
    let d = Dom { name: "data validation".into(), opts: opts(true), base: base(), rule };
    crate::opt::explore(run, &d, 2, observe);
    if run.thorough {
        let d = Dom { name: "data validation, fewer operators".into(), opts: opts(false), base: base(), rule };
        crate::opt::explore(run, &d, 3, observe);
    }
    // Text limits: accepted up to the limit, refused beyond it.
    let kinds = 5;
    run.explore("text lengths", kinds * 300 * 2, |i, rec| {
        let mut g = Dig(i);
        let (k, n, wide) = (g.take(kinds as usize), g.take(300), g.flag());
        rec.describe(|| format!("text {k} of {n} characters, wide {wide}"));
        rec.step();
        let t = if wide { "\u{4e2d}".repeat(n) } else { "t".repeat(n) };
        let d = DataValidation::new().allow_whole_number(DataValidationRule::EqualTo(1));
        let (r, a, max) = match k {
            0 => (d.set_input_title(&t), "promptTitle", 32),
            1 => (d.set_input_message(&t), "prompt", 255),
            2 => (d.set_error_title(&t), "errorTitle", 32),
            3 => (d.set_error_message(&t), "error", 255),
            _ => (d.allow_list_strings(&[&t]), "", 255),
        };
        rec.state(&(k, n > max));
        rec.trace();
        let d = match r {
            Err(x) if n > max => return if x.to_string().is_empty() { Err("no message".into()) } else { Ok(()) },
            Err(x) => return Err(format!("refused: {x}")),
            Ok(_) if n > max => return Err("accepted".into()),
            Ok(d) => d,
        };
        let mut wb = Workbook::new();
        e(wb.add_worksheet().add_data_validation(0, 0, 0, 0, &d))?;
        let p = pkg(&mut wb)?;
        let v = list(&p, 0)?;
        eq("validations", 1, v.len())?;
        if a.is_empty() {
            eq("list", format!("\"{t}\""), v[0].first("formula1").ok_or("no list")?.text())
        } else {
            eq(a, if n == 0 { None } else { Some(t.as_str()) }, v[0].a(a))
        }
    });
    // Additions to ranges: one validation per range, the last.
    let ranges = [(0, 0, 0, 0), (1, 1, 3, 3), (1, 1, 3, 4), (0, 0, 1_048_575, 16_383), (1_048_575, 16_383, 1_048_575, 16_383), (3, 1, 1, 1), (0, 3, 0, 1), (0, 0, 1_048_576, 0), (0, 0, 0, 16_384)];
    let k = (ranges.len() * 3) as u64;
    run.explore("additions", seqs(k, run.pick(3, 4)), |i, rec| {
        let s = seq(i, k);
        rec.describe(|| s.iter().map(|j| format!("{:?} kind {}", ranges[j % ranges.len()], j / ranges.len())).collect::<Vec<_>>().join(", "));
        let mut wb = Workbook::new();
        let ws = wb.add_worksheet();
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        for (n, j) in s.iter().enumerate() {
            let r = ranges[j % ranges.len()];
            let ok = r.0 <= r.2 && r.1 <= r.3 && r.2 < 1_048_576 && r.3 < 16_384;
            let kind = j / ranges.len();
            let d = match kind {
                0 => DataValidation::new().allow_whole_number(DataValidationRule::EqualTo(n as i32)),
                1 => DataValidation::new().allow_custom(Formula::new(format!("=A{}", n + 1))),
                _ => DataValidation::new(),
            };
            let res = ws.add_data_validation(r.0, r.1, r.2, r.3, &d).is_ok();
            eq("accepted", ok, res)?;
            if ok && kind < 2 {
                m.insert(range_name(r), if kind == 0 { format!("{n}") } else { format!("A{}", n + 1) });
            }
            rec.step();
            rec.state(&m);
        }
        let p = closed(&mut wb)?;
        rec.trace();
        let mut got = BTreeMap::new();
        for x in list(&p, 0)? {
            if got.insert(x.a("sqref").unwrap_or("").to_string(), x.first("formula1").ok_or("no formula")?.text()).is_some() {
                return Err("two validations for one range".into());
            }
        }
        diff(&m, &got)
    });
}
