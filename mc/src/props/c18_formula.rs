//! C18: formulas and their results are stored as Excel needs them.
use super::util::*;
use super::Prop;

pub const PROP: Prop = Prop {
    id: "C18",
    level: "model_checking",
    rule: "Formulas are built from pieces (functions, user functions, names, references, quoted sheet names, table references, strings and array constants), each with the text Excel needs in the file, so that the expected text of the whole formula and whether it is dynamic is known by construction. All literals of up to a number of characters from an alphabet of those that matter, all sequences of pieces up to a length and all functions in all contexts are given to the real code at all places that take formulas; all result texts up to a length are compared with a grammar of numbers, booleans and errors.",
    assumes: &["formulas are valid and function names in capitals, as documented", "the list of functions that need a prefix is the documented one"],
    run,
};
/// The functions that need the prefix `_xlfn.`, as documented.
const FUTURE: &str = "ACOT ACOTH AGGREGATE ANCHORARRAY ARABIC ARRAYTOTEXT BASE BETA.DIST BETA.INV BINOM.DIST BINOM.DIST.RANGE BINOM.INV BITAND BITLSHIFT BITOR BITRSHIFT BITXOR BYCOL BYROW CEILING.MATH CEILING.PRECISE CHISQ.DIST CHISQ.DIST.RT CHISQ.INV CHISQ.INV.RT CHISQ.TEST CHOOSECOLS CHOOSEROWS COMBINA CONCAT CONFIDENCE.NORM CONFIDENCE.T COT COTH COVARIANCE.P COVARIANCE.S CSC CSCH DAYS DECIMAL DROP ERF.PRECISE ERFC.PRECISE EXPAND EXPON.DIST F.DIST F.DIST.RT F.INV F.INV.RT F.TEST FIELDVALUE FILTERXML FLOOR.MATH FLOOR.PRECISE FORECAST.ETS FORECAST.ETS.CONFINT FORECAST.ETS.SEASONALITY FORECAST.ETS.STAT FORECAST.LINEAR FORMULATEXT GAMMA GAMMA.DIST GAMMA.INV GAMMALN.PRECISE GAUSS HSTACK HYPGEOM.DIST IFNA IFS IMAGE IMCOSH IMCOT IMCSC IMCSCH IMSEC IMSECH IMSINH IMTAN ISFORMULA ISOMITTED ISOWEEKNUM LAMBDA LET LOGNORM.DIST LOGNORM.INV MAKEARRAY MAP MAXIFS MINIFS MODE.MULT MODE.SNGL MUNIT NEGBINOM.DIST NORM.DIST NORM.INV NORM.S.DIST NORM.S.INV NUMBERVALUE PDURATION PERCENTILE.EXC PERCENTILE.INC PERCENTRANK.EXC PERCENTRANK.INC PERMUTATIONA PHI POISSON.DIST PQSOURCE PYTHON_STR PYTHON_TYPE PYTHON_TYPENAME QUARTILE.EXC QUARTILE.INC QUERYSTRING RANDARRAY RANK.AVG RANK.EQ REDUCE RRI SCAN SEC SECH SEQUENCE SHEET SHEETS SINGLE SKEW.P SORTBY STDEV.P STDEV.S SWITCH T.DIST T.DIST.2T T.DIST.RT T.INV T.INV.2T T.TEST TAKE TEXTAFTER TEXTBEFORE TEXTJOIN TEXTSPLIT TOCOL TOROW UNICHAR UNICODE UNIQUE VALUETOTEXT VAR.P VAR.S VSTACK WEBSERVICE WEIBULL.DIST WRAPCOLS WRAPROWS XLOOKUP XMATCH XOR Z.TEST _xlws.FILTER _xlws.PY _xlws.SORT";
const DYNAMIC: &str = "ANCHORARRAY BYCOL BYROW CHOOSECOLS CHOOSEROWS DROP EXPAND FILTER HSTACK LAMBDA MAKEARRAY MAP PY RANDARRAY REDUCE SCAN SEQUENCE SINGLE SORT SORTBY SWITCH TAKE TEXTSPLIT TOCOL TOROW UNIQUE VSTACK WRAPCOLS WRAPROWS XLOOKUP";

#[derive(Clone, Debug, Default)]
struct F {
    raw: String,
    text: String,
    dynamic: bool,
}
fn f(raw: &str) -> F {
    F { raw: raw.to_string(), text: raw.to_string(), dynamic: false }
}
fn cat(parts: &[&F]) -> F {
    F { raw: parts.iter().map(|p| p.raw.as_str()).collect(), text: parts.iter().map(|p| p.text.as_str()).collect(), dynamic: parts.iter().any(|p| p.dynamic) }
}
/// A function call, with its prefix in the stored text.
fn call(name: &str, arg: &F) -> F {
    let (prefix, dynamic) = match FUTURE.split(' ').find(|x| x.trim_start_matches("_xlws.") == name) {
        Some(x) if x.starts_with("_xlws.") => ("_xlfn._xlws.", DYNAMIC.split(' ').any(|d| d == name)),
        Some(_) => ("_xlfn.", DYNAMIC.split(' ').any(|d| d == name)),
        None => ("", false),
    };
    F { raw: format!("{name}({})", arg.raw), text: format!("{prefix}{name}({})", arg.text), dynamic: arg.dynamic || dynamic }
}
const ALPHABET: [&str; 13] = ["SORT(", "CONCAT(", "\"", "'", "[", "]", "@", "a", " ", "{", "}", "é", "="];
fn content(i: u64) -> String {
    seq(i, ALPHABET.len() as u64).iter().map(|x| ALPHABET[*x]).collect()
}
/// A string, a quoted sheet name and a column of a table with a content.
fn literal(kind: usize, c: &str) -> F {
    match kind {
        0 => f(&format!("\"{}\"", c.replace('"', "\"\""))),
        1 => f(&format!("'x{}'!A1", c.replace('\'', "''"))),
        2 => f(&format!("T[{}]", bracket(c))),
        _ => {
            let b = bracket(c);
            F { raw: format!("T[[#Data],[{b}]]"), text: format!("T[[#Data],[{b}]]"), dynamic: false }
        }
    }
}
fn bracket(c: &str) -> String {
    c.chars().flat_map(|x| if matches!(x, '[' | ']' | '\'' | '#' | '@') { vec!['\'', x] } else { vec![x] }).collect()
}
fn pieces() -> Vec<F> {
    let a = f("A1");
    let mut v = vec![
        a.clone(),
        call("SUM", &a),
        call("SORT", &a),
        call("CONCAT", &a),
        call("STDEV.S", &a),
        call("UNIQUE", &call("T.DIST", &f("\"SORT(\""))),
        f("MySORT(A1)"),
        f("my_SORT(A1)"),
        f("SORT_2(A1)"),
        f("éSORT(A1)"),
        f("SORT"),
        f("SORT.A(A1)"),
        f("CONCAT (A1)"),
        f("\"a\"\"SORT(\""),
        f("'SORT(''\"'!A1"),
        f("T[CONCAT(']\"]"),
        f("{1,2}"),
        f("{\"SORT(\",\"}\"}"),
        f("1.5E-3"),
        f("Sheet1!A$1:$B2"),
        f("#REF!"),
        f("[1]Sheet1!A1"),
    ];
    v.push(cat(&[&f("-("), &call("XLOOKUP", &f("A1,B1:B2,'a[b'!A1")), &f(")")]));
    v.push(cat(&[&call("LET", &cat(&[&f("x,1,x+"), &call("SORT", &f("{2;1}"))])), &f("")]));
    v
}
/// The braces and equal signs around a formula.
const FORMS: [&str; 4] = ["", "=", "{=", "{"];
fn form(k: usize, x: &F) -> Option<String> {
    match FORMS[k] {
        "{=" => Some(format!("{{={}}}", x.raw)),
        // Not for an array constant, nor if the string has unbalanced braces: this form is ambiguous.
        "{" => (!x.raw.contains(['{', '}'])).then(|| format!("{{{}}}", x.raw)),
        // Without the equal sign an array constant looks like an array formula.
        "" => (!x.raw.starts_with('{')).then(|| x.raw.clone()),
        p => Some(format!("{p}{}", x.raw)),
    }
}
/// Write a list of formulas to a worksheet and compare the cells.
fn check(rec: &mut Rec, list: &[(String, F)]) -> R {
    let mut wb = Workbook::new();
    let w = wb.add_worksheet();
    for (n, (raw, _)) in list.iter().enumerate() {
        e(w.write_formula(n as u32, 0, raw.as_str()))?;
        rec.step();
    }
    let p = pkg(&mut wb)?;
    let doc = p.sheet(0)?;
    let cells = doc.find_all("c");
    eq("cells", list.len(), cells.len())?;
    for (c, (raw, x)) in cells.iter().zip(list) {
        cell(c, x, false).map_err(|m| format!("{raw}: {m}"))?;
        rec.trace();
    }
    eq("metadata", list.iter().any(|x| x.1.dynamic), p.part("xl/metadata.xml").is_some())
}
fn cell(c: &El, x: &F, array: bool) -> R {
    let fe = c.first("f").ok_or("no formula")?;
    eq("formula", x.text.clone(), crate::xml::unescape_x(&fe.text()))?;
    eq("dynamic", x.dynamic, c.a("cm") == Some("1"))?;
    eq("array", if x.dynamic || array { Some("array") } else { None }, fe.a("t"))
}
fn run(run: &mut Run) {
    const CHUNK: u64 = 500;
    // All literals in all contexts.
    let n = seqs(ALPHABET.len() as u64, run.pick(3, 5));
    run.explore("literals", n.div_ceil(CHUNK) * 4, |i, rec| {
        let (kind, i) = ((i % 4) as usize, i / 4);
        rec.describe(|| format!("literals {} to {} of kind {kind}", i * CHUNK, (i + 1) * CHUNK));
        let sort = call("SORT", &f("A1:A3"));
        for ctx in 0..6 {
            let mut list = vec![];
            for k in i * CHUNK..((i + 1) * CHUNK).min(n) {
                let c = content(k);
                if ctx == 0 {
                    rec.state(&(kind, &c));
                }
                let l = literal(kind, &c);
                let x = match ctx {
                    0 => l,
                    1 => call("CONCAT", &l),
                    2 => cat(&[&l, &f("&"), &sort]),
                    3 => cat(&[&sort, &f("&"), &l]),
                    4 => call("IF", &cat(&[&l, &f("="), &call("SUM", &l), &f(","), &call("T.TEST", &f("1")), &f(","), &l])),
                    _ => cat(&[&f("{1,2}*"), &l, &f("*{3,4}")]),
                };
                if let Some(raw) = form(if ctx == 5 { 1 } else { (k % 4) as usize }, &x) {
                    list.push((raw, x));
                }
            }
            check(rec, &list)?;
        }
        Ok(())
    });
    // All sequences of pieces.
    let ps = pieces();
    let n = seqs(ps.len() as u64, run.pick(3, 4));
    run.explore("sequences", n.div_ceil(CHUNK), |i, rec| {
        rec.describe(|| format!("sequences {} to {}", i * CHUNK, (i + 1) * CHUNK));
        let mut list = vec![];
        for k in (i * CHUNK).max(1)..((i + 1) * CHUNK).min(n) {
            rec.state(&k);
            let s = seq(k, ps.len() as u64);
            let mut x = ps[s[0]].clone();
            for (m, o) in s[1..].iter().enumerate() {
                x = cat(&[&x, &f(["&", ",", "="][(m + k as usize) % 3]), &ps[*o]]);
            }
            for m in 0..4 {
                if let Some(raw) = form(m, &x) {
                    list.push((raw, x.clone()));
                }
            }
        }
        check(rec, &list)
    });
    // All functions.
    let names: Vec<&str> = FUTURE.split(' ').map(|x| x.trim_start_matches("_xlws.")).chain(["SUM", "IF", "STDEV", "LEN", "T", "N", "LOG10", "ATAN2", "VLOOKUP", "RANK", "TDIST", "COUNTIFS", "SUMIFS", "AVERAGEIFS", "IFERROR"]).collect();
    run.explore("functions", names.len() as u64, |i, rec| {
        let name = names[i as usize];
        rec.describe(|| name.to_string());
        rec.state(&name);
        let a = f("A1");
        let one = call(name, &a);
        let mut v = vec![one.clone(), cat(&[&f("1+"), &one]), cat(&[&one, &f("+1")]), call("SUM", &one), call("SORT", &one), call(name, &one), cat(&[&f("-"), &one]), cat(&[&f("A1:A2"), &f(" "), &one]), cat(&[&f("\"x\"&"), &one, &f("&\"x\"")])];
        // Names that only contain the name of the function.
        for (b, c) in [("X", ""), ("", "X"), ("x", ""), ("", "_"), ("_", ""), ("9", ""), ("", "9"), ("A.", ""), ("", ".A"), ("é", ""), ("", "é"), ("\\", "")] {
            let other = format!("{b}{name}{c}");
            v.push(if FUTURE.split(' ').any(|x| x.trim_start_matches("_xlws.") == other) { call(&other, &a) } else { f(&format!("{other}(A1)")) });
        }
        v.push(f(name));
        v.push(f(&format!("{name}+1")));
        v.push(f(&format!("\"{name}(\"")));
        v.push(f(&name.to_lowercase()));
        let mut list: Vec<(String, F)> = v.iter().flat_map(|x| (0..3).filter_map(|k| Some((form(k, x)?, x.clone())))).collect();
        // Formulas which already have prefixes are only copied.
        for x in &v[..9] {
            if x.text.contains("_xlfn.") {
                list.push((x.text.clone(), F { raw: x.text.clone(), ..x.clone() }));
                list.push((format!("={}&\"é\"", x.text), F { raw: String::new(), text: format!("{}&\"é\"", x.text), dynamic: x.dynamic }));
            }
        }
        check(rec, &list)
    });
    places(run, &ps);
    results(run);
}
fn places(run: &mut Run, ps: &[F]) {
    let mut all: Vec<F> = ps.to_vec();
    for k in 0..4 {
        for i in 0..ALPHABET.len() as u64 + 1 {
            all.push(cat(&[&literal(k, &content(i)), &f("&"), &call("CONCAT", &f("A1"))]));
        }
    }
    run.explore("places", all.len() as u64, |i, rec| {
        let x = &all[i as usize];
        rec.describe(|| x.raw.clone());
        rec.state(&x.raw);
        rec.trace();
        let raw = format!("={}", x.raw);
        let s = raw.as_str();
        let mut wb = Workbook::new();
        let bold = Format::new().set_bold();
        let w = wb.add_worksheet();
        e(w.write_formula(0, 0, s))?;
        e(w.write_formula_with_format(1, 0, s, &bold))?;
        e(w.write(2, 0, Formula::new(s)))?;
        e(w.write_with_format(3, 0, &Formula::new(s), &bold))?;
        e(w.write_array_formula(4, 0, 4, 0, s))?;
        e(w.write_array_formula_with_format(5, 0, 5, 0, s, &bold))?;
        e(w.write_dynamic_array_formula(6, 0, 6, 0, s))?;
        e(w.write_dynamic_array_formula_with_format(7, 0, 7, 0, s, &bold))?;
        e(w.write_dynamic_formula(8, 0, s))?;
        e(w.write_dynamic_formula_with_format(9, 0, s, &bold))?;
        e(w.write_column(10, 0, [Formula::new(s), Formula::new(s)]))?;
        let dv = DataValidation::new().allow_custom(Formula::new(s));
        e(w.add_data_validation(0, 2, 0, 2, &dv))?;
        let dv = DataValidation::new().allow_whole_number_formula(DataValidationRule::Between(Formula::new(s), Formula::new(s)));
        e(w.add_data_validation(1, 2, 1, 2, &dv))?;
        e(w.add_conditional_format(0, 3, 0, 3, &ConditionalFormatFormula::new().set_rule(s).set_format(&bold)))?;
        e(w.add_conditional_format(1, 3, 1, 3, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::EqualTo(Formula::new(s))).set_format(&bold)))?;
        // References to the row of a table are only expanded for tables.
        let row = F { raw: format!("T[@a]+T[[a]:[b]]+[@[a b]]+{}", x.raw), text: format!("T[[#This Row],a]+T[[a]:[b]]+[[#This Row],[a b]]+{}", x.text), dynamic: x.dynamic };
        let t = Table::new().set_total_row(true).set_columns(&[TableColumn::new().set_formula(format!("={}", row.raw).as_str()), TableColumn::new().set_total_function(TableFunction::Custom(Formula::new(s)))]);
        e(w.add_table(20, 0, 22, 1, &t))?;
        rec.steps(16);
        let p = pkg(&mut wb)?;
        let doc = p.sheet(0)?;
        let cells = doc.find_all("c");
        let find = |r: &str| cells.iter().find(|c| c.a("r") == Some(r)).ok_or(format!("no cell {r}"));
        for k in 1..=12 {
            let r = format!("A{k}");
            let is = (7..=10).contains(&k);
            cell(find(&r)?, &F { dynamic: x.dynamic || is, ..x.clone() }, (5..=6).contains(&k)).map_err(|m| format!("{r}: {m}"))?;
        }
        cell(find("A22")?, &row, false).map_err(|m| format!("table column: {m}"))?;
        cell(find("B23")?, x, false).map_err(|m| format!("table total: {m}"))?;
        let un = |x: &El| crate::xml::unescape_x(&x.text());
        let t = p.parts.iter().map(|n| n.name.clone()).find(|n| n.starts_with("xl/tables/")).ok_or("no table")?;
        let t = p.x(&t)?;
        eq("column formula", vec![row.text.clone()], t.find_all("calculatedColumnFormula").iter().map(|x| un(x)).collect())?;
        eq("total formula", vec![x.text.clone()], t.find_all("totalsRowFormula").iter().map(|x| un(x)).collect())?;
        let dv: Vec<String> = doc.find_all("formula1").iter().chain(&doc.find_all("formula2")).map(|x| un(x)).collect();
        eq("validations", vec![x.text.clone(); 3], dv)?;
        let cf: Vec<String> = doc.find_all("formula").iter().map(|x| un(x)).collect();
        eq("conditional formats", vec![x.text.clone(); 2], cf)
    });
}
/// The type and text of a result.
fn result(s: &str) -> (Option<&'static str>, String) {
    let t = s.strip_prefix(['+', '-']).unwrap_or(s);
    let (m, ex) = match t.find(['e', 'E']) {
        Some(k) => (&t[..k], Some(&t[k + 1..])),
        None => (t, None),
    };
    let digits = |x: &str| x.chars().all(|c| c.is_ascii_digit());
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    let ok = digits(a) && digits(b) && a.len() + b.len() > 0 && ex.map_or(true, |x| {
        let x = x.strip_prefix(['+', '-']).unwrap_or(x);
        !x.is_empty() && digits(x)
    });
    match s {
        _ if ok => (None, s.to_string()),
        "" => (None, "0".into()),
        "TRUE" => (Some("b"), "1".into()),
        "FALSE" => (Some("b"), "0".into()),
        "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!" | "#GETTING_DATA" => (Some("e"), s.into()),
        _ => (Some("str"), s.into()),
    }
}
const RES: [&str; 26] = ["1", "0", ".", "-", "+", "e", "E", "inf", "nan", "NaN", "infinity", "TRUE", "FALSE", "true", "#N/A", "#REF!", "#DIV/0!", "#NAME?", "#NULL!", "#NUM!", "#VALUE!", "#GETTING_DATA", " ", "<&>\"", "_x0041_", "é"];
fn results(run: &mut Run) {
    let k = RES.len() as u64;
    let n = seqs(k, run.pick(3, 4));
    const CHUNK: u64 = 700;
    run.explore("results", n.div_ceil(CHUNK), |i, rec| {
        rec.describe(|| format!("results {} to {}", i * CHUNK, (i + 1) * CHUNK));
        let list: Vec<String> = (i * CHUNK..((i + 1) * CHUNK).min(n)).map(|x| seq(x, k).iter().map(|o| RES[*o]).collect()).collect();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        for (r, s) in list.iter().enumerate() {
            rec.state(s);
            rec.trace();
            let r = r as u32;
            e(w.write_formula(r, 0, Formula::new("1").set_result(s)))?;
            e(w.write_formula(r, 1, "1"))?;
            w.set_formula_result(r, 1, s);
            e(w.write_array_formula(r, 2, r, 2, Formula::new("1").set_result(s)))?;
            w.set_formula_result_default(s);
            e(w.write_formula(r, 3, "1"))?;
            e(w.write_dynamic_formula(r, 4, "1"))?;
            e(w.write_formula(r, 5, Formula::new("1").set_result("7")))?;
            w.set_formula_result_default("");
            rec.steps(6);
        }
        let p = pkg(&mut wb)?;
        let doc = p.sheet(0)?;
        for (s, row) in list.iter().zip(doc.find_all("row")) {
            let cells = row.find_all("c");
            eq("cells", 6, cells.len())?;
            for (c, x) in cells.iter().enumerate() {
                let (t, v) = if c == 5 { (None, "7".to_string()) } else { result(s) };
                let got = x.first("v").map(|v| v.text()).unwrap_or_default();
                let got = if t == Some("str") { crate::xml::unescape_x(&got) } else { got };
                // An empty default is an empty string.
                let want = if s.is_empty() && c != 5 { None } else { Some((t, v)) };
                if let Some(w) = want {
                    eq(&format!("result {s:?} in column {c}"), w, (x.a("t").map(|t| match t { "b" => "b", "e" => "e", "str" => "str", _ => "other" }), got))?;
                }
            }
        }
        Ok(())
    });
}
