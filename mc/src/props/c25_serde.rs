//! C25: serialized structs fill exactly the cells under their headers.
use super::util::*;
use super::Prop;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C25",
    level: "model_checking",
    rule: "Model: per struct type the place of its headers, the column, header, formats and width of each field that isn't skipped, the row of the next value and the table to be made; and the cells of the sheet. All sequences of header calls of every form (from values, from types, from options and from the XlsxSerialize trait; with renamed, reordered, skipped and formatted fields, hidden headers, tables) and of serialized values (alone, in vectors, tuples, options and references, of types with and without headers) up to the depth are applied to the real code, which has to give the dimensions of the model after each call; every cell, format, width and table of the saved sheet is compared with the model. All kinds of field values are written with and without formats over empty and full cells.",
    assumes: &["tables have at least one row of data, and don't overlap", "structs in structs and maps are documented as not supported"],
    run,
};
#[derive(Serialize, Deserialize, Clone)]
struct Item {
    name: String,
    cost: f64,
    #[serde(rename = "In stock")]
    ok: Option<bool>,
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(rename_all = "camelCase")]
struct Label {
    short_code: u8,
    sign: char,
}
#[derive(Serialize, Deserialize)]
struct Other {
    x: i32,
}
const FIELDS: [&str; 3] = ["name", "cost", "In stock"];
const LABEL: [&str; 2] = ["shortCode", "sign"];
fn item(k: usize) -> Item {
    Item { name: ["Peach", "<&>  x", ""][k % 3].into(), cost: [1.25, -3.0, 1e10][k % 3], ok: [Some(true), None, Some(false)][k % 3] }
}
fn label(k: usize) -> Label {
    Label { short_code: [0, 255][k % 2], sign: ['ä', '"'][k % 2] }
}
impl XlsxSerialize for Label {
    fn to_serialize_field_options() -> SerializeFieldOptions {
        let c = [CustomSerializeField::new("sign").set_header_format(fmt("I")).set_column_width(20), CustomSerializeField::new("shortCode").rename("Code")];
        SerializeFieldOptions::new().set_custom_headers(&c).use_custom_headers_only(true).set_struct_name("Label")
    }
}
fn fmt(t: &str) -> Format {
    match t {
        "B" => Format::new().set_bold(),
        "I" => Format::new().set_italic(),
        "S" => Format::new().set_font_strikethrough(),
        _ => Format::new().set_underline(FormatUnderline::Single),
    }
}
#[derive(Clone, Hash, Debug)]
struct Field {
    name: &'static str,
    header: &'static str,
    head: &'static str,
    value: &'static str,
}
fn f(name: &'static str, header: &'static str, head: &'static str, value: &'static str) -> Field {
    Field { name, header, head, value }
}
#[derive(Clone, Hash, Debug)]
struct Conf {
    row: u32,
    col: u16,
    next: u32,
    fields: Vec<Field>,
    /// Total row and header row of the table to come.
    table: Option<(bool, bool)>,
}
#[derive(Clone, Default, Hash, Debug)]
struct M {
    confs: BTreeMap<&'static str, Conf>,
    cells: BTreeMap<(u32, u16), (String, String)>,
    cols: BTreeMap<u16, &'static str>,
    widths: BTreeMap<u16, &'static str>,
    tables: Vec<((u32, u16, u32, u16), Vec<String>, bool, bool)>,
    /// Something outside of the assumptions.
    out: bool,
}
impl M {
    fn put(&mut self, r: u32, c: u16, v: String, t: &str) {
        self.cells.insert((r, c), (v, t.into()));
    }
    fn text(&mut self, r: u32, c: u16, s: &str, t: &str) {
        if !s.is_empty() {
            self.put(r, c, format!("str {s:?}"), t);
        } else if !t.is_empty() {
            self.put(r, c, "blank".into(), t);
        }
    }
    fn table(&mut self, name: &str) {
        let Some(c) = self.confs.get_mut(name) else { return };
        let Some((totals, head)) = c.table.take() else { return };
        let c = c.clone();
        let range = (c.row, c.col, c.next.saturating_sub(1) + u32::from(totals), c.col + c.fields.len() as u16 - 1);
        self.out |= c.next - c.row < 1 + u32::from(head) || self.tables.iter().any(|t| t.0 .0 <= range.2 && range.0 <= t.0 .2 && t.0 .1 <= range.3 && range.1 <= t.0 .3);
        let heads = c.fields.iter().enumerate().map(|(i, f)| if head { f.header.to_string() } else { format!("Column{}", i + 1) }).collect();
        if totals {
            self.text(range.2, c.col, "All", "");
        }
        self.tables.push((range, heads, totals, head));
    }
    fn heads(&mut self, name: &'static str, row: u32, col: u16, show: bool, fields: Vec<Field>, table: Option<bool>) {
        for (i, f) in fields.iter().enumerate() {
            if show {
                self.text(row, col + i as u16, f.header, f.head);
            }
        }
        self.table(name);
        self.confs.insert(name, Conf { row, col, next: row + u32::from(show), fields, table: table.map(|t| (t, show)) });
    }
    /// A value of a struct: its fields as what `write` makes of them.
    fn value(&mut self, name: &'static str, v: &[(&'static str, String)]) {
        let Some(c) = self.confs.get_mut(name) else { return };
        let row = c.next;
        c.next += 1;
        let c = c.clone();
        for (k, x) in v {
            if let Some(i) = c.fields.iter().position(|f| f.name == *k) {
                let (col, t) = (c.col + i as u16, c.fields[i].value);
                if x == "empty" {
                    self.text(row, col, "", t);
                } else {
                    self.put(row, col, x.clone(), t);
                }
            }
        }
    }
    fn item(&mut self, k: usize) {
        let x = item(k);
        let s = if x.name.is_empty() { "empty".into() } else { format!("str {:?}", x.name) };
        self.value("Item", &[("name", s), ("cost", format!("num {:?}", x.cost)), ("In stock", x.ok.map(|b| format!("bool {b}")).unwrap_or("empty".into()))]);
    }
    fn label(&mut self, k: usize) {
        let x = label(k);
        self.value("Label", &[("shortCode", format!("num {:?}", f64::from(x.short_code))), ("sign", format!("str {:?}", x.sign.to_string()))]);
    }
}
type Op = (&'static str, Box<dyn Fn(&mut Worksheet) -> Result<(), XlsxError> + Sync + Send>, Box<dyn Fn(&mut M) + Sync + Send>);
fn plain(n: &[&'static str]) -> Vec<Field> {
    n.iter().map(|x| f(x, x, "", "")).collect()
}
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    macro_rules! op {
        ($n:expr, $w:expr, $m:expr) => {
            v.push(($n, Box::new($w), Box::new($m)));
        };
    }
    op!("headers of an item", |w| w.serialize_headers(1, 1, &item(1)).map(|_| ()), |m| m.heads("Item", 1, 1, true, plain(&FIELDS), None));
    op!("headers of an item with format", |w| w.serialize_headers_with_format(0, 4, &item(0), &fmt("B")).map(|_| ()), |m| m.heads("Item", 0, 4, true, FIELDS.iter().map(|x| f(x, x, "B", "")).collect(), None));
    op!(
        "headers with options",
        |w| {
            let c = [CustomSerializeField::new("cost").rename("Price <&>").set_header_format(fmt("I")).set_value_format(fmt("S")), CustomSerializeField::new("name").set_column_format(fmt("U")).set_column_width_pixels(103), CustomSerializeField::new("In stock").skip(true)];
            w.serialize_headers_with_options(2, 8, &item(0), &SerializeFieldOptions::new().set_header_format(fmt("B")).set_custom_headers(&c)).map(|_| ())
        },
        |m| {
            m.cols.insert(8, "U");
            m.widths.insert(8, "14.7109375");
            m.heads("Item", 2, 8, true, vec![f("name", "name", "B", ""), f("cost", "Price <&>", "I", "S")], None)
        }
    );
    op!(
        "only some fields, in another order",
        |w| {
            let c = [CustomSerializeField::new("In stock").rename("Ok").set_value_format(fmt("I")), CustomSerializeField::new("cost").skip(true), CustomSerializeField::new("name")];
            w.deserialize_headers_with_options::<Item>(3, 1, &SerializeFieldOptions::new().use_custom_headers_only(true).set_custom_headers(&c)).map(|_| ())
        },
        |m| m.heads("Item", 3, 1, true, vec![f("In stock", "Ok", "", "I"), f("name", "name", "", "")], None)
    );
    op!("hidden headers", |w| w.deserialize_headers_with_options::<Item>(0, 1, &SerializeFieldOptions::new().hide_headers(true)).map(|_| ()), |m| m.heads("Item", 0, 1, false, plain(&FIELDS), None));
    op!("headers of a type", |w| w.deserialize_headers::<Label>(0, 2).map(|_| ()), |m| m.heads("Label", 0, 2, true, plain(&LABEL), None));
    op!("headers of a type with format", |w| w.deserialize_headers_with_format::<Label>(5, 8, &fmt("S")).map(|_| ()), |m| m.heads("Label", 5, 8, true, LABEL.iter().map(|x| f(x, x, "S", "")).collect(), None));
    op!(
        "headers of the trait",
        |w| w.set_serialize_headers::<Label>(1, 0).map(|_| ()),
        |m| {
            m.widths.insert(0, "20.7109375");
            m.heads("Label", 1, 0, true, vec![f("sign", "sign", "I", ""), f("shortCode", "Code", "", "")], None)
        }
    );
    op!("table of items", |w| w.serialize_headers_with_options(0, 12, &item(0), &SerializeFieldOptions::new().set_table_default()).map(|_| ()), |m| m.heads("Item", 0, 12, true, plain(&FIELDS), Some(false)));
    op!(
        "table of labels with totals",
        |w| {
            let t = Table::new().set_total_row(true).set_columns(&[TableColumn::new().set_total_label("All")]);
            w.deserialize_headers_with_options::<Label>(0, 16, &SerializeFieldOptions::new().set_table(t)).map(|_| ())
        },
        |m| m.heads("Label", 0, 16, true, plain(&LABEL), Some(true))
    );
    op!(
        "table without headers",
        |w| w.deserialize_headers_with_options::<Label>(0, 20, &SerializeFieldOptions::new().set_table_style(TableStyle::Dark1).hide_headers(true)).map(|_| ()),
        |m| m.heads("Label", 0, 20, false, plain(&LABEL), Some(false))
    );
    op!("item 0", |w| w.serialize(&item(0)).map(|_| ()), |m| m.item(0));
    op!("item 1", |w| w.serialize(&item(1)).map(|_| ()), |m| m.item(1));
    op!("items 2 and 1 in a vector", |w| w.serialize(&vec![item(2), item(1)]).map(|_| ()), |m| {
        m.item(2);
        m.item(1)
    });
    op!("label 0 as an option", |w| w.serialize(&Some(label(0))).map(|_| ()), |m| m.label(0));
    op!("label 1 and item 0 in a tuple", |w| w.serialize(&(label(1), &item(0))).map(|_| ()), |m| {
        m.label(1);
        m.item(0)
    });
    op!("lists of labels", |w| w.serialize(&[vec![label(0)], vec![], vec![label(1), label(0)]]).map(|_| ()), |m| {
        m.label(0);
        m.label(1);
        m.label(0)
    });
    op!("another struct", |w| w.serialize(&Other { x: 7 }).map(|_| ()), |_| ());
    v
}
fn dims(w: &mut Worksheet, m: &M) -> R {
    for n in ["Item", "Label", "Other"] {
        let got = w.get_serialize_dimensions(n).ok();
        let last = |c: &Conf| c.next.saturating_sub(1).max(c.row);
        let want = m.confs.get(n).map(|c| (c.row, c.col, last(c), c.col + c.fields.len() as u16 - 1));
        eq(&format!("dimensions of {n}"), want, got)?;
        for k in ["name", "cost", "In stock", "shortCode", "sign", "x"] {
            let got = w.get_serialize_column_dimensions(n, k).ok();
            let want = m.confs.get(n).and_then(|c| c.fields.iter().position(|f| f.name == k).map(|i| (c.row, c.col + i as u16, last(c), c.col + i as u16)));
            eq(&format!("dimensions of {n}.{k}"), want, got)?;
        }
    }
    Ok(())
}
fn read(wb: &mut Workbook, m: &M) -> R {
    let p = closed(wb)?;
    let want: BTreeMap<(u32, u16), (String, String)> = m.cells.iter().map(|(k, v)| (*k, (v.0.clone(), if v.1.is_empty() { m.cols.get(&k.1).copied().unwrap_or("").to_string() } else { v.1.clone() }))).collect();
    diff(&want, &view(&p, 0)?)?;
    let x = p.sheet(0)?;
    let st = book::styles(&p)?;
    let mut widths = BTreeMap::new();
    let mut cols = BTreeMap::new();
    for c in x.first("cols").map(|c| c.els().collect::<Vec<_>>()).unwrap_or_default() {
        let n = |a: &str| c.a(a).and_then(|s| s.parse::<u32>().ok()).unwrap_or(0);
        for i in n("min")..=n("max") {
            if c.a("customWidth").is_some() {
                widths.insert(i as u16 - 1, c.a("width").unwrap_or("").to_string());
            }
            if n("style") > 0 {
                cols.insert(i as u16 - 1, tag(xf(&st, n("style"))?));
            }
        }
    }
    diff(&m.widths.iter().map(|(k, v)| (*k, v.to_string())).collect(), &widths).map_err(|e| format!("column widths: {e}"))?;
    diff(&m.cols.iter().map(|(k, v)| (*k, v.to_string())).collect(), &cols).map_err(|e| format!("column formats: {e}"))?;
    let mut want: Vec<String> = m.tables.iter().map(|t| format!("{} {:?} {} {}", range_name(t.0), t.1, t.2, t.3)).collect();
    let mut got = vec![];
    for r in p.rels(&p.sheets()?[0].part).into_iter().filter(|r| r.typ == "table") {
        let t = p.x(&opc::resolve("xl/worksheets/sheet1.xml", &r.target))?;
        let heads: Vec<String> = t.find_all("tableColumn").iter().map(|c| c.a("name").unwrap_or("").to_string()).collect();
        got.push(format!("{} {heads:?} {} {}", t.a("ref").unwrap_or(""), t.a("totalsRowCount") == Some("1"), t.a("headerRowCount") != Some("0")));
    }
    want.sort();
    got.sort();
    eq("tables", want, got)
}
#[derive(Serialize, Deserialize)]
struct Unit;
#[derive(Serialize, Deserialize)]
struct New(f64);
#[derive(Serialize, Deserialize)]
enum Kind {
    Red,
    Num(u16),
    #[serde(rename = "other <one>")]
    Other,
}
#[derive(Serialize)]
struct One<T> {
    v: T,
}
fn values(with: bool, over: bool, rec: &mut Rec) -> R {
    let mut n = 0;
    macro_rules! one {
        ($v:expr, $w:expr) => {{
            n += 1;
            rec.step();
            let mut wb = Workbook::new();
            let w = wb.add_worksheet();
            let o = if with { SerializeFieldOptions::new().set_custom_headers(&[CustomSerializeField::new("v").set_value_format(fmt("B"))]) } else { SerializeFieldOptions::new() };
            e(w.serialize_headers_with_options(2, 3, &One { v: $v }, &o))?;
            if over {
                e(w.write(3, 3, "old"))?;
            }
            e(w.serialize(&One { v: $v }))?;
            let mut want: BTreeMap<(u32, u16), (String, String)> = BTreeMap::from([((2, 3), ("str \"v\"".into(), "".into()))]);
            let t = if with { "B" } else { "" };
            let x: &str = &$w;
            if x == "empty" && !with {
                if over {
                    want.insert((3, 3), ("str \"old\"".into(), t.into()));
                }
            } else {
                want.insert((3, 3), (if x == "empty" { "blank".into() } else { x.to_string() }, t.into()));
            }
            diff(&want, &view(&pkg(&mut wb)?, 0)?).map_err(|m| format!("{} #{n}: {m}", stringify!($v)))?;
        }};
    }
    one!(true, "bool true");
    one!(false, "bool false");
    one!(i8::MIN, "num -128.0");
    one!(u8::MAX, "num 255.0");
    one!(i16::MIN, "num -32768.0");
    one!(u16::MAX, "num 65535.0");
    one!(i32::MIN, "num -2147483648.0");
    one!(u32::MAX, "num 4294967295.0");
    one!(-9_007_199_254_740_991_i64, "num -9007199254740991.0");
    one!(9_007_199_254_740_991_u64, "num 9007199254740991.0");
    one!(1.5f32, "num 1.5");
    one!(-1e-300f64, "num -1e-300");
    one!(0.0f64, "num 0.0");
    one!("text", "str \"text\"");
    one!(String::from(" <&> "), "str \" <&> \"");
    one!("=1+1", "str \"=1+1\"");
    one!('x', "str \"x\"");
    one!('\u{1F600}', "str \"\u{1F600}\"");
    one!("", "empty");
    one!(None::<f64>, "empty");
    one!(Some(2.5), "num 2.5");
    one!(Some(Some("in")), "str \"in\"");
    one!((), "empty");
    one!(Unit, "empty");
    one!(New(4.25), "num 4.25");
    one!(Kind::Red, "str \"Red\"");
    one!(Kind::Other, "str \"other <one>\"");
    one!(Kind::Num(6), "num 6.0");
    one!(Box::new(3u8), "num 3.0");
    one!(std::borrow::Cow::Borrowed("cow"), "str \"cow\"");
    rec.trace();
    Ok(())
}
fn run(run: &mut Run) {
    let all = ops();
    let k = all.len() as u64;
    let replay = |s: &[usize], rec: &mut Rec| -> R {
        rec.describe(|| format!("{:?}", s.iter().map(|j| all[*j].0).collect::<Vec<_>>()));
        let mut m = M::default();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        for j in s {
            let r = all[*j].1(w);
            all[*j].2(&mut m);
            if m.out {
                return Ok(());
            }
            e(r).map_err(|x| format!("{}: {x}", all[*j].0))?;
            rec.step();
            rec.state(&m);
            dims(w, &m)?;
        }
        m.table("Item");
        m.table("Label");
        if m.out {
            return Ok(());
        }
        rec.trace();
        read(&mut wb, &m)?;
        // Again, as nothing was added.
        read(&mut wb, &m).map_err(|x| format!("second save: {x}"))
    };
    run.explore("calls", seqs(k, run.pick(3, 4)), |i, rec| replay(&seq(i, k), rec));
    // Fewer calls, for longer sequences.
    let few: Vec<usize> = [0, 3, 5, 8, 9, 11, 13, 15].to_vec();
    let n = few.len() as u64;
    run.explore("longer sequences of calls", seqs(n, run.pick(5, 6)), |i, rec| replay(&seq(i, n).iter().map(|j| few[*j]).collect::<Vec<_>>(), rec));
    run.explore("kinds of values", 4, |i, rec| {
        rec.describe(|| format!("{} a format, over {} cell", if i & 1 == 1 { "with" } else { "without" }, if i & 2 == 2 { "a full" } else { "an empty" }));
        values(i & 1 == 1, i & 2 == 2, rec)
    });
    // Headers at the edges of the sheet: refused if a field doesn't fit, and then nothing is left.
    run.explore("edges", 6 * 4 * 2, |i, rec| {
        let col = 16_379 + (i % 6) as u16;
        let row = [0, 1, 1_048_575, 1_048_576][(i / 6 % 4) as usize];
        let hide = i / 24 == 1;
        rec.describe(|| format!("headers at {row}, {col}{}", if hide { ", hidden" } else { "" }));
        rec.step();
        rec.trace();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        let r = w.serialize_headers_with_options(row, col, &item(0), &SerializeFieldOptions::new().hide_headers(hide).set_custom_headers(&[CustomSerializeField::new("name").set_column_width(20)])).is_ok();
        let fits = col <= 16_381 && row < 1_048_576;
        eq("accepted", fits, r)?;
        let mut m = M::default();
        if fits {
            m.widths.insert(col, "20.7109375");
            m.heads("Item", row, col, !hide, plain(&FIELDS), None);
        }
        dims(w, &m)?;
        let first = row + u32::from(!hide);
        let r = w.serialize(&item(0)).is_ok();
        eq("value accepted", !fits || first < 1_048_576, r)?;
        if fits && first < 1_048_576 {
            m.item(0);
        }
        read(&mut wb, &m)
    });
    // Tables get their numbers in an order which doesn't hang on hash seeds.
    run.explore("order of tables", 64, |_, rec| {
        rec.describe(|| "two tables of structs".into());
        rec.step();
        rec.trace();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        e(w.deserialize_headers_with_options::<Label>(0, 4, &SerializeFieldOptions::new().set_table_default()))?;
        e(w.serialize_headers_with_options(0, 0, &item(0), &SerializeFieldOptions::new().set_table_default()))?;
        e(w.serialize(&(item(0), label(0))))?;
        let p = pkg(&mut wb)?;
        let first = p.x("xl/tables/table1.xml")?.a("ref").unwrap_or("").to_string();
        eq("first table", "A1:C2".to_string(), first)
    });
    // Saves in between change nothing of the final file.
    run.explore("saves in between", 4 * 8, |i, rec| {
        let (table, totals, saves) = (i & 1 == 1, i & 2 == 2, i >> 2);
        if totals && !table {
            return Ok(());
        }
        let at: Vec<u64> = (0..3).filter(|j| saves >> j & 1 == 1).map(|j| j + 1).collect();
        rec.describe(|| format!("{}, saved after items {at:?}", ["no table", "a table", "", "a table with totals"][(i & 3) as usize]));
        rec.trace();
        let make = |saves: u64| -> Result<String, String> {
            let mut wb = Workbook::new();
            let mut o = SerializeFieldOptions::new();
            if table {
                o = o.set_table(Table::new().set_total_row(totals));
            }
            e(wb.add_worksheet().serialize_headers_with_options(0, 0, &item(0), &o))?;
            for k in 0..4 {
                e(e(wb.worksheet_from_index(0))?.serialize(&item(k % 3)))?;
                if saves >> k & 1 == 1 {
                    save(&mut wb)?;
                }
            }
            let p = closed(&mut wb)?;
            let mut t: Vec<String> = p.rels("xl/worksheets/sheet1.xml").iter().map(|r| p.x(&opc::resolve("xl/worksheets/sheet1.xml", &r.target)).map(|t| t.canon())).collect::<Result<_, _>>()?;
            t.sort();
            Ok(format!("{:?} {t:?}", view(&p, 0)?))
        };
        let (a, b) = (make(0)?, make(saves)?);
        rec.step();
        if a != b {
            return Err("rows added after a save are not in the table".into());
        }
        Ok(())
    });
}
