//! C31: hyperlinks lead to the target they were given.
use super::util::*;
use super::Prop;
use crate::book::{self, Text, V};
use crate::engine::{seq, seqs, Rec, Run};
use crate::opc::Pkg;
use rust_xlsxwriter::*;
use std::collections::BTreeMap;

type R = Result<(), String>;

pub const PROP: Prop = Prop {
    id: "C31",
    level: "model_checking",
    rule: "for every url, tip, text and history of writes the hyperlinks of each worksheet and drawing are exactly those in force, with the target, location, tip and shown text worked out by an independent reading of the documented rules",
    assumes: &["a url holding a %xx escape is passed on as it is, another has its special characters escaped, as documented"],
    run,
};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Link {
    /// Target of the relationship, if there is one, and whether it is external.
    target: Option<(String, bool)>,
    location: Option<String>,
    tip: Option<String>,
    display: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Parsed {
    link: Link,
    text: String,
    /// What a cell that no longer shows text displays.
    alt: String,
}
fn hexes(s: &str) -> bool {
    let b = s.as_bytes();
    (2..b.len()).any(|i| b[i - 2] == b'%' && b[i - 1].is_ascii_hexdigit() && b[i].is_ascii_hexdigit())
}
fn esc(s: &str) -> String {
    if hexes(s) {
        return s.to_string();
    }
    let mut o = String::new();
    for c in s.chars() {
        if "%\" <>[]^`{}".contains(c) {
            o += &format!("%{:02x}", c as u32);
        } else {
            o.push(c);
        }
    }
    o
}
fn cut(s: &str) -> (String, Option<String>) {
    match s.find('#') {
        Some(i) => (s[..i].to_string(), Some(s[i + 1..].to_string()).filter(|x| !x.is_empty())),
        None => (s.to_string(), None),
    }
}
/// The documented meaning of a url in a cell.
fn cell_link(u: &str) -> Option<Parsed> {
    let web = ["http://", "https://", "ftp://", "ftps://"].iter().any(|p| u.starts_with(p));
    let l = |target: String, location| Link { target: Some((target, true)), location, tip: None, display: None };
    if web {
        let (a, b) = cut(u);
        return Some(Parsed { link: l(esc(&a), b), text: u.into(), alt: esc(&a) });
    }
    if let Some(m) = u.strip_prefix("mailto:") {
        return Some(Parsed { link: l(esc(u), None), text: m.into(), alt: esc(u) });
    }
    if let Some(m) = u.strip_prefix("internal:") {
        return Some(Parsed { link: Link { target: None, location: Some(m.into()), tip: None, display: Some(m.into()) }, text: m.into(), alt: m.into() });
    }
    if u.starts_with("file://") {
        let path = path_of(u);
        let (a, b) = cut(if absolute(path) { u } else { path });
        return Some(Parsed { link: l(esc(&a), b), text: path.into(), alt: esc(&a) });
    }
    None
}
fn path_of(u: &str) -> &str {
    u.strip_prefix("file:///").or(u.strip_prefix("file://")).unwrap_or(u)
}
fn absolute(p: &str) -> bool {
    p.starts_with("\\\\") || p.find(':') == Some(1)
}
/// The documented meaning of a url of an image or a shape.
fn object_link(u: &str) -> Option<(String, bool)> {
    if let Some(m) = u.strip_prefix("internal:") {
        return Some((format!("#{m}"), false));
    }
    if u.starts_with("file://") {
        let p = path_of(u);
        let t = if absolute(p) { u.to_string() } else { p.replace('\\', "/") };
        return Some((esc(&t).replace('#', "%23"), true));
    }
    cell_link(u).map(|_| (esc(u), true))
}
type Links = BTreeMap<String, Link>;
fn links(p: &Pkg, n: usize) -> Result<Links, String> {
    let s = p.sheets()?;
    let rels = p.rels(&s[n].part);
    let mut m = Links::new();
    let mut used = 0;
    for h in p.sheet(n)?.find_all("hyperlink") {
        for (k, _) in &h.attrs {
            if !["ref", "r:id", "location", "tooltip", "display"].contains(&k.as_str()) {
                return Err(format!("attribute {k} of a hyperlink"));
            }
        }
        let get = |k: &str| h.a(k).map(str::to_string);
        let target = match h.a("r:id") {
            None => None,
            Some(id) => {
                let r = rels.iter().find(|r| r.id == id).ok_or_else(|| format!("no relationship {id}"))?;
                if r.typ != "hyperlink" {
                    return Err(format!("{id} is a {}", r.typ));
                }
                used += 1;
                Some((r.target.clone(), r.external))
            }
        };
        let l = Link { target, location: get("location"), tip: get("tooltip"), display: get("display") };
        if m.insert(get("ref").ok_or("hyperlink without ref")?, l).is_some() {
            return Err("two hyperlinks of a cell".into());
        }
    }
    eq("hyperlink relationships", used, rels.iter().filter(|r| r.typ == "hyperlink").count())?;
    Ok(m)
}
const SCHEMES: [&str; 14] = [
    "http://", "https://", "ftp://", "ftps://", "mailto:", "internal:", "file:///", "file://", "file:///C:\\", "file:///\\\\srv\\", "file:///..\\", "https://h/%E6",
    "http", "HTTP://",
];
const ALPHA: [char; 23] = ['a', 'F', '2', '%', '#', ' ', '"', '<', '>', '[', ']', '^', '`', '{', '}', '\\', '&', '/', ':', '\'', 'é', '!', '\u{1F600}'];

fn urls(i: u64, d: u32, rec: &mut Rec) -> R {
    let k = ALPHA.len() as u64;
    let scheme = SCHEMES[(i % SCHEMES.len() as u64) as usize];
    let head: String = seq(i / SCHEMES.len() as u64, k).iter().map(|c| ALPHA[*c]).collect();
    let _ = d;
    rec.describe(|| format!("{scheme}{head}?"));
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let mut want = Links::new();
    let mut texts = BTreeMap::new();
    let mut objects = vec![];
    for (c, last) in ALPHA.iter().enumerate() {
        let u = format!("{scheme}{head}{last}");
        // A file without a name is no link.
        if u.starts_with("file://") && (path_of(&u).is_empty() || path_of(&u).starts_with('#')) {
            continue;
        }
        rec.step();
        rec.state(&u);
        let got = ws.write_url(2, c as u16, u.as_str()).map(|_| ());
        match (cell_link(&u), got) {
            (None, Err(XlsxError::UnknownUrlType(_))) => {}
            (None, x) => return Err(format!("{u:?} was not refused: {:?}", x.err())),
            (Some(_), Err(x)) => return Err(format!("{u:?} was refused: {x}")),
            (Some(l), Ok(())) => {
                want.insert(row_col_to_cell(2, c as u16), l.link);
                texts.insert((2u32, c as u16), l.text);
            }
        }
        // Nothing is said of a place inside a file an object leads to.
        if u.starts_with("file://") && u.contains('#') {
            continue;
        }
        let shape = Shape::textbox().set_url(u.as_str());
        match (object_link(&u), shape) {
            (None, Err(XlsxError::UnknownUrlType(_))) => {}
            (None, x) => return Err(format!("{u:?} of a shape was not refused: {:?}", x.err())),
            (Some(_), Err(x)) => return Err(format!("{u:?} of a shape was refused: {x}")),
            (Some(l), Ok(s)) => {
                e(ws.insert_shape(5, c as u16, &s))?;
                objects.push(l);
            }
        }
    }
    rec.trace();
    let p = closed(&mut wb)?;
    diff(&want, &links(&p, 0)?)?;
    check_texts(&p, 0, &texts)?;
    check_objects(&p, 0, &objects.into_iter().map(|o| (o, None)).collect::<Vec<_>>())
}
fn check_texts(p: &Pkg, n: usize, want: &BTreeMap<(u32, u16), String>) -> R {
    let s = sheet(p, n)?;
    let mut got = BTreeMap::new();
    for (k, c) in &s.data.cells {
        match &c.v {
            V::Str(Text::Plain(t)) => got.insert(*k, t.clone()),
            x => return Err(format!("cell {k:?} holds {x:?}")),
        };
    }
    diff(want, &got)
}
/// Hyperlinks of the objects of a drawing, in order.
fn check_objects(p: &Pkg, n: usize, want: &[((String, bool), Option<&str>)]) -> R {
    let s = p.sheets()?;
    let parts = p.follow_type(&s[n].part, "drawing");
    if want.is_empty() && parts.is_empty() {
        return Ok(());
    }
    let d = parts.first().ok_or("no drawing")?;
    let rels = p.rels(d);
    let mut got = vec![];
    for h in p.x(d)?.find_all("a:hlinkClick") {
        let id = h.a("r:id").ok_or("no r:id")?;
        let r = rels.iter().find(|r| r.id == id).ok_or_else(|| format!("no relationship {id}"))?;
        if r.typ != "hyperlink" {
            return Err(format!("{id} is a {}", r.typ));
        }
        got.push(((r.target.clone(), r.external), h.a("tooltip").map(str::to_string)));
    }
    let want: Vec<_> = want.iter().map(|(a, b)| (a.clone(), b.map(str::to_string))).collect();
    eq("object hyperlinks", want, got)
}

// Histories of one or two cells on two worksheets.
#[derive(Clone, Copy, Debug)]
enum Op {
    Url(usize),
    Text(usize),
    Format(usize),
    Options(usize),
    Generic(usize),
    Str,
    Num,
    Formula,
    Blank,
    TooLong,
    BadText,
    Save,
}
const URLS: [&str; 4] = ["https://example.com/a b?c=1&d#Top", "internal:'Sheet 2'!A1", "file:///..\\Book 1.xlsx#Sheet1!A1", "mailto:a@b.c"];
fn ops() -> Vec<(Op, usize, u32, u16)> {
    let mut v = vec![];
    for (s, r, c) in [(0, 0, 0), (0, 0, 1), (1, 1, 0)] {
        for u in 0..4 {
            v.push((Op::Url(u), s, r, c));
        }
        for o in [Op::Text(0), Op::Text(1), Op::Format(2), Op::Options(0), Op::Options(1), Op::Generic(3), Op::Str, Op::Num, Op::Formula, Op::Blank, Op::TooLong, Op::BadText] {
            v.push((o, s, r, c));
        }
    }
    v.push((Op::Save, 0, 0, 0));
    v
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
enum Cell {
    Text(String, &'static str),
    Num,
    Formula,
    Blank,
}
#[derive(Default, Clone, Hash)]
struct Model {
    cells: [BTreeMap<(u32, u16), Cell>; 2],
    links: [BTreeMap<(u32, u16), (Link, String)>; 2],
}
fn history(i: u64, o: &[(Op, usize, u32, u16)], rec: &mut Rec) -> R {
    let s = seq(i, o.len() as u64);
    rec.describe(|| format!("{:?}", s.iter().map(|k| o[*k]).collect::<Vec<_>>()));
    let mut wb = Workbook::new();
    wb.add_worksheet();
    e(wb.add_worksheet().set_name("Sheet 2"))?;
    let bold = Format::new().set_bold();
    let mut m = Model::default();
    for k in s {
        let (op, n, r, c) = o[k];
        rec.step();
        if let Op::Save = op {
            compare(&mut wb, &m)?;
            continue;
        }
        let ws = e(wb.worksheet_from_index(n))?;
        let mut set = |u: usize, text: Option<&str>, tip: Option<&str>, style: &'static str| {
            let mut p = cell_link(URLS[u]).unwrap();
            p.link.tip = tip.map(str::to_string);
            let text = text.map_or(p.text, str::to_string);
            if p.link.target.is_none() {
                p.link.display = Some(text.clone());
            }
            m.cells[n].insert((r, c), Cell::Text(text, style));
            m.links[n].insert((r, c), (p.link, p.alt));
        };
        match op {
            Op::Url(u) => {
                e(ws.write_url(r, c, URLS[u]))?;
                set(u, None, None, "link");
            }
            Op::Text(u) => {
                e(ws.write_url_with_text(r, c, URLS[u], "Text"))?;
                set(u, Some("Text"), None, "link");
            }
            Op::Format(u) => {
                e(ws.write_url_with_format(r, c, URLS[u], &bold))?;
                set(u, None, None, "bold");
            }
            Op::Options(u) => {
                e(ws.write_url_with_options(r, c, URLS[u], "Shown", "A <tip>", if u == 0 { Some(&bold) } else { None }))?;
                set(u, Some("Shown"), Some("A <tip>"), if u == 0 { "bold" } else { "link" });
            }
            Op::Generic(u) => {
                e(ws.write(r, c, Url::new(URLS[u]).set_text("Mail").set_tip("Tip")))?;
                set(u, Some("Mail"), Some("Tip"), "link");
            }
            Op::Str => {
                e(ws.write_string(r, c, "other"))?;
                m.cells[n].insert((r, c), Cell::Text("other".into(), ""));
            }
            Op::Num => {
                e(ws.write_number(r, c, 7))?;
                m.cells[n].insert((r, c), Cell::Num);
            }
            Op::Formula => {
                e(ws.write_formula(r, c, "1+1"))?;
                m.cells[n].insert((r, c), Cell::Formula);
            }
            Op::Blank => {
                e(ws.write_blank(r, c, &bold))?;
                m.cells[n].insert((r, c), Cell::Blank);
            }
            Op::TooLong => match ws.write_url(r, c, format!("https://h/{}", "x".repeat(2071)).as_str()) {
                Err(XlsxError::MaxUrlLengthExceeded) => {}
                x => return Err(format!("long url gave {:?}", x.map(|_| ()))),
            },
            Op::BadText => match ws.write_url_with_text(r, c, "https://h/", "x".repeat(32768)) {
                Err(XlsxError::MaxStringLengthExceeded) => {}
                x => return Err(format!("long text gave {:?}", x.map(|_| ()))),
            },
            Op::Save => unreachable!(),
        }
        rec.state(&m);
    }
    rec.trace();
    compare(&mut wb, &m)
}
fn compare(wb: &mut Workbook, m: &Model) -> R {
    let p = closed(wb)?;
    let st = book::styles(&p)?;
    for n in 0..2 {
        let want: Links = m.links[n]
            .iter()
            .map(|(k, (l, alt))| {
                let mut l = l.clone();
                if l.target.is_some() && !matches!(m.cells[n].get(k), Some(Cell::Text(..))) {
                    l.display = Some(alt.clone());
                }
                (row_col_to_cell(k.0, k.1), l)
            })
            .collect();
        diff(&want, &links(&p, n)?).map_err(|x| format!("worksheet {n}: {x}"))?;
        let s = sheet(&p, n)?;
        eq("cells", m.cells[n].len(), s.data.cells.len())?;
        for (k, c) in &s.data.cells {
            let got = match &c.v {
                V::Str(Text::Plain(t)) => {
                    let f = &xf(&st, c.s)?.font;
                    Cell::Text(t.clone(), if f.contains("<b>") { "bold" } else if f.contains("theme=\"10\"") && f.contains("<u") { "link" } else { "" })
                }
                V::Num(_) => Cell::Num,
                V::Blank => Cell::Blank,
                _ => Cell::Formula,
            };
            eq(&format!("cell {k:?}"), m.cells[n].get(k), Some(&got))?;
        }
    }
    Ok(())
}
/// Limits of the parts of a link.
fn limits(i: u64, rec: &mut Rec) -> R {
    let (kind, n, ch) = (i % 5, (i / 5 % 3) as i64 - 1, if i / 15 % 2 == 0 { "x" } else { "é" });
    let object = i / 30 == 1;
    rec.describe(|| format!("part {kind} {n:+} over its limit with {ch:?}, object {object}"));
    rec.trace();
    let fill = |head: &str, limit: i64| format!("{head}{}", ch.repeat((limit + n) as usize - head.chars().count()));
    let (u, tip) = match kind {
        0 => (fill("https://h/", 2080), String::new()),
        1 => (format!("https://h/#{}", fill("", 2080)), String::new()),
        2 => (format!("internal:{}", fill("Sheet1!A1", if object { 2080 - 9 } else { 2080 - 9 })), String::new()),
        3 => (format!("file:///{}", fill("b.xlsx", 2080)), String::new()),
        _ => ("https://h/".to_string(), fill("", 255)),
    };
    rec.state(&(&u, &tip));
    let url = Url::new(&u).set_tip(&tip);
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    let r = if object { Shape::textbox().set_url(url).and_then(|s| ws.insert_shape(0, 0, &s).map(|_| ())) } else { ws.write(0, 0, url).map(|_| ()) };
    let ok = match r {
        Ok(()) => true,
        Err(XlsxError::MaxUrlLengthExceeded) if kind < 4 => false,
        Err(XlsxError::ParameterError(_)) if kind == 4 => false,
        Err(x) => return Err(format!("error {x}")),
    };
    eq("accepted", n <= 0, ok)?;
    let p = closed(&mut wb)?;
    if !ok {
        eq("hyperlinks", 0, links(&p, 0)?.len())?;
        eq("cells", 0, sheet(&p, 0)?.data.cells.len())?;
        return check_objects(&p, 0, &[]);
    }
    let t = Some(tip).filter(|t| !t.is_empty());
    if object {
        return check_objects(&p, 0, &[(object_link(&u).unwrap(), t.as_deref())]);
    }
    let mut l = cell_link(&u).unwrap();
    l.link.tip = t;
    diff(&[("A1".to_string(), l.link)].into(), &links(&p, 0)?)?;
    check_texts(&p, 0, &[((0, 0), l.text)].into())
}
/// Pairs of objects, sharing a target or not.
fn objects(i: u64, rec: &mut Rec) -> R {
    let png = |k: u32| Image::new_from_buffer(&crate::feat::png(8, 8, k, None)).map_err(|x| x.to_string());
    let k = 2 * 5 * 2;
    let (a, b, same) = (i % k, i / k % k, i / k / k == 0);
    rec.describe(|| format!("objects {a} and {b}, {} worksheet", if same { "one" } else { "two" }));
    rec.state(&i);
    rec.trace();
    let mut wb = Workbook::new();
    let mut want = [vec![], vec![]];
    for (j, x) in [a, b].into_iter().enumerate() {
        rec.step();
        if j == 0 || !same {
            wb.add_worksheet();
        }
        let n = if same { 0 } else { j };
        let ws = e(wb.worksheet_from_index(n))?;
        let (shape, u, tip) = (x % 2 == 1, (x / 2 % 5) as usize, x / 10 == 1);
        let to = [URLS[0], URLS[1], "file:///..\\Book 1.xlsx", URLS[3]];
        let url = if u < 4 { Some(if tip { Url::new(to[u]).set_tip("Tip & more") } else { Url::new(to[u]) }) } else { None };
        let row = 2 * j as u32;
        if shape {
            let mut s = Shape::textbox();
            if let Some(url) = url.clone() {
                s = e(s.set_url(url))?;
            }
            e(ws.insert_shape(row, 0, &s))?;
        } else {
            let mut g = png(u as u32)?;
            if let Some(url) = url.clone() {
                g = e(g.set_url(url))?;
            }
            e(ws.insert_image(row, 0, &g))?;
        }
        if url.is_some() {
            want[n].push((shape, (object_link(to[u]).unwrap(), if tip { Some("Tip & more") } else { None })));
        }
    }
    let p = closed(&mut wb)?;
    for n in 0..if same { 1 } else { 2 } {
        // Images come before shapes.
        want[n].sort_by_key(|x| x.0);
        check_objects(&p, n, &want[n].iter().map(|x| x.1.clone()).collect::<Vec<_>>()).map_err(|x| format!("worksheet {n}: {x}"))?;
        eq("cell hyperlinks", 0, links(&p, n)?.len())?;
    }
    Ok(())
}
fn run(run: &mut Run) {
    let d = run.pick(2, 3);
    run.explore("urls", seqs(ALPHA.len() as u64, d) * SCHEMES.len() as u64, |i, rec| urls(i, d, rec));
    let o = ops();
    run.explore("histories", seqs(o.len() as u64, run.pick(2, 3)), |i, rec| history(i, &o, rec));
    run.explore("limits", 60, limits);
    run.explore("objects", 20 * 20 * 2, objects);
}
