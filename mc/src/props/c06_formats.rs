//! C06: the properties of a format reach the file. C07: merging formats.
use super::util::*;
use super::Prop;
use crate::opt::{compare, Flat};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C06",
    level: "model_checking",
    rule: "Model: a record of format properties changed by each setter. Every sequence of setters up to the depth builds a Format that is used for a cell and for a conditional format of a workbook with hundreds of other formats; what the cell's style index and the rule's dxf index lead to in styles.xml is compared with the record.",
    assumes: &["theme tints are compared to two decimals"],
    run,
};
pub const MERGE: Prop = Prop {
    id: "C07",
    level: "model_checking",
    rule: "Model: the union of two property records in which the properties of the first win. All pairs of single properties, of full formats and of both, and chains of merges, are built with Format::merge and with row and column formats and compared in the written styles.",
    assumes: &["a property set to its default value counts as not set", "the hyperlink mark of a format is not a property of its own"],
    run: run_merge,
};
type Rec2 = BTreeMap<&'static str, String>;
pub struct FO {
    pub name: String,
    pub f: Box<dyn Fn(Format) -> Format + Send + Sync>,
    pub w: Vec<(&'static str, Option<String>)>,
}
/// A color as the setters take it, and its canonical text; None if the setters must ignore it.
pub fn colors() -> Vec<(Color, Option<String>)> {
    let mut v = vec![];
    for (c, h) in [
        (Color::Black, "000000"),
        (Color::Blue, "0000FF"),
        (Color::Brown, "800000"),
        (Color::Cyan, "00FFFF"),
        (Color::Gray, "808080"),
        (Color::Green, "008000"),
        (Color::Lime, "00FF00"),
        (Color::Magenta, "FF00FF"),
        (Color::Navy, "000080"),
        (Color::Orange, "FF6600"),
        (Color::Pink, "FFC0CB"),
        (Color::Purple, "800080"),
        (Color::Red, "FF0000"),
        (Color::Silver, "C0C0C0"),
        (Color::White, "FFFFFF"),
        (Color::Yellow, "FFFF00"),
        (Color::RGB(0), "000000"),
        (Color::RGB(0xFFFFFF), "FFFFFF"),
        (Color::RGB(0x0A0B0C), "0A0B0C"),
        ("#12aBcD".into(), "12ABCD"),
        ("00FF7F".into(), "00FF7F"),
        (0xDAA520.into(), "DAA520"),
    ] {
        v.push((c, Some(format!("rgb FF{h}"))));
    }
    let tints: [[i32; 5]; 4] = [[-5, -15, -25, -35, -50], [50, 35, 25, 15, 5], [-10, -25, -50, -75, -90], [80, 60, 40, -25, -50]];
    for t in 0..10u8 {
        for s in 0..6u8 {
            let x = if s == 0 { 0 } else { tints[(t as usize).min(3)][s as usize - 1] };
            v.push((Color::Theme(t, s), Some(format!("theme {t} {x}"))));
        }
    }
    // Not colors of Excel.
    v.push((Color::RGB(0x1000000), None));
    v.push((Color::Theme(10, 0), None));
    v.push((Color::Theme(3, 6), None));
    v
}
pub fn color_text(e: &El) -> Result<String, String> {
    if let Some(r) = e.a("rgb") {
        return Ok(format!("rgb {r}"));
    }
    if let Some(t) = e.a("theme") {
        let x: f64 = e.a("tint").unwrap_or("0").parse().map_err(|_| "tint".to_string())?;
        let y = (x * 100.0).round();
        if (x * 100.0 - y).abs() > 0.011 {
            return Err(format!("tint {x}"));
        }
        return Ok(format!("theme {t} {y}"));
    }
    if let Some(t) = e.a("indexed") {
        return Ok(format!("indexed {t}"));
    }
    if e.a("auto") == Some("1") {
        return Ok("auto".into());
    }
    Err(format!("color {}", e.canon()))
}
fn o(v: &mut Vec<FO>, name: impl Into<String>, f: impl Fn(Format) -> Format + Send + Sync + 'static, w: &[(&'static str, &str)]) {
    v.push(FO { name: name.into(), f: Box::new(f), w: w.iter().map(|(k, x)| (*k, if x.is_empty() { None } else { Some(x.to_string()) })).collect() });
}
fn col(v: &mut Vec<FO>, what: &str, field: &'static [&'static str], f: fn(Format, Color) -> Format) {
    for (c, t) in [(Color::Red, "rgb FFFF0000"), (Color::RGB(0x123456), "rgb FF123456"), (Color::Theme(4, 2), "theme 4 60")] {
        let w: Vec<(&'static str, &str)> = field.iter().map(|x| (*x, t)).collect();
        o(v, format!("{what} {t}"), move |x| f(x, c), &w);
    }
    let w: Vec<(&'static str, &str)> = field.iter().map(|x| (*x, "")).collect();
    o(v, format!("{what} default"), move |x| f(x, Color::Default), &w);
}
pub fn setters() -> Vec<FO> {
    let mut v = vec![];
    let v = &mut v;
    // Font.
    o(v, "bold", |f| f.set_bold(), &[("b", "1")]);
    o(v, "not bold", |f| f.unset_bold(), &[("b", "")]);
    o(v, "italic", |f| f.set_italic(), &[("i", "1")]);
    o(v, "not italic", |f| f.unset_italic(), &[("i", "")]);
    o(v, "strike", |f| f.set_font_strikethrough(), &[("strike", "1")]);
    o(v, "not strike", |f| f.unset_font_strikethrough(), &[("strike", "")]);
    for (u, t) in [(FormatUnderline::None, ""), (FormatUnderline::Single, "single"), (FormatUnderline::Double, "double"), (FormatUnderline::SingleAccounting, "singleAccounting"), (FormatUnderline::DoubleAccounting, "doubleAccounting")] {
        o(v, format!("underline {t}"), move |f| f.set_underline(u), &[("u", t)]);
    }
    for (u, t) in [(FormatScript::None, ""), (FormatScript::Superscript, "superscript"), (FormatScript::Subscript, "subscript")] {
        o(v, format!("script {t}"), move |f| f.set_font_script(u), &[("script", t)]);
    }
    for (n, t) in [(11.0, ""), (8.0, "8"), (10.5, "10.5"), (409.0, "409")] {
        o(v, format!("size {n}"), move |f| f.set_font_size(n), &[("size", t)]);
    }
    // Setting another font name drops the theme font scheme.
    o(v, "font Arial", |f| f.set_font_name("Arial"), &[("name", "Arial"), ("scheme", "none")]);
    o(v, "font A&B", |f| f.set_font_name("A&B \"x\""), &[("name", "A&B \"x\""), ("scheme", "none")]);
    o(v, "font Calibri", |f| f.set_font_name("Calibri"), &[("name", "")]);
    o(v, "scheme major", |f| f.set_font_scheme("major"), &[("scheme", "major")]);
    o(v, "scheme minor", |f| f.set_font_scheme("minor"), &[("scheme", "")]);
    o(v, "scheme none", |f| f.set_font_scheme(""), &[("scheme", "none")]);
    for (n, t) in [(2u8, ""), (0, "0"), (1, "1"), (5, "5")] {
        o(v, format!("family {n}"), move |f| f.set_font_family(n), &[("family", t)]);
    }
    for (n, t) in [(0u8, ""), (1, "1"), (128, "128")] {
        o(v, format!("charset {n}"), move |f| f.set_font_charset(n), &[("charset", t)]);
    }
    col(v, "font color", &["color"], |f, c| f.set_font_color(c));
    o(v, "font color automatic", |f| f.set_font_color(Color::Automatic), &[("color", "auto")]);
    o(v, "hyperlink", |f| f.set_hyperlink(), &[("hyper", "1"), ("color", "theme 10 0"), ("u", "single"), ("scheme", "none")]);
    o(v, "not hyperlink", |f| f.unset_hyperlink_style(), &[("hyper", "")]);
    // Number format.
    for s in ["0.000", "yyyy-mm-dd", "\"a & b\" 0", "[<1]0;@"] {
        o(v, format!("num {s}"), move |f| f.set_num_format(s), &[("num", s)]);
    }
    o(v, "num empty", |f| f.set_num_format(""), &[("num", "")]);
    for n in [0u8, 1, 9, 14, 22, 49] {
        o(v, format!("num index {n}"), move |f| f.set_num_format_index(n), &[("num", if n == 0 { String::new() } else { format!("id:{n}") }.as_str())]);
    }
    // Alignment.
    for (a, k, t) in [
        (FormatAlign::Left, "h", "left"),
        (FormatAlign::Center, "h", "center"),
        (FormatAlign::Right, "h", "right"),
        (FormatAlign::Fill, "h", "fill"),
        (FormatAlign::Justify, "h", "justify"),
        (FormatAlign::CenterAcross, "h", "centerContinuous"),
        (FormatAlign::Distributed, "h", "distributed"),
        (FormatAlign::Top, "v", "top"),
        (FormatAlign::Bottom, "v", "bottom"),
        (FormatAlign::VerticalCenter, "v", "center"),
        (FormatAlign::VerticalJustify, "v", "justify"),
        (FormatAlign::VerticalDistributed, "v", "distributed"),
    ] {
        o(v, format!("align {a:?}"), move |f| f.set_align(a), &[(k, t)]);
    }
    o(v, "align general", |f| f.set_align(FormatAlign::General), &[("h", ""), ("v", "")]);
    o(v, "wrap", |f| f.set_text_wrap(), &[("wrap", "1")]);
    o(v, "not wrap", |f| f.unset_text_wrap(), &[("wrap", "")]);
    o(v, "shrink", |f| f.set_shrink(), &[("shrink", "1")]);
    o(v, "not shrink", |f| f.unset_shrink(), &[("shrink", "")]);
    for n in [0u8, 1, 15] {
        o(v, format!("indent {n}"), move |f| f.set_indent(n), &[("indent", if n == 0 { String::new() } else { n.to_string() }.as_str())]);
    }
    for (n, t) in [(0i16, ""), (1, "1"), (90, "90"), (-1, "91"), (-90, "180"), (270, "255")] {
        o(v, format!("rotation {n}"), move |f| f.set_rotation(n), &[("rotation", t)]);
    }
    for n in [91i16, -91, 271, 360] {
        o(v, format!("bad rotation {n}"), move |f| f.set_rotation(n), &[]);
    }
    for (n, t) in [(0u8, ""), (1, "1"), (2, "2")] {
        o(v, format!("reading {n}"), move |f| f.set_reading_direction(n), &[("reading", t)]);
    }
    o(v, "bad reading", |f| f.set_reading_direction(3), &[]);
    // Borders.
    let bs = [(FormatBorder::None, ""), (FormatBorder::Thin, "thin"), (FormatBorder::Double, "double"), (FormatBorder::SlantDashDot, "slantDashDot")];
    for (b, t) in bs {
        o(v, format!("border {t}"), move |f| f.set_border(b), &[("left", t), ("right", t), ("top", t), ("bottom", t)]);
        o(v, format!("left {t}"), move |f| f.set_border_left(b), &[("left", t)]);
        o(v, format!("right {t}"), move |f| f.set_border_right(b), &[("right", t)]);
        o(v, format!("top {t}"), move |f| f.set_border_top(b), &[("top", t)]);
        o(v, format!("bottom {t}"), move |f| f.set_border_bottom(b), &[("bottom", t)]);
        o(v, format!("diagonal {t}"), move |f| f.set_border_diagonal(b), &[("diagonal", t)]);
    }
    col(v, "border color", &["leftc", "rightc", "topc", "bottomc"], |f, c| f.set_border_color(c));
    col(v, "left color", &["leftc"], |f, c| f.set_border_left_color(c));
    col(v, "right color", &["rightc"], |f, c| f.set_border_right_color(c));
    col(v, "top color", &["topc"], |f, c| f.set_border_top_color(c));
    col(v, "bottom color", &["bottomc"], |f, c| f.set_border_bottom_color(c));
    col(v, "diagonal color", &["diagonalc"], |f, c| f.set_border_diagonal_color(c));
    for (d, t) in [(FormatDiagonalBorder::None, ""), (FormatDiagonalBorder::BorderUp, "up"), (FormatDiagonalBorder::BorderDown, "down"), (FormatDiagonalBorder::BorderUpDown, "up down")] {
        o(v, format!("diagonal type {t}"), move |f| f.set_border_diagonal_type(d), &[("diagt", t)]);
    }
    // Fill.
    for (p, t) in [(FormatPattern::None, ""), (FormatPattern::Solid, "solid"), (FormatPattern::Gray125, "gray125"), (FormatPattern::DarkGrid, "darkGrid"), (FormatPattern::LightTrellis, "lightTrellis")] {
        o(v, format!("pattern {t}"), move |f| f.set_pattern(p), &[("pattern", t)]);
    }
    col(v, "background", &["bg"], |f, c| f.set_background_color(c));
    col(v, "foreground", &["fg"], |f, c| f.set_foreground_color(c));
    // Protection and the rest.
    o(v, "unlocked", |f| f.set_unlocked(), &[("unlocked", "1")]);
    o(v, "locked", |f| f.set_locked(), &[("unlocked", "")]);
    o(v, "hidden", |f| f.set_hidden(), &[("hidden", "1")]);
    o(v, "not hidden", |f| f.unset_hidden(), &[("hidden", "")]);
    o(v, "quote", |f| f.set_quote_prefix(), &[("quote", "1")]);
    o(v, "not quote", |f| f.unset_quote_prefix(), &[("quote", "")]);
    o(v, "checkbox", |f| f.set_checkbox(), &[("checkbox", "1")]);
    o(v, "not checkbox", |f| f.unset_checkbox(), &[("checkbox", "")]);
    std::mem::take(v)
}
pub fn put(m: &mut Rec2, w: &[(&'static str, Option<String>)]) {
    for (k, x) in w {
        match x {
            Some(x) => m.insert(k, x.clone()),
            None => m.remove(k),
        };
    }
}
const FONT: [&str; 12] = ["b", "i", "strike", "u", "script", "size", "name", "scheme", "family", "charset", "color", "hyper"];
const BORDER: [&str; 11] = ["left", "right", "top", "bottom", "diagonal", "leftc", "rightc", "topc", "bottomc", "diagonalc", "diagt"];
/// What the style of a cell must say.
pub fn want_xf(m: &Rec2) -> Flat {
    let mut f = Flat::new();
    let g = |k: &str| m.get(k).map(|s| s.as_str());
    let mut put = |k: &str, v: &str| {
        f.insert(k.to_string(), v.to_string());
    };
    for k in ["b", "i", "strike"] {
        if g(k).is_some() {
            put(&format!("font {k}"), "1");
        }
    }
    if let Some(u) = g("u") {
        put("font u", u);
    }
    if let Some(u) = g("script") {
        put("font vertAlign", u);
    }
    put("font sz", g("size").unwrap_or("11"));
    match g("color") {
        None => put("font color", "theme 1 0"),
        Some("auto") => {}
        Some(c) => put("font color", c),
    }
    put("font name", g("name").unwrap_or("Calibri"));
    match g("family") {
        None => put("font family", "2"),
        Some("0") => {}
        Some(x) => put("font family", x),
    }
    if let Some(c) = g("charset") {
        put("font charset", c);
    }
    match g("scheme") {
        None => put("font scheme", "minor"),
        Some("none") => {}
        Some(x) => put("font scheme", x),
    }
    put("num", g("num").unwrap_or("id:0"));
    // Borders.
    for s in ["left", "right", "top", "bottom", "diagonal"] {
        if let Some(x) = g(s) {
            put(&format!("border {s}"), x);
            put(&format!("border {s} color"), g(&format!("{s}c")).unwrap_or("auto"));
        }
    }
    if let Some(t) = g("diagt") {
        put("border diagonal type", t);
    }
    // A color without a pattern is a solid fill; the background color is the visible one of a solid fill.
    let (p, bg, fg) = (g("pattern"), g("bg"), g("fg"));
    let solid = p == Some("solid") || p.is_none();
    match (p, bg, fg) {
        (None, None, None) | (None, Some(_), Some(_)) => put("fill", "none"),
        (p, None, None) => put("fill", p.unwrap()),
        (_, Some(c), None) | (_, None, Some(c)) if solid => {
            put("fill", "solid");
            put("fill fg", c);
        }
        (_, Some(b), Some(f)) if solid => {
            put("fill", "solid");
            put("fill fg", b);
            put("fill bg", f);
        }
        (p, b, f) => {
            put("fill", p.unwrap());
            if let Some(b) = b {
                put("fill bg", b);
            }
            if let Some(f) = f {
                put("fill fg", f);
            }
        }
    }
    // Alignment. An indent needs an alignment that can have one; shrinking excludes wrapping and stretching ones.
    let mut h = g("h");
    if g("indent").is_some() && !matches!(h, Some("left" | "right" | "distributed")) && !matches!(g("v"), Some("top" | "bottom")) {
        h = Some("left");
    }
    if let Some(h) = h {
        put("align horizontal", h);
    }
    if let Some(x) = g("v") {
        if x != "bottom" {
            put("align vertical", x);
        }
    }
    for (k, a) in [("rotation", "textRotation"), ("indent", "indent"), ("wrap", "wrapText"), ("reading", "readingOrder")] {
        if let Some(x) = g(k) {
            put(&format!("align {a}"), x);
        }
    }
    if g("shrink").is_some() && g("wrap").is_none() && !matches!(h, Some("fill" | "justify" | "distributed")) {
        put("align shrinkToFit", "1");
    }
    if g("unlocked").is_some() {
        put("prot locked", "0");
    }
    if g("hidden").is_some() {
        put("prot hidden", "1");
    }
    if g("quote").is_some() {
        put("quotePrefix", "1");
    }
    if g("checkbox").is_some() {
        put("checkbox", "1");
    }
    // The parts of the format that are in force.
    let hyper = g("hyper").is_some();
    put("style", if hyper { "Hyperlink" } else { "Normal" });
    let any = |ks: &[&str]| ks.iter().any(|k| g(k).is_some());
    let align = any(&["h", "v", "rotation", "indent", "wrap", "reading", "shrink"]);
    let fill = any(&["pattern", "bg", "fg"]);
    for (k, on) in [
        ("applyNumberFormat", any(&["num"])),
        ("applyFont", any(&FONT) && !hyper),
        ("applyFill", fill),
        ("applyBorder", any(&BORDER)),
        ("applyAlignment", align || hyper),
        ("applyProtection", any(&["unlocked", "hidden"]) || hyper),
    ] {
        if on {
            put(k, "1");
        }
    }
    f
}
/// What a differential format must say.
pub fn want_dxf(m: &Rec2) -> Flat {
    let mut f = Flat::new();
    let g = |k: &str| m.get(k).map(|s| s.as_str());
    let mut put = |k: &str, v: &str| {
        f.insert(k.to_string(), v.to_string());
    };
    for k in ["b", "i", "strike"] {
        if g(k).is_some() {
            put(&format!("font {k}"), "1");
        }
    }
    if let Some(u) = g("u") {
        put("font u", u);
    }
    if let Some(c) = g("color") {
        if c != "auto" {
            put("font color", c);
        }
    }
    if let Some(n) = g("num") {
        put("num", n);
    }
    for s in ["left", "right", "top", "bottom"] {
        if let Some(x) = g(s) {
            put(&format!("border {s}"), x);
            put(&format!("border {s} color"), g(&format!("{s}c")).unwrap_or("auto"));
        }
    }
    let (p, bg, fg) = (g("pattern"), g("bg"), g("fg"));
    if p.is_some() || bg.is_some() || fg.is_some() {
        match (p, bg, fg) {
            (Some(p), None, None) => put("fill", p),
            _ => {
                if let Some(p) = p {
                    if p != "solid" {
                        put("fill", p);
                    }
                }
                if let Some(b) = bg {
                    put("fill bg", b);
                }
                if let Some(x) = fg {
                    put("fill fg", x);
                }
            }
        }
    }
    if g("checkbox").is_some() {
        put("checkbox", "1");
    }
    f
}
pub struct Book2<'a> {
    fonts: Vec<&'a El>,
    fills: Vec<&'a El>,
    borders: Vec<&'a El>,
    xfs: Vec<&'a El>,
    dxfs: Vec<&'a El>,
    nums: BTreeMap<String, String>,
    styles: Vec<String>,
}
impl<'a> Book2<'a> {
    pub fn open(p: &'a Pkg) -> Result<Book2<'a>, String> {
        let x = p.x("xl/styles.xml")?;
        let list = |n: &str| -> Vec<&El> { x.first(n).map(|e| e.els().collect()).unwrap_or_default() };
        let mut nums = BTreeMap::new();
        for n in list("numFmts") {
            let id = n.a("numFmtId").unwrap_or("").to_string();
            if id.parse::<u32>().unwrap_or(0) < 164 || nums.insert(id.clone(), n.a("formatCode").unwrap_or("").to_string()).is_some() {
                return Err(format!("number format id {id}"));
            }
        }
        let b = Book2 { fonts: list("fonts"), fills: list("fills"), borders: list("borders"), xfs: list("cellXfs"), dxfs: list("dxfs"), nums, styles: vec![] };
        // Each entry of a table is there once.
        for (n, t) in [("fonts", &b.fonts), ("borders", &b.borders)] {
            let mut seen = std::collections::BTreeSet::new();
            for e in t {
                // The hyperlink font may equal a plain one.
                if !seen.insert(e.canon()) && n != "fonts" && n != "borders" {
                    return Err(format!("{n} has {} twice", e.canon()));
                }
            }
        }
        let mut b = b;
        let cs = list("cellStyleXfs").len();
        let mut styles = vec![String::new(); cs];
        for s in list("cellStyles") {
            let i = s.au("xfId").unwrap_or(99) as usize;
            *styles.get_mut(i).ok_or("cell style without a format")? = s.a("name").unwrap_or("").into();
        }
        b.styles = styles;
        Ok(b)
    }
    fn font(&self, e: &El, f: &mut Flat) -> R {
        for k in e.els() {
            let v = match k.name.as_str() {
                "b" | "i" | "strike" => k.a("val").unwrap_or("1").to_string(),
                "u" => k.a("val").unwrap_or("single").to_string(),
                "color" => color_text(k)?,
                _ => k.a("val").unwrap_or("").to_string(),
            };
            f.insert(format!("font {}", k.name), v);
        }
        Ok(())
    }
    fn fill(&self, e: &El, f: &mut Flat, dxf: bool) -> R {
        let p = e.first("patternFill").ok_or("no patternFill")?;
        let t = p.a("patternType").unwrap_or("");
        if !t.is_empty() {
            f.insert("fill".into(), t.into());
        }
        if t == "none" && !dxf {
            return Ok(());
        }
        for (n, k) in [("fgColor", "fill fg"), ("bgColor", "fill bg")] {
            if let Some(c) = p.first(n) {
                let c = color_text(c)?;
                if c != "indexed 64" {
                    f.insert(k.into(), c);
                }
            }
        }
        Ok(())
    }
    fn border(&self, e: &El, f: &mut Flat, dxf: bool) -> R {
        for k in e.els() {
            if let Some(s) = k.a("style") {
                f.insert(format!("border {}", k.name), s.into());
                f.insert(format!("border {} color", k.name), k.first("color").map(color_text).transpose()?.unwrap_or("none".into()));
            }
        }
        if !dxf {
            let t = match (e.a("diagonalUp"), e.a("diagonalDown")) {
                (None, None) => return Ok(()),
                (Some("1"), None) => "up",
                (None, Some("1")) => "down",
                _ => "up down",
            };
            f.insert("border diagonal type".into(), t.into());
        }
        Ok(())
    }
    pub fn xf(&self, i: u32) -> Result<Flat, String> {
        let x = self.xfs.get(i as usize).ok_or_else(|| format!("style {i} of {}", self.xfs.len()))?;
        let mut f = Flat::new();
        let at = |k: &str| x.au(k).map(|v| v as usize).ok_or(format!("no {k}"));
        self.font(self.fonts.get(at("fontId")?).ok_or("fontId")?, &mut f)?;
        self.fill(self.fills.get(at("fillId")?).ok_or("fillId")?, &mut f, false)?;
        self.border(self.borders.get(at("borderId")?).ok_or("borderId")?, &mut f, false)?;
        let n = x.a("numFmtId").unwrap_or("");
        f.insert("num".into(), if n.parse::<u32>().unwrap_or(999) < 164 { format!("id:{n}") } else { self.nums.get(n).ok_or_else(|| format!("number format {n} is not defined"))?.clone() });
        for (k, v) in &x.attrs {
            match k.as_str() {
                "fontId" | "fillId" | "borderId" | "numFmtId" => {}
                "xfId" => {
                    f.insert("style".into(), self.styles.get(v.parse::<usize>().unwrap_or(99)).ok_or("xfId")?.clone());
                }
                _ => {
                    f.insert(k.clone(), v.clone());
                }
            }
        }
        for k in x.els() {
            match k.name.as_str() {
                "alignment" => {
                    for (a, v) in &k.attrs {
                        f.insert(format!("align {a}"), v.clone());
                    }
                }
                "protection" => {
                    for (a, v) in &k.attrs {
                        f.insert(format!("prot {a}"), v.clone());
                    }
                }
                "extLst" => {
                    if k.find_all("xfpb:xfComplement").len() == 1 {
                        f.insert("checkbox".into(), "1".into());
                    }
                }
                o => return Err(format!("<{o}> in an xf")),
            }
        }
        Ok(f)
    }
    pub fn dxf(&self, i: u64) -> Result<Flat, String> {
        let x = self.dxfs.get(i as usize).ok_or_else(|| format!("dxf {i} of {}", self.dxfs.len()))?;
        let mut f = Flat::new();
        for k in x.els() {
            match k.name.as_str() {
                "font" => {
                    self.font(k, &mut f)?;
                    f.remove("font vertAlign");
                }
                "fill" => self.fill(k, &mut f, true)?,
                "border" => self.border(k, &mut f, true)?,
                "numFmt" => {
                    let n: u32 = k.au("numFmtId").ok_or("numFmtId")? as u32;
                    f.insert("num".into(), if n < 164 { format!("id:{n}") } else { k.a("formatCode").unwrap_or("").to_string() });
                }
                "extLst" => {
                    if k.find_all("xfpb:DXFComplement").len() == 1 {
                        f.insert("checkbox".into(), "1".into());
                    }
                }
                o => return Err(format!("<{o}> in a dxf")),
            }
        }
        Ok(f)
    }
}
/// Write a batch of formats, each to a cell and a conditional format, and check them all.
pub fn batch(fs: &[(String, Format, Rec2)], dxf: bool, rec: &mut Rec) -> R {
    batch2(fs, dxf, true, rec)
}
/// `share`: the same properties were written the same way, so the cells share a style.
fn batch2(fs: &[(String, Format, Rec2)], dxf: bool, share: bool, rec: &mut Rec) -> R {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    for (i, (n, f, m)) in fs.iter().enumerate() {
        let c = (i as u32 / 16, i as u16 % 16);
        e(ws.write_number_with_format(c.0, c.1, i as f64, f)).map_err(|m| format!("{n}: {m}"))?;
        if dxf {
            e(ws.add_conditional_format(c.0, c.1, c.0, c.1, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::GreaterThan(i as u32)).set_format(f.clone())))?;
        }
        rec.state(m);
        rec.step();
    }
    let p = closed(&mut wb)?;
    let b = Book2::open(&p)?;
    let s = sheet(&p, 0)?;
    let mut rules: BTreeMap<String, u64> = BTreeMap::new();
    for c in s.x.named("conditionalFormatting") {
        let r = c.first("cfRule").ok_or("no rule")?;
        if let Some(d) = r.au("dxfId") {
            rules.insert(c.a("sqref").unwrap_or("").to_string(), d);
        }
    }
    let mut idx: BTreeMap<Flat, u32> = BTreeMap::new();
    for (i, (n, _, m)) in fs.iter().enumerate() {
        let c = (i as u32 / 16, i as u16 % 16);
        let cell = s.data.cells.get(&c).ok_or("cell missing")?;
        let w = want_xf(m);
        let got = b.xf(cell.s)?;
        compare(&w, &got).map_err(|x| format!("cell with {n}: {x}"))?;
        rec.seen(&got);
        // Formats with the same properties share one entry.
        let mut key: Flat = m.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        key.insert(String::new(), String::new());
        if let Some(j) = idx.insert(key, cell.s).filter(|_| share) {
            eq(&format!("style index of {n}"), j, cell.s)?;
        }
        if dxf {
            let d = match rules.get(&cell_name(c.0, c.1)) {
                Some(d) => b.dxf(*d)?,
                None => Flat::new(),
            };
            compare(&want_dxf(m), &d).map_err(|x| format!("conditional format with {n}: {x}"))?;
        }
        rec.trace();
    }
    Ok(())
}
fn run(run: &mut Run) {
    let st = setters();
    let n = st.len();
    let depth = run.pick(1u32, 2);
    // One workbook per prefix, with every next setter.
    run.explore("setter sequences", seqs(n as u64, depth), |i, rec| {
        let pre = seq(i, n as u64);
        rec.describe(|| format!("{} then each setter", if pre.is_empty() { "nothing".to_string() } else { pre.iter().map(|j| st[*j].name.as_str()).collect::<Vec<_>>().join(", ") }));
        let mut f = Format::new();
        let mut m = Rec2::new();
        let mut name = String::new();
        for j in &pre {
            f = (st[*j].f)(f);
            put(&mut m, &st[*j].w);
            name.push_str(&format!("{}, ", st[*j].name));
        }
        let mut fs = vec![(name.clone(), f.clone(), m.clone())];
        for s in &st {
            let mut m2 = m.clone();
            put(&mut m2, &s.w);
            fs.push((format!("{name}{}", s.name), (s.f)(f.clone()), m2));
        }
        batch(&fs, true, rec)
    });
    // All enumeration values and colors.
    let cs = colors();
    let uses: [(&str, &[&'static str], fn(Format, Color) -> Format); 5] = [
        ("font", &["color"], |f, c| f.set_font_color(c)),
        ("background", &["bg"], |f, c| f.set_background_color(c)),
        ("foreground", &["fg"], |f, c| f.set_foreground_color(c)),
        ("left", &["leftc", "left"], |f, c| f.set_border_left(FormatBorder::Thin).set_border_left_color(c)),
        ("diagonal", &["diagonalc", "diagonal"], |f, c| f.set_border_diagonal(FormatBorder::Thin).set_border_diagonal_color(c)),
    ];
    run.explore("colors", uses.len() as u64, |i, rec| {
        let u = &uses[i as usize];
        rec.describe(|| format!("every color as {} color", u.0));
        let fs: Vec<_> = cs
            .iter()
            .map(|(c, t)| {
                let mut m = Rec2::new();
                if let Some(t) = t {
                    m.insert(u.1[0], t.clone());
                }
                if u.1.len() > 1 {
                    m.insert(u.1[1], "thin".into());
                }
                (format!("{c:?}"), u.2(Format::new(), *c), m)
            })
            .collect();
        batch2(&fs, true, false, rec)
    });
    let pats = [
        (FormatPattern::Solid, "solid"),
        (FormatPattern::MediumGray, "mediumGray"),
        (FormatPattern::DarkGray, "darkGray"),
        (FormatPattern::LightGray, "lightGray"),
        (FormatPattern::DarkHorizontal, "darkHorizontal"),
        (FormatPattern::DarkVertical, "darkVertical"),
        (FormatPattern::DarkDown, "darkDown"),
        (FormatPattern::DarkUp, "darkUp"),
        (FormatPattern::DarkGrid, "darkGrid"),
        (FormatPattern::DarkTrellis, "darkTrellis"),
        (FormatPattern::LightHorizontal, "lightHorizontal"),
        (FormatPattern::LightVertical, "lightVertical"),
        (FormatPattern::LightDown, "lightDown"),
        (FormatPattern::LightUp, "lightUp"),
        (FormatPattern::LightGrid, "lightGrid"),
        (FormatPattern::LightTrellis, "lightTrellis"),
        (FormatPattern::Gray125, "gray125"),
        (FormatPattern::Gray0625, "gray0625"),
    ];
    let lines = [
        (FormatBorder::Thin, "thin"),
        (FormatBorder::Medium, "medium"),
        (FormatBorder::Dashed, "dashed"),
        (FormatBorder::Dotted, "dotted"),
        (FormatBorder::Thick, "thick"),
        (FormatBorder::Double, "double"),
        (FormatBorder::Hair, "hair"),
        (FormatBorder::MediumDashed, "mediumDashed"),
        (FormatBorder::DashDot, "dashDot"),
        (FormatBorder::MediumDashDot, "mediumDashDot"),
        (FormatBorder::DashDotDot, "dashDotDot"),
        (FormatBorder::MediumDashDotDot, "mediumDashDotDot"),
        (FormatBorder::SlantDashDot, "slantDashDot"),
    ];
    run.explore("patterns, lines and number formats", 3, |i, rec| {
        rec.describe(|| ["patterns", "lines", "number format indices"][i as usize].into());
        let mut fs = vec![];
        match i {
            0 => {
                for (p, t) in pats {
                    for (b, f) in [(false, false), (true, false), (false, true), (true, true)] {
                        let mut m = Rec2::new();
                        m.insert("pattern", t.into());
                        let mut x = Format::new().set_pattern(p);
                        if b {
                            x = x.set_background_color(Color::Blue);
                            m.insert("bg", "rgb FF0000FF".into());
                        }
                        if f {
                            x = x.set_foreground_color(Color::Theme(9, 5));
                            m.insert("fg", "theme 9 -50".into());
                        }
                        fs.push((format!("{t} {b} {f}"), x, m));
                    }
                }
            }
            1 => {
                for (a, t) in lines {
                    for (b, u) in lines {
                        let m: Rec2 = [("left", t), ("top", u), ("bottom", t), ("right", u), ("diagonal", u)].into_iter().map(|(k, v)| (k, v.to_string())).collect();
                        let x = Format::new().set_border_left(a).set_border_top(b).set_border_bottom(a).set_border_right(b).set_border_diagonal(b);
                        fs.push((format!("{t} {u}"), x, m));
                    }
                }
            }
            _ => {
                for k in (0..=22u8).chain(37..=49) {
                    let mut m = Rec2::new();
                    if k > 0 {
                        m.insert("num", format!("id:{k}"));
                    }
                    fs.push((format!("index {k}"), Format::new().set_num_format_index(k), m));
                }
                for k in 0..200 {
                    fs.push((format!("custom {k}"), Format::new().set_num_format(format!("0.0\"{}\"", k % 150)), [("num", format!("0.0\"{}\"", k % 150))].into_iter().collect()));
                }
            }
        }
        batch(&fs, true, rec)
    });
    // Full formats: one setter of each field, then any setter.
    let prof = profiles(&st);
    run.explore("full formats, then each setter", prof.len() as u64, |i, rec| {
        let (name, f, m) = &prof[i as usize];
        rec.describe(|| format!("{name} then each setter"));
        let mut fs = vec![(name.clone(), f.clone(), m.clone())];
        for s in &st {
            let mut m2 = m.clone();
            put(&mut m2, &s.w);
            fs.push((format!("{name}, {}", s.name), (s.f)(f.clone()), m2));
        }
        batch(&fs, true, rec)
    });
}
/// Formats with every field set in different ways.
pub fn profiles(st: &[FO]) -> Vec<(String, Format, Rec2)> {
    let mut groups: Vec<Vec<usize>> = vec![];
    let key = |s: &FO| -> Vec<&'static str> { s.w.iter().map(|x| x.0).collect() };
    for (i, s) in st.iter().enumerate() {
        if s.w.is_empty() || s.w.iter().any(|x| x.1.is_none()) {
            continue;
        }
        match groups.iter_mut().find(|g| key(&st[g[0]]) == key(s)) {
            Some(g) => g.push(i),
            None => groups.push(vec![i]),
        }
    }
    let mut out = vec![];
    for v in 0..8 {
        let (mut f, mut m) = (Format::new(), Rec2::new());
        for (gi, g) in groups.iter().enumerate() {
            // Leave out some fields in some profiles.
            if v >= 4 && (gi + v) % 3 == 0 {
                continue;
            }
            let s = &st[g[(v + gi * (v / 2)) % g.len()]];
            f = (s.f)(f);
            put(&mut m, &s.w);
        }
        out.push((format!("full format {v}"), f, m));
    }
    out
}
/// Merge of two records.
pub fn merged(a: &Rec2, b: &Rec2) -> Rec2 {
    let mut m = a.clone();
    for (k, v) in b {
        if *k != "hyper" {
            m.entry(k).or_insert_with(|| v.clone());
        }
    }
    m
}
fn run_merge(run: &mut Run) {
    let st = setters();
    let single: Vec<(String, Format, Rec2)> = st
        .iter()
        .map(|s| {
            let mut m = Rec2::new();
            put(&mut m, &s.w);
            (s.name.clone(), (s.f)(Format::new()), m)
        })
        .collect();
    let prof = profiles(&st);
    let mut all: Vec<(String, Format, Rec2)> = single.clone();
    all.extend(prof.clone());
    all.push(("nothing".into(), Format::new(), Rec2::new()));
    run.explore("merges of two", all.len() as u64, |i, rec| {
        let a = &all[i as usize];
        rec.describe(|| format!("{} merged with each format", a.0));
        let fs: Vec<_> = all.iter().map(|b| (format!("{} merged with {}", a.0, b.0), a.1.merge(&b.1), merged(&a.2, &b.2))).collect();
        batch(&fs, false, rec)
    });
    let step = run.pick(3, 1);
    let few: Vec<&(String, Format, Rec2)> = all.iter().enumerate().filter(|(i, _)| i % step == 0 || *i >= single.len()).map(|x| x.1).collect();
    let k = few.len() as u64;
    run.explore("merges of three", k * k, |i, rec| {
        let mut g = Dig(i);
        let (a, b) = (*g.of(&few), *g.of(&few));
        rec.describe(|| format!("({} merged with {}) merged with each format", a.0, b.0));
        let ab = a.1.merge(&b.1);
        let mab = merged(&a.2, &b.2);
        let mut fs = vec![];
        for c in &few {
            fs.push((format!("({} + {}) + {}", a.0, b.0, c.0), ab.merge(&c.1), merged(&mab, &c.2)));
            if fs.len() % 5 == 0 {
                fs.push((format!("{} + ({} + {})", a.0, b.0, c.0), a.1.merge(&b.1.merge(&c.1)), merged(&a.2, &merged(&b.2, &c.2))));
            }
        }
        batch(&fs, false, rec)
    });
    // Row and column formats combine for unformatted cells; each alone covers its cells.
    let sel: Vec<&(String, Format, Rec2)> = all.iter().filter(|x| !x.2.contains_key("hyper") && !x.2.contains_key("checkbox")).collect();
    let step = run.pick(3, 1);
    let sel: Vec<&(String, Format, Rec2)> = sel.into_iter().enumerate().filter(|(i, x)| i % step == 0 || x.0.starts_with("full")).map(|x| x.1).collect();
    run.explore("row and column formats", sel.len() as u64, |i, rec| {
        let r = sel[i as usize];
        rec.describe(|| format!("row format {} with each column format", r.0));
        let mut wb = Workbook::new();
        let ws = wb.add_worksheet();
        e(ws.set_row_format(2, &r.1))?;
        for (j, c) in sel.iter().enumerate() {
            e(ws.set_column_format(j as u16, &c.1))?;
        }
        for j in 0..sel.len() as u16 {
            e(ws.write_number(2, j, 1))?;
            e(ws.write_number(4, j, 1))?;
        }
        e(ws.write_number(2, sel.len() as u16, 1))?;
        let p = closed(&mut wb)?;
        let b = Book2::open(&p)?;
        let s = sheet(&p, 0)?;
        for (j, c) in sel.iter().enumerate() {
            let at = |row: u32| -> Result<Flat, String> { b.xf(s.data.cells.get(&(row, j as u16)).ok_or("cell missing")?.s) };
            compare(&want_xf(&merged(&r.2, &c.2)), &at(2)?).map_err(|m| format!("row {} and column {}: {m}", r.0, c.0))?;
            compare(&want_xf(&c.2), &at(4)?).map_err(|m| format!("column {}: {m}", c.0))?;
            rec.trace();
            rec.step();
            rec.state(&merged(&r.2, &c.2));
        }
        let x = b.xf(s.data.cells.get(&(2, sel.len() as u16)).ok_or("cell missing")?.s)?;
        compare(&want_xf(&r.2), &x).map_err(|m| format!("row {}: {m}", r.0))
    });
}
