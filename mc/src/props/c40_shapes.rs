//! C40: shapes (text boxes) are written as configured.
use super::util::*;
use super::Prop;
use crate::opt::{flat, Flat};
use std::sync::OnceLock;

pub const PROP: Prop = Prop {
    id: "C40",
    level: "model_checking",
    rule: "Model: the values in force for the text, link, font, text options, fill, line, hyperlink and alternative text of a shape, from which the expected element of the drawing is composed. All sequences of settings up to the depth, all pairs of settings of two shapes on the same or two worksheets, all patterns, dashes, theme colours and gradients in all contexts, and all texts of lines up to a length are given to the real code and every element, attribute and text of the written shapes is compared.",
    assumes: &["a shape is given one fill", "places and sizes are those of C19"],
    run,
};
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum C {
    Default,
    Rgb(&'static str),
    Theme(u8, u8),
}
impl C {
    fn real(self) -> Color {
        match self {
            C::Default => Color::Default,
            C::Rgb(s) => Color::RGB(u32::from_str_radix(s, 16).unwrap()),
            C::Theme(a, b) => Color::Theme(a, b),
        }
    }
    fn xml(self, transparency: u8) -> String {
        let alpha = if transparency > 0 { format!("<a:alpha val=\"{}\"/>", (100 - u32::from(transparency)) * 1000) } else { String::new() };
        match self {
            C::Default => unreachable!(),
            C::Rgb(s) => format!("<a:srgbClr val=\"{s}\">{alpha}</a:srgbClr>"),
            C::Theme(t, s) => {
                let name = ["bg1", "tx1", "bg2", "tx2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6"][t as usize];
                // The luminance of the six shades of the palette.
                let l: [(u32, u32); 6] = match t {
                    0 => [(0, 0), (95, 0), (85, 0), (75, 0), (65, 0), (50, 0)],
                    1 => [(0, 0), (50, 50), (65, 35), (75, 25), (85, 15), (95, 5)],
                    2 => [(0, 0), (90, 0), (75, 0), (50, 0), (25, 0), (10, 0)],
                    _ => [(0, 0), (20, 80), (40, 60), (60, 40), (75, 0), (50, 0)],
                };
                let (m, o) = l[s as usize];
                let m = if m > 0 { format!("<a:lumMod val=\"{m}000\"/>") } else { String::new() };
                let o = if o > 0 { format!("<a:lumOff val=\"{o}000\"/>") } else { String::new() };
                format!("<a:schemeClr val=\"{name}\">{m}{o}{alpha}</a:schemeClr>")
            }
        }
    }
}
const PATTERNS: [(ShapePatternFillType, &str); 48] = {
    use ShapePatternFillType::*;
    [
        (Dotted5Percent, "pct5"), (Dotted10Percent, "pct10"), (Dotted20Percent, "pct20"), (Dotted25Percent, "pct25"), (Dotted30Percent, "pct30"), (Dotted40Percent, "pct40"), (Dotted50Percent, "pct50"),
        (Dotted60Percent, "pct60"), (Dotted70Percent, "pct70"), (Dotted75Percent, "pct75"), (Dotted80Percent, "pct80"), (Dotted90Percent, "pct90"), (DiagonalStripesLightDownwards, "ltDnDiag"),
        (DiagonalStripesLightUpwards, "ltUpDiag"), (DiagonalStripesDarkDownwards, "dkDnDiag"), (DiagonalStripesDarkUpwards, "dkUpDiag"), (DiagonalStripesWideDownwards, "wdDnDiag"),
        (DiagonalStripesWideUpwards, "wdUpDiag"), (VerticalStripesLight, "ltVert"), (HorizontalStripesLight, "ltHorz"), (VerticalStripesNarrow, "narVert"), (HorizontalStripesNarrow, "narHorz"),
        (VerticalStripesDark, "dkVert"), (HorizontalStripesDark, "dkHorz"), (StripesBackslashes, "dashDnDiag"), (StripesForwardSlashes, "dashUpDiag"), (HorizontalStripesAlternating, "dashHorz"),
        (VerticalStripesAlternating, "dashVert"), (SmallConfetti, "smConfetti"), (LargeConfetti, "lgConfetti"), (Zigzag, "zigZag"), (Wave, "wave"), (DiagonalBrick, "diagBrick"), (HorizontalBrick, "horzBrick"),
        (Weave, "weave"), (Plaid, "plaid"), (Divot, "divot"), (DottedGrid, "dotGrid"), (DottedDiamond, "dotDmnd"), (Shingle, "shingle"), (Trellis, "trellis"), (Sphere, "sphere"), (SmallGrid, "smGrid"),
        (LargeGrid, "lgGrid"), (SmallCheckerboard, "smCheck"), (LargeCheckerboard, "lgCheck"), (OutlinedDiamondGrid, "openDmnd"), (SolidDiamondGrid, "solidDmnd"),
    ]
};
const DASHES: [(ShapeLineDashType, &str); 8] = {
    use ShapeLineDashType::*;
    [(Solid, ""), (RoundDot, "sysDot"), (SquareDot, "sysDash"), (Dash, "dash"), (DashDot, "dashDot"), (LongDash, "lgDash"), (LongDashDot, "lgDashDot"), (LongDashDotDot, "lgDashDotDot")]
};
/// The real objects, built by the settings, and the model.
#[derive(Clone)]
struct T {
    shape: Shape,
    font: ShapeFont,
    text: ShapeText,
    line: ShapeLine,
    solid: ShapeSolidFill,
    pattern: ShapePatternFill,
    gradient: ShapeGradientFill,
    m: M,
}
#[derive(Clone, Hash, Debug)]
struct M {
    text: String,
    link: Option<&'static str>,
    alt: Option<&'static str>,
    url: Option<(&'static str, Option<&'static str>)>,
    bold: bool,
    italic: bool,
    underline: bool,
    strike: bool,
    size: u32,
    name: Option<&'static str>,
    pitch: u8,
    charset: u8,
    color: C,
    rtl: Option<bool>,
    align: Option<&'static str>,
    anchor: (&'static str, Option<u8>),
    vert: Option<&'static str>,
    /// 0 default, 1 none, 2 solid, 3 pattern, 4 gradient
    fill: u8,
    solid: (C, u8),
    patt: (&'static str, C, C),
    grad: (u8, Vec<(C, u8)>, u32),
    /// 0 default, 1 none, 2 set
    line: u8,
    ln: (C, u32, u8, &'static str, bool),
}
impl T {
    fn new() -> T {
        T {
            shape: Shape::textbox(),
            font: ShapeFont::new(),
            text: ShapeText::new(),
            line: ShapeLine::new(),
            solid: ShapeSolidFill::new(),
            pattern: ShapePatternFill::new(),
            gradient: ShapeGradientFill::new(),
            m: M {
                text: String::new(), link: None, alt: None, url: None, bold: false, italic: false, underline: false, strike: false, size: 1100, name: None, pitch: 0, charset: 0, color: C::Default, rtl: None,
                align: None, anchor: ("t", None), vert: None, fill: 0, solid: (C::Default, 0), patt: ("pct5", C::Default, C::Default), grad: (0, vec![], 90), line: 0, ln: (C::Default, 3, 0, "", false),
            },
        }
    }
    fn build(&self) -> Shape {
        let mut f = ShapeFormat::new();
        match self.m.fill {
            1 => f = f.set_no_fill(),
            2 => f = f.set_solid_fill(&self.solid),
            3 => f = f.set_pattern_fill(&self.pattern),
            4 => f = f.set_gradient_fill(&self.gradient),
            _ => {}
        }
        match self.m.line {
            1 => f = f.set_no_line(),
            2 => f = f.set_line(&self.line),
            _ => {}
        }
        self.shape.clone().set_font(&self.font).set_text_options(&self.text).set_format(&f)
    }
}
fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}
impl M {
    fn font(&self, tag: &str) -> String {
        let mut a = format!("<a:{tag} lang=\"en-US\"");
        if self.size > 0 {
            a += &format!(" sz=\"{}\"", self.size);
        }
        for (on, s) in [(self.bold, " b=\"1\""), (self.italic, " i=\"1\""), (self.underline, " u=\"sng\""), (self.strike, " strike=\"sngStrike\"")] {
            if on {
                a += s;
            }
        }
        a += ">";
        if self.color != C::Default {
            a += &format!("<a:solidFill>{}</a:solidFill>", self.color.xml(0));
        }
        if self.name.is_some() || self.pitch > 0 || self.charset > 0 {
            let mut l = String::new();
            if let Some(n) = self.name {
                l += &format!(" typeface=\"{}\"", esc(n));
            }
            if self.pitch > 0 {
                l += &format!(" pitchFamily=\"{}\"", self.pitch);
            }
            if self.pitch > 0 || self.charset > 0 {
                l += &format!(" charset=\"{}\"", self.charset);
            }
            a += &format!("<a:latin{l}/><a:cs{l}/>");
        }
        a + &format!("</a:{tag}>")
    }
    fn fill_xml(&self) -> String {
        match self.fill {
            0 => "<a:solidFill><a:schemeClr val=\"lt1\"/></a:solidFill>".into(),
            1 => "<a:noFill/>".into(),
            2 => format!("<a:solidFill>{}</a:solidFill>", self.solid.0.xml(self.solid.1)),
            3 => {
                let (p, fg, bg) = &self.patt;
                let mut s = format!("<a:pattFill prst=\"{p}\">");
                if *fg != C::Default {
                    s += &format!("<a:fgClr>{}</a:fgClr>", fg.xml(0));
                }
                // A foreground needs a background, which is white.
                if *bg != C::Default || *fg != C::Default {
                    s += &format!("<a:bgClr>{}</a:bgClr>", if *bg == C::Default { C::Rgb("FFFFFF") } else { *bg }.xml(0));
                }
                s + "</a:pattFill>"
            }
            _ => {
                let (k, stops, angle) = &self.grad;
                let stops: String = stops.iter().map(|(c, p)| format!("<a:gs pos=\"{}\">{}</a:gs>", u32::from(*p) * 1000, c.xml(0))).collect();
                let path = |p: &str, rect: &str, tile: &str| format!("<a:path path=\"{p}\"><a:fillToRect {rect}/></a:path><a:tileRect {tile}/>");
                let (corner, middle) = ("l=\"100000\" t=\"100000\"", "l=\"50000\" t=\"50000\" r=\"50000\" b=\"50000\"");
                let end = match k {
                    0 => format!("<a:lin ang=\"{}\" scaled=\"0\"/>", angle * 60000),
                    1 => path("circle", corner, "r=\"-100000\" b=\"-100000\""),
                    2 => path("rect", corner, "r=\"-100000\" b=\"-100000\""),
                    _ => path("shape", middle, ""),
                };
                format!("<a:gradFill{}><a:gsLst>{stops}</a:gsLst>{end}</a:gradFill>", if *k > 0 { " flip=\"none\" rotWithShape=\"1\"" } else { "" })
            }
        }
    }
    fn line_xml(&self) -> String {
        const SHADE: &str = "<a:solidFill><a:schemeClr val=\"lt1\"><a:shade val=\"50000\"/></a:schemeClr></a:solidFill>";
        let (c, w, t, dash, hidden) = &self.ln;
        let (w, inner) = match self.line {
            0 => (3, SHADE.to_string()),
            1 => (3, "<a:noFill/>".to_string()),
            _ if *hidden => (*w, "<a:noFill/>".to_string()),
            _ => {
                let s = if *c == C::Default { SHADE.to_string() } else { format!("<a:solidFill>{}</a:solidFill>", c.xml(*t)) };
                (*w, if dash.is_empty() { s } else { format!("{s}<a:prstDash val=\"{dash}\"/>") })
            }
        };
        // In quarters of a point.
        format!("<a:ln w=\"{}\" cmpd=\"sng\">{inner}</a:ln>", w * 3175)
    }
    fn xml(&self, index: usize, target: Option<&str>) -> String {
        let descr = self.alt.map_or(String::new(), |a| format!(" descr=\"{}\"", esc(a)));
        let link = target.map_or(String::new(), |t| format!("<a:hlinkClick r:id=\"{}\"{}/>", esc(t), self.url.and_then(|u| u.1).map_or(String::new(), |t| format!(" tooltip=\"{}\"", esc(t)))));
        let mut ppr = String::new();
        if let Some(a) = self.align {
            ppr += &format!(" algn=\"{a}\"");
        }
        if let Some(r) = self.rtl {
            ppr += &format!(" rtl=\"{}\"", u8::from(r));
        }
        if !ppr.is_empty() {
            ppr = format!("<a:pPr{ppr}/>");
        }
        let vert = self.vert.map_or(String::new(), |v| format!(" vert=\"{v}\""));
        let ctr = self.anchor.1.map_or(String::new(), |c| format!(" anchorCtr=\"{c}\""));
        let mut paras = String::new();
        for line in self.text.replace("\r\n", "\n").split('\n') {
            let (r, end, t) = (self.font("rPr"), self.font("endParaRPr"), esc(line));
            const FLD: &str = "<a:fld id=\"{B8ADDEFE-BF52-4FD4-8C5D-6B85EF6FF707}\" type=\"TxLink\">";
            let inner = match (self.link.is_some(), line.is_empty()) {
                (false, false) => format!("<a:r>{r}<a:t>{t}</a:t></a:r>"),
                (false, true) => end,
                (true, false) => format!("{FLD}{r}<a:pPr/><a:t>{t}</a:t></a:fld>{end}"),
                (true, true) => format!("{FLD}{r}<a:t> </a:t></a:fld>{end}"),
            };
            paras += &format!("<a:p>{ppr}{inner}</a:p>");
        }
        format!(
            "<xdr:sp xmlns:xdr=\"x\" xmlns:a=\"a\" xmlns:r=\"r\" macro=\"\" textlink=\"{}\"><xdr:nvSpPr><xdr:cNvPr id=\"{}\" name=\"TextBox {index}\"{descr}>{link}</xdr:cNvPr><xdr:cNvSpPr txBox=\"1\"/></xdr:nvSpPr><xdr:spPr><a:prstGeom prst=\"rect\"><a:avLst/></a:prstGeom>{}{}</xdr:spPr><xdr:txBody><a:bodyPr{vert} wrap=\"square\" rtlCol=\"0\" anchor=\"{}\"{ctr}/><a:lstStyle/>{paras}</xdr:txBody></xdr:sp>",
            esc(self.link.unwrap_or("")),
            index + 1,
            self.fill_xml(),
            self.line_xml(),
            self.anchor.0
        )
    }
}
struct O {
    name: String,
    f: Box<dyn Fn(&mut T) + Send + Sync>,
}
fn add(v: &mut Vec<O>, name: impl Into<String>, f: impl Fn(&mut T) + Send + Sync + 'static) {
    v.push(O { name: name.into(), f: Box::new(f) });
}
/// Replace a component with the result of a setter.
macro_rules! set {
    ($t:ident . $c:ident, $x:ident => $e:expr) => {{
        let $x = $t.$c.clone();
        $t.$c = $e;
    }};
}
const COLORS: [C; 4] = [C::Rgb("FF0000"), C::Rgb("00B050"), C::Theme(4, 2), C::Theme(1, 5)];
fn text(t: &mut T, s: &str) {
    set!(t.shape, x => x.set_text(s));
    t.m.text = s.into();
}
fn opts() -> Vec<O> {
    let mut v = vec![];
    for s in ["One line", "Two\nlines <&>", ""] {
        add(&mut v, format!("text {s:?}"), move |t| text(t, s));
    }
    for s in ["=$A$1", "='My Sheet'!$B$2"] {
        add(&mut v, format!("link {s}"), move |t| {
            set!(t.shape, x => x.set_text_link(s));
            t.m.link = Some(&s[1..]);
        });
    }
    for s in ["Alt \"x\" <&>", "Other"] {
        add(&mut v, format!("alt {s}"), move |t| {
            set!(t.shape, x => x.set_alt_text(s));
            t.m.alt = Some(s);
        });
    }
    let just = "é".repeat(255);
    add(&mut v, "alt 255", move |t| { set!(t.shape, x => x.set_alt_text(just.clone())); t.m.alt = Some(Box::leak("é".repeat(255).into_boxed_str())); });
    add(&mut v, "alt too long", |t| set!(t.shape, x => x.set_alt_text("é".repeat(256))));
    for (s, tip) in [("https://example.com/a?b=c&d", None), ("internal:Sheet1!A1", Some("Go <there>"))] {
        add(&mut v, format!("url {s}"), move |t| {
            let mut u = Url::new(s);
            if let Some(x) = tip {
                u = u.set_tip(x);
            }
            set!(t.shape, x => x.set_url(u).unwrap());
            t.m.url = Some((s, tip));
        });
    }
    // Fonts.
    add(&mut v, "bold", |t| { set!(t.font, x => x.set_bold()); t.m.bold = true; });
    add(&mut v, "not bold", |t| { set!(t.font, x => x.unset_bold()); t.m.bold = false; });
    add(&mut v, "italic", |t| { set!(t.font, x => x.set_italic()); t.m.italic = true; });
    add(&mut v, "underline", |t| { set!(t.font, x => x.set_underline()); t.m.underline = true; });
    add(&mut v, "strike", |t| { set!(t.font, x => x.set_strikethrough()); t.m.strike = true; });
    for n in ["Arial", "A & B"] {
        add(&mut v, format!("font {n}"), move |t| { set!(t.font, x => x.set_name(n)); t.m.name = Some(n); });
    }
    for n in [8.3, 10.5, 20.0] {
        add(&mut v, format!("size {n}"), move |t| { set!(t.font, x => x.set_size(n)); t.m.size = (n * 100.0f64).round() as u32; });
    }
    add(&mut v, "pitch 34", |t| { set!(t.font, x => x.set_pitch_family(34)); t.m.pitch = 34; });
    add(&mut v, "charset 2", |t| { set!(t.font, x => x.set_character_set(2)); t.m.charset = 2; });
    for b in [true, false] {
        add(&mut v, format!("rtl {b}"), move |t| { set!(t.font, x => x.set_right_to_left(b)); t.m.rtl = Some(b); });
    }
    for c in &COLORS[..3] {
        add(&mut v, format!("font {c:?}"), move |t| { set!(t.font, x => x.set_color(c.real())); t.m.color = *c; });
    }
    add(&mut v, "font bad color", |t| set!(t.font, x => x.set_color(Color::Theme(12, 0))));
    // Text options.
    {
        use ShapeTextHorizontalAlignment::*;
        for (a, n) in [(Left, Some("l")), (Center, Some("ctr")), (Right, Some("r")), (Default, None)] {
            add(&mut v, format!("align {n:?}"), move |t| { set!(t.text, x => x.set_horizontal_alignment(a.clone())); t.m.align = n; });
        }
    }
    {
        use ShapeTextVerticalAlignment::*;
        for (a, n, c) in [(Top, "t", None), (Middle, "ctr", Some(0)), (Bottom, "b", Some(0)), (TopCentered, "t", Some(1)), (MiddleCentered, "ctr", Some(1)), (BottomCentered, "b", Some(1))] {
            add(&mut v, format!("anchor {n} {c:?}"), move |t| { set!(t.text, x => x.set_vertical_alignment(a.clone())); t.m.anchor = (n, c); });
        }
    }
    {
        use ShapeTextDirection::*;
        for (a, n) in [(Horizontal, None), (Rotate90, Some("vert")), (Rotate270, Some("vert270")), (Rotate90EastAsian, Some("eaVert")), (Stacked, Some("wordArtVert"))] {
            add(&mut v, format!("direction {n:?}"), move |t| { set!(t.text, x => x.set_direction(a.clone())); t.m.vert = n; });
        }
    }
    // Fills.
    add(&mut v, "no fill", |t| t.m.fill = 1);
    for (c, a) in [(COLORS[0], 0), (COLORS[1], 25), (COLORS[2], 100)] {
        add(&mut v, format!("solid {c:?} {a}"), move |t| { set!(t.solid, x => x.set_color(c.real()).set_transparency(a)); t.m.solid = (c, a); t.m.fill = 2; });
    }
    add(&mut v, "solid bad", |t| { set!(t.solid, x => x.set_color("#FF0000").set_color(Color::Theme(2, 9)).set_transparency(101)); t.m.solid.0 = C::Rgb("FF0000"); t.m.fill = 2; });
    for (p, n) in [PATTERNS[3], PATTERNS[40]] {
        add(&mut v, format!("pattern {n}"), move |t| { set!(t.pattern, x => x.set_pattern(p)); t.m.patt.0 = n; t.m.fill = 3; });
    }
    for c in [COLORS[0], COLORS[3]] {
        add(&mut v, format!("fg {c:?}"), move |t| { set!(t.pattern, x => x.set_foreground_color(c.real())); t.m.patt.1 = c; t.m.fill = 3; });
        add(&mut v, format!("bg {c:?}"), move |t| { set!(t.pattern, x => x.set_background_color(c.real())); t.m.patt.2 = c; t.m.fill = 3; });
    }
    for n in [2usize, 10] {
        add(&mut v, format!("{n} stops"), move |t| { stops(t, n); });
    }
    // Too few, too many: ignored; a bad one is left out.
    add(&mut v, "1 stop", |t| stops_if(t, 1));
    add(&mut v, "11 stops", |t| stops_if(t, 11));
    add(&mut v, "bad stop", |t| {
        let s = [ShapeGradientStop::new("#FF0000", 0), ShapeGradientStop::new("#00FF00", 101), ShapeGradientStop::new(Color::Theme(20, 0), 50), ShapeGradientStop::new("#0000FF", 99)];
        set!(t.gradient, x => x.set_gradient_stops(&s));
        t.m.grad.1 = vec![(C::Rgb("FF0000"), 0), (C::Rgb("0000FF"), 99)];
        t.m.fill = 4;
    });
    for (k, ty) in [ShapeGradientFillType::Linear, ShapeGradientFillType::Radial, ShapeGradientFillType::Rectangular, ShapeGradientFillType::Path].into_iter().enumerate() {
        add(&mut v, format!("gradient {k}"), move |t| { set!(t.gradient, x => x.set_type(ty)); t.m.grad.0 = k as u8; need_stops(t); });
    }
    for a in [0u16, 45, 359] {
        add(&mut v, format!("angle {a}"), move |t| { set!(t.gradient, x => x.set_angle(a)); t.m.grad.2 = u32::from(a); need_stops(t); });
    }
    add(&mut v, "angle 360", |t| { set!(t.gradient, x => x.set_angle(360)); need_stops(t); });
    // Lines.
    add(&mut v, "no line", |t| t.m.line = 1);
    for c in [COLORS[0], COLORS[2]] {
        add(&mut v, format!("line {c:?}"), move |t| { set!(t.line, x => x.set_color(c.real())); t.m.ln.0 = c; t.m.line = 2; });
    }
    for w in [0.0, 0.25, 1.3, 2.24, 1584.0] {
        add(&mut v, format!("width {w}"), move |t| { set!(t.line, x => x.set_width(w)); t.m.ln.1 = (w * 4.0f64).round() as u32; t.m.line = 2; });
    }
    add(&mut v, "width 1584.1", |t| { set!(t.line, x => x.set_width(1584.1)); t.m.line = 2; });
    for a in [0, 30, 100] {
        add(&mut v, format!("line transparency {a}"), move |t| { set!(t.line, x => x.set_transparency(a)); t.m.ln.2 = a; t.m.line = 2; });
    }
    add(&mut v, "line transparency 101", |t| { set!(t.line, x => x.set_transparency(101)); t.m.line = 2; });
    for (d, n) in [DASHES[0], DASHES[1], DASHES[7]] {
        add(&mut v, format!("dash {n:?}"), move |t| { set!(t.line, x => x.set_dash_type(d)); t.m.ln.3 = n; t.m.line = 2; });
    }
    for b in [true, false] {
        add(&mut v, format!("line hidden {b}"), move |t| { set!(t.line, x => x.set_hidden(b)); t.m.ln.4 = b; t.m.line = 2; });
    }
    v
}
fn stop_list(n: usize) -> Vec<(C, u8)> {
    (0..n).map(|k| (COLORS[k % 4], (k * 10) as u8)).collect()
}
fn stops_if(t: &mut T, n: usize) {
    let l: Vec<ShapeGradientStop> = stop_list(n.min(11)).iter().map(|(c, p)| ShapeGradientStop::new(c.real(), (*p).min(100))).collect();
    set!(t.gradient, x => x.set_gradient_stops(&l));
    need_stops(t);
}
fn stops(t: &mut T, n: usize) {
    let l: Vec<ShapeGradientStop> = stop_list(n).iter().map(|(c, p)| ShapeGradientStop::new(c.real(), *p)).collect();
    set!(t.gradient, x => x.set_gradient_stops(&l));
    t.m.grad.1 = stop_list(n);
    t.m.fill = 4;
}
/// A gradient has stops.
fn need_stops(t: &mut T) {
    if t.m.grad.1.is_empty() {
        stops(t, 2);
    }
    t.m.fill = 4;
}
fn all() -> &'static Vec<O> {
    static V: OnceLock<Vec<O>> = OnceLock::new();
    V.get_or_init(opts)
}
fn strip(e: &El) -> El {
    let mut e = e.clone();
    for k in &mut e.kids {
        if let crate::xml::Node::El(c) = k {
            c.kids.retain(|x| !matches!(x, crate::xml::Node::El(y) if y.name == "a:xfrm"));
        }
    }
    e.kids.retain(|x| !matches!(x, crate::xml::Node::El(y) if y.name == "xdr:style"));
    e
}
/// Compare the shapes of a worksheet with the models, in order.
fn check(p: &Pkg, i: usize, want: &[&M]) -> R {
    let sr = &p.sheets()?[i];
    let parts = p.follow_type(&sr.part, "drawing");
    eq("drawings", 1, parts.len())?;
    let x = p.x(&parts[0])?;
    let sps = x.find_all("xdr:sp");
    eq("shapes", want.len(), sps.len())?;
    for (k, (m, sp)) in want.iter().zip(&sps).enumerate() {
        if sp.find_all("xdr:style").len() != 1 || sp.find_all("a:xfrm").len() != 1 {
            return Err("a shape without style or place".into());
        }
        let mut got = flat(&strip(sp), "sp");
        let mut target = None;
        if let Some(id) = got.get("sp/xdr:nvSpPr/xdr:cNvPr/a:hlinkClick@r:id").cloned() {
            let r = p.rels(&parts[0]).into_iter().find(|r| r.id == id).ok_or("no relationship")?;
            got.insert("sp/xdr:nvSpPr/xdr:cNvPr/a:hlinkClick@r:id".into(), r.target.replace("&amp;", "&"));
        }
        got.retain(|k, _| !k.contains("@xmlns"));
        if let Some((u, _)) = m.url {
            target = Some(u.replace("internal:", "#"));
        }
        let xml = m.xml(k + 1, target.as_deref());
        let mut want: Flat = flat(&crate::xml::parse(xml.as_bytes()).map_err(|e| format!("model: {e}: {xml}"))?, "sp");
        want.retain(|k, _| !k.contains("@xmlns"));
        crate::opt::compare(&want, &got).map_err(|e| format!("shape {}: {e}", k + 1))?;
    }
    Ok(())
}
fn one(rec: &mut Rec, t: &T) -> R {
    rec.state(&t.m);
    rec.trace();
    let mut wb = Workbook::new();
    e(wb.add_worksheet().insert_shape(1, 1, &t.build()))?;
    check(&closed(&mut wb)?, 0, &[&t.m])
}
fn run(run: &mut Run) {
    let o = all();
    let n = o.len() as u64;
    run.explore("sequences", seqs(n, run.pick(2, 3)), |i, rec| {
        let s = seq(i, n);
        rec.describe(|| format!("{:?}", s.iter().map(|x| o[*x].name.as_str()).collect::<Vec<_>>()));
        let mut t = T::new();
        for k in &s {
            rec.step();
            (o[*k].f)(&mut t);
        }
        one(rec, &t)
    });
    // Every setting before and after all the others.
    run.explore("among all", n * 2, |i, rec| {
        let k = (i / 2) as usize;
        rec.describe(|| format!("{} {} all others", o[k].name, if i % 2 == 0 { "before" } else { "after" }));
        let mut t = T::new();
        for j in 0..o.len() {
            if j != k {
                (o[j].f)(&mut t);
                rec.step();
            }
            if i % 2 == 0 && j == 0 {
                t = T::new();
                (o[k].f)(&mut t);
                (o[if k == 0 { 1 } else { 0 }].f)(&mut t);
            }
        }
        if i % 2 == 1 {
            (o[k].f)(&mut t);
        }
        one(rec, &t)
    });
    // Two shapes on one or two worksheets.
    run.explore("two shapes", n * n * 2, |i, rec| {
        let (a, b, same) = ((i % n) as usize, (i / n % n) as usize, i / n / n == 0);
        rec.describe(|| format!("{} and {} on {} worksheets", o[a].name, o[b].name, 2 - u8::from(same)));
        let (mut x, mut y) = (T::new(), T::new());
        (o[a].f)(&mut x);
        (o[b].f)(&mut y);
        rec.steps(2);
        rec.state(&(&x.m, &y.m, same));
        rec.trace();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        // The order in the file is that of the cells.
        if same {
            e(w.insert_shape(5, 1, &y.build()))?;
            e(w.insert_shape(1, 1, &x.build()))?;
            return check(&closed(&mut wb)?, 0, &[&x.m, &y.m]);
        }
        e(w.insert_shape(1, 1, &x.build()))?;
        e(wb.add_worksheet().insert_shape(1, 1, &y.build()))?;
        let p = closed(&mut wb)?;
        check(&p, 0, &[&x.m])?;
        check(&p, 1, &[&y.m])
    });
    // All values of the enumerations and colours, given in all ways.
    run.explore("values", 48 * 9 + 8 * 4 + 60 * 4, |i, rec| {
        let mut t = T::new();
        let i = i as usize;
        let mut form: Option<Shape> = None;
        if i < 432 {
            let (p, c) = (i / 9, i % 9);
            let cs = [C::Default, COLORS[0], COLORS[2]];
            let (fg, bg) = (cs[c % 3], cs[c / 3]);
            rec.describe(|| format!("pattern {} {fg:?} {bg:?}", PATTERNS[p].1));
            set!(t.pattern, x => x.set_pattern(PATTERNS[p].0));
            if fg != C::Default {
                set!(t.pattern, x => x.set_foreground_color(fg.real()));
            }
            if bg != C::Default {
                set!(t.pattern, x => x.set_background_color(bg.real()));
            }
            t.m.patt = (PATTERNS[p].1, fg, bg);
            t.m.fill = 3;
            form = Some(Shape::textbox().set_format(&t.pattern));
        } else if i < 464 {
            let (d, c) = ((i - 432) / 4, (i - 432) % 4);
            rec.describe(|| format!("dash {:?} {c}", DASHES[d].1));
            set!(t.line, x => x.set_dash_type(DASHES[d].0));
            t.m.ln.3 = DASHES[d].1;
            if c > 0 {
                set!(t.line, x => x.set_color(COLORS[c].real()).set_transparency(20));
                t.m.ln.0 = COLORS[c];
                t.m.ln.2 = 20;
            }
            t.m.line = 2;
            form = Some(Shape::textbox().set_format(&t.line));
        } else {
            let (c, k) = ((i - 464) / 4, (i - 464) % 4);
            let c = C::Theme((c / 6) as u8, (c % 6) as u8);
            rec.describe(|| format!("{c:?} in {k}"));
            match k {
                0 => {
                    set!(t.solid, x => x.set_color(c.real()));
                    t.m.solid.0 = c;
                    t.m.fill = 2;
                    form = Some(Shape::textbox().set_format(&t.solid));
                }
                1 => {
                    set!(t.line, x => x.set_color(c.real()).set_transparency(40));
                    t.m.ln = (c, 3, 40, "", false);
                    t.m.line = 2;
                }
                2 => {
                    set!(t.font, x => x.set_color(c.real()));
                    t.m.color = c;
                    text(&mut t, "x");
                }
                _ => {
                    let s = [ShapeGradientStop::new(c.real(), 0), ShapeGradientStop::new("#FF0000", 100)];
                    set!(t.gradient, x => x.set_gradient_stops(&s));
                    t.m.grad.1 = vec![(c, 0), (C::Rgb("FF0000"), 100)];
                    t.m.fill = 4;
                    form = Some(Shape::textbox().set_format(&t.gradient));
                }
            }
        }
        rec.step();
        one(rec, &t)?;
        if let Some(s) = form {
            let mut wb = Workbook::new();
            e(wb.add_worksheet().insert_shape(1, 1, &s))?;
            check(&closed(&mut wb)?, 0, &[&t.m])?;
        }
        Ok(())
    });
    // All texts of lines up to a length, with and without link and options.
    const PARTS: [&str; 6] = ["a", "\n", " ", "<&>", "\r\n", "é"];
    let n = seqs(6, run.pick(4, 6));
    run.explore("texts", n * 4, |i, rec| {
        let s: String = seq(i / 4, 6).iter().map(|k| PARTS[*k]).collect();
        rec.describe(|| format!("text {s:?} in {}", i % 4));
        rec.step();
        let mut t = T::new();
        text(&mut t, &s);
        if i % 4 >= 2 {
            set!(t.shape, x => x.set_text_link("=$A$1"));
            t.m.link = Some("$A$1");
        }
        if i % 2 == 1 {
            set!(t.text, x => x.set_horizontal_alignment(ShapeTextHorizontalAlignment::Center));
            set!(t.font, x => x.set_color("#FF0000"));
            t.m.align = Some("ctr");
            t.m.color = C::Rgb("FF0000");
        }
        one(rec, &t)
    });
}
