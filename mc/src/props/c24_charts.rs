//! C24: charts are written as configured.
use super::util::*;
use super::Prop;
use crate::opt::{edits, Dom, Flat, Opt, St};
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub const PROP: Prop = Prop {
    id: "C24",
    level: "model_checking",
    rule: "Model: for each kind of chart object (lines, fills, fonts, formats, markers, data labels, trendlines, error bars, layouts, data tables, titles, legends, the axes of each chart family, series and whole charts) the setting in force for each group of settings, rendered to the facts of the expected chart part by a reviewed table of effects (c24.txt) and rules for the settings that interact. All setting sequences up to the depth are applied to the real code, the workbook is saved, checked for closure and element order, and every element, attribute and text of the chart part is compared. Formats and fonts are checked at every place that takes one, for every chart type; series are added in both ways.",
    assumes: &["the element orders are those of ECMA-376", "the table of effects was reviewed by hand against the documentation of the methods"],
    run,
};
pub type D<T> = Vec<Opt<T>>;
const TYPES: [(&str, ChartType); 23] = [
    ("Area", ChartType::Area),
    ("AreaStacked", ChartType::AreaStacked),
    ("AreaPercentStacked", ChartType::AreaPercentStacked),
    ("Bar", ChartType::Bar),
    ("BarStacked", ChartType::BarStacked),
    ("BarPercentStacked", ChartType::BarPercentStacked),
    ("Column", ChartType::Column),
    ("ColumnStacked", ChartType::ColumnStacked),
    ("ColumnPercentStacked", ChartType::ColumnPercentStacked),
    ("Doughnut", ChartType::Doughnut),
    ("Line", ChartType::Line),
    ("LineStacked", ChartType::LineStacked),
    ("LinePercentStacked", ChartType::LinePercentStacked),
    ("Pie", ChartType::Pie),
    ("Radar", ChartType::Radar),
    ("RadarWithMarkers", ChartType::RadarWithMarkers),
    ("RadarFilled", ChartType::RadarFilled),
    ("Scatter", ChartType::Scatter),
    ("ScatterStraight", ChartType::ScatterStraight),
    ("ScatterStraightWithMarkers", ChartType::ScatterStraightWithMarkers),
    ("ScatterSmooth", ChartType::ScatterSmooth),
    ("ScatterSmoothWithMarkers", ChartType::ScatterSmoothWithMarkers),
    ("Stock", ChartType::Stock),
];
pub fn kind(n: &str) -> ChartType {
    TYPES.iter().find(|x| x.0 == n).unwrap().1
}
/// The table of effects: (domain, option) to edits.
fn table() -> &'static BTreeMap<(String, String), String> {
    static T: OnceLock<BTreeMap<(String, String), String>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m = BTreeMap::new();
        for l in include_str!("c24.txt").lines().chain(include_str!("c24_over.txt").lines()) {
            if let Some((k, v)) = l.split_once(" => ") {
                let (d, o) = k.split_once('|').unwrap();
                m.insert((d.to_string(), o.to_string()), expand(v));
            }
        }
        m
    })
}
/// Abbreviations of the table.
const ABBR: [(&str, &str); 6] = [
    ("~A", "cs/c:chart/c:plotArea"),
    ("~L", "cs/c:chart/c:legend"),
    ("~T", "cs/c:chart/c:title"),
    ("~C", "cs/c:chart"),
    ("~S", "cs/c:spPr"),
    ("~R", "a:solidFill/a:srgbClr"),
];
fn expand(s: &str) -> String {
    let mut s = s.to_string();
    for (a, b) in ABBR {
        s = s.replace(a, b);
    }
    s
}
fn shrink(s: &str) -> String {
    let mut s = s.to_string();
    for (a, b) in ABBR {
        s = s.replace(b, a);
    }
    s
}
fn want(d: &str, o: &str) -> String {
    table().get(&(d.to_string(), o.to_string())).cloned().unwrap_or_default()
}
fn base(ty: &str, dom: &str) -> Flat {
    let mut m = Flat::new();
    edits(&mut m, &want("type", ty));
    edits(&mut m, &want(dom, "@"));
    m
}
fn add<T>(v: &mut D<T>, name: impl Into<String>, group: impl Into<String>, f: impl Fn(&mut T) + Send + Sync + 'static) {
    v.push(Opt {
        name: name.into(),
        group: group.into(),
        apply: Box::new(move |t| {
            f(t);
            Ok(())
        }),
        want: String::new(),
    });
}
/// A domain with its effects from the table.
fn dom<T>(name: &str, ty: &str, mut opts: D<T>, rule: crate::opt::Rule) -> Dom<T> {
    for o in &mut opts {
        o.want = want(name, &o.name);
    }
    Dom { name: name.into(), opts, base: base(ty, name), rule }
}
pub fn none(_: &St, _: &mut Flat) {}
fn del(m: &mut Flat, p: &str) {
    edits(m, &format!("-{p}"));
}
/// A chart of two series.
pub fn chart(ty: &str) -> Chart {
    let mut c = Chart::new(kind(ty));
    c.add_series().set_categories(("Sheet1", 0, 0, 3, 0)).set_values(("Sheet1", 0, 1, 3, 1)).set_name("One");
    c.add_series().set_categories(("Sheet1", 0, 0, 3, 0)).set_values(("Sheet1", 0, 2, 3, 2)).set_name(("Sheet1", 0, 3));
    c
}
fn data(ws: &mut Worksheet) -> R {
    for r in 0..4u32 {
        e(ws.write(r, 0, format!("c{r}")))?;
        e(ws.write(r, 1, r * 10 + 1))?;
        e(ws.write(r, 2, f64::from(r) + 0.5))?;
    }
    e(ws.write(0, 3, "Two"))?;
    e(ws.write(1, 3, "Other <&> text"))?;
    Ok(())
}
pub fn facts_of(c: &Chart) -> Result<Flat, String> {
    let mut wb = Workbook::new();
    let ws = wb.add_worksheet();
    data(ws)?;
    match ws.insert_chart(0, 5, c) {
        Ok(_) => {}
        Err(x) => return Ok(Flat::from([("refused".to_string(), x.to_string())])),
    }
    let p = closed(&mut wb)?;
    // Once more, with the same workbook object.
    let q = pkg(&mut wb)?;
    let x = p.x("xl/charts/chart1.xml")?;
    if x.canon() != q.x("xl/charts/chart1.xml")?.canon() {
        return Err("the chart differs when saved again".into());
    }
    Ok(crate::opt::flat(x, "cs"))
}
/// Observe an object made by a sequence of settings, put into a chart.
fn via<T, N: Fn() -> T + Sync, P: Fn(&mut Chart, &T) + Sync>(ty: &'static str, new: N, put: P) -> impl Fn(&[&Opt<T>]) -> Result<Flat, String> + Sync {
    move |s| {
        let mut t = new();
        for o in s {
            (o.apply)(&mut t)?;
        }
        let mut c = chart(ty);
        put(&mut c, &t);
        facts_of(&c)
    }
}
// The small objects.
fn line() -> D<ChartLine> {
    let mut v = vec![];
    for (n, c) in [("red", Color::RGB(0xFF0000)), ("theme", Color::Theme(5, 2)), ("plain theme", Color::Theme(4, 0)), ("automatic", Color::Automatic), ("named", Color::Green)] {
        add(&mut v, format!("color {n}"), "color", move |l: &mut ChartLine| {
            l.set_color(c);
        });
    }
    add(&mut v, "bad color", "bad", |l: &mut ChartLine| {
        l.set_color(Color::RGB(0x1000000));
    });
    for w in [0.25, 0.5, 1.0, 1.1, 2.25, 3.3, 100.0, 1584.0] {
        add(&mut v, format!("width {w}"), "width", move |l: &mut ChartLine| {
            l.set_width(w);
        });
    }
    add(&mut v, "bad width", "bad", |l: &mut ChartLine| {
        l.set_width(1584.5);
    });
    {
        use ChartLineDashType::*;
        for (i, d) in [Solid, RoundDot, SquareDot, Dash, DashDot, LongDash, LongDashDot, LongDashDotDot].into_iter().enumerate() {
            add(&mut v, format!("dash {i}"), "dash", move |l: &mut ChartLine| {
                l.set_dash_type(d);
            });
        }
    }
    for t in [0, 1, 50, 100] {
        add(&mut v, format!("transparency {t}"), "transparency", move |l: &mut ChartLine| {
            l.set_transparency(t);
        });
    }
    add(&mut v, "bad transparency", "bad", |l: &mut ChartLine| {
        l.set_transparency(101);
    });
    add(&mut v, "hidden", "hidden", |l: &mut ChartLine| {
        l.set_hidden(true);
    });
    add(&mut v, "shown", "hidden", |l: &mut ChartLine| {
        l.set_hidden(false);
    });
    v
}
/// The alpha of a transparency in force goes with the colour.
fn alpha(s: &St, m: &mut Flat, at: &str) {
    let t = s.force.get("transparency").and_then(|x| x.strip_prefix("transparency ")).and_then(|x| x.parse::<u32>().ok()).unwrap_or(0);
    if t > 0 {
        for c in ["a:srgbClr", "a:schemeClr"] {
            if m.contains_key(&format!("{at}/a:solidFill/{c}")) {
                edits(m, &format!("{at}/a:solidFill/{c}/a:alpha@val={}", (100 - t) * 1000));
            }
        }
    }
}
fn line_rule(s: &St, m: &mut Flat) {
    alpha(s, m, "cs/c:spPr/a:ln");
    if s.on("hidden") {
        for x in ["a:solidFill", "a:prstDash"] {
            del(m, &format!("cs/c:spPr/a:ln/{x}"));
        }
        edits(m, "cs/c:spPr/a:ln/a:noFill");
    }
}
fn solid_rule(s: &St, m: &mut Flat) {
    if s.grp("color") && !s.on("color red") && !s.on("color named") {
        del(m, "cs/c:spPr/a:solidFill/a:srgbClr");
    }
    alpha(s, m, "cs/c:spPr");
}
fn solid() -> D<ChartSolidFill> {
    let mut v = vec![];
    for (n, c) in [("red", Color::RGB(0xFF0000)), ("theme", Color::Theme(5, 2)), ("plain theme", Color::Theme(0, 0)), ("automatic", Color::Automatic), ("named", Color::Navy)] {
        add(&mut v, format!("color {n}"), "color", move |l: &mut ChartSolidFill| {
            l.set_color(c);
        });
    }
    for t in [0, 1, 50, 100] {
        add(&mut v, format!("transparency {t}"), "transparency", move |l: &mut ChartSolidFill| {
            l.set_transparency(t);
        });
    }
    add(&mut v, "bad transparency", "bad", |l: &mut ChartSolidFill| {
        l.set_transparency(101);
    });
    add(&mut v, "bad color", "bad", |l: &mut ChartSolidFill| {
        l.set_color(Color::Theme(10, 0));
    });
    v
}
fn themes() -> D<ChartSolidFill> {
    let mut v = vec![];
    for t in 0..10u8 {
        for s in 0..6u8 {
            add(&mut v, format!("theme {t},{s}"), "color", move |l: &mut ChartSolidFill| {
                l.set_color(Color::Theme(t, s));
            });
        }
    }
    v
}
fn pattern() -> D<ChartPatternFill> {
    use ChartPatternFillType::*;
    let mut v = vec![];
    for (i, p) in [
        Dotted5Percent, Dotted10Percent, Dotted20Percent, Dotted25Percent, Dotted30Percent, Dotted40Percent, Dotted50Percent, Dotted60Percent, Dotted70Percent, Dotted75Percent, Dotted80Percent, Dotted90Percent,
        DiagonalStripesLightDownwards, DiagonalStripesLightUpwards, DiagonalStripesDarkDownwards, DiagonalStripesDarkUpwards, DiagonalStripesWideDownwards, DiagonalStripesWideUpwards, VerticalStripesLight,
        HorizontalStripesLight, VerticalStripesNarrow, HorizontalStripesNarrow, VerticalStripesDark, HorizontalStripesDark, StripesBackslashes, StripesForwardSlashes, HorizontalStripesAlternating,
        VerticalStripesAlternating, SmallConfetti, LargeConfetti, Zigzag, Wave, DiagonalBrick, HorizontalBrick, Weave, Plaid, Divot, DottedGrid, DottedDiamond, Shingle, Trellis, Sphere, SmallGrid, LargeGrid,
        SmallCheckerboard, LargeCheckerboard, OutlinedDiamondGrid, SolidDiamondGrid,
    ]
    .into_iter()
    .enumerate()
    {
        add(&mut v, format!("pattern {i}"), "pattern", move |l: &mut ChartPatternFill| {
            l.set_pattern(p);
        });
    }
    for (n, c) in [("red", Color::RGB(0xFF0000)), ("theme", Color::Theme(5, 2))] {
        add(&mut v, format!("fg {n}"), "fg", move |l: &mut ChartPatternFill| {
            l.set_foreground_color(c);
        });
        add(&mut v, format!("bg {n}"), "bg", move |l: &mut ChartPatternFill| {
            l.set_background_color(c);
        });
    }
    add(&mut v, "bad fg", "bad", |l: &mut ChartPatternFill| {
        l.set_foreground_color(Color::RGB(0x1000000));
    });
    v
}
fn pattern_rule(s: &St, m: &mut Flat) {
    if s.grp("fg") && !s.grp("bg") {
        edits(m, "cs/c:spPr/a:pattFill/a:bgClr/a:srgbClr@val=FFFFFF");
    }
}
fn stops(n: usize) -> Vec<ChartGradientStop> {
    let v = [("#963735", 0u8), ("#F1DCDB", 50), ("#C00000", 100), ("#00FF00", 10), ("#0000FF", 90)];
    (0..n).map(|i| ChartGradientStop::new(v[i % 5].0, v[i % 5].1)).collect()
}
fn gradient() -> D<ChartGradientFill> {
    let mut v = vec![];
    for n in [1, 2, 3, 10, 11] {
        add(&mut v, format!("stops {n}"), if (2..=10).contains(&n) { "stops" } else { "bad" }, move |l: &mut ChartGradientFill| {
            l.set_gradient_stops(&stops(n));
        });
    }
    add(&mut v, "stops with a bad one", "stops", |l: &mut ChartGradientFill| {
        l.set_gradient_stops(&[ChartGradientStop::new("#010203", 1), ChartGradientStop::new("#040506", 101), ChartGradientStop::new(Color::Theme(5, 2), 99)]);
    });
    {
        use ChartGradientFillType::*;
        for (n, t) in [("linear", Linear), ("radial", Radial), ("rectangular", Rectangular), ("path", Path)] {
            add(&mut v, n, "type", move |l: &mut ChartGradientFill| {
                l.set_type(t);
            });
        }
    }
    for a in [0, 1, 45, 359, 360] {
        add(&mut v, format!("angle {a}"), if a < 360 { "angle" } else { "bad" }, move |l: &mut ChartGradientFill| {
            l.set_angle(a);
        });
    }
    v
}
/// The angle is that of linear gradients.
fn gradient_rule(s: &St, m: &mut Flat) {
    if s.grp("type") && !s.on("linear") {
        del(m, "cs/c:spPr/a:gradFill/a:lin");
    }
}
fn fmt(i: usize) -> ChartFormat {
    let mut f = ChartFormat::new();
    match i {
        0 => f.set_line(ChartLine::new().set_color("#0000FF").set_width(1.5).set_dash_type(ChartLineDashType::Dash)),
        1 => f.set_solid_fill(ChartSolidFill::new().set_color("#00FF00").set_transparency(25)),
        2 => f.set_pattern_fill(ChartPatternFill::new().set_pattern(ChartPatternFillType::Wave).set_foreground_color("#112233")),
        3 => f.set_gradient_fill(ChartGradientFill::new().set_gradient_stops(&stops(2))),
        4 => f.set_no_fill(),
        5 => f.set_no_line(),
        6 => f.set_border(ChartLine::new().set_color("#FF00FF")).set_solid_fill(ChartSolidFill::new().set_color(Color::Theme(4, 1))),
        _ => f.set_no_line().set_no_fill(),
    };
    f
}
const FMTS: [&str; 8] = ["line", "solid", "pattern", "gradient", "no fill", "no line", "line and fill", "nothing"];
fn format() -> D<ChartFormat> {
    let mut v = vec![];
    add(&mut v, "line", "line", |f: &mut ChartFormat| {
        f.set_line(ChartLine::new().set_color("#0000FF"));
    });
    add(&mut v, "border", "line", |f: &mut ChartFormat| {
        f.set_border(ChartLine::new().set_width(3));
    });
    add(&mut v, "no line", "no line", |f: &mut ChartFormat| {
        f.set_no_line();
    });
    add(&mut v, "no border", "no line", |f: &mut ChartFormat| {
        f.set_no_border();
    });
    add(&mut v, "no fill", "no fill", |f: &mut ChartFormat| {
        f.set_no_fill();
    });
    for c in ["#0A0B0C", "#FFFF00"] {
        add(&mut v, format!("solid {c}"), "solid", move |f: &mut ChartFormat| {
            f.set_solid_fill(ChartSolidFill::new().set_color(c));
        });
        add(&mut v, format!("pattern {c}"), "pattern", move |f: &mut ChartFormat| {
            f.set_pattern_fill(ChartPatternFill::new().set_background_color(c));
        });
    }
    for n in [2, 3] {
        add(&mut v, format!("gradient {n}"), "gradient", move |f: &mut ChartFormat| {
            f.set_gradient_fill(ChartGradientFill::new().set_gradient_stops(&stops(n)));
        });
    }
    v
}
/// Of the fills set, one is written: none, solid, pattern, gradient, in this order of preference.
fn format_rule(s: &St, m: &mut Flat) {
    let rank = [("no fill", "a:noFill"), ("solid", "a:solidFill"), ("pattern", "a:pattFill"), ("gradient", "a:gradFill")];
    if let Some(i) = rank.iter().position(|x| s.grp(x.0)) {
        for x in &rank[i + 1..] {
            del(m, &format!("cs/c:spPr/{}", x.1));
        }
    }
    if s.grp("no line") {
        del(m, "cs/c:spPr/a:ln");
        edits(m, "cs/c:spPr/a:ln/a:noFill");
    }
}
fn font() -> D<ChartFont> {
    let mut v = vec![];
    add(&mut v, "bold", "bold", |f: &mut ChartFont| {
        f.set_bold();
    });
    add(&mut v, "not bold", "bold", |f: &mut ChartFont| {
        f.unset_bold();
    });
    add(&mut v, "italic", "italic", |f: &mut ChartFont| {
        f.set_italic();
    });
    add(&mut v, "underline", "underline", |f: &mut ChartFont| {
        f.set_underline();
    });
    add(&mut v, "strikethrough", "strikethrough", |f: &mut ChartFont| {
        f.set_strikethrough();
    });
    for (n, c) in [("red", Color::RGB(0xFF0000)), ("theme", Color::Theme(5, 2)), ("automatic", Color::Automatic)] {
        add(&mut v, format!("color {n}"), "color", move |l: &mut ChartFont| {
            l.set_color(c);
        });
    }
    for n in ["Arial", "Cambria & <x>"] {
        add(&mut v, format!("name {n}"), "name", move |l: &mut ChartFont| {
            l.set_name(n);
        });
    }
    for s in [8.0, 10.5, 11.3, 72.0, 8.29] {
        add(&mut v, format!("size {s}"), "size", move |l: &mut ChartFont| {
            l.set_size(s);
        });
    }
    for r in [-91, -90, -45, 0, 1, 90, 91, 270, 271, 360] {
        add(&mut v, format!("rotation {r}"), if (-90..=90).contains(&r) || r == 270 || r == 271 { "rotation" } else { "bad" }, move |l: &mut ChartFont| {
            l.set_rotation(r);
        });
    }
    for b in [true, false] {
        add(&mut v, format!("right to left {b}"), "rtl", move |l: &mut ChartFont| {
            l.set_right_to_left(b);
        });
    }
    for n in [18, 34] {
        add(&mut v, format!("pitch {n}"), "pitch", move |l: &mut ChartFont| {
            l.set_pitch_family(n);
        });
    }
    for n in [2, 178] {
        add(&mut v, format!("charset {n}"), "charset", move |l: &mut ChartFont| {
            l.set_character_set(n);
        });
    }
    v
}
/// A font element written for one setting holds the other settings too.
fn font_rule(s: &St, m: &mut Flat) {
    let put = |m: &mut Flat, end: &str, at: &str, v: &str| {
        let keys: Vec<String> = m.keys().filter(|k| k.ends_with(end)).cloned().collect();
        for k in keys {
            m.insert(format!("{k}@{at}"), v.into());
        }
    };
    // The charset that comes with the pitch family is only a default.
    if let Some(c) = s.force.get("charset") {
        put(m, "/a:latin", "charset", &c[8..]);
    }
    for e in ["a:defRPr", "a:r/a:rPr"] {
        // Where bold has to be turned off for italic, and the other way around.
        if let Some(b) = s.force.get("bold") {
            put(m, e, "b", if *b == "bold" { "1" } else { "0" });
        }
        if s.grp("italic") {
            put(m, e, "i", "1");
        }
    }
}
fn fnt(i: usize) -> ChartFont {
    let mut f = ChartFont::new();
    match i {
        0 => f.set_bold(),
        1 => f.set_italic(),
        2 => f.set_color("#FF0000").set_size(14),
        3 => f.set_name("Arial").set_pitch_family(34).set_character_set(0),
        4 => f.set_rotation(-45),
        5 => f.set_underline().unset_bold(),
        _ => f.set_right_to_left(true).set_bold().set_italic().set_underline().set_size(10.5),
    };
    f
}
const FNTS: [&str; 7] = ["bold", "italic", "color", "name", "rotation", "underline", "many"];

/// The automatic marker has no settings, until there is a size again.
fn marker_rule(s: &St, m: &mut Flat) {
    if s.on("automatic") {
        for t in ["lineChart", "scatterChart", "radarChart"] {
            del(m, &format!("cs/c:chart/c:plotArea/c:{t}/c:ser[3]/c:marker"));
        }
        if s.force.get("size").is_some_and(|x| s.last(x) > s.last("automatic")) {
            s.again("size", m);
            s.again("format", m);
        }
    }
}
fn marker() -> D<ChartMarker> {
    let mut v = vec![];
    add(&mut v, "automatic", "kind", |m: &mut ChartMarker| {
        m.set_automatic();
    });
    add(&mut v, "none", "kind", |m: &mut ChartMarker| {
        m.set_none();
    });
    {
        use ChartMarkerType::*;
        for (i, t) in [Square, Diamond, Triangle, X, Star, ShortDash, LongDash, Circle, PlusSign].into_iter().enumerate() {
            add(&mut v, format!("type {i}"), "kind", move |m: &mut ChartMarker| {
                m.set_type(t);
            });
        }
    }
    for s in [1, 2, 3, 72, 73] {
        add(&mut v, format!("size {s}"), if (2..=72).contains(&s) { "size" } else { "bad" }, move |m: &mut ChartMarker| {
            m.set_size(s);
        });
    }
    for i in [0, 1, 6] {
        add(&mut v, format!("format {}", FMTS[i]), "format", move |m: &mut ChartMarker| {
            m.set_format(&mut fmt(i));
        });
    }
    v
}
/// The value is shown unless only other things are.
fn label_rule(s: &St, m: &mut Flat) {
    if s.grp("value") {
        for k in m.keys().filter(|k| k.ends_with("c:ser[3]/c:dLbls")).cloned().collect::<Vec<_>>() {
            edits(m, &format!("{k}/c:showVal@val=1"));
        }
    }
}
fn label() -> D<ChartDataLabel> {
    use ChartDataLabelPosition::*;
    let mut v = vec![];
    macro_rules! call {
        ($n:expr, $g:expr, $f:ident) => {
            add(&mut v, $n, $g, |m: &mut ChartDataLabel| {
                m.$f();
            });
        };
    }
    call!("value", "value", show_value);
    call!("y value", "value", show_y_value);
    call!("category", "category", show_category_name);
    call!("x value", "category", show_x_value);
    call!("series", "series", show_series_name);
    call!("leader lines", "leader lines", show_leader_lines);
    call!("legend key", "legend key", show_legend_key);
    call!("percentage", "percentage", show_percentage);
    call!("hidden", "hidden", set_hidden);
    for (i, p) in [Default, Center, Right, Left, Above, Below, InsideBase, InsideEnd, OutsideEnd, BestFit].into_iter().enumerate() {
        add(&mut v, format!("position {i}"), "position", move |m: &mut ChartDataLabel| {
            m.set_position(p);
        });
    }
    for i in [0, 1, 6] {
        add(&mut v, format!("format {}", FMTS[i]), "format", move |m: &mut ChartDataLabel| {
            m.set_format(&mut fmt(i));
        });
    }
    for (i, n) in FNTS.iter().enumerate() {
        add(&mut v, format!("font {n}"), "font", move |m: &mut ChartDataLabel| {
            m.set_font(&fnt(i));
        });
    }
    for n in ["0.00", "#,##0 \"x\""] {
        add(&mut v, format!("num format {n}"), "num format", move |m: &mut ChartDataLabel| {
            m.set_num_format(n);
        });
    }
    for (n, c) in [("comma", ','), ("semicolon", ';'), ("period", '.'), ("space", ' '), ("newline", '\n'), ("x", 'x')] {
        add(&mut v, format!("separator {n}"), if n == "x" { "bad" } else { "separator" }, move |m: &mut ChartDataLabel| {
            m.set_separator(c);
        });
    }
    v
}
fn custom() -> D<ChartDataLabel> {
    let mut v = label();
    for (n, x) in [("text", "Text <&>"), ("formula", "=Sheet1!$D$1"), ("formula of two", "Sheet1!$D$1:$D$2")] {
        add(&mut v, format!("value {n}"), "text", move |m: &mut ChartDataLabel| {
            m.set_value(x);
        });
    }
    v
}
/// A hidden label has nothing else; the font of a label with its own text is that of the text.
const CUSTOM: &str = "cs/c:chart/c:plotArea/c:barChart/c:ser[3]/c:dLbls/c:dLbl";
fn custom_rule(s: &St, m: &mut Flat) {
    let at = CUSTOM;
    if s.on("hidden") {
        del(m, at);
        edits(m, &format!("{at}/c:idx@val=1;{at}/c:delete@val=1"));
        return;
    }
    if s.on("value text") && s.grp("font") {
        let moved: Vec<(String, String)> = m.iter().filter(|(k, _)| k.starts_with(&format!("{at}/c:txPr/"))).map(|(k, v)| (k.clone(), v.clone())).collect();
        del(m, &format!("{at}/c:txPr"));
        for (k, v) in moved {
            let k = k.replace("/c:txPr/", "/c:tx/c:rich/").replace("/a:p/a:pPr/a:defRPr", "/a:p/a:r/a:rPr");
            // Only the label has to turn off the default italics.
            if k.contains("/a:endParaRPr") || k.contains("/a:pPr") || (k.ends_with("a:rPr@i") && v == "0") {
                continue;
            }
            m.insert(k, v);
        }
    }
    if s.grp("font") && !s.grp("text") {
        del(m, &format!("{at}/c:layout"));
    }
    if s.grp("font") {
        if s.grp("text") {
            edits(m, &format!("{at}/c:layout"));
        }
        let own = s.on("value text");
        if s.grp("format") {
            // Not empty then.
        } else if own || s.on("font color") {
            del(m, &format!("{at}/c:spPr"));
        }
    }
}
fn trendline_rule(s: &St, m: &mut Flat) {
    let at = "cs/c:chart/c:plotArea/c:barChart/c:ser[3]/c:trendline";
    if s.on("equation false") {
        del(m, &format!("{at}/c:trendlineLbl"));
    }
    if s.on("none") {
        del(m, at);
        del(m, "cs/c:chart/c:legend/c:legendEntry");
    }
}
fn trendline() -> D<ChartTrendline> {
    use ChartTrendlineType::*;
    let mut v = vec![];
    for (n, t) in [
        ("none", None),
        ("exponential", Exponential),
        ("linear", Linear),
        ("logarithmic", Logarithmic),
        ("polynomial 1", Polynomial(1)),
        ("polynomial 2", Polynomial(2)),
        ("polynomial 6", Polynomial(6)),
        ("polynomial 7", Polynomial(7)),
        ("power", Power),
        ("moving 1", MovingAverage(1)),
        ("moving 2", MovingAverage(2)),
        ("moving 4", MovingAverage(4)),
        ("moving 5", MovingAverage(5)),
    ] {
        add(&mut v, n, "type", move |m: &mut ChartTrendline| {
            m.set_type(t);
        });
    }
    for i in [0, 6] {
        add(&mut v, format!("format {}", FMTS[i]), "format", move |m: &mut ChartTrendline| {
            m.set_format(&mut fmt(i));
        });
        add(&mut v, format!("label format {}", FMTS[i]), "label format", move |m: &mut ChartTrendline| {
            m.set_label_format(&mut fmt(i));
        });
    }
    for (i, n) in FNTS.iter().enumerate() {
        add(&mut v, format!("label font {n}"), "label font", move |m: &mut ChartTrendline| {
            m.set_label_font(&fnt(i));
        });
    }
    add(&mut v, "name", "name", |m: &mut ChartTrendline| {
        m.set_name("My <trend> & co");
    });
    for p in [0.0, 0.5, 2.0] {
        add(&mut v, format!("forward {p}"), "forward", move |m: &mut ChartTrendline| {
            m.set_forward_period(p);
        });
        add(&mut v, format!("backward {p}"), "backward", move |m: &mut ChartTrendline| {
            m.set_backward_period(p);
        });
        add(&mut v, format!("intercept {p}"), "intercept", move |m: &mut ChartTrendline| {
            m.set_intercept(p);
        });
    }
    for b in [true, false] {
        add(&mut v, format!("equation {b}"), "equation", move |m: &mut ChartTrendline| {
            m.display_equation(b);
        });
        add(&mut v, format!("r squared {b}"), "r squared", move |m: &mut ChartTrendline| {
            m.display_r_squared(b);
        });
        add(&mut v, format!("delete from legend {b}"), "delete", move |m: &mut ChartTrendline| {
            m.delete_from_legend(b);
        });
    }
    v
}
fn bars() -> D<ChartErrorBars> {
    use ChartErrorBarsType::*;
    let mut v = vec![];
    let r = |c| ChartRange::new_from_range("Sheet1", 0, c, 3, c);
    for (n, t, ok) in [
        ("fixed 0", FixedValue(0.0), false),
        ("fixed 2.5", FixedValue(2.5), true),
        ("percentage 0", Percentage(0.0), true),
        ("percentage 7", Percentage(7.0), true),
        ("percentage -1", Percentage(-1.0), false),
        ("deviation 0", StandardDeviation(0.0), true),
        ("deviation 1.5", StandardDeviation(1.5), true),
        ("deviation -1", StandardDeviation(-1.0), false),
        ("standard error", StandardError, true),
        ("custom", Custom(r(1), r(2)), true),
        ("custom, other way", Custom(r(2), ChartRange::new_from_string("=Sheet1!$B$2:$B$3")), true),
    ] {
        add(&mut v, n, if ok { "type" } else { "bad" }, move |m: &mut ChartErrorBars| {
            m.set_type(t.clone());
        });
    }
    {
        use ChartErrorBarsDirection::*;
        for (n, d) in [("both", Both), ("minus", Minus), ("plus", Plus)] {
            add(&mut v, n, "direction", move |m: &mut ChartErrorBars| {
                m.set_direction(d);
            });
        }
    }
    for b in [true, false] {
        add(&mut v, format!("end cap {b}"), "end cap", move |m: &mut ChartErrorBars| {
            m.set_end_cap(b);
        });
    }
    for i in [0, 6] {
        add(&mut v, format!("format {}", FMTS[i]), "format", move |m: &mut ChartErrorBars| {
            m.set_format(&mut fmt(i));
        });
    }
    v
}
fn layout() -> D<ChartLayout> {
    let mut v = vec![];
    for (x, y) in [(0.0, 0.0), (0.25, 0.75), (1.0, 1.0), (1.1, 0.5), (0.5, -0.1)] {
        let ok = x <= 1.0 && y >= 0.0;
        add(&mut v, format!("offset {x} {y}"), if ok { "offset" } else { "bad" }, move |m: &mut ChartLayout| *m = m.clone().set_offset(x, y));
        add(&mut v, format!("dimensions {x} {y}"), if ok { "dimensions" } else { "bad" }, move |m: &mut ChartLayout| *m = m.clone().set_dimensions(x, y));
    }
    v
}
fn dtable() -> D<ChartDataTable> {
    let mut v = vec![];
    for b in [true, false] {
        add(&mut v, format!("horizontal {b}"), "h", move |m: &mut ChartDataTable| *m = m.clone().show_horizontal_borders(b));
        add(&mut v, format!("vertical {b}"), "v", move |m: &mut ChartDataTable| *m = m.clone().show_vertical_borders(b));
        add(&mut v, format!("outline {b}"), "o", move |m: &mut ChartDataTable| *m = m.clone().show_outline_borders(b));
        add(&mut v, format!("legend keys {b}"), "k", move |m: &mut ChartDataTable| *m = m.clone().show_legend_keys(b));
    }
    for i in [0, 6] {
        add(&mut v, format!("format {}", FMTS[i]), "format", move |m: &mut ChartDataTable| *m = m.clone().set_format(&mut fmt(i)));
    }
    for (i, n) in FNTS.iter().enumerate() {
        add(&mut v, format!("font {n}"), "font", move |m: &mut ChartDataTable| *m = m.clone().set_font(&fnt(i)));
    }
    v
}
fn lay(i: usize) -> ChartLayout {
    match i {
        0 => ChartLayout::new().set_offset(0.1, 0.2),
        1 => ChartLayout::new().set_offset(0.3, 0.4).set_dimensions(0.5, 0.6),
        _ => ChartLayout::new().set_dimensions(0.5, 0.6),
    }
}
fn legend_rule(s: &St, m: &mut Flat) {
    if s.on("hidden") {
        del(m, "cs/c:chart/c:legend");
    }
}
fn legend() -> D<Chart> {
    use ChartLegendPosition::*;
    let mut v = vec![];
    add(&mut v, "hidden", "hidden", |c: &mut Chart| {
        c.legend().set_hidden();
    });
    for (n, p) in [("right", Right), ("left", Left), ("top", Top), ("bottom", Bottom), ("top right", TopRight)] {
        add(&mut v, n, "position", move |c: &mut Chart| {
            c.legend().set_position(p);
        });
    }
    for b in [true, false] {
        add(&mut v, format!("overlay {b}"), "overlay", move |c: &mut Chart| {
            c.legend().set_overlay(b);
        });
    }
    for i in 0..2 {
        add(&mut v, format!("layout {i}"), "layout", move |c: &mut Chart| {
            c.legend().set_layout(&lay(i));
        });
    }
    for (i, n) in FMTS.iter().enumerate() {
        add(&mut v, format!("format {n}"), "format", move |c: &mut Chart| {
            c.legend().set_format(&mut fmt(i));
        });
    }
    for (i, n) in FNTS.iter().enumerate() {
        add(&mut v, format!("font {n}"), "font", move |c: &mut Chart| {
            c.legend().set_font(&fnt(i));
        });
    }
    for d in [vec![0], vec![1], vec![0, 1], vec![]] {
        add(&mut v, format!("delete {d:?}"), "delete", move |c: &mut Chart| {
            c.legend().delete_entries(&d);
        });
    }
    v
}
/// The font of a title from a cell goes to its text properties.
fn moved_font(at: &str, m: &mut Flat) {
    let moved: Vec<(String, String)> = m.iter().filter(|(k, _)| k.starts_with(&format!("{at}/c:tx/c:rich/"))).map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, v) in moved {
        if !k.contains("/a:r/") && !k.ends_with("/a:r") {
            m.insert(k.replace("/c:tx/c:rich/", "/c:txPr/"), v);
        }
    }
    del(m, &format!("{at}/c:tx/c:rich"));
}
fn axis_rule(s: &St, m: &mut Flat) {
    let Some(at) = m.keys().find_map(|k| k.strip_suffix("/c:title").filter(|x| x.contains("plotArea")).map(String::from)) else { return };
    if s.on("name formula") {
        s.again("name font", m);
        moved_font(&format!("{at}/c:title"), m);
    }
    // A line turns the gridlines on.
    for x in ["major", "minor"] {
        let (shown, line) = (format!("{x} gridlines"), format!("{x} line"));
        if s.on(&format!("{shown} false")) {
            if s.last(&format!("{shown} line")) > s.last(&format!("{shown} false")) {
                s.again(&line, m);
            } else {
                del(m, &format!("{at}/c:{x}Gridlines"));
            }
        }
    }
    // Setting the units shows them.
    if s.on("display units visible false") && s.force.get("display units").and_then(|x| s.last(x)) < s.last("display units visible false") {
        del(m, &format!("{at}/c:dispUnits/c:dispUnitsLbl"));
    }
    // The other axis is on the other side of a reversed axis.
    if s.on("reverse") {
        for x in s.wants.get("crossing").map(|x| x.split(';')).into_iter().flatten() {
            for (a, b) in [("@val=l", "@val=r"), ("@val=b", "@val=t")] {
                if x.ends_with(&format!("axPos{a}")) {
                    edits(m, &x.replace(a, b));
                }
            }
        }
    }
}
/// A title from a cell has its font as text properties; a title without text is only there for its format.
fn title_rule(s: &St, m: &mut Flat, named: bool) {
    let at = "cs/c:chart/c:title";
    let formula = s.on("name formula") || s.on("name tuple");
    let text = s.on("name text") || s.on("name other text") || (!s.grp("name") && named);
    if formula {
        if s.grp("font") || !s.grp("format") {
            s.again("font", m);
            moved_font(at, m);
        } else {
            del(m, &format!("{at}/c:txPr"));
        }
        del(m, &format!("{at}/c:tx/c:rich"));
    } else if !text {
        for x in ["tx", "txPr"] {
            del(m, &format!("{at}/c:{x}"));
        }
        if !s.grp("format") {
            del(m, at);
        } else {
            edits(m, &format!("{at}/c:layout"));
            for g in ["overlay", "layout", "format"] {
                s.again(g, m);
            }
        }
    }
    if s.grp("hidden") {
        del(m, at);
    }
}
fn title_of(get: fn(&mut Chart) -> &mut ChartTitle) -> D<Chart> {
    let mut v = vec![];
    for (n, x) in [("text", "A <title> & co"), ("formula", "=Sheet1!$D$1"), ("other text", "B"), ("empty", "")] {
        add(&mut v, format!("name {n}"), "name", move |c: &mut Chart| {
            get(c).set_name(x);
        });
    }
    add(&mut v, "name tuple", "name", move |c: &mut Chart| {
        get(c).set_name(("Sheet1", 1, 3));
    });
    add(&mut v, "hidden", "hidden", move |c: &mut Chart| {
        get(c).set_hidden();
    });
    for b in [true, false] {
        add(&mut v, format!("overlay {b}"), "overlay", move |c: &mut Chart| {
            get(c).set_overlay(b);
        });
    }
    add(&mut v, "layout", "layout", move |c: &mut Chart| {
        get(c).set_layout(&lay(0));
    });
    for (i, n) in FMTS.iter().enumerate() {
        add(&mut v, format!("format {n}"), "format", move |c: &mut Chart| {
            get(c).set_format(&mut fmt(i));
        });
    }
    for (i, n) in FNTS.iter().enumerate() {
        add(&mut v, format!("font {n}"), "font", move |c: &mut Chart| {
            get(c).set_font(&fnt(i));
        });
    }
    v
}
fn axis(get: fn(&mut Chart) -> &mut ChartAxis) -> D<Chart> {
    let mut v: D<Chart> = vec![];
    macro_rules! call {
        ($n:expr, $g:expr, $($f:tt)*) => {
            add(&mut v, $n, $g, move |c: &mut Chart| {
                get(c).$($f)*;
            })
        };
    }
    for (n, x) in [("text", "An <axis> & co"), ("formula", "=Sheet1!$D$1")] {
        call!(format!("name {n}"), "name", set_name(x));
    }
    for i in [0, 1, 4] {
        call!(format!("name font {}", FNTS[i]), "name font", set_name_font(&fnt(i)));
    }
    for i in [0, 1, 5] {
        call!(format!("format {}", FMTS[i]), "format", set_format(&mut fmt(i)));
    }
    for (i, n) in FNTS.iter().enumerate() {
        call!(format!("font {n}"), "font", set_font(&fnt(i)));
    }
    for n in ["0.00%", "dd/mm/yyyy"] {
        call!(format!("num format {n}"), "num format", set_num_format(n));
    }
    for b in [true, false] {
        call!(format!("text axis {b}"), "auto", set_text_axis(b));
        call!(format!("automatic axis {b}"), "auto", set_automatic_axis(b));
    }
    {
        use ChartAxisCrossing::*;
        for (n, x) in [("automatic", Automatic), ("min", Min), ("max", Max), ("category", CategoryNumber(3)), ("value", AxisValue(1.5))] {
            call!(format!("crossing {n}"), "crossing", set_crossing(x));
        }
    }
    call!("reverse", "reverse", set_reverse());
    for x in [0.0, -2.5, 100.0] {
        call!(format!("max {x}"), "max", set_max(x));
        call!(format!("min {x}"), "min", set_min(x));
    }
    call!("max date", "max", set_max_date(&ExcelDateTime::from_ymd(2025, 12, 31).unwrap()));
    call!("min date", "min", set_min_date(&ExcelDateTime::from_ymd(2025, 1, 1).unwrap()));
    for x in [0.5, 10.0, -1.0] {
        call!(format!("major unit {x}"), if x > 0.0 { "major unit" } else { "bad" }, set_major_unit(x));
        call!(format!("minor unit {x}"), if x > 0.0 { "minor unit" } else { "bad" }, set_minor_unit(x));
    }
    {
        use ChartAxisDisplayUnitType::*;
        for (i, x) in [None, Hundreds, Thousands, TenThousands, HundredThousands, Millions, TenMillions, HundredMillions, Billions, Trillions].into_iter().enumerate() {
            call!(format!("display units {i}"), "display units", set_display_unit_type(x));
        }
        for b in [true, false] {
            call!(format!("display units visible {b}"), "display units visible", set_display_units_visible(b));
        }
    }
    {
        use ChartAxisDateUnitType::*;
        for (n, x) in [("days", Days), ("months", Months), ("years", Years)] {
            call!(format!("major date {n}"), "major date", set_major_unit_date_type(x));
            call!(format!("minor date {n}"), "minor date", set_minor_unit_date_type(x));
        }
    }
    {
        use ChartAxisLabelAlignment::*;
        for (n, x) in [("center", Center), ("left", Left), ("right", Right)] {
            call!(format!("alignment {n}"), "alignment", set_label_alignment(x));
        }
    }
    for b in [true, false] {
        call!(format!("major gridlines {b}"), "major gridlines", set_major_gridlines(b));
        call!(format!("minor gridlines {b}"), "minor gridlines", set_minor_gridlines(b));
        call!(format!("between ticks {b}"), "between ticks", set_position_between_ticks(b));
        call!(format!("hidden {b}"), "hidden", set_hidden(b));
    }
    call!("major gridlines line", "major line", set_major_gridlines_line(ChartLine::new().set_color("#FF0000")));
    call!("minor gridlines line", "minor line", set_minor_gridlines_line(ChartLine::new().set_width(2)));
    {
        use ChartAxisLabelPosition::*;
        for (n, x) in [("next to", NextTo), ("high", High), ("low", Low), ("none", None)] {
            call!(format!("labels {n}"), "labels", set_label_position(x));
        }
    }
    for i in [1, 2, 65535] {
        call!(format!("label interval {i}"), "label interval", set_label_interval(i));
        call!(format!("tick interval {i}"), "tick interval", set_tick_interval(i));
    }
    {
        use ChartAxisTickType::*;
        for (n, x) in [("none", None), ("inside", Inside), ("outside", Outside), ("cross", Cross)] {
            call!(format!("major tick {n}"), "major tick", set_major_tick_type(x));
            call!(format!("minor tick {n}"), "minor tick", set_minor_tick_type(x));
        }
    }
    for b in [0, 1, 2, 10, 1000] {
        call!(format!("log base {b}"), if b > 1 { "log" } else { "bad" }, set_log_base(b));
    }
    call!("label layout", "label layout", set_label_layout(&lay(0)));
    v
}
fn series() -> D<ChartSeries> {
    let mut v: D<ChartSeries> = vec![];
    macro_rules! call {
        ($n:expr, $g:expr, $($f:tt)*) => {
            add(&mut v, $n, $g, move |c: &mut ChartSeries| {
                c.$($f)*;
            })
        };
    }
    call!("values tuple", "values", set_values(("Sheet1", 1, 2, 2, 2)));
    call!("values string", "values", set_values("=Sheet1!$B$1:$C$1"));
    call!("values range", "values", set_values(&ChartRange::new_from_range("Sheet1", 3, 1, 3, 1)));
    call!("categories string", "categories", set_categories("Sheet1!B1:B4"));
    call!("categories range", "categories", set_categories(&ChartRange::new_from_string("'Sheet1'!$A$2:$A$3")));
    for (n, x) in [("text", "A <series> & co"), ("formula", "=Sheet1!$D$1")] {
        call!(format!("name {n}"), "name", set_name(x));
    }
    for i in 0..FMTS.len() {
        call!(format!("format {}", FMTS[i]), "format", set_format(&mut fmt(i)));
    }
    call!("marker", "marker", set_marker(ChartMarker::new().set_type(ChartMarkerType::Star).set_size(9)));
    call!("no marker", "marker", set_marker(ChartMarker::new().set_none()));
    call!("automatic marker", "marker", set_marker(ChartMarker::new().set_automatic()));
    call!("label", "label", set_data_label(ChartDataLabel::new().show_value()));
    call!("label with lines", "label", set_data_label(ChartDataLabel::new().show_category_name().show_leader_lines()));
    call!("custom labels", "custom", set_custom_data_labels(&[ChartDataLabel::new().set_value("L").to_custom(), ChartDataLabel::new().to_custom(), ChartDataLabel::new().set_hidden().to_custom()]));
    call!("many custom labels", "custom", set_custom_data_labels(&vec![ChartDataLabel::new().set_hidden().to_custom(); 9]));
    call!("points", "points", set_points(&[ChartPoint::new(), ChartPoint::new().set_format(&mut fmt(1)), ChartPoint::new().set_format(&mut fmt(0))]));
    call!("many points", "points", set_points(&vec![ChartPoint::new().set_format(&mut fmt(5)); 9]));
    call!("point colors", "points", set_point_colors(&["#111111", "#222222"]));
    call!("trendline", "trendline", set_trendline(ChartTrendline::new().set_type(ChartTrendlineType::Linear).set_name("T")));
    call!("no trendline", "trendline", set_trendline(&ChartTrendline::new()));
    call!("deleted trendline", "trendline", set_trendline(ChartTrendline::new().set_type(ChartTrendlineType::Power).delete_from_legend(true)));
    call!("y bars", "y bars", set_y_error_bars(ChartErrorBars::new().set_type(ChartErrorBarsType::FixedValue(2.0))));
    call!("x bars", "x bars", set_x_error_bars(ChartErrorBars::new().set_direction(ChartErrorBarsDirection::Minus)));
    for x in [-101, -100, 0, 35, 100] {
        call!(format!("overlap {x}"), if x >= -100 { "overlap" } else { "bad" }, set_overlap(x));
    }
    for x in [0, 150, 500, 501] {
        call!(format!("gap {x}"), if x <= 500 { "gap" } else { "bad" }, set_gap(x));
    }
    for b in [true, false] {
        call!(format!("smooth {b}"), "smooth", set_smooth(b));
        call!(format!("delete {b}"), "delete", delete_from_legend(b));
    }
    call!("invert", "invert", set_invert_if_negative());
    call!("invert color", "invert color", set_invert_if_negative_color("#FF8800"));
    v
}
/// Points and labels exist for the points of the series only; the legend entries that are deleted are all listed.
fn series_rule(s: &St, m: &mut Flat) {
    let Some(p) = m.keys().find(|k| k.ends_with("/c:ser")).cloned() else { return };
    let n = match s.force.get("values") {
        Some(&"values range") => 1,
        Some(_) => 2,
        None => 4,
    };
    for what in ["/c:dPt", "/c:dLbls/c:dLbl"] {
        for i in 1..12 {
            let q = if i == 1 { format!("{p}{what}") } else { format!("{p}{what}[{i}]") };
            if m.get(&format!("{q}/c:idx@val")).is_some_and(|x| x.parse::<usize>().unwrap() >= n) {
                del(m, &q);
            }
        }
    }
    // Labels of another kind were asked for.
    if s.grp("custom") && s.on("label with lines") {
        del(m, &format!("{p}/c:dLbls/c:showVal"));
    }
    // X bars come before y bars where there are both.
    if p.contains("scatter") && s.grp("y bars") && s.grp("x bars") {
        let q = format!("{p}/c:errBars");
        del(m, &q);
        s.again("y bars", m);
        let y: Vec<(String, String)> = m.iter().filter(|(k, _)| k.starts_with(&q)).map(|(k, v)| (k.clone(), v.clone())).collect();
        del(m, &q);
        s.again("x bars", m);
        for (k, v) in y {
            m.insert(k.replacen("/c:errBars", "/c:errBars[2]", 1), v);
        }
    }
    if s.on("delete true") && s.on("deleted trendline") && m.contains_key(&format!("{p}/c:trendline")) {
        let l = "cs/c:chart/c:legend/c:legendEntry";
        edits(m, &format!("{l}/c:idx@val=0;{l}/c:delete@val=1;{l}[2]/c:idx@val=2;{l}[2]/c:delete@val=1"));
    }
}
fn whole() -> D<Chart> {
    let mut v: D<Chart> = vec![];
    macro_rules! call {
        ($n:expr, $g:expr, $($f:tt)*) => {
            add(&mut v, $n, $g, move |c: &mut Chart| {
                c.$($f)*;
            })
        };
    }
    for s in [0, 1, 2, 48, 49] {
        call!(format!("style {s}"), if (1..=48).contains(&s) { "style" } else { "bad" }, set_style(s));
    }
    for s in [0, 1, 360, 361] {
        call!(format!("rotation {s}"), if s <= 360 { "rotation" } else { "bad" }, set_rotation(s));
    }
    for s in [0, 10, 90, 91] {
        call!(format!("hole {s}"), if s <= 90 { "hole" } else { "bad" }, set_hole_size(s));
    }
    for b in [true, false] {
        call!(format!("up down bars {b}"), "up down bars", set_up_down_bars(b));
        call!(format!("high low lines {b}"), "high low lines", set_high_low_lines(b));
        call!(format!("drop lines {b}"), "drop lines", set_drop_lines(b));
    }
    call!("up bar format", "up bar format", set_up_bar_format(&mut fmt(1)));
    call!("down bar format", "down bar format", set_down_bar_format(&mut fmt(0)));
    call!("high low lines format", "high low format", set_high_low_lines_format(&mut fmt(0)));
    call!("drop lines format", "drop format", set_drop_lines_format(&mut fmt(0)));
    call!("data table", "data table", set_data_table(&ChartDataTable::new()));
    {
        use ChartEmptyCells::*;
        for (n, x) in [("gaps", Gaps), ("zero", Zero), ("connected", Connected)] {
            call!(format!("empty {n}"), "empty", show_empty_cells_as(x));
        }
    }
    call!("na as empty", "na", show_na_as_empty_cell());
    call!("hidden data", "hidden data", show_hidden_data());
    call!("title", "title", title().set_name("Title"));
    call!("no title", "hide title", title().set_hidden());
    call!("no legend", "legend", legend().set_hidden());
    call!("area", "area", chart_area().set_format(&mut fmt(1)));
    call!("plot", "plot", plot_area().set_format(&mut fmt(0)));
    call!("layout", "layout", plot_area().set_layout(&lay(1)));
    call!("x name", "x name", x_axis().set_name("X"));
    call!("y name", "y name", y_axis().set_name("Y"));
    v
}
/// A hidden title isn't written; lines and bars that were switched off aren't, whatever their format.
fn whole_rule(s: &St, m: &mut Flat) {
    if s.on("no title") {
        del(m, "cs/c:chart/c:title");
        s.again("hide title", m);
    }
    for (flag, formats, el) in [
        ("up down bars", &["up bar format", "down bar format"][..], "c:upDownBars"),
        ("high low lines", &["high low lines format"], "c:hiLowLines"),
        ("drop lines", &["drop lines format"], "c:dropLines"),
    ] {
        let off = s.last(&format!("{flag} false"));
        if off.is_some() && off > s.last(&format!("{flag} true")) && formats.iter().all(|x| off > s.last(x)) {
            let dead: Vec<String> = m.keys().filter(|k| k.ends_with(&format!("/{el}"))).cloned().collect();
            for k in dead {
                del(m, &k);
            }
        }
    }
}
/// Observe a series made by a sequence of settings, added to a chart in both ways.
fn series_in(ty: &'static str) -> impl Fn(&[&Opt<ChartSeries>]) -> Result<Flat, String> + Sync {
    move |s| {
        fn start(x: &mut ChartSeries) -> &mut ChartSeries {
            x.set_categories(("Sheet1", 0, 0, 3, 0)).set_values(("Sheet1", 0, 1, 3, 1)).set_name("One")
        }
        fn second(c: &mut Chart) {
            c.add_series().set_categories(("Sheet1", 0, 0, 3, 0)).set_values(("Sheet1", 0, 2, 3, 2)).set_name(("Sheet1", 0, 3));
        }
        let mut c = Chart::new(kind(ty));
        let x = start(c.add_series());
        for o in s {
            (o.apply)(x)?;
        }
        second(&mut c);
        let a = facts_of(&c)?;
        let mut c = Chart::new(kind(ty));
        let mut x = ChartSeries::new();
        start(&mut x);
        for o in s {
            (o.apply)(&mut x)?;
        }
        c.push_series(&x);
        second(&mut c);
        let b = facts_of(&c)?;
        crate::opt::compare(&a, &b).map_err(|m| format!("push_series() differs from add_series(): {m}"))?;
        Ok(a)
    }
}
fn secondary(ty: &str) -> Chart {
    let mut c = Chart::new(kind(ty));
    c.add_series().set_categories(("Sheet1", 0, 0, 3, 0)).set_values(("Sheet1", 0, 1, 3, 1));
    c.add_series().set_categories(("Sheet1", 0, 0, 3, 0)).set_values(("Sheet1", 0, 2, 3, 2)).set_secondary_axis(true);
    c
}
fn named(mut c: Chart, get: fn(&mut Chart) -> &mut ChartAxis) -> Chart {
    get(&mut c).set_name("First");
    c
}
fn dated(ty: &str) -> Chart {
    let mut c = chart(ty);
    c.x_axis().set_date_axis(true);
    c
}
/// Observe a chart with settings made on it.
fn on(make: impl Fn() -> Chart + Sync) -> impl Fn(&[&Opt<Chart>]) -> Result<Flat, String> + Sync {
    move |s| {
        let mut c = make();
        for o in s {
            (o.apply)(&mut c)?;
        }
        facts_of(&c)
    }
}
pub fn run(run: &mut Run) {
    if dumping() {
        if std::env::var_os("RXMC_TYPES").is_some() {
            for (n, _) in TYPES {
                let f = facts_of(&chart(n)).unwrap();
                println!("type|{n} => {}", shrink(&f.iter().map(|(k, v)| if v.is_empty() { k.clone() } else { format!("{k}={v}") }).collect::<Vec<_>>().join(";")));
            }
            return;
        }
    }
    fn go<T, O: Fn(&[&Opt<T>]) -> Result<Flat, String> + Sync>(run: &mut Run, d: Dom<T>, q: u32, t: u32, o: O) {
        if dumping() {
            return dump_dom(&d, &o);
        }
        let depth = run.pick(q as u64, t as u64) as u32;
        crate::opt::explore(run, &d, depth, o);
    }
    let area = |c: &mut Chart, f: &ChartFormat| {
        c.chart_area().set_format(&mut f.clone());
    };
    go(run, dom("line", "Column", line(), line_rule), 2, 3, via("Column", ChartLine::new, move |c, l| area(c, ChartFormat::new().set_line(l))));
    go(run, dom("solid", "Column", solid(), solid_rule), 3, 4, via("Column", ChartSolidFill::new, move |c, l| area(c, ChartFormat::new().set_solid_fill(l))));
    go(run, dom("themes", "Column", themes(), none), 1, 2, via("Column", ChartSolidFill::new, move |c, l| area(c, ChartFormat::new().set_solid_fill(l))));
    go(run, dom("pattern", "Column", pattern(), pattern_rule), 2, 2, via("Column", ChartPatternFill::new, move |c, l| area(c, ChartFormat::new().set_pattern_fill(l))));
    go(run, dom("gradient", "Column", gradient(), gradient_rule), 3, 4, via("Column", ChartGradientFill::new, move |c, l| area(c, ChartFormat::new().set_gradient_fill(l))));
    go(run, dom("format", "Column", format(), format_rule), 3, 5, via("Column", ChartFormat::new, area));
    // Fonts, at four kinds of place.
    go(run, dom("title font", "Column", font(), font_rule), 2, 3, via("Column", ChartFont::new, |c, f| {
        c.title().set_name("Title").set_font(f);
    }));
    go(run, dom("formula title font", "Column", font(), font_rule), 2, 3, via("Column", ChartFont::new, |c, f| {
        c.title().set_name("=Sheet1!$D$1").set_font(f);
    }));
    go(run, dom("axis font", "Column", font(), font_rule), 2, 3, via("Column", ChartFont::new, |c, f| {
        c.x_axis().set_font(f);
    }));
    go(run, dom("axis name font", "Column", font(), font_rule), 2, 3, via("Column", ChartFont::new, |c, f| {
        c.y_axis().set_name("Y").set_name_font(f);
    }));
    go(run, dom("legend font", "Pie", font(), font_rule), 2, 3, via("Pie", ChartFont::new, |c, f| {
        c.legend().set_font(f);
    }));
    go(run, dom("label font", "Line", font(), font_rule), 2, 3, via("Line", ChartFont::new, |c, f| {
        c.add_series().set_values("Sheet1!B1:B4").set_data_label(ChartDataLabel::new().show_value().set_font(f));
    }));
    go(run, dom("custom label font", "Line", font(), font_rule), 2, 3, via("Line", ChartFont::new, |c, f| {
        c.add_series().set_values("Sheet1!B1:B4").set_custom_data_labels(&[ChartDataLabel::new().set_font(f).to_custom(), ChartDataLabel::new().set_value("Text").set_font(f).to_custom()]);
    }));
    for ty in ["Line", "ScatterStraightWithMarkers", "Radar"] {
        go(run, dom(leak(format!("marker {ty}")), ty, marker(), marker_rule), 3, 4, via(ty, ChartMarker::new, |c, m| {
            c.add_series().set_categories("Sheet1!A1:A4").set_values("Sheet1!B1:B4").set_marker(m);
        }));
    }
    for ty in ["Column", "Pie", "Line"] {
        go(run, dom(leak(format!("label {ty}")), ty, label(), label_rule), 2, 3, via(ty, ChartDataLabel::new, |c, m| {
            c.add_series().set_categories("Sheet1!A1:A4").set_values("Sheet1!B1:B4").set_data_label(m);
        }));
    }
    let labels = via("Column", ChartDataLabel::new, |c, m: &ChartDataLabel| {
        c.add_series().set_values("Sheet1!B1:B4").set_custom_data_labels(&[ChartDataLabel::new().to_custom(), m.clone().to_custom()]);
    });
    go(run, dom("custom label", "Column", custom(), custom_rule), 2, 3, move |s: &[&Opt<ChartDataLabel>]| {
        let mut m = labels(s)?;
        // The only run of the text has all properties itself; the defaults of the paragraph say nothing.
        del(&mut m, &format!("{CUSTOM}/c:tx/c:rich/a:p/a:pPr"));
        Ok(m)
    });
    go(run, dom("trendline", "Column", trendline(), trendline_rule), 2, 3, via("Column", || ChartTrendline::new().set_type(ChartTrendlineType::Linear).display_equation(true).clone(), |c, m| {
        c.add_series().set_values("Sheet1!B1:B4").set_trendline(m);
    }));
    for ty in ["Column", "Bar", "ScatterSmooth", "Line"] {
        go(run, dom(leak(format!("bars {ty}")), ty, bars(), none), 2, 3, via(ty, ChartErrorBars::new, |c, m| {
            c.add_series().set_categories("Sheet1!A1:A4").set_values("Sheet1!B1:B4").set_y_error_bars(m).set_x_error_bars(m);
        }));
    }
    go(run, dom("plot layout", "Column", layout(), none), 3, 5, via("Column", ChartLayout::new, |c, l| {
        c.plot_area().set_layout(l);
    }));
    go(run, dom("legend layout", "Column", layout(), none), 3, 5, via("Column", ChartLayout::new, |c, l| {
        c.legend().set_layout(l);
    }));
    go(run, dom("title layout", "Column", layout(), none), 3, 5, via("Column", ChartLayout::new, |c, l| {
        c.title().set_name("Title").set_layout(l);
    }));
    go(run, dom("data table", "Column", dtable(), none), 3, 4, via("Column", ChartDataTable::new, |c, t| {
        c.set_data_table(t);
    }));
    for ty in ["Column", "Pie"] {
        go(run, dom(leak(format!("legend {ty}")), ty, legend(), legend_rule), 2, 3, on(move || chart(ty)));
    }
    go(run, dom("title", "Column", title_of(|c| c.title()), |s, m| title_rule(s, m, true)), 2, 3, on(|| {
        let mut c = chart("Column");
        c.title().set_name("First");
        c
    }));
    let mut d = dom("title", "Column", title_of(|c| c.title()), |s, m| title_rule(s, m, false));
    d.name = "no title".into();
    go(run, d, 2, 3, on(|| chart("Column")));
    fn x(c: &mut Chart) -> &mut ChartAxis {
        c.x_axis()
    }
    fn y(c: &mut Chart) -> &mut ChartAxis {
        c.y_axis()
    }
    fn x2(c: &mut Chart) -> &mut ChartAxis {
        c.x2_axis()
    }
    fn y2(c: &mut Chart) -> &mut ChartAxis {
        c.y2_axis()
    }
    for (n, ty, get) in [
        ("Column x", "Column", x as fn(&mut Chart) -> &mut ChartAxis),
        ("Column y", "Column", y),
        ("Bar x", "Bar", x),
        ("Bar y", "Bar", y),
        ("Scatter x", "ScatterStraight", x),
        ("Scatter y", "ScatterStraight", y),
        ("Radar x", "RadarFilled", x),
        ("Area y", "AreaPercentStacked", y),
        ("Stock x", "Stock", x),
    ] {
        go(run, dom(leak(format!("axis {n}")), ty, axis(get), axis_rule), 2, 2, on(move || named(chart(ty), get)));
    }
    go(run, dom("axis dated x", "Line", axis(x), axis_rule), 2, 2, on(|| named(dated("Line"), x)));
    for (n, ty, get) in [("Column x2", "Column", x2 as fn(&mut Chart) -> &mut ChartAxis), ("Column y2", "Column", y2), ("Scatter x2", "ScatterStraight", x2), ("Scatter y2", "ScatterStraight", y2)] {
        go(run, dom(leak(format!("axis {n}")), ty, axis(get), axis_rule), 2, 2, on(move || named(secondary(ty), get)));
    }
    for ty in ["Column", "BarStacked", "Line", "Scatter", "ScatterSmoothWithMarkers", "Area", "Pie", "Radar", "Stock"] {
        go(run, dom(leak(format!("series {ty}")), ty, series(), series_rule), 2, 2, series_in(ty));
    }
    structures(run);
    ranges(run);
    caches(run);
    for (ty, _) in TYPES {
        go(run, dom(leak(format!("chart {ty}")), ty, whole(), whole_rule), 1, 2, on(move || chart(ty)));
    }
}
/// The element of the group of a chart type.
fn group(ty: &str) -> &'static str {
    for (a, b) in [("Area", "c:areaChart"), ("Bar", "c:barChart"), ("Column", "c:barChart"), ("Doughnut", "c:doughnutChart"), ("Line", "c:lineChart"), ("Pie", "c:pieChart"), ("Radar", "c:radarChart"), ("Scatter", "c:scatterChart"), ("Stock", "c:stockChart")] {
        if ty.starts_with(a) {
            return b;
        }
    }
    unreachable!()
}
/// The groups of series of a chart and the axes they refer to: (element, the values of its series in order).
fn groups(root: &crate::xml::El) -> Result<Vec<(String, Vec<String>)>, String> {
    let plot = root.path("c:chart/c:plotArea").ok_or("no plot area")?;
    let mut all = vec![];
    let mut axes: BTreeMap<&str, &str> = BTreeMap::new();
    let mut used = vec![];
    let mut idx = vec![];
    let val = |e: &crate::xml::El, n: &str| -> Result<String, String> { Ok(e.first(n).and_then(|x| x.a("val")).ok_or(format!("no {n} in {}", e.name))?.to_string()) };
    for g in plot.els() {
        if g.name.ends_with("Chart") {
            let mut s = vec![];
            for x in g.named("c:ser") {
                let i: usize = val(x, "c:idx")?.parse().map_err(|_| "idx")?;
                eq("c:order", i.to_string(), val(x, "c:order")?)?;
                idx.push(i);
                let v = x.first("c:val").or(x.first("c:yVal")).ok_or("no values")?;
                s.push(v.path("c:numRef/c:f").ok_or("no values formula")?.text());
            }
            let ids: Vec<&str> = g.named("c:axId").filter_map(|x| x.a("val")).collect();
            let n = if ["c:pieChart", "c:doughnutChart"].contains(&g.name.as_str()) { 0 } else { 2 };
            eq("number of axes of a group", n, ids.len())?;
            used.push(ids);
            all.push((g.name.clone(), s));
        } else if g.name.ends_with("Ax") {
            let a = g.first("c:axId").and_then(|x| x.a("val")).ok_or("axis without an id")?;
            let b = g.first("c:crossAx").and_then(|x| x.a("val")).ok_or("axis without a crossing axis")?;
            if axes.insert(a, b).is_some() {
                return Err(format!("two axes with the id {a}"));
            }
        }
    }
    for (a, b) in &axes {
        if axes.get(b) != Some(a) || a == b {
            return Err(format!("axis {a} crosses {b}, which crosses {:?}", axes.get(b)));
        }
    }
    for ids in &used {
        if ids.len() == 2 && axes.get(ids[0]) != Some(&ids[1]) {
            return Err(format!("a group has the axes {ids:?}, which don't cross: {axes:?}"));
        }
    }
    idx.sort();
    eq("series indices", (0..idx.len()).collect::<Vec<_>>(), idx)?;
    Ok(all)
}
/// Charts of up to `n` series on the primary and secondary axes, combined with another chart.
fn structures(run: &mut Run) {
    const WITH: [Option<&str>; 9] = [None, Some("Area"), Some("Bar"), Some("Column"), Some("Line"), Some("ScatterStraight"), Some("RadarFilled"), Some("Stock"), Some("ColumnStacked")];
    let most = run.pick(2, 4) as usize;
    // The masks of 0 to `most` series.
    let masks: Vec<Vec<bool>> = (0..=most).flat_map(|n| (0..1usize << n).map(move |m| (0..n).map(|i| m >> i & 1 == 1).collect())).collect();
    let k = masks.len() as u64;
    run.explore("series on two axes and combined charts", 23 * WITH.len() as u64 * k * k, |i, rec| {
        let mut dig = Dig(i);
        let (ty, _) = TYPES[dig.take(23)];
        let with = *dig.of(&WITH);
        let (a, b) = (dig.of(&masks), dig.of(&masks));
        let flat = |t: &str| t == "Pie" || t == "Doughnut";
        if (with.is_none() && !b.is_empty()) || (flat(ty) && (with.is_some() || a.contains(&true))) || (a.is_empty() && b.is_empty()) {
            return Ok(());
        }
        rec.describe(|| format!("{ty} {a:?} with {with:?} {b:?}"));
        rec.state(&(ty, with, a, b));
        let mut row = 0;
        let mut want: Vec<(String, Vec<String>)> = vec![];
        let mut make = |ty: &str, mask: &[bool]| {
            let mut c = Chart::new(kind(ty));
            let mut g = [vec![], vec![]];
            for sec in mask {
                row += 1;
                c.add_series().set_categories(("Sheet1", 0, 0, 3, 0)).set_values(("Sheet1", 0, 1, row, 2)).set_secondary_axis(*sec);
                g[usize::from(*sec)].push(format!("Sheet1!$B$1:$C${}", row + 1));
            }
            for x in g {
                if !x.is_empty() {
                    want.push((group(ty).to_string(), x));
                }
            }
            c
        };
        let mut c = make(ty, a);
        if let Some(t) = with {
            let d = make(t, b);
            c.combine(&d);
        }
        rec.steps(a.len() + b.len() + 1);
        let mut wb = Workbook::new();
        let ws = wb.add_worksheet();
        data(ws)?;
        if ws.insert_chart(0, 5, &c).is_err() {
            rec.count("refused", 1);
            return Ok(());
        }
        let p = closed(&mut wb)?;
        rec.trace();
        let g = groups(p.x("xl/charts/chart1.xml")?)?;
        rec.seen(&g);
        eq("series groups", want, g)
    });
}
type Rc = (u32, u16, u32, u16);
const PLACES: [&str; 13] = ["values", "categories", "series name", "title", "x axis name", "y2 axis name", "label value", "error bars", "combined values", "combined name", "combined y2 axis name", "combined error bars", "chartsheet values"];
/// Ranges given in every form at every place that takes one.
fn ranges(run: &mut Run) {
    const SHEETS: [&str; 10] = ["Sheet1", "My Sheet", "It's", "2024", "A1", "R1C1", "\u{c4}rger", "a!b", "x.y", "a''b"];
    const RECTS: [Rc; 8] = [(0, 0, 0, 0), (1, 1, 3, 1), (2, 0, 2, 2), (0, 1, 3, 2), (3, 2, 1, 2), (1, 3, 1, 1), (1_048_575, 0, 1_048_575, 0), (5, 16_383, 7, 16_383)];
    const FORMS: [&str; 8] = ["tuple", "=$", "$", "=", "plain", "quoted", "new_from_range", "new_from_string"];
    run.explore("ranges in all forms", (SHEETS.len() * RECTS.len() * FORMS.len() * PLACES.len()) as u64, |i, rec| {
        let mut d = Dig(i);
        let place = *d.of(&PLACES);
        let form = *d.of(&FORMS);
        let r = *d.of(&RECTS);
        let sheet = *d.of(&SHEETS);
        rec.describe(|| format!("{place} {r:?} of {sheet:?} as {form}"));
        rec.state(&(place, r, sheet));
        rec.steps(1);
        let name = crate::props::c28_names::q(sheet);
        let cells = super::c28_names::abs((r.0.min(r.2), r.1.min(r.3), r.0.max(r.2), r.1.max(r.3)));
        let reversed = r.0 > r.2 || r.1 > r.3;
        let cells = if reversed {
            // As given.
            let c = crate::book::col_name;
            format!("${}${}:${}${}", c(r.1.into()), r.0 + 1, c(r.3.into()), r.2 + 1)
        } else {
            cells
        };
        let text = match form {
            "=$" => format!("={name}!{cells}"),
            "$" => format!("{name}!{cells}"),
            "=" => format!("={name}!{}", cells.replace('$', "")),
            "plain" => format!("{name}!{}", cells.replace('$', "")),
            _ => format!("'{}'!{cells}", sheet.replace('\'', "''")),
        };
        macro_rules! put {
            ($($f:tt)*) => {
                match form {
                    "tuple" => { $($f)*((sheet, r.0, r.1, r.2, r.3)); }
                    "new_from_range" => { $($f)*(&ChartRange::new_from_range(sheet, r.0, r.1, r.2, r.3)); }
                    "new_from_string" => { $($f)*(&ChartRange::new_from_string(&text)); }
                    _ => { $($f)*(text.as_str()); }
                }
            };
        }
        let mut c = Chart::new(ChartType::Column);
        let x = c.add_series();
        x.set_values((sheet, 0, 3, 3, 3));
        match place {
            "values" => put!(x.set_values),
            "categories" => put!(x.set_categories),
            "series name" => put!(x.set_name),
            "title" => put!(c.title().set_name),
            "x axis name" => put!(c.x_axis().set_name),
            "y2 axis name" => {
                c.add_series().set_values((sheet, 0, 4, 3, 4)).set_secondary_axis(true);
                put!(c.y2_axis().set_name)
            }
            "label value" => {
                let mut l = ChartDataLabel::new();
                put!(l.set_value);
                x.set_custom_data_labels(&[l.to_custom()]);
            }
            "error bars" => {
                let a = match form {
                    "tuple" | "new_from_range" => ChartRange::new_from_range(sheet, r.0, r.1, r.2, r.3),
                    _ => ChartRange::new_from_string(&text),
                };
                x.set_y_error_bars(ChartErrorBars::new().set_type(ChartErrorBarsType::Custom(a.clone(), a)));
            }
            "combined values" | "combined name" | "combined y2 axis name" | "combined error bars" => {
                let mut o = Chart::new(ChartType::Line);
                let y = o.add_series();
                y.set_values((sheet, 0, 4, 3, 4));
                match place {
                    "combined values" => put!(y.set_values),
                    "combined name" => put!(y.set_name),
                    "combined error bars" => {
                        let a = match form {
                            "tuple" | "new_from_range" => ChartRange::new_from_range(sheet, r.0, r.1, r.2, r.3),
                            _ => ChartRange::new_from_string(&text),
                        };
                        y.set_y_error_bars(ChartErrorBars::new().set_type(ChartErrorBarsType::Custom(a.clone(), a)));
                    }
                    _ => {
                        y.set_secondary_axis(true);
                        put!(c.y2_axis().set_name)
                    }
                }
                c.combine(&o);
            }
            "chartsheet values" => put!(x.set_values),
            _ => unreachable!(),
        }
        let mut wb = Workbook::new();
        let ws = wb.add_worksheet();
        e(ws.set_name(sheet))?;
        e(ws.write(0, 0, "c0"))?;
        e(ws.write(2, 2, 7.5))?;
        let res = if place == "chartsheet values" { wb.add_chartsheet().insert_chart(0, 0, &c).map(|_| ()) } else { ws.insert_chart(0, 5, &c).map(|_| ()) };
        let checked = ["values", "categories", "combined values", "chartsheet values"].contains(&place);
        if let Err(x) = res {
            rec.seen(&x.to_string());
            return if reversed && checked { Ok(()) } else { Err(format!("refused: {x}")) };
        }
        if reversed && checked {
            return Err("a reversed range was accepted".into());
        }
        let p = closed(&mut wb)?;
        rec.trace();
        let root = p.x("xl/charts/chart1.xml")?;
        let want = format!("{name}!{cells}");
        let fs: Vec<String> = root.find_all("c:f").iter().map(|x| x.text()).collect();
        rec.seen(&fs);
        let n = if place.ends_with("error bars") { 2 } else { 1 };
        eq("number of references", n, fs.iter().filter(|x| **x == want).count()).map_err(|m| format!("{m}: {want} in {fs:?}"))?;
        // The values which are kept with each reference.
        let mut pts = vec![];
        for row in r.0..=r.2 {
            for col in r.1..=r.3 {
                if let Some(v) = match (row, col) {
                    (0, 0) => Some("c0"),
                    (2, 2) => Some("7.5"),
                    _ => None,
                } {
                    pts.push((u64::from(row - r.0) * u64::from(r.3 - r.1 + 1) + u64::from(col - r.1), v.to_string()));
                }
            }
        }
        for k in ["c:strRef", "c:numRef"] {
            for x in root.find_all(k) {
                if x.first("c:f").map(|f| f.text()) != Some(want.clone()) || reversed {
                    continue;
                }
                let mut got = vec![];
                for p in x.find_all("c:pt") {
                    got.push((p.au("idx").unwrap_or(99), p.first("c:v").map(|v| v.text()).unwrap_or_default()));
                }
                got.retain(|x| !x.1.is_empty());
                let pts: Vec<(u64, String)> = pts.iter().map(|(i, v)| (*i, if x.first("c:numCache").is_some() && v == "c0" { "0".into() } else { v.clone() })).collect();
                eq(&format!("values kept with {want}"), pts, got)?;
            }
        }
        Ok(())
    });
}
/// The caches of all ranges in a block of cells of all kinds.
fn caches(run: &mut Run) {
    const KINDS: [&str; 10] = ["", "number", "text", "inf", "number text", "date", "bool", "blank", "formula", "rich"];
    let cells: usize = run.pick(4, 6);
    let rects: Vec<Rc> = (0..2u32).flat_map(|a| (a..2).flat_map(move |b| (0..3u16).flat_map(move |c| (c..3).map(move |d| (a, c, b, d))))).filter(|r| r.3 < 2 || cells > 4).collect();
    run.explore("caches of ranges", 10u64.pow(cells as u32), |i, rec| {
        let mut d = Dig(i);
        let kinds: Vec<&str> = (0..cells).map(|_| *d.of(&KINDS)).collect();
        // The most rows and kinds in six cells: of the first two rows only, with up to two kinds.
        if cells > 4 && kinds.iter().collect::<std::collections::BTreeSet<_>>().len() > 3 {
            return Ok(());
        }
        rec.describe(|| format!("cells {kinds:?}"));
        rec.state(&kinds);
        rec.steps(cells + rects.len());
        let cols = cells / 2;
        let mut wb = Workbook::new();
        let ws = wb.add_worksheet();
        let f = Format::new().set_num_format("yyyy-mm-dd");
        for (n, k) in kinds.iter().enumerate() {
            let (r, c) = ((n / cols) as u32, (n % cols) as u16);
            match *k {
                "" => continue,
                "number" => ws.write(r, c, n as f64 + 0.25),
                "text" => ws.write(r, c, format!("t{n}")),
                "inf" => ws.write(r, c, "inf"),
                "number text" => ws.write(r, c, "12"),
                "date" => ws.write_with_format(r, c, ExcelDateTime::from_ymd(2024, 1, 1 + n as u8).unwrap(), &f),
                "bool" => ws.write(r, c, true),
                "blank" => ws.write_blank(r, c, &f),
                "formula" => ws.write(r, c, Formula::new("=1+1").set_result("2")),
                _ => ws.write_rich_string(r, c, &[(&Format::new().set_bold(), "r"), (&Format::default(), "i")]),
            }
            .map_err(|x| x.to_string())?;
        }
        let mut ch = Chart::new(ChartType::Line);
        for r in &rects {
            ch.add_series().set_values(("Sheet1", r.0, r.1, r.2, r.3)).set_categories(("Sheet1", r.0, r.1, r.2, r.3));
        }
        e(ws.insert_chart(9, 5, &ch))?;
        let p = closed(&mut wb)?;
        rec.trace();
        let root = p.x("xl/charts/chart1.xml")?;
        let sers = root.find_all("c:ser");
        eq("series", rects.len(), sers.len())?;
        for (r, s) in rects.iter().zip(sers) {
            let mut pts: Vec<Option<(&str, String)>> = vec![];
            for row in r.0..=r.2 {
                for col in r.1..=r.3 {
                    let n = row as usize * cols + col as usize;
                    pts.push(match kinds[n] {
                        k @ "number" => Some((k, (n as f64 + 0.25).to_string())),
                        "text" => Some(("text", format!("t{n}"))),
                        "inf" => Some(("text", "inf".into())),
                        "number text" => Some(("text", "12".into())),
                        k @ "date" => Some((k, (45292 + n).to_string())),
                        "rich" => Some(("text", "ri".into())),
                        _ => None,
                    });
                }
            }
            let last = pts.iter().flatten().map(|x| x.0).filter(|k| *k != "text").last();
            let text = pts.iter().flatten().any(|x| x.0 == "text");
            let read = |c: &crate::xml::El| -> Result<(String, Option<String>, usize, Vec<(usize, String)>), String> {
                let pts = c.named("c:pt").map(|x| (x.au("idx").unwrap_or(99) as usize, x.first("c:v").map(|v| v.text()).unwrap_or_default())).filter(|x| !x.1.is_empty()).collect();
                Ok((c.name.clone(), c.first("c:formatCode").map(|x| x.text()), c.first("c:ptCount").and_then(|x| x.au("val")).ok_or("no ptCount")? as usize, pts))
            };
            let code = if !text && last == Some("date") { "dd/mm/yyyy" } else { "General" };
            let nums: Vec<(usize, String)> = pts.iter().enumerate().filter_map(|(i, x)| x.as_ref().map(|(k, v)| (i, if *k == "text" && v.as_str() != "12" { "0".to_string() } else { v.clone() }))).collect();
            let strs: Vec<(usize, String)> = pts.iter().enumerate().filter_map(|(i, x)| x.as_ref().map(|(_, v)| (i, v.clone()))).collect();
            let any = !pts.iter().all(|x| x.is_none());
            for (el, is_val) in [("c:val", true), ("c:cat", false)] {
                let c = s.first(el).ok_or("no values")?.els().next().and_then(|x| x.els().nth(1));
                let got = match c {
                    Some(c) => Some(read(c)?),
                    None => None,
                };
                rec.seen(&got);
                let want = if text && !is_val {
                    ("c:strCache".to_string(), None, pts.len(), strs.clone())
                } else {
                    ("c:numCache".to_string(), Some(code.to_string()), pts.len(), nums.clone())
                };
                if got.is_none() && !any {
                    continue;
                }
                eq(&format!("{el} cache of {r:?}"), Some(want), got)?;
            }
        }
        Ok(())
    });
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn dumping() -> bool {
    std::env::var_os("RXMC_DUMP").is_some()
}
fn dump_dom<T, O: Fn(&[&Opt<T>]) -> Result<Flat, String> + Sync>(d: &Dom<T>, o: &O) {
    let b = match o(&[]) {
        Ok(b) => b,
        Err(m) => return println!("{}|@ => ERROR {m}", d.name),
    };
    let t = d.base.clone();
    let show = |from: &Flat, to: &Flat| {
        let mut s = vec![];
        for k in from.keys() {
            if !to.contains_key(k) {
                s.push(format!("-{k}"));
            }
        }
        let dead = s.clone();
        s.retain(|x| !dead.iter().any(|y| x.len() > y.len() && x.starts_with(y.as_str()) && matches!(x.as_bytes()[y.len()], b'/' | b'@')));
        let mut a = vec![];
        for (k, v) in to {
            if from.get(k) != Some(v) {
                a.push(if v.is_empty() { k.clone() } else { format!("{k}={}", v.replace(';', "{SC}").replace(' ', if v.trim() == v { " " } else { "{SP}" }).replace('\n', "{NL}")) });
            }
        }
        let all = a.clone();
        a.retain(|x| !all.iter().any(|y| y.len() > x.len() && y.starts_with(x.as_str()) && matches!(y.as_bytes()[x.len()], b'/' | b'@')));
        s.extend(a);
        shrink(&s.join(";"))
    };
    println!("{}|@ => {}", d.name, show(&t, &b));
    for x in &d.opts {
        match o(&[x]) {
            Ok(f) => println!("{}|{} => {}", d.name, x.name, show(&b, &f)),
            Err(m) => println!("{}|{} => ERROR {m}", d.name, x.name),
        }
    }
}
