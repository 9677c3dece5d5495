//! C23: conditional formats.
use super::util::*;
use super::Prop;
use crate::opt;
use crate::opt::{edits, Dom, Flat, Opt, St};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C23",
    level: "model_checking",
    rule: "Model: for each of the thirteen kinds of conditional format the setting in force for each group of settings (the last call wins), rendered to the meaning of the expected rule (with its format, and the extension rule joined to it by its id); for a sheet the list of rules of each range in order. All setting sequences up to the depth, all rule kinds and value types, and all sequences of additions to ranges are applied to the real code and compared.",
    assumes: &["stopIfTrue has no meaning for icon sets which exist only as extension", "time period formulas are the published ones of Excel 2007"],
    run,
};
type D<T> = Vec<Opt<T>>;
trait Cf: ConditionalFormat + Clone + Send + Sync + 'static {}
impl<T: ConditionalFormat + Clone + Send + Sync + 'static> Cf for T {}
fn by<T: Clone>(f: impl Fn(T) -> T + Send + Sync + 'static) -> impl Fn(&mut T) -> R + Send + Sync {
    move |d| {
        *d = f(d.clone());
        Ok(())
    }
}
macro_rules! common {
    ($v:expr, $t:ty, $fmt:expr) => {
        opt!($v, "stop", "stop", by(|d: $t| d.set_stop_if_true(true)), "r@stopIfTrue=1");
        opt!($v, "no stop", "stop", by(|d: $t| d.set_stop_if_true(false)), "");
        opt!($v, "multi range", "range", by(|d: $t| d.set_multi_range("$B$7:$B$9,D2 E3:E4")), "sqref=B7:B9 D2 E3:E4");
        opt!($v, "multi range 2", "range", by(|d: $t| d.set_multi_range("F9 A1")), "sqref=F9 A1");
    };
}
macro_rules! formats {
    ($v:expr, $t:ty) => {
        opt!($v, "format A", "format", by(|d: $t| d.set_format(Format::new().set_bold())), "dxf=A");
        opt!($v, "format B", "format", by(|d: $t| d.set_format(Format::new().set_italic())), "dxf=B");
    };
}
/// The anchor of the range in force stands for @@ in formulas.
fn anchor(_: &St, m: &mut Flat) {
    let a = m["sqref"].split([' ', ':']).next().unwrap().to_string();
    for v in m.values_mut() {
        *v = v.replace("@@", &a);
    }
}
fn refuse_without(g: &'static str, s: &St, m: &mut Flat) {
    anchor(s, m);
    if !s.grp(g) {
        m.clear();
        m.insert("refused".into(), String::new());
    }
}
fn base(x: &str) -> Flat {
    let mut m = Flat::new();
    edits(&mut m, "sqref=C3:D5;r");
    edits(&mut m, x);
    m
}
fn esc(s: &str) -> String {
    s.replace('"', "\"\"")
}
// The kinds.
fn cell() -> Dom<ConditionalFormatCell> {
    use ConditionalFormatCellRule::*;
    type C = ConditionalFormatCell;
    let mut v: D<C> = vec![];
    fn add<T: IntoConditionalFormatValue + Clone + Send + Sync + 'static>(v: &mut D<C>, kind: &str, a: (T, &str), b: (T, &str)) {
        let (x, y) = (a.0, b.0);
        for (op, two, r) in [
            ("equal", false, EqualTo(x.clone())),
            ("notEqual", false, NotEqualTo(x.clone())),
            ("greaterThan", false, GreaterThan(x.clone())),
            ("greaterThanOrEqual", false, GreaterThanOrEqualTo(x.clone())),
            ("lessThan", false, LessThan(x.clone())),
            ("lessThanOrEqual", false, LessThanOrEqualTo(x.clone())),
            ("between", true, Between(x.clone(), y.clone())),
            ("notBetween", true, NotBetween(x, y)),
        ] {
            let mut s = format!("r@operator={op};r/formula={}", a.1);
            if two {
                s.push_str(&format!(";r/formula[2]={}", b.1));
            }
            opt!(v, format!("{kind} {op}"), "rule", by(move |d: C| d.set_rule(r.clone())), s);
        }
    }
    add(&mut v, "int", (-5i32, "-5"), (100, "100"));
    add(&mut v, "float", (0.1, "0.1"), (1e10, "10000000000"));
    add(&mut v, "formula", (Formula::new("=$G$1&\"x\""), "$G$1&\"x\""), (Formula::new("H2"), "H2"));
    add(&mut v, "text", ("Paris & <x>", "\"Paris & <x>\""), ("Zürich", "\"Zürich\""));
    add(&mut v, "text with quotes", ("a \"b\" c", "\"a \"\"b\"\" c\""), ("\"q\"", "\"q\""));
    add(&mut v, "text of a quote", ("\"", "\"\"\"\""), ("\"x", "\"\"\"x\""));
    add(&mut v, "empty text", ("", "\"\""), ("z", "\"z\""));
    add(&mut v, "bool", (true, "TRUE"), (false, "FALSE"));
    add(&mut v, "date", (ExcelDateTime::from_ymd(2025, 1, 1).unwrap(), "45658"), (ExcelDateTime::from_ymd(2025, 12, 31).unwrap(), "46022"));
    common!(v, C, 1);
    formats!(v, C);
    Dom { name: "cell".into(), opts: v, base: base("r@type=cellIs"), rule: |s, m| refuse_without("rule", s, m) }
}
fn blank() -> Dom<ConditionalFormatBlank> {
    type C = ConditionalFormatBlank;
    let mut v: D<C> = vec![];
    opt!(v, "invert", "invert", by(|d: C| d.invert()), "r@type=notContainsBlanks;r/formula=LEN(TRIM(@@))>0");
    common!(v, C, 1);
    formats!(v, C);
    Dom { name: "blank".into(), opts: v, base: base("r@type=containsBlanks;r/formula=LEN(TRIM(@@))=0"), rule: anchor }
}
fn error() -> Dom<ConditionalFormatError> {
    type C = ConditionalFormatError;
    let mut v: D<C> = vec![];
    opt!(v, "invert", "invert", by(|d: C| d.invert()), "r@type=notContainsErrors;r/formula=NOT(ISERROR(@@))");
    common!(v, C, 1);
    formats!(v, C);
    Dom { name: "error".into(), opts: v, base: base("r@type=containsErrors;r/formula=ISERROR(@@)"), rule: anchor }
}
fn duplicate() -> Dom<ConditionalFormatDuplicate> {
    type C = ConditionalFormatDuplicate;
    let mut v: D<C> = vec![];
    opt!(v, "invert", "invert", by(|d: C| d.invert()), "r@type=uniqueValues");
    common!(v, C, 1);
    formats!(v, C);
    Dom { name: "duplicate".into(), opts: v, base: base("r@type=duplicateValues"), rule: anchor }
}
fn formula() -> Dom<ConditionalFormatFormula> {
    type C = ConditionalFormatFormula;
    let mut v: D<C> = vec![];
    for (n, f, x) in [("a", "=ISODD(C3)", "ISODD(C3)"), ("b", "AND(C3<5,C3>\"\")", "AND(C3<5,C3>\"\")"), ("c", "='My & sheet'!$A$1", "'My & sheet'!$A$1")] {
        opt!(v, format!("formula {n}"), "rule", by(move |d: C| d.set_rule(f)), format!("r/formula={x}"));
    }
    common!(v, C, 1);
    formats!(v, C);
    Dom { name: "formula".into(), opts: v, base: base("r@type=expression"), rule: |s, m| refuse_without("rule", s, m) }
}
fn average() -> Dom<ConditionalFormatAverage> {
    use ConditionalFormatAverageRule::*;
    type C = ConditionalFormatAverage;
    let mut v: D<C> = vec![];
    for (n, r, x) in [
        ("above", AboveAverage, ""),
        ("below", BelowAverage, "r@aboveAverage=0"),
        ("equal above", EqualOrAboveAverage, "r@equalAverage=1"),
        ("equal below", EqualOrBelowAverage, "r@aboveAverage=0;r@equalAverage=1"),
        ("1 above", OneStandardDeviationAbove, "r@stdDev=1"),
        ("1 below", OneStandardDeviationBelow, "r@aboveAverage=0;r@stdDev=1"),
        ("2 above", TwoStandardDeviationsAbove, "r@stdDev=2"),
        ("2 below", TwoStandardDeviationsBelow, "r@aboveAverage=0;r@stdDev=2"),
        ("3 above", ThreeStandardDeviationsAbove, "r@stdDev=3"),
        ("3 below", ThreeStandardDeviationsBelow, "r@aboveAverage=0;r@stdDev=3"),
    ] {
        opt!(v, n, "rule", by(move |d: C| d.set_rule(r.clone())), x);
    }
    common!(v, C, 1);
    formats!(v, C);
    Dom { name: "average".into(), opts: v, base: base("r@type=aboveAverage"), rule: anchor }
}
fn top() -> Dom<ConditionalFormatTop> {
    use ConditionalFormatTopRule::*;
    type C = ConditionalFormatTop;
    let mut v: D<C> = vec![];
    for n in [0, 1, 10, 99, 100, 101, 999, 1000, 1001, 65535] {
        for (k, r, x, max) in [("top", Top(n), "", 1000), ("bottom", Bottom(n), ";r@bottom=1", 1000), ("top percent", TopPercent(n), ";r@percent=1", 100), ("bottom percent", BottomPercent(n), ";r@percent=1;r@bottom=1", 100)] {
            let ok = n > 0 && n <= max;
            opt!(v, format!("{k} {n}"), "rule", by(move |d: C| d.set_rule(r.clone())), if ok { format!("r@rank={n}{x}") } else { "refused".into() });
        }
    }
    common!(v, C, 1);
    formats!(v, C);
    Dom {
        name: "top".into(),
        opts: v,
        base: base("r@type=top10;r@rank=10"),
        rule: |_, m| {
            if m.contains_key("refused") {
                m.retain(|k, _| k == "refused");
            }
        },
    }
}
fn text() -> Dom<ConditionalFormatText> {
    use ConditionalFormatTextRule::*;
    type C = ConditionalFormatText;
    let mut v: D<C> = vec![];
    for t in ["t", "expected", "\u{e9}t\u{e9}", "say \"x\"", "\"", "\u{4e2d}\u{6587} <&>", " lead"] {
        let (q, n) = (esc(t), t.chars().count());
        let s = t.to_string();
        for (ty, op, r, f) in [
            ("containsText", "containsText", Contains(s.clone()), format!("NOT(ISERROR(SEARCH(\"{q}\",@@)))")),
            ("notContainsText", "notContains", DoesNotContain(s.clone()), format!("ISERROR(SEARCH(\"{q}\",@@))")),
            ("beginsWith", "beginsWith", BeginsWith(s.clone()), format!("LEFT(@@,{n})=\"{q}\"")),
            ("endsWith", "endsWith", EndsWith(s.clone()), format!("RIGHT(@@,{n})=\"{q}\"")),
        ] {
            opt!(v, format!("{op} {t}"), "rule", by(move |d: C| d.set_rule(r.clone())), format!("r@type={ty};r@operator={op};r@text={t};r/formula={f}"));
        }
    }
    common!(v, C, 1);
    formats!(v, C);
    Dom { name: "text".into(), opts: v, base: base(""), rule: |s, m| refuse_without("rule", s, m) }
}
fn date() -> Dom<ConditionalFormatDate> {
    use ConditionalFormatDateRule::*;
    type C = ConditionalFormatDate;
    let mut v: D<C> = vec![];
    for (n, r, f) in [
        ("yesterday", Yesterday, "FLOOR(@@,1)=TODAY()-1"),
        ("today", Today, "FLOOR(@@,1)=TODAY()"),
        ("tomorrow", Tomorrow, "FLOOR(@@,1)=TODAY()+1"),
        ("last7Days", Last7Days, "AND(TODAY()-FLOOR(@@,1)<=6,FLOOR(@@,1)<=TODAY())"),
        ("lastWeek", LastWeek, "AND(TODAY()-ROUNDDOWN(@@,0)>=(WEEKDAY(TODAY())),TODAY()-ROUNDDOWN(@@,0)<(WEEKDAY(TODAY())+7))"),
        ("thisWeek", ThisWeek, "AND(TODAY()-ROUNDDOWN(@@,0)<=WEEKDAY(TODAY())-1,ROUNDDOWN(@@,0)-TODAY()<=7-WEEKDAY(TODAY()))"),
        ("nextWeek", NextWeek, "AND(ROUNDDOWN(@@,0)-TODAY()>(7-WEEKDAY(TODAY())),ROUNDDOWN(@@,0)-TODAY()<(15-WEEKDAY(TODAY())))"),
        ("lastMonth", LastMonth, "AND(MONTH(@@)=MONTH(TODAY())-1,OR(YEAR(@@)=YEAR(TODAY()),AND(MONTH(@@)=1,YEAR(@@)=YEAR(TODAY())-1)))"),
        ("thisMonth", ThisMonth, "AND(MONTH(@@)=MONTH(TODAY()),YEAR(@@)=YEAR(TODAY()))"),
        ("nextMonth", NextMonth, "AND(MONTH(@@)=MONTH(TODAY())+1,OR(YEAR(@@)=YEAR(TODAY()),AND(MONTH(@@)=12,YEAR(@@)=YEAR(TODAY())+1)))"),
    ] {
        opt!(v, n, "rule", by(move |d: C| d.set_rule(r.clone())), format!("r@timePeriod={n};r/formula={f}"));
    }
    common!(v, C, 1);
    formats!(v, C);
    Dom { name: "date".into(), opts: v, base: base("r@type=timePeriod;r@timePeriod=yesterday;r/formula=FLOOR(@@,1)=TODAY()-1"), rule: anchor }
}
/// The bounds of a scale: (name, type, value, written type, written value).
fn bounds() -> Vec<(&'static str, ConditionalFormatType, ConditionalFormatValue, &'static str, &'static str)> {
    use ConditionalFormatType::*;
    vec![
        ("number", Number, (-3).into(), "num", "-3"),
        ("number 2", Number, 2.5.into(), "num", "2.5"),
        ("number 200", Number, 200.into(), "num", "200"),
        ("percent 0", Percent, 0.into(), "percent", "0"),
        ("percent 100", Percent, 100.into(), "percent", "100"),
        ("percentile", Percentile, 33.3.into(), "percentile", "33.3"),
        ("formula", Formula, rust_xlsxwriter::Formula::new("=$A$1+1").into(), "formula", "$A$1+1"),
        ("date", Number, ExcelDateTime::from_ymd(2025, 1, 1).unwrap().into(), "num", "45658"),
    ]
}
/// Calls without effect: texts, and percentages beyond the limits.
fn ignored() -> Vec<(&'static str, ConditionalFormatType, ConditionalFormatValue)> {
    use ConditionalFormatType::*;
    vec![("text", Number, "5".into()), ("percent 101", Percent, 101.into()), ("percentile -1", Percentile, (-1).into())]
}
macro_rules! bound {
    ($v:expr, $t:ty, $f:ident, $g:expr, $p:expr) => {
        for (n, ty, val, wt, wv) in bounds() {
            opt!($v, format!("{} {n}", $g), $g, by(move |d: $t| d.$f(ty, val.clone())), format!("{0}@type={wt};{0}@val={wv}", $p));
        }
        for (n, ty, val) in ignored() {
            opt!($v, format!("{} ignored {n}", $g), format!("ignored {} {n}", $g), by(move |d: $t| d.$f(ty, val.clone())), "");
        }
    };
}
macro_rules! color {
    ($v:expr, $t:ty, $f:ident, $g:expr, $w:expr) => {
        for (n, c, x) in [("red", Color::Red, "FFFF0000"), ("rgb", Color::RGB(0x12_3456), "FF123456")] {
            opt!($v, format!("{} {n}", $g), $g, by(move |d: $t| d.$f(c)), $w.replace('#', x));
        }
    };
}
fn scale2() -> Dom<ConditionalFormat2ColorScale> {
    type C = ConditionalFormat2ColorScale;
    let mut v: D<C> = vec![];
    bound!(v, C, set_minimum, "min", "r/colorScale/cfvo");
    bound!(v, C, set_maximum, "max", "r/colorScale/cfvo[2]");
    color!(v, C, set_minimum_color, "min color", "r/colorScale/color@rgb=#");
    color!(v, C, set_maximum_color, "max color", "r/colorScale/color[2]@rgb=#");
    common!(v, C, 0);
    Dom { name: "2 color scale".into(), opts: v, base: base("r@type=colorScale;r/colorScale/cfvo@type=min;r/colorScale/cfvo@val=0;r/colorScale/cfvo[2]@type=max;r/colorScale/cfvo[2]@val=0;r/colorScale/color@rgb=FFFFEF9C;r/colorScale/color[2]@rgb=FF63BE7B"), rule: anchor }
}
fn scale3() -> Dom<ConditionalFormat3ColorScale> {
    type C = ConditionalFormat3ColorScale;
    let mut v: D<C> = vec![];
    bound!(v, C, set_minimum, "min", "r/colorScale/cfvo");
    bound!(v, C, set_midpoint, "mid", "r/colorScale/cfvo[2]");
    bound!(v, C, set_maximum, "max", "r/colorScale/cfvo[3]");
    color!(v, C, set_minimum_color, "min color", "r/colorScale/color@rgb=#");
    color!(v, C, set_midpoint_color, "mid color", "r/colorScale/color[2]@rgb=#");
    color!(v, C, set_maximum_color, "max color", "r/colorScale/color[3]@rgb=#");
    common!(v, C, 0);
    Dom { name: "3 color scale".into(), opts: v, base: base("r@type=colorScale;r/colorScale/cfvo@type=min;r/colorScale/cfvo@val=0;r/colorScale/cfvo[2]@type=percentile;r/colorScale/cfvo[2]@val=50;r/colorScale/cfvo[3]@type=max;r/colorScale/cfvo[3]@val=0;r/colorScale/color@rgb=FFF8696B;r/colorScale/color[2]@rgb=FFFFEB84;r/colorScale/color[3]@rgb=FF63BE7B"), rule: anchor }
}
fn bar() -> Dom<ConditionalFormatDataBar> {
    use ConditionalFormatType::*;
    type C = ConditionalFormatDataBar;
    let mut v: D<C> = vec![];
    let m = "r/dataBar/cfvo";
    let x = "x/x14:dataBar/x14:cfvo";
    for (g, i, f) in [("min", "", (|d, t, y| d.set_minimum(t, y)) as fn(C, ConditionalFormatType, ConditionalFormatValue) -> C), ("max", "[2]", |d, t, y| d.set_maximum(t, y))] {
        for (n, ty, val, wt, wv) in bounds() {
            opt!(v, format!("{g} {n}"), g, by(move |d: C| f(d, ty, val.clone())), format!("{m}{i}@type={wt};{m}{i}@val={wv};{x}{i}@type={wt};{x}{i}/xm:f={wv}"));
        }
        for (n, ty, val) in ignored() {
            opt!(v, format!("{g} ignored {n}"), format!("ignored {g} {n}"), by(move |d: C| f(d, ty, val.clone())), "");
        }
        let (own, other, auto) = if g == "min" { (Lowest, Highest, "autoMin") } else { (Highest, Lowest, "autoMax") };
        opt!(v, format!("{g} own"), g, by(move |d: C| f(d, own, 0.into())), format!("{m}{i}@type={g};{x}{i}@type={g}"));
        opt!(v, format!("{g} automatic"), g, by(move |d: C| f(d, Automatic, 0.into())), format!("{m}{i}@type={g};{x}{i}@type={auto}"));
        opt!(v, format!("{g} ignored other"), format!("ignored {g} other"), by(move |d: C| f(d, other, 0.into())), "");
    }
    color!(v, C, set_fill_color, "fill", "fill=#;border=#");
    color!(v, C, set_border_color, "border", "border=#");
    color!(v, C, set_negative_fill_color, "negative", "neg=#;negborder=#");
    color!(v, C, set_negative_border_color, "negative border", "negborder=#");
    color!(v, C, set_axis_color, "axis", "axis=#");
    opt!(v, "border off", "border off", by(|d: C| d.set_border_off(true)), "off");
    opt!(v, "border on", "border off", by(|d: C| d.set_border_off(false)), "");
    opt!(v, "solid", "solid", by(|d: C| d.set_solid_fill(true)), "gradient=0");
    opt!(v, "not solid", "solid", by(|d: C| d.set_solid_fill(false)), "");
    opt!(v, "bar only", "bar only", by(|d: C| d.set_bar_only(true)), "r/dataBar@showValue=0");
    opt!(v, "not bar only", "bar only", by(|d: C| d.set_bar_only(false)), "");
    for (n, p) in [("context", ConditionalFormatDataBarDirection::Context), ("leftToRight", ConditionalFormatDataBarDirection::LeftToRight), ("rightToLeft", ConditionalFormatDataBarDirection::RightToLeft)] {
        opt!(v, n, "direction", by(move |d: C| d.set_direction(p.clone())), format!("direction={n}"));
    }
    for (n, p) in [("automatic", ConditionalFormatDataBarAxisPosition::Automatic), ("middle", ConditionalFormatDataBarAxisPosition::Midpoint), ("none", ConditionalFormatDataBarAxisPosition::None)] {
        opt!(v, format!("axis at {n}"), "axis position", by(move |d: C| d.set_axis_position(p.clone())), format!("axisPosition={n}"));
    }
    common!(v, C, 0);
    Dom {
        name: "data bar".into(),
        opts: v,
        base: base("r@type=dataBar;r/dataBar/cfvo@type=min;r/dataBar/cfvo[2]@type=max;x@type=dataBar;x/x14:dataBar/x14:cfvo@type=autoMin;x/x14:dataBar/x14:cfvo[2]@type=autoMax;fill=FF638EC6;border=FF638EC6;neg=FFFF0000;negborder=FFFF0000;axis=FF000000;direction=context;axisPosition=automatic;gradient=1;length=0-100"),
        rule: |_, m| {
            if m.remove("off").is_some() {
                m.insert("border".into(), "none".into());
                m.insert("negborder".into(), "none".into());
            }
            if m["axisPosition"] == "none" {
                m.insert("axis".into(), "none".into());
            }
        },
    }
}
const ICONS: [(&str, ConditionalFormatIconType); 20] = {
    use ConditionalFormatIconType::*;
    [
        ("3Arrows", ThreeArrows),
        ("3ArrowsGray", ThreeArrowsGray),
        ("3Flags", ThreeFlags),
        ("3TrafficLights1", ThreeTrafficLights),
        ("3TrafficLights2", ThreeTrafficLightsWithRim),
        ("3Signs", ThreeSigns),
        ("3Symbols", ThreeSymbolsCircled),
        ("3Symbols2", ThreeSymbols),
        ("3Stars", ThreeStars),
        ("3Triangles", ThreeTriangles),
        ("4Arrows", FourArrows),
        ("4ArrowsGray", FourArrowsGray),
        ("4RedToBlack", FourRedToBlack),
        ("4Rating", FourHistograms),
        ("4TrafficLights", FourTrafficLights),
        ("5Arrows", FiveArrows),
        ("5ArrowsGray", FiveArrowsGray),
        ("5Rating", FiveHistograms),
        ("5Quarters", FiveQuadrants),
        ("5Boxes", FiveBoxes),
    ]
};
/// One icon of a list: type and value of the rule, greater than, and the custom icon (set, index), "" for none.
type Icon = (&'static str, &'static str, bool, Option<(&'static str, u32)>);
fn lists() -> Vec<(&'static str, Vec<Icon>)> {
    vec![
        ("plain 3", vec![("percent", "0", false, None), ("num", "10", true, None), ("percentile", "90", false, None)]),
        ("custom 3", vec![("percent", "0", false, Some(("3Stars", 1))), ("formula", "$A$1", true, Some(("", 0))), ("num", "5", false, None)]),
        ("custom 3b", vec![("percent", "0", false, None), ("percent", "20", true, None), ("percentile", "70", true, Some(("5Quarters", 4)))]),
        ("plain 4", vec![("percent", "0", false, None), ("num", "1", true, None), ("percent", "2", false, None), ("formula", "B1", false, None)]),
        ("plain 5", vec![("percent", "0", false, None), ("num", "1", false, None), ("num", "2", true, None), ("num", "3", false, None), ("num", "4", true, None)]),
        ("two", vec![("percent", "0", false, None), ("num", "1", false, None)]),
    ]
}
fn icons() -> Dom<ConditionalFormatIconSet> {
    type C = ConditionalFormatIconSet;
    let mut v: D<C> = vec![];
    for (n, t) in ICONS {
        opt!(v, format!("type {n}"), "type", by(move |d: C| d.set_icon_type(t)), "");
    }
    for (n, l) in lists() {
        opt!(
            v,
            format!("icons {n}"),
            "icons",
            by(move |d: C| {
                let l: Vec<ConditionalFormatCustomIcon> = l
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        use ConditionalFormatType as T;
                        let val = |t: &str| -> ConditionalFormatValue {
                            if x.0 == "formula" {
                                rust_xlsxwriter::Formula::new(t).into()
                            } else {
                                t.parse::<f64>().unwrap().into()
                            }
                        };
                        let ty = match x.0 {
                            "percent" => T::Percent,
                            "num" => T::Number,
                            "formula" => T::Formula,
                            _ => T::Percentile,
                        };
                        let mut c = ConditionalFormatCustomIcon::new().set_greater_than(x.2);
                        // What the first icon is given has no effect: it is always from 0 percent.
                        c = if i == 0 { c.set_rule(T::Number, 77).set_greater_than(true) } else { c.set_rule(ty, val(x.1)) };
                        match x.3 {
                            None => c,
                            Some(("", _)) => c.set_no_icon(true),
                            Some((s, k)) => c.set_icon_type(ICONS.iter().find(|y| y.0 == s).unwrap().1, k as u8),
                        }
                    })
                    .collect();
                d.set_icons(&l)
            }),
            ""
        );
    }
    opt!(v, "reverse", "reverse", by(|d: C| d.reverse_icons(true)), "i@reverse=1");
    opt!(v, "no reverse", "reverse", by(|d: C| d.reverse_icons(false)), "");
    opt!(v, "only", "only", by(|d: C| d.show_icons_only(true)), "i@showValue=0");
    opt!(v, "not only", "only", by(|d: C| d.show_icons_only(false)), "");
    common!(v, C, 0);
    Dom {
        name: "icon set".into(),
        opts: v,
        base: base(""),
        rule: |s, m| {
            let ty = s.force.get("type").map(|x| &x[5..]);
            let set = ty.unwrap_or("3TrafficLights1");
            let pos = |g: &str| s.force.get(g).and_then(|n| s.last(n));
            let n: usize = set[..1].parse().unwrap();
            // Setting the type gives the default rules.
            let l: Vec<Icon> = match (pos("type"), pos("icons")) {
                (Some(t), Some(i)) if t > i => default_icons(n),
                (Some(_), None) => default_icons(n),
                (_, Some(_)) => lists().into_iter().find(|l| l.0 == &s.force["icons"][6..]).unwrap().1,
                (None, None) => vec![],
            };
            if l.len() != n {
                m.clear();
                m.insert("refused".into(), String::new());
                return;
            }
            let custom = l.iter().any(|x| x.3.is_some());
            let ext = custom || ["3Stars", "3Triangles", "5Boxes"].contains(&set);
            let (r, i, p) = if ext { ("x", "x/x14:iconSet", "x14:") } else { ("r", "r/iconSet", "") };
            if ext {
                m.remove("r");
                m.remove("r@stopIfTrue");
            }
            edits(m, &format!("{r}@type=iconSet;{i}@iconSet={set}"));
            for a in ["reverse", "showValue"] {
                if let Some(y) = m.remove(&format!("i@{a}")) {
                    edits(m, &format!("{i}@{a}={y}"));
                }
            }
            m.remove("i");
            for (k, x) in l.iter().enumerate() {
                let at = |e: &str| if k == 0 { format!("{i}/{p}{e}") } else { format!("{i}/{p}{e}[{}]", k + 1) };
                let c = at("cfvo");
                edits(m, &format!("{c}@type={}", x.0));
                edits(m, &if ext { format!("{c}/xm:f={}", x.1) } else { format!("{c}@val={}", x.1) });
                if x.2 {
                    edits(m, &format!("{c}@gte=0"));
                }
                if custom {
                    let c = at("cfIcon");
                    let (s, id) = match x.3 {
                        None => (set, k as u32),
                        Some(("", _)) => ("NoIcons", 0),
                        Some(y) => y,
                    };
                    edits(m, &format!("{c}@iconSet={s};{c}@iconId={id}"));
                }
            }
            if custom {
                edits(m, &format!("{i}@custom=1"));
            }
        },
    }
}
fn default_icons(n: usize) -> Vec<Icon> {
    let v: &[&str] = match n {
        3 => &["0", "33", "67"],
        4 => &["0", "25", "50", "75"],
        _ => &["0", "20", "40", "60", "80"],
    };
    v.iter().map(|x| ("percent", *x, false, None)).collect()
}
/// The effective meaning of the attributes and colors of a data bar.
fn bar_facts(m: &mut Flat) -> R {
    let b = "x/x14:dataBar";
    let mut at = |k: &str, d: &str| m.remove(&format!("{b}{k}")).unwrap_or(d.to_string());
    let border = at("@border", "0") == "1";
    let len = format!("{}-{}", at("@minLength", "10"), at("@maxLength", "90"));
    let (grad, dir, axis_pos) = (at("@gradient", "1"), at("@direction", "context"), at("@axisPosition", "automatic"));
    let same_fill = at("@negativeBarColorSameAsPositive", "0") == "1";
    let same_border = at("@negativeBarBorderColorSameAsPositive", "1") == "1";
    let mut col = |m: &mut Flat, n: &str| {
        m.remove(n);
        m.remove(&format!("{n}@rgb"))
    };
    let fill = col(m, "r/dataBar/color").ok_or("no color")?;
    let bc = col(m, "x/x14:dataBar/x14:borderColor");
    let nf = col(m, "x/x14:dataBar/x14:negativeFillColor");
    let nb = col(m, "x/x14:dataBar/x14:negativeBorderColor");
    let ac = col(m, "x/x14:dataBar/x14:axisColor");
    let mut put = |k: &str, v: String| m.insert(k.into(), v);
    let none = || "none".to_string();
    put("neg", if same_fill { fill.clone() } else { nf.ok_or("no negative color")? });
    let bc = if border { bc.ok_or("no border color")? } else { none() };
    put("negborder", if !border { none() } else if same_border { bc.clone() } else { nb.ok_or("no negative border color")? });
    put("border", bc);
    put("axis", if axis_pos == "none" { none() } else { ac.ok_or("no axis color")? });
    put("fill", fill);
    put("length", len);
    put("gradient", grad);
    put("direction", dir);
    put("axisPosition", axis_pos);
    Ok(())
}
struct Rule {
    sqref: String,
    priority: Option<u64>,
    m: Flat,
}
/// The rules of a sheet, in order: those of the sheet with their extensions, then the pure extension rules.
fn rules(p: &Pkg, n: usize) -> Result<Vec<Rule>, String> {
    let st = book::styles(p)?;
    let x = p.sheet(n)?;
    let mut out = vec![];
    let mut ext: Vec<(String, &El, bool)> = vec![];
    let mut ids = BTreeSet::new();
    for c in x.find_all("x14:conditionalFormatting") {
        let sq = c.first("xm:sqref").ok_or("no xm:sqref")?.text();
        for r in c.named("x14:cfRule") {
            if !ids.insert(r.a("id").ok_or("extension rule without id")?) {
                return Err("extension id used twice".into());
            }
            ext.push((sq.clone(), r, false));
        }
    }
    let side = |r: &El, s: &str, n: &str, m: &mut Flat| {
        crate::opt::flatten(r, s, m);
        for a in ["priority", "dxfId", "id"] {
            m.remove(&format!("{s}@{a}"));
        }
        if r.a("type") == Some("iconSet") {
            m.entry(format!("{s}/{n}iconSet@iconSet")).or_insert("3TrafficLights1".into());
        }
    };
    for c in x.named("conditionalFormatting") {
        let sq = c.a("sqref").ok_or("no sqref")?.to_string();
        if c.els().next().is_none() {
            return Err(format!("no rules for {sq}"));
        }
        for r in c.els() {
            let mut m = Flat::new();
            side(r, "r", "", &mut m);
            m.insert("sqref".into(), sq.clone());
            if let Some(d) = r.au("dxfId") {
                let d = st.dxfs.get(d as usize).ok_or("dxfId beyond the formats")?.canon();
                m.insert("dxf".into(), if d.contains("<b>") || d.contains("<b ") { "A".into() } else if d.contains("<i>") || d.contains("<i ") { "B".into() } else { d });
            }
            if r.first("extLst").is_some() {
                m.retain(|k, _| !k.starts_with("r/extLst"));
                let id = r.path("extLst/ext/x14:id").ok_or("no id in the extension")?.text();
                let e = ext.iter_mut().find(|e| e.1.a("id") == Some(&id)).ok_or("no extension of that id")?;
                if e.2 || e.0 != sq {
                    return Err(format!("extension {id} of {sq} used twice or for {}", e.0));
                }
                e.2 = true;
                side(e.1, "x", "x14:", &mut m);
            }
            if r.a("type") == Some("dataBar") {
                bar_facts(&mut m)?;
            }
            out.push(Rule { sqref: sq.clone(), priority: r.au("priority"), m });
        }
    }
    for (sq, r, used) in ext {
        if !used {
            if r.a("type") != Some("iconSet") {
                return Err("extension rule without its rule".into());
            }
            let mut m = Flat::new();
            side(r, "x", "x14:", &mut m);
            m.insert("sqref".into(), sq.clone());
            out.push(Rule { sqref: sq, priority: r.au("priority"), m });
        }
    }
    let mut seen = BTreeSet::new();
    for r in &out {
        if !seen.insert(r.priority.ok_or("no priority")?) {
            return Err("priority used twice".into());
        }
    }
    Ok(out)
}
fn observe<T: Cf>(new: fn() -> T) -> impl Fn(&[&Opt<T>]) -> Result<Flat, String> + Sync {
    move |sel| {
        let mut d = new();
        for o in sel {
            (o.apply)(&mut d)?;
        }
        let mut wb = Workbook::new();
        let ok = wb.add_worksheet().add_conditional_format(2, 2, 4, 3, &d).is_ok();
        let p = closed(&mut wb)?;
        let mut v = rules(&p, 0)?;
        match (ok, v.len()) {
            (false, 0) => Ok([("refused".to_string(), String::new())].into()),
            (false, n) => Err(format!("refused, but {n} rules written")),
            (true, 1) => Ok(v.remove(0).m),
            (true, n) => Err(format!("{n} rules")),
        }
    }
}
fn one<T: Cf>(run: &mut Run, d: Dom<T>, new: fn() -> T, q: u32, t: u32) {
    if std::env::var_os("RXMC_DUMP").is_some() {
        return crate::opt::dump(&d, observe(new));
    }
    crate::opt::explore(run, &d, run.pick(q as u64, t as u64) as u32, observe(new));
}
fn run(run: &mut Run) {
    one(run, cell(), ConditionalFormatCell::new, 2, 3);
    one(run, blank(), ConditionalFormatBlank::new, 4, 5);
    one(run, error(), ConditionalFormatError::new, 4, 5);
    one(run, duplicate(), ConditionalFormatDuplicate::new, 4, 5);
    one(run, formula(), ConditionalFormatFormula::new, 3, 4);
    one(run, average(), ConditionalFormatAverage::new, 3, 4);
    one(run, top(), ConditionalFormatTop::new, 2, 3);
    one(run, text(), ConditionalFormatText::new, 2, 3);
    one(run, date(), ConditionalFormatDate::new, 3, 4);
    one(run, scale2(), ConditionalFormat2ColorScale::new, 2, 3);
    one(run, scale3(), ConditionalFormat3ColorScale::new, 2, 3);
    one(run, bar(), ConditionalFormatDataBar::new, 2, 3);
    one(run, icons(), ConditionalFormatIconSet::new, 3, 4);
    additions(run);
}
/// Additions to ranges of two sheets.
fn additions(run: &mut Run) {
    let ranges = [(0, 0, 2, 1), (0, 3, 0, 3), (0, 0, 1_048_575, 16_383), (2, 1, 0, 0), (0, 0, 1_048_576, 0)];
    let kinds = 5;
    let k = (ranges.len() * kinds) as u64;
    let depth = run.pick(3, 4);
    run.explore("additions", seqs(k, depth), |i, rec| {
        let s = seq(i, k);
        rec.describe(|| s.iter().map(|j| format!("{:?} kind {}", ranges[j % ranges.len()], j / ranges.len())).collect::<Vec<_>>().join(", "));
        let mut wb = Workbook::new();
        e(wb.add_worksheet().add_conditional_format(0, 0, 2, 1, &ConditionalFormatDataBar::new()))?;
        let ws = wb.add_worksheet();
        let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (n, j) in s.iter().enumerate() {
            let r = ranges[j % ranges.len()];
            let ok = r.0 <= r.2 && r.1 <= r.3 && r.2 < 1_048_576;
            let (a, b, c, d) = r;
            let fmt = if n % 2 == 0 { Format::new().set_bold() } else { Format::new().set_italic() };
            let tag = if n % 2 == 0 { "A" } else { "B" };
            let (res, t) = match j / ranges.len() {
                0 => (ws.add_conditional_format(a, b, c, d, &ConditionalFormatTop::new().set_rule(ConditionalFormatTopRule::Top(n as u16 + 1)).set_format(fmt)).is_ok(), format!("top10 {} {tag}", n + 1)),
                1 => (ws.add_conditional_format(a, b, c, d, &ConditionalFormatDataBar::new().set_minimum(ConditionalFormatType::Number, n as i32)).is_ok(), format!("dataBar {n}")),
                2 => (ws.add_conditional_format(a, b, c, d, &ConditionalFormatIconSet::new().set_icon_type(ConditionalFormatIconType::ThreeStars).reverse_icons(n % 2 == 0)).is_ok(), format!("stars {}", n % 2 == 0)),
                3 => (ws.add_conditional_format(a, b, c, d, &ConditionalFormatIconSet::new().set_icon_type(ConditionalFormatIconType::ThreeFlags).reverse_icons(n % 2 == 0)).is_ok(), format!("flags {}", n % 2 == 0)),
                // A refused rule.
                _ => {
                    eq("bad rule accepted", false, ws.add_conditional_format(a, b, c, d, &ConditionalFormatTop::new().set_rule(ConditionalFormatTopRule::Top(0))).is_ok())?;
                    continue;
                }
            };
            eq("accepted", ok, res)?;
            if ok {
                want.entry(range_name(r)).or_default().push(t);
            }
            rec.step();
            rec.state(&want);
        }
        let p = closed(&mut wb)?;
        eq("rules of the other sheet", 1, rules(&p, 0)?.len())?;
        rec.trace();
        let mut got: BTreeMap<String, Vec<(u64, String)>> = BTreeMap::new();
        for r in rules(&p, 1)? {
            let g = |k: &str| r.m.get(k).cloned().unwrap_or_default();
            let rev = |s: &str| (g(s) == "1").to_string();
            let t = match (g("r@type").as_str(), g("x@type").as_str()) {
                ("top10", "") => format!("top10 {} {}", g("r@rank"), g("dxf")),
                ("dataBar", "dataBar") => {
                    eq("values of the two bars", g("r/dataBar/cfvo@val"), g("x/x14:dataBar/x14:cfvo/xm:f"))?;
                    format!("dataBar {}", g("r/dataBar/cfvo@val"))
                }
                ("", "iconSet") => format!("stars {}", rev("x/x14:iconSet@reverse")),
                ("iconSet", "") => format!("flags {}", rev("r/iconSet@reverse")),
                x => return Err(format!("unexpected rule {x:?}")),
            };
            got.entry(r.sqref).or_default().push((r.priority.unwrap(), t));
        }
        let got = got
            .into_iter()
            .map(|(k, mut v)| {
                v.sort();
                (k, v.into_iter().map(|x| x.1).collect())
            })
            .collect();
        diff(&want, &got)
    });
}
