//! C26: document properties.
use super::util::*;
use super::Prop;
use crate::opt::{edits, flat, Dom, Flat, Opt, St};

pub const PROP: Prop = Prop {
    id: "C26",
    level: "model_checking",
    rule: "Model: the last value set for each document property, and the list of custom properties in the order of their addition. All sequences of property settings up to the depth, in up to two DocProperties of which the last one given to the workbook counts, are applied to the real code; every element, attribute and text of core.xml, app.xml and custom.xml is compared with the model.",
    assumes: &["the creation time which nobody set is any valid UTC time"],
    run,
};
const CUSTOM: [(&str, &str, &str, &str); 9] = [
    ("custom text", "Text", "vt:lpwstr", "Some <text> & more"),
    ("custom empty", "Nothing", "vt:lpwstr", ""),
    ("custom int", "Int", "vt:i4", "-2147483648"),
    ("custom zero", "Zero & <co>", "vt:i4", "0"),
    ("custom real", "Real", "vt:r8", "1234.5678"),
    ("custom small", "Small", "vt:r8", "-0.00000000123"),
    ("custom true", "True", "vt:bool", "true"),
    ("custom false", "False", "vt:bool", "false"),
    ("custom date", "Date", "vt:filetime", "2024-02-29T12:30:45Z"),
];
fn opts() -> Vec<Opt<DocProperties>> {
    let mut v = vec![];
    macro_rules! text {
        ($name:expr, $f:ident, $at:expr) => {
            for (n, t) in [("one", "Value <&> one"), ("two", "zwei \u{e4}"), ("empty", "")] {
                let want = if !t.is_empty() {
                    $at.split('|').map(|a| format!("{a}={t}")).collect::<Vec<_>>().join(";")
                } else if ["Company", "author"].contains(&$name) {
                    $at.split('|').map(|a| format!("{a}=")).collect::<Vec<_>>().join(";")
                } else {
                    String::new()
                };
                crate::opt!(v, format!("{} {n}", $name), $name, move |p: &mut DocProperties| {
                    *p = p.clone().$f(t);
                    Ok(())
                }, want);
            }
        };
    }
    text!("title", set_title, "core/dc:title");
    text!("subject", set_subject, "core/dc:subject");
    text!("author", set_author, "core/dc:creator|core/cp:lastModifiedBy");
    text!("keywords", set_keywords, "core/cp:keywords");
    text!("comment", set_comment, "core/dc:description");
    text!("category", set_category, "core/cp:category");
    text!("status", set_status, "core/cp:contentStatus");
    text!("manager", set_manager, "app/Manager");
    text!("company", set_company, "app/Company");
    text!("hyperlink base", set_hyperlink_base, "app/HyperlinkBase");
    for (n, y) in [("one", 1999), ("two", 2101)] {
        crate::opt!(v, format!("created {n}"), "created", move |p: &mut DocProperties| {
            *p = p.clone().set_creation_datetime(&e(e(ExcelDateTime::from_ymd(y, 3, 4))?.and_hms(5, 6, 7))?);
            Ok(())
        }, format!("core/dcterms:created={y}-03-04T05:06:07Z;core/dcterms:modified={y}-03-04T05:06:07Z"));
    }
    for (i, c) in CUSTOM.iter().enumerate() {
        crate::opt!(v, c.0, c.0, move |p: &mut DocProperties| {
            let (_, name, _, value) = CUSTOM[i];
            *p = match i {
                0 => p.clone().set_custom_property(name, value),
                1 => p.clone().set_custom_property(name, String::new()),
                2 => p.clone().set_custom_property(name, i32::MIN),
                3 => p.clone().set_custom_property(name, 0),
                4 => p.clone().set_custom_property(name, 1234.5678),
                5 => p.clone().set_custom_property(name, -1.23e-9),
                6 => p.clone().set_custom_property(name, true),
                7 => p.clone().set_custom_property(name, false),
                _ => p.clone().set_custom_property(name, &e(e(ExcelDateTime::from_ymd(2024, 2, 29))?.and_hms(12, 30, 45))?),
            };
            Ok(())
        }, "");
    }
    v
}
fn rule(s: &St, m: &mut Flat) {
    let all: Vec<_> = s.seq.iter().filter_map(|n| CUSTOM.iter().find(|c| c.0 == *n)).collect();
    if all.is_empty() {
        return;
    }
    m.insert("custom".into(), String::new());
    m.insert("custom@xmlns".into(), "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties".into());
    m.insert("custom@xmlns:vt".into(), "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes".into());
    for (i, c) in all.iter().enumerate() {
        let at = if i == 0 { "custom/property".to_string() } else { format!("custom/property[{}]", i + 1) };
        edits(m, &format!("{at}@fmtid={{D5CDD505-2E9C-101B-9397-08002B2CF9AE}};{at}@pid={};{at}@name={};{at}/{}={}", i + 2, c.1, c.2, c.3));
    }
}
const BASE: &str = "core/dc:creator;core/cp:lastModifiedBy;core/dcterms:created@xsi:type=dcterms:W3CDTF;core/dcterms:created=now;core/dcterms:modified@xsi:type=dcterms:W3CDTF;core/dcterms:modified=now;app/Application=Microsoft Excel;app/DocSecurity=0;app/ScaleCrop=false;app/HeadingPairs/vt:vector@size=2;app/HeadingPairs/vt:vector@baseType=variant;app/HeadingPairs/vt:vector/vt:variant/vt:lpstr=Worksheets;app/HeadingPairs/vt:vector/vt:variant[2]/vt:i4=1;app/TitlesOfParts/vt:vector@size=1;app/TitlesOfParts/vt:vector@baseType=lpstr;app/TitlesOfParts/vt:vector/vt:lpstr=Sheet1;app/Company;app/LinksUpToDate=false;app/SharedDoc=false;app/HyperlinksChanged=false;app/AppVersion=12.0000;core@xmlns:cp=http://schemas.openxmlformats.org/package/2006/metadata/core-properties;core@xmlns:dc=http://purl.org/dc/elements/1.1/;core@xmlns:dcterms=http://purl.org/dc/terms/;core@xmlns:dcmitype=http://purl.org/dc/dcmitype/;core@xmlns:xsi=http://www.w3.org/2001/XMLSchema-instance;app@xmlns=http://schemas.openxmlformats.org/officeDocument/2006/extended-properties;app@xmlns:vt=http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes";
/// Now, as a UTC time between 2020 and 2100.
fn now(s: &str) -> bool {
    s.len() == 20 && s.starts_with("20") && s.bytes().zip("0000-00-00T00:00:00Z".bytes()).all(|(a, b)| if b == b'0' { a.is_ascii_digit() } else { a == b })
}
fn facts(wb: &mut Workbook) -> Result<Flat, String> {
    let p = closed(wb)?;
    let mut m = flat(p.x("docProps/core.xml")?, "core");
    m.extend(flat(p.x("docProps/app.xml")?, "app"));
    if p.part("docProps/custom.xml").is_some() {
        m.extend(flat(p.x("docProps/custom.xml")?, "custom"));
    }
    let (a, b) = (m.get("core/dcterms:created").cloned(), m.get("core/dcterms:modified").cloned());
    if a == b && a.as_deref().is_some_and(|a| now(a) && !a.starts_with("2101")) {
        for k in ["core/dcterms:created", "core/dcterms:modified"] {
            m.insert(k.into(), "now".into());
        }
    }
    Ok(m)
}
fn run(run: &mut Run) {
    let mut base = Flat::new();
    edits(&mut base, BASE);
    let mut d = Dom { name: "properties".into(), opts: opts(), base, rule };
    let set = |s: &[&Opt<DocProperties>]| -> Result<DocProperties, String> {
        let mut p = DocProperties::new();
        for o in s {
            (o.apply)(&mut p)?;
        }
        Ok(p)
    };
    let depth = run.pick(3, 4);
    crate::opt::explore(run, &d, depth, |s| {
        let mut wb = Workbook::new();
        wb.set_properties(&set(s)?);
        wb.add_worksheet();
        facts(&mut wb)
    });
    // The last properties given count; nothing of the earlier ones is left.
    d.name = "properties replaced".into();
    let depth = run.pick(2, 3);
    crate::opt::explore(run, &d, depth, |s| {
        let mut wb = Workbook::new();
        let mut all = DocProperties::new();
        for o in opts() {
            (o.apply)(&mut all)?;
        }
        wb.set_properties(&all);
        wb.add_worksheet();
        wb.set_properties(&set(s)?);
        let a = facts(&mut wb)?;
        wb.set_properties(&all);
        facts(&mut wb)?;
        wb.set_properties(&set(s)?);
        let b = facts(&mut wb)?;
        crate::opt::compare(&a, &b).map_err(|m| format!("differs when saved again: {m}"))?;
        Ok(a)
    });
}
