//! Open Packaging Convention reader and checker (independent of the library under test).
use crate::xml::{self, El};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

// Parts with the same bytes parse to the same tree: most parts of most packages repeat.
thread_local! {
    static CACHE: std::cell::RefCell<(usize, HashMap<Vec<u8>, Arc<El>>)> = std::cell::RefCell::new((0, HashMap::new()));
}
fn parse_cached(data: &[u8]) -> Result<Arc<El>, String> {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(x) = c.1.get(data) {
            return Ok(x.clone());
        }
        let x = Arc::new(xml::parse(data)?);
        if c.0 + data.len() > 1 << 20 {
            *c = (0, HashMap::new());
        }
        c.0 += data.len();
        c.1.insert(data.to_vec(), x.clone());
        Ok(x)
    })
}


pub struct Part {
    pub name: String,
    pub data: Vec<u8>,
    pub xml: Option<Arc<El>>,
}
pub struct Pkg {
    pub parts: Vec<Part>,
    pub idx: HashMap<String, usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Rel {
    pub id: String,
    pub typ: String,
    pub target: String,
    pub external: bool,
}
pub fn is_xml(name: &str) -> bool {
    name.ends_with(".xml") || name.ends_with(".rels") || name.ends_with(".vml")
}
/// Part name of the relationships part of `name`.
pub fn rels_name(name: &str) -> String {
    match name.rsplit_once('/') {
        Some((d, f)) => format!("{d}/_rels/{f}.rels"),
        None => format!("_rels/{name}.rels"),
    }
}
pub fn resolve(source: &str, target: &str) -> String {
    if let Some(t) = target.strip_prefix('/') {
        return t.to_string();
    }
    let mut dir: Vec<&str> = source.split('/').collect();
    dir.pop();
    for s in target.split('/') {
        match s {
            ".." => {
                dir.pop();
            }
            "." => {}
            _ => dir.push(s),
        }
    }
    dir.join("/")
}
impl Pkg {
    pub fn open(bytes: &[u8]) -> Result<Pkg, String> {
        let mut parts = vec![];
        let mut idx = HashMap::new();
        let mut seen = BTreeSet::new();
        for e in crate::zipr::read(bytes)? {
            if !seen.insert(e.name.to_lowercase()) {
                return Err(format!("part {} occurs twice in the package", e.name));
            }
            let xml = if is_xml(&e.name) {
                Some(parse_cached(&e.data).map_err(|m| format!("{}: not well-formed: {m}", e.name))?)
            } else {
                None
            };
            idx.insert(e.name.clone(), parts.len());
            parts.push(Part { name: e.name, data: e.data, xml });
        }
        Ok(Pkg { parts, idx })
    }
    pub fn part(&self, n: &str) -> Option<&Part> {
        self.idx.get(n).map(|i| &self.parts[*i])
    }
    pub fn x(&self, n: &str) -> Result<&El, String> {
        self.part(n).and_then(|p| p.xml.as_deref()).ok_or_else(|| format!("missing part {n}"))
    }
    pub fn rels(&self, source: &str) -> Vec<Rel> {
        let n = if source.is_empty() { "_rels/.rels".to_string() } else { rels_name(source) };
        let Some(x) = self.part(&n).and_then(|p| p.xml.as_ref()) else { return vec![] };
        x.named("Relationship")
            .map(|r| Rel {
                id: r.a("Id").unwrap_or("").into(),
                typ: r.a("Type").unwrap_or("").rsplit('/').next().unwrap_or("").into(),
                target: r.a("Target").unwrap_or("").into(),
                external: r.a("TargetMode") == Some("External"),
            })
            .collect()
    }
    /// Resolve a relationship id of a part to a part name of the given type.
    pub fn follow(&self, source: &str, id: &str, typ: &str) -> Result<String, String> {
        let rels = self.rels(source);
        let r = rels.iter().find(|r| r.id == id).ok_or_else(|| format!("{source}: no relationship {id}"))?;
        if r.typ != typ {
            return Err(format!("{source}: relationship {id} is of type {}, expected {typ}", r.typ));
        }
        if r.external {
            return Ok(r.target.clone());
        }
        let t = resolve(source, &r.target);
        if !self.idx.contains_key(&t) {
            return Err(format!("{source}: relationship {id} targets missing part {t}"));
        }
        Ok(t)
    }
    pub fn follow_type(&self, source: &str, typ: &str) -> Vec<String> {
        self.rels(source).iter().filter(|r| r.typ == typ && !r.external).map(|r| resolve(source, &r.target)).collect()
    }
    /// (sheet name, part name, state, is_chartsheet) in tab order.
    pub fn sheets(&self) -> Result<Vec<SheetRef>, String> {
        let wb = self.x("xl/workbook.xml")?;
        let rels = self.rels("xl/workbook.xml");
        let mut v = vec![];
        for s in wb.first("sheets").ok_or("no <sheets>")?.named("sheet") {
            let id = s.a("r:id").ok_or("sheet without r:id")?;
            let r = rels.iter().find(|r| r.id == id).ok_or_else(|| format!("workbook: no relationship {id}"))?;
            let chart = match r.typ.as_str() {
                "worksheet" => false,
                "chartsheet" => true,
                t => return Err(format!("sheet relationship of type {t}")),
            };
            let p = resolve("xl/workbook.xml", &r.target);
            if !self.idx.contains_key(&p) {
                return Err(format!("sheet part {p} is missing"));
            }
            v.push(SheetRef {
                name: s.a("name").unwrap_or("").into(),
                part: p,
                state: s.a("state").unwrap_or("visible").into(),
                chart,
                sheet_id: s.a("sheetId").unwrap_or("").into(),
            });
        }
        Ok(v)
    }
    pub fn sheet(&self, i: usize) -> Result<&El, String> {
        let s = self.sheets()?;
        let r = s.get(i).ok_or_else(|| format!("no sheet {i}"))?;
        self.x(&r.part)
    }
}
#[derive(Clone, Debug)]
pub struct SheetRef {
    pub name: String,
    pub part: String,
    pub state: String,
    pub chart: bool,
    pub sheet_id: String,
}

fn expected_ct(name: &str) -> Option<&'static str> {
    let m = "application/vnd.openxmlformats-officedocument.spreadsheetml.";
    let _ = m;
    Some(if name == "xl/workbook.xml" {
        "*sheet*.main+xml"
    } else if name.starts_with("xl/worksheets/sheet") {
        "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"
    } else if name.starts_with("xl/chartsheets/sheet") {
        "application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml"
    } else if name == "xl/styles.xml" {
        "application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml"
    } else if name == "xl/sharedStrings.xml" {
        "application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"
    } else if name.starts_with("xl/theme/") {
        "application/vnd.openxmlformats-officedocument.theme+xml"
    } else if name.starts_with("xl/charts/chart") {
        "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"
    } else if name.starts_with("xl/drawings/drawing") {
        "application/vnd.openxmlformats-officedocument.drawing+xml"
    } else if name.starts_with("xl/drawings/vmlDrawing") {
        "application/vnd.openxmlformats-officedocument.vmlDrawing"
    } else if name.starts_with("xl/tables/table") {
        "application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml"
    } else if name.starts_with("xl/comments") {
        "application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml"
    } else if name == "xl/metadata.xml" {
        "application/vnd.openxmlformats-officedocument.spreadsheetml.sheetMetadata+xml"
    } else if name == "docProps/core.xml" {
        "application/vnd.openxmlformats-package.core-properties+xml"
    } else if name == "docProps/app.xml" {
        "application/vnd.openxmlformats-officedocument.extended-properties+xml"
    } else if name == "docProps/custom.xml" {
        "application/vnd.openxmlformats-officedocument.custom-properties+xml"
    } else if name == "xl/vbaProject.bin" {
        "application/vnd.ms-office.vbaProject"
    } else if name.ends_with(".png") {
        "image/png"
    } else if name.ends_with(".jpeg") {
        "image/jpeg"
    } else if name.ends_with(".gif") {
        "image/gif"
    } else if name.ends_with(".bmp") {
        "image/bmp"
    } else if name == "xl/richData/richValueRel.xml" {
        "application/vnd.ms-excel.richvaluerel+xml"
    } else if name == "xl/richData/rdrichvalue.xml" {
        "application/vnd.ms-excel.rdrichvalue+xml"
    } else if name == "xl/richData/rdrichvaluestructure.xml" {
        "application/vnd.ms-excel.rdrichvaluestructure+xml"
    } else if name == "xl/richData/rdRichValueTypes.xml" {
        "application/vnd.ms-excel.rdrichvaluetypes+xml"
    } else if name == "xl/featurePropertyBag/featurePropertyBag.xml" {
        "application/vnd.ms-excel.featurepropertybag+xml"
    } else {
        return None;
    })
}
/// What type of relationship must lead to a part.
fn expected_rel(name: &str) -> Option<&'static str> {
    Some(if name == "xl/workbook.xml" {
        "officeDocument"
    } else if name.starts_with("xl/worksheets/sheet") {
        "worksheet"
    } else if name.starts_with("xl/chartsheets/sheet") {
        "chartsheet"
    } else if name == "xl/styles.xml" {
        "styles"
    } else if name == "xl/sharedStrings.xml" {
        "sharedStrings"
    } else if name.starts_with("xl/theme/") {
        "theme"
    } else if name.starts_with("xl/charts/chart") {
        "chart"
    } else if name.starts_with("xl/drawings/drawing") {
        "drawing"
    } else if name.starts_with("xl/drawings/vmlDrawing") {
        "vmlDrawing"
    } else if name.starts_with("xl/tables/table") {
        "table"
    } else if name.starts_with("xl/comments") {
        "comments"
    } else if name == "xl/metadata.xml" {
        "sheetMetadata"
    } else if name == "docProps/core.xml" {
        "core-properties"
    } else if name == "docProps/app.xml" {
        "extended-properties"
    } else if name == "docProps/custom.xml" {
        "custom-properties"
    } else if name == "xl/vbaProject.bin" {
        "vbaProject"
    } else if name == "xl/vbaProjectSignature.bin" {
        "vbaProjectSignature"
    } else if name.starts_with("xl/media/") {
        "image"
    } else {
        return None;
    })
}
/// Relationship types that need no explicit reference from the source part's markup.
fn implicit(typ: &str) -> bool {
    matches!(
        typ,
        "comments" | "theme" | "styles" | "sharedStrings" | "sheetMetadata" | "vbaProject" | "vbaProjectSignature" | "officeDocument" | "core-properties" | "extended-properties" | "custom-properties" | "richValueRel" | "rdRichValue" | "rdRichValueStructure" | "rdRichValueTypes" | "FeaturePropertyBag"
    )
}
/// The relationship type an r:id-like attribute must have, by element name.
fn ref_type(el: &str, attr: &str) -> Option<&'static [&'static str]> {
    Some(match (el, attr) {
        ("sheet", "r:id") => &["worksheet", "chartsheet"],
        ("drawing", "r:id") => &["drawing"],
        ("legacyDrawing", "r:id") | ("legacyDrawingHF", "r:id") => &["vmlDrawing"],
        ("tablePart", "r:id") => &["table"],
        ("picture", "r:id") => &["image"],
        ("hyperlink", "r:id") => &["hyperlink"],
        ("a:hlinkClick", "r:id") => &["hyperlink"],
        ("a:blip", "r:embed") => &["image"],
        ("c:chart", "r:id") => &["chart"],
        ("v:imagedata", "o:relid") => &["image"],
        ("rel", "r:id") => &["image"],
        ("pageSetup", "r:id") => &["printerSettings"],
        _ => return None,
    })
}

/// Check that the package is closed: every part typed and reachable, every reference resolved.
pub fn check(p: &Pkg) -> Result<(), String> {
    // Content types.
    let ct = p.x("[Content_Types].xml")?;
    if ct.name != "Types" {
        return Err("[Content_Types].xml: bad root".into());
    }
    let mut defs: BTreeMap<String, String> = BTreeMap::new();
    let mut ovr: BTreeMap<String, String> = BTreeMap::new();
    for e in ct.els() {
        let t = e.a("ContentType").ok_or("content type without ContentType")?.to_string();
        match e.name.as_str() {
            "Default" => {
                let x = e.a("Extension").ok_or("Default without Extension")?.to_lowercase();
                if defs.insert(x.clone(), t).is_some() {
                    return Err(format!("[Content_Types].xml: Default for {x} twice"));
                }
            }
            "Override" => {
                let x = e.a("PartName").ok_or("Override without PartName")?;
                let Some(x) = x.strip_prefix('/') else { return Err(format!("Override PartName {x} not absolute")) };
                if !p.idx.contains_key(x) {
                    return Err(format!("[Content_Types].xml: Override for missing part {x}"));
                }
                if ovr.insert(x.to_string(), t).is_some() {
                    return Err(format!("[Content_Types].xml: Override for {x} twice"));
                }
            }
            o => return Err(format!("[Content_Types].xml: element {o}")),
        }
    }
    for part in &p.parts {
        if part.name == "[Content_Types].xml" {
            continue;
        }
        let ext = part.name.rsplit('.').next().unwrap_or("").to_lowercase();
        let t = ovr.get(&part.name).or_else(|| defs.get(&ext)).ok_or_else(|| format!("part {} has no content type", part.name))?;
        if part.name.ends_with(".rels") {
            if t != "application/vnd.openxmlformats-package.relationships+xml" {
                return Err(format!("{}: content type {t}", part.name));
            }
            continue;
        }
        if let Some(e) = expected_ct(&part.name) {
            let ok = if e == "*sheet*.main+xml" {
                let vba = p.idx.contains_key("xl/vbaProject.bin");
                t == if vba { "application/vnd.ms-excel.sheet.macroEnabled.main+xml" } else { "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml" }
            } else {
                t == e
            };
            if !ok {
                return Err(format!("{}: content type {t}, expected {e}", part.name));
            }
        }
    }
    // Relationships.
    let mut reached: BTreeSet<String> = BTreeSet::new();
    let mut sources: Vec<String> = vec![String::new()];
    sources.extend(p.parts.iter().filter(|x| !x.name.ends_with(".rels") && x.name != "[Content_Types].xml").map(|x| x.name.clone()));
    for part in p.parts.iter().filter(|x| x.name.ends_with(".rels")) {
        let ok = sources.iter().any(|s| if s.is_empty() { part.name == "_rels/.rels" } else { rels_name(s) == part.name });
        if !ok {
            return Err(format!("{}: relationships of a part that does not exist", part.name));
        }
        let x = part.xml.as_ref().unwrap();
        if x.name != "Relationships" {
            return Err(format!("{}: bad root", part.name));
        }
        if x.kids.is_empty() {
            return Err(format!("{}: empty relationships part", part.name));
        }
    }
    for s in &sources {
        let rels = p.rels(s);
        let label = if s.is_empty() { "package" } else { s };
        let mut ids = BTreeSet::new();
        for r in &rels {
            if r.id.is_empty() || !ids.insert(r.id.clone()) {
                return Err(format!("{label}: relationship id {:?} missing or not unique", r.id));
            }
            if r.external {
                if r.target.is_empty() {
                    return Err(format!("{label}: external relationship {} without target", r.id));
                }
                if r.typ != "hyperlink" {
                    return Err(format!("{label}: external relationship {} of type {}", r.id, r.typ));
                }
                continue;
            }
            if r.target.starts_with('#') && r.typ == "hyperlink" {
                continue;
            }
            let t = resolve(s, &r.target);
            if !p.idx.contains_key(&t) {
                return Err(format!("{label}: relationship {} targets missing part {t}", r.id));
            }
            if let Some(e) = expected_rel(&t) {
                if e != r.typ {
                    return Err(format!("{label}: relationship {} to {t} has type {}", r.id, r.typ));
                }
            }
            reached.insert(t);
        }
        if s.is_empty() {
            continue;
        }
        let Some(x) = p.part(s).and_then(|q| q.xml.as_ref()) else {
            if !rels.is_empty() && !s.ends_with("vbaProject.bin") {
                return Err(format!("{s}: binary part with relationships"));
            }
            continue;
        };
        let mut used: BTreeMap<String, usize> = BTreeMap::new();
        let mut err = None;
        x.walk(&mut |e| {
            for (k, v) in &e.attrs {
                if k.starts_with("r:") || k == "o:relid" {
                    let Some(types) = ref_type(&e.name, k) else {
                        err.get_or_insert(format!("{s}: unexpected reference {k}={v} in <{}>", e.name));
                        continue;
                    };
                    match rels.iter().find(|r| &r.id == v) {
                        None => {
                            err.get_or_insert(format!("{s}: <{} {k}={v:?}> refers to no relationship", e.name));
                        }
                        Some(r) => {
                            if !types.contains(&r.typ.as_str()) {
                                err.get_or_insert(format!("{s}: <{} {k}={v:?}> refers to a relationship of type {}", e.name, r.typ));
                            }
                            *used.entry(v.clone()).or_default() += 1;
                        }
                    }
                }
            }
        });
        if let Some(e) = err {
            return Err(e);
        }
        for r in &rels {
            if !implicit(&r.typ) && !used.contains_key(&r.id) {
                return Err(format!("{s}: relationship {} ({}) is not referenced", r.id, r.typ));
            }
        }
    }
    for s in &sources {
        if !s.is_empty() && !reached.contains(s) {
            return Err(format!("part {s} is not the target of any relationship"));
        }
    }
    // Workbook level.
    let wb = p.x("xl/workbook.xml")?;
    let sheets = p.sheets()?;
    if sheets.is_empty() {
        return Err("no sheets".into());
    }
    let mut names = BTreeSet::new();
    let mut ids = BTreeSet::new();
    let mut parts = BTreeSet::new();
    for s in &sheets {
        if !names.insert(s.name.to_lowercase()) || !ids.insert(s.sheet_id.clone()) || !parts.insert(s.part.clone()) {
            return Err(format!("sheet {} is not unique", s.name));
        }
    }
    let nparts = p.parts.iter().filter(|x| x.name.starts_with("xl/worksheets/sheet") || x.name.starts_with("xl/chartsheets/sheet")).count();
    if nparts != sheets.len() {
        return Err(format!("{nparts} sheet parts for {} sheets", sheets.len()));
    }
    if let Some(d) = wb.first("definedNames") {
        for n in d.named("definedName") {
            if let Some(l) = n.a("localSheetId") {
                match l.parse::<usize>() {
                    Ok(l) if l < sheets.len() => {}
                    _ => return Err(format!("definedName with localSheetId {l}")),
                }
            }
        }
    }
    if let Some(v) = wb.path("bookViews/workbookView") {
        for a in ["activeTab", "firstSheet"] {
            if let Some(t) = v.au(a) {
                let lim = sheets.len() as u64 + u64::from(a == "firstSheet");
                if t >= lim {
                    return Err(format!("{a} {t} with {} sheets", sheets.len()));
                }
            }
        }
    }
    // Titles in app.xml.
    let app = p.x("docProps/app.xml")?;
    let titles: Vec<String> = app.path("TitlesOfParts/vt:vector").map(|v| v.named("vt:lpstr").map(|e| crate::xml::loose(&e.text())).collect()).unwrap_or_default();
    let decl = app.path("TitlesOfParts/vt:vector").and_then(|v| v.au("size")).unwrap_or(0) as usize;
    if decl != titles.len() {
        return Err(format!("app.xml: TitlesOfParts size {decl} with {} titles", titles.len()));
    }
    let mut pairs: Vec<(String, usize)> = vec![];
    if let Some(v) = app.path("HeadingPairs/vt:vector") {
        let vs: Vec<&El> = v.named("vt:variant").collect();
        if v.au("size").unwrap_or(0) as usize != vs.len() || vs.len() % 2 != 0 {
            return Err("app.xml: HeadingPairs size".into());
        }
        for c in vs.chunks(2) {
            pairs.push((c[0].deep_text(), c[1].deep_text().parse().unwrap_or(9999)));
        }
    }
    if pairs.iter().map(|x| x.1).sum::<usize>() != titles.len() {
        return Err(format!("app.xml: HeadingPairs {pairs:?} with {} titles", titles.len()));
    }
    let ws: Vec<String> = sheets.iter().filter(|s| !s.chart && s.state != "veryHidden").map(|s| s.name.clone()).collect();
    let cs: Vec<String> = sheets.iter().filter(|s| s.chart && s.state != "veryHidden").map(|s| s.name.clone()).collect();
    let mut want = ws.clone();
    want.extend(cs.clone());
    let want: Vec<String> = want.iter().map(|w| crate::xml::loose(w)).collect();
    if titles.len() < want.len() || titles[..want.len()] != want[..] {
        return Err(format!("app.xml: titles {titles:?} for sheets {want:?}"));
    }
    // Names: those local to a sheet (not the hidden filter range), and those that refer to a sheet.
    let mut names: Vec<String> = vec![];
    if let Some(d) = p.x("xl/workbook.xml")?.first("definedNames") {
        for n in d.named("definedName") {
            let name = n.a("name").unwrap_or("");
            if name == "_xlnm._FilterDatabase" {
                continue;
            }
            let name = name.strip_prefix("_xlnm.").unwrap_or(name);
            match n.au("localSheetId") {
                Some(i) => names.push(format!("{}!{name}", sheets.get(i as usize).ok_or("localSheetId of no sheet")?.name)),
                None if n.text().contains('!') => names.push(name.to_string()),
                None => {}
            }
        }
    }
    let plain = |t: &String| match t.rfind('!') {
        Some(i) if t.starts_with('\'') && i > 1 => format!("{}{}", t[1..i - 1].replace("''", "'"), &t[i..]),
        _ => t.clone(),
    };
    let got: Vec<String> = titles[want.len()..].iter().map(plain).collect();
    let names: Vec<String> = names.iter().map(|n| crate::xml::loose(n)).collect();
    if got != names {
        return Err(format!("app.xml: names {got:?}, expected {names:?}"));
    }
    for (k, n) in [("Worksheets", ws.len()), ("Charts", cs.len()), ("Named Ranges", names.len())] {
        let got = pairs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0);
        if got != n {
            return Err(format!("app.xml: {got} {k}, expected {n}"));
        }
    }
    let order: Vec<&str> = pairs.iter().map(|x| x.0.as_str()).collect();
    let mut sorted = order.clone();
    sorted.sort_by_key(|k| ["Worksheets", "Charts", "Named Ranges"].iter().position(|x| x == k));
    if order != sorted || order.iter().any(|k| !["Worksheets", "Charts", "Named Ranges"].contains(k)) {
        return Err(format!("app.xml: heading pairs {order:?}"));
    }
    Ok(())
}
