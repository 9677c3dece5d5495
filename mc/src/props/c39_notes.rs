//! C39: notes and buttons are written as configured.
use super::util::*;
use super::Prop;
use crate::opt::{Dom, Flat, Opt, St};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C39",
    level: "model_checking",
    rule: "Model: the last setting of each option of two notes and two buttons and of their worksheet, the author of each note (its own, else the default of the worksheet at the time of saving), and the sets of notes and buttons of two worksheets by cell. All sequences of settings up to the depth, all counts of objects around the size of a block of shape ids, and all histories of inserting, replacing, default authors, visibility and saves are applied to the real code; comments, authors, shapes and their ids are compared with the model.",
    assumes: &["buttons are named and numbered in the order of their cells"],
    run,
};
struct T {
    n: [Note; 2],
    b: [Button; 2],
    author: Option<String>,
    show: Option<bool>,
}
const LONG: usize = 256;
const TEXTS: [(&str, &str); 4] = [("plain", "Some text"), ("odd", " <&> \"é\"\nline _x0041_ "), ("empty", ""), ("tab", "\ta")];
fn long(n: usize) -> String {
    "y".repeat(n)
}
fn opts() -> Vec<Opt<T>> {
    let mut v: Vec<Opt<T>> = vec![];
    macro_rules! o {
        ($name:expr, $group:expr, $f:expr) => {
            crate::opt!(v, $name, $group, $f, "")
        };
    }
    macro_rules! note {
        ($k:expr, $name:expr, $group:expr, $f:expr) => {
            o!(format!("n{} {} {}", $k, $group, $name), format!("n{} {}", $k, $group), move |t: &mut T| {
                let f: fn(Note) -> Note = $f;
                t.n[$k] = f(t.n[$k].clone());
                Ok(())
            });
        };
    }
    macro_rules! button {
        ($k:expr, $name:expr, $group:expr, $f:expr) => {
            o!(format!("b{} {} {}", $k, $group, $name), format!("b{} {}", $k, $group), move |t: &mut T| {
                let f: fn(Button) -> Button = $f;
                t.b[$k] = f(t.b[$k].clone());
                Ok(())
            });
        };
    }
    macro_rules! both {
        ($k:tt) => {
            note!($k, "Bob", "author", |n| n.set_author("Bob"));
            note!($k, "Ann <&>", "author", |n| n.set_author("Ann <&>"));
            note!($k, "true", "prefix", |n| n.add_author_prefix(true));
            note!($k, "false", "prefix", |n| n.add_author_prefix(false));
            note!($k, "true", "visible", |n| n.set_visible(true));
            note!($k, "false", "visible", |n| n.set_visible(false));
            note!($k, "#ff7f50", "fill", |n| n.set_background_color("#FF7F50"));
            note!($k, "#ffffe1", "fill", |n| n.set_background_color(Color::Theme(3, 1)));
            note!($k, "Courier New", "font", |n| n.set_font_name("Courier New"));
            note!($k, "Calibri", "font", |n| n.set_font_name("Calibri"));
            note!($k, "10.5", "size", |n| n.set_font_size(10.5));
            note!($k, "3", "family", |n| n.set_font_family(3));
            note!($k, "A <&> \"x\"", "alt", |n| n.set_alt_text("A <&> \"x\""));
            for i in 0..TEXTS.len() {
                o!(format!("n{} text {}", $k, TEXTS[i].0), format!("n{} text", $k), move |t: &mut T| {
                    t.n[$k].reset_text(TEXTS[i].1);
                    Ok(())
                });
            }
            button!($k, "Press & go", "caption", |b| b.set_caption("Press & go"));
            button!($k, "run_it", "macro", |b| b.set_macro("run_it"));
            button!($k, "A <&> \"x\"", "alt", |b| b.set_alt_text("A <&> \"x\""));
        };
    }
    both!(0);
    both!(1);
    // What is too long is ignored: these are groups of their own without effect.
    note!(0, "x", "long author", |n| n.set_author(long(53)));
    note!(0, "x", "long alt", |n| n.set_alt_text(long(LONG)));
    button!(0, "x", "long caption", |b| b.set_caption(long(LONG)));
    button!(0, "x", "long alt", |b| b.set_alt_text(long(LONG)));
    for a in ["Zoe", "Bob"] {
        o!(format!("default {a}"), "default", move |t: &mut T| {
            t.author = Some(a.into());
            Ok(())
        });
    }
    for a in [true, false] {
        o!(format!("show {a}"), "show", move |t: &mut T| {
            t.show = Some(a);
            Ok(())
        });
    }
    v
}
fn run_of(bold: bool, size: &str, font: &str, family: &str, text: &str) -> String {
    format!("{}{size} {font} {family} 81 {text:?}", if bold { "bold " } else { "" })
}
fn rule(s: &St, m: &mut Flat) {
    let get = |g: &str| s.force.get(g).map(|n| n[g.len() + 1..].to_string());
    let mut put = |k: String, v: String| {
        m.insert(k, v);
    };
    let default = get("default").unwrap_or("Author".into());
    let show = get("show").as_deref() == Some("true");
    for k in 0..2 {
        let get = |g: &str| get(&format!("n{k} {g}"));
        let author = get("author").unwrap_or(default.clone());
        let text = get("text").map_or("note", |n| TEXTS.iter().find(|t| t.0 == n).unwrap().1);
        let (size, font, family) = (get("size").unwrap_or("8".into()), get("font").unwrap_or("Tahoma".into()), get("family").unwrap_or("2".into()));
        let runs = if get("prefix").as_deref() == Some("false") {
            run_of(false, &size, &font, &family, text)
        } else {
            format!("{} + {}", run_of(true, &size, &font, &family, &format!("{author}:")), run_of(false, &size, &font, &family, &format!("\n{text}")))
        };
        put(format!("n{k} author"), author);
        put(format!("n{k} runs"), runs);
        let visible = get("visible").map_or(show, |v| v == "true");
        put(format!("n{k} visible"), format!("{visible} {visible}"));
        put(format!("n{k} fill"), get("fill").unwrap_or("#ffffe1".into()));
        put(format!("n{k} alt"), get("alt").unwrap_or_default());
    }
    for k in 0..2 {
        let get = |g: &str| get(&format!("b{k} {g}"));
        put(format!("b{k} caption"), get("caption").unwrap_or(format!("Button {}", k + 1)));
        put(format!("b{k} macro"), format!("[0]!{}", get("macro").unwrap_or(format!("Button{}_Click", k + 1))));
        put(format!("b{k} alt"), get("alt").unwrap_or_default());
    }
}
/// The comments of a worksheet: cell, author and runs.
fn comments(p: &Pkg, i: usize) -> Result<Vec<(String, String, String)>, String> {
    let sr = &p.sheets()?[i];
    let parts = p.follow_type(&sr.part, "comments");
    let Some(part) = parts.first() else { return Ok(vec![]) };
    eq("comment parts", 1, parts.len())?;
    let x = p.x(part)?;
    let authors: Vec<String> = x.find_all("author").iter().map(|a| a.text()).collect();
    eq("authors named once", authors.len(), authors.iter().collect::<BTreeSet<_>>().len())?;
    let mut v = vec![];
    for c in x.find_all("comment") {
        let id: usize = c.a("authorId").and_then(|a| a.parse().ok()).ok_or("no author id")?;
        let author = authors.get(id).ok_or("an author id without an author")?;
        let mut runs = vec![];
        for r in c.find_all("r") {
            let val = |n: &str, a: &str| r.path(&format!("rPr/{n}")).and_then(|e| e.a(a)).unwrap_or("-").to_string();
            let t = r.path("t").ok_or("a run without text")?;
            let text = t.text();
            let blank = |c: char| " \t\n".contains(c);
            if (text.starts_with(blank) || text.ends_with(blank)) != (t.a("xml:space") == Some("preserve")) {
                return Err(format!("blanks of {text:?} aren't kept"));
            }
            let s = run_of(r.path("rPr/b").is_some(), &val("sz", "val"), &val("rFont", "val"), &val("family", "val"), &crate::xml::unescape_x(&text));
            runs.push(s.replace(" 81 ", &format!(" {} ", val("color", "indexed"))));
        }
        v.push((c.a("ref").unwrap_or("-").to_string(), author.clone(), runs.join(" + ")));
    }
    Ok(v)
}
/// The shapes of a worksheet.
fn shapes(p: &Pkg, i: usize) -> Result<(Vec<&El>, Vec<u32>), String> {
    let sr = &p.sheets()?[i];
    let Some(d) = p.sheet(i)?.path("legacyDrawing").and_then(|d| d.a("r:id")) else { return Ok((vec![], vec![])) };
    let x = p.x(&p.follow(&sr.part, d, "vmlDrawing")?)?;
    let blocks = x.path("o:shapelayout/o:idmap").and_then(|m| m.a("data")).unwrap_or("").split(',').filter_map(|b| b.parse().ok()).collect();
    Ok((x.named("v:shape").collect(), blocks))
}
fn is_note(s: &El) -> bool {
    s.find_all("x:ClientData").first().is_some_and(|d| d.a("ObjectType") == Some("Note"))
}
fn cell_of(s: &El) -> String {
    let n = |k: &str| s.find_all(k).first().map(|x| x.text()).and_then(|t| t.parse::<u32>().ok()).unwrap_or(9_999_999);
    cell_name(n("x:Row"), n("x:Column") as u16)
}
fn visible(s: &El) -> String {
    format!("{} {}", s.a("style").unwrap_or("").split(';').any(|x| x == "visibility:visible"), s.find_all("x:Visible").len() == 1)
}
fn button(s: &El) -> (String, String) {
    (s.find_all("font").first().map(|f| f.text()).unwrap_or_default(), s.find_all("x:FmlaMacro").first().map(|f| f.text()).unwrap_or_default())
}
/// All ids differ and lie in the blocks of their worksheet, and no block belongs to two worksheets.
fn check_ids(p: &Pkg) -> R {
    let mut seen = BTreeSet::new();
    let mut taken = BTreeSet::new();
    for i in 0..p.sheets()?.len() {
        let (ss, blocks) = shapes(p, i)?;
        for b in &blocks {
            if !taken.insert(*b) {
                return Err(format!("block {b} of shape ids belongs to two worksheets"));
            }
        }
        for s in ss {
            let id: u32 = s.a("id").and_then(|x| x.strip_prefix("_x0000_s")).and_then(|x| x.parse().ok()).ok_or("no shape id")?;
            if !seen.insert(id) {
                return Err(format!("shape id {id} is used twice"));
            }
            if !blocks.contains(&(id / 1024)) {
                return Err(format!("shape id {id} isn't in the blocks {blocks:?}"));
            }
        }
    }
    Ok(())
}
fn observe(s: &[&Opt<T>], memory: bool) -> Result<Flat, String> {
    let mut t = T { n: [Note::new("note"), Note::new("note")], b: [Button::new(), Button::new()], author: None, show: None };
    for o in s {
        (o.apply)(&mut t)?;
    }
    let mut wb = Workbook::new();
    let w = if memory { wb.add_worksheet_with_constant_memory() } else { wb.add_worksheet() };
    e(w.insert_note(0, 0, &t.n[0]))?;
    if let Some(a) = &t.author {
        w.set_default_note_author(a);
    }
    e(w.insert_note(2, 1, &t.n[1]))?;
    e(w.insert_button(1, 5, &t.b[1]))?;
    e(w.insert_button(0, 9, &t.b[0]))?;
    if let Some(a) = t.show {
        w.show_all_notes(a);
    }
    let p = closed(&mut wb)?;
    let mut m = Flat::new();
    let c = comments(&p, 0)?;
    eq("cells", vec!["A1", "B3"], c.iter().map(|c| c.0.as_str()).collect::<Vec<_>>())?;
    for (k, (_, author, runs)) in c.iter().enumerate() {
        m.insert(format!("n{k} author"), author.clone());
        m.insert(format!("n{k} runs"), runs.clone());
    }
    check_ids(&p)?;
    let (ss, _) = shapes(&p, 0)?;
    let (n, b): (Vec<&El>, Vec<&El>) = ss.into_iter().partition(|s| is_note(s));
    eq("cells of shapes", vec!["A1".to_string(), "B3".to_string()], n.iter().map(|s| cell_of(s)).collect::<Vec<_>>())?;
    for (k, s) in n.iter().enumerate() {
        m.insert(format!("n{k} visible"), visible(s));
        m.insert(format!("n{k} fill"), s.a("fillcolor").unwrap_or("").to_string());
        m.insert(format!("n{k} alt"), s.a("alt").unwrap_or("").to_string());
    }
    eq("buttons", 2, b.len())?;
    for (k, s) in b.iter().enumerate() {
        let (c, mac) = button(s);
        m.insert(format!("b{k} caption"), c);
        m.insert(format!("b{k} macro"), mac);
        m.insert(format!("b{k} alt"), s.a("alt").unwrap_or("").to_string());
    }
    Ok(m)
}
const OPS: [&str; 12] = ["note A1", "note A1 by Bob", "note B2 by Ann", "note B2 by Bob, visible", "note A1 on 2 by Bob", "default Ann", "default Zed", "show all", "show none", "button at D4", "first button of 2", "save"];

fn run(run: &mut Run) {
    let dom = Dom { name: "options".into(), opts: opts(), base: Flat::new(), rule };
    crate::opt::explore(run, &dom, run.pick(2, 3), |s| observe(s, false));
    // Counts of objects around a block of shape ids.
    const NOTES: [u32; 8] = [0, 1, 2, 1022, 1023, 1024, 1025, 2047];
    const BUTTONS: [u32; 6] = [0, 1, 2, 1022, 1023, 1024];
    run.explore("ids", (NOTES.len() * BUTTONS.len()) as u64, |i, rec| {
        let (n, b) = (NOTES[i as usize % NOTES.len()], BUTTONS[i as usize / NOTES.len()]);
        rec.describe(|| format!("{n} notes and {b} buttons, then a worksheet with a note and a button"));
        rec.step();
        rec.trace();
        rec.state(&(n, b));
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        for k in 0..n {
            e(w.insert_note(k / 16, (k % 16) as u16, &Note::new("n")))?;
        }
        for k in 0..b {
            e(w.insert_button(k / 16, (k % 16) as u16, &Button::new()))?;
        }
        let w = wb.add_worksheet();
        e(w.insert_note(0, 0, &Note::new("n")))?;
        e(w.insert_button(0, 0, &Button::new()))?;
        let p = pkg(&mut wb)?;
        eq("shapes", (n + b) as usize, shapes(&p, 0)?.0.len())?;
        check_ids(&p)
    });
    // Texts at the limits.
    run.explore("limits", 4, |i, rec| {
        let n = [32_712usize, 32_713, 32_714, 40_000][i as usize];
        rec.describe(|| format!("a note of {n} characters"));
        rec.step();
        rec.trace();
        let mut wb = Workbook::new();
        let r = wb.add_worksheet().insert_note(0, 0, &Note::new("é".repeat(n))).map(|_| ());
        rec.state(&n);
        match (n > 32_713, r) {
            (true, Err(XlsxError::MaxStringLengthExceeded)) => eq("notes", 0, comments(&pkg(&mut wb)?, 0)?.len()),
            (false, Ok(())) => eq("notes", 1, comments(&pkg(&mut wb)?, 0)?.len()),
            (_, r) => Err(format!("gave {r:?}")),
        }
    });
    // Histories on two worksheets.
    run.explore("histories", seqs(OPS.len() as u64, run.pick(4, 5)), |i, rec| {
        let s = seq(i, OPS.len() as u64);
        rec.describe(|| format!("{:?}", s.iter().map(|x| OPS[*x]).collect::<Vec<_>>()));
        rec.trace();
        let mut wb = Workbook::new();
        wb.add_worksheet();
        wb.add_worksheet();
        // Per worksheet: notes by cell with author and visibility; the default author; visibility; buttons by cell.
        type Notes = BTreeMap<(u32, u16), (Option<&'static str>, bool, usize)>;
        let mut notes: [Notes; 2] = Default::default();
        let mut buttons: [BTreeSet<(u32, u16)>; 2] = Default::default();
        let mut default = "Author";
        let mut show = false;
        for (n, o) in s.iter().chain(&[11]).enumerate() {
            rec.step();
            let on2 = OPS[*o].ends_with("of 2") || OPS[*o].contains("on 2");
            let w = e(wb.worksheet_from_index(usize::from(on2)))?;
            match OPS[*o] {
                "default Ann" | "default Zed" => {
                    default = &OPS[*o][8..];
                    w.set_default_note_author(default);
                }
                "show all" | "show none" => {
                    show = OPS[*o] == "show all";
                    w.show_all_notes(show);
                }
                "button at D4" => {
                    e(w.insert_button(3, 3, &Button::new()))?;
                    buttons[0].insert((3, 3));
                }
                "first button of 2" => {
                    e(w.insert_button(n as u32, 0, &Button::new()))?;
                    buttons[1].insert((n as u32, 0));
                }
                "save" => {
                    let p = if n == s.len() { closed(&mut wb)? } else { pkg(&mut wb)? };
                    check_ids(&p)?;
                    for k in 0..2 {
                        let d = if k == 0 { default } else { "Author" };
                        let want: Vec<_> = notes[k]
                            .iter()
                            .map(|((r, c), (a, _, t))| {
                                let a = a.unwrap_or(d);
                                (cell_name(*r, *c), a.to_string(), format!("{} + {}", run_of(true, "8", "Tahoma", "2", &format!("{a}:")), run_of(false, "8", "Tahoma", "2", &format!("\nnote {t}"))))
                            })
                            .collect();
                        eq("comments", want, comments(&p, k)?)?;
                        let (ss, _) = shapes(&p, k)?;
                        let (ns, bs): (Vec<&El>, Vec<&El>) = ss.into_iter().partition(|s| is_note(s));
                        let want: Vec<_> = notes[k].iter().map(|((r, c), (_, v, _))| (cell_name(*r, *c), format!("{0} {0}", *v || (k == 0 && show)))).collect();
                        eq("note shapes", want, ns.iter().map(|s| (cell_of(s), visible(s))).collect::<Vec<_>>())?;
                        let want: Vec<_> = (1..=buttons[k].len()).map(|j| (format!("Button {j}"), format!("[0]!Button{j}_Click"))).collect();
                        eq("buttons", want, bs.iter().map(|s| button(s)).collect::<Vec<_>>())?;
                        let rows: Vec<f64> = bs.iter().filter_map(|s| s.find_all("x:Anchor").first().and_then(|a| a.text().split(',').nth(2)?.trim().parse().ok())).collect();
                        eq("rows of buttons", buttons[k].iter().map(|b| f64::from(b.0)).collect::<Vec<_>>(), rows)?;
                    }
                }
                op => {
                    let at = if op.contains("B2") { (1, 1) } else { (0, 0) };
                    let a = if op.contains("Bob") {
                        Some("Bob")
                    } else if op.contains("Ann") {
                        Some("Ann")
                    } else {
                        None
                    };
                    let mut note = Note::new(format!("note {n}"));
                    if let Some(a) = a {
                        note = note.set_author(a);
                    }
                    let vis = op.contains("visible");
                    if vis {
                        note = note.set_visible(true);
                    }
                    e(w.insert_note(at.0, at.1, &note))?;
                    notes[usize::from(on2)].insert(at, (a, vis, n));
                }
            }
            rec.state(&(&notes, &buttons, default, show));
        }
        Ok(())
    });
}
