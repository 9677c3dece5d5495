//! C29: sheet protection.
use super::util::*;
use super::Prop;

pub const PROP: Prop = Prop {
    id: "C29",
    level: "model_checking",
    rule: "Model: the protection state (on, password, options, unprotected ranges) after each call, rendered to the expected sheetProtection and protectedRanges. Option sets are enumerated over all subsets of the 16 options up to a size and their complements (thorough: all), call sequences up to the depth, and passwords over all short byte strings of an alphabet against an independent statement of the legacy hash.",
    assumes: &["the legacy password verifier is that of ECMA-376 18.3.1.85"],
    run,
};
const FLAGS: [(&str, fn(&mut ProtectionOptions, bool)); 16] = [
    ("select_locked_cells", |o, b| o.select_locked_cells = b),
    ("select_unlocked_cells", |o, b| o.select_unlocked_cells = b),
    ("format_cells", |o, b| o.format_cells = b),
    ("format_columns", |o, b| o.format_columns = b),
    ("format_rows", |o, b| o.format_rows = b),
    ("insert_columns", |o, b| o.insert_columns = b),
    ("insert_rows", |o, b| o.insert_rows = b),
    ("insert_links", |o, b| o.insert_links = b),
    ("delete_columns", |o, b| o.delete_columns = b),
    ("delete_rows", |o, b| o.delete_rows = b),
    ("sort", |o, b| o.sort = b),
    ("use_autofilter", |o, b| o.use_autofilter = b),
    ("use_pivot_tables", |o, b| o.use_pivot_tables = b),
    ("edit_scenarios", |o, b| o.edit_scenarios = b),
    ("edit_objects", |o, b| o.edit_objects = b),
    ("contents", |o, b| o.contents = b),
];
/// What the schema attribute says when the user is allowed: the value of the attribute, and its default.
const ATTR: [(&str, u8); 15] = [
    // (attribute, default of the attribute; 1 = protected)
    ("selectLockedCells", 0),
    ("selectUnlockedCells", 0),
    ("formatCells", 1),
    ("formatColumns", 1),
    ("formatRows", 1),
    ("insertColumns", 1),
    ("insertRows", 1),
    ("insertHyperlinks", 1),
    ("deleteColumns", 1),
    ("deleteRows", 1),
    ("sort", 1),
    ("autoFilter", 1),
    ("pivotTables", 1),
    ("scenarios", 0),
    ("objects", 0),
];
const DEFAULT: u32 = 0b1000_0000_0000_0011;
fn options(bits: u32) -> ProtectionOptions {
    let mut o = ProtectionOptions::new();
    for (i, f) in FLAGS.iter().enumerate() {
        f.1(&mut o, bits >> i & 1 == 1);
    }
    o
}
/// The legacy verifier, stated over 15-bit rotations: the bytes rotated left by their position, the length and a constant.
fn verifier(p: &str) -> u16 {
    if p.is_empty() {
        return 0;
    }
    let rot = |x: u32, n: usize| -> u32 {
        let n = n % 15;
        let x = x & 0x7fff;
        ((x << n) | (x >> (15 - n))) & 0x7fff
    };
    let mut h = 0u32;
    for (i, b) in p.bytes().enumerate() {
        h ^= rot(b as u32, i + 1);
    }
    (h ^ p.len() as u32 ^ 0xCE4B) as u16
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    on: bool,
    hash: u16,
    bits: u32,
    ranges: Vec<(String, String, u16)>,
}
fn check(p: &Pkg, n: usize, m: &M, chart: bool) -> R {
    let x = p.sheet(n)?;
    match x.first("sheetProtection") {
        None => eq("protection", m.on, false)?,
        Some(s) => {
            eq("protection", m.on, true)?;
            let got = |a: &str, d: u8| s.a(a).map(|v| v.to_string()).unwrap_or(d.to_string());
            for (a, _) in &s.attrs {
                if !ATTR.iter().any(|x| x.0 == a) && !["password", "sheet", "content"].contains(&a.as_str()) {
                    return Err(format!("unknown attribute {a}"));
                }
            }
            eq("password", if m.hash == 0 { None } else { Some(format!("{:04X}", m.hash)) }, s.a("password").map(|v| v.to_string()))?;
            if chart {
                eq("content", (m.bits >> 15 & 1).to_string(), got("content", 0))?;
                eq("objects", (m.bits >> 14 & 1).to_string(), got("objects", 0))?;
            } else {
                eq("sheet", "1".to_string(), got("sheet", 0))?;
                for (i, (a, d)) in ATTR.iter().enumerate() {
                    let allowed = m.bits >> i & 1 == 1;
                    eq(a, (!allowed as u8).to_string(), got(a, *d))?;
                }
            }
        }
    }
    let mut got = vec![];
    if let Some(r) = x.first("protectedRanges") {
        for k in r.els() {
            got.push((k.a("sqref").unwrap_or("").to_string(), k.a("name").unwrap_or("").to_string(), k.a("password").map(|h| u16::from_str_radix(h, 16).unwrap_or(1)).unwrap_or(0)));
        }
        if got.is_empty() {
            return Err("empty protectedRanges".into());
        }
    }
    eq("ranges", m.ranges.clone(), got)
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Protect,
    Password(&'static str),
    Options(u32),
    Range(u32, u16, u32, u16),
    Named(u32, u16, u32, u16, &'static str, &'static str),
}
fn run(run: &mut Run) {
    // Option sets.
    let sets: Vec<u32> = if run.thorough {
        (0..1 << 16).collect()
    } else {
        let mut v: Vec<u32> = subsets(16, 3).iter().map(|s| s.iter().fold(0, |a, i| a | 1 << i)).collect();
        v.extend(v.clone().iter().map(|b| !b & 0xffff));
        v.extend(v.clone().iter().map(|b| b ^ DEFAULT));
        v.sort();
        v.dedup();
        v
    };
    run.explore("option sets", sets.len() as u64, |i, rec| {
        let bits = sets[i as usize];
        rec.describe(|| FLAGS.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|x| x.1 .0).collect::<Vec<_>>().join(" "));
        let m = M { on: true, hash: 0, bits, ranges: vec![] };
        let off = M { on: false, hash: 0, bits: DEFAULT, ranges: vec![] };
        rec.state(&m);
        rec.step();
        let mut wb = Workbook::new();
        wb.add_worksheet();
        wb.add_worksheet().protect_with_options(&options(bits));
        let c = wb.add_chartsheet();
        let mut ch = Chart::new_column();
        ch.add_series().set_values("Sheet1!$A$1:$A$3");
        e(c.insert_chart(0, 0, &ch))?;
        c.protect_with_options(&options(bits));
        let p = closed(&mut wb)?;
        check(&p, 0, &off, false)?;
        check(&p, 1, &m, false)?;
        check(&p, 2, &m, true)?;
        rec.trace();
        Ok(())
    });
    // Call sequences.
    let ops = [
        Op::Protect,
        Op::Password("abc"),
        Op::Password(""),
        Op::Password("another one"),
        Op::Options(0),
        Op::Options(0xffff),
        Op::Options(0b0101_0101_0101_0101),
        Op::Range(1, 1, 1, 1),
        Op::Range(0, 0, 1_048_575, 16_383),
        Op::Named(2, 2, 4, 5, "mine", ""),
        Op::Named(6, 0, 6, 3, "", "pass"),
        Op::Named(7, 0, 9, 0, "both & <x>", "w0rd"),
    ];
    let k = ops.len() as u64;
    let depth = run.pick(3, 4);
    run.explore("call sequences", seqs(k, depth), |i, rec| {
        let s = seq(i, k);
        rec.describe(|| s.iter().map(|j| format!("{:?}", ops[*j])).collect::<Vec<_>>().join(" "));
        let mut m = M { on: false, hash: 0, bits: DEFAULT, ranges: vec![] };
        rec.state(&m);
        let mut wb = Workbook::new();
        let ws = wb.add_worksheet();
        for j in &s {
            match ops[*j] {
                Op::Protect => {
                    m.on = true;
                    ws.protect();
                }
                Op::Password(p) => {
                    m.on = true;
                    m.hash = verifier(p);
                    ws.protect_with_password(p);
                }
                Op::Options(b) => {
                    m.on = true;
                    m.bits = b;
                    ws.protect_with_options(&options(b));
                }
                Op::Range(a, b, c, d) => {
                    m.ranges.push((range_name((a, b, c, d)), format!("Range{}", m.ranges.len() + 1), 0));
                    e(ws.unprotect_range(a, b, c, d))?;
                }
                Op::Named(a, b, c, d, n, p) => {
                    let n2 = if n.is_empty() { format!("Range{}", m.ranges.len() + 1) } else { n.to_string() };
                    m.ranges.push((range_name((a, b, c, d)), n2, verifier(p)));
                    e(ws.unprotect_range_with_options(a, b, c, d, n, p))?;
                }
            }
            rec.state(&m);
            rec.step();
        }
        let p = closed(&mut wb)?;
        rec.trace();
        check(&p, 0, &m, false)
    });
    // Passwords.
    let alpha = ['a', 'Z', '0', ' ', '\u{7f}', '\u{e9}', '\u{20ac}'];
    let depth = run.pick(4, 5);
    run.explore("passwords", seqs(alpha.len() as u64, depth) + 40, |i, rec| {
        let short = seqs(alpha.len() as u64, depth);
        let s: String = if i < short { seq(i, alpha.len() as u64).into_iter().map(|j| alpha[j]).collect() } else { (0..=(i - short) as usize).map(|k| (b'!' + (k * 7 % 90) as u8) as char).collect() };
        rec.describe(|| format!("{s:?}"));
        let m = M { on: true, hash: verifier(&s), bits: DEFAULT, ranges: vec![("A1".into(), "r".into(), verifier(&s))] };
        rec.state(&m);
        rec.step();
        let mut wb = Workbook::new();
        let ws = wb.add_worksheet();
        ws.protect_with_password(&s);
        e(ws.unprotect_range_with_options(0, 0, 0, 0, "r", &s))?;
        let p = pkg(&mut wb)?;
        rec.trace();
        check(&p, 0, &m, false)
    });
}
