//! C03: every saved package is closed: all parts typed, reachable, and every reference resolved.
use super::util::*;
use super::Prop;
use crate::feat::{self, F};

pub const PROP: Prop = Prop {
    id: "C03",
    level: "model_checking",
    rule: "A case is a workbook: a set of workbook level features and of worksheet features. states counts distinct feature sets; transitions counts the features added; traces counts workbooks saved whose package was checked to be closed.",
    assumes: &["the closure rules (content type and relationship type of each part, required references, counts and titles) are those of the Open Packaging Conventions and of the part types the library writes"],
    run,
};
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum W {
    Vba,
    Signed,
    Custom,
    Names,
    ChartSheet,
    Hidden,
    VeryHidden,
    HiddenChart,
    VeryHiddenChart,
    Constant,
    Low,
    Big,
}
use W::*;
pub const VBA: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/data/vba.bin");
pub const SIG: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/data/sig.bin");
pub const WS: &[W] = &[Vba, Signed, Custom, Names, ChartSheet, Hidden, VeryHidden, HiddenChart, VeryHiddenChart, Constant, Low, Big];

/// A workbook with workbook level features and one list of features per ordinary sheet.
pub fn build(w: &[W], sheets: &[Vec<F>]) -> Result<Workbook, String> {
    let mut wb = Workbook::new();
    let mut id = 300;
    for (i, fs) in sheets.iter().enumerate() {
        let n = format!("Data {}", i + 1);
        let ws = wb.add_worksheet();
        e(ws.set_name(&n))?;
        for f in fs {
            feat::apply(ws, &n, *f).map_err(|m| format!("{f:?}: {m}"))?;
        }
    }
    for x in w {
        id += 1;
        match x {
            Vba => drop(e(wb.add_vba_project(VBA))?),
            Signed => drop(e(wb.add_vba_project_with_signature(VBA, SIG))?),
            Custom => drop(wb.set_properties(&DocProperties::new().set_title("t").set_custom_property("p", 1).set_custom_property("q", "x"))),
            Names => {
                e(wb.define_name("Global_1", "=1+2"))?;
                e(wb.define_name("'Data 1'!Local_1", "='Data 1'!$A$1"))?;
            }
            ChartSheet | HiddenChart | VeryHiddenChart => {
                let ws = wb.add_chartsheet();
                let mut c = Chart::new(ChartType::Line);
                c.add_series().set_values("='Data 1'!$A$1:$A$3");
                e(ws.insert_chart(0, 0, &c))?;
                if *x == HiddenChart {
                    ws.set_hidden(true);
                }
                if *x == VeryHiddenChart {
                    ws.set_very_hidden(true);
                }
            }
            Hidden => drop(wb.add_worksheet().set_hidden(true)),
            VeryHidden => drop(wb.add_worksheet().set_very_hidden(true)),
            Constant | Low => {
                let n = format!("{x:?}");
                let ws = if *x == Constant { wb.add_worksheet_with_constant_memory() } else { wb.add_worksheet_with_low_memory() };
                e(ws.set_name(&n))?;
                feat::apply(ws, &n, F { k: feat::K::Formatted, slot: 0, id })?;
                feat::apply(ws, &n, F { k: feat::K::Plain, slot: 1, id })?;
                feat::apply(ws, &n, F { k: feat::K::Png, slot: 2, id })?;
                feat::apply(ws, &n, F { k: feat::K::Url, slot: 3, id })?;
                feat::apply(ws, &n, F { k: feat::K::Note, slot: 4, id })?;
            }
            Big => drop(wb.use_zip_large_file(true).read_only_recommended()),
        }
    }
    Ok(wb)
}
fn clash(w: &[W]) -> bool {
    w.contains(&Vba) && w.contains(&Signed)
}
fn case(w: &[W], sheets: &[Vec<F>], rec: &mut Rec) -> R {
    rec.state(&(w, sheets.iter().map(|s| s.iter().map(|f| f.k).collect::<Vec<_>>()).collect::<Vec<_>>()));
    rec.steps(w.len() + sheets.iter().map(|s| s.len()).sum::<usize>());
    let mut wb = build(w, sheets)?;
    let p = pkg(&mut wb)?;
    opc::check(&p)?;
    rec.trace();
    rec.seen(&p.parts.iter().map(|x| &x.name).collect::<Vec<_>>());
    // The parts that must exist.
    for n in ["xl/workbook.xml", "xl/styles.xml", "xl/theme/theme1.xml", "docProps/app.xml", "docProps/core.xml"] {
        p.x(n)?;
    }
    let s = p.sheets()?;
    let want = sheets.len() + w.iter().filter(|x| matches!(x, ChartSheet | HiddenChart | VeryHiddenChart | Hidden | VeryHidden | Constant | Low)).count();
    eq("number of sheets", want, s.len())?;
    for i in 0..s.len() {
        p.sheet(i)?;
    }
    Ok(())
}
fn run(run: &mut Run) {
    let ks = feat::KINDS;
    let n = ks.len() as u64;
    run.explore("workbook features with one sheet feature", 1 << WS.len(), |i, rec| {
        let w: Vec<W> = WS.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|x| *x.1).collect();
        if clash(&w) {
            return Ok(());
        }
        rec.describe(|| format!("{w:?} with an empty sheet"));
        case(&w, &[vec![]], rec)?;
        // With every sheet feature, for up to three workbook features; a walk through them otherwise.
        for (j, k) in ks.iter().enumerate() {
            if w.len() <= 3 || (i as usize + j) % 8 == 0 {
                rec.describe(|| format!("{w:?} with {k:?}"));
                case(&w, &[vec![F { k: *k, slot: 0, id: 1 }], vec![]], rec)?;
            }
        }
        Ok(())
    });
    run.explore("sheet features in constant and low memory sheets", n * n * 3, |i, rec| {
        let mut d = Dig(i);
        let (a, b) = (*d.of(ks), *d.of(ks));
        let lay = d.take(3);
        if !feat::in_constant_memory(a) || !feat::in_constant_memory(b) || feat::exclusive(a, b) {
            return Ok(());
        }
        rec.describe(|| format!("{a:?} and {b:?}, layout {lay}"));
        let mut wb = Workbook::new();
        let mut add = |mode: usize, fs: &[F]| -> R {
            let n = format!("S{mode}");
            let ws = match mode {
                0 => wb.add_worksheet_with_constant_memory(),
                1 => wb.add_worksheet_with_low_memory(),
                _ => wb.add_worksheet(),
            };
            e(ws.set_name(&n))?;
            for f in fs {
                rec.step();
                feat::apply(ws, &n, *f).map_err(|m| format!("{f:?}: {m}"))?;
            }
            Ok(())
        };
        let f = |k, slot, id| F { k, slot, id };
        match lay {
            0 => add(0, &[f(a, 0, 1), f(b, 1, 2)])?,
            1 => {
                add(1, &[f(a, 0, 1)])?;
                add(2, &[f(b, 0, 2)])?;
                add(0, &[f(a, 0, 3)])?;
            }
            _ => {
                add(0, &[f(b, 0, 1)])?;
                add(1, &[f(a, 0, 2), f(b, 1, 3)])?;
            }
        }
        rec.state(&(a, b, lay));
        let p = pkg(&mut wb)?;
        opc::check(&p)?;
        rec.trace();
        rec.seen(&(a, b, lay));
        Ok(())
    });
    let ls = if run.thorough { ks } else { feat::LINKED };
    let m = ls.len() as u64;
    run.explore("triples of sheet features over three sheets", m * m * m, |i, rec| {
        let mut d = Dig(i);
        let (a, b, c) = (*d.of(ls), *d.of(ls), *d.of(ls));
        let x = |k, slot, id| F { k, slot, id };
        let sheets = [vec![x(a, 0, 1)], vec![x(b, 0, 2), x(c, 1, 3)], vec![x(c, 0, 4), x(a, 1, 5), x(a, 2, 6)]];
        rec.describe(|| format!("{a:?} | {b:?} {c:?} | {c:?} {a:?} {a:?}"));
        if sheets.iter().any(|s| super::c05_objects::clash(s)) {
            return Ok(());
        }
        case(&[], &sheets, rec)
    });
    if run.thorough {
        run.explore("triples of sheet features with each workbook feature", m * m * m * 3, |i, rec| {
            let mut d = Dig(i);
            let (a, b, c) = (*d.of(ls), *d.of(ls), *d.of(ls));
            let w = [vec![Signed, Custom, ChartSheet], vec![Vba, Constant, VeryHidden], vec![Names, Hidden, Low]][d.take(3)].clone();
            let x = |k, slot, id| F { k, slot, id };
            let sheets = [vec![x(a, 0, 1), x(b, 1, 2), x(c, 2, 3)], vec![x(c, 0, 4)]];
            rec.describe(|| format!("{w:?} with {a:?} {b:?} {c:?} | {c:?}"));
            if sheets.iter().any(|s| super::c05_objects::clash(s)) {
                return Ok(());
            }
            case(&w, &sheets, rec)
        });
    }
}
