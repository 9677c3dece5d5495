//! C09: the saved bytes are a function of the calls made, and of nothing else.
use super::c03_package as pk;
use super::util::*;
use super::Prop;
use crate::feat::{self, F, K};
use crate::sched;

pub const PROP: Prop = Prop {
    id: "C09",
    level: "model_checking",
    rule: "A case is a workbook program; it is run under every order of the parallel writing tasks (every schedule of their start and lock operations), and under each of a set of hash map keyings that together realise every iteration order of maps of three entries. states counts distinct programs and schedule states; transitions counts scheduling steps and runs; traces counts files compared byte for byte.",
    assumes: &["the creation time is set by the program", "the iteration order of the library's hash maps is a function of the keys taken from getrandom()"],
    run,
};
/// Programs whose content sits in hash maps, with three or more entries each.
const MAPS: usize = 14;
fn maps(wb: &mut Workbook, i: usize) -> R {
    let ws = wb.add_worksheet();
    match i {
        0 => {
            for (k, t) in [IgnoreError::NumberStoredAsText, IgnoreError::FormulaDiffers, IgnoreError::FormulaError, IgnoreError::TwoDigitTextYear, IgnoreError::FormulaOmitsCells].into_iter().enumerate() {
                e(ws.ignore_error(k as u32, 0, t))?;
            }
        }
        1 => {
            for c in 0..6u16 {
                e(ws.set_column_width(c, 10 + c))?;
                e(ws.set_column_format(c, &Format::new().set_num_format(format!("0.{c}"))))?;
            }
        }
        2 => {
            for r in 0..6u32 {
                e(ws.set_row_height(r * 20, 20 + r))?;
                e(ws.set_row_format(r * 20, &Format::new().set_num_format(format!("0.{r}"))))?;
            }
        }
        3 => {
            for c in 0..6u16 {
                e(ws.write_string(0, c, "x".repeat(c as usize + 1)))?;
            }
            ws.autofit();
        }
        4 => {
            e(ws.autofilter(0, 0, 5, 5))?;
            for c in 0..6u16 {
                e(ws.filter_column(c, &FilterCondition::new().add_list_filter(c as i32)))?;
            }
        }
        5 => {
            for r in 0..4u32 {
                e(ws.write_string(r, 0, format!("s{}", r % 3)))?;
                e(ws.insert_checkbox(r, 1, r % 2 == 0))?;
                e(ws.write_dynamic_array_formula(r, 2, r, 2, "=SORT(A1:A3)"))?;
            }
            e(ws.embed_image(6, 0, &feat::image(0, 1)?))?;
            e(ws.embed_image(7, 0, &feat::image(0, 2)?))?;
            e(ws.embed_image(8, 0, &feat::image(0, 3)?))?;
        }
        6 => {
            for r in 0..6u32 {
                e(ws.write_number_with_format(r, 0, r, &Format::new().set_num_format(format!("0.{r}")).set_font_size(10 + r).set_background_color(Color::RGB(r)).set_border(FormatBorder::Thin).set_border_color(Color::RGB(r))))?;
            }
        }
        7 => {
            for r in 0..6u32 {
                let mut c = Chart::new(ChartType::Line);
                c.add_series().set_values(("Sheet1", 0, r as u16, 3, r as u16)).set_categories(("Sheet1", 0, r as u16, 3, r as u16));
                e(ws.write_number(r % 4, r as u16, r))?;
                e(ws.insert_chart(r * 10, 3, &c))?;
            }
        }
        8 => {
            for r in 0..5u32 {
                let mut n = Note::new(format!("n{r}"));
                n = n.set_author(format!("a{}", 7 * r % 5));
                e(ws.insert_note(r, 0, &n))?;
            }
        }
        9 => {
            for r in 0..5u32 {
                e(ws.insert_image(r * 4, 0, &e(feat::image(r as usize % 4, r)?.set_url(format!("https://x.org/{r}").as_str()))?))?;
            }
        }
        10 => {
            for r in 0..5u32 {
                e(ws.merge_range(r, 0, r, 3, "m", &Format::new()))?;
                e(ws.group_rows(10 + r * 3, 11 + r * 3))?;
            }
        }
        11 => {
            for r in 0..5u16 {
                e(ws.add_table(0, r * 4, 3, r * 4 + 2, &Table::new().set_total_row(true)))?;
            }
        }
        12 => {
            for r in 0..5u32 {
                e(wb.define_name(format!("n{}", 7 * r % 5).as_str(), "=1"))?;
                wb.add_worksheet();
            }
        }
        _ => {
            for r in 0..5u32 {
                e(ws.add_conditional_format(r, 0, r, 3, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::GreaterThan(r)).set_format(Format::new().set_font_color(Color::RGB(r)))))?;
                e(ws.add_conditional_format(r, 0, r, 3, &ConditionalFormatDataBar::new()))?;
                e(ws.add_data_validation(r, 0, r, 3, &DataValidation::new().allow_whole_number(DataValidationRule::GreaterThan(r as i32))))?;
            }
        }
    }
    Ok(())
}
fn props() -> DocProperties {
    DocProperties::new().set_creation_datetime(&ExcelDateTime::from_ymd(2024, 1, 2).unwrap())
}
fn differ(a: &[u8], b: &[u8]) -> R {
    if a == b {
        return Ok(());
    }
    let (pa, pb) = (Pkg::open(a)?, Pkg::open(b)?);
    for (x, y) in pa.parts.iter().zip(&pb.parts) {
        if x.name != y.name {
            return Err(format!("parts {} and {} in the same place", x.name, y.name));
        }
        if x.data != y.data {
            let k = x.data.iter().zip(&y.data).position(|c| c.0 != c.1).unwrap_or(0).saturating_sub(20);
            let cut = |d: &[u8]| String::from_utf8_lossy(&d[k.min(d.len())..(k + 90).min(d.len())]).to_string();
            return Err(format!("{} differs: {:?} and {:?}", x.name, cut(&x.data), cut(&y.data)));
        }
    }
    Err("the files differ outside their parts".into())
}
/// Seeds that together give every iteration order of three-entry maps with small keys.
fn seeds(n: u64) -> Result<Vec<u64>, String> {
    let mut out: Vec<u64> = vec![];
    let mut seen = std::collections::HashSet::new();
    for s in 0..4000 {
        // Orders of the same three keys in three maps made one after another.
        let o = sched::seeded(s, || {
            let mut v = vec![];
            for _ in 0..3 {
                let mut m = std::collections::HashMap::new();
                for k in 0..3u32 {
                    m.insert(k, ());
                }
                v.push(m.keys().copied().collect::<Vec<_>>());
            }
            v
        })?;
        if seen.insert(o) {
            out.push(s);
        }
        if out.len() as u64 >= n {
            break;
        }
    }
    Ok(out)
}
pub fn save_sheets(sheets: &[Vec<F>], s: Option<&[String]>) -> Result<Vec<u8>, String> {
    let mut wb = Workbook::new();
    wb.set_properties(&props());
    for (i, fs) in sheets.iter().enumerate() {
        let n = s.map(|s| s[i].clone()).unwrap_or(format!("S{i}"));
        let ws = wb.add_worksheet();
        e(ws.set_name(&n))?;
        for f in fs {
            feat::apply(ws, &n, *f)?;
        }
    }
    save(&mut wb)
}
fn run(run: &mut Run) {
    let test = sched::self_test();
    let sd = seeds(run.pick(6, 216)).unwrap_or_default();
    let need = run.pick(6, 100);
    run.explore("control of the hash keys", 1, |_, rec| {
        rec.trace();
        rec.seen(&sd);
        test.clone()?;
        if sd.len() < need {
            return Err(format!("MACHINERY: only {} keyings found", sd.len()));
        }
        Ok(())
    });
    run.explore("hash keyings of map contents", MAPS as u64, |i, rec| {
        rec.describe(|| format!("map program {i}"));
        let once = |s: u64| {
            sched::seeded(s, || -> Result<Vec<u8>, String> {
                let mut wb = Workbook::new();
                wb.set_properties(&props());
                maps(&mut wb, i as usize)?;
                save(&mut wb)
            })?
        };
        let first = once(99_999)?;
        let p = Pkg::open(&first)?;
        opc::check(&p)?;
        rec.state(&i);
        for s in sd.iter().chain(&[5001, 5002, 5003, 5004, 5005, 5006, 5007, 5008, 5009, 5010]) {
            rec.step();
            rec.trace();
            rec.seen(&(i, s));
            differ(&first, &once(*s)?).map_err(|m| format!("with another hash keying, {m}"))?;
        }
        Ok(())
    });
    let ks = feat::KINDS;
    let n = ks.len() as u64;
    let sk = run.pick(3, 12);
    run.explore("hash keyings of pairs of features", n * n, |i, rec| {
        let mut d = Dig(i);
        let (a, b) = (*d.of(ks), *d.of(ks));
        let x = |k, slot, id| F { k, slot, id };
        let sheets = [vec![x(a, 0, 1), x(b, 1, 2)], vec![x(b, 0, 3)]];
        rec.describe(|| format!("{a:?} {b:?} | {b:?}"));
        if super::c05_objects::clash(&sheets[0]) {
            return Ok(());
        }
        rec.state(&(a, b));
        let first = save_sheets(&sheets, None)?;
        for s in 0..sk {
            rec.step();
            rec.trace();
            rec.seen(&(a, b, s));
            let again = sched::seeded(s as u64 + 17, || save_sheets(&sheets, None))??;
            differ(&first, &again).map_err(|m| format!("with another hash keying, {m}"))?;
        }
        Ok(())
    });
    let bound = run.pick(Some(2), None);
    let nsheets = run.pick(3, 4);
    let kinds: &[K] = if run.thorough { ks } else { feat::LINKED };
    let nk = kinds.len() as u64;
    run.explore("orders of the parallel sheet writers", nk * nk, |i, rec| {
        let mut d = Dig(i);
        let (a, b) = (*d.of(kinds), *d.of(kinds));
        let x = |k, slot, id| F { k, slot, id };
        let mut sheets = vec![vec![x(a, 0, 1), x(K::Formatted, 1, 2)], vec![x(b, 0, 3), x(K::Formatted, 1, 4), x(K::Rich, 2, 5)], vec![x(a, 0, 6), x(b, 1, 7)], vec![x(b, 0, 8), x(K::Plain, 1, 9)]];
        sheets.truncate(nsheets);
        rec.describe(|| format!("sheets with {a:?} | {b:?} | {a:?} {b:?}"));
        if sheets.iter().any(|s| super::c05_objects::clash(s)) {
            return Ok(());
        }
        let names: Vec<String> = (0..sheets.len()).map(|k| format!("o{i}_{k}")).collect();
        let mut first: Option<Vec<u8>> = None;
        let st = sched::explore(&names, 1, bound, |_| {
            let bytes = save_sheets(&sheets, Some(&names))?;
            match &first {
                None => {
                    opc::check(&Pkg::open(&bytes)?)?;
                    first = Some(bytes);
                    Ok(())
                }
                Some(f) => differ(f, &bytes).map_err(|m| format!("in another order of the writers, {m}")),
            }
        })?;
        for s in &st.states {
            rec.state(s);
        }
        rec.steps(st.steps as usize);
        rec.count("schedules", st.schedules);
        rec.count("uncontrolled", st.free);
        for _ in 0..st.schedules {
            rec.trace();
        }
        rec.seen(&(a, b));
        Ok(())
    });
    run.explore("workbook level features", 1 << pk::WS.len(), |i, rec| {
        let w: Vec<pk::W> = pk::WS.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|x| *x.1).collect();
        if w.contains(&pk::W::Vba) && w.contains(&pk::W::Signed) {
            return Ok(());
        }
        // The custom properties replace the fixed creation time.
        if w.contains(&pk::W::Custom) {
            return Ok(());
        }
        rec.describe(|| format!("{w:?}"));
        let once = |s| {
            sched::seeded(s, || {
                let mut wb = pk::build(&w, &[vec![F { k: K::Formatted, slot: 0, id: 1 }, F { k: K::Note, slot: 1, id: 2 }]])?;
                wb.set_properties(&props());
                save(&mut wb)
            })?
        };
        let first = once(1)?;
        rec.state(&i);
        for s in 2..4 {
            rec.step();
            rec.trace();
            rec.seen(&(i, s));
            differ(&first, &once(s)?)?;
        }
        Ok(())
    });
}
