//! C10: worksheets built concurrently, in low memory modes, keep their own content.
use super::util::*;
use super::Prop;
use crate::sched;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C10",
    level: "model_checking",
    rule: "A case is a scenario (the programs of the building threads); each case enumerates its schedules. states counts distinct (scheduling progress, running thread) states, transitions counts scheduling steps, traces counts executions of the real code under one schedule.",
    assumes: &[
        "threads interleave at lock acquisitions; code between two lock operations only touches thread-local data (checked by the compiler: the crate has no unsafe code)",
        "memory is sequentially consistent at lock operations",
    ],
    run,
};
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Str(usize),
    StrF(usize, usize),
    NumF(usize),
    BlankF(usize),
    Rich(usize, usize),
    Url(usize),
    Date(usize),
    Form(usize),
    RowF(usize),
}
const TEXT: [&str; 4] = ["apple", "pear", "", "kiwi"];
fn fmt(i: usize) -> Format {
    match i {
        0 => Format::new().set_bold(),
        1 => Format::new().set_italic(),
        2 => Format::new().set_num_format("0.00"),
        3 => Format::new().set_num_format("yyyy-mm-dd"),
        _ => Format::new().set_bold().set_italic(),
    }
}
fn ftag(i: usize) -> &'static str {
    ["B", "I", "[code:0.00]", "[code:yyyy-mm-dd]", "BI"][i]
}
fn apply(ws: &mut Worksheet, row: u32, op: Op) -> R {
    match op {
        Op::Str(s) => e(ws.write_string(row, 0, TEXT[s]))?,
        Op::StrF(s, f) => e(ws.write_string_with_format(row, 0, TEXT[s], &fmt(f)))?,
        Op::NumF(f) => e(ws.write_number_with_format(row, 0, row as f64, &fmt(f)))?,
        Op::BlankF(f) => e(ws.write_blank(row, 0, &fmt(f)))?,
        Op::Rich(s, f) => e(ws.write_rich_string(row, 0, &[(&Format::default(), TEXT[s]), (&fmt(f), "rich")]))?,
        Op::Url(s) => e(ws.write_url_with_format(row, 0, Url::new(format!("https://x.org/{}", TEXT[s])), &fmt(0)))?,
        Op::Date(f) => e(ws.write_datetime_with_format(row, 0, &ExcelDateTime::from_ymd(2024, 1, 2).unwrap(), &fmt(f)))?,
        Op::Form(f) => e(ws.write_formula_with_format(row, 0, "=1+2", &fmt(f)))?,
        Op::RowF(f) => e(ws.set_row_format(row, &fmt(f)))?,
    };
    Ok(())
}
fn expect(row: u32, op: Op) -> Option<(String, String)> {
    Some(match op {
        Op::Str(2) => return None,
        Op::Str(s) => (format!("str {:?}", TEXT[s]), String::new()),
        Op::StrF(2, f) => ("blank".into(), ftag(f).into()),
        Op::StrF(s, f) => (format!("str {:?}", TEXT[s]), ftag(f).into()),
        Op::NumF(f) => (format!("num {:?}", row as f64), ftag(f).into()),
        Op::BlankF(f) => ("blank".into(), ftag(f).into()),
        Op::Rich(s, _) => (format!("rich:{}rich", TEXT[s]), String::new()),
        Op::Url(s) => (format!("str {:?}", format!("https://x.org/{}", TEXT[s])), "B".into()),
        Op::Date(f) => ("num 45293.0".into(), ftag(f).into()),
        Op::Form(f) => (format!("formula {:?} type n result \"0\"", "1+2"), ftag(f).into()),
        Op::RowF(_) => return None,
    })
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Constant,
    Low,
    Plain,
}
fn scenario(rec: &mut Rec, modes: &[Mode], progs: &[Vec<Op>], bound: Option<usize>, uid: &str) -> R {
    rec.describe(|| format!("threads {:?}, preemption bound {bound:?}", modes.iter().zip(progs).collect::<Vec<_>>()));
    let names: Vec<String> = (0..progs.len()).map(|i| format!("{uid}_{i}")).collect();
    let mut outcomes = std::collections::BTreeSet::new();
    let st = sched::explore(&names, 1, bound, |s| {
        let mut wb = Workbook::new();
        // The main thread uses the shared tables first.
        let mut first = wb.new_worksheet_with_low_memory();
        e(first.set_name("first"))?;
        e(first.write_string_with_format(0, 0, "kiwi", &fmt(4)))?;
        let sheets: Vec<Worksheet> = modes
            .iter()
            .map(|m| match m {
                Mode::Constant => wb.new_worksheet_with_constant_memory(),
                Mode::Low => wb.new_worksheet_with_low_memory(),
                Mode::Plain => Worksheet::new(),
            })
            .collect();
        let bodies: Vec<Box<dyn FnOnce() -> Result<Worksheet, String> + Send>> = sheets
            .into_iter()
            .zip(progs)
            .map(|(mut ws, p)| {
                let p = p.clone();
                Box::new(move || -> Result<Worksheet, String> {
                    for (r, op) in p.iter().enumerate() {
                        apply(&mut ws, r as u32, *op)?;
                    }
                    Ok(ws)
                }) as Box<dyn FnOnce() -> Result<Worksheet, String> + Send>
            })
            .collect();
        let built = s.run(bodies)?;
        wb.push_worksheet(first);
        for w in built {
            wb.push_worksheet(w?);
        }
        let p = pkg(&mut wb)?;
        opc::check(&p)?;
        let mut refs: BTreeMap<usize, u64> = BTreeMap::new();
        let sst = book::sst(&p)?;
        for (t, prog) in progs.iter().enumerate() {
            let mut got = view(&p, t + 1)?;
            for v in got.values_mut() {
                if v.0.starts_with("rich ") {
                    let sh = sheet(&p, t + 1)?;
                    if let Some(c) = sh.data.cells.values().find(|c| vtext(&c.v) == v.0) {
                        if let V::Str(x) = &c.v {
                            v.0 = format!("rich:{}", x.plain());
                        }
                    }
                }
            }
            let mut want = BTreeMap::new();
            for (r, op) in prog.iter().enumerate() {
                if let Some(x) = expect(r as u32, *op) {
                    want.insert((r as u32, 0u16), x);
                }
            }
            diff(&want, &got).map_err(|m| format!("sheet of thread {t}: {m}"))?;
            let sh = sheet(&p, t + 1)?;
            let styles = book::styles(&p)?;
            for (r, op) in prog.iter().enumerate() {
                if let Op::RowF(f) = op {
                    let row = sh.data.rows.get(&(r as u32)).ok_or("row missing")?;
                    eq("row format", ftag(*f).to_string(), tag(xf(&styles, row.style)?))?;
                }
            }
            for (k, n) in &sh.data.sst_refs {
                *refs.entry(*k).or_default() += n;
            }
        }
        let v = view(&p, 0)?;
        eq("first sheet", Some(&("str \"kiwi\"".to_string(), "BI".to_string())), v.get(&(0, 0)))?;
        for (k, n) in &sheet(&p, 0)?.data.sst_refs {
            *refs.entry(*k).or_default() += n;
        }
        if let Some(s) = &sst {
            let mut seen = std::collections::BTreeSet::new();
            for i in &s.items {
                if !seen.insert(format!("{i:?}")) {
                    return Err(format!("shared string {i:?} twice"));
                }
            }
            eq("unique count", s.items.len() as u64, s.unique)?;
            // Rich strings are registered but written inline in these modes.
            let rich = progs.iter().flatten().filter(|o| matches!(o, Op::Rich(..))).count() as u64;
            let n = refs.values().sum::<u64>();
            if s.count < n || s.count > n + rich || s.items.len() < refs.len() || s.items.len() as u64 > refs.len() as u64 + rich {
                return Err(format!("shared strings: count {} and {} items for {n} references to {} strings", s.count, s.items.len(), refs.len()));
            }
        }
        let styles = book::styles(&p)?;
        for (i, a) in styles.xfs.iter().enumerate() {
            for b in &styles.xfs[..i] {
                if a == b {
                    return Err(format!("two equal cell formats {}", tag(a)));
                }
            }
        }
        outcomes.insert(format!("{:?}{:?}", sst.map(|s| s.items), styles.xfs));
        Ok(())
    })?;
    rec.count("schedules", st.schedules);
    rec.count("schedules_not_controlled", st.free);
    for s in &st.states {
        rec.state(&(uid_key(uid), *s));
    }
    rec.steps(st.steps as usize);
    for _ in 0..st.schedules {
        rec.trace();
    }
    for o in outcomes {
        rec.seen(&o);
    }
    Ok(())
}
fn uid_key(u: &str) -> u64 {
    crate::engine::h(u)
}
fn run(run: &mut Run) {
    sched::install();
    use Op::*;
    let core = [Str(0), Str(1), StrF(0, 0), StrF(1, 1), NumF(0), NumF(1)];
    let all = [Str(0), Str(1), Str(2), StrF(0, 0), StrF(2, 1), NumF(0), NumF(2), BlankF(0), Rich(0, 1), Url(0), Date(3), Form(1), RowF(0), RowF(1)];
    let modes = [Mode::Low, Mode::Constant, Mode::Plain];
    // Two threads, one call each: every pair of calls, every schedule.
    let n = all.len() as u64;
    run.explore("two threads, one call each", n * n * 9, |i, rec| {
        let mut d = Dig(i);
        let (a, b) = (*d.of(&all), *d.of(&all));
        let m = [*d.of(&modes), *d.of(&modes)];
        scenario(rec, &m, &[vec![a], vec![b]], None, &format!("A{i}"))
    });
    let k = core.len() as u64;
    let b = run.pick(Some(2), None);
    run.explore("two threads, two calls each", k.pow(4) * 2, |i, rec| {
        let mut d = Dig(i);
        let m = if d.flag() { [Mode::Low, Mode::Low] } else { [Mode::Low, Mode::Constant] };
        let p: Vec<Op> = (0..4).map(|_| *d.of(&core)).collect();
        scenario(rec, &m, &[p[..2].to_vec(), p[2..].to_vec()], b, &format!("B{i}"))
    });
    let b = run.pick(Some(2), Some(4));
    run.explore("three threads, one call each", k.pow(3) * 2, |i, rec| {
        let mut d = Dig(i);
        let m = if d.flag() { [Mode::Low; 3] } else { [Mode::Low, Mode::Constant, Mode::Constant] };
        let p: Vec<Op> = (0..3).map(|_| *d.of(&core)).collect();
        scenario(rec, &m, &[vec![p[0]], vec![p[1]], vec![p[2]]], b, &format!("C{i}"))
    });
    // Longer programs whose first uses of strings and formats cross over.
    let long: Vec<(Vec<Op>, Vec<Op>)> = vec![
        (vec![StrF(0, 0), StrF(1, 1), NumF(2)], vec![NumF(2), StrF(1, 1), StrF(0, 0)]),
        (vec![Str(0), Str(1), Str(0)], vec![Str(1), Str(0), Str(1)]),
        (vec![NumF(0), NumF(1), NumF(2)], vec![NumF(2), NumF(1), NumF(0)]),
        (vec![Rich(0, 0), Str(0), Rich(0, 1)], vec![Rich(0, 1), Rich(0, 0), Str(0)]),
        (vec![Url(0), Url(1), StrF(0, 0)], vec![Url(1), Url(0), StrF(1, 0)]),
        (vec![RowF(0), NumF(1), RowF(2)], vec![RowF(2), NumF(0), RowF(1)]),
    ];
    let b = run.pick(Some(2), Some(5));
    run.explore("two threads, three calls each", long.len() as u64, |i, rec| {
        let (x, y) = &long[i as usize];
        scenario(rec, &[Mode::Low, Mode::Low], &[x.clone(), y.clone()], b, &format!("D{i}"))
    });
}
