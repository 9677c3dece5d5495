//! C05: every object is found where it was put, with its own content.
use super::util::*;
use super::Prop;
use crate::feat::{self, F, K};

pub const PROP: Prop = Prop {
    id: "C05",
    level: "model_checking",
    rule: "A case is a workbook with a set of features on a set of sheets. states counts distinct expected workbook contents; transitions counts the features added; traces counts workbooks saved, read back by following the package and compared.",
    assumes: &["identities of images are read from the bytes of the image parts; other identities from names, titles and texts"],
    run,
};
pub fn name(i: usize) -> String {
    ["Sheet1", "It's 2", "Third"].get(i).map(|s| s.to_string()).unwrap_or(format!("S{i}"))
}
/// Build the workbook: features per sheet; sheets in order.
pub fn build(sheets: &[Vec<F>], resave: bool) -> Result<Pkg, String> {
    let mut wb = Workbook::new();
    for (i, fs) in sheets.iter().enumerate() {
        let ws = wb.add_worksheet();
        let n = name(i);
        e(ws.set_name(&n))?;
        for f in fs {
            feat::apply(ws, &n, *f).map_err(|m| format!("{f:?}: {m}"))?;
        }
    }
    if resave {
        save(&mut wb)?;
    }
    let p = pkg(&mut wb)?;
    opc::check(&p)?;
    schema::check(&p)?;
    Ok(p)
}
pub fn check(sheets: &[Vec<F>], rec: &mut Rec) -> R {
    for (i, fs) in sheets.iter().enumerate() {
        let mut n = vec![];
        for f in fs {
            n.extend(feat::expected(&name(i), *f));
            rec.step();
        }
        rec.state(&n);
    }
    let p = build(sheets, false)?;
    for (i, fs) in sheets.iter().enumerate() {
        feat::check(&p, i, &name(i), fs)?;
    }
    rec.trace();
    rec.seen(&sheets.iter().map(|s| s.iter().map(|f| f.k).collect::<Vec<_>>()).collect::<Vec<_>>());
    Ok(())
}
fn run(run: &mut Run) {
    let ks = feat::KINDS;
    let n = ks.len() as u64;
    run.explore("one feature, up to three times", n * 7, |i, rec| {
        let mut d = Dig(i);
        let k = *d.of(ks);
        let lay = d.take(7);
        // How many instances on each of three sheets.
        let counts = [[1, 0, 0], [2, 0, 0], [3, 0, 0], [1, 1, 0], [0, 1, 2], [2, 1, 1], [1, 2, 2]][lay];
        let mut id = 0;
        let sheets: Vec<Vec<F>> = counts
            .iter()
            .map(|c| {
                let c = if feat::single(k) { (*c).min(1) } else { *c };
                (0..c)
                    .map(|s| {
                        id += 1;
                        F { k, slot: s, id }
                    })
                    .collect()
            })
            .collect();
        rec.describe(|| format!("{k:?} {counts:?} times on the sheets"));
        check(&sheets, rec)
    });
    run.explore("pairs of features in every layout", n * n * 5, |i, rec| {
        let mut d = Dig(i);
        let (a, b) = (*d.of(ks), *d.of(ks));
        let lay = d.take(5);
        let x = |k, slot, id| F { k, slot, id };
        let sheets = match lay {
            0 => vec![vec![x(a, 0, 1), x(b, 1, 2)]],
            1 => vec![vec![x(a, 0, 1)], vec![x(b, 0, 2)]],
            2 => vec![vec![], vec![x(a, 0, 1), x(b, 1, 2)], vec![x(b, 0, 3), x(a, 1, 4)]],
            3 => vec![vec![x(a, 0, 1), x(a, 1, 2), x(b, 2, 3)], vec![x(b, 1, 4), x(a, 2, 5)]],
            _ => vec![vec![x(b, 1, 1), x(a, 0, 2)], vec![x(a, 3, 3)], vec![x(b, 2, 4), x(b, 4, 5)]],
        };
        rec.describe(|| format!("{a:?} and {b:?} in layout {lay}"));
        if sheets.iter().any(|s| clash(s)) {
            return Ok(());
        }
        check(&sheets, rec)
    });
    // Images in all the places of headers and footers: none, one of its own or a shared one, on two sheets.
    run.explore("header and footer images", 3 * 729, |i, rec| {
        const AT: [&str; 6] = ["LH", "CH", "RH", "LF", "CF", "RF"];
        let mut d = Dig(i);
        let kinds: Vec<usize> = AT.iter().map(|_| d.take(3)).collect();
        let lay = d.take(3);
        rec.describe(|| format!("{:?}, {}", kinds.iter().map(|k| ["none", "own", "shared"][*k]).collect::<Vec<_>>(), ["one sheet", "the second sheet starts with others", "both sheets, with pictures and a background"][lay]));
        let mut wb = Workbook::new();
        let mut want = vec![];
        for sheet in 0..if lay == 0 { 1 } else { 2u32 } {
            let ws = wb.add_worksheet();
            let mut here = vec![];
            if lay == 2 {
                e(ws.insert_image(1, 1, &feat::image(0, 90 + sheet)?))?;
                e(ws.insert_image(5, 1, &feat::image(0, 0)?))?;
                ws.insert_background_image(&feat::image(0, 0)?);
            }
            ws.set_header("&L&G&C&G&R&G").set_footer("&L&G&C&G&R&G");
            for (j, k) in kinds.iter().enumerate() {
                let k = if lay == 1 && sheet == 1 { (k + j) % 3 } else { *k };
                let id = match k {
                    0 => continue,
                    1 => 10 * (sheet + 1) + j as u32,
                    _ => 0,
                };
                let at = [HeaderImagePosition::Left, HeaderImagePosition::Center, HeaderImagePosition::Right][j % 3].clone();
                let im = feat::image(0, id)?;
                if j < 3 {
                    e(ws.set_header_image(&im, at))?;
                } else {
                    e(ws.set_footer_image(&im, at))?;
                }
                rec.step();
                here.push(format!("hfimage {} png#{id}", AT[j]));
            }
            here.sort();
            want.push(here);
        }
        rec.state(&want);
        rec.trace();
        let p = pkg(&mut wb)?;
        opc::check(&p)?;
        for (n, want) in want.iter().enumerate() {
            let mut got: Vec<String> = feat::facts(&p, n)?.into_iter().filter(|x| x.starts_with("hfimage")).collect();
            got.sort();
            eq(&format!("sheet {n}"), want.clone(), got)?;
        }
        Ok(())
    });
    let ls = if run.thorough { feat::KINDS } else { feat::LINKED };
    let m = ls.len() as u64;
    let lays = run.pick(1, 3);
    run.explore("triples of features", m * m * m * lays, |i, rec| {
        let mut d = Dig(i);
        let (a, b, c) = (*d.of(ls), *d.of(ls), *d.of(ls));
        let lay = d.take(lays as usize);
        let x = |k, slot, id| F { k, slot, id };
        let sheets = match lay {
            0 => vec![vec![x(a, 0, 1), x(b, 1, 2)], vec![x(c, 0, 3)]],
            1 => vec![vec![x(a, 0, 1), x(b, 1, 2), x(c, 2, 3)]],
            _ => vec![vec![x(a, 0, 1)], vec![x(b, 1, 2), x(c, 0, 3)], vec![x(a, 2, 4)]],
        };
        rec.describe(|| format!("{a:?}, {b:?} and {c:?} in layout {lay}"));
        if sheets.iter().any(|s| clash(s)) {
            return Ok(());
        }
        check(&sheets, rec)
    });
    run.explore("everything at once", 6, |i, rec| {
        rec.describe(|| format!("all the features, order {i}"));
        let mut id = 0;
        let sheets: Vec<Vec<F>> = (0..3)
            .map(|s| {
                let mut v: Vec<K> = ks.to_vec();
                v.rotate_left((i as usize * 7 + s * 11) % ks.len());
                if i % 2 == 1 {
                    v.reverse();
                }
                let mut out: Vec<F> = vec![];
                for k in v {
                    if out.iter().any(|f| feat::exclusive(f.k, k)) {
                        continue;
                    }
                    id += 1;
                    out.push(F { k, slot: ks.iter().position(|x| *x == k).unwrap() as u32, id });
                }
                out
            })
            .collect();
        check(&sheets, rec)
    });
}
pub fn clash(s: &[F]) -> bool {
    s.iter().enumerate().any(|(i, a)| s[..i].iter().any(|b| feat::exclusive(a.k, b.k)))
}
