//! C19: drawings, notes and buttons lie where they were put, with the size they were given.
use super::util::*;
use super::Prop;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C19",
    level: "model_checking",
    rule: "Model: the pixel sizes of all columns and rows as the last calls left them; the place of an object is an absolute position, its corners are the cells that hold the positions of its edges (cells without size hold none). All assignments of sizes to a grid of columns and rows with all positions, offsets, object sizes and movements, all pixel sizes of columns and rows, all scalings of images, all cells at the limits of a worksheet for notes, and all histories of size changes, hidden rows, filters and saves after the objects were inserted are applied to the real code for images, charts, shapes, buttons and notes; the anchors of the drawing and VML parts are compared with the model.",
    assumes: &["objects don't reach beyond the last row or column", "rows hidden by hide_unused_rows count with the default height"],
    run,
};
use ObjectMovement as M;
const MOVES: [(M, &str); 4] = [(M::MoveAndSizeWithCells, ""), (M::MoveButDontSizeWithCells, "oneCell"), (M::DontMoveOrSizeWithCells, "absolute"), (M::MoveAndSizeWithCellsAfter, "")];
/// Sizes in pixels, and whether hidden.
#[derive(Clone, Default, Hash, Debug)]
struct Axis {
    default: u32,
    set: BTreeMap<u32, u32>,
    hidden: std::collections::BTreeSet<u32>,
}
impl Axis {
    fn size(&self, i: u32, m: M) -> f64 {
        if self.hidden.contains(&i) && m != M::MoveAndSizeWithCellsAfter {
            0.0
        } else {
            f64::from(*self.set.get(&i).unwrap_or(&self.default))
        }
    }
    /// The absolute position of a cell.
    fn start(&self, i: u32, m: M) -> f64 {
        let mut x = f64::from(i) * f64::from(self.default);
        for k in self.set.keys().chain(self.hidden.iter().filter(|h| !self.set.contains_key(h))) {
            if *k < i {
                x += self.size(*k, m) - f64::from(self.default);
            }
        }
        x
    }
    /// The cell that holds a position at or after cell i, and the rest.
    fn cell(&self, mut i: u32, x: f64, m: M) -> (u32, f64) {
        let mut rest = x - self.start(i, m);
        while rest >= self.size(i, m) {
            rest -= self.size(i, m);
            i += 1;
        }
        (i, rest)
    }
}
/// Where an object should be: cells and rests of the corners, absolute position and size, in pixels.
#[derive(Debug, Clone, PartialEq)]
struct Place {
    from: (u32, f64, u32, f64),
    to: (u32, f64, u32, f64),
    at: (f64, f64),
    size: (f64, f64),
}
fn place(cols: &Axis, rows: &Axis, at: (u32, u32), off: (u32, u32), size: (f64, f64), m: M) -> Place {
    let (x, y) = (cols.start(at.1, m) + f64::from(off.0), rows.start(at.0, m) + f64::from(off.1));
    let (c1, x1) = cols.cell(at.1, x, m);
    let (r1, y1) = rows.cell(at.0, y, m);
    let (c2, x2) = cols.cell(c1, x + size.0, m);
    let (r2, y2) = rows.cell(r1, y + size.1, m);
    Place { from: (c1, x1, r1, y1), to: (c2, x2, r2, y2), at: (x, y), size }
}
const KINDS: [&str; 5] = ["image", "chart", "shape", "button", "note"];
/// The logo for sizes by pixels.
fn logo() -> Image {
    Image::new_from_buffer(&crate::feat::png(100, 80, 1, None)).expect("a png")
}
/// Insert all kinds of objects at a place; notes choose their own place.
fn insert(w: &mut Worksheet, at: (u32, u32), off: (u32, u32), size: (u32, u32), m: M) -> R {
    let (r, c) = (at.0, at.1 as u16);
    e(w.insert_image_with_offset(r, c, &logo().set_width(size.0).set_height(size.1).set_object_movement(m), off.0, off.1))?;
    let mut ch = Chart::new(ChartType::Column);
    ch.add_series().set_values(("Sheet1", 0, 0, 2, 0));
    ch.set_width(size.0).set_height(size.1).set_object_movement(m);
    e(w.insert_chart_with_offset(r, c, &ch, off.0, off.1))?;
    e(w.insert_shape_with_offset(r, c, &Shape::textbox().set_width(size.0).set_height(size.1).set_object_movement(m), off.0, off.1))?;
    e(w.insert_button_with_offset(r, c, &Button::new().set_width(size.0).set_height(size.1).set_object_movement(m), off.0, off.1))?;
    e(w.insert_note(r, c, &Note::new("n").set_width(size.0).set_height(size.1).set_object_movement(m)))?;
    Ok(())
}
/// The place Excel gives to the note of a cell: right of it and a bit higher, or left of the last columns and up.
fn note_at(r: u32, c: u32) -> ((u32, u32), (u32, u32)) {
    let (row, y) = match 1_048_576 - r {
        1 => (r - 4, 14),
        2 | 3 => (r - 4, 16),
        _ if r == 0 => (0, 2),
        _ => (r - 1, 10),
    };
    let (col, x) = if 16_384 - c <= 3 { (c - 3, 49) } else { (c + 1, 15) };
    ((row, col), (x, y))
}
fn num(e: &El, p: &str) -> Result<f64, String> {
    let t = e.path(p).map(El::text).ok_or(format!("no {p}"))?;
    t.trim().parse().map_err(|_| format!("{p} is {t:?}"))
}
/// Check an anchor of a drawing.
fn check_anchor(a: &El, kind: &str, want: &Place, m: M) -> R {
    eq("anchor", "xdr:twoCellAnchor", a.name.as_str())?;
    let edit = MOVES.iter().find(|x| x.0 == m).map_or("", |x| x.1);
    eq("editAs", if edit.is_empty() { None } else { Some(edit) }, a.a("editAs"))?;
    let mut got = vec![];
    for (side, w) in [("from", want.from), ("to", want.to)] {
        for (f, v, emu) in [("col", f64::from(w.0), false), ("colOff", w.1, true), ("row", f64::from(w.2), false), ("rowOff", w.3, true)] {
            let g = num(a, &format!("xdr:{side}/xdr:{f}"))?;
            let v = if emu { (v * 9525.0).round() } else { v };
            if (g - v).abs() > if emu { 1.0 } else { 0.0 } {
                got.push(format!("{side} {f}: expected {v}, found {g}"));
            }
        }
    }
    if !got.is_empty() {
        return Err(got.join("; "));
    }
    // The frame of pictures and shapes has the absolute position too.
    if kind == "image" || kind == "shape" {
        let x = a.find_all("a:xfrm");
        let x = x.first().ok_or("no frame")?;
        for (p, k, v) in [("a:off", "x", want.at.0), ("a:off", "y", want.at.1), ("a:ext", "cx", want.size.0), ("a:ext", "cy", want.size.1)] {
            let g: f64 = x.path(p).and_then(|x| x.a(k)).and_then(|v| v.parse().ok()).ok_or(format!("no {p} {k}"))?;
            if (g - (v * 9525.0).round()).abs() > 1.0 {
                return Err(format!("{k}: expected {}, found {g}", v * 9525.0));
            }
        }
    }
    Ok(())
}
fn check_vml(s: &El, kind: &str, want: &Place, m: M) -> R {
    let d = s.find_all("x:ClientData");
    let d = d.first().ok_or("no client data")?;
    let t = d.path("x:Anchor").map(El::text).ok_or("no anchor")?;
    let got: Vec<f64> = t.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let w = [f64::from(want.from.0), want.from.1, f64::from(want.from.2), want.from.3, f64::from(want.to.0), want.to.1, f64::from(want.to.2), want.to.3];
    eq("anchor", &w[..], &got[..])?;
    let style = s.a("style").unwrap_or("");
    for (k, v) in [("margin-left", want.at.0), ("margin-top", want.at.1), ("width", want.size.0), ("height", want.size.1)] {
        eq(k, Some(format!("{k}:{}pt", v * 0.75).as_str()), style.split(';').find(|x| x.starts_with(&format!("{k}:"))))?;
    }
    // These elements turn the default, to move and size with cells, off.
    let (mv, sz) = match m {
        M::DontMoveOrSizeWithCells => (true, true),
        M::MoveButDontSizeWithCells => (false, true),
        _ => (false, false),
    };
    eq("fixed place, fixed size", (mv, sz), (d.path("x:MoveWithCells").is_some(), d.path("x:SizeWithCells").is_some()))?;
    eq("kind", kind, if d.a("ObjectType") == Some("Note") { "note" } else { "button" })
}
/// The anchors of a worksheet by kind.
fn anchors(p: &Pkg, i: usize) -> Result<Vec<(&'static str, &El)>, String> {
    let sr = &p.sheets()?[i];
    let x = p.sheet(i)?;
    let mut v = vec![];
    if let Some(d) = x.path("drawing").and_then(|d| d.a("r:id")) {
        for a in p.x(&p.follow(&sr.part, d, "drawing")?)?.els() {
            let kind = if a.path("xdr:pic").is_some() {
                "image"
            } else if a.path("xdr:sp").is_some() {
                "shape"
            } else {
                "chart"
            };
            v.push((kind, a));
        }
    }
    if let Some(d) = x.path("legacyDrawing").and_then(|d| d.a("r:id")) {
        for s in p.x(&p.follow(&sr.part, d, "vmlDrawing")?)?.named("v:shape") {
            let note = s.find_all("x:ClientData").first().is_some_and(|d| d.a("ObjectType") == Some("Note"));
            v.push((if note { "note" } else { "button" }, s));
        }
    }
    Ok(v)
}
/// Check the five objects of a worksheet.
fn check_all(p: &Pkg, cols: &Axis, rows: &Axis, at: (u32, u32), off: (u32, u32), size: (u32, u32), m: M) -> R {
    let v = anchors(p, 0)?;
    let size = (f64::from(size.0), f64::from(size.1));
    for k in KINDS {
        let mine: Vec<&El> = v.iter().filter(|x| x.0 == k).map(|x| x.1).collect();
        eq(k, 1, mine.len())?;
        let r = match k {
            "note" => {
                let (at, off) = note_at(at.0, at.1);
                check_vml(mine[0], k, &place(cols, rows, at, off, size, m), m)
            }
            "button" => check_vml(mine[0], k, &place(cols, rows, at, off, size, m), m),
            _ => check_anchor(mine[0], k, &place(cols, rows, at, off, size, m), m),
        };
        r.map_err(|e| format!("{k}: {e}"))?;
    }
    Ok(())
}
fn axes() -> (Axis, Axis) {
    (Axis { default: 64, ..Default::default() }, Axis { default: 20, ..Default::default() })
}
/// States of a column or row: default, set, hidden, hidden and set, zero.
fn set_col(w: &mut Worksheet, a: &mut Axis, i: u32, s: usize) -> R {
    let c = i as u16;
    match s {
        1 => e(w.set_column_width_pixels(c, 20)).map(|_| a.set.insert(i, 20)).map(|_| ()),
        2 => e(w.set_column_hidden(c)).map(|_| a.hidden.insert(i)).map(|_| ()),
        3 => {
            e(w.set_column_width_pixels(c, 100))?;
            e(w.set_column_hidden(c))?;
            a.set.insert(i, 100);
            a.hidden.insert(i);
            Ok(())
        }
        4 => e(w.set_column_width_pixels(c, 130)).map(|_| a.set.insert(i, 130)).map(|_| ()),
        _ => Ok(()),
    }
}
fn set_row(w: &mut Worksheet, a: &mut Axis, i: u32, s: usize) -> R {
    match s {
        1 => e(w.set_row_height_pixels(i, 7)).map(|_| a.set.insert(i, 7)).map(|_| ()),
        2 => e(w.set_row_hidden(i)).map(|_| a.hidden.insert(i)).map(|_| ()),
        3 => {
            e(w.set_row_height_pixels(i, 45))?;
            e(w.set_row_hidden(i))?;
            a.set.insert(i, 45);
            a.hidden.insert(i);
            Ok(())
        }
        4 => e(w.set_row_height_pixels(i, 130)).map(|_| a.set.insert(i, 130)).map(|_| ()),
        _ => Ok(()),
    }
}
const OFFS: [(u32, u32); 5] = [(0, 0), (19, 6), (20, 7), (64, 20), (300, 250)];
const SIZES: [(u32, u32); 4] = [(5, 5), (20, 7), (64, 40), (333, 277)];
const HOPS: [&str; 12] = [
    "column 0 wider",
    "column 2 hidden",
    "column 2 narrow",
    "row 1 higher",
    "row 2 hidden",
    "row 2 shown",
    "default height 10",
    "all columns 30",
    "filter hides row 3",
    "no filter",
    "text in a row",
    "save",
];

fn run(run: &mut Run) {
    // Grids: sizes of three columns and rows, with positions, offsets, sizes and movements.
    let g = run.pick(3usize, 4);
    let grids = 5u64.pow(g as u32);
    run.explore("grids", grids * g as u64 * 5 * 4 * 4, |i, rec| {
        let mut d = Dig(i);
        let (pos, off, size, m) = (d.take(g) as u32, OFFS[d.take(5) as usize], SIZES[d.take(4) as usize], MOVES[d.take(4) as usize].0);
        let s: Vec<usize> = (0..g).map(|_| d.take(5) as usize).collect();
        rec.describe(|| format!("columns and rows {s:?}, objects at cell {pos} offset {off:?} size {size:?}, movement {:?}", MOVES.iter().position(|x| x.0 == m)));
        rec.step();
        rec.trace();
        let (mut cols, mut rows) = axes();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        // The objects are inserted between the settings of columns and rows.
        for (k, x) in s.iter().enumerate() {
            set_col(w, &mut cols, k as u32, *x)?;
        }
        let at = ((pos + 1) % g as u32, pos);
        insert(w, at, off, size, m)?;
        for (k, x) in s.iter().enumerate() {
            set_row(w, &mut rows, k as u32, *x)?;
        }
        rec.state(&(&s, at, off, size));
        let p = pkg(&mut wb)?;
        check_all(&p, &cols, &rows, at, off, size, m)
    });
    // Every pixel size of a column and of a row.
    run.explore("pixels", 1791, |i, rec| {
        let (cw, rh) = (i as u32, (i % 546) as u32);
        rec.describe(|| format!("column of {cw} and row of {rh} pixels"));
        rec.step();
        rec.trace();
        let (mut cols, mut rows) = axes();
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        e(w.set_column_width_pixels(1, cw as u16))?;
        e(w.set_row_height_pixels(1, rh as u16))?;
        cols.set.insert(1, cw);
        rows.set.insert(1, rh);
        insert(w, (0, 0), (30, 10), (cw + 40, rh + 13), M::MoveAndSizeWithCells)?;
        rec.state(&(cw, rh));
        check_all(&pkg(&mut wb)?, &cols, &rows, (0, 0), (30, 10), (cw + 40, rh + 13), M::MoveAndSizeWithCells)
    });
    // Notes at the limits of a worksheet.
    const ROWS: [u32; 9] = [0, 1, 2, 3, 1_048_571, 1_048_572, 1_048_573, 1_048_574, 1_048_575];
    const COLS: [u32; 9] = [0, 1, 2, 3, 16_379, 16_380, 16_381, 16_382, 16_383];
    run.explore("notes at limits", 81, |i, rec| {
        let (r, c) = (ROWS[(i % 9) as usize], COLS[(i / 9) as usize]);
        rec.describe(|| format!("note of cell {}", cell_name(r, c as u16)));
        rec.step();
        rec.trace();
        let (cols, rows) = axes();
        let mut wb = Workbook::new();
        e(wb.add_worksheet().insert_note(r, c as u16, &Note::new("n")))?;
        let p = pkg(&mut wb)?;
        let v = anchors(&p, 0)?;
        eq("notes", 1, v.len())?;
        let (at, off) = note_at(r, c);
        let w = place(&cols, &rows, at, off, (128.0, 74.0), M::DontMoveOrSizeWithCells);
        rec.state(&(w.from.0, w.from.2));
        if w.to.0 >= 16_384 || w.to.2 >= 1_048_576 {
            return Err(format!("model: note reaches {:?}", w.to));
        }
        check_vml(v[0].1, "note", &w, M::DontMoveOrSizeWithCells)
    });
    // Scalings of images.
    const PX: [(u32, u32); 3] = [(100, 80), (1, 1), (37, 211)];
    // Dots per metre: none, 96, 72 and 300 dpi, and different ones.
    const DPM: [Option<(u32, u32)>; 5] = [None, Some((3780, 3780)), Some((2835, 2835)), Some((11811, 11811)), Some((2835, 5669))];
    const SC: [f64; 4] = [1.0, 0.5, 2.25, 0.0];
    const HOW: usize = 12;
    run.explore("images", (3 * 5 * 4 * 4 * HOW) as u64, |i, rec| {
        let mut d = Dig(i);
        let (px, dpm, sx, sy, how) = (PX[d.take(3) as usize], DPM[d.take(5) as usize], SC[d.take(4) as usize], SC[d.take(4) as usize], d.take(HOW));
        rec.describe(|| format!("image of {px:?} pixels, {dpm:?} per metre, scales {sx} {sy}, way {how}"));
        rec.step();
        rec.trace();
        let mut im = e(Image::new_from_buffer(&crate::feat::png(px.0, px.1, 3, dpm)))?;
        let dpi = dpm.map_or((96.0, 96.0), |(x, y)| (f64::from(x) * 0.0254, f64::from(y) * 0.0254));
        eq("pixels and resolution", (f64::from(px.0), f64::from(px.1), dpi.0, dpi.1), (im.width(), im.height(), im.width_dpi(), im.height_dpi()))?;
        let full = (f64::from(px.0) * 96.0 / dpi.0, f64::from(px.1) * 96.0 / dpi.1);
        let (mut x, mut y) = (1.0, 1.0);
        let (mut cols, mut rows) = axes();
        // Scales of zero are ignored.
        im = im.set_scale_width(sx).set_scale_height(sy);
        if sx > 0.0 {
            x = sx;
        }
        if sy > 0.0 {
            y = sy;
        }
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        let fit = |t: (f64, f64), keep: bool| {
            let s = (t.0 / full.0, t.1 / full.1);
            if keep {
                let k = s.0.min(s.1);
                (full.0 * k, full.1 * k)
            } else {
                t
            }
        };
        let mut size = (full.0 * x, full.1 * y);
        match how {
            0 => e(w.insert_image(1, 1, &im).map(|_| ()))?,
            1..=4 => {
                let t = [(50.0, 50.0), (200.0, 30.0), (0.0, 50.0), (50.0, 0.0)][how - 1];
                im = im.set_scale_to_size(t.0, t.1, false);
                if t.0 > 0.0 && t.1 > 0.0 {
                    size = fit(t, false);
                }
                e(w.insert_image(1, 1, &im))?;
            }
            5 | 6 => {
                let t = [(50.0, 50.0), (200.0, 30.0)][how - 5];
                size = fit(t, true);
                e(w.insert_image(1, 1, &im.set_scale_to_size(t.0, t.1, true)))?;
            }
            7..=10 => {
                let keep = how % 2 == 0;
                if how > 8 {
                    e(w.set_column_width_pixels(1, 150))?;
                    e(w.set_row_height_pixels(1, 33))?;
                    cols.set.insert(1, 150);
                    rows.set.insert(1, 33);
                }
                size = fit((cols.size(1, M::MoveAndSizeWithCells), rows.size(1, M::MoveAndSizeWithCells)), keep);
                e(w.insert_image_fit_to_cell(1, 1, &im, keep))?;
            }
            _ => {
                // A hidden cell leaves the size as it is.
                e(w.set_column_hidden(1))?;
                cols.hidden.insert(1);
                e(w.insert_image_fit_to_cell(1, 1, &im, false))?;
            }
        }
        rec.state(&(how, (size.0 * 100.0) as i64, (size.1 * 100.0) as i64));
        let p = pkg(&mut wb)?;
        let v = anchors(&p, 0)?;
        eq("images", 1, v.len())?;
        // Edges that meet the edge of a cell up to rounding may lie on either side.
        let m = M::MoveButDontSizeWithCells;
        const D: [f64; 3] = [1e-9, 0.0, -1e-9];
        let mut last = Ok(());
        for k in 0..9 {
            last = check_anchor(v[0].1, "image", &place(&cols, &rows, (1, 1), (0, 0), (size.0 + D[k % 3], size.1 + D[k / 3]), m), m);
            if last.is_ok() {
                break;
            }
        }
        last
    });
    // Histories after the objects were inserted.
    let depth = run.pick(4, 5);
    run.explore("histories", seqs(HOPS.len() as u64, depth), |i, rec| {
        let s = seq(i, HOPS.len() as u64);
        rec.describe(|| format!("{:?}", s.iter().map(|x| HOPS[*x]).collect::<Vec<_>>()));
        rec.trace();
        let (mut cols, mut rows) = axes();
        let (at, off, size, m) = ((1, 1), (70, 25), (150, 90), M::MoveButDontSizeWithCells);
        let mut wb = Workbook::new();
        let w = wb.add_worksheet();
        insert(w, at, off, size, m)?;
        for r in 0..5 {
            e(w.write(r, 0, if r == 3 { "no" } else { "yes" }))?;
        }
        let mut filter = false;
        for o in s.iter().chain(&[11]) {
            rec.step();
            let w = e(wb.worksheet_from_index(0))?;
            match HOPS[*o] {
                "column 0 wider" => {
                    e(w.set_column_width_pixels(0, 111))?;
                    cols.set.insert(0, 111);
                }
                "column 2 hidden" => {
                    e(w.set_column_hidden(2))?;
                    cols.hidden.insert(2);
                }
                "column 2 narrow" => {
                    e(w.set_column_width_pixels(2, 3))?;
                    cols.set.insert(2, 3);
                }
                "row 1 higher" => {
                    e(w.set_row_height_pixels(1, 50))?;
                    rows.set.insert(1, 50);
                }
                "row 2 hidden" => {
                    e(w.set_row_hidden(2))?;
                    rows.hidden.insert(2);
                }
                "row 2 shown" => {
                    e(w.set_row_unhidden(2))?;
                    rows.hidden.remove(&2);
                }
                "default height 10" => {
                    w.set_default_row_height_pixels(10);
                    rows.default = 10;
                }
                "all columns 30" => {
                    e(w.set_column_range_width_pixels(0, 5, 30))?;
                    cols.set.extend((0..=5).map(|c| (c, 30)));
                }
                "filter hides row 3" => {
                    e(w.autofilter(0, 0, 4, 0))?;
                    e(w.filter_column(0, &FilterCondition::new().add_list_filter("yes")))?;
                    filter = true;
                }
                "no filter" => {
                    e(w.autofilter(0, 0, 4, 0))?;
                    filter = false;
                }
                "text in a row" => e(w.write(2, 3, "a long text").map(|_| ()))?,
                _ => {
                    let p = pkg(&mut wb)?;
                    let mut r = rows.clone();
                    if filter {
                        r.hidden.insert(3);
                    }
                    check_all(&p, &cols, &r, at, off, size, m)?;
                }
            }
            rec.state(&(&cols, &rows, filter));
        }
        Ok(())
    });
}
