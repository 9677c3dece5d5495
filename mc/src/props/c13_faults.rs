//! C13: a fault while saving is reported, and does not damage the workbook.
use super::c03_package as pk;
use super::util::*;
use super::Prop;
use crate::feat::{F, K};
use std::io::{Cursor, Error, ErrorKind, Seek, SeekFrom, Write};

pub const PROP: Prop = Prop {
    id: "C13",
    level: "fault_enumeration",
    rule: "A case is a workbook and a fault: every call of the writer (write, seek, flush) of the save is failed once, for each kind of fault. states counts distinct (workbook, call) fault points; transitions counts writer calls made; traces counts saves under a fault whose outcome was checked.",
    assumes: &["faults are those a Write + Seek implementation can return"],
    run,
};
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Error,
    Zero,
    Interrupted,
    Short,
    Forever,
}
const FAULTS: [Fault; 5] = [Fault::Error, Fault::Zero, Fault::Interrupted, Fault::Short, Fault::Forever];
struct W<'a> {
    out: Cursor<&'a mut Vec<u8>>,
    at: u64,
    fault: Fault,
    calls: &'a mut u64,
    hit: &'a mut bool,
}
impl W<'_> {
    fn fires(&mut self) -> bool {
        *self.calls += 1;
        let f = if self.fault == Fault::Forever { *self.calls > self.at } else { self.calls.checked_sub(1) == Some(self.at) };
        *self.hit |= f;
        f
    }
}
impl Write for W<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.fires() {
            match self.fault {
                Fault::Error | Fault::Forever => return Err(Error::new(ErrorKind::Other, "injected fault")),
                Fault::Zero if !b.is_empty() => return Ok(0),
                Fault::Interrupted => return Err(Error::new(ErrorKind::Interrupted, "injected interrupt")),
                Fault::Short if b.len() > 1 => return self.out.write(&b[..b.len() / 2]),
                _ => {}
            }
        }
        self.out.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.fires() && matches!(self.fault, Fault::Error | Fault::Forever) {
            return Err(Error::new(ErrorKind::Other, "injected fault"));
        }
        self.out.flush()
    }
}
impl Seek for W<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.fires() && matches!(self.fault, Fault::Error | Fault::Forever) {
            return Err(Error::new(ErrorKind::Other, "injected fault"));
        }
        self.out.seek(p)
    }
}
const BOOKS: usize = 6;
fn book(i: usize) -> Result<Workbook, String> {
    let f = |k, slot, id| F { k, slot, id };
    let (w, s): (Vec<pk::W>, Vec<Vec<F>>) = match i {
        0 => (vec![], vec![vec![]]),
        1 => (vec![], vec![vec![f(K::Png, 0, 1), f(K::Chart, 1, 2), f(K::Note, 2, 3), f(K::Table, 3, 4), f(K::CondCell, 4, 5), f(K::Rich, 5, 6), f(K::Embed, 6, 7), f(K::Background, 7, 8), f(K::Header, 8, 9), f(K::Dynamic, 9, 10), f(K::TextUrl, 10, 11), f(K::Checkbox, 11, 12)], vec![f(K::Button, 0, 13), f(K::Plain, 1, 14)]]),
        2 => (vec![pk::W::Constant], vec![vec![f(K::Plain, 0, 1)]]),
        3 => (vec![pk::W::Low, pk::W::Constant, pk::W::ChartSheet], vec![vec![f(K::Formatted, 0, 1)]]),
        4 => (vec![pk::W::Signed, pk::W::Custom, pk::W::Names], vec![vec![f(K::Spark, 0, 1), f(K::Filter, 1, 2)]]),
        _ => (vec![pk::W::Big, pk::W::Vba], vec![vec![f(K::TableFormats, 0, 1), f(K::NoteAuthor, 1, 2), f(K::Merge, 2, 3)]]),
    };
    let mut wb = pk::build(&w, &s)?;
    wb.set_properties(&DocProperties::new().set_custom_property("p", 1).set_creation_datetime(&ExcelDateTime::from_ymd(2024, 1, 2).unwrap()));
    Ok(wb)
}
/// Save with a fault at call `at`; what the writer holds afterwards, and the number of calls.
fn faulty(wb: &mut Workbook, at: u64, fault: Fault) -> (Result<Result<(), XlsxError>, String>, Vec<u8>, u64, bool) {
    let mut out = vec![];
    let (mut calls, mut hit) = (0, false);
    let r = guarded(|| wb.save_to_writer(W { out: Cursor::new(&mut out), at, fault, calls: &mut calls, hit: &mut hit }));
    // The zip crate closes the archive when it is dropped after an error, and where that underflows
    // a debug build panics in it; in a release build the error is returned. That is not this library.
    let r = match r {
        Err(m) if m.contains("/zip-2") && m.contains("attempt to subtract with overflow") => Ok(Err(XlsxError::IoError(Error::new(ErrorKind::Other, m)))),
        r => r,
    };
    (r, out, calls, hit)
}
fn run(run: &mut Run) {
    let mut counts = vec![];
    let mut good = vec![];
    for i in 0..BOOKS {
        let c = guarded(|| {
            let mut wb = book(i)?;
            let (r, out, calls, _) = faulty(&mut wb, u64::MAX, Fault::Error);
            e(r?)?;
            opc::check(&Pkg::open(&out)?)?;
            Ok::<_, String>((calls, out))
        });
        match c {
            Ok(Ok((n, out))) => {
                counts.push(n);
                good.push(out);
            }
            r => {
                let m = r.map(|r| r.err().unwrap_or_default()).unwrap_or_else(|m| m);
                run.explore("save without faults", 1, |_, rec| {
                    rec.describe(|| format!("workbook {i}"));
                    Err(m.clone())
                });
                return;
            }
        }
    }
    let resave = run.thorough;
    for i in 0..BOOKS {
        let n = counts[i];
        run.explore(&format!("a fault at every writer call, workbook {i}"), n * FAULTS.len() as u64, |c, rec| {
            let mut d = Dig(c);
            let fault = FAULTS[d.take(FAULTS.len())];
            let at = d.take(n as usize) as u64;
            rec.describe(|| format!("workbook {i}, {fault:?} at writer call {at} of {n}"));
            rec.state(&(i, at));
            let mut wb = book(i)?;
            let (r, out, calls, hit) = faulty(&mut wb, at, fault);
            rec.steps(calls as usize);
            rec.trace();
            let r = r.map_err(|m| format!("save panicked: {m}"))?;
            if !hit {
                return Err("MACHINERY: the number of writer calls is not reproducible".into());
            }
            rec.seen(&(i, at, format!("{fault:?}"), r.is_ok()));
            match (&r, fault) {
                // An interrupted call is made again by the standard library; other users may report it.
                (Ok(()), _) => {
                    // If the save claims success then the file is whole.
                    if out != good[i] {
                        return Err(format!("save returned Ok but the output differs: {}", super::c11_resave::same_files(&good[i], &out).err().unwrap_or_default()));
                    }
                }
                (Err(x), Fault::Short) => return Err(format!("a short write made the save fail: {x}")),
                (Err(_), _) => {}
            }
            if r.is_err() && (resave || at % 8 == 0) {
                // The workbook can still be saved; the file is that of an undisturbed workbook.
                let again = guarded(|| wb.save_to_buffer()).map_err(|m| format!("a save after the failed one panicked: {m}"))?;
                let again = e(again).map_err(|m| format!("a save after the failed one failed: {m}"))?;
                rec.trace();
                super::c11_resave::same_files(&good[i], &again).map_err(|m| format!("after a failed save, {m}"))?;
            }
            Ok(())
        });
    }
    run.explore("faults of the file system", 4 * BOOKS as u64, |i, rec| {
        let mut d = Dig(i);
        let b = d.take(BOOKS);
        let k = d.take(4);
        rec.state(&(b, k));
        rec.trace();
        rec.seen(&(b, k));
        let mut wb = book(b)?;
        let path = match k {
            0 => "/dev/full".to_string(),
            1 => "/nonexistent-dir/x.xlsx".to_string(),
            2 => "/proc/version/x.xlsx".to_string(),
            _ => std::env::temp_dir().to_string_lossy().to_string(),
        };
        rec.describe(|| format!("workbook {b} saved to {path}"));
        match guarded(|| wb.save(&path)).map_err(|m| format!("save panicked: {m}"))? {
            Ok(()) => Err("the save to an impossible path returned Ok".into()),
            Err(_) => Ok(()),
        }
    });
}
