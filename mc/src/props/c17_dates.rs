//! C17: dates and times become the right Excel serial numbers, everywhere.
use super::util::*;
use super::Prop;

pub const PROP: Prop = Prop {
    id: "C17",
    level: "model_checking",
    rule: "Model: a calendar that counts days one by one from 1899-12-31 (day 0) to 9999-12-31, with Excel's false 1900-02-29, and a clock of milliseconds. Every date of the range (and every impossible year, month and day around it), every second of a day, hours beyond a day, every day as Unix timestamp and as chrono value, and all texts of the documented forms are converted by the real code and compared with the model. Then representative moments in every representation are written through every place that takes one, and read back from the saved file.",
    assumes: &["a serial number is right when it is within half a millisecond; whole days are exact"],
    run,
};
fn leap(y: u32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
/// Days of a month as Excel has them.
fn days(y: u32, m: u32) -> u32 {
    match m {
        2 if leap(y) || y == 1900 => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// The serial number of the first day of a year, counted.
fn starts() -> Vec<u32> {
    let mut v = vec![0; 10_001];
    let mut n = 1;
    for y in 1900..=10_000u32 {
        v[y as usize] = n;
        for m in 1..=12 {
            n += days(y, m);
        }
    }
    v
}
fn near(what: &str, want: f64, got: f64) -> R {
    if (want - got).abs() < 5e-9 {
        Ok(())
    } else {
        Err(format!("{what}: expected {want}, found {got}"))
    }
}
fn day_secs(n: u32) -> i64 {
    // Day 0 is 1899-12-31; the false leap day has no timestamp.
    let n = i64::from(n) - i64::from(n > 60);
    (n - 25_568) * 86_400
}
fn calendar(run: &mut Run) {
    let st = starts();
    run.explore("calendar", 10_003, |i, rec| {
        let y = match i {
            10_001 => 32_768,
            10_002 => 65_535,
            _ => i as u32,
        };
        rec.describe(|| format!("year {y}"));
        let mut n = if (1900..=9999).contains(&y) { st[y as usize] } else { 0 };
        for m in 0..=13u32 {
            for d in 0..=32u32 {
                rec.step();
                let valid = (1900..=9999).contains(&y) && (1..=12).contains(&m) && d >= 1 && d <= days(y, m) || (y, m, d) == (1899, 12, 31);
                let got = ExcelDateTime::from_ymd(y as u16, m as u8, d as u8);
                let text = format!("{y:04}-{m:02}-{d:02}");
                let parsed = ExcelDateTime::parse_from_str(&text);
                if !valid {
                    if got.is_ok() {
                        return Err(format!("{text} was accepted"));
                    }
                    if parsed.is_ok() {
                        return Err(format!("{text:?} was parsed"));
                    }
                    continue;
                }
                rec.state(&(y, m, d));
                rec.trace();
                let want = f64::from(n);
                let got = got.map_err(|x| x.to_string())?;
                eq(&text, want, got.to_excel())?;
                eq(&text, want, parsed.map_err(|x| x.to_string())?.to_excel())?;
                rec.seen(&n);
                if let Some(c) = chrono::NaiveDate::from_ymd_opt(y as i32, m, d) {
                    eq("chrono date", want, c.to_excel_serial_date())?;
                    let t = c.and_hms_milli_opt(18, 30, 15, 250).unwrap();
                    near("chrono date and time", want + 66_615.25 / 86_400.0, t.to_excel_serial_date())?;
                    for (s, f) in [(0, 0.0), (1, 1.0), (43_200, 43_200.0), (86_399, 86_399.0)] {
                        let t = ExcelDateTime::from_timestamp(day_secs(n) + s).map_err(|x| format!("timestamp: {x}"))?;
                        near("timestamp", want + f / 86_400.0, t.to_excel())?;
                    }
                }
                let t = e(got.clone().and_hms(23, 59, 59.5))?;
                near("date and time", want + 86_399.5 / 86_400.0, t.to_excel())?;
                let t = e(e(got.and_hms_milli(1, 2, 3, 4))?.and_hms(12, 0, 0))?;
                near("date and last time", want + 0.5, t.to_excel())?;
                if (1900..=9999).contains(&y) {
                    n += 1;
                }
            }
        }
        Ok(())
    });
    run.explore("ends of the range", 1, |_, rec| {
        rec.describe(|| "timestamps and serial numbers".into());
        rec.trace();
        for (t, ok) in [(i64::MIN, false), (-2_209_075_201, false), (-2_209_075_200, true), (-1, true), (0, true), (253_402_300_799, true), (253_402_300_800, false), (i64::MAX, false)] {
            rec.step();
            eq(&format!("timestamp {t}"), ok, ExcelDateTime::from_timestamp(t).is_ok())?;
        }
        for (t, ok) in [(-0.001, false), (f64::NAN, false), (f64::NEG_INFINITY, false), (f64::INFINITY, false), (0.0, true), (0.999_999, true), (60.0, true), (2_958_465.999, true), (2_958_466.0, false)] {
            rec.step();
            let got = ExcelDateTime::from_serial_datetime(t);
            eq(&format!("serial {t}"), ok, got.is_ok())?;
            if let Ok(d) = got {
                eq("serial", t, d.to_excel())?;
            }
        }
        Ok(())
    });
}
fn clock(run: &mut Run) {
    let every = run.pick(false, true);
    run.explore("clock", 1440, |i, rec| {
        let (h, m) = ((i / 60) as u16, (i % 60) as u8);
        rec.describe(|| format!("{h}:{m:02}"));
        let day = e(ExcelDateTime::from_ymd(2024, 2, 29))?;
        near("parsed minutes", f64::from(i as u32) / 1440.0, e(ExcelDateTime::parse_from_str(&format!("{h:02}:{m:02}")))?.to_excel())?;
        for s in 0..60u8 {
            rec.state(&(h, m, s));
            let secs = f64::from(i as u32 * 60 + u32::from(s));
            let few = [0u16, 1, 10, 100, 499, 500, 501, 998, 999];
            let all: Vec<u16> = (0..1000).collect();
            for &ms in if every { &all[..] } else { &few[..] } {
                rec.step();
                let want = (secs * 1000.0 + f64::from(ms)) / 86_400_000.0;
                near("from_hms_milli", want, e(ExcelDateTime::from_hms_milli(h, m, s, ms))?.to_excel())?;
                near("from_hms", want, e(ExcelDateTime::from_hms(h, m, f64::from(s) + f64::from(ms) / 1000.0))?.to_excel())?;
                near("and_hms_milli", 45_351.0 + want, e(day.clone().and_hms_milli(h, m, s, ms))?.to_excel())?;
                let c = chrono::NaiveTime::from_hms_milli_opt(h.into(), m.into(), s.into(), ms.into()).unwrap();
                near("chrono time", want, c.to_excel_serial_date())?;
                if !every || ms % 10 == 0 {
                    near("parsed", want, e(ExcelDateTime::parse_from_str(&format!("{h:02}:{m:02}:{s:02}.{ms:03}")))?.to_excel())?;
                }
                rec.seen(&want.to_bits());
            }
            near("from_hms", secs / 86_400.0, e(ExcelDateTime::from_hms(h, m, s))?.to_excel())?;
            for (a, b) in [("T", ""), ("T", "Z"), (" ", ""), (" ", "  "), ("T", "+02:00"), ("T", "-05:30"), ("T", ".000Z")] {
                rec.step();
                let t = format!(" 2024-02-29{a}{h:02}:{m:02}:{s:02}{b}");
                near(&t, 45_351.0 + secs / 86_400.0, e(ExcelDateTime::parse_from_str(&t))?.to_excel())?;
            }
            rec.trace();
        }
        Ok(())
    });
    run.explore("hours", 65_536 / 256, |b, rec| {
        rec.describe(|| format!("from hour {}", b * 256));
        for h in b * 256..(b + 1) * 256 {
            rec.step();
            rec.state(&h);
            near("hours", h as f64 / 24.0, e(ExcelDateTime::from_hms(h as u16, 0, 0))?.to_excel())?;
            near("hours", (h as f64 * 3600.0 + 3599.0) / 86_400.0, e(ExcelDateTime::from_hms_milli(h as u16, 59, 59, 0))?.to_excel())?;
        }
        rec.trace();
        Ok(())
    });
    run.explore("impossible times", 256, |i, rec| {
        let x = i as u8;
        rec.describe(|| format!("part {x}"));
        rec.trace();
        let d = e(ExcelDateTime::from_ymd(2024, 1, 1))?;
        for s in [-1.0, -0.001, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 59.9999, 60.0, 1e300] {
            rec.step();
            if ExcelDateTime::from_hms(0, 0, s).is_ok() || d.clone().and_hms(1, 1, s).is_ok() {
                return Err(format!("{s} seconds were accepted"));
            }
        }
        if x > 60 {
            let ok = [ExcelDateTime::from_hms(0, x, 0).is_ok(), d.clone().and_hms(0, x, 0).is_ok(), ExcelDateTime::from_hms(0, 0, x).is_ok(), ExcelDateTime::from_hms_milli(0, x, 0, 0).is_ok(), d.clone().and_hms_milli(0, x, 0, 0).is_ok(), ExcelDateTime::from_hms_milli(0, 0, x, 0).is_ok(), ExcelDateTime::parse_from_str(&format!("00:{x}:00")).is_ok(), ExcelDateTime::parse_from_str(&format!("2024-01-01 00:00:{x}")).is_ok()];
            eq("accepted", [false; 8], ok)?;
        }
        for ms in (0..256).map(|j| 1000 + i as u16 * 252 + j) {
            rec.step();
            if ExcelDateTime::from_hms_milli(0, 0, 0, ms).is_ok() {
                return Err(format!("{ms} ms were accepted"));
            }
        }
        Ok(())
    });
    run.explore("texts that aren't dates", 1, |_, rec| {
        rec.describe(|| "texts".into());
        rec.trace();
        for t in ["", " ", "2024", "20240101", "today", "2024/01/01", "-", "--", "x-y-z", "2024-13-01", "2024-02-30", "2023-02-29", "1899-12-30", "10000-01-01", "99999999-1-1", "2024-01", "2024-01-"] {
            rec.step();
            if ExcelDateTime::parse_from_str(t).is_ok() {
                return Err(format!("{t:?} was parsed"));
            }
        }
        Ok(())
    });
}
const WAYS: [&str; 7] = ["parts", "millis", "serial", "parsed", "timestamp", "chrono", "chrono ref"];
const SINKS: [&str; 16] = ["write", "write with format", "write_datetime", "write_datetime_with_format", "write_date", "write_time", "column format", "constant memory", "cell rule", "date rule", "date validation", "time validation", "axis", "created", "custom property", "serde"];
fn sinks(run: &mut Run) {
    const DAYS: [(u32, (u16, u8, u8)); 7] = [(0, (1899, 12, 31)), (1, (1900, 1, 1)), (59, (1900, 2, 28)), (61, (1900, 3, 1)), (45_351, (2024, 2, 29)), (25_569, (1970, 1, 1)), (2_958_465, (9999, 12, 31))];
    const TIMES: [u32; 5] = [0, 1, 45_045, 86_399, 43_200];
    run.explore("places", (DAYS.len() * TIMES.len() * WAYS.len() * SINKS.len()) as u64, |i, rec| {
        let mut g = Dig(i);
        let sink = *g.of(&SINKS);
        let way = *g.of(&WAYS);
        let (n, (y, m, d)) = *g.of(&DAYS);
        let t = *g.of(&TIMES);
        rec.describe(|| format!("{y}-{m}-{d} and {t} s as {way} in {sink}"));
        rec.state(&(n, t, sink));
        rec.step();
        let (h, mi, s) = ((t / 3600) as u16, (t / 60 % 60) as u8, (t % 60) as u8);
        let want = f64::from(n) + f64::from(t) / 86_400.0;
        let x = match way {
            "parts" => e(e(ExcelDateTime::from_ymd(y, m, d))?.and_hms(h, mi, s))?,
            "millis" => e(e(ExcelDateTime::from_ymd(y, m, d))?.and_hms_milli(h, mi, s, 0))?,
            "serial" => e(ExcelDateTime::from_serial_datetime(want))?,
            "parsed" => e(ExcelDateTime::parse_from_str(&format!("{y}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z")))?,
            "timestamp" => e(ExcelDateTime::from_timestamp(day_secs(n) + i64::from(t)))?,
            _ => ExcelDateTime::from_ymd(2000, 1, 1).unwrap(),
        };
        let c = chrono::NaiveDate::from_ymd_opt(y.into(), m.into(), d.into()).unwrap().and_hms_opt(h.into(), mi.into(), s.into()).unwrap();
        let mut wb = Workbook::new();
        let ws = if sink == "constant memory" { wb.add_worksheet_with_constant_memory() } else { wb.add_worksheet() };
        let f = Format::new().set_num_format("yyyy-mm-dd hh:mm:ss");
        // With the value in the way asked for.
        macro_rules! with {
            (|$v:ident| $b:expr) => {
                match way {
                    "chrono" => {
                        let $v = c;
                        $b
                    }
                    "chrono ref" => {
                        let $v = &c;
                        $b
                    }
                    _ => {
                        let $v = &x;
                        $b
                    }
                }
            };
        }
        // The same, for places which take chrono values only by reference.
        macro_rules! by_ref {
            (|$v:ident| $b:expr) => {
                if way.starts_with("chrono") {
                    let $v = &c;
                    $b
                } else {
                    let $v = &x;
                    $b
                }
            };
        }
        let cell = |p: &Pkg, fmt: &str| -> R {
            let sh = sheet(p, 0)?;
            let st = book::styles(p)?;
            let c = sh.data.cells.get(&(1, 1)).ok_or("no cell")?;
            match &c.v {
                V::Num(x) => near("cell", want, *x)?,
                v => return Err(format!("cell holds {v:?}")),
            }
            eq("format", format!("code:{fmt}"), xf(&st, c.s)?.num.clone())
        };
        const F: &str = "yyyy-mm-dd hh:mm:ss";
        match sink {
            "write" => {
                by_ref!(|v| e(ws.write(1, 1, v).map(|_| ()))?);
            }
            "write with format" => by_ref!(|v| e(ws.write_with_format(1, 1, v, &f).map(|_| ()))?),
            "write_datetime" => with!(|v| e(ws.write_datetime(1, 1, v).map(|_| ()))?),
            "constant memory" | "write_datetime_with_format" => with!(|v| e(ws.write_datetime_with_format(1, 1, v, &f).map(|_| ()))?),
            "write_date" => with!(|v| e(ws.write_date_with_format(1, 1, v, &f).map(|_| ()))?),
            "write_time" => with!(|v| e(ws.write_time_with_format(1, 1, v, &f).map(|_| ()))?),
            "column format" => {
                e(ws.set_column_format(1, &f))?;
                with!(|v| e(ws.write_datetime(1, 1, v).map(|_| ()))?)
            }
            "cell rule" => by_ref!(|v| e(ws.add_conditional_format(1, 1, 1, 1, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::EqualTo(v))).map(|_| ()))?),
            "date rule" => {
                if way.starts_with("chrono") {
                    return Ok(());
                }
                e(ws.add_conditional_format(1, 1, 1, 1, &ConditionalFormat2ColorScale::new().set_minimum(ConditionalFormatType::Number, &x)))?;
            }
            "date validation" => by_ref!(|v| {
                e(ws.add_data_validation(1, 1, 1, 1, &DataValidation::new().allow_date(DataValidationRule::EqualTo(v))).map(|_| ()))?
            }),
            "time validation" => by_ref!(|v| {
                e(ws.add_data_validation(1, 1, 1, 1, &DataValidation::new().allow_time(DataValidationRule::LessThan(v))).map(|_| ()))?
            }),
            "axis" => {
                let mut ch = Chart::new(ChartType::Line);
                ch.add_series().set_values("Sheet1!A1:A3").set_categories("Sheet1!B1:B3");
                ch.x_axis().set_date_axis(true);
                with!(|v| {
                    ch.x_axis().set_min_date(v);
                });
                e(ws.insert_chart(0, 0, &ch))?;
            }
            "created" | "custom property" => {
                let mut p = DocProperties::new();
                let utc = c.and_utc();
                p = if sink == "created" {
                    if way.starts_with("chrono") {
                        p.set_creation_datetime(&utc)
                    } else {
                        p.set_creation_datetime(&x)
                    }
                } else if way.starts_with("chrono") {
                    p.set_custom_property("When", &utc)
                } else {
                    p.set_custom_property("When", &x)
                };
                wb.set_properties(&p);
            }
            "serde" => {
                if way.starts_with("chrono") {
                    return Ok(());
                }
                #[derive(serde::Serialize)]
                struct Row {
                    when: ExcelDateTime,
                }
                e(ws.serialize_headers_with_options(0, 1, &Row { when: x.clone() }, &SerializeFieldOptions::new().set_custom_headers(&[CustomSerializeField::new("when").set_value_format(&f)])).map(|_| ()))?;
                e(ws.serialize(&Row { when: x.clone() }))?;
            }
            _ => unreachable!(),
        }
        let p = closed(&mut wb)?;
        rec.trace();
        rec.seen(&(n, t));
        let number = |el: &str| -> R {
            let mut all: Vec<String> = p.sheet(0)?.find_all(el).iter().map(|x| x.text()).collect();
            if all.is_empty() {
                all = p.sheet(0)?.find_all("cfvo").iter().filter_map(|x| x.a("val").map(|v| v.to_string())).collect();
            }
            near(el, want, all.first().ok_or(format!("no {el}"))?.parse().map_err(|_| format!("{all:?}"))?)
        };
        match sink {
            "write" | "write_datetime" => {
                // The default date format depends on the type; it has to be a date format.
                let sh = sheet(&p, 0)?;
                let c = sh.data.cells.get(&(1, 1)).ok_or("no cell")?;
                match &c.v {
                    V::Num(x) => near("cell", want, *x),
                    v => Err(format!("cell holds {v:?}")),
                }
            }
            "cell rule" => number("formula"),
            "date rule" => number("cfvo x"),
            "date validation" | "time validation" => number("formula1"),
            "axis" => {
                let x = p.x("xl/charts/chart1.xml")?;
                let m = x.find_all("c:min").first().and_then(|m| m.a("val")).ok_or("no minimum")?.to_string();
                near("minimum", want, m.parse().map_err(|_| m)?)
            }
            "created" | "custom property" => {
                let iso = format!("{y}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z");
                let got = if sink == "created" { p.x("docProps/core.xml")?.first("dcterms:created").ok_or("no date")?.text() } else { p.x("docProps/custom.xml")?.find_all("vt:filetime").first().ok_or("no date")?.text() };
                eq("date", iso, got)
            }
            _ => cell(&p, F),
        }
    });
    // Times of day, and fractions, as properties.
    run.explore("property dates", 1440 * 3, |i, rec| {
        let secs = i as u32 * 20;
        let (h, m, s) = (secs / 3600, secs / 60 % 60, secs % 60);
        rec.describe(|| format!("{h}:{m}:{s}"));
        rec.state(&i);
        for (x, day) in [
            (e(ExcelDateTime::from_hms(h as u16, m as u8, f64::from(s) + 0.25))?, "1899-12-31"),
            (e(e(ExcelDateTime::from_ymd(2024, 2, 29))?.and_hms(h as u16, m as u8, f64::from(s) + 0.25))?, "2024-02-29"),
            (e(ExcelDateTime::from_serial_datetime(45_351.0 + f64::from(secs) / 86_400.0))?, "2024-02-29"),
            (e(e(ExcelDateTime::from_ymd(2024, 2, 28))?.and_hms(24 + h as u16, m as u8, s as u8))?, "2024-02-29"),
        ] {
            rec.step();
            let mut wb = Workbook::new();
            wb.set_properties(&DocProperties::new().set_custom_property("When", &x).set_creation_datetime(&x));
            let p = pkg(&mut wb)?;
            rec.trace();
            let iso = format!("{day}T{h:02}:{m:02}:{s:02}Z");
            rec.seen(&iso);
            eq("custom property", iso.clone(), p.x("docProps/custom.xml")?.find_all("vt:filetime").first().ok_or("no date")?.text())?;
            eq("created", iso, p.x("docProps/core.xml")?.first("dcterms:created").ok_or("no date")?.text())?;
        }
        Ok(())
    });
}
fn run(run: &mut Run) {
    calendar(run);
    clock(run);
    sinks(run);
}
