//! C14: calls outside the limits are refused and leave nothing behind.
use super::util::*;
use super::Prop;
use crate::engine::{Rec, Run};
use crate::opc::Pkg;
use rust_xlsxwriter::*;

type R = Result<(), String>;
type X = Result<(), XlsxError>;

pub const PROP: Prop = Prop {
    id: "C14",
    level: "model_checking",
    rule: "a call with cells outside the worksheet, a reversed range or refused content returns the documented error without a panic, and the file saved after it is byte for byte the one saved without it; a call inside the limits is accepted and gives a valid file",
    assumes: &["ranges of more than some hundred cells are not filled by calls that write every cell of their range"],
    run,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    /// One cell.
    Cell,
    /// A range, and one whose cells are all visited.
    Range,
    Dense,
    Row,
    Rows,
    Col,
    Cols,
}
#[derive(Clone, Copy)]
struct O {
    name: &'static str,
    k: K,
    /// A reversed range is an error.
    order: bool,
    f: fn(&mut Worksheet, u32, u16, u32, u16) -> X,
}
fn png() -> Image {
    Image::new_from_buffer(&crate::feat::png(8, 8, 1, None)).unwrap()
}
fn fmt() -> Format {
    Format::new().set_italic().set_font_name("Refused")
}
fn ops() -> Vec<O> {
    let mut v: Vec<O> = vec![];
    macro_rules! o {
        ($k:ident, $order:expr, $n:expr, |$w:ident, $a:pat_param, $b:pat_param, $c:pat_param, $d:pat_param| $e:expr) => {
            v.push(O { name: $n, k: K::$k, order: $order, f: |$w, $a, $b, $c, $d| $e.map(|_| ()) });
        };
    }
    use K::*;
    let _ = Cell;
    o!(Cell, false, "write", |w, a, b, _, _| w.write(a, b, 7));
    o!(Cell, false, "write_with_format", |w, a, b, _, _| w.write_with_format(a, b, "x", &fmt()));
    o!(Cell, false, "write_row", |w, a, b, _, _| w.write_row(a, b, [1]));
    o!(Cell, false, "write_row_with_format", |w, a, b, _, _| w.write_row_with_format(a, b, [1], &fmt()));
    o!(Cell, false, "write_column", |w, a, b, _, _| w.write_column(a, b, [1]));
    o!(Cell, false, "write_column_with_format", |w, a, b, _, _| w.write_column_with_format(a, b, [1], &fmt()));
    o!(Cell, false, "write_row_matrix", |w, a, b, _, _| w.write_row_matrix(a, b, [[1]]));
    o!(Cell, false, "write_column_matrix", |w, a, b, _, _| w.write_column_matrix(a, b, [[1]]));
    o!(Cell, false, "write_number", |w, a, b, _, _| w.write_number(a, b, 7));
    o!(Cell, false, "write_number nan", |w, a, b, _, _| w.write_number(a, b, f64::NAN));
    o!(Cell, false, "write_number_with_format", |w, a, b, _, _| w.write_number_with_format(a, b, 7, &fmt()));
    o!(Cell, false, "write_string", |w, a, b, _, _| w.write_string(a, b, "new"));
    o!(Cell, false, "write_string_with_format", |w, a, b, _, _| w.write_string_with_format(a, b, "new", &fmt()));
    o!(Cell, false, "write_string_with_format empty", |w, a, b, _, _| w.write_string_with_format(a, b, "", &fmt()));
    o!(Cell, false, "write_rich_string", |w, a, b, _, _| w.write_rich_string(a, b, &[(&fmt(), "p"), (&Format::default(), "q")]));
    o!(Cell, false, "write_rich_string_with_format", |w, a, b, _, _| w.write_rich_string_with_format(a, b, &[(&fmt(), "p"), (&Format::default(), "q")], &fmt()));
    o!(Cell, false, "write_formula", |w, a, b, _, _| w.write_formula(a, b, "=1+1"));
    o!(Cell, false, "write_formula_with_format", |w, a, b, _, _| w.write_formula_with_format(a, b, "=1+1", &fmt()));
    o!(Cell, false, "write_dynamic_formula", |w, a, b, _, _| w.write_dynamic_formula(a, b, "=LEN(A1)"));
    o!(Cell, false, "write_dynamic_formula_with_format", |w, a, b, _, _| w.write_dynamic_formula_with_format(a, b, "=LEN(A1)", &fmt()));
    o!(Cell, false, "write dynamic by write", |w, a, b, _, _| w.write(a, b, Formula::new("=UNIQUE(A1:A3)")));
    o!(Cell, false, "write_blank", |w, a, b, _, _| w.write_blank(a, b, &fmt()));
    o!(Cell, false, "write_url", |w, a, b, _, _| w.write_url(a, b, "https://h/"));
    o!(Cell, false, "write_url_with_text", |w, a, b, _, _| w.write_url_with_text(a, b, "https://h/", "t"));
    o!(Cell, false, "write_url_with_format", |w, a, b, _, _| w.write_url_with_format(a, b, "internal:Sheet1!A1", &fmt()));
    o!(Cell, false, "write_url_with_options", |w, a, b, _, _| w.write_url_with_options(a, b, "https://h/", "t", "tip", Some(&fmt())));
    o!(Cell, false, "write_datetime", |w, a, b, _, _| w.write_datetime(a, b, ExcelDateTime::from_ymd(2020, 1, 1)?));
    o!(Cell, false, "write_datetime_with_format", |w, a, b, _, _| w.write_datetime_with_format(a, b, ExcelDateTime::from_ymd(2020, 1, 1)?, &fmt()));
    o!(Cell, false, "write_boolean", |w, a, b, _, _| w.write_boolean(a, b, true));
    o!(Cell, false, "write_boolean_with_format", |w, a, b, _, _| w.write_boolean_with_format(a, b, true, &fmt()));
    o!(Cell, false, "insert_image", |w, a, b, _, _| w.insert_image(a, b, &png()));
    o!(Cell, false, "insert_image_with_offset", |w, a, b, _, _| w.insert_image_with_offset(a, b, &png(), 1, 1));
    o!(Cell, false, "insert_image_fit_to_cell", |w, a, b, _, _| w.insert_image_fit_to_cell(a, b, &png(), true));
    o!(Cell, false, "embed_image", |w, a, b, _, _| w.embed_image(a, b, &png()));
    o!(Cell, false, "embed_image_with_format", |w, a, b, _, _| w.embed_image_with_format(a, b, &png(), &fmt()));
    o!(Cell, false, "embed_image with link and text", |w, a, b, _, _| w.embed_image(a, b, &png().set_alt_text("alt").set_url("https://h/")?));
    o!(Cell, false, "insert_chart", |w, a, b, _, _| {
        let mut c = Chart::new_bar();
        c.add_series().set_values("=Sheet1!$A$1:$A$3");
        w.insert_chart(a, b, &c)
    });
    o!(Cell, false, "insert_chart_with_offset", |w, a, b, _, _| {
        let mut c = Chart::new_bar();
        c.add_series().set_values("=Sheet1!$A$1:$A$3");
        w.insert_chart_with_offset(a, b, &c, 1, 1)
    });
    o!(Cell, false, "insert_note", |w, a, b, _, _| w.insert_note(a, b, &Note::new("n")));
    o!(Cell, false, "insert_shape", |w, a, b, _, _| w.insert_shape(a, b, &Shape::textbox()));
    o!(Cell, false, "insert_shape_with_offset", |w, a, b, _, _| w.insert_shape_with_offset(a, b, &Shape::textbox(), 2, 2));
    o!(Cell, false, "insert_button", |w, a, b, _, _| w.insert_button(a, b, &Button::new()));
    o!(Cell, false, "insert_button_with_offset", |w, a, b, _, _| w.insert_button_with_offset(a, b, &Button::new(), 2, 2));
    o!(Cell, false, "insert_checkbox", |w, a, b, _, _| w.insert_checkbox(a, b, true));
    o!(Cell, false, "insert_checkbox_with_format", |w, a, b, _, _| w.insert_checkbox_with_format(a, b, true, &fmt()));
    o!(Cell, false, "add_sparkline", |w, a, b, _, _| w.add_sparkline(a, b, &Sparkline::new().set_range("Sheet1!A1:C1")));
    o!(Cell, false, "set_top_left_cell", |w, a, b, _, _| w.set_top_left_cell(a, b));
    o!(Cell, false, "set_freeze_panes", |w, a, b, _, _| w.set_freeze_panes(a, b));
    o!(Cell, false, "set_freeze_panes_top_cell", |w, a, b, _, _| w.set_freeze_panes_top_cell(a, b));
    o!(Cell, false, "set_cell_format", |w, a, b, _, _| w.set_cell_format(a, b, &fmt()));
    o!(Cell, false, "ignore_error", |w, a, b, _, _| w.ignore_error(a, b, IgnoreError::NumberStoredAsText));
    o!(Cell, false, "clear_cell", |w, a, b, _, _| {
        let limits = a >= 1_048_576 || b >= 16_384;
        w.clear_cell(a, b);
        if limits { Err(XlsxError::RowColumnLimitError) } else { Ok(()) }
    });
    o!(Cell, false, "clear_cell_format", |w, a, b, _, _| {
        let limits = a >= 1_048_576 || b >= 16_384;
        w.clear_cell_format(a, b);
        if limits { Err(XlsxError::RowColumnLimitError) } else { Ok(()) }
    });
    o!(Cell, false, "serialize_headers", |w, a, b, _, _| w.serialize_headers(a, b, &Rowed { first: 1 }));
    o!(Cell, false, "serialize_headers_with_format", |w, a, b, _, _| w.serialize_headers_with_format(a, b, &Rowed { first: 1 }, &fmt()));

    o!(Dense, true, "autofilter", |w, a, b, c, d| w.autofilter(a, b, c, d));
    o!(Dense, true, "write_array_formula", |w, a, b, c, d| w.write_array_formula(a, b, c, d, "=A1:A2"));
    o!(Dense, true, "write_array_formula_with_format", |w, a, b, c, d| w.write_array_formula_with_format(a, b, c, d, "=A1:A2", &fmt()));
    o!(Dense, true, "write_dynamic_array_formula", |w, a, b, c, d| w.write_dynamic_array_formula(a, b, c, d, "=A1:A2"));
    o!(Dense, true, "write_dynamic_array_formula_with_format", |w, a, b, c, d| w.write_dynamic_array_formula_with_format(a, b, c, d, "=A1:A2", &fmt()));
    o!(Dense, true, "merge_range", |w, a, b, c, d| w.merge_range(a, b, c, d, "merged", &fmt()));
    o!(Dense, true, "add_table", |w, a, b, c, d| w.add_table(a, b, c, d, &Table::new()));
    o!(Range, true, "add_conditional_format", |w, a, b, c, d| w.add_conditional_format(a, b, c, d, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::EqualTo(1)).set_format(fmt())));
    o!(Range, true, "add_conditional_format bar", |w, a, b, c, d| w.add_conditional_format(a, b, c, d, &ConditionalFormatDataBar::new()));
    o!(Range, true, "add_data_validation", |w, a, b, c, d| w.add_data_validation(a, b, c, d, &DataValidation::new().allow_whole_number(DataValidationRule::EqualTo(1))));
    o!(Dense, true, "add_sparkline_group", |w, a, b, c, d| w.add_sparkline_group(a, b, c, d, &Sparkline::new().set_range(("Sheet1", 0, 0, c.saturating_sub(a).max(u32::from(d.saturating_sub(b))).min(20), 2))));
    o!(Range, true, "unprotect_range", |w, a, b, c, d| w.unprotect_range(a, b, c, d));
    o!(Range, true, "unprotect_range_with_options", |w, a, b, c, d| w.unprotect_range_with_options(a, b, c, d, "name", "pass"));
    o!(Range, false, "set_selection", |w, a, b, c, d| w.set_selection(a, b, c, d));
    o!(Dense, true, "set_range_format", |w, a, b, c, d| w.set_range_format(a, b, c, d, &fmt()));
    o!(Dense, true, "set_range_format_with_border", |w, a, b, c, d| w.set_range_format_with_border(a, b, c, d, &fmt(), &Format::new().set_border(FormatBorder::Thin)));
    o!(Range, true, "set_print_area", |w, a, b, c, d| w.set_print_area(a, b, c, d));
    o!(Range, true, "ignore_error_range", |w, a, b, c, d| w.ignore_error_range(a, b, c, d, IgnoreError::FormulaDiffers));

    o!(Row, false, "set_row_height", |w, a, _, _, _| w.set_row_height(a, 30));
    o!(Row, false, "set_row_height_pixels", |w, a, _, _, _| w.set_row_height_pixels(a, 30));
    o!(Row, false, "set_row_format", |w, a, _, _, _| w.set_row_format(a, &fmt()));
    o!(Row, false, "set_row_hidden", |w, a, _, _, _| w.set_row_hidden(a));
    o!(Row, false, "set_row_unhidden", |w, a, _, _, _| w.set_row_unhidden(a));
    o!(Rows, true, "group_rows", |w, a, _, c, _| w.group_rows(a, c));
    o!(Rows, true, "group_rows_collapsed", |w, a, _, c, _| w.group_rows_collapsed(a, c));
    o!(Rows, true, "set_repeat_rows", |w, a, _, c, _| w.set_repeat_rows(a, c));
    o!(Row, false, "set_page_breaks", |w, a, _, _, _| w.set_page_breaks(&[3, a]));
    o!(Col, false, "set_column_width", |w, _, b, _, _| w.set_column_width(b, 30));
    o!(Col, false, "set_column_width_pixels", |w, _, b, _, _| w.set_column_width_pixels(b, 30));
    o!(Col, false, "set_column_autofit_width", |w, _, b, _, _| w.set_column_autofit_width(b, 90));
    o!(Col, false, "set_column_format", |w, _, b, _, _| w.set_column_format(b, &fmt()));
    o!(Col, false, "set_column_hidden", |w, _, b, _, _| w.set_column_hidden(b));
    o!(Col, false, "set_vertical_page_breaks", |w, _, b, _, _| w.set_vertical_page_breaks(&[3, u32::from(b)]));
    o!(Cols, true, "set_column_range_width", |w, _, b, _, d| w.set_column_range_width(b, d, 30));
    o!(Cols, true, "set_column_range_width_pixels", |w, _, b, _, d| w.set_column_range_width_pixels(b, d, 30));
    o!(Cols, true, "set_column_range_format", |w, _, b, _, d| w.set_column_range_format(b, d, &fmt()));
    o!(Cols, true, "set_column_range_hidden", |w, _, b, _, d| w.set_column_range_hidden(b, d));
    o!(Cols, true, "group_columns", |w, _, b, _, d| w.group_columns(b, d));
    o!(Cols, true, "group_columns_collapsed", |w, _, b, _, d| w.group_columns_collapsed(b, d));
    o!(Cols, true, "set_repeat_columns", |w, _, b, _, d| w.set_repeat_columns(b, d));
    v
}
#[derive(serde::Serialize)]
struct Rowed {
    first: u32,
}
const ROWS: [u32; 6] = [0, 2, 1_048_574, 1_048_575, 1_048_576, u32::MAX];
const COLS: [u16; 6] = [0, 2, 16_382, 16_383, 16_384, u16::MAX];

fn start(mode: usize, filled: bool) -> Result<Workbook, String> {
    let mut wb = Workbook::new();
    wb.set_properties(&DocProperties::new().set_creation_datetime(&e(ExcelDateTime::from_ymd(2020, 1, 1))?));
    let ws = match mode {
        0 => wb.add_worksheet(),
        1 => wb.add_worksheet_with_constant_memory(),
        _ => wb.add_worksheet_with_low_memory(),
    };
    if filled {
        e(ws.write_string(0, 0, "a"))?;
        e(ws.write_number_with_format(1, 1, 5, &Format::new().set_bold()))?;
        e(ws.set_row_height(3, 40))?;
        e(ws.set_column_width(3, 40))?;
    }
    Ok(wb)
}
fn same(name: &str, a: &[u8], b: &[u8]) -> R {
    if a == b {
        return Ok(());
    }
    let (x, y) = (Pkg::open(a)?, Pkg::open(b)?);
    let names = |p: &Pkg| p.parts.iter().map(|p| p.name.clone()).collect::<Vec<_>>();
    eq(&format!("{name}: parts"), names(&x), names(&y))?;
    for (p, q) in x.parts.iter().zip(&y.parts) {
        if p.data != q.data {
            let (s, t) = (String::from_utf8_lossy(&p.data), String::from_utf8_lossy(&q.data));
            let k = s.char_indices().zip(t.chars()).find(|(a, b)| a.1 != *b).map_or(0, |x| x.0 .0);
            let show = |s: &str| s.chars().skip(k.saturating_sub(40)).take(120).collect::<String>();
            return Err(format!("{name} left something behind in {}: {:?} instead of {:?}", p.name, show(&t), show(&s)));
        }
    }
    Err(format!("{name}: files differ"))
}
fn limits(i: u64, o: &O, filled: bool, mode: usize, rec: &mut Rec) -> R {
    let (a, b, c, d) = (ROWS[(i % 6) as usize], COLS[(i / 6 % 6) as usize], ROWS[(i / 36 % 6) as usize], COLS[(i / 216 % 6) as usize]);
    let (mut r, mut s) = (vec![a, c], vec![b, d]);
    match o.k {
        K::Cell => {
            r.truncate(1);
            s.truncate(1);
        }
        K::Row => {
            r.truncate(1);
            s.clear();
        }
        K::Rows => s.clear(),
        K::Col => {
            s.truncate(1);
            r.clear();
        }
        K::Cols => r.clear(),
        _ => {}
    }
    let outside = r.iter().any(|x| *x >= 1_048_576) || s.iter().any(|x| *x >= 16_384);
    let reversed = (r.len() == 2 && a > c) || (s.len() == 2 && b > d);
    let wide = (r.len() == 2 && a.abs_diff(c) > 4) || (s.len() == 2 && b.abs_diff(d) > 4);
    if !outside && !reversed && wide && o.k == K::Dense {
        return Ok(());
    }
    // Grouping the whole sheet stores every row.
    if !outside && !reversed && o.k == K::Rows && a.abs_diff(c) > 4 && o.name.starts_with("group") {
        return Ok(());
    }
    rec.step();
    rec.trace();
    rec.state(&(o.name, a, b, c, d, filled, mode));
    let mut wb = start(mode, filled)?;
    let got = (o.f)(wb.worksheets_mut().first_mut().ok_or("no worksheet")?, a, b, c, d);
    let class = match &got {
        Ok(()) => "accepted",
        Err(XlsxError::RowColumnLimitError) => "limit",
        Err(XlsxError::RowColumnOrderError) => "order",
        Err(_) => "other",
    };
    let single = a == c && b == d;
    let last = (o.name == "group_rows_collapsed" && c == 1_048_575) || (o.name == "group_columns_collapsed" && d == 16_383);
    let want = if outside || (last && !reversed) {
        "limit"
    } else if reversed && o.order {
        "order"
    } else if (o.name == "merge_range" && single)
        || (o.name == "add_table" && a == c)
        || (o.name == "add_sparkline_group" && (single || a != c && b != d))
        || (mode > 0 && o.name.starts_with("embed") && filled && a < 1)
    {
        "other"
    } else {
        "accepted"
    };
    if class != want && !(outside && reversed && class == "order") {
        return Err(format!("expected to be {want}, was {class}: {:?}", got.err().map(|x| x.to_string())));
    }
    let bytes = save(&mut wb)?;
    if got.is_err() {
        return same(o.name, &save(&mut start(mode, filled)?)?, &bytes);
    }
    let p = Pkg::open(&bytes)?;
    crate::opc::check(&p)?;
    crate::schema::check(&p)
}
type Refused = (&'static str, fn(&mut Workbook) -> X);
fn ws(wb: &mut Workbook) -> &mut Worksheet {
    wb.worksheet_from_index(0).unwrap()
}
fn long(n: usize) -> String {
    "é".repeat(n)
}
/// Calls that are refused for what they hold, on a workbook made by `base`.
fn refused() -> Vec<Refused> {
    let mut v: Vec<Refused> = vec![];
    macro_rules! r {
        ($n:expr, |$wb:ident| $e:expr) => {
            v.push(($n, |$wb| $e.map(|_| ())));
        };
    }
    r!("name empty", |wb| ws(wb).set_name(""));
    r!("name long", |wb| ws(wb).set_name(long(32)));
    r!("name character", |wb| ws(wb).set_name("a:b"));
    r!("name quoted", |wb| ws(wb).set_name("'a"));
    r!("unknown sheet name", |wb| wb.worksheet_from_name("nowhere"));
    r!("unknown sheet index", |wb| wb.worksheet_from_index(9));
    r!("defined name", |wb| wb.define_name("1bad", "=Sheet1!$A$1"));
    r!("string long", |wb| ws(wb).write_string(20, 20, long(32768)));
    r!("string long with format", |wb| ws(wb).write_string_with_format(20, 20, long(32768), &fmt()));
    r!("string long by write", |wb| ws(wb).write_with_format(20, 20, long(32768), &fmt()));
    r!("rich string long", |wb| ws(wb).write_rich_string_with_format(20, 20, &[(&fmt(), &long(32768)), (&fmt(), "b")], &fmt()));
    r!("rich string none", |wb| ws(wb).write_rich_string(20, 20, &[]));
    r!("rich string empty", |wb| ws(wb).write_rich_string_with_format(20, 20, &[(&fmt(), ""), (&Format::default(), "a")], &fmt()));
    r!("url kind", |wb| ws(wb).write_url_with_format(20, 20, "gopher://x", &fmt()));
    r!("url long", |wb| ws(wb).write_url(20, 20, format!("http://{}", long(2080)).as_str()));
    r!("url tip long", |wb| ws(wb).write_url_with_options(20, 20, "http://x", "t", long(256), Some(&fmt())));
    r!("url text long", |wb| ws(wb).write_url_with_options(20, 20, "http://x", long(32768), "t", Some(&fmt())));
    r!("merge overlap", |wb| ws(wb).merge_range(6, 5, 30, 30, "m", &fmt()));
    r!("merge single", |wb| ws(wb).merge_range(20, 20, 20, 20, "m", &fmt()));
    r!("merge string", |wb| ws(wb).merge_range(20, 20, 21, 21, &long(32768), &fmt()));
    r!("table overlap", |wb| ws(wb).add_table(1, 1, 3, 2, &Table::new()));
    r!("table of a row", |wb| ws(wb).add_table(20, 20, 20, 21, &Table::new()));
    r!("table of two rows with total", |wb| ws(wb).add_table(20, 20, 21, 21, &Table::new().set_total_row(true)));
    r!("table over filter", |wb| ws(wb).add_table(10, 2, 13, 6, &Table::new()));
    r!("table header twice", |wb| ws(wb).add_table(20, 20, 22, 21, &Table::new().set_columns(&[TableColumn::new().set_header("A"), TableColumn::new().set_header("a")])));
    r!("table header long", |wb| ws(wb).add_table(20, 20, 22, 21, &Table::new().set_columns(&[TableColumn::new().set_header(long(32768))])));
    r!("filter over table", |wb| ws(wb).autofilter(2, 0, 30, 2));
    r!("filter column outside", |wb| ws(wb).filter_column(0, &FilterCondition::new().add_list_filter("x")));
    r!("filter column none", |wb| ws(wb).filter_column(3, &FilterCondition::new()));
    r!("conditional format rule", |wb| ws(wb).add_conditional_format(20, 20, 30, 30, &ConditionalFormatCell::new().set_format(fmt())));
    r!("conditional format icons", |wb| ws(wb).add_conditional_format(20, 20, 30, 30, &ConditionalFormatIconSet::new().set_icons(&[ConditionalFormatCustomIcon::new()])));
    r!("conditional format formula", |wb| ws(wb).add_conditional_format(20, 20, 30, 30, &ConditionalFormatFormula::new().set_format(fmt())));
    r!("sparkline range", |wb| ws(wb).add_sparkline(20, 20, &Sparkline::new()));
    r!("sparkline 2D", |wb| ws(wb).add_sparkline(20, 20, &Sparkline::new().set_range("Sheet1!A1:B2")));
    r!("sparkline sheet", |wb| ws(wb).add_sparkline(20, 20, &Sparkline::new().set_range(("", 0, 0, 0, 5))));
    r!("sparkline group size", |wb| ws(wb).add_sparkline_group(20, 20, 23, 20, &Sparkline::new().set_range("Sheet1!A1:C2")));
    r!("chart without series", |wb| ws(wb).insert_chart(20, 20, &Chart::new_bar()));
    r!("chart series without values", |wb| {
        let mut c = Chart::new_line();
        c.add_series().set_categories("=Sheet1!$A$1:$A$2");
        ws(wb).insert_chart(20, 20, &c)
    });
    r!("note long", |wb| ws(wb).insert_note(20, 20, &Note::new(long(32767 - 53))));
    r!("row level", |wb| ws(wb).group_rows(32, 40));
    r!("row level collapsed", |wb| ws(wb).group_rows_collapsed(28, 32));
    r!("column level", |wb| ws(wb).group_columns(38, 44));
    r!("column level collapsed", |wb| ws(wb).group_columns_collapsed(44, 48));
    r!("row breaks many", |wb| ws(wb).set_page_breaks(&(1..1100).collect::<Vec<_>>()));
    r!("row break outside", |wb| ws(wb).set_page_breaks(&[5, 1_048_576]));
    r!("column breaks many", |wb| ws(wb).set_vertical_page_breaks(&(1..1100).collect::<Vec<_>>()));
    r!("column break outside", |wb| ws(wb).set_vertical_page_breaks(&[5, 16_384]));
    r!("header image place", |wb| ws(wb).set_header_image(&png(), HeaderImagePosition::Right));
    r!("footer image", |wb| ws(wb).set_footer_image(&png(), HeaderImagePosition::Left));
    r!("macro name", |wb| ws(wb).set_vba_name("1x"));
    r!("macro name long", |wb| ws(wb).set_vba_name(long(32)));
    r!("macro name empty", |wb| ws(wb).set_vba_name(""));
    r!("workbook macro name", |wb| wb.set_vba_name("a b"));
    r!("macro file", |wb| wb.add_vba_project("/nonexistent/vbaProject.bin"));
    r!("macro signature file", |wb| wb.add_vba_project_with_signature("/nonexistent/a", "/nonexistent/b"));
    r!("temporary folder", |wb| wb.set_tempdir("/nonexistent/folder"));
    r!("ignored twice", |wb| ws(wb).ignore_error(15, 15, IgnoreError::FormulaDiffers));
    r!("ignored range twice", |wb| ws(wb).ignore_error_range(16, 15, 17, 15, IgnoreError::NumberStoredAsText));
    r!("serialize headers of nothing", |wb| ws(wb).serialize_headers(20, 20, &7));
    r!("serialize header options", |wb| ws(wb).serialize_headers_with_options(20, 20, &Rowed { first: 1 }, &SerializeFieldOptions::new().set_custom_headers(&[CustomSerializeField::new("nowhere")])));
    r!("dimensions of no struct", |wb| ws(wb).get_serialize_dimensions("Nothing"));
    r!("date", |wb| {
        let d = ExcelDateTime::from_ymd(2021, 2, 29)?;
        ws(wb).write_datetime(20, 20, d)
    });
    v
}
/// Calls that are accepted, before and after the refused ones.
fn accepted() -> Vec<fn(&mut Workbook) -> X> {
    vec![
        |_| Ok(()),
        |wb| ws(wb).write_string(20, 20, "later").map(|_| ()),
        |wb| ws(wb).write_number_with_format(20, 20, 1, &Format::new().set_underline(FormatUnderline::Single)).map(|_| ()),
        |wb| ws(wb).merge_range(20, 20, 21, 21, "later", &Format::new()).map(|_| ()),
        |wb| ws(wb).add_table(20, 20, 22, 22, &Table::new()).map(|_| ()),
        |wb| ws(wb).autofilter(10, 1, 15, 6).map(|_| ()),
        |wb| ws(wb).add_conditional_format(20, 20, 30, 30, &ConditionalFormatDuplicate::new().set_format(Format::new().set_bold())).map(|_| ()),
        |wb| ws(wb).add_sparkline(20, 20, &Sparkline::new().set_range("Sheet1!A1:C1")).map(|_| ()),
        |wb| ws(wb).insert_image(20, 20, &png()).map(|_| ()),
        |wb| ws(wb).insert_note(20, 20, &Note::new("later")).map(|_| ()),
        |wb| ws(wb).group_rows(38, 40).map(|_| ()),
        |wb| ws(wb).group_columns_collapsed(44, 46).map(|_| ()),
        |wb| ws(wb).write_url(20, 20, "http://later").map(|_| ()),
        |wb| {
            wb.add_worksheet().write_string(0, 0, "later").map(|_| ())
        },
        |wb| ws(wb).serialize_headers(20, 20, &Rowed { first: 1 }).and_then(|w| w.serialize(&Rowed { first: 2 })).map(|_| ()),
        |wb| ws(wb).set_page_breaks(&[7]).map(|_| ()),
        |wb| wb.define_name("Later", "=Sheet1!$A$1").map(|_| ()),
        |wb| wb.save_to_buffer().map(|_| ()),
    ]
}
fn base(filled: bool) -> Result<Workbook, String> {
    let mut wb = start(0, filled)?;
    let w = e(wb.worksheet_from_index(0))?;
    e(w.add_table(2, 1, 5, 3, &Table::new()))?;
    e(w.merge_range(6, 5, 7, 6, "merged", &Format::new()))?;
    e(w.autofilter(10, 1, 14, 5))?;
    for _ in 0..7 {
        e(w.group_rows(32, 34))?;
        e(w.group_columns(42, 44))?;
    }
    w.set_header("&L&G");
    e(w.set_header_image(&png(), HeaderImagePosition::Left))?;
    e(w.ignore_error(15, 15, IgnoreError::NumberStoredAsText))?;
    e(w.ignore_error_range(16, 15, 17, 15, IgnoreError::NumberStoredAsText))?;
    if filled {
        e(w.set_vba_name("Named"))?;
        e(w.insert_note(8, 1, &Note::new("n")))?;
        e(w.set_page_breaks(&[4]))?;
        e(w.add_conditional_format(30, 1, 31, 1, &ConditionalFormatDataBar::new()))?;
        e(w.insert_image(30, 5, &png()))?;
        e(wb.add_worksheet().set_name("Other"))?;
    }
    Ok(wb)
}
fn story(f: &[&Refused], before: fn(&mut Workbook) -> X, after: fn(&mut Workbook) -> X, filled: bool, rec: &mut Rec) -> R {
    let mut out = vec![];
    for with in [false, true] {
        let mut wb = base(filled)?;
        let first = before(&mut wb).map_err(|x| x.to_string());
        if with {
            for (name, f) in f {
                rec.step();
                if f(&mut wb).is_ok() {
                    return Err(format!("{name} was accepted"));
                }
            }
        }
        let second = after(&mut wb).map_err(|x| x.to_string());
        rec.steps(2);
        out.push((first, second, save(&mut wb)?));
    }
    rec.trace();
    eq("call before", &out[0].0, &out[1].0)?;
    eq("call after", &out[0].1, &out[1].1)?;
    same(&f.iter().map(|f| f.0).collect::<Vec<_>>().join(", "), &out[0].2, &out[1].2)
}
fn run(run: &mut Run) {
    let (bad, good) = (refused(), accepted());
    let (n, m) = (bad.len() as u64, good.len() as u64);
    run.explore("refused", n * m * m * 2, |i, rec| {
        let (f, a, b, filled) = (&bad[(i % n) as usize], (i / n % m) as usize, (i / n / m % m) as usize, i / n / m / m == 1);
        rec.describe(|| format!("{} between accepted calls {a} and {b}, filled {filled}", f.0));
        rec.state(&i);
        story(&[f], good[a], good[b], filled, rec)
    });
    let k = run.pick(1, m);
    run.explore("two refused", n * n * k, |i, rec| {
        let (f, g, b) = (&bad[(i % n) as usize], &bad[(i / n % n) as usize], (i / n / n) as usize);
        rec.describe(|| format!("{} and {} before accepted call {b}", f.0, g.0));
        rec.state(&i);
        story(&[f, g], good[0], good[b], true, rec)
    });
    let o = ops();
    for mode in 0..3 {
        // One index per operation and distinct choice of coordinates.
        let cases: Vec<(usize, u64)> = o
            .iter()
            .enumerate()
            .flat_map(|(k, o)| {
                let list: Vec<u64> = match o.k {
                    K::Cell => (0..36).collect(),
                    K::Row => (0..6).collect(),
                    K::Col => (0..6).map(|x| x * 6).collect(),
                    K::Rows => (0..36).map(|x| x % 6 + x / 6 * 36).collect(),
                    K::Cols => (0..36).map(|x| x % 6 * 6 + x / 6 * 216).collect(),
                    _ => (0..1296).collect(),
                };
                list.into_iter().map(move |i| (k, i))
            })
            .collect();
        let name = ["cells", "cells, constant memory", "cells, low memory"][mode];
        run.explore(name, cases.len() as u64 * 2, |i, rec| {
            let (k, c) = cases[(i / 2) as usize];
            let filled = i % 2 == 1;
            rec.describe(|| format!("{} row {} col {} to row {} col {}, filled {filled}", o[k].name, ROWS[(c % 6) as usize], COLS[(c / 6 % 6) as usize], ROWS[(c / 36 % 6) as usize], COLS[(c / 216) as usize]));
            limits(c, &o[k], filled, mode, rec)
        });
    }
}
