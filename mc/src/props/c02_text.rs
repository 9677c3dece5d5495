//! C02: every text reaches the file unchanged, and every file is well-formed XML.
use super::util::*;
use super::Prop;
use crate::feat;
use crate::xml::loose;

pub const PROP: Prop = Prop {
    id: "C02",
    level: "model_checking",
    rule: "Model: a text sink holds exactly the text it was given. For every sink of the API (cells, rich strings, notes, links, names, properties, headers, validations, filters, tables, charts, shapes, images, buttons, fonts, number formats) every string over an alphabet of characters and sequences that need care in XML or in the spreadsheet escape scheme is given to the real code up to the length bound; the package must be well-formed and closed, and a reader must get the text back.",
    assumes: &["text in drawings and attributes may be written with or without the _xHHHH_ escapes; texts of cells, notes and formula results must decode exactly with them", "a sink may refuse a text with an error"],
    run,
};
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// Decoding the escapes gives the text.
    Exact,
    /// The text itself, or with control characters escaped.
    Loose,
}
type Set = Box<dyn Fn(&mut Workbook, &str) -> Result<(), XlsxError> + Send + Sync>;
type Get = Box<dyn Fn(&Pkg) -> Result<Vec<String>, String> + Send + Sync>;
struct Ch {
    name: &'static str,
    mode: Mode,
    set: Set,
    get: Get,
    /// The text a reader must find, when it is not the text given.
    want: Option<fn(&str) -> Option<String>>,
    empty: bool,
}
const TOK: &[&str] = &[
    "a", "&", "<", ">", "\"", "'", "\n", "\t", "\r", " ", "\u{1}", "\u{1f}", "\u{7f}", "\u{85}", "\u{fffe}", "\u{ffff}", "é", "😀", "_", "x0041_", "%", "#", "[", "]", "{", "}", "&amp;", "&#10;", "]]>", "<r>", "</r>", "_x0041_", "_x005F_", "_xé", "\u{a0}",
];
fn text(i: u64) -> String {
    seq(i, TOK.len() as u64).iter().map(|t| TOK[*t as usize]).collect()
}
fn count(depth: u32) -> u64 {
    seqs(TOK.len() as u64, depth)
}
fn at<'a>(p: &'a Pkg, part: &str, path: &str) -> Result<&'a El, String> {
    let x = p.x(part)?;
    x.path(path).ok_or_else(|| format!("{part}: no {path}"))
}
fn t(part: &'static str, path: &'static str) -> Get {
    Box::new(move |p| Ok(vec![at(p, part, path)?.text()]))
}
fn a(part: &'static str, path: &'static str, attr: &'static str) -> Get {
    Box::new(move |p| {
        let x = if path.is_empty() { p.x(part)? } else { at(p, part, path)? };
        Ok(vec![x.a(attr).ok_or_else(|| format!("{part}: no {path}@{attr}"))?.to_string()])
    })
}
/// Attribute of every element of a name anywhere in a part.
fn every(part: &'static str, el: &'static str, attr: &'static str) -> Get {
    Box::new(move |p| {
        let v: Vec<String> = p.x(part)?.find_all(el).iter().map(|x| if attr.is_empty() { x.text() } else { x.a(attr).unwrap_or("").to_string() }).collect();
        if v.is_empty() {
            return Err(format!("{part}: no {el}"));
        }
        Ok(v)
    })
}
fn cell() -> Get {
    Box::new(|p| {
        let s = sheet(p, 0)?;
        match s.data.cells.get(&(1, 1)) {
            None => Ok(vec![String::new()]),
            Some(c) => match &c.v {
                V::Str(x) => Ok(vec![x.plain()]),
                V::Formula(_, t, r) if t == "str" || t == "e" || r.parse::<f64>().is_ok() => Ok(vec![r.clone()]),
                o => Err(format!("cell is {}", vtext(o))),
            },
        }
    })
}
fn ws(wb: &mut Workbook) -> &mut Worksheet {
    wb.add_worksheet()
}
/// The author of the first note, by its id.
fn author() -> Get {
    Box::new(|p| {
        let x = p.x("xl/comments1.xml")?;
        let i = at(p, "xl/comments1.xml", "commentList/comment")?.au("authorId").ok_or("no author id")? as usize;
        let a = x.find_all("author");
        Ok(vec![a.get(i).ok_or_else(|| format!("author {i} of {}", a.len()))?.text()])
    })
}
const S1: &str = "xl/worksheets/sheet1.xml";
const CH: &str = "xl/charts/chart1.xml";
const DR: &str = "xl/drawings/drawing1.xml";
fn props(f: fn(DocProperties, &str) -> DocProperties) -> Set {
    Box::new(move |wb, s| {
        wb.add_worksheet();
        wb.set_properties(&f(DocProperties::new(), s));
        Ok(())
    })
}
fn chart(f: fn(&mut Chart, &str)) -> Set {
    Box::new(move |wb, s| {
        let mut c = Chart::new(ChartType::Column);
        c.add_series().set_values(("Sheet1", 0, 0, 2, 0));
        f(&mut c, s);
        let w = wb.add_worksheet();
        w.write(0, 0, 1)?;
        w.insert_chart(0, 3, &c)?;
        Ok(())
    })
}
fn val(f: fn(DataValidation, &str) -> Result<DataValidation, XlsxError>) -> Set {
    Box::new(move |wb, s| {
        let d = f(DataValidation::new().allow_whole_number(DataValidationRule::EqualTo(1)), s)?;
        wb.add_worksheet().add_data_validation(1, 1, 1, 1, &d)?;
        Ok(())
    })
}
fn img(f: fn(Image, &str) -> Result<Image, XlsxError>) -> Set {
    Box::new(move |wb, s| {
        let i = f(feat::image(0, 1).unwrap(), s)?;
        wb.add_worksheet().insert_image(1, 1, &i)?;
        Ok(())
    })
}
fn channels() -> Vec<Ch> {
    use Mode::*;
    let mut v: Vec<Ch> = vec![];
    macro_rules! ch {
        ($n:expr, $m:expr, $set:expr, $get:expr) => {
            v.push(Ch { name: $n, mode: $m, set: Box::new($set), get: $get, want: None, empty: true })
        };
        ($n:expr, $m:expr, $set:expr, $get:expr, $w:expr) => {
            v.push(Ch { name: $n, mode: $m, set: Box::new($set), get: $get, want: Some($w), empty: true })
        };
        ($n:expr, $m:expr, $set:expr, $get:expr;nonempty) => {
            v.push(Ch { name: $n, mode: $m, set: Box::new($set), get: $get, want: None, empty: false })
        };
    }
    // Cells.
    ch!("string", Exact, |wb, s| ws(wb).write_string(1, 1, s).map(|_| ()), cell());
    ch!("string with format", Exact, |wb, s| ws(wb).write_string_with_format(1, 1, s, &Format::new().set_bold()).map(|_| ()), cell(); nonempty);
    ch!("rich", Exact, |wb, s| ws(wb).write_rich_string(1, 1, &[(&Format::default(), s), (&Format::new().set_bold(), s)]).map(|_| ()), cell(), |s| Some(format!("{s}{s}")));
    ch!("rich single bold", Exact, |wb, s| ws(wb).write_rich_string(1, 1, &[(&Format::new().set_bold(), s)]).map(|_| ()), cell());
    ch!("merge", Exact, |wb, s| ws(wb).merge_range(1, 1, 2, 2, s, &Format::new()).map(|_| ()), cell(); nonempty);
    ch!("constant memory", Exact, |wb, s| wb.add_worksheet_with_constant_memory().write_string(1, 1, s).map(|_| ()), cell());
    ch!("low memory", Exact, |wb, s| wb.add_worksheet_with_low_memory().write_string(1, 1, s).map(|_| ()), cell());
    ch!("rich low memory", Exact, |wb, s| wb.add_worksheet_with_low_memory().write_rich_string(1, 1, &[(&Format::default(), s), (&Format::new().set_bold(), s)]).map(|_| ()), cell(), |s| Some(format!("{s}{s}")));
    ch!("formula result", Exact, |wb, s| ws(wb).write_formula(1, 1, Formula::new("=A1").set_result(s)).map(|_| ()), cell(); nonempty);
    ch!("array result", Exact, |wb, s| ws(wb).write_array_formula(1, 1, 1, 1, Formula::new("=A1").set_result(s)).map(|_| ()), cell(); nonempty);
    ch!("formula result constant memory", Exact, |wb, s| wb.add_worksheet_with_constant_memory().write_formula(1, 1, Formula::new("=A1").set_result(s)).map(|_| ()), cell(); nonempty);
    ch!("formula string", Loose, |wb, s| ws(wb).write_formula(1, 1, format!("=\"{}\"&B2", s.replace('"', "\"\"")).as_str()).map(|_| ()), every(S1, "f", ""), |s| Some(format!("\"{}\"&B2", s.replace('"', "\"\""))));
    ch!("array formula string", Loose, |wb, s| ws(wb).write_array_formula(1, 1, 1, 2, format!("=\"{}\"&B2", s.replace('"', "\"\"")).as_str()).map(|_| ()), every(S1, "f", ""), |s| Some(format!("\"{}\"&B2", s.replace('"', "\"\""))));
    ch!("nan value", Exact, |wb, s| ws(wb).set_nan_value(s).write_number(1, 1, f64::NAN).map(|_| ()), cell());
    // Links.
    ch!("link text", Exact, |wb, s| ws(wb).write_url_with_text(1, 1, "https://a.org", s).map(|_| ()), cell(); nonempty);
    ch!("link tip", Loose, |wb, s| ws(wb).write_url(1, 1, Url::new("https://a.org").set_tip(s)).map(|_| ()), every(S1, "hyperlink", "tooltip"); nonempty);
    ch!("link string", Exact, |wb, s| ws(wb).write_url(1, 1, format!("https://a.org/{s}").as_str()).map(|_| ()), cell(), |s| Some(format!("https://a.org/{s}")));
    ch!("link internal", Loose, |wb, s| ws(wb).write_url(1, 1, format!("internal:{s}!A1").as_str()).map(|_| ()), every(S1, "hyperlink", "location"), |s| Some(format!("{s}!A1")));
    // Names.
    ch!("sheet name", Loose, |wb, s| ws(wb).set_name(s).map(|_| ()), Box::new(|p| Ok(vec![at(p, "xl/workbook.xml", "sheets/sheet")?.a("name").unwrap_or("").to_string(), at(p, "docProps/app.xml", "TitlesOfParts/vt:vector/vt:lpstr")?.text()])));
    ch!("sheet name in print area", Loose, |wb, s| { ws(wb).set_name(s)?.set_print_area(0, 0, 1, 1)?; Ok(()) }, Box::new(|p| {
        let x = at(p, "xl/workbook.xml", "definedNames/definedName")?.text();
        let app = p.x("docProps/app.xml")?.find_all("vt:lpstr").last().map(|e| e.text()).unwrap_or_default();
        let mut o = vec![];
        for (x, suf) in [(x, "!$A$1:$B$2"), (app, "!Print_Area")] {
            let y = x.strip_suffix(suf).ok_or_else(|| format!("name text {x:?}"))?;
            o.push(match y.strip_prefix('\'').and_then(|y| y.strip_suffix('\'')) {
                Some(y) => y.replace("''", "'"),
                None => y.to_string(),
            });
        }
        Ok(o)
    }));
    ch!("defined name text", Loose, |wb, s| { ws(wb); wb.define_name("Abc", &format!("=\"{}\"", s.replace('"', "\"\""))).map(|_| ()) }, t("xl/workbook.xml", "definedNames/definedName"), |s| Some(format!("\"{}\"", s.replace('"', "\"\""))));
    ch!("workbook vba name", Loose, |wb, s| { ws(wb); wb.set_vba_name(s).map(|_| ()) }, a("xl/workbook.xml", "workbookPr", "codeName"); nonempty);
    ch!("sheet vba name", Loose, |wb, s| ws(wb).set_vba_name(s).map(|_| ()), a(S1, "sheetPr", "codeName"); nonempty);
    ch!("unprotected range name", Loose, |wb, s| ws(wb).unprotect_range_with_options(0, 0, 1, 1, s, "").map(|_| ()), every(S1, "protectedRange", "name"); nonempty);
    // Document properties.
    let core = "docProps/core.xml";
    let app = "docProps/app.xml";
    v.push(Ch { name: "title", mode: Loose, set: props(|p, s| p.set_title(s)), get: t(core, "dc:title"), want: None, empty: false });
    v.push(Ch { name: "subject", mode: Loose, set: props(|p, s| p.set_subject(s)), get: t(core, "dc:subject"), want: None, empty: false });
    v.push(Ch { name: "author", mode: Loose, set: props(|p, s| p.set_author(s)), get: Box::new(move |p| Ok(vec![at(p, core, "dc:creator")?.text(), at(p, core, "cp:lastModifiedBy")?.text()])), want: None, empty: false });
    v.push(Ch { name: "keywords", mode: Loose, set: props(|p, s| p.set_keywords(s)), get: t(core, "cp:keywords"), want: None, empty: false });
    v.push(Ch { name: "comment", mode: Loose, set: props(|p, s| p.set_comment(s)), get: t(core, "dc:description"), want: None, empty: false });
    v.push(Ch { name: "category", mode: Loose, set: props(|p, s| p.set_category(s)), get: t(core, "cp:category"), want: None, empty: false });
    v.push(Ch { name: "status", mode: Loose, set: props(|p, s| p.set_status(s)), get: t(core, "cp:contentStatus"), want: None, empty: false });
    v.push(Ch { name: "company", mode: Loose, set: props(|p, s| p.set_company(s)), get: t(app, "Company"), want: None, empty: false });
    v.push(Ch { name: "manager", mode: Loose, set: props(|p, s| p.set_manager(s)), get: t(app, "Manager"), want: None, empty: false });
    v.push(Ch { name: "hyperlink base", mode: Loose, set: props(|p, s| p.set_hyperlink_base(s)), get: t(app, "HyperlinkBase"), want: None, empty: false });
    v.push(Ch { name: "custom property name", mode: Loose, set: props(|p, s| p.set_custom_property(s, "v")), get: a("docProps/custom.xml", "property", "name"), want: None, empty: false });
    v.push(Ch { name: "custom property value", mode: Loose, set: props(|p, s| p.set_custom_property("n", s)), get: t("docProps/custom.xml", "property/vt:lpwstr"), want: None, empty: false });
    // Headers and footers.
    ch!("header", Loose, |wb, s| { ws(wb).set_header(format!("x{s}")); Ok(()) }, t(S1, "headerFooter/oddHeader"), |s| Some(format!("x{s}")));
    ch!("footer", Loose, |wb, s| { ws(wb).set_footer(format!("x{s}")); Ok(()) }, t(S1, "headerFooter/oddFooter"), |s| Some(format!("x{s}")));
    // Tables.
    ch!("table header", Loose, |wb, s| ws(wb).add_table(1, 1, 3, 2, &Table::new().set_columns(&[TableColumn::new().set_header(s)])).map(|_| ()), Box::new(|p| {
        let c = at(p, "xl/tables/table1.xml", "tableColumns/tableColumn")?.a("name").unwrap_or("").to_string();
        Ok(vec![c])
    }); nonempty);
    ch!("table header cell", Exact, |wb, s| ws(wb).add_table(1, 1, 3, 2, &Table::new().set_columns(&[TableColumn::new().set_header(s)])).map(|_| ()), cell(); nonempty);
    ch!("table total label", Loose, |wb, s| ws(wb).add_table(1, 1, 3, 2, &Table::new().set_total_row(true).set_columns(&[TableColumn::new().set_total_label(s)])).map(|_| ()), a("xl/tables/table1.xml", "tableColumns/tableColumn", "totalsRowLabel"); nonempty);
    ch!("table total label cell", Exact, |wb, s| ws(wb).add_table(0, 1, 1, 2, &Table::new().set_total_row(true).set_header_row(false).set_columns(&[TableColumn::new().set_total_label(s)])).map(|_| ()), cell(); nonempty);
    ch!("table column formula", Loose, |wb, s| ws(wb).add_table(1, 1, 3, 2, &Table::new().set_columns(&[TableColumn::new().set_formula(format!("=\"{}\"", s.replace('"', "\"\"")).as_str())])).map(|_| ()), t("xl/tables/table1.xml", "tableColumns/tableColumn/calculatedColumnFormula"), |s| if s.contains('@') { None } else { Some(format!("\"{}\"", s.replace('"', "\"\""))) });
    // Data validations.
    let dv = "dataValidations/dataValidation";
    for (n, f, at) in [
        ("validation input title", (|d, s| d.set_input_title(s)) as fn(DataValidation, &str) -> Result<DataValidation, XlsxError>, "promptTitle"),
        ("validation input message", |d, s| d.set_input_message(s), "prompt"),
        ("validation error title", |d, s| d.set_error_title(s), "errorTitle"),
        ("validation error message", |d, s| d.set_error_message(s), "error"),
    ] {
        v.push(Ch { name: n, mode: Loose, set: val(f), get: a(S1, dv, at), want: None, empty: false });
    }
    v.push(Ch { name: "validation list", mode: Loose, set: val(|d, s| d.allow_list_strings(&[s, "z"])), get: t(S1, "dataValidations/dataValidation/formula1"), want: Some(|s| Some(format!("\"{},z\"", s.replace('"', "\"\"")))), empty: true });
    // Conditional formats.
    ch!("conditional text", Loose, |wb, s| ws(wb).add_conditional_format(1, 1, 2, 2, &ConditionalFormatText::new().set_rule(ConditionalFormatTextRule::Contains(s.into()))).map(|_| ()), every(S1, "cfRule", "text"); nonempty);
    ch!("conditional formula", Loose, |wb, s| ws(wb).add_conditional_format(1, 1, 2, 2, &ConditionalFormatFormula::new().set_rule(format!("=\"{}\"=B2", s.replace('"', "\"\"")).as_str())).map(|_| ()), every(S1, "formula", ""), |s| Some(format!("\"{}\"=B2", s.replace('"', "\"\""))));
    ch!("conditional cell string", Loose, |wb, s| ws(wb).add_conditional_format(1, 1, 2, 2, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::EqualTo(format!("x{s}")))).map(|_| ()), every(S1, "formula", ""), |s| Some(format!("\"x{}\"", s.replace('"', "\"\""))));
    // Filters.
    ch!("filter value", Loose, |wb, s| { let w = ws(wb); w.autofilter(0, 0, 3, 1)?; w.filter_column(0, &FilterCondition::new().add_list_filter(s)).map(|_| ()) }, every(S1, "filter", "val"); nonempty);
    ch!("filter custom", Loose, |wb, s| { let w = ws(wb); w.autofilter(0, 0, 3, 1)?; w.filter_column(0, &FilterCondition::new().add_custom_filter(FilterCriteria::EqualTo, format!("x{s}").as_str())).map(|_| ()) }, every(S1, "customFilter", "val"), |s| Some(format!("x{s}")));
    // Notes.
    ch!("note", Exact, |wb, s| ws(wb).insert_note(1, 1, &Note::new(s).add_author_prefix(false)).map(|_| ()), Box::new(|p| Ok(vec![book::unescape_x(&p.x("xl/comments1.xml")?.find_all("t").iter().map(|x| x.text()).collect::<String>())])); nonempty);
    ch!("note author", Loose, |wb, s| ws(wb).insert_note(1, 1, &Note::new("n").set_author(s).add_author_prefix(false)).map(|_| ()), author(); nonempty);
    ch!("note author prefix", Exact, |wb, s| ws(wb).insert_note(1, 1, &Note::new("n").set_author(s)).map(|_| ()), Box::new(|p| Ok(vec![book::unescape_x(&p.x("xl/comments1.xml")?.find_all("t").iter().map(|x| x.text()).collect::<String>())])), |s| if s.is_empty() { None } else { Some(format!("{s}:\nn")) });
    ch!("note default author", Loose, |wb, s| { let w = ws(wb); w.set_default_note_author(s); w.insert_note(1, 1, &Note::new("n").add_author_prefix(false)).map(|_| ()) }, author(); nonempty);
    ch!("note alt text", Loose, |wb, s| ws(wb).insert_note(1, 1, &Note::new("n").set_alt_text(s)).map(|_| ()), every("xl/drawings/vmlDrawing1.vml", "v:shape", "alt"); nonempty);
    ch!("note font", Loose, |wb, s| ws(wb).insert_note(1, 1, &Note::new("n").set_font_name(s)).map(|_| ()), every("xl/comments1.xml", "rFont", "val"); nonempty);
    // Buttons.
    ch!("button caption", Loose, |wb, s| ws(wb).insert_button(1, 1, &Button::new().set_caption(s)).map(|_| ()), every("xl/drawings/vmlDrawing1.vml", "font", ""); nonempty);
    ch!("button macro", Loose, |wb, s| ws(wb).insert_button(1, 1, &Button::new().set_macro(s)).map(|_| ()), every("xl/drawings/vmlDrawing1.vml", "x:FmlaMacro", ""), |s| if s.is_empty() { None } else { Some(format!("[0]!{s}")) });
    ch!("button alt text", Loose, |wb, s| ws(wb).insert_button(1, 1, &Button::new().set_alt_text(s)).map(|_| ()), every("xl/drawings/vmlDrawing1.vml", "v:shape", "alt"); nonempty);
    // Images.
    v.push(Ch { name: "image alt text", mode: Loose, set: img(|i, s| Ok(i.set_alt_text(s))), get: every(DR, "xdr:cNvPr", "descr"), want: None, empty: false });
    v.push(Ch { name: "image link", mode: Loose, set: img(|i, s| i.set_url(format!("internal:{s}!A1").as_str())), get: Box::new(|p| Ok(p.rels(DR).iter().filter(|r| r.typ == "hyperlink").map(|r| r.target.clone()).collect())), want: Some(|s| if s.contains('%') || s.contains(' ') || s.contains('"') || s.contains('<') || s.contains('>') || s.contains('[') || s.contains(']') || s.contains('`') || s.contains('^') || s.contains('{') || s.contains('}') { None } else { Some(format!("#{s}!A1")) }), empty: true });
    v.push(Ch { name: "image tip", mode: Loose, set: img(|i, s| i.set_url(Url::new("https://a.org").set_tip(s))), get: every(DR, "a:hlinkClick", "tooltip"), want: None, empty: false });
    ch!("embedded image alt text", Loose, |wb, s| ws(wb).embed_image(1, 1, &feat::image(0, 1).unwrap().set_alt_text(s)).map(|_| ()), Box::new(|p| {
        let x = p.x("xl/richData/rdrichvalue.xml")?.find_all("v");
        Ok(vec![x.last().map(|e| e.text()).unwrap_or_default()])
    }); nonempty);
    ch!("header image name", Loose, |wb, s| { let w = ws(wb); w.set_header("&L&G"); w.set_header_image(&feat::image(0, 1).unwrap().set_vml_name(s), HeaderImagePosition::Left).map(|_| ()) }, every("xl/drawings/vmlDrawing1.vml", "v:imagedata", "o:title"); nonempty);
    // Shapes.
    ch!("shape text", Loose, |wb, s| ws(wb).insert_shape(1, 1, &Shape::textbox().set_text(s)).map(|_| ()), Box::new(|p| {
        let ps = p.x(DR)?.find_all("a:p");
        Ok(vec![ps.iter().map(|x| x.find_all("a:t").iter().map(|t| t.text()).collect::<String>()).collect::<Vec<_>>().join("\n")])
    }), |s| Some(s.replace("\r\n", "\n")));
    ch!("shape alt text", Loose, |wb, s| ws(wb).insert_shape(1, 1, &Shape::textbox().set_alt_text(s)).map(|_| ()), every(DR, "xdr:cNvPr", "descr"); nonempty);
    ch!("shape font", Loose, |wb, s| ws(wb).insert_shape(1, 1, &Shape::textbox().set_text("t").set_font(&ShapeFont::new().set_name(s))).map(|_| ()), every(DR, "a:latin", "typeface"); nonempty);
    // Formats.
    ch!("number format", Loose, |wb, s| ws(wb).write_number_with_format(1, 1, 1, &Format::new().set_num_format(format!("0\\x{s}"))).map(|_| ()), every("xl/styles.xml", "numFmt", "formatCode"), |s| Some(format!("0\\x{s}")));
    ch!("font name", Loose, |wb, s| ws(wb).write_number_with_format(1, 1, 1, &Format::new().set_font_name(s)).map(|_| ()), Box::new(|p| Ok(vec![p.x("xl/styles.xml")?.find_all("font")[1].first("name").and_then(|e| e.a("val")).unwrap_or("").to_string()])); nonempty);
    ch!("rich font name", Loose, |wb, s| ws(wb).write_rich_string(1, 1, &[(&Format::default(), "a"), (&Format::new().set_font_name(s), "b")]).map(|_| ()), Box::new(|p| Ok(vec![p.x("xl/sharedStrings.xml")?.find_all("rFont").last().and_then(|e| e.a("val")).unwrap_or("").to_string()])); nonempty);
    ch!("dxf number format", Loose, |wb, s| ws(wb).add_conditional_format(1, 1, 2, 2, &ConditionalFormatDuplicate::new().set_format(Format::new().set_num_format(format!("0\\x{s}")))).map(|_| ()), every("xl/styles.xml", "numFmt", "formatCode"), |s| Some(format!("0\\x{s}")));
    // Charts.
    v.push(Ch { name: "chart title", mode: Loose, set: chart(|c, s| { c.title().set_name(format!("x{s}").as_str()); }), get: Box::new(|p| Ok(vec![at(p, CH, "c:chart/c:title/c:tx/c:rich/a:p/a:r/a:t")?.text()])), want: Some(|s| Some(format!("x{s}"))), empty: true });
    v.push(Ch { name: "chart axis name", mode: Loose, set: chart(|c, s| { c.x_axis().set_name(format!("x{s}").as_str()); }), get: Box::new(|p| Ok(vec![at(p, CH, "c:chart/c:plotArea/c:catAx/c:title/c:tx/c:rich/a:p/a:r/a:t")?.text()])), want: Some(|s| Some(format!("x{s}"))), empty: true });
    v.push(Ch { name: "chart series name", mode: Loose, set: chart(|c, s| { c.add_series().set_values(("Sheet1", 0, 0, 2, 0)).set_name(format!("x{s}").as_str()); }), get: Box::new(|p| Ok(vec![at(p, CH, "c:chart/c:plotArea/c:barChart")?.named("c:ser").nth(1).and_then(|x| x.path("c:tx/c:v")).ok_or("no series name")?.text()])), want: Some(|s| Some(format!("x{s}"))), empty: true });
    v.push(Ch { name: "chart name", mode: Loose, set: chart(|c, s| { c.set_name(s); }), get: every(DR, "xdr:cNvPr", "name"), want: None, empty: false });
    v.push(Ch { name: "chart alt text", mode: Loose, set: chart(|c, s| { c.set_alt_text(s); }), get: every(DR, "xdr:cNvPr", "descr"), want: None, empty: false });
    v.push(Ch { name: "chart axis number format", mode: Loose, set: chart(|c, s| { c.y_axis().set_num_format(format!("0{s}")); }), get: a(CH, "c:chart/c:plotArea/c:valAx/c:numFmt", "formatCode"), want: Some(|s| Some(format!("0{s}"))), empty: true });
    v.push(Ch { name: "chart font", mode: Loose, set: chart(|c, s| { c.title().set_name("t").set_font(ChartFont::new().set_name(s)); }), get: every(CH, "a:latin", "typeface"), want: None, empty: false });
    v.push(Ch { name: "chart trendline name", mode: Loose, set: chart(|c, s| { c.add_series().set_values(("Sheet1", 0, 0, 2, 0)).set_trendline(ChartTrendline::new().set_type(ChartTrendlineType::Linear).set_name(s)); }), get: every(CH, "c:name", ""), want: None, empty: false });
    v.push(Ch { name: "chart data label", mode: Loose, set: chart(|c, s| { c.add_series().set_values(("Sheet1", 0, 0, 2, 0)).set_custom_data_labels(&[ChartDataLabel::new().set_value(format!("x{s}").as_str()).to_custom()]); }), get: Box::new(|p| Ok(vec![p.x(CH)?.find_all("a:t").first().map(|e| e.text()).ok_or("no label text")?])), want: Some(|s| Some(format!("x{s}"))), empty: true });
    ch!("chart category cache", Exact, |wb, s| {
        let w = wb.add_worksheet();
        w.write_string(0, 0, s)?;
        w.write_number(0, 1, 5)?;
        let mut c = Chart::new(ChartType::Column);
        c.add_series().set_categories(("Sheet1", 0, 0, 0, 0)).set_values(("Sheet1", 0, 1, 0, 1));
        w.insert_chart(0, 3, &c).map(|_| ())
    }, Box::new(|p| Ok(vec![p.x(CH)?.find_all("c:cat").first().and_then(|x| x.find_all("c:v").first().map(|e| loose(&e.text()))).ok_or("no cache")?])), |s| if s.is_empty() || s.parse::<f64>().is_ok() { None } else { Some(s.into()) });
    ch!("chart sheet name", Loose, |wb, s| {
        let w = wb.add_worksheet();
        w.set_name(s)?;
        let mut c = Chart::new(ChartType::Column);
        c.add_series().set_values((s, 0, 1, 2, 1));
        w.insert_chart(0, 3, &c).map(|_| ())
    }, Box::new(|p| {
        let x = p.x(CH)?.find_all("c:f")[0].text();
        let y = x.strip_suffix("!$B$1:$B$3").ok_or_else(|| format!("range {x:?}"))?;
        Ok(vec![match y.strip_prefix('\'').and_then(|y| y.strip_suffix('\'')) {
            Some(y) => y.replace("''", "'"),
            None => y.to_string(),
        }])
    }));
    ch!("sparkline sheet name", Loose, |wb, s| {
        let w = wb.add_worksheet();
        w.set_name(s)?;
        w.add_sparkline(0, 0, &Sparkline::new().set_range((s, 0, 1, 2, 1))).map(|_| ())
    }, Box::new(|p| {
        let x = p.x(S1)?.find_all("xm:f")[0].text();
        let y = x.strip_suffix("!B1:B3").ok_or_else(|| format!("range {x:?}"))?;
        Ok(vec![match y.strip_prefix('\'').and_then(|y| y.strip_suffix('\'')) {
            Some(y) => y.replace("''", "'"),
            None => y.to_string(),
        }])
    }));
    v
}
fn one(c: &Ch, s: &str, rec: &mut Rec) -> R {
    if s.is_empty() && !c.empty {
        return Ok(());
    }
    let want = match c.want {
        None => Some(s.to_string()),
        Some(f) => f(s),
    };
    let mut wb = Workbook::new();
    rec.step();
    if (c.set)(&mut wb, s).is_err() {
        rec.count("refused", 1);
        return Ok(());
    }
    rec.state(&(c.name, s));
    let p = closed(&mut wb)?;
    rec.trace();
    let Some(want) = want else { return Ok(()) };
    for got in (c.get)(&p)? {
        rec.seen(&(c.name, &got));
        let ok = match c.mode {
            Mode::Exact => got == want,
            Mode::Loose => got == want || loose(&got) == want || book::unescape_x(&got) == want,
        };
        if !ok {
            return Err(format!("{}: the text {want:?} is read back as {got:?}", c.name));
        }
    }
    Ok(())
}
fn run(run: &mut Run) {
    let chs = channels();
    let depth = run.pick(2, 2);
    let n = count(depth);
    // Every sink with every text.
    for c in &chs {
        run.explore(&format!("text in {}", c.name), n, |i, rec| {
            let s = text(i);
            rec.describe(|| format!("{} given {s:?}", c.name));
            one(c, &s, rec)
        });
    }
    // Sinks with their own escape rules: longer texts.
    let deep = run.pick(2, 3);
    if deep > depth {
        let n = count(deep);
        for c in chs.iter().filter(|c| c.mode == Mode::Exact) {
            run.explore(&format!("long text in {}", c.name), n, |i, rec| {
                let s = text(i);
                rec.describe(|| format!("{} given {s:?}", c.name));
                one(c, &s, rec)
            });
        }
    }
    // Many strings at once, many per workbook: every window of the enumeration, in cells of every kind.
    let all: Vec<String> = (1..count(2)).map(|i| text(i)).collect();
    let per = 40usize;
    let wins = all.len() / per * 2;
    run.explore("many texts in one workbook", wins as u64 * 3, |i, rec| {
        let kind = i % 3;
        let a = (i / 3) as usize * per / 2;
        let part = &all[a..(a + per).min(all.len())];
        rec.describe(|| format!("texts {a}.. in {}", ["strings", "strings and rich strings", "constant memory strings"][kind as usize]));
        let mut wb = Workbook::new();
        let w = if kind == 2 { wb.add_worksheet_with_constant_memory() } else { wb.add_worksheet() };
        let mut want = std::collections::BTreeMap::new();
        for (r, s) in part.iter().enumerate() {
            let r = r as u32;
            rec.step();
            e(w.write_string(r, 0, s))?;
            want.insert((r, 0u16), s.clone());
            if kind == 1 {
                e(w.write_rich_string(r, 1, &[(&Format::default(), s), (&Format::new().set_italic(), s)]))?;
                want.insert((r, 1), format!("{s}{s}"));
            }
            e(w.write_string(r, 2, s))?;
            want.insert((r, 2), s.clone());
            rec.state(&s);
        }
        let p = closed(&mut wb)?;
        rec.trace();
        let got = sheet(&p, 0)?.data.cells.iter().map(|(k, c)| match &c.v {
            V::Str(t) => (*k, t.plain()),
            o => (*k, vtext(o)),
        }).collect();
        rec.seen(&got);
        diff(&want, &got)
    });
    // Every character that XML 1.0 or the escape scheme treats specially, on its own and between letters.
    let chars: Vec<u32> = (1..0x250u32).chain(0x2000..0x2070).chain(0xd7f0..0xd800).chain(0xe000..0xe010).chain(0xfdc0..0xfdf8).chain(0xfff0..0x10010).chain(0x1fff0..0x20002).chain(0x10fff0..0x110000).collect();
    let cc: Vec<&Ch> = chs.iter().filter(|c| matches!(c.name, "string" | "rich" | "constant memory" | "formula result" | "note" | "header" | "title" | "image alt text" | "shape text" | "sheet name" | "table header" | "chart title" | "defined name text" | "filter value" | "link tip" | "custom property value" | "button caption" | "number format")).collect();
    run.explore("every special character", chars.len() as u64 * cc.len() as u64 * 2, |i, rec| {
        let c = cc[(i / 2) as usize % cc.len()];
        let Some(ch) = char::from_u32(chars[(i / 2) as usize / cc.len()]) else { return Ok(()) };
        let s = if i % 2 == 0 { ch.to_string() } else { format!("a{ch}b") };
        rec.describe(|| format!("{} given {s:?}", c.name));
        one(c, &s, rec)
    });
}
