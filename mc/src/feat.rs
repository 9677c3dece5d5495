//! A library of worksheet features: how to add each with a distinct identity, what a reader must
//! find for it, and a reader that lists the facts of a sheet by following the package.
use crate::book::{cell_name, cell_ref};
use crate::opc::Pkg;
use crate::xml::El;
use rust_xlsxwriter::*;

type R = Result<(), String>;
fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|x| x.to_string())
}
// ------------------------------------------------------------------ images in memory
pub fn png(w: u32, h: u32, k: u32, dpm: Option<(u32, u32)>) -> Vec<u8> {
    let mut v = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut chunk = |name: &[u8], body: &[u8]| {
        v.extend((body.len() as u32).to_be_bytes());
        v.extend(name);
        v.extend(body);
        v.extend([0u8; 4]);
    };
    let mut b = vec![];
    b.extend(w.to_be_bytes());
    b.extend(h.to_be_bytes());
    b.extend([8, 2, 0, 0, 0]);
    chunk(b"IHDR", &b);
    if let Some((x, y)) = dpm {
        let mut b = vec![];
        b.extend(x.to_be_bytes());
        b.extend(y.to_be_bytes());
        b.push(1);
        chunk(b"pHYs", &b);
    }
    chunk(b"tEXt", format!("id\0{k}").as_bytes());
    chunk(b"IEND", b"");
    v
}
pub fn jpg(w: u16, h: u16, k: u32) -> Vec<u8> {
    let mut v = vec![0xff, 0xd8, 0xff, 0xe0, 0, 16];
    v.extend(b"JFIF\0");
    v.extend([1, 1, 1, 0, 96, 0, 96, 0, 0]);
    v.extend([0xff, 0xfe, 0, 6]);
    v.extend(k.to_be_bytes());
    v.extend([0xff, 0xc0, 0, 11, 8]);
    v.extend(h.to_be_bytes());
    v.extend(w.to_be_bytes());
    v.extend([1, 1, 0x11, 0]);
    v.extend([0xff, 0xda, 0, 2, 0xff, 0xd9]);
    v
}
pub fn gif(w: u16, h: u16, k: u32) -> Vec<u8> {
    let mut v = b"GIF89a".to_vec();
    v.extend(w.to_le_bytes());
    v.extend(h.to_le_bytes());
    v.extend([0, 0, 0]);
    v.extend(k.to_be_bytes());
    v.push(0x3b);
    v
}
pub fn bmp(w: u32, h: u32, k: u32) -> Vec<u8> {
    let mut v = b"BM".to_vec();
    v.extend([0u8; 12]);
    v.extend([40, 0, 0, 0]);
    v.extend(w.to_le_bytes());
    v.extend(h.to_le_bytes());
    v.extend([1, 0, 24, 0]);
    v.extend(k.to_be_bytes());
    v
}
pub fn image(fmt: usize, k: u32) -> Result<Image, String> {
    e(Image::new_from_buffer(&image_bytes(fmt, k)))
}
pub fn image_bytes(fmt: usize, k: u32) -> Vec<u8> {
    match fmt {
        0 => png(20, 10, k, None),
        1 => jpg(20, 10, k),
        2 => gif(20, 10, k),
        _ => bmp(20, 10, k),
    }
}
pub fn ext(fmt: usize) -> &'static str {
    ["png", "jpeg", "gif", "bmp"][fmt]
}
/// The identity of an image found in a package: its type and number.
pub fn image_id(name: &str, data: &[u8]) -> String {
    let x = name.rsplit('.').next().unwrap_or("");
    for f in 0..4 {
        if ext(f) == x {
            for k in 0..400 {
                if image_bytes(f, k) == data {
                    return format!("{x}#{k}");
                }
            }
        }
    }
    format!("unknown {name} of {} bytes", data.len())
}
// ------------------------------------------------------------------ features
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum K {
    Png,
    JpgUrl,
    GifInternal,
    BmpDecorative,
    PngSame,
    Embed,
    EmbedSame,
    Background,
    BackgroundSame,
    Header,
    FooterSame,
    Chart,
    ChartBar,
    ChartLinked,
    ChartCombined,
    Text,
    TextUrl,
    Note,
    NoteAuthor,
    Button,
    Checkbox,
    Table,
    TableFormats,
    Url,
    UrlInternal,
    UrlFile,
    UrlMail,
    CondCell,
    CondBar,
    CondIcons,
    CondScale,
    Valid,
    Spark,
    SparkGroup,
    Merge,
    Array,
    Dynamic,
    Rich,
    Plain,
    Formatted,
    Filter,
    PrintArea,
    Repeat,
    Unprotect,
    Ignore,
    HeaderText,
    Freeze,
    Protect,
    RowCol,
    Breaks,
    Outline,
    Setup,
}
pub use K::*;
pub const KINDS: &[K] = &[
    Png, JpgUrl, GifInternal, BmpDecorative, PngSame, Embed, EmbedSame, Background, BackgroundSame, Header, FooterSame, Chart, ChartBar, ChartLinked, ChartCombined, Text, TextUrl, Note, NoteAuthor,
    Button, Checkbox, Table, TableFormats, Url, UrlInternal, UrlFile, UrlMail, CondCell, CondBar, CondIcons, CondScale, Valid, Spark, SparkGroup, Merge, Array, Dynamic, Rich, Plain, Formatted, Filter,
    PrintArea, Repeat, Unprotect, Ignore, HeaderText, Freeze, Protect, RowCol, Breaks, Outline, Setup,
];
/// Features whose files are linked together by ids.
pub const LINKED: &[K] = &[
    Png, JpgUrl, GifInternal, BmpDecorative, PngSame, Embed, EmbedSame, Background, BackgroundSame, Header, FooterSame, Chart, ChartLinked, ChartCombined, Text, TextUrl, Note, NoteAuthor, Button, Checkbox,
    Table, TableFormats, Url, UrlFile, CondCell, CondBar, CondIcons, Spark, Dynamic, Rich, Formatted, Filter, PrintArea,
];
/// At most one of these per sheet (a second one replaces the first).
pub fn single(k: K) -> bool {
    matches!(k, Background | BackgroundSame | Header | FooterSame | Filter | PrintArea | Repeat | HeaderText | Freeze | Protect | Breaks | Setup)
}
/// Two kinds that occupy the same single place of a sheet.
pub fn exclusive(a: K, b: K) -> bool {
    (a == b && single(a)) || matches!((a, b), (Background, BackgroundSame) | (BackgroundSame, Background) | (Header, HeaderText) | (HeaderText, Header))
}
pub fn in_constant_memory(k: K) -> bool {
    // Not available or documented as limited in the constant memory modes.
    !matches!(k, Embed | EmbedSame | TableFormats | Table | Merge | RowCol | Outline)
}
/// Feature instance: kind, slot (its rows are slot*10..slot*10+9) and identity number.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct F {
    pub k: K,
    pub slot: u32,
    pub id: u32,
}
fn fmt(id: u32) -> Format {
    Format::new().set_font_color(Color::RGB(0x10_0000 + id)).set_num_format(format!("0.0\"u{id}\""))
}
pub fn apply(ws: &mut Worksheet, name: &str, f: F) -> R {
    let r = f.slot * 10;
    let id = f.id;
    match f.k {
        Png => e(ws.insert_image(r, 1, &image(0, id)?.set_alt_text(format!("alt{id}"))))?,
        JpgUrl => e(ws.insert_image(r, 1, &e(image(1, id)?.set_url(rust_xlsxwriter::Url::new(format!("https://obj.org/a?b=1&c=2#x{id}"))))?.set_alt_text(format!("alt{id}"))))?,
        GifInternal => e(ws.insert_image(r, 1, &e(image(2, id)?.set_url(format!("internal:Other!B{id}").as_str()))?.set_alt_text(format!("alt{id}"))))?,
        BmpDecorative => e(ws.insert_image_with_offset(r, 1, &image(3, id)?.set_decorative(true), 5, 3))?,
        PngSame => e(ws.insert_image(r, 1, &image(0, 0)?.set_alt_text(format!("alt{id}"))))?,
        Embed => e(ws.embed_image(r, 1, &image(0, id)?.set_alt_text(format!("ealt{id}"))))?,
        EmbedSame => e(ws.embed_image(r, 1, &image(0, 0)?))?,
        Background => ws.insert_background_image(&image(1, id)?),
        BackgroundSame => ws.insert_background_image(&image(0, 0)?),
        Header => {
            ws.set_header(format!("&L&G&Chead{id}"));
            e(ws.set_header_image(&image(0, id)?, HeaderImagePosition::Left))?
        }
        FooterSame => {
            ws.set_footer(format!("&C&[Picture]&Rfoot{id}"));
            e(ws.set_footer_image(&image(0, 0)?, HeaderImagePosition::Center))?
        }
        Chart => {
            let mut c = rust_xlsxwriter::Chart::new(ChartType::Column);
            c.title().set_name(&format!("chart{id}"));
            c.add_series().set_values((name, 0, 20, id, 20));
            e(ws.insert_chart(r, 1, &c))?
        }
        ChartBar => {
            let mut c = rust_xlsxwriter::Chart::new(ChartType::Bar);
            c.title().set_name(&format!("chart{id}"));
            c.add_series().set_categories((name, 0, 20, id, 20)).set_values((name, 0, 21, id, 21));
            e(ws.insert_chart_with_offset(r, 1, &c, 4, 7))?
        }
        ChartLinked => {
            let mut c = rust_xlsxwriter::Chart::new(ChartType::Line);
            c.title().set_name(&format!("chart{id}"));
            c.add_series().set_values((name, 0, 20, 2, 20));
            e(ws.insert_chart(r, 1, c.set_alt_text(format!("alt{id}"))))?
        }
        ChartCombined => {
            let mut c = rust_xlsxwriter::Chart::new(ChartType::Column);
            c.title().set_name(&format!("chart{id}"));
            c.add_series().set_values((name, 0, 20, 2, 20));
            let mut d = rust_xlsxwriter::Chart::new(ChartType::Line);
            d.add_series().set_values((name, 0, 21, 2, 21)).set_secondary_axis(true);
            c.combine(&d);
            e(ws.insert_chart(r, 1, &c))?
        }
        Text => e(ws.insert_shape(r, 1, &Shape::textbox().set_text(format!("text{id}"))))?,
        TextUrl => e(ws.insert_shape(r, 1, &e(Shape::textbox().set_text(format!("text{id}")).set_url(format!("https://obj.org/a?b=1&c=2#s{}", id % 2).as_str()))?))?,
        Note => e(ws.insert_note(r, 1, &rust_xlsxwriter::Note::new(format!("note{id}")).add_author_prefix(false)))?,
        NoteAuthor => e(ws.insert_note(r, 1, &rust_xlsxwriter::Note::new(format!("note{id}")).set_author(format!("Z{}", 9 - id % 5)).set_visible(true)))?,
        Button => e(ws.insert_button(r, 1, &rust_xlsxwriter::Button::new().set_caption(format!("button{id}")).set_macro(format!("mac{id}"))))?,
        Checkbox => e(ws.insert_checkbox(r, 1, id % 2 == 0))?,
        Table => e(ws.add_table(
            r,
            1,
            r + 3,
            2,
            &rust_xlsxwriter::Table::new().set_name(format!("Tab{id}")).set_columns(&[TableColumn::new().set_header(format!("h{id}")), TableColumn::new()]),
        ))?,
        TableFormats => e(ws.add_table(
            r,
            1,
            r + 3,
            2,
            &rust_xlsxwriter::Table::new()
                .set_name(format!("Tab{id}"))
                .set_columns(&[TableColumn::new().set_header(format!("h{id}")).set_format(fmt(id)).set_header_format(Format::new().set_italic()), TableColumn::new().set_formula(format!("=1+{id}").as_str())]),
        ))?,
        Url => e(ws.write_url(r, 1, rust_xlsxwriter::Url::new(format!("https://u{id}.org/#frag{id}")).set_text(format!("link{id}")).set_tip(format!("tip{id}"))))?,
        UrlInternal => e(ws.write_url(r, 1, format!("internal:Other!A{id}").as_str()))?,
        UrlFile => e(ws.write_url(r, 1, format!("file:///C:\\dir\\f{id}.xlsx#S!A1").as_str()))?,
        UrlMail => e(ws.write_url(r, 1, format!("mailto:m{id}@x.org").as_str()))?,
        CondCell => e(ws.add_conditional_format(r, 1, r + 2, 2, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::GreaterThan(id)).set_format(fmt(id))))?,
        CondBar => e(ws.add_conditional_format(
            r,
            1,
            r + 2,
            1,
            &ConditionalFormatDataBar::new().set_fill_color(Color::RGB(0x20_0000 + id)).set_minimum(ConditionalFormatType::Number, id),
        ))?,
        CondIcons => e(ws.add_conditional_format(r, 1, r + 2, 1, &ConditionalFormatIconSet::new().set_icon_type(ConditionalFormatIconType::ThreeTriangles).reverse_icons(id % 2 == 0)))?,
        CondScale => e(ws.add_conditional_format(r, 1, r + 2, 1, &ConditionalFormat2ColorScale::new().set_minimum_color(Color::RGB(0x30_0000 + id))))?,
        Valid => e(ws.add_data_validation(r, 1, r + 2, 1, &e(DataValidation::new().allow_list_strings(&[format!("v{id}"), "other".into()]))?))?,
        Spark => e(ws.add_sparkline(r, 1, &Sparkline::new().set_range((name, 0, 20, id, 20))))?,
        SparkGroup => e(ws.add_sparkline_group(r, 1, r + 1, 1, &Sparkline::new().set_range((name, 0, 20, 1, 20 + id as u16 % 30))))?,
        Merge => e(ws.merge_range(r, 1, r + 1, 2, &format!("merge{id}"), &fmt(id)))?,
        Array => e(ws.write_array_formula(r, 1, r + 1, 1, format!("{{=A1:A2*{id}}}").as_str()))?,
        Dynamic => e(ws.write_dynamic_array_formula(r, 1, r + 1, 1, format!("=UNIQUE(A1:A{id})").as_str()))?,
        Rich => e(ws.write_rich_string(r, 1, &[(&Format::default(), "rich"), (&Format::new().set_bold(), &format!("{id}"))]))?,
        Plain => e(ws.write_string(r, 1, format!("plain{}", id % 3)))?,
        Formatted => e(ws.write_number_with_format(r, 1, id, &fmt(id)))?,
        Filter => {
            e(ws.autofilter(r, 4, r + 4, 5))?;
            e(ws.filter_column(4, &FilterCondition::new().add_list_filter(id as i32)))?
        }
        PrintArea => e(ws.set_print_area(0, 0, r + id, 4))?,
        Repeat => {
            e(ws.set_repeat_rows(0, id))?;
            e(ws.set_repeat_columns(0, 1))?
        }
        Unprotect => e(ws.unprotect_range_with_options(r, 1, r + 1, 1, &format!("Range{id}"), ""))?,
        Ignore => e(ws.ignore_error_range(r, 1, r + 1, 1, IgnoreError::NumberStoredAsText))?,
        HeaderText => ws.set_header(format!("&Chead{id}")),
        Freeze => e(ws.set_freeze_panes(id % 7 + 1, 1))?,
        Protect => ws.protect(),
        RowCol => {
            e(ws.set_row_height(r, 20 + id))?;
            e(ws.set_column_width(30 + f.slot as u16, 10 + id % 50))?;
            e(ws.set_row_format(r + 1, &fmt(id)))?
        }
        Breaks => e(ws.set_page_breaks(&[id + 1, id + 5]))?,
        Outline => {
            e(ws.group_rows(r + 2, r + 4))?;
            e(ws.group_columns(40 + 3 * f.slot as u16, 41 + 3 * f.slot as u16))?
        }
        Setup => {
            ws.set_landscape().set_paper_size(9).set_print_fit_to_pages(1, 2).set_tab_color(Color::RGB(0x40_0000 + id)).set_margins(0.1, 0.2, 0.3, 0.4, 0.5, 0.6).set_print_gridlines(true)
        }
    };
    Ok(())
}
/// The facts a reader must find on the sheet for this feature.
pub fn expected(name: &str, f: F) -> Vec<String> {
    let r = f.slot * 10;
    let id = f.id;
    let at = cell_name(r, 1);
    let rng = |a: u32, b: u32| format!("{}:{}", cell_name(r, 1), cell_name(r + a, 1 + b as u16));
    let q = quote(name);
    match f.k {
        Png => vec![format!("image png#{id} at {at} alt alt{id}")],
        JpgUrl => vec![format!("image jpeg#{id} at {at} alt alt{id} link external https://obj.org/a?b=1&c=2#x{id}")],
        GifInternal => vec![format!("image gif#{id} at {at} alt alt{id} link internal #Other!B{id}")],
        BmpDecorative => vec![format!("image bmp#{id} at {at} alt  decorative")],
        PngSame => vec![format!("image png#0 at {at} alt alt{id}")],
        Embed => vec![format!("embedded png#{id} at {at} alt ealt{id}")],
        EmbedSame => vec![format!("embedded png#0 at {at} alt ")],
        Background => vec![format!("background jpeg#{id}")],
        BackgroundSame => vec!["background png#0".to_string()],
        Header => vec![format!("hfimage LH png#{id}"), format!("header &L&G&Chead{id}")],
        FooterSame => vec!["hfimage CF png#0".to_string(), format!("footer &C&G&Rfoot{id}")],
        Chart => vec![format!("chart chart{id} at {at} series {q}!$U$1:$U${}", id + 1)],
        ChartBar => vec![format!("chart chart{id} at {at} series {q}!$V$1:$V${}", id + 1)],
        ChartLinked => vec![format!("chart chart{id} at {at} series {q}!$U$1:$U$3 alt alt{id}")],
        ChartCombined => vec![format!("chart chart{id} at {at} series {q}!$U$1:$U$3 series {q}!$V$1:$V$3")],
        Text => vec![format!("shape text{id} at {at}")],
        TextUrl => vec![format!("shape text{id} at {at} link external https://obj.org/a?b=1&c=2#s{}", id % 2)],
        Note => vec![format!("note note{id} at {at} by Author hidden")],
        NoteAuthor => vec![format!("note Z{0}:\nnote{id} at {at} by Z{0} visible", 9 - id % 5)],
        Button => vec![format!("button button{id} at {at} macro [0]!mac{id}")],
        Checkbox => vec![format!("cell {at} bool {} checkbox", id % 2 == 0)],
        Table => vec![format!("table Tab{id} {} columns h{id},Column2", rng(3, 1)), format!("cell {at} str h{id}"), format!("cell {} str Column2", cell_name(r, 2))],
        TableFormats => {
            let mut v = vec![
                format!("table Tab{id} {} columns h{id}[{}],Column2=1+{id}", rng(3, 1), dxf_tag(id)),
                format!("cell {at} str h{id} format I"),
                format!("cell {} str Column2", cell_name(r, 2)),
            ];
            for i in 1..=3 {
                v.push(format!("cell {} formula 1+{id}", cell_name(r + i, 2)));
            }
            v
        }
        Url => vec![format!("link {at} https://u{id}.org/ location frag{id} tip tip{id}"), format!("cell {at} str link{id} format link")],
        UrlInternal => vec![format!("link {at}  location Other!A{id} tip "), format!("cell {at} str Other!A{id} format link")],
        UrlFile => vec![format!("link {at} file:///C:\\dir\\f{id}.xlsx location S!A1 tip "), format!("cell {at} str C:\\dir\\f{id}.xlsx#S!A1 format link")],
        UrlMail => vec![format!("link {at} mailto:m{id}@x.org location  tip "), format!("cell {at} str m{id}@x.org format link")],
        CondCell => vec![format!("cf {} cellIs greaterThan {id} dxf {}", rng(2, 1), dxf_tag(id))],
        CondBar => vec![format!("cf {} dataBar FF{:06X} min num {id} with x14", rng(2, 0), 0x20_0000 + id)],
        CondIcons => vec![format!("cf {} x14 iconSet 3Triangles{}", rng(2, 0), if id % 2 == 0 { " reversed" } else { "" })],
        CondScale => vec![format!("cf {} colorScale FF{:06X}", rng(2, 0), 0x30_0000 + id)],
        Valid => vec![format!("dv {} list \"v{id},other\"", rng(2, 0))],
        Spark => vec![format!("sparkline {at} {q}!U1:U{}", id + 1)],
        SparkGroup => {
            let c = crate::book::col_name(20 + id % 30);
            let one = |r: u32| if id % 30 == 0 { format!("{q}!U{r}") } else { format!("{q}!U{r}:{c}{r}") };
            if id % 30 == 0 {
                return vec![format!("sparkline {at} {}", one(1)), format!("sparkline {} {}", cell_name(r + 1, 1), one(2))];
            }
            vec![format!("sparkline {at} {}", one(1)), format!("sparkline {} {}", cell_name(r + 1, 1), one(2))]
        }
        Merge => {
            let mut v = vec![format!("merge {}", rng(1, 1)), format!("cell {at} str merge{id} format {}", own(id))];
            for (a, b) in [(0, 2), (1, 1), (1, 2)] {
                v.push(format!("cell {} blank format {}", cell_name(r + a, b), own(id)));
            }
            v
        }
        Array => vec![format!("cell {at} array {} A1:A2*{id}", rng(1, 0)), format!("cell {} num 0", cell_name(r + 1, 1))],
        Dynamic => vec![format!("cell {at} dynamic {} _xlfn.UNIQUE(A1:A{id})", rng(1, 0)), format!("cell {} num 0", cell_name(r + 1, 1))],
        Rich => vec![format!("cell {at} rich rich|{id}")],
        Plain => vec![format!("cell {at} str plain{}", id % 3)],
        Formatted => vec![format!("cell {at} num {id} format {}", own(id))],
        Filter => vec![
            format!("row {} hidden", r + 1),
            format!("row {} hidden", r + 2),
            format!("row {} hidden", r + 3),
            format!("row {} hidden", r + 4),
            format!("autofilter {} column 0 values {id}", format!("{}:{}", cell_name(r, 4), cell_name(r + 4, 5))),
            format!("name _xlnm._FilterDatabase hidden {q}!$E${}:$F${}", r + 1, r + 5),
        ],
        PrintArea => vec![format!("name _xlnm.Print_Area {q}!$A$1:$E${}", r + id + 1)],
        Repeat => vec![format!("name _xlnm.Print_Titles {q}!$A:$B,{q}!$1:${}", id + 1)],
        Unprotect => vec![format!("protected range Range{id} {}", rng(1, 0))],
        Ignore => vec![format!("ignored numberStoredAsText {}", rng(1, 0))],
        HeaderText => vec![format!("header &Chead{id}")],
        Freeze => vec![format!("pane 1 x {} topLeft {}", id % 7 + 1, cell_name(id % 7 + 1, 1))],
        Protect => vec!["protection".into()],
        RowCol => vec![format!("row {r} height {}", 20 + id), format!("row {} format {}", r + 1, own(id)), format!("column {} width {}.7109375", 30 + f.slot, 10 + id % 50)],
        Breaks => vec![format!("row breaks {} {}", id + 1, id + 5)],
        Outline => {
            let mut v: Vec<String> = (2..=4).map(|i| format!("row {} level 1", r + i)).collect();
            for c in 0..2 {
                v.push(format!("column {} level 1", 40 + 3 * f.slot + c));
            }
            v
        }
        Setup => vec![format!("setup landscape paper 9 fit 1x2 tab FF{:06X} gridlines", 0x40_0000 + id)],
    }
}
fn own(id: u32) -> String {
    format!("[font FF{:06X}][code:0.0\"u{id}\"]", 0x10_0000 + id)
}
fn dxf_tag(id: u32) -> String {
    format!("dxf FF{:06X} 0.0\"u{id}\"", 0x10_0000 + id)
}
pub fn quote(name: &str) -> String {
    if name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !name.chars().next().map_or(true, |c| c.is_ascii_digit()) {
        name.to_string()
    } else {
        format!("'{}'", name.replace('\'', "''"))
    }
}
// ------------------------------------------------------------------ reading back
fn media(p: &Pkg, source: &str, id: &str) -> Result<String, String> {
    let t = p.follow(source, id, "image")?;
    Ok(image_id(&t, &p.part(&t).unwrap().data))
}
fn link(p: &Pkg, source: &str, x: &El) -> Result<String, String> {
    for h in x.find_all("a:hlinkClick") {
        let id = h.a("r:id").ok_or("hlinkClick without id")?;
        let rels = p.rels(source);
        let r = rels.iter().find(|r| r.id == id).ok_or_else(|| format!("{source}: no relationship {id}"))?;
        if r.typ != "hyperlink" {
            return Err(format!("{source}: hlinkClick refers to a relationship of type {}", r.typ));
        }
        return Ok(format!(" link {} {}", if r.external { "external" } else { "internal" }, r.target));
    }
    Ok(String::new())
}
fn anchor_cell(a: &El) -> Result<String, String> {
    let f = a.first("xdr:from").ok_or("anchor without from")?;
    let g = |n: &str| f.first(n).map(|x| x.text()).and_then(|t| t.parse::<u32>().ok());
    Ok(cell_name(g("xdr:row").ok_or("anchor row")?, g("xdr:col").ok_or("anchor col")? as u16))
}
pub fn dxf_text(d: &El) -> String {
    let c = d.path("font/color").and_then(|c| c.a("rgb")).unwrap_or("-");
    let n = d.first("numFmt").and_then(|n| n.a("formatCode")).unwrap_or("-");
    format!("dxf {c} {n}")
}
fn attr_or<'a>(x: &'a El, n: &str) -> &'a str {
    x.a(n).unwrap_or("")
}
/// The embedded image of a value metadata index: (image, alt text).
fn rich_image(p: &Pkg, vm: u32) -> Result<(String, String), String> {
    let m = p.x("xl/metadata.xml")?;
    let bk = m.first("valueMetadata").ok_or("no valueMetadata")?;
    let bks: Vec<&El> = bk.named("bk").collect();
    let b = bks.get(vm as usize - 1).ok_or_else(|| format!("value metadata {vm} of {}", bks.len()))?;
    let rc = b.first("rc").ok_or("bk without rc")?;
    let types: Vec<&El> = m.first("metadataTypes").map(|t| t.els().collect()).unwrap_or_default();
    let t = types.get(attr_or(rc, "t").parse::<usize>().unwrap_or(0).wrapping_sub(1)).ok_or("metadata type")?;
    if t.a("name") != Some("XLRICHVALUE") {
        return Err("value metadata of the wrong type".into());
    }
    let v: usize = attr_or(rc, "v").parse().map_err(|_| "rc v")?;
    let fut = m.named("futureMetadata").find(|f| f.a("name") == Some("XLRICHVALUE")).ok_or("no future metadata")?;
    let fb: Vec<&El> = fut.named("bk").collect();
    let rvb = fb.get(v).ok_or("future metadata index")?.find_all("xlrd:rvb");
    let i: usize = rvb.first().and_then(|r| r.a("i")).and_then(|x| x.parse().ok()).ok_or("rvb")?;
    let rd = p.x("xl/richData/rdrichvalue.xml")?;
    let rvs: Vec<&El> = rd.named("rv").collect();
    if rd.au("count") != Some(rvs.len() as u64) {
        return Err("rich value count".into());
    }
    let rv = rvs.get(i).ok_or_else(|| format!("rich value {i} of {}", rvs.len()))?;
    let st = p.x("xl/richData/rdrichvaluestructure.xml")?;
    let structs: Vec<&El> = st.named("s").collect();
    let s = structs.get(attr_or(rv, "s").parse::<usize>().unwrap_or(99)).ok_or("rich value structure")?;
    let keys: Vec<&str> = s.named("k").map(|k| attr_or(k, "n")).collect();
    let vals: Vec<String> = rv.named("v").map(|x| x.text()).collect();
    if keys.len() != vals.len() {
        return Err(format!("rich value with {} values for keys {keys:?}", vals.len()));
    }
    let get = |k: &str| keys.iter().position(|x| *x == k).map(|i| vals[i].clone());
    let rel: usize = get("_rvRel:LocalImageIdentifier").and_then(|x| x.parse().ok()).ok_or("no image identifier")?;
    let rr = p.x("xl/richData/richValueRel.xml")?;
    let rels: Vec<&El> = rr.named("rel").collect();
    let id = rels.get(rel).and_then(|r| r.a("r:id")).ok_or_else(|| format!("richValueRel {rel} of {}", rels.len()))?;
    Ok((media(p, "xl/richData/richValueRel.xml", id)?, get("Text").unwrap_or_default()))
}
/// All the facts of one sheet, sorted. `skip_cells` leaves plain cell contents out.
pub fn facts(p: &Pkg, n: usize) -> Result<Vec<String>, String> {
    let sheets = p.sheets()?;
    let sr = sheets.get(n).ok_or("sheet index")?;
    let part = sr.part.as_str();
    let x = p.x(part)?;
    let mut v: Vec<String> = vec![];
    let styles = crate::book::styles(p)?;
    let dxf = |i: Option<u64>| -> Result<String, String> {
        match i {
            None => Ok(String::new()),
            Some(i) => styles.dxfs.get(i as usize).map(dxf_text).ok_or_else(|| format!("dxf {i} of {}", styles.dxfs.len())),
        }
    };
    // Drawings.
    for d in x.named("drawing") {
        let dp = p.follow(part, attr_or(d, "r:id"), "drawing")?;
        let dx = p.x(&dp)?;
        let mut ids = std::collections::BTreeSet::new();
        for a in dx.els() {
            if a.name == "xdr:absoluteAnchor" {
                for c in a.find_all("c:chart") {
                    let cp = p.follow(&dp, attr_or(c, "r:id"), "chart")?;
                    v.push(chart_fact(p, &cp, "sheet")?);
                }
                continue;
            }
            for c in a.find_all("xdr:cNvPr") {
                if !ids.insert(attr_or(c, "id").to_string()) {
                    return Err(format!("{dp}: object id {} twice", attr_or(c, "id")));
                }
            }
            let at = anchor_cell(a)?;
            if let Some(pic) = a.first("xdr:pic") {
                let b = pic.find_all("a:blip");
                let id = b.first().and_then(|b| b.a("r:embed")).ok_or("pic without blip")?;
                let c = pic.path("xdr:nvPicPr/xdr:cNvPr").ok_or("pic without cNvPr")?;
                let deco = if c.find_all("adec:decorative").iter().any(|d| d.a("val") == Some("1")) { " decorative" } else { "" };
                v.push(format!("image {} at {at} alt {}{deco}{}", media(p, &dp, id)?, attr_or(c, "descr"), link(p, &dp, c)?));
            } else if let Some(g) = a.first("xdr:graphicFrame") {
                let c = g.find_all("c:chart");
                let id = c.first().and_then(|c| c.a("r:id")).ok_or("frame without chart")?;
                let cp = p.follow(&dp, id, "chart")?;
                let c = g.path("xdr:nvGraphicFramePr/xdr:cNvPr").ok_or("frame without cNvPr")?;
                let alt = if c.a("descr").is_some() { format!(" alt {}", attr_or(c, "descr")) } else { String::new() };
                v.push(format!("{}{alt}{}", chart_fact(p, &cp, &at)?, link(p, &dp, c)?));
            } else if let Some(s) = a.first("xdr:sp") {
                let c = s.path("xdr:nvSpPr/xdr:cNvPr").ok_or("shape without cNvPr")?;
                let t = s.first("xdr:txBody").map(|b| b.deep_text()).unwrap_or_default();
                v.push(format!("shape {t} at {at}{}", link(p, &dp, c)?));
            } else {
                return Err(format!("{dp}: empty anchor"));
            }
        }
    }
    // Comments and buttons.
    let comments = p.follow_type(part, "comments");
    if comments.len() > 1 {
        return Err(format!("{part}: {} comments parts", comments.len()));
    }
    let mut shapes: Vec<(u32, u32, &El)> = vec![];
    for d in x.named("legacyDrawing") {
        let dp = p.follow(part, attr_or(d, "r:id"), "vmlDrawing")?;
        let dx = p.x(&dp)?;
        let mut ids = std::collections::BTreeSet::new();
        for s in dx.named("v:shape") {
            if !ids.insert(attr_or(s, "id").to_string()) {
                return Err(format!("{dp}: shape id {} twice", attr_or(s, "id")));
            }
            let cd = s.first("x:ClientData").ok_or("shape without ClientData")?;
            if cd.a("ObjectType") == Some("Button") {
                let an: Vec<u32> = cd.first("x:Anchor").map(|a| a.text()).unwrap_or_default().split(',').filter_map(|t| t.trim().parse().ok()).collect();
                if an.len() != 8 {
                    return Err("button anchor".into());
                }
                let cap = s.first("v:textbox").map(|t| t.deep_text()).unwrap_or_default();
                let m = cd.first("x:FmlaMacro").map(|m| m.text()).unwrap_or_default();
                v.push(format!("button {cap} at {} macro {m}", cell_name(an[2], an[0] as u16)));
            } else {
                let g = |n: &str| cd.first(n).and_then(|e| e.text().parse::<u32>().ok()).ok_or("note position");
                shapes.push((g("x:Row")?, g("x:Column")?, s));
            }
        }
    }
    if let Some(cp) = comments.first() {
        let cx = p.x(cp)?;
        let authors: Vec<String> = cx.first("authors").map(|a| a.els().map(|e| e.text()).collect()).unwrap_or_default();
        for c in cx.first("commentList").map(|l| l.els().collect::<Vec<_>>()).unwrap_or_default() {
            let at = attr_or(c, "ref");
            let (row, col) = cell_ref(at).ok_or("comment ref")?;
            let a = authors.get(attr_or(c, "authorId").parse::<usize>().unwrap_or(999)).ok_or_else(|| format!("comment author {} of {}", attr_or(c, "authorId"), authors.len()))?;
            let i = shapes.iter().position(|s| s.0 == row && s.1 == col as u32).ok_or_else(|| format!("comment {at} without a shape"))?;
            let s = shapes.remove(i);
            let vis = if s.2.find_all("x:Visible").is_empty() { "hidden" } else { "visible" };
            v.push(format!("note {} at {at} by {a} {vis}", c.first("text").map(|t| t.deep_text()).unwrap_or_default()));
        }
    }
    if !shapes.is_empty() {
        return Err(format!("{part}: note shapes without a comment"));
    }
    // Header and footer images.
    for d in x.named("legacyDrawingHF") {
        let dp = p.follow(part, attr_or(d, "r:id"), "vmlDrawing")?;
        for s in p.x(&dp)?.named("v:shape") {
            let im = s.first("v:imagedata").ok_or("shape without image")?;
            v.push(format!("hfimage {} {}", attr_or(s, "id"), media(p, &dp, attr_or(im, "o:relid"))?));
        }
    }
    for d in x.named("picture") {
        v.push(format!("background {}", media(p, part, attr_or(d, "r:id"))?));
    }
    // Tables.
    if let Some(tp) = x.first("tableParts") {
        if tp.au("count") != Some(tp.els().count() as u64) {
            return Err("tableParts count".into());
        }
        for t in tp.els() {
            let f = p.follow(part, attr_or(t, "r:id"), "table")?;
            let tx = p.x(&f)?;
            let mut cols = vec![];
            for c in tx.first("tableColumns").map(|c| c.els().collect::<Vec<_>>()).unwrap_or_default() {
                let d = dxf(c.au("dataDxfId"))?;
                let fm = c.first("calculatedColumnFormula").map(|f| format!("={}", f.text())).unwrap_or_default();
                cols.push(format!("{}{}{fm}", attr_or(c, "name"), if d.is_empty() { String::new() } else { format!("[{d}]") }));
            }
            if tx.a("name") != tx.a("displayName") {
                return Err("table name".into());
            }
            v.push(format!("table {} {} columns {}", attr_or(tx, "name"), attr_or(tx, "ref"), cols.join(",")));
        }
    }
    // Hyperlinks.
    if let Some(hl) = x.first("hyperlinks") {
        for h in hl.els() {
            let t = match h.a("r:id") {
                Some(id) => p.follow(part, id, "hyperlink")?,
                None => String::new(),
            };
            v.push(format!("link {} {t} location {} tip {}", attr_or(h, "ref"), attr_or(h, "location"), attr_or(h, "tooltip")));
        }
    }
    // Conditional formats.
    let mut x14: Vec<(String, &El)> = vec![];
    for c in x.find_all("x14:conditionalFormatting") {
        let sq = c.first("xm:sqref").map(|s| s.text()).unwrap_or_default();
        for r in c.named("x14:cfRule") {
            x14.push((sq.clone(), r));
        }
    }
    let mut bars = 0;
    for c in x.named("conditionalFormatting") {
        let sq = attr_or(c, "sqref");
        for r in c.els() {
            let t = attr_or(r, "type");
            match t {
                "dataBar" => {
                    let id = r.find_all("x14:id").first().map(|i| i.text());
                    let y = x14.iter().find(|y| y.1.a("id").map(|s| s.to_string()) == id && id.is_some());
                    let ok = match y {
                        Some(y) if y.0 == sq => {
                            bars += 1;
                            " with x14"
                        }
                        _ => " without x14",
                    };
                    let min = r.path("dataBar/cfvo").ok_or("data bar without cfvo")?;
                    v.push(format!("cf {sq} dataBar {} min {} {}{ok}", r.path("dataBar/color").and_then(|c| c.a("rgb")).unwrap_or("-"), attr_or(min, "type"), attr_or(min, "val")));
                }
                "colorScale" => v.push(format!("cf {sq} colorScale {}", r.path("colorScale/color").and_then(|c| c.a("rgb")).unwrap_or("-"))),
                "iconSet" => v.push(format!("cf {sq} iconSet {}{}", r.first("iconSet").map(|i| attr_or(i, "iconSet")).unwrap_or("-"), if r.first("iconSet").and_then(|i| i.a("reverse")) == Some("1") { " reversed" } else { "" })),
                _ => v.push(format!("cf {sq} {t} {} {} dxf {}", attr_or(r, "operator"), r.named("formula").map(|f| f.text()).collect::<Vec<_>>().join(","), dxf(r.au("dxfId"))?)),
            }
        }
    }
    for (sq, r) in &x14 {
        if r.a("type") == Some("iconSet") {
            let i = r.first("x14:iconSet").ok_or("x14 iconSet")?;
            v.push(format!("cf {sq} x14 iconSet {}{}", attr_or(i, "iconSet"), if i.a("reverse") == Some("1") { " reversed" } else { "" }));
        } else if r.a("type") == Some("dataBar") {
            bars -= 1;
        }
    }
    if bars != 0 {
        return Err("x14 data bars without a matching data bar".into());
    }
    // Data validations.
    if let Some(d) = x.first("dataValidations") {
        for r in d.els() {
            v.push(format!("dv {} {} {}", attr_or(r, "sqref"), attr_or(r, "type"), r.first("formula1").map(|f| f.text()).unwrap_or_default()));
        }
    }
    for s in x.find_all("x14:sparkline") {
        v.push(format!("sparkline {} {}", s.first("xm:sqref").map(|t| t.text()).unwrap_or_default(), s.first("xm:f").map(|t| t.text()).unwrap_or_default()));
    }
    if let Some(m) = x.first("mergeCells") {
        for c in m.els() {
            v.push(format!("merge {}", attr_or(c, "ref")));
        }
    }
    if let Some(f) = x.first("autoFilter") {
        let cols: Vec<String> = f
            .named("filterColumn")
            .map(|c| format!("column {} values {}", attr_or(c, "colId"), c.find_all("filter").iter().map(|f| attr_or(f, "val").to_string()).collect::<Vec<_>>().join(",")))
            .collect();
        v.push(format!("autofilter {} {}", attr_or(f, "ref"), cols.join(";")).trim_end().to_string());
    }
    if let Some(d) = p.x("xl/workbook.xml")?.first("definedNames") {
        for d in d.els().filter(|d| d.a("localSheetId") == Some(&n.to_string())) {
            v.push(format!("name {}{} {}", attr_or(d, "name"), if d.a("hidden") == Some("1") { " hidden" } else { "" }, d.text()));
        }
    }
    if let Some(r) = x.first("protectedRanges") {
        for r in r.els() {
            v.push(format!("protected range {} {}", attr_or(r, "name"), attr_or(r, "sqref")));
        }
    }
    if let Some(r) = x.first("ignoredErrors") {
        for r in r.els() {
            let k: Vec<String> = r.attrs.iter().filter(|a| a.0 != "sqref").map(|a| a.0.clone()).collect();
            for q in attr_or(r, "sqref").split(' ') {
                v.push(format!("ignored {} {q}", k.join(" ")));
            }
        }
    }
    if let Some(h) = x.first("headerFooter") {
        for (n, t) in [("oddHeader", "header"), ("oddFooter", "footer")] {
            if let Some(t2) = h.first(n) {
                v.push(format!("{t} {}", t2.text()));
            }
        }
    }
    if let Some(pane) = x.path("sheetViews/sheetView/pane") {
        v.push(format!("pane {} x {} topLeft {}", attr_or(pane, "xSplit"), attr_or(pane, "ySplit"), attr_or(pane, "topLeftCell")));
    }
    if x.first("sheetProtection").is_some() {
        v.push("protection".into());
    }
    if let Some(b) = x.first("rowBreaks") {
        v.push(format!("row breaks {}", b.els().map(|b| attr_or(b, "id").to_string()).collect::<Vec<_>>().join(" ")));
    }
    if let Some(s) = x.first("pageSetup") {
        let pr = x.path("sheetPr/tabColor").map(|t| attr_or(t, "rgb")).unwrap_or("-");
        if s.a("orientation") == Some("landscape") {
            v.push(format!(
                "setup landscape paper {} fit {}x{} tab {pr}{}",
                attr_or(s, "paperSize"),
                s.a("fitToWidth").unwrap_or("1"),
                s.a("fitToHeight").unwrap_or("1"),
                if x.first("printOptions").and_then(|p| p.a("gridLines")) == Some("1") { " gridlines" } else { "" }
            ));
        }
    }
    // Cells.
    if !sr.chart {
        let sst = crate::book::sst(p)?;
        let sd = crate::book::sheet_data(p, x, &sst)?;
        let ftag = |s: u32| -> Result<String, String> {
            let f = styles.xfs.get(s as usize).ok_or_else(|| format!("style {s} of {}", styles.xfs.len()))?;
            if f.checkbox {
                return Ok(" checkbox".into());
            }
            let t = crate::props::util::tag(f);
            Ok(if t.is_empty() {
                t
            } else if t.contains("[link]") {
                " format link".into()
            } else {
                format!(" format {t}")
            })
        };
        for (k, c) in &sd.cells {
            use crate::book::{Text as T, V};
            let at = cell_name(k.0, k.1);
            if let Some(vm) = c.vm {
                if !matches!(&c.v, V::Err(s) if s == "#VALUE!") {
                    return Err(format!("{at}: embedded image without #VALUE!"));
                }
                let (i, alt) = rich_image(p, vm)?;
                v.push(format!("embedded {i} at {at} alt {alt}"));
                continue;
            }
            let t = match &c.v {
                V::Blank => "blank".to_string(),
                V::Num(n) => format!("num {n}"),
                V::Str(T::Plain(s)) => format!("str {s}"),
                V::Str(T::Rich(r)) => format!("rich {}", r.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("|")),
                V::Bool(b) => format!("bool {b}"),
                V::Err(x) => format!("error {x}"),
                V::Formula(f, _, _) => match (&f.array, f.dynamic) {
                    (Some(a), true) => format!("dynamic {a} {}", f.text),
                    (Some(a), false) => format!("array {a} {}", f.text),
                    _ => format!("formula {}", f.text),
                },
            };
            v.push(format!("cell {at} {t}{}", ftag(c.s)?));
        }
        for (r, i) in &sd.rows {
            if let Some(h) = &i.height {
                v.push(format!("row {r} height {h}"));
            }
            if i.custom_format {
                v.push(format!("row {r}{}", ftag(i.style)?));
            }
            if i.level > 0 {
                v.push(format!("row {r} level {}", i.level));
            }
            if i.hidden {
                v.push(format!("row {r} hidden"));
            }
        }
        if let Some(cols) = x.first("cols") {
            for c in cols.els() {
                for k in c.au("min").unwrap_or(1)..=c.au("max").unwrap_or(0) {
                    if c.a("customWidth") == Some("1") {
                        v.push(format!("column {} width {}", k - 1, attr_or(c, "width")));
                    }
                    if let Some(l) = c.au("outlineLevel") {
                        v.push(format!("column {} level {l}", k - 1));
                    }
                }
            }
        }
    }
    v.sort();
    Ok(v)
}
fn chart_fact(p: &Pkg, cp: &str, at: &str) -> Result<String, String> {
    let cx = p.x(cp)?;
    let t = cx.path("c:chart/c:title").map(|t| t.deep_text()).unwrap_or_default();
    let mut s = String::new();
    for ser in cx.find_all("c:ser") {
        let f = ser.path("c:val/c:numRef/c:f").or(ser.path("c:yVal/c:numRef/c:f")).map(|f| f.text()).unwrap_or_default();
        s.push_str(&format!(" series {f}"));
    }
    Ok(format!("chart {t} at {at}{s}"))
}
/// Compare the facts of a sheet with what its features call for.
pub fn check(p: &Pkg, n: usize, name: &str, fs: &[F]) -> R {
    let mut want: Vec<String> = fs.iter().flat_map(|f| expected(name, *f)).collect();
    want.sort();
    let got = facts(p, n)?;
    same(&want, &got).map_err(|m| format!("sheet {name:?}: {m}"))
}
pub fn same(want: &[String], got: &[String]) -> R {
    let mut g = got.to_vec();
    for w in want {
        match g.iter().position(|x| x == w) {
            Some(i) => {
                g.remove(i);
            }
            None => {
                let key: String = w.split(' ').take(2).collect::<Vec<_>>().join(" ");
                let near: Vec<&String> = g.iter().filter(|x| x.starts_with(key.split(' ').next().unwrap())).take(4).collect();
                return Err(format!("missing {w:?}; of its kind there are {near:?}"));
            }
        }
    }
    if let Some(x) = g.first() {
        return Err(format!("unexpected {x:?}"));
    }
    Ok(())
}
