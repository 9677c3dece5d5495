use crate::engine::Run;
pub mod c01_cells;
pub mod c02_text;
pub mod c03_package;
pub mod c05_objects;
pub mod c09_determinism;
pub mod c10_concurrent;
pub mod c11_resave;
pub mod c12_memory;
pub mod c13_faults;
pub mod c14_refused;
pub mod c15_ranges;
pub mod c17_dates;
pub mod c18_formula;
pub mod c19_anchors;
pub mod c20_rows;
pub mod c26_docprops;
pub mod c21_filter;
pub mod c22_valid;
pub mod c23_cond;
pub mod c24_charts;
pub mod c25_serde;
pub mod c27_page;
pub mod c29_protect;
pub mod c06_formats;
pub mod c31_links;
pub mod c34_images;
pub mod c32_spark;
pub mod c35_tables;
pub mod c36_sheets;
pub mod c37_autofit;
pub mod c28_names;
pub mod c39_notes;
pub mod c40_shapes;
pub mod util;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumes: &'static [&'static str],
    pub run: fn(&mut Run),
}
pub fn all() -> Vec<Prop> {
    vec![c01_cells::PROP, c02_text::PROP, c03_package::PROP, c05_objects::PROP, c09_determinism::PROP, c10_concurrent::PROP, c11_resave::PROP, c12_memory::PROP, c13_faults::PROP, c14_refused::PROP, c15_ranges::PROP, c27_page::PROP, c29_protect::PROP, c06_formats::PROP, c06_formats::MERGE, c36_sheets::PROP, c37_autofit::PROP, c28_names::PROP, c28_names::CELLS, c18_formula::PROP, c19_anchors::PROP, c20_rows::PROP, c20_rows::OUTLINE, c21_filter::PROP, c22_valid::PROP, c23_cond::PROP, c24_charts::PROP, c25_serde::PROP, c17_dates::PROP, c26_docprops::PROP, c31_links::PROP, c34_images::PROP, c32_spark::PROP, c35_tables::PROP, c39_notes::PROP, c40_shapes::PROP]
}
