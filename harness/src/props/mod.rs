use crate::engine::Prop;

mod c01_total;
mod c02_state;
mod c03_spans;
mod c05_blocks;
mod c06_sections;
mod c10_attrs;
mod c12_escape;
mod c13_verbatim;
mod c14_inline;
mod c15_pass;
mod c17_links;
mod c18_media;
mod c19_renderer;
mod c20_attrlist;
mod c21_meta;
mod c22_header;
mod c23_include;
mod c24_subs;
mod c26_layout;
mod c27_compose;
mod c28_values;
mod c30_warnings;
mod c31_asg;
mod c32_sdd;
mod c33_views;

pub fn all() -> Vec<Prop> {
    vec![
        c01_total::prop(),
        c02_state::prop(),
        c03_spans::spans_prop(),
        c03_spans::cover_prop(),
        c05_blocks::prop(),
        c06_sections::c06(),
        c06_sections::c07(),
        c06_sections::c08(),
        c06_sections::c09(),
        c10_attrs::permissions(),
        c10_attrs::values(),
        c12_escape::prop(),
        c13_verbatim::prop(),
        c14_inline::formatting(),
        c14_inline::replacements(),
        c15_pass::prop(),
        c17_links::prop(),
        c18_media::prop(),
        c19_renderer::prop(),
        c20_attrlist::prop(),
        c21_meta::prop(),
        c22_header::prop(),
        c23_include::prop(),
        c24_subs::c24(),
        c24_subs::c25(),
        c26_layout::prop(),
        c27_compose::prop(),
        c28_values::strings_prop(),
        c28_values::paths_prop(),
        c30_warnings::prop(),
        c31_asg::prop(),
        c32_sdd::prop(),
        c33_views::prop(),
    ]
}
