//! Visits everything reachable from a parsed document through the public API.

use asciidoc_parser::{
    Document, HasSpan, Span,
    attributes::Attrlist,
    blocks::{Block, IsBlock},
};

pub struct SpanRec<'a> {
    pub what: &'static str,
    pub span: Span<'a>,
}

/// Exercises every accessor and collects every span.
pub fn all_spans<'a>(doc: &'a Document<'a>) -> Vec<SpanRec<'a>> {
    let mut v = vec![];
    let mut add = |what, span| v.push(SpanRec { what, span });
    add("document", doc.span());
    let h = doc.header();
    add("header", h.span());
    if let Some(t) = h.title_source() {
        add("header.title_source", t);
    }
    for a in h.attributes() {
        add("header.attribute", a.span());
        add("header.attribute.name", *a.name());
        if let Some(r) = a.raw_value() {
            add("header.attribute.raw_value", r);
        }
    }
    if let Some(a) = h.author_line() {
        add("author_line", a.span());
    }
    if let Some(r) = h.revision_line() {
        add("revision_line", r.span());
    }
    for c in h.comments() {
        add("header.comment", *c);
    }
    for w in doc.warnings() {
        add("warning", w.source);
    }
    for b in doc.nested_blocks() {
        block_spans(b, &mut v);
    }
    v
}

fn attrlist_spans<'a>(what: &'static str, a: &'a Attrlist<'a>, v: &mut Vec<SpanRec<'a>>) {
    v.push(SpanRec { what, span: a.span() });
}

fn block_spans<'a>(b: &'a Block<'a>, v: &mut Vec<SpanRec<'a>>) {
    let mut add = |what, span| v.push(SpanRec { what, span });
    add("block", b.span());
    if let Some(t) = b.title_source() {
        add("block.title_source", t);
    }
    if let Some(t) = b.anchor() {
        add("block.anchor", t);
    }
    if let Some(t) = b.anchor_reftext() {
        add("block.anchor_reftext", t);
    }
    match b {
        Block::Simple(s) => add("simple.content", s.content().original()),
        Block::RawDelimited(s) => add("raw.content", s.content().original()),
        Block::Section(s) => add("section.title_source", s.section_title_source()),
        Block::Media(m) => {
            if let Some(t) = m.target() {
                add("media.target", *t);
            }
            let a = m.macro_attrlist();
            add("media.attrlist", a.span());
        }
        Block::DocumentAttribute(a) => {
            add("attribute.name", *a.name());
            if let Some(r) = a.raw_value() {
                add("attribute.raw_value", r);
            }
        }
        _ => {}
    }
    if let Some(a) = b.attrlist() {
        attrlist_spans("attrlist", a, v);
    }
    for n in b.nested_blocks() {
        block_spans(n, v);
    }
}

fn attrlist_touch<'a>(a: &'a Attrlist<'a>) -> usize {
    let mut n = a.roles().len() + a.options().len();
    n += a.id().map_or(0, str::len) + a.anchor().map_or(0, str::len) + a.block_style().map_or(0, str::len);
    for e in a.attributes() {
        n += e.name().map_or(0, str::len) + e.value().len() + e.shorthand_items().len();
        n += e.block_style().map_or(0, str::len) + e.id().map_or(0, str::len) + e.roles().len() + e.options().len();
        if let Some(nm) = e.name() {
            n += a.named_attribute(nm).map_or(0, |x| x.value().len());
        }
    }
    for i in 0..4 {
        n += a.nth_attribute(i).map_or(0, |x| x.value().len());
        n += a.named_or_positional_attribute("alt", i).map_or(0, |x| x.value().len());
    }
    n += a.has_option("x") as usize;
    n
}

fn block_touch<'a>(b: &'a Block<'a>) -> usize {
    let mut n = b.rendered_content().map_or(0, str::len);
    n += b.raw_context().len() + b.resolved_context().len();
    n += b.declared_style().map_or(0, str::len) + b.id().map_or(0, str::len);
    n += b.roles().len() + b.options().len() + b.title().map_or(0, str::len);
    n += b.has_option("x") as usize;
    n += format!("{:?}{:?}", b.content_model(), b.substitution_group()).len();
    if let Some(a) = b.attrlist() {
        n += attrlist_touch(a);
    }
    match b {
        Block::Media(m) => n += attrlist_touch(m.macro_attrlist()) + m.target().map_or(0, |t| t.len()),
        Block::Section(s) => {
            n += s.level() + s.section_title().len();
            n += s.section_number().map_or(0, |x| x.to_string().len() + x.components().len());
            n += format!("{:?}", s.section_type()).len();
        }
        Block::DocumentAttribute(a) => n += format!("{:?}", a.value()).len(),
        _ => {}
    }
    b.nested_blocks().map(block_touch).sum::<usize>() + n
}

/// Calls every accessor of the document; the result only keeps the calls from
/// being optimised away.
pub fn touch<'a>(doc: &'a Document<'a>) -> usize {
    let mut n = doc.nested_blocks().map(block_touch).sum::<usize>();
    let h = doc.header();
    n += h.title().map_or(0, str::len);
    for a in h.attributes() {
        n += format!("{:?}", a.value()).len();
    }
    if let Some(al) = h.author_line() {
        for a in al.authors() {
            n += a.name().len()
                + a.firstname().len()
                + a.middlename().map_or(0, str::len)
                + a.lastname().map_or(0, str::len)
                + a.email().map_or(0, str::len)
                + a.initials().len();
        }
    }
    if let Some(r) = h.revision_line() {
        n += r.revdate().len() + r.revnumber().map_or(0, str::len) + r.revremark().map_or(0, str::len);
    }
    for w in doc.warnings() {
        n += format!("{} {:?}", w.warning, w).len();
        n += doc.source_map().original_file_and_line(w.source.line()).map_or(0, |s| s.1);
    }
    let c = doc.catalog();
    n += c.len() + c.is_empty() as usize + c.resolve_id("Hello").map_or(0, |x| x.len());
    for b in blocks(doc) {
        if let Some(id) = b.id() {
            n += c.get_ref(id).map_or(0, |r| r.id.len()) + c.contains_id(id) as usize;
        }
    }
    n
}

pub fn blocks<'a>(doc: &'a Document<'a>) -> Vec<&'a Block<'a>> {
    fn rec<'a>(b: &'a Block<'a>, v: &mut Vec<&'a Block<'a>>) {
        v.push(b);
        for n in b.nested_blocks() {
            rec(n, v);
        }
    }
    let mut v = vec![];
    for b in doc.nested_blocks() {
        rec(b, &mut v);
    }
    v
}

pub fn warnings_of<'a>(doc: &'a Document<'a>) -> Vec<(String, Span<'a>)> {
    doc.warnings().map(|w| (format!("{:?}", w.warning), w.source)).collect()
}
