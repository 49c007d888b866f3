//! C33: all views of a block agree — the `Block` enum answers what the block
//! inside it answers, and every derived query follows from the attribute list,
//! anchor, title and content it is derived from.

use asciidoc_parser::{
    Document, HasSpan, Parser,
    attributes::{Attrlist, ElementAttribute},
    blocks::{Block, BreakType, ContentModel, IsBlock, MediaType, SectionType},
};

use crate::{docgen, engine::*, gens, walk};

/// The contexts the language defines.
const CONTEXTS: &[&str] = &[
    "admonition", "audio", "colist", "dlist", "document", "example", "floating_title", "image", "list_item", "listing", "literal", "olist", "open", "page_break", "paragraph", "pass", "preamble", "quote", "section", "sidebar",
    "table", "table_cell", "thematic_break", "toc", "ulist", "verse", "video",
];

fn is_built_in_context(s: &str) -> bool {
    CONTEXTS.contains(&s)
}

/// The answers of one view, as texts and places.
#[derive(Debug, PartialEq)]
struct View {
    model: ContentModel,
    rendered: Option<String>,
    resolved: String,
    raw: String,
    style: Option<String>,
    kids: Vec<(usize, usize)>,
    id: Option<String>,
    roles: Vec<String>,
    options: Vec<String>,
    title: Option<String>,
    title_source: Option<(usize, String)>,
    anchor: Option<(usize, String)>,
    reftext: Option<(usize, String)>,
    attrlist: Option<(usize, String)>,
    group: String,
    span: (usize, usize, usize, String),
}

fn own(s: Option<&str>) -> Option<String> {
    s.map(|s| s.to_string())
}

fn view<'a, B: IsBlock<'a> + HasSpan<'a>>(b: &'a B) -> View {
    let at = |s: asciidoc_parser::Span<'_>| (s.byte_offset(), s.data().to_string());
    let s = b.span();
    View {
        model: b.content_model(),
        rendered: own(b.rendered_content()),
        resolved: b.resolved_context().to_string(),
        raw: b.raw_context().to_string(),
        style: own(b.declared_style()),
        kids: b.nested_blocks().map(|k| (k.span().byte_offset(), k.span().data().len())).collect(),
        id: own(b.id()),
        roles: b.roles().iter().map(|s| s.to_string()).collect(),
        options: b.options().iter().map(|s| s.to_string()).collect(),
        title: own(b.title()),
        title_source: b.title_source().map(at),
        anchor: b.anchor().map(at),
        reftext: b.anchor_reftext().map(at),
        attrlist: b.attrlist().map(|a| at(a.span())),
        group: format!("{:?}", b.substitution_group()),
        span: (s.line(), s.col(), s.byte_offset(), s.data().to_string()),
    }
}

fn inner<'a>(b: &'a Block<'a>) -> (&'static str, View) {
    match b {
        Block::Simple(x) => ("simple", view(x)),
        Block::Media(x) => ("media", view(x)),
        Block::Section(x) => ("section", view(x)),
        Block::RawDelimited(x) => ("raw", view(x)),
        Block::CompoundDelimited(x) => ("compound", view(x)),
        Block::Preamble(x) => ("preamble", view(x)),
        Block::Break(x) => ("break", view(x)),
        Block::DocumentAttribute(x) => ("attribute", view(x)),
        _ => ("other", view(b)),
    }
}

fn attribute<'a>(a: &'a ElementAttribute<'a>, shorthand: bool) -> Outcome {
    let items = a.shorthand_items();
    let want_style = items.iter().find(|i| !i.starts_with(['#', '.', '%'])).copied();
    let of = |c: char| -> Vec<&str> { items.iter().filter(|i| i.starts_with(c)).map(|i| &i[1..]).collect() };
    ensure_eq!(want_style, a.block_style(), "style of the items {items:?}");
    ensure_eq!(of('#').first().copied(), a.id(), "id of the items {items:?}");
    ensure_eq!(of('.'), a.roles(), "roles of the items {items:?}");
    ensure_eq!(of('%'), a.options(), "options of the items {items:?}");
    ensure!(a.name().is_none() || items.is_empty(), "a named attribute has shorthand items {items:?}");
    let mut rest = a.value();
    for i in &items {
        let Some(k) = rest.find(i) else { return Err(format!("shorthand item {i:?} is not in the value {:?}", a.value())) };
        rest = &rest[k + i.len()..];
    }
    ensure!(shorthand || items.is_empty(), "shorthand items {items:?} outside the first position");
    Ok(())
}

fn list<'a>(l: &'a Attrlist<'a>, cx: &mut Cx) -> Outcome {
    let all: Vec<&ElementAttribute> = l.attributes().collect();
    let pos: Vec<&ElementAttribute> = all.iter().filter(|a| a.name().is_none()).copied().collect();
    for (n, p) in pos.iter().enumerate() {
        ensure!(l.nth_attribute(n + 1).is_some_and(|a| std::ptr::eq(a, *p)), "attribute number {} is not the one listed", n + 1);
    }
    ensure!(l.nth_attribute(0).is_none() && l.nth_attribute(pos.len() + 1).is_none(), "there is no attribute at number 0 or past the end");
    for a in &all {
        attribute(a, pos.first().is_some_and(|p| std::ptr::eq(*p, *a)))?;
        if let Some(n) = a.name() {
            let first = all.iter().find(|x| x.name() == Some(n)).unwrap();
            ensure!(l.named_attribute(n).is_some_and(|x| std::ptr::eq(x, *first)), "attribute named {n:?} is not the first of that name");
            ensure!(l.named_or_positional_attribute(n, 1).is_some_and(|x| std::ptr::eq(x, *first)), "the name {n:?} does not come first");
        }
    }
    for n in ["\u{1F}", "zz-none"] {
        if all.iter().all(|a| a.name() != Some(n)) {
            ensure!(l.named_attribute(n).is_none(), "there is an attribute {n:?}");
            for k in 0..=pos.len() + 1 {
                let a = l.named_or_positional_attribute(n, k).map(|a| a as *const _);
                ensure!(a == l.nth_attribute(k).map(|a| a as *const _), "number {k} is not found by name or number");
            }
        }
    }
    let named = |n: &str| all.iter().find(|a| a.name() == Some(n)).map(|a| a.value());
    let first = pos.first();
    ensure_eq!(first.and_then(|a| a.block_style()), l.block_style(), "style");
    let id = l.anchor().or_else(|| first.and_then(|a| a.id())).or_else(|| named("id"));
    ensure_eq!(id, l.id(), "id");
    let mut roles: Vec<&str> = first.map(|a| a.roles()).unwrap_or_default();
    roles.extend(named("role").unwrap_or("").split(' ').filter(|r| !r.is_empty()));
    ensure_eq!(roles, l.roles(), "roles");
    let mut opts: Vec<&str> = first.map(|a| a.options()).unwrap_or_default();
    for n in ["opts", "options"] {
        opts.extend(named(n).unwrap_or("").split(',').filter(|r| !r.is_empty()));
    }
    ensure_eq!(opts, l.options(), "options");
    for o in &opts {
        ensure!(l.has_option(o), "option {o:?} is listed but not there");
        let longer = format!("{o}x");
        ensure!(opts.contains(&longer.as_str()) == l.has_option(&longer), "option {longer:?}");
    }
    ensure!(!l.has_option("zz-none") || opts.contains(&"zz-none"), "an option that is not listed");
    cx.label_if(!all.is_empty(), "attributes");
    cx.label_if(!opts.is_empty(), "options");
    cx.label_if(roles.len() > 1, "roles");
    Ok(())
}

fn block<'a>(b: &'a Block<'a>, cx: &mut Cx) -> Outcome {
    let v = view(b);
    let (kind, mut w) = inner(b);
    if let Block::Section(_) = b {
        // The enum leaves out generated IDs (the tests pin it).
        let own = b.anchor().map(|a| a.data()).or_else(|| b.attrlist().and_then(|l| l.id()));
        ensure!(w.id.is_some() || v.id.is_none(), "the section lost its id {:?}", v.id);
        ensure!(own.is_none() || own == w.id.as_deref(), "the section has the id {:?}, not its own {own:?}", w.id);
        if own.is_none() && v.id.is_none() {
            w.id = None;
        }
    }

    if v != w {
        return Err(format!("the {kind} block and the enum around it differ\n  enum:  {v:?}\n  block: {w:?}"));
    }
    cx.label(kind);
    ensure!(b.clone() == *b, "a copy of a {kind} block differs from it");
    // What is derived from the attribute list, anchor and context.
    let l = b.attrlist();
    if let Some(l) = l {
        list(l, cx)?;
    }
    let anchor = b.anchor().map(|a| a.data());
    ensure_eq!(own(l.and_then(|l| l.block_style())), v.style, "declared style");
    let want: Vec<String> = l.map(|l| l.roles()).unwrap_or_default().iter().map(|s| s.to_string()).collect();
    ensure_eq!(want, v.roles, "roles");
    let want: Vec<String> = l.map(|l| l.options()).unwrap_or_default().iter().map(|s| s.to_string()).collect();
    ensure_eq!(want, v.options, "options");
    for o in &v.options {
        ensure!(b.has_option(o), "option {o:?} is listed but not there");
    }
    ensure!(b.has_option("zz-none") == v.options.iter().any(|o| o == "zz-none"), "an option that is not listed");
    let builtin = v.style.as_deref().filter(|s| is_built_in_context(s));
    ensure_eq!(builtin.unwrap_or(&v.raw), v.resolved.as_str(), "resolved context for the style {:?}", v.style);
    ensure!(is_built_in_context(&v.raw) || kind == "attribute" || v.raw == "comment", "{kind}: the context {:?} is not a built-in one", v.raw);
    if kind != "section" {
        ensure_eq!(own(anchor.or_else(|| l.and_then(|l| l.id()))), v.id, "{kind}: id");
    }
    ensure!(v.reftext.is_none() || v.anchor.is_some(), "{kind}: reference text without an anchor");
    ensure_eq!(v.title.is_some(), v.title_source.is_some(), "{kind}: title {:?} and its source {:?}", v.title, v.title_source);
    // What the model says about content and nested blocks.
    let has_text = matches!(v.model, ContentModel::Simple | ContentModel::Verbatim | ContentModel::Raw);
    ensure_eq!(has_text, v.rendered.is_some(), "{kind}: content for the model {:?}", v.model);
    ensure!(v.kids.is_empty() || v.model == ContentModel::Compound, "{kind}: nested blocks in the model {:?}", v.model);
    match b {
        Block::Simple(x) => {
            ensure_eq!(own(Some(x.content().rendered())), v.rendered, "content");
            ensure_eq!(x.content().rendered().is_empty(), x.content().is_empty(), "content is empty");
            ensure_eq!(ContentModel::Simple, v.model, "model");
        }
        Block::RawDelimited(x) => {
            ensure_eq!(own(Some(x.content().rendered())), v.rendered, "content");
            ensure_eq!(x.content().rendered().is_empty(), x.content().is_empty(), "content is empty");
            let m = match v.raw.as_str() {
                "listing" | "literal" => ContentModel::Verbatim,
                _ => ContentModel::Raw,
            };
            // A comment block is verbatim or raw, as it has no output.
            if v.raw != "comment" {
                ensure_eq!(m, v.model, "model of {:?}", v.raw);
            }
        }
        Block::Section(x) => {
            let n = x.section_number();
            ensure_eq!("section", v.raw, "context");
            if let Some(n) = n {
                ensure!(x.section_type() == SectionType::Normal || x.section_type() == SectionType::Appendix, "a discrete heading has the number {n}");
                ensure!(!n.components().is_empty(), "a number without components");
                if x.section_type() == SectionType::Normal {
                    let want: Vec<String> = n.components().iter().map(|c| c.to_string()).collect();
                    ensure_eq!(want.join("."), n.to_string(), "components and text of the number");
                }
            }
        }
        Block::Media(x) => {
            let want = match x.type_() {
                MediaType::Image => "image",
                MediaType::Video => "video",
                MediaType::Audio => "audio",
            };
            ensure_eq!(want, v.raw, "context of the medium");
            list(x.macro_attrlist(), cx)?;
        }
        Block::Break(x) => {
            let want = match x.type_() {
                BreakType::Thematic => "thematic_break",
                BreakType::Page => "page_break",
            };
            ensure_eq!(want, v.raw, "context of the break");
        }
        Block::DocumentAttribute(x) => {
            ensure_eq!("attribute", v.raw, "context");
            ensure!(v.title.is_none() && v.anchor.is_none() && l.is_none(), "an attribute entry with metadata");
            ensure!(!x.name().data().is_empty(), "an attribute entry without a name");
        }
        _ => {}
    }
    if let Some(t) = &v.title_source {
        let s = b.span();
        ensure!(t.0 >= s.byte_offset() && t.0 + t.1.len() <= s.byte_offset() + s.data().len(), "{kind}: the title is outside of the block");
    }
    Ok(())
}

fn check(src: &str, cx: &mut Cx) -> Outcome {
    let mut p = Parser::default();
    let doc = p.parse(src);
    judge(&doc, cx)
}

fn judge<'a>(doc: &'a Document<'a>, cx: &mut Cx) -> Outcome {
    ensure_eq!(ContentModel::Compound, doc.content_model(), "model of the document");
    ensure_eq!("document".to_string(), doc.raw_context().to_string(), "context of the document");
    ensure_eq!("document".to_string(), doc.resolved_context().to_string(), "resolved context of the document");
    ensure!(
        doc.title().is_none() && doc.title_source().is_none() && doc.anchor().is_none() && doc.anchor_reftext().is_none() && doc.attrlist().is_none() && doc.id().is_none(),
        "the document as a block has metadata"
    );
    ensure!(doc.rendered_content().is_none() && doc.roles().is_empty() && doc.options().is_empty() && doc.declared_style().is_none(), "the document as a block has content or attributes");
    let h = doc.header();
    ensure!(h.title().is_none() || h.title_source().is_some(), "a title without a source");
    let c = doc.catalog();
    ensure_eq!(c.len() == 0, c.is_empty(), "catalog is empty");
    let bs = walk::blocks(doc);
    for b in &bs {
        if let Some(id) = b.id() {
            ensure!(c.contains_id(id), "the id {id:?} of a block is not in the catalog");
        }
        block(b, cx)?;
    }
    cx.nontrivial(bs.iter().any(|b| b.attrlist().is_some() || b.title().is_some() || b.anchor().is_some()));
    Ok(())
}

fn tree(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = docgen::Cfg { depth: 4, ..docgen::Cfg::default() };
    let d = docgen::doc(g, &c);
    let w = docgen::write_doc(g, &d);
    cx.input(w.src.clone());
    check(&w.src, cx)
}

fn soup(g: &mut G, cx: &mut Cx) -> Outcome {
    let s = gens::doc_soup(g, 12);
    cx.input(s.clone());
    check(&s, cx)
}

const ITEMS: &[&str] = &[
    "style", "#id", ".role", "%opt", ".a.b", "source#x.y%z", "sidebar", "quote", "id=n1", "role=r1", "role=\"r1 r2\"", "role= r ", "options=\"o1,,o2\"", "opts=o3", "options=\",\"", "opts=\"\"", "id=", "\"quoted\"", "'#q'", "", " ", "a=b", "a=c",
    "caf\u{e9}", ".", "#", "%", "#a#b", ".r%", "style%", "{sp}", "discrete", "appendix", "pass", "listing",
];
const AFTER: &[&str] = &[
    "text", "====\nx\n====", "----\nx\n----", "== Title", "image::x.png[]", "image::x.png[alt,1,2]", "video::v[opts=a]", "'''", "<<<", "--\nx\n--", "++++\nx\n++++", "****\n****", "....\n....", "=== Deep", "== Other\n\n== More", " literal", "audio::a[.r]",
];

/// Metadata lines of every kind before blocks of every kind.
fn meta(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut s = String::new();
    if g.p(20) {
        s.push_str(":sectnums:\n\n");
    }
    for _ in 0..g.range(1, 4) {
        for _ in 0..g.range(0, 3) {
            match g.u(6) {
                0 => s.push_str(&format!(".{}\n", g.of(&["T", "*bold* t", "a & b", "{empty}"]))),
                1 => s.push_str(&format!("[[{}{}]]\n", g.of(&["a1", "b2", "_x", "y:z"]), g.of(&["", ",Text", ", t"]))),
                _ => {
                    let l = g.list(1, 4, |g| g.of(ITEMS)).join(g.of(&[",", ", "]));
                    s.push_str(&format!("[{l}]\n"));
                }
            }
        }
        s.push_str(g.of(AFTER));
        s.push_str(g.of(&["\n\n", "\n\n\n"]));
    }
    cx.input(s.clone());
    check(&s, cx)
}

pub fn prop() -> Prop {
    Prop {
        id: "C33",
        rule: "some block has an attribute list, title or anchor",
        assumptions: &[],
        families: vec![
            Family { name: "tree", run: tree, quick: 150_000, thorough: 3_000_000 },
            Family { name: "soup", run: soup, quick: 150_000, thorough: 3_000_000 },
            Family { name: "meta", run: meta, quick: 250_000, thorough: 5_000_000 },
        ],
    }
}
