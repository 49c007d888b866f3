//! A complete, readable dump of a parsed document, for comparisons between
//! two parses.

use asciidoc_parser::{
    Document, HasSpan,
    attributes::Attrlist,
    blocks::{Block, IsBlock},
    document::InterpretedValue,
};

/// What the dump shows of texts and positions.
#[derive(Clone, Copy, Default)]
pub struct View {
    /// Text is shown with `\n` line ends and without blanks at line ends.
    pub trim: bool,
    /// Runs of blank lines within a text count as one.
    pub blank: bool,
    /// Line numbers of blocks, minus this offset; `None`: no positions.
    pub line: Option<usize>,
    /// Spans of blocks.
    pub spans: bool,
}

impl View {
    pub fn t(&self, s: &str) -> String {
        if !self.trim && !self.blank {
            return s.to_string();
        }
        let s = s.replace("\r\n", "\n");
        let mut out: Vec<&str> = vec![];
        for l in s.split('\n') {
            let l = l.trim_end_matches([' ', '\t', '\r']);
            if self.blank && l.is_empty() && out.last().is_none_or(|x| x.is_empty()) {
                continue;
            }
            out.push(l);
        }
        out.join("\n").trim_end().to_string()
    }
}

fn attrlist(v: View, a: Option<&Attrlist<'_>>) -> String {
    let Some(a) = a else { return "-".into() };
    a.attributes()
        .map(|e| format!("{:?}={:?}{:?}", e.name(), v.t(e.value()), e.shorthand_items()))
        .collect::<Vec<_>>()
        .join(" ; ")
}

pub fn value(x: &InterpretedValue) -> String {
    match x {
        InterpretedValue::Value(v) => format!("{v:?}"),
        InterpretedValue::Set => "set".into(),
        InterpretedValue::Unset => "unset".into(),
    }
}

pub fn block(v: View, b: &Block<'_>, ind: usize, out: &mut Vec<String>) {
    let mut s = " ".repeat(ind);
    let kind = match b {
        Block::Simple(x) => format!("simple {:?}", x.style()),
        Block::Media(m) => format!("media {:?} {:?} {}", m.type_(), m.target().map(|t| t.data().to_string()), attrlist(v, Some(m.macro_attrlist()))),
        Block::Section(x) => format!(
            "section {} {:?} {:?} id={:?} number={:?}",
            x.level(),
            x.section_type(),
            v.t(x.section_title()),
            x.id(),
            x.section_number().map(|n| n.to_string())
        ),
        Block::RawDelimited(r) => format!("raw {:?}", v.t(r.content().original().data())),
        Block::DocumentAttribute(a) => format!("attribute {} {}", a.name().data(), value(a.value())),
        _ => "other".into(),
    };
    s.push_str(&kind);
    s.push_str(&format!(
        " ctx={} rctx={} model={:?} style={:?} id={:?} title={:?} roles={:?} opts={:?} anchor={:?} reftext={:?} subs={:?} attrs=[{}] text={:?}",
        b.raw_context(),
        b.resolved_context(),
        b.content_model(),
        b.declared_style(),
        b.id(),
        b.title().map(|t| v.t(t)),
        b.roles(),
        b.options(),
        b.anchor().map(|a| a.data().to_string()),
        b.anchor_reftext().map(|a| a.data().to_string()),
        b.substitution_group(),
        attrlist(v, b.attrlist()),
        b.rendered_content().map(|t| v.t(t)),
    ));
    if let Some(o) = v.line {
        s.push_str(&format!(" line={}", b.span().line() as isize - o as isize));
    }
    if v.spans {
        s.push_str(&format!(" span={:?}", v.t(b.span().data())));
    }
    out.push(s);
    for n in b.nested_blocks() {
        block(v, n, ind + 1, out);
    }
}

pub fn header(v: View, d: &Document<'_>) -> Vec<String> {
    let h = d.header();
    let mut out = vec![format!("title {:?} {:?}", h.title().map(|t| v.t(t)), h.title_source().map(|t| t.data().to_string()))];
    for a in h.attributes() {
        out.push(format!("entry {} {}", a.name().data(), value(a.value())));
    }
    if let Some(al) = h.author_line() {
        for a in al.authors() {
            out.push(format!("author {:?} {:?} {:?} {:?} {:?} {:?}", a.name(), a.firstname(), a.middlename(), a.lastname(), a.email(), a.initials()));
        }
    }
    if let Some(r) = h.revision_line() {
        out.push(format!("revision {:?} {:?} {:?}", r.revnumber(), r.revdate(), r.revremark()));
    }
    for c in h.comments() {
        out.push(format!("comment {:?}", v.t(c.data())));
    }
    out
}

pub fn body(v: View, d: &Document<'_>) -> Vec<String> {
    let mut out = vec![];
    for b in d.nested_blocks() {
        block(v, b, 0, &mut out);
    }
    out
}

pub fn warnings(v: View, d: &Document<'_>) -> Vec<String> {
    d.warnings()
        .map(|w| {
            let mut s = format!("warning {:?} {:?}", w.warning, v.t(w.source.data()));
            if let Some(o) = v.line {
                s.push_str(&format!(" line={}", w.source.line() as isize - o as isize));
            }
            s
        })
        .collect()
}

/// The catalog, looked up by every ID that the document mentions.
pub fn catalog(v: View, d: &Document<'_>) -> Vec<String> {
    let c = d.catalog();
    let mut ids: Vec<String> = vec![];
    for b in crate::walk::blocks(d) {
        ids.extend(b.id().map(str::to_string));
        ids.extend(b.anchor().map(|a| a.data().to_string()));
        if let Block::Section(s) = b {
            ids.extend(s.id().map(str::to_string));
        }
    }
    ids.sort();
    ids.dedup();
    let mut out = vec![format!("catalog {}", c.len())];
    for id in ids {
        out.push(match c.get_ref(&id) {
            Some(e) => {
                let back = e.reftext.as_deref().and_then(|t| c.resolve_id(t));
                format!("ref {id:?} {:?} {:?} {:?} {back:?}", e.id, e.reftext.as_deref().map(|t| v.t(t)), e.ref_type)
            }
            None => format!("ref {id:?} none"),
        });
    }
    out
}

pub fn all(v: View, d: &Document<'_>) -> Vec<String> {
    [header(v, d), body(v, d), warnings(v, d), catalog(v, d)].concat()
}

/// First difference.
pub fn diff(want: &[String], got: &[String]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        let (a, b) = (want.get(i), got.get(i));
        if a != b {
            return Some(format!("expected: {}\n  actual:   {}", a.map_or("<nothing>", |s| s), b.map_or("<nothing>", |s| s)));
        }
    }
    None
}
