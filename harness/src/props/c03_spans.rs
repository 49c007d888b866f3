//! C03: spans name the place the text came from.  C04: nothing is lost — what
//! belongs to no block is blank or comment.

use asciidoc_parser::{
    Document, HasSpan, Parser, Span,
    blocks::{Block, IsBlock},
};

use crate::{docgen, engine::*, gens, walk};

/// The text before preprocessing equals the text parsed?
fn as_is(s: &str) -> bool {
    !(s.starts_with("include::") || s.starts_with("if") || s.contains("\ninclude::") || s.contains("\nif"))
}

fn line_col(src: &str, off: usize) -> (usize, usize) {
    let before = &src[..off];
    let line = 1 + before.matches('\n').count();
    let col = 1 + before.rsplit('\n').next().unwrap_or("").chars().count();
    (line, col)
}

fn faithful(src: &str, what: &str, s: Span<'_>) -> Outcome {
    let (a, b) = (s.byte_offset(), s.byte_offset() + s.data().len());
    ensure!(b <= src.len() && src.get(a..b) == Some(s.data()), "{what}: bytes {a}..{b} of the source are not {:?} but {:?}", s.data(), src.get(a..b.min(src.len())));
    ensure_eq!(line_col(src, a), (s.line(), s.col()), "{what}: line and column of {:?} at byte {a}", s.data());
    Ok(())
}

/// Position, then what is inside.
fn range(s: Span<'_>) -> (usize, usize) {
    (s.byte_offset(), s.byte_offset() + s.data().len())
}

fn within(inner: Span<'_>, outer: Span<'_>, what: &str) -> Outcome {
    // Blanks at the end may be cut off the outer one (an unclosed listing at
    // the end of its parent keeps them).
    let a = inner.byte_offset();
    let b = a + inner.data().trim_end().len();
    let (c, d) = range(outer);
    if a == b {
        // Nothing cannot be misplaced (a document of line ends only).
        return Ok(());
    }
    ensure!(c <= a && b <= d, "{what}: span {a}..{b} {:?} is not inside {c}..{d} {:?}", inner.data(), outer.data());
    Ok(())
}

fn nested<'a>(it: impl Iterator<Item = &'a Block<'a>>, outer: Span<'a>) -> Outcome {
    let mut last = outer.byte_offset();
    for b in it {
        let s = b.span();
        let name = b.raw_context().to_string();
        within(s, outer, &format!("{name} in its parent"))?;
        ensure!(s.byte_offset() >= last, "{name} at {} starts before the previous block ends ({last})", s.byte_offset());
        ensure!(!s.data().trim().is_empty(), "{name}: the span is blank");
        last = s.byte_offset() + s.data().len();
        for (w, x) in [("title", b.title_source()), ("anchor", b.anchor()), ("anchor reftext", b.anchor_reftext()), ("attrlist", b.attrlist().map(|a| a.span()))] {
            if let Some(x) = x {
                within(x, s, &format!("{w} of {name}"))?;
            }
        }
        match b {
            Block::Simple(x) => within(x.content().original(), s, "paragraph content")?,
            Block::RawDelimited(x) => within(x.content().original(), s, "raw content")?,
            Block::Section(x) => within(x.section_title_source(), s, "section title")?,
            Block::Media(x) => {
                within(x.macro_attrlist().span(), s, "macro attributes")?;
                if let Some(t) = x.target() {
                    within(*t, s, "macro target")?;
                }
            }
            Block::DocumentAttribute(x) => {
                within(*x.name(), s, "attribute name")?;
                if let Some(v) = x.raw_value() {
                    within(v, s, "attribute value")?;
                }
            }
            _ => {}
        }
        nested(b.nested_blocks(), s)?;
    }
    Ok(())
}

fn check_spans(src: &str, doc: &Document<'_>) -> Outcome {
    for r in walk::all_spans(doc) {
        faithful(src, r.what, r.span)?;
    }
    let h = doc.header();
    within(h.span(), doc.span(), "header in the document")?;
    if let Some(t) = h.title_source() {
        within(t, h.span(), "document title")?;
    }
    for a in h.attributes() {
        within(a.span(), h.span(), "header attribute")?;
        within(*a.name(), a.span(), "header attribute name")?;
        if let Some(v) = a.raw_value() {
            within(v, a.span(), "header attribute value")?;
        }
    }
    for c in h.comments() {
        within(*c, h.span(), "header comment")?;
    }
    if let Some(a) = h.author_line() {
        within(a.span(), h.span(), "author line")?;
    }
    if let Some(r) = h.revision_line() {
        within(r.span(), h.span(), "revision line")?;
    }
    let end = h.span().byte_offset() + h.span().data().len();
    for b in doc.nested_blocks() {
        ensure!(b.span().byte_offset() >= end, "{} starts inside the header", b.raw_context().as_ref());
    }
    nested(doc.nested_blocks(), doc.span())
}

fn spans(g: &mut G, cx: &mut Cx) -> Outcome {
    let src = source(g, cx);
    cx.input(src.clone());
    if !as_is(&src) {
        return Ok(());
    }
    let mut p = Parser::default();
    let doc = p.parse(&src);
    cx.nontrivial(walk::blocks(&doc).len() > 1);
    check_spans(&src, &doc).map_err(|e| format!("{e}\n  in {src:?}"))
}

fn source(g: &mut G, cx: &mut Cx) -> String {
    let mut s = match g.w(&[6, 3, 2]) {
        0 => {
            cx.label("line soup");
            gens::doc_soup(g, 14)
        }
        1 => {
            cx.label("structured");
            let c = docgen::Cfg { meta: 60, ..docgen::Cfg::default() };
            let d = docgen::doc(g, &c);
            docgen::write_doc(g, &d).src
        }
        _ => {
            cx.label("structured, damaged");
            let d = docgen::doc(g, &docgen::Cfg { meta: 60, ..docgen::Cfg::default() });
            let s = docgen::write_doc(g, &d).src;
            let mut l: Vec<String> = s.split('\n').map(str::to_string).collect();
            for _ in 0..g.range(1, 3) {
                let i = g.u(l.len());
                match g.u(4) {
                    0 => {
                        l.remove(i);
                    }
                    1 => l.insert(i, gens::line_soup(g)),
                    2 => {
                        let j = g.u(l.len());
                        l.swap(i, j);
                    }
                    _ => {
                        let c = gens::any_char(g);
                        l[i].push(c);
                    }
                }
                if l.is_empty() {
                    l.push(String::new());
                }
            }
            l.join("\n")
        }
    };
    // A carriage return is part of a line end or it is not here.
    s = s.replace("\r\n", "\n").replace('\r', " ");
    if g.p(10) {
        s = s.replace('\n', "\r\n");
    }
    s
}

// ------------------------------------------------------------- C04 ---------

fn trivia(l: &str) -> bool {
    let t = l.trim_end_matches(['\r', ' ', '\t']);
    t.trim().is_empty() || (t.starts_with("//") && !t.starts_with("///"))
}

/// Lines (offset, text) of `src[a..b]` that no hole touches.
fn rest<'a>(src: &'a str, a: usize, b: usize, holes: &[(usize, usize)]) -> Vec<(usize, &'a str)> {
    let mut v = vec![];
    let mut pos = a;
    let mut add = |from: usize, to: usize| {
        if from >= to {
            return;
        }
        let mut o = from;
        for l in src[from..to].split('\n') {
            v.push((o, l));
            o += l.len() + 1;
        }
    };
    for (x, y) in holes {
        add(pos, *x);
        pos = pos.max(*y);
    }
    add(pos, b);
    v
}

fn line_of(off: usize, l: &(usize, &str)) -> bool {
    (l.0..=l.0 + l.1.len()).contains(&off)
}

/// Is this one of the block's metadata lines?
fn is_meta(b: &Block<'_>, l: &(usize, &str)) -> bool {
    [b.title_source(), b.anchor(), b.anchor_reftext(), b.attrlist().map(|a| a.span())].into_iter().flatten().any(|s| line_of(s.byte_offset(), l))
}

fn delimiter(l: &str) -> bool {
    let t = l.trim_end_matches(['\r', ' ']);
    t == "--" || (t.len() >= 4 && t.chars().all(|c| Some(c) == t.chars().next()) && t.starts_with(['=', '*', '_']))
}

fn covered(src: &str, b: &Block<'_>) -> Outcome {
    let (a, z) = range(b.span());
    let kids: Vec<(usize, usize)> = b.nested_blocks().map(|k| range(k.span())).collect();
    let name = b.raw_context().to_string();
    match b {
        Block::CompoundDelimited(_) => {
            let r = rest(src, a, z, &kids);
            let mut delims: Vec<&str> = vec![];
            for l in r {
                if trivia(l.1) || (kids.first().is_none_or(|k| l.0 < k.0) && delims.is_empty() && is_meta(b, &l)) {
                    continue;
                }
                ensure!(delimiter(l.1), "{name}: line {:?} belongs to no block", l.1);
                delims.push(l.1.trim_end());
            }
            ensure!(delims.len() == 2 && delims[0] == delims[1] || delims.len() == 1, "{name}: delimiter lines {delims:?}");
        }
        Block::Section(s) => {
            if s.section_title_source().data().trim().is_empty() {
                // A title of blanks that are no spaces; they are cut off.
                return Ok(());
            }
            let title = s.section_title_source().byte_offset();
            let mut seen = false;
            for l in rest(src, a, z, &kids) {
                if line_of(title, &l) {
                    seen = true;
                    continue;
                }
                ensure!(trivia(l.1) || (!seen && is_meta(b, &l)), "{name}: line {:?} belongs to no block", l.1);
            }
            ensure!(seen, "{name}: no title line");
        }
        Block::Preamble(_) => {
            for l in rest(src, a, z, &kids) {
                ensure!(trivia(l.1), "{name}: line {:?} belongs to no block", l.1);
            }
        }
        Block::Simple(s) => {
            // All but metadata and comment lines is content.
            let c = range(s.content().original());
            for l in rest(src, a, z, &[c]) {
                ensure!(trivia(l.1) || is_meta(b, &l), "{name}: line {:?} is not part of the content", l.1);
            }
        }
        Block::RawDelimited(r) => {
            let c = range(r.content().original());
            let mut delims: Vec<&str> = vec![];
            for l in rest(src, a, z, &[c]) {
                if l.1.trim().is_empty() || (delims.is_empty() && is_meta(b, &l)) || (delims.is_empty() && trivia(l.1)) {
                    continue;
                }
                delims.push(l.1.trim_end());
            }
            ensure!(delims.len() == 2 && delims[0] == delims[1] || delims.len() == 1, "{name}: lines that are not content: {delims:?}");
        }
        Block::Media(_) | Block::Break(_) | Block::DocumentAttribute(_) => {
            let own: Vec<_> = rest(src, a, z, &[]).into_iter().filter(|l| !trivia(l.1) && !is_meta(b, l)).collect();
            ensure!(own.len() == 1 || matches!(b, Block::DocumentAttribute(_)), "{name}: lines {own:?}");
        }
        _ => {}
    }
    for k in b.nested_blocks() {
        covered(src, k)?;
    }
    Ok(())
}

fn check_cover(src: &str, doc: &Document<'_>) -> Outcome {
    let mut holes = vec![];
    let h = doc.header();
    holes.push(range(h.span()));
    holes.extend(doc.nested_blocks().map(|b| range(b.span())));
    for l in rest(src, 0, src.len(), &holes) {
        ensure!(trivia(l.1), "line {:?} belongs neither to the header nor to a block", l.1);
    }
    // Each line of the header is a title, attribute, comment, author or
    // revision line.
    let mut parts: Vec<(usize, usize)> = h.attributes().map(|a| range(a.span())).collect();
    parts.extend(h.comments().map(|c| range(*c)));
    parts.extend(h.title_source().map(range));
    parts.extend(h.author_line().map(|a| range(a.span())));
    parts.extend(h.revision_line().map(|a| range(a.span())));
    let (a, z) = range(h.span());
    let mut o = a;
    for l in src[a..z].split('\n') {
        let e = o + l.len();
        ensure!(trivia(l) || parts.iter().any(|(x, y)| *x <= e && *y >= o), "header line {l:?} is no part of the header");
        o = e + 1;
    }
    for b in doc.nested_blocks() {
        covered(src, b)?;
    }
    Ok(())
}

fn cover(g: &mut G, cx: &mut Cx) -> Outcome {
    let src = source(g, cx);
    cx.input(src.clone());
    if !as_is(&src) {
        return Ok(());
    }
    let mut p = Parser::default();
    let doc = p.parse(&src);
    cx.nontrivial(walk::blocks(&doc).len() > 1);
    check_cover(&src, &doc).map_err(|e| format!("{e}\n  in {src:?}"))
}

pub fn spans_prop() -> Prop {
    Prop {
        id: "C03",
        rule: "the document has more than one block",
        assumptions: &["Documents without include directives (their spans refer to the preprocessed text, see C23)."],
        families: vec![Family { name: "spans", run: spans, quick: 400_000, thorough: 8_000_000 }],
    }
}

pub fn cover_prop() -> Prop {
    Prop {
        id: "C04",
        rule: "the document has more than one block",
        assumptions: &["Documents without include directives."],
        families: vec![Family { name: "cover", run: cover, quick: 400_000, thorough: 8_000_000 }],
    }
}
