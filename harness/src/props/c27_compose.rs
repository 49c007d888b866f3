//! C27: a block is read the same wherever it stands: documents put one after
//! the other, or into a delimited block or section, keep their blocks.

use asciidoc_parser::{
    Document, Parser,
    blocks::{Block, IsBlock, SectionType},
};

use crate::{docgen, engine::*, gens, sem, walk};

const V: sem::View = sem::View { trim: true, blank: false, line: None, spans: true };

fn at(line: usize) -> sem::View {
    sem::View { line: Some(line), ..V }
}

/// A body: soup or a generated tree. With `entries`, also attribute entries.
fn part(g: &mut G, entries: bool) -> String {
    let src = if g.p(40) {
        let mut d = docgen::doc(g, &docgen::Cfg { sections: entries, attrs: false, depth: 2, ..docgen::Cfg::default() });
        d.title = None;
        docgen::write_doc(g, &d).src
    } else {
        gens::doc_soup(g, 9)
    };
    let mut out: Vec<&str> = vec![];
    let src = src.replace("\r\n", "\n").replace('\r', "");
    for l in src.split('\n') {
        if l.starts_with("include::") || l.starts_with("= ") && !entries || (!entries && l.starts_with(':')) {
            continue;
        }
        out.push(l);
    }
    out.join("\n")
}

fn ids(d: &Document<'_>) -> Vec<String> {
    let mut v = vec![];
    for b in walk::blocks(d) {
        v.extend(b.id().map(str::to_string));
        v.extend(b.anchor().map(|a| a.data().to_string()));
        if let Block::Section(s) = b {
            v.extend(s.id().map(str::to_string));
        }
    }
    v
}

/// Does nothing in the document reach beyond its end?
fn closed(d: &Document<'_>) -> bool {
    !walk::warnings_of(d).iter().any(|w| w.0.contains("Unterminated") || w.0.contains("MissingBlockAfter"))
        && !walk::blocks(d).iter().any(|b| match b {
            Block::Section(s) => s.section_type() != SectionType::Discrete,
            Block::DocumentAttribute(_) => true,
            _ => false,
        })
}

/// Top-level blocks; those of the preamble count as such.
fn flat<'a>(d: &'a Document<'a>) -> Vec<&'a Block<'a>> {
    d.nested_blocks().flat_map(|b| if matches!(b, Block::Preamble(_)) { b.nested_blocks().collect() } else { vec![b] }).collect()
}

fn check(want: &[String], got: &[String], src: &str) -> Outcome {
    match sem::diff(want, got) {
        None => Ok(()),
        Some(m) => Err(format!("{m}\n  in {src:?}")),
    }
}

/// Several bodies, one after the other.
fn concat(g: &mut G, cx: &mut Cx) -> Outcome {
    let n = g.range(2, 3);
    let mut all = String::from("x\n\n");
    let mut blocks = vec![];
    let mut warns = vec![];
    let mut seen: Vec<String> = vec![];
    let mut count = 0;
    for i in 0..n {
        let last = i + 1 == n;
        let src = part(g, last);
        let mut p = Parser::default();
        let alone = format!("x\n\n{src}\n\n");
        let d = p.parse(&alone);
        let these = ids(&d);
        if (!last && !closed(&d)) || these.iter().any(|x| seen.contains(x)) {
            cx.label(if last { "same IDs" } else { "not closed" });
            continue;
        }
        seen.extend(these);
        let base = all.matches('\n').count();
        // Lines of `src` start after `base` lines here, after two lines there.
        let off = 2isize - base as isize;
        let shift = |mut s: String| {
            if let Some(i) = s.rfind(" line=") {
                let tail = &s[i + 6..];
                let k = tail.find(' ').unwrap_or(tail.len());
                let l: isize = tail[..k].parse().unwrap();
                s = format!("{} line={}{}", &s[..i], l - off, &tail[k..]);
            }
            s
        };
        for b in flat(&d).into_iter().skip(1) {
            count += 1;
            let mut o = vec![];
            sem::block(sem::View { line: Some(0), spans: false, ..V }, b, 0, &mut o);
            blocks.extend(o.into_iter().map(shift));
        }
        warns.extend(sem::warnings(sem::View { line: Some(0), ..V }, &d).into_iter().map(shift));
        all.push_str(&src);
        all.push_str(g.of(&["\n\n", "\n\n\n", "\n  \n"]));
    }
    cx.input(all.clone());
    cx.nontrivial(count >= 2);
    let mut p = Parser::default();
    let d = p.parse(&all);
    let v = sem::View { line: Some(0), spans: false, ..V };
    let mut got = vec![];
    for b in flat(&d).into_iter().skip(1) {
        sem::block(v, b, 0, &mut got);
    }
    check(&blocks, &got, &all)?;
    check(&warns, &sem::warnings(sem::View { line: Some(0), ..V }, &d), &all)
}

/// A body inside of something else.
fn embed(g: &mut G, cx: &mut Cx) -> Outcome {
    let src = part(g, false);
    let mut p = Parser::default();
    let alone = format!("x\n\n{src}\n\n");
    let d = p.parse(&alone);
    let open = walk::blocks(&d).iter().any(|b| match b {
        Block::Section(s) => s.section_type() != SectionType::Discrete,
        Block::DocumentAttribute(_) => true,
        _ => false,
    });
    if open || walk::warnings_of(&d).iter().any(|w| w.0.contains("MissingBlockAfter")) {
        cx.label("not closed");
        return Ok(());
    }
    let want: Vec<String> = sem::body(at(0), &d);
    let wwant = sem::warnings(at(0), &d);
    let (pre, post, _) = g.of(&[
        ("=========\n", "\n=========", 1),
        ("*********\n", "\n*********\n\nmore", 1),
        ("_________\n\n", "\n\n_________", 1),
        ("[#zz.q%r]\n.Title\n=========\n", "\n=========\n", 1),
        ("x y\n\n[abstract]\n==========\n", "\n==========", 1),
        ("=========\n*********\n", "\n*********\n=========", 2),
        ("== S\n\n", "\n", 1),
        ("= Doc\n\n", "\n\n== S", 1),
        ("= Doc\n:yqy: z\n\n== S\n\n=== T\n\n", "\n\n== U\n\nz", 2),
        ("* a\n\n--------\n--------\n\n_________\n", "\n_________", 1),
    ]);
    // The enclosing delimiter must not be a line of the body.
    if post.lines().any(|l| l.len() > 4 && src.lines().any(|m| m.trim_end() == l)) {
        cx.label("delimiter inside");
        return Ok(());
    }
    let before = pre.matches('\n').count();
    // An x paragraph goes first, as when alone.
    let all = format!("{pre}x\n\n{src}{post}");
    cx.input(all.clone());
    cx.nontrivial(want.len() >= 2);
    // What is left open at the end takes the rest of the section.
    if pre.contains("== S") || pre.starts_with("= Doc") {
        // A styled paragraph that looks like a heading ends a section.
        let heading = |b: &&Block<'_>| matches!(b, Block::Simple(s) if s.content().original().data().starts_with(['=', '#']));
        if !closed(&d) || walk::blocks(&d).iter().any(heading) {
            cx.label("not closed");
            return Ok(());
        }
    }
    let mut q = Parser::default();
    let e = q.parse(&all);
    let mut got = vec![];
    // Find the block whose first nested block is the x paragraph.
    let all_blocks = walk::blocks(&e);
    let host = all_blocks.iter().find(|b| b.nested_blocks().next().is_some_and(|k| matches!(k, Block::Simple(_)) && k.span_data() == "x"));
    let Some(host) = host else { return Err(format!("no block holds the body in {all:?}")) };
    for k in host.nested_blocks() {
        if matches!(k, Block::Section(s) if s.section_type() != SectionType::Discrete) {
            break;
        }
        sem::block(at(before), k, 0, &mut got);
    }
    check(&want, &got, &all)?;
    check(&wwant, &sem::warnings(at(before), &e), &all)
}

trait Data {
    fn span_data(&self) -> &str;
}
impl Data for Block<'_> {
    fn span_data(&self) -> &str {
        use asciidoc_parser::HasSpan;
        self.span().data()
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "the parts have at least two blocks",
        assumptions: &[],
        families: vec![Family { name: "concat", run: concat, quick: 150_000, thorough: 3_000_000 }, Family { name: "embed", run: embed, quick: 150_000, thorough: 3_000_000 }],
    }
}
