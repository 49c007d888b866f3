//! C13: verbatim and raw text is kept character by character; comments leave
//! no trace.

use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock},
};

use crate::{docgen::*, engine::*, gens, inl, walk};

// ------------------------------------------------------------ verbatim -----

fn content(g: &mut G, ends: &[String]) -> Vec<String> {
    g.list(0, 6, |g| {
        let l: String = match g.w(&[5, 4, 3, 3]) {
            0 => g.of(RAWLINES).to_string(),
            1 => g.of(gens::BLOCK_LINES).to_string(),
            2 => gens::inline_soup(g, 6),
            _ => g.list(0, 12, gens::any_char).into_iter().collect(),
        };
        let l: String = l.split('\n').next().unwrap_or("").trim_end_matches('\r').to_string();
        let t = l.trim_end();
        if ends.iter().any(|e| e == t) || l.starts_with("include::") || l.starts_with("if") || l.starts_with("endif") { "z".into() } else { l }
    })
}

const KINDS: &[(char, &str)] = &[('-', "listing"), ('.', "literal"), ('+', "pass"), ('/', "comment")];

/// A raw block inside nothing, delimited blocks or a section.
fn verbatim(g: &mut G, cx: &mut Cx) -> Outcome {
    let (ch, name) = g.of(KINDS);
    let delim = ch.to_string().repeat(4 + g.w(&[5, 2, 1, 1]));
    let mut lines: Vec<String> = vec![];
    let mut around: Vec<String> = vec![];
    let titled = g.p(40);
    if titled {
        lines.push("= Doc".into());
        lines.push(":av: VALUE".into());
        lines.push(String::new());
    }
    let meta: &[&str] = g.of(&[&[][..], &[], &[".Title"], &["[#anid.r1]"], &["[[anc]]", ".Ti tle"], &["[source,rust]"], &["[%opt]", "[[q]]"]]);
    let mut path = 0;
    if g.p(25) {
        lines.push("== Sect".into());
        lines.push(String::new());
        path += 1;
    } else if g.p(50) {
        lines.push("before".into());
        if meta.first().is_some_and(|m| m.starts_with('.')) || g.p(50) {
            lines.push(String::new());
        }
    } else if !titled && name == "comment" {
        lines.push("before".into());
        lines.push(String::new());
    }
    for _ in 0..g.w(&[6, 3, 1]) {
        let d = g.of(&["====", "****", "____", "--", "=====", "******"]).to_string();
        if !around.contains(&d) {
            lines.push(d.clone());
            around.push(d);
            path += 1;
        }
    }
    lines.extend(meta.iter().map(|s| s.to_string()));
    let open = lines.len();
    let mut ends = around.clone();
    ends.push(delim.clone());
    lines.push(format!("{delim}{}", if g.p(10) { "  " } else { "" }));
    let body = content(g, &ends);
    lines.extend(body.iter().cloned());
    // The parents may be closed though this block is not.
    let closed = g.p(75);
    let close_parents = closed || g.p(50);
    if closed {
        lines.push(format!("{delim}{}", if g.p(10) { " " } else { "" }));
    }
    if close_parents {
        lines.extend(around.iter().rev().cloned());
    }
    let tail = closed;
    if tail {
        if g.p(50) {
            lines.push(String::new());
        }
        lines.push("after".into());
    }
    let mut src = lines.join("\n");
    if g.p(50) {
        src.push('\n');
    }
    cx.input(src.clone());
    cx.label(name);
    cx.label_if(!closed, "unterminated");
    cx.nontrivial(!body.is_empty());

    let mut p = Parser::default();
    let doc = p.parse(&src);
    let all = walk::blocks(&doc);
    let found: Vec<_> = all.iter().filter_map(|b| if let Block::RawDelimited(r) = b { Some((b, r)) } else { None }).collect();
    ensure!(found.len() == 1, "{} delimited blocks instead of one in {src:?}", found.len());
    let (b, r) = found[0];
    ensure_eq!(name.to_string(), r.raw_context().to_string(), "context in {src:?}");
    ensure_eq!(open + 1 - meta.len(), b.span().line(), "first line of the block in {src:?}");
    let want = body.join("\n");
    let got = r.content().original().data();
    if closed || !close_parents || around.is_empty() {
        // The line end before the closing line is not content; at the end of
        // the document blank lines may be cut off.
        if closed {
            ensure_eq!(want.as_str(), got, "content in {src:?}");
        } else {
            ensure_eq!(want.trim_end(), got.trim_end(), "content of the unclosed block in {src:?}");
        }
    } else {
        ensure_eq!(want.trim_end(), got.trim_end(), "content of the block that ends with its parent in {src:?}");
    }
    let kept = r.content().original().data();
    let expect = if matches!(name, "listing" | "literal") { inl::escape(kept) } else { kept.to_string() };
    ensure_eq!(expect.as_str(), r.rendered_content().unwrap_or("<none>"), "rendered content in {src:?}");
    // Nothing else came of it.
    let special = all.iter().filter(|b| !matches!(b, Block::RawDelimited(_))).count();
    let before = usize::from(lines.iter().any(|l| l == "before"));
    ensure_eq!(path + before + usize::from(tail), special, "other blocks in {src:?}");
    let warns: Vec<_> = doc.warnings().filter(|w| format!("{:?}", w.warning) == "WarningType::UnterminatedDelimitedBlock").collect();
    let missing = if closed { 0 } else { 1 + if close_parents { 0 } else { around.len() } };
    ensure_eq!(missing, warns.len(), "unterminated block warnings in {src:?}");
    if !closed {
        ensure!(warns.iter().any(|w| w.source.line() == open + 1 && w.source.data() == delim), "no warning at line {} in {src:?}", open + 1);
    }
    ensure_eq!(missing, doc.warnings().count(), "number of warnings in {src:?}: {:?}", doc.warnings().collect::<Vec<_>>());
    Ok(())
}

// ------------------------------------------------------------ comments -----

fn comment_line(g: &mut G) -> String {
    let t: String = match g.w(&[3, 4, 4, 1]) {
        0 => g.of(&["", " comment", "x", "[x]", " ----"]).to_string(),
        1 => g.of(gens::BLOCK_LINES).to_string(),
        2 => gens::inline_soup(g, 5),
        _ => g.list(0, 10, gens::any_char).into_iter().collect(),
    };
    let t = t.split(['\n', '\r']).next().unwrap_or("").trim_start_matches('/');
    format!("//{t}")
}

fn comment_block(g: &mut G, st: &St) -> Node {
    let mut ends = st.encl.clone();
    let mut delim = "/".repeat(4 + g.w(&[5, 1, 1]));
    while ends.contains(&delim) {
        delim.push('/');
    }
    ends.push(delim.clone());
    let lines = content(g, &ends);
    Node { meta: Meta::default(), kind: Kind::Raw { delim, lines, closed: true } }
}

/// The same nodes with comments in between.
fn sprinkle(g: &mut G, nodes: &[Node], st: &mut St, first_ok: bool, n: &mut usize) -> Vec<Node> {
    let mut out = vec![];
    for (i, x) in nodes.iter().enumerate() {
        if i > 0 || first_ok {
            for _ in 0..g.w(&[6, 2, 1]) {
                *n += 1;
                out.push(if g.p(60) { Node { meta: Meta::default(), kind: Kind::Comments(g.list(1, 2, comment_line)) } } else { comment_block(g, st) });
            }
        }
        let mut x = x.clone();
        for k in (1..=x.meta.lines.len()).rev() {
            if g.p(15) {
                let l = comment_line(g);
                x.meta.lines.insert(k, l);
                *n += 1;
            }
        }
        match &mut x.kind {
            Kind::Para(ls) => {
                for k in (1..=ls.len()).rev() {
                    if g.p(20) {
                        let l = comment_line(g);
                        ls.insert(k, l);
                        *n += 1;
                    }
                }
            }
            Kind::Compound { delim, kids, .. } => {
                st.encl.push(delim.clone());
                *kids = sprinkle(g, kids, st, true, n);
                st.encl.pop();
            }
            Kind::Section { kids, .. } => *kids = sprinkle(g, kids, st, true, n),
            _ => {}
        }
        out.push(x);
    }
    out
}

/// Dump without comments and places.
fn strip(v: Vec<D>) -> Vec<D> {
    v.into_iter()
        .filter(|d| d.raw != "comment")
        .map(|mut d| {
            d.line = 0;
            d.span.clear();
            d.kids = strip(std::mem::take(&mut d.kids));
            d
        })
        .collect()
}

struct Seen {
    dump: Vec<D>,
    attrs: String,
    ids: usize,
    warnings: Vec<(String, String)>,
}

fn look(src: &str) -> Seen {
    let mut p = Parser::default();
    let (dump, ids, warnings) = {
        let doc = p.parse(src);
        let w = doc.warnings().map(|w| (format!("{:?}", w.warning), w.source.data().lines().next().unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" "))).collect();
        (strip(dump_doc(&doc)), doc.catalog().len(), w)
    };
    let attrs = ["x", "y-z", "foo", "name", "author", "doctitle", "revnumber", "idprefix", "sectnums", "other"].iter().map(|a| format!("{a}={:?} ", p.attribute_value(a))).collect();
    Seen { dump, attrs, ids, warnings }
}

fn comments(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = Cfg { comments: false, max: 4, ..Cfg::default() };
    let d = doc(g, &c);
    let mut n = 0;
    let mut st = St::default();
    // Before the first block a comment block would be in the header's place.
    let nodes = sprinkle(g, &d.nodes, &mut st, d.title.is_some(), &mut n);
    let (mut a, mut b) = (write_doc(g, &Doc { title: d.title.clone(), nodes: d.nodes.clone() }).src, write_doc(g, &Doc { title: d.title.clone(), nodes }).src);
    if d.title.is_some() && g.p(60) {
        // Comments within the header.
        let head: Vec<String> = g.list(1, 3, |g| g.of(&[":foo: bar", ":x: y {foo}", ":name: a \\\nb", ":!other:", ":idprefix: p"]).to_string());
        let author = if g.p(40) { vec!["Ann Lee <a@b.c>".to_string()] } else { vec![] };
        let mut plain: Vec<String> = vec![];
        let mut with: Vec<String> = vec![];
        for l in [vec![a.lines().next().unwrap_or("").to_string()], author, head].concat() {
            plain.push(l.clone());
            if g.p(30) {
                with.push(comment_line(g));
                n += 1;
            }
            with.push(l);
        }
        if g.p(30) {
            with.push(comment_line(g));
            n += 1;
        }
        let cut = |s: &str| s.split_once('\n').map_or(String::new(), |x| x.1.to_string());
        a = format!("{}\n{}", plain.join("\n"), cut(&a));
        b = format!("{}\n{}", with.join("\n"), cut(&b));
    }
    cx.input(b.clone());
    cx.nontrivial(n > 0);
    let (x, y) = (look(&a), look(&b));
    if let Some(m) = diff(&x.dump, &y.dump, "") {
        return Err(format!("{m}\n  without comments: {a:?}\n  with comments:    {b:?}"));
    }
    ensure_eq!(x.attrs, y.attrs, "attributes after the parse\n  without comments: {a:?}\n  with comments: {b:?}");
    ensure_eq!(x.ids, y.ids, "catalog entries\n  without comments: {a:?}\n  with comments: {b:?}");
    ensure_eq!(x.warnings, y.warnings, "warnings\n  without comments: {a:?}\n  with comments: {b:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "verbatim: the block has content; comments: at least one comment was inserted",
        assumptions: &["Content has no line that equals a delimiter of the block or of a block around it, and no preprocessor directive (C23)."],
        families: vec![
            Family { name: "verbatim", run: verbatim, quick: 300_000, thorough: 6_000_000 },
            Family { name: "comments", run: comments, quick: 200_000, thorough: 4_000_000 },
        ],
    }
}
