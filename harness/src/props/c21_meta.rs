//! C21: block metadata — title, anchor, attribute list — in any order belongs
//! to the block that follows; what only looks like it is text.

use asciidoc_parser::{Parser, blocks::IsBlock};

use crate::{docgen::*, engine::*, inl, props::c05_blocks};

fn any(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = Cfg { meta: 100, depth: 2, max: 3, tricky: 0, ..Cfg::default() };
    let d = doc(g, &c);
    let w = write_doc(g, &d);
    cx.input(w.src.clone());
    c05_blocks::check(&w.src, &w.want, cx)
}

// ------------------------------------------------------------- orphans ------

const WRAP: &[(&str, &str)] = &[("", ""), ("====\n", "\n===="), ("****\n", "\n****"), ("--\n", "\n--"), ("== S\n\n", ""), ("foo\n\n", ""), ("foo\n", "")];

fn orphans(g: &mut G, cx: &mut Cx) -> Outcome {
    let (pre, post) = g.of(WRAP);
    let mut lines: Vec<String> = vec![];
    let mut m = Meta::default();
    let mut st = St::default();
    while lines.is_empty() {
        m = meta(g, &Cfg { meta: 100, comments: false, ..Cfg::default() }, &mut st, STYLES);
        lines = m.lines.iter().map(|l| l.trim_end().to_string()).collect();
    }
    if pre == "foo\n" {
        // Only an attribute list or anchor ends a paragraph.
        lines.retain(|l| l.starts_with('['));
        if lines.is_empty() {
            lines.push("[.r]".into());
        }
    }
    // A style could ask for something else than text.
    let gap = if g.p(20) { "\n \n\n" } else { "\n\n" };
    let next = g.of(&["", "bar", "----\ncode\n----", "'''", "image::x.png[]", "// c"]);
    let src = format!("{pre}{}{}{post}", lines.join("\n"), if next.is_empty() { String::new() } else { format!("{gap}{next}") });
    cx.input(src.clone());
    cx.nontrivial(true);
    let _ = m;
    let mut p = Parser::default();
    let doc = p.parse(&src);
    let mut all = crate::walk::blocks(&doc);
    all.retain(|b| b.nested_blocks().next().is_none());
    if pre.starts_with("foo") {
        ensure_eq!(Some("foo"), all[0].rendered_content(), "paragraph before in {src:?}");
        all.remove(0);
    }
    if !next.is_empty() && next != "// c" {
        let last = all.pop().ok_or("no blocks")?;
        let kind = match next {
            "bar" => "paragraph",
            "'''" => "thematic_break",
            "image::x.png[]" => "image",
            _ => "listing",
        };
        ensure_eq!(kind.to_string(), last.raw_context().to_string(), "block after the gap in {src:?}");
        ensure!(last.title_source().is_none() && last.anchor().is_none() && last.attrlist().is_none() && last.id().is_none(), "the block after the gap got the metadata in {src:?}");
    }
    let text: Vec<&str> = all.iter().map(|b| b.rendered_content().unwrap_or("<none>")).collect();
    // Attribute lists and anchors on lines of their own separate paragraphs.
    let mut want: Vec<String> = vec![];
    let mut paras: Vec<Vec<&str>> = vec![];
    for l in &lines {
        if l.starts_with('[') || paras.is_empty() {
            paras.push(vec![l]);
        } else {
            paras.last_mut().unwrap().push(l);
        }
    }
    for x in &paras {
        want.push(x.join("\n"));
    }
    ensure_eq!(want.len(), text.len(), "paragraphs made from the lines without a block in {src:?}: {text:?}");
    for (b, w) in all.iter().zip(&want) {
        ensure_eq!("paragraph".to_string(), b.raw_context().to_string(), "context in {src:?}");
        let got = match b {
            asciidoc_parser::blocks::Block::Simple(s) => s.content().original().data(),
            _ => "",
        };
        ensure_eq!(w.as_str(), got, "text in {src:?}");
        ensure!(b.title().is_none() && b.attrlist().is_none() && b.anchor().is_none(), "{got:?} has metadata in {src:?}");
        // Anchors become inline anchors; check the others.
        if !w.contains("[[") {
            ensure_eq!(render(w), b.rendered_content().unwrap_or("").to_string(), "rendered text in {src:?}");
        }
    }
    let n = doc.warnings().filter(|w| format!("{:?}", w.warning) == "WarningType::MissingBlockAfterTitleOrAttributeList").count();
    ensure_eq!(want.len(), n, "warnings about missing blocks in {src:?}");
    ensure_eq!(n, doc.warnings().count(), "warnings in {src:?}: {:?}", doc.warnings().collect::<Vec<_>>());
    Ok(())
}

// ---------------------------------------------------------- look-alikes -----

/// Lines that are no metadata, and end no paragraph.
fn lookalike(g: &mut G) -> String {
    let w = g.of(&["a", "foo", "x y", "a,b", "id", "\u{e9}"]);
    match g.u(13) {
        0 => format!(". {w}"),
        1 => format!("..{w}"),
        2 => format!("[{w}] {w}"),
        3 => format!("[{w}"),
        4 => format!("{w}]"),
        5 => format!("x[{w}]"),
        6 => ".".to_string() + "..",
        7 => format!("[{w}]."),
        8 => "...".to_string() + w,
        9 => format!("[[{w}]] x"),
        10 => format!("[[{w}"),
        11 => format!("({w})"),
        _ => format!("{{{w}]"),
    }
}

fn lookalikes(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut st = St::default();
    let m = meta(g, &Cfg { meta: 50, comments: false, ..Cfg::default() }, &mut st, STYLES);
    // Text lines: look-alikes and titles or entries that are not first.
    let mut ls = vec![lookalike(g)];
    for _ in 0..g.w(&[4, 3, 2]) {
        let l = if g.p(60) { lookalike(g) } else { g.of(&[".Title", ".a b", ":x: y", "== S", "foo"]).to_string() };
        ls.push(l);
    }
    let src = format!("{}{}", m.lines.iter().map(|l| format!("{l}\n")).collect::<String>(), ls.join("\n"));
    cx.input(src.clone());
    cx.nontrivial(!m.lines.is_empty() || ls.len() > 1);
    let mut p = Parser::default();
    let doc = p.parse(&src);
    let b: Vec<_> = doc.nested_blocks().collect();
    ensure_eq!(1, b.len(), "blocks in {src:?}");
    let d = dump_block(b[0]);
    ensure_eq!(m.title.as_deref().map(render), d.title, "title in {src:?}");
    ensure_eq!(m.anchor.as_ref().map(|a| a.0.clone()), d.anchor, "anchor in {src:?}");
    ensure_eq!(m.anchor.as_ref().and_then(|a| a.1.clone()), d.reftext, "reference text in {src:?}");
    ensure_eq!(m.at.as_ref().map(|a| a.all.clone()), d.attrs, "attributes in {src:?}");
    ensure_eq!("paragraph", d.raw.as_str(), "context in {src:?}");
    let text = ls.join("\n");
    let orig = match b[0] {
        asciidoc_parser::blocks::Block::Simple(s) => s.content().original().data(),
        _ => "",
    };
    ensure_eq!(text.as_str(), orig, "text in {src:?}");
    if !text.contains("[[") {
        ensure_eq!(inl::normal(&text, &|_| None, &mut inl::Notes::default()), d.text.unwrap_or_default(), "rendered in {src:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "any: more than one block; others: there is a metadata line besides the text",
        assumptions: &["At most one title, one anchor and one attribute list per block."],
        families: vec![
            Family { name: "any", run: any, quick: 200_000, thorough: 4_000_000 },
            Family { name: "orphans", run: orphans, quick: 150_000, thorough: 2_000_000 },
            Family { name: "lookalikes", run: lookalikes, quick: 150_000, thorough: 2_000_000 },
        ],
    }
}
