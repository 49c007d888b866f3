//! C30: every irregularity is reported by exactly one warning that names the
//! text concerned, and regular documents are not complained about.

use asciidoc_parser::{Parser, parser::ModificationContext};

use crate::{docgen, engine::*, gens};

/// A warning that is expected: kind, line and text (or the text's beginning).
#[derive(Clone, Debug)]
struct W {
    kind: String,
    line: usize,
    text: String,
    prefix: bool,
}

struct Doc {
    lines: Vec<String>,
    want: Vec<W>,
    st: docgen::St,
    ids: Vec<String>,
    refs: usize,
}

fn cfg() -> docgen::Cfg {
    docgen::Cfg { depth: 1, max: 2, sections: false, ..docgen::Cfg::default() }
}

impl Doc {
    fn put(&mut self, l: impl Into<String>) {
        self.lines.push(l.into());
    }
    fn gap(&mut self, g: &mut G) {
        for _ in 0..g.w(&[0, 6, 1]) {
            self.put(if g.p(6) { "  " } else { "" });
        }
    }
    /// Expects a warning on the next line that is put.
    fn warn(&mut self, kind: &str, text: impl Into<String>) {
        self.want.push(W { kind: format!("WarningType::{kind}"), line: self.lines.len() + 1, text: text.into(), prefix: false });
    }
}

const LINE: &[&str] = &["text", "foo *bar*", "caf\u{e9} x", "\u{4e2d}\u{6587}", "a & b"];

/// An attribute list (without brackets) and the warnings about it, each of
/// which names the whole list.
fn attrlist(g: &mut G, block: bool) -> (String, Vec<&'static str>) {
    let mut s = String::new();
    let mut w = vec![];
    let mut first = true;
    let mut posit = 0;
    for i in 0..g.range(1, 4) {
        if i > 0 {
            let commas = 1 + g.w(&[5, 2, 1]);
            s.push_str(&",".repeat(commas));
            for _ in 1..commas {
                w.push("EmptyAttributeValue");
            }
            if g.p(30) {
                s.push(' ');
            }
        }
        let x = if first && block { g.u(8) } else { 5 + g.u(4) };
        match x {
            // Shorthand in the first position.
            0 | 1 => {
                let (t, n) = g.of(&[
                    (".a.", 1),
                    ("quote..b", 1),
                    (".", 1),
                    ("#", 1),
                    ("%", 1),
                    ("..", 2),
                    ("x%%y", 1),
                    ("#.a", 1),
                    ("quote.a%b", 0),
                    (".a.b", 0),
                    ("....", 4),
                    (".\u{e9}%", 1),
                    ("x.%.y", 2),
                    ("%a%", 1),
                    ("x#..z", 2),
                ]);
                s.push_str(t);
                for _ in 0..n {
                    w.push("EmptyShorthandItem");
                }
                first = false;
                posit += 1;
            }
            2 => {
                s.push_str(g.of(&["quote", "verse", "custom", "\u{e9}t\u{e9}"]));
                first = false;
                posit += 1;
            }
            // An unterminated quote: the value goes to the next comma.
            3 | 4 | 8 => {
                s.push_str(g.of(&["k=\"x", "k='y z", "k2=\"", "k=\"caf\u{e9}"]));
                w.push("AttributeValueMissingTerminatingQuote");
            }
            5 => s.push_str(g.of(&["k=v", "k=\"v\"", "role=x", "long-name=\"a, b\"", "t='x y'"])),
            6 => {
                // After a quoted value that is not followed by a comma, the
                // rest is not read.
                s.push_str(g.of(&["k=\"x\"y", "\"x\" z", "k='a'b=\"c\"", "k=\"\u{e9}\"\u{e9}", "k=\"a\";j=b"]));
                w.push("MissingCommaAfterQuotedAttributeValue");
                break;
            }
            _ => {
                if first && !block {
                    s.push_str("Alt");
                } else if posit > 0 {
                    s.push_str("pos");
                } else {
                    s.push_str("k=v");
                }
                first = false;
                posit += 1;
            }
        }
    }
    // A quote that is not terminated is, if another follows.
    let quotes = w.iter().filter(|x| x.contains("Quote") && !x.contains("Comma")).count();
    if quotes > 0 && (quotes > 1 || s.matches('"').count() + s.matches('\'').count() > 1) {
        return ("k=\"x".into(), vec!["AttributeValueMissingTerminatingQuote"]);
    }
    (s, w)
}

/// Metadata lines before a block; IDs are registered when the block ends.
fn meta(g: &mut G, d: &mut Doc, always: bool) {
    if always || g.p(50) {
        let k = (0..3).filter(|_| g.p(50)).collect();
        some_meta(g, d, k);
    }
}

fn some_meta(g: &mut G, d: &mut Doc, mut k: Vec<usize>) {
    if k.is_empty() {
        k.push(g.u(3));
    }
    if g.p(50) {
        k.reverse();
    }
    for x in k {
        match x {
            0 => d.put(format!(".{}", g.of(&["Title", "T\u{e9} *x*"]))),
            1 => {
                d.refs += 1;
                let n = d.refs;
                d.put(format!("[[m{n}]]"));
            }
            _ => {
                let (s, w) = attrlist(g, true);
                for k in w {
                    d.want.push(W { kind: format!("WarningType::{k}"), line: d.lines.len() + 1, text: s.clone(), prefix: false });
                }
                // (The IDs in these lists are never used twice.)
                d.put(format!("[{s}]"));
            }
        }
        if g.p(8) {
            d.put("// between");
        }
    }
}

fn unit(g: &mut G, d: &mut Doc, depth: usize) {
    match g.w(&[5, 6, 3, 3, 4, 3, if depth > 0 { 5 } else { 0 }, 3, 2, 2, 3]) {
        // Nothing to complain about.
        0 => {
            let c = cfg();
            let n = docgen::node(g, &c, &mut d.st, c.depth);
            let mut o = docgen::Out { lines: vec![] };
            docgen::write_list(g, &[n], &mut o);
            d.lines.append(&mut o.lines);
        }
        1 => {
            meta(g, d, true);
            match g.u(4) {
                0 | 1 => d.put(g.of(LINE)),
                2 => {
                    for l in ["----", "x", "----"] {
                        d.put(l);
                    }
                }
                _ => d.put("'''"),
            }
        }
        2 => {
            meta(g, d, false);
            let (s, w) = attrlist(g, false);
            for k in w {
                d.warn(k, s.clone());
            }
            d.put(format!("{}::x.png[{s}]", g.of(&["image", "video", "audio"])));
        }
        // A line that would be an anchor becomes text.
        3 => {
            if g.p(30) {
                d.put(".Title");
            }
            if g.p(30) {
                d.warn("EmptyBlockAnchorName", "");
                d.put("[[]]");
            } else {
                let n = g.of(&["1x", "a b", "-a", ".x", "a!", " a", "a ", "\u{2603}"]);
                let r = g.of(&["", "", ",Ref", ",\u{e9}, b"]);
                d.warn("InvalidBlockAnchorName", n);
                d.put(format!("[[{n}{r}]]"));
            }
            d.put(g.of(LINE));
        }
        // The same ID again.
        4 => {
            let id = g.of(&["dup-a", "dup-b", "\u{e9}"]);
            let known = d.ids.iter().any(|x| x == id);
            let at = d.lines.len();
            d.put(match g.u(4) {
                0 => format!("[#{id}]"),
                1 => format!("[[{id}]]"),
                2 => format!("[id={id}]"),
                _ => format!("[custom#{id}.r]"),
            });
            if g.p(30) {
                d.put(".Title");
            }
            match g.u(5) {
                0 | 1 => d.put(g.of(LINE)),
                2 => {
                    for l in ["....", "x", "", "y", "...."] {
                        d.put(l);
                    }
                }
                3 => d.put("image::a.png[]"),
                _ => {
                    for l in ["__________", "x", "__________"] {
                        d.put(l);
                    }
                }
            }
            if known {
                let text = d.lines[at..].join("\n");
                d.want.push(W { kind: format!("WarningType::DuplicateId({id:?})"), line: at + 1, text, prefix: false });
            } else {
                d.ids.push(id.into());
            }
        }
        // Metadata without a block.
        5 => {
            let at = d.lines.len() + 1;
            // (One line: each would be a paragraph of its own, with a warning.)
            some_meta(g, d, vec![]);
            while d.lines.last().unwrap().starts_with("//") {
                d.lines.pop();
            }
            let text = d.lines[at - 1..].join("\n");
            d.want.push(W { kind: "WarningType::MissingBlockAfterTitleOrAttributeList".into(), line: at, text, prefix: true });
            // (What follows must not stand directly below.)
            d.put("");
        }
        6 => {
            meta(g, d, false);
            let del = fresh(g, d);
            d.put(del.clone());
            d.st.encl.push(del.clone());
            units(g, d, depth - 1, 3);
            d.st.encl.pop();
            d.put(del);
        }
        7 => {
            let n = g.range(7, 20);
            let l = format!("{} Too deep", g.of(&["=", "#"]).repeat(n));
            d.warn(&format!("SectionHeadingLevelExceedsMaximum({})", n - 1), l.clone());
            d.put(l);
        }
        8 => {
            let l = g.of(&["= Level 0", "# Level 0", "=  caf\u{e9}"]);
            d.warn("Level0SectionHeadingNotSupported", l);
            d.put(l);
        }
        9 => {
            let l = g.of(&[":sp: x", ":!sp:", ":sp!:", ":lock: 1", ":!LOCK:", ":lock:", ":head-only: z"]);
            let n = g_name(l);
            d.warn(&format!("AttributeValueIsLocked({n:?})"), l);
            d.put(l);
        }
        // These look as if they were irregular.
        _ => d.put(g.of(&["image:x.png[]", "image::[]", "video::", "image::x.png", "[[x]] y", "[x", ".. t", "text [a=]", "== ", "-- x", "{nope}", "[ x]", "a::b[]", ":x y: z", "'' '", "[[a]]b", "include ::x[]"])),
    }
}

fn g_name(l: &str) -> String {
    l[1..].split(':').next().unwrap().replace('!', "").to_lowercase()
}

fn fresh(g: &mut G, d: &Doc) -> String {
    let c = g.of(&["=", "*", "_"]);
    let mut n = 4 + g.w(&[5, 1]);
    while d.st.encl.contains(&c.repeat(n)) {
        n += 1;
    }
    c.repeat(n)
}

fn units(g: &mut G, d: &mut Doc, depth: usize, max: usize) {
    for i in 0..g.range(0, max) {
        if i > 0 {
            d.gap(g);
        }
        unit(g, d, depth);
    }
}

const KINDS: &[&str] = &[
    "AttributeValueMissingTerminatingQuote", "DocumentHeaderNotTerminated", "EmptyAttributeValue", "EmptyShorthandItem", "MissingCommaAfterQuotedAttributeValue", "UnterminatedDelimitedBlock", "MissingBlockAfterTitleOrAttributeList",
    "EmptyBlockAnchorName", "InvalidBlockAnchorName", "AttributeValueIsLocked", "DuplicateId", "Level0SectionHeadingNotSupported", "SectionHeadingLevelSkipped", "SectionHeadingLevelExceedsMaximum",
];

fn run(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut d = Doc { lines: vec![], want: vec![], st: docgen::St::default(), ids: vec![], refs: 0 };
    if g.p(40) {
        d.put("= Title");
        if g.p(50) {
            d.put("Ann Author");
            if g.p(50) {
                d.put("v1, 2020-01-01");
                if g.p(40) {
                    let l = g.of(&["not a header line", ".x", "[y]", "----x"]);
                    d.warn("DocumentHeaderNotTerminated", l);
                    d.put(l);
                    d.put("more");
                }
            }
        }
    } else {
        d.put(g.of(LINE));
    }
    d.put("");
    let many = g.p(4);
    units(g, &mut d, 3, if many { 40 } else { 6 });
    // Sections.
    let mut level = 0;
    for _ in 0..g.w(&[4, 2, 2, 1, 1]) {
        d.put("");
        let l = g.range(1, 5);
        meta(g, &mut d, false);
        let t = format!("{} S{}", g.of(&["=", "#"]).repeat(l + 1), d.lines.len());
        if level > 0 && l > level + 1 {
            d.warn(&format!("SectionHeadingLevelSkipped({level}, {l})"), t.clone());
        }
        level = l;
        d.put(t);
        d.put("");
        units(g, &mut d, 2, 4);
    }
    // Blocks that are not closed: to the end of the document, one in another.
    for _ in 0..g.w(&[6, 2, 1, 1]) {
        d.put("");
        meta(g, &mut d, false);
        let del = fresh(g, &d);
        d.warn("UnterminatedDelimitedBlock", del.clone());
        d.put(del.clone());
        d.st.encl.push(del);
        units(g, &mut d, 1, 2);
    }
    if g.p(15) {
        d.put("");
        meta(g, &mut d, false);
        let del = g.of(&["----", "....", "++++"]);
        d.warn("UnterminatedDelimitedBlock", del);
        d.put(del);
        d.put("[a=\"x\"y]");
        d.put("[[]]");
    }
    let src = d.lines.join("\n");
    cx.input(src.clone());
    cx.nontrivial(d.want.len() > 1);
    for k in KINDS {
        cx.label_if(d.want.iter().any(|w| w.kind[13..].starts_with(k)), k);
    }
    let mut p = Parser::default()
        .with_intrinsic_attribute("lock", "1", ModificationContext::ApiOnly)
        .with_intrinsic_attribute("head-only", "1", ModificationContext::ApiOrHeader);
    let doc = p.parse(&src);
    let mut got: Vec<(usize, String, String)> = doc.warnings().map(|w| (w.source.line(), format!("{:?}", w.warning), w.source.data().to_string())).collect();
    for w in &d.want {
        let Some(i) = got.iter().position(|x| x.0 == w.line && x.1 == w.kind && (if w.prefix { x.2.starts_with(&w.text) } else { x.2 == w.text })) else {
            return Err(format!("no warning {} at line {} for {:?}\n  among {got:?}\n  for {src:?}", w.kind, w.line, w.text));
        };
        got.remove(i);
    }
    ensure!(got.is_empty(), "unexpected warnings {got:?}\n  for {src:?}");
    Ok(())
}

/// The warnings are the document's own: a second parse finds the same, and
/// each names text of the source.
fn soup(g: &mut G, cx: &mut Cx) -> Outcome {
    let src = gens::doc_soup(g, 14);
    cx.input(src.clone());
    let doc = Parser::default().parse(&src);
    let mut p = Parser::default();
    let again = p.parse(&src);
    let list = |d: &asciidoc_parser::Document<'_>| d.warnings().map(|w| (w.source.byte_offset(), w.source.data().to_string(), format!("{:?}", w.warning))).collect::<Vec<_>>();
    let a = list(&doc);
    cx.nontrivial(!a.is_empty());
    ensure_eq!(a, list(&again), "warnings of the same text");
    let mut one: Vec<&(usize, String, String)> = a.iter().filter(|w| !w.2.contains("EmptyAttributeValue") && !w.2.contains("EmptyShorthandItem") && !w.2.contains("MissingTerminatingQuote") && !w.2.contains("Level0")).collect();
    one.sort();
    for w in one.windows(2) {
        ensure!(w[0] != w[1], "reported twice: {:?}\n  for {src:?}", w[0]);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "more than one warning is expected (soup: there is a warning)",
        assumptions: &[
            "the text named by MissingBlockAfterTitleOrAttributeList starts with the metadata lines; where it ends is left open (a test pins that it covers all that follows)",
            "the order of warnings is left open",
        ],
        families: vec![
            Family { name: "units", run, quick: 150_000, thorough: 3_000_000 },
            Family { name: "soup", run: soup, quick: 60_000, thorough: 1_000_000 },
        ],
    }
}
