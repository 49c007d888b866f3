//! C01: parsing and inspecting never fails, for any text.

use asciidoc_parser::{
    Parser,
    attributes::Attrlist,
    parser::{IncludeFileHandler, ModificationContext},
};

use crate::{engine::*, gens, walk};

#[derive(Debug)]
struct Files(Vec<String>);

impl IncludeFileHandler for Files {
    fn resolve_target<'s>(&self, src: Option<&str>, target: &str, _a: &Attrlist<'s>, _p: &Parser) -> Option<String> {
        // Acyclic: only the primary file can include.
        if src.is_some_and(|s| s != "main.adoc") {
            return None;
        }
        if self.0.is_empty() {
            return None;
        }
        Some(self.0[target.len() % self.0.len()].clone())
    }
}

fn parser(g: &mut G) -> Parser {
    let mut p = Parser::default();
    for _ in 0..g.u(3) {
        let n = g.pick(&["name", "sectnums", "idprefix", "icons", "imagesdir", "hardbreaks-option", "author", "data-uri", "experimental", "iconsdir", "hide-uri-scheme", "sectnumlevels", "relfileprefix", "attribute-missing", "idseparator", "sectids"]);
        let v = if g.p(50) { gens::inline_soup(g, 2) } else { g.pick(&["", "font", "1", "x", "5", "<&>", "\u{e9}", "99999999999999999999", "{name}"]).to_string() };
        let c = g.of(&[ModificationContext::Anywhere, ModificationContext::ApiOnly, ModificationContext::ApiOrHeader, ModificationContext::ApiOrDocumentBody]);
        p = match g.u(3) {
            0 => p.with_intrinsic_attribute(n, v, c),
            1 => p.with_intrinsic_attribute_bool(n, true, c),
            _ => p.with_intrinsic_attribute_bool(n, false, c),
        };
    }
    p
}

fn check(p: &mut Parser, src: &str) -> Outcome {
    let doc = p.parse(src);
    let _ = walk::touch(&doc);
    let _ = walk::all_spans(&doc).len();
    let _ = format!("{doc:?}").len();
    Ok(())
}

fn nontrivial(src: &str) -> bool {
    src.chars().filter(|c| !c.is_alphanumeric() && !c.is_whitespace()).count() >= 3
}

fn soup(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut p = if g.p(30) { parser(g) } else { Parser::default() };
    let src = gens::doc_soup(g, 14);
    cx.input(src.clone());
    cx.nontrivial(nontrivial(&src));
    cx.label_if(src.contains('\r'), "has CR");
    cx.label_if(!src.is_ascii(), "non-ASCII");
    check(&mut p, &src)
}

fn inline(g: &mut G, cx: &mut Cx) -> Outcome {
    let src = gens::inline_soup(g, 12);
    let src = match g.u(5) {
        0 => src,
        1 => format!("== {src}"),
        2 => format!("= {src}\n{}", gens::inline_soup(g, 4)),
        3 => format!(".{src}\n[{}]\nx", gens::inline_soup(g, 4)),
        _ => format!(":name: {src}\n:experimental:\n:icons: font\n\nA {{name}} {}", gens::inline_soup(g, 4)),
    };
    cx.input(src.clone());
    cx.nontrivial(nontrivial(&src));
    cx.label_if(!src.is_ascii(), "non-ASCII");
    let mut p = if g.p(10) { parser(g) } else { Parser::default() };
    check(&mut p, &src)
}

fn chars(g: &mut G, cx: &mut Cx) -> Outcome {
    let src: String = g.list(0, 60, gens::any_char).into_iter().collect();
    cx.input(src.clone());
    cx.nontrivial(nontrivial(&src));
    cx.label_if(!src.is_ascii(), "non-ASCII");
    check(&mut Parser::default(), &src)
}

fn includes(g: &mut G, cx: &mut Cx) -> Outcome {
    let files = g.list(0, 3, |g| gens::doc_soup(g, 5));
    let mut lines = g.list(1, 8, |g| {
        if g.p(40) { g.pick(&["include::a.adoc[]", "include::bb.adoc[leveloffset=+1]", "include::{name}[]", "include::ccc.adoc[", "\\include::a[]", "include::a b[x]", "include::{undef}[]"]).to_string() } else { gens::line_soup(g) }
    });
    lines.push(String::new());
    let src = lines.join("\n");
    cx.input(format!("{src}\n=== files ===\n{}", files.join("\n--\n")));
    cx.nontrivial(!files.is_empty() && src.contains("include::"));
    let mut p = parser(g);
    if g.p(50) {
        p = p.with_primary_file_name("main.adoc");
    }
    let mut p = p.with_include_file_handler(Files(files));
    check(&mut p, &src)
}

/// Long, repetitive inputs: termination without super-linear blow-up that
/// would look like a hang, and bounded nesting.
fn long(g: &mut G, cx: &mut Cx) -> Outcome {
    let unit = match g.u(3) {
        0 => gens::line_soup(g) + "\n",
        1 => gens::inline_soup(g, 2),
        _ => gens::line_soup(g) + "\n\n",
    };
    let n = g.range(2, 60);
    let src = format!("{}{}", unit.repeat(n), gens::inline_soup(g, 2));
    cx.input(src.clone());
    cx.nontrivial(nontrivial(&src) && n > 10);
    check(&mut Parser::default(), &src)
}

/// Nested delimited blocks (bounded depth).
fn nest(g: &mut G, cx: &mut Cx) -> Outcome {
    let depth = g.range(1, 30);
    let mut open = vec![];
    let mut src = String::new();
    for i in 0..depth {
        let c = g.of(&['=', '*', '_']);
        let d: String = std::iter::repeat_n(c, 4 + i).collect();
        if g.p(30) {
            src.push_str(g.pick(&["[quote]\n", ".t\n", "[[x]]\n", "para\n\n"]));
        }
        src.push_str(&d);
        src.push('\n');
        open.push(d);
    }
    src.push_str(&gens::doc_soup(g, 4));
    src.push('\n');
    let close = g.range(0, depth);
    for d in open.iter().rev().take(close) {
        src.push_str(d);
        src.push('\n');
    }
    cx.input(src.clone());
    cx.nontrivial(depth > 3);
    check(&mut Parser::default(), &src)
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "Texts assembled from a dictionary of AsciiDoc block lines and inline fragments (well-formed and malformed), arbitrary Unicode, repeated and nested units, includes and API attributes; every accessor, Debug and Display is exercised. Non-trivial: at least three punctuation characters (includes: a resolvable include directive; nest: depth > 3).",
        assumptions: &["include handlers are acyclic", "block nesting at most 30 deep (8 MiB stack)"],
        families: vec![
            Family { name: "soup", run: soup, quick: 300_000, thorough: 6_000_000 },
            Family { name: "inline", run: inline, quick: 400_000, thorough: 8_000_000 },
            Family { name: "chars", run: chars, quick: 100_000, thorough: 2_000_000 },
            Family { name: "includes", run: includes, quick: 60_000, thorough: 1_000_000 },
            Family { name: "long", run: long, quick: 30_000, thorough: 500_000 },
            Family { name: "nest", run: nest, quick: 20_000, thorough: 200_000 },
        ],
    }
}
