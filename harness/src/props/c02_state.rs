//! C02: the result of a parse depends on nothing but the source and the
//! parser's configuration and attributes.

use asciidoc_parser::{
    Document, Parser,
    attributes::Attrlist,
    blocks::{Block, IsBlock},
    document::InterpretedValue,
    parser::{IncludeFileHandler, ModificationContext},
};

use crate::{docgen, engine::*, gens, sem, walk};

const RAW: sem::View = sem::View { trim: false, blank: false, line: Some(0), spans: true };

#[derive(Debug)]
struct Files(Vec<String>);

impl IncludeFileHandler for Files {
    fn resolve_target<'s>(&self, src: Option<&str>, target: &str, _a: &Attrlist<'s>, _p: &Parser) -> Option<String> {
        if src.is_some_and(|s| s != "main.adoc") || self.0.is_empty() {
            return None;
        }
        Some(self.0[target.len() % self.0.len()].clone())
    }
}

/// How a parser is made.
struct Conf {
    attrs: Vec<(&'static str, Option<&'static str>, bool, ModificationContext)>,
    primary: bool,
    files: Option<Vec<String>>,
}

fn conf(g: &mut G) -> Conf {
    let attrs = (0..g.u(3))
        .map(|_| {
            let n = g.of(&["name", "sectnums", "idprefix", "icons", "imagesdir", "hardbreaks", "author", "zz", "sectnumlevels", "sectids", "idseparator"]);
            let v = if g.p(60) { Some(g.of(&["v", "font", "1", "_", "-", "a b"])) } else { None };
            (n, v, g.p(70), g.of(&[ModificationContext::Anywhere, ModificationContext::ApiOnly, ModificationContext::ApiOrHeader, ModificationContext::ApiOrDocumentBody]))
        })
        .collect();
    Conf { attrs, primary: g.p(20), files: if g.p(20) { Some(g.list(0, 2, |g| gens::doc_soup(g, 3))) } else { None } }
}

impl Conf {
    fn make(&self) -> Parser {
        let mut p = Parser::default();
        for (n, v, b, c) in &self.attrs {
            p = match v {
                Some(v) => p.with_intrinsic_attribute(*n, *v, c.clone()),
                None => p.with_intrinsic_attribute_bool(*n, *b, c.clone()),
            };
        }
        if self.primary {
            p = p.with_primary_file_name("main.adoc");
        }
        if let Some(f) = &self.files {
            p = p.with_include_file_handler(Files(f.clone()));
        }
        p
    }
}

/// Everything a document says, and where its lines come from.
fn dump(d: &Document<'_>) -> Vec<String> {
    let mut v = sem::all(RAW, d);
    let n = 1 + v.iter().map(|s| s.matches("\\n").count() + 1).sum::<usize>();
    for l in 1..n.min(60) {
        v.push(format!("line {l} is {:?}", d.source_map().original_file_and_line(l)));
    }
    v
}

const NAMES: &[&str] = &[
    "name", "sectnums", "idprefix", "icons", "imagesdir", "hardbreaks-option", "author", "zz", "sectnumlevels", "sectids", "idseparator", "empty", "sp", "deg", "plus", "toc", "example-caption", "iconsdir",
    "doctitle", "firstname", "middlename", "lastname", "authorinitials", "email", "revnumber", "revdate", "revremark", "authors", "authorcount", "author_2", "a-b", "1x", "x", "leveloffset", "other", "appendix-caption",
    "hide-uri-scheme", "experimental", "foo", "bar", "q", "yy", "hardbreaks",
];

/// The attributes, by every name the generators use.
fn attributes(p: &Parser) -> Vec<String> {
    NAMES.iter().map(|n| format!("{n}: {} {} {}", sem::value(&p.attribute_value(n)), p.has_attribute(n), p.is_attribute_set(n))).collect()
}

fn source(g: &mut G) -> String {
    match g.w(&[5, 3, 2]) {
        0 => gens::doc_soup(g, 10),
        1 => {
            let d = docgen::doc(g, &docgen::Cfg::default());
            docgen::write_doc(g, &d).src
        }
        _ => sections(g),
    }
}

/// Mostly headings, numbered, appendices among them.
fn sections(g: &mut G) -> String {
    let mut s = String::new();
    if g.p(40) {
        s.push_str(g.of(&["= Doc\n\n", "= Doc\n:sectnums:\n\n", ":sectnums:\n\n", ":sectnums:\n:sectnumlevels: 4\n\n", ":sectnums:\n:sectnumlevels: 1\n\n", ":sectnums:\n:sectnumlevels: all\n\n", ":sectnumlevels!:\n:sectnums:\n\n"]));
    }
    for _ in 0..g.range(1, 6) {
        s.push_str(g.of(&["", "", "[appendix]\n", "[[x]]\n", "[discrete]\n", "[#y.r]\n", ":sectnums:\n\n"]));
        s.push_str(g.of(&["== A\n\n", "== A\n\n", "=== B\n\n", "==== C\n\n", "== D\n\ntext\n\n", "=== *E*\n\n----\nx\n----\n\n"]));
    }
    s
}

/// Documents that leave the parser's attributes alone.
fn inert(g: &mut G) -> String {
    let s = source(g);
    let mut out = String::from(if g.p(50) { "x\n\n" } else { "// x\nx\n\n" });
    for l in s.split('\n') {
        if l.starts_with(':') || l.contains("include::") {
            continue;
        }
        out.push_str(l);
        out.push('\n');
    }
    out
}

fn same(want: &[String], got: &[String], what: &str) -> Outcome {
    match sem::diff(want, got) {
        None => Ok(()),
        Some(m) => Err(format!("{what}\n  {m}")),
    }
}

fn repeat(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = conf(g);
    let src = source(g);
    cx.input(src.clone());
    cx.nontrivial(src.lines().filter(|l| !l.trim().is_empty()).count() >= 2);
    let (mut p, mut q) = (c.make(), c.make());
    let mut r = p.clone();
    let d = p.parse(&src);
    let want = dump(&d);
    let e = q.parse(&src);
    same(&want, &dump(&e), "a second parser with the same configuration reads another document")?;
    if d != e {
        return Err("documents of equal parsers are not equal".into());
    }
    same(&attributes(&p), &attributes(&q), "the attributes left in two parsers differ")?;
    // The clone was not touched by its original's parse.
    let f = r.parse(&src);
    same(&want, &dump(&f), "a clone of the parser, made before, reads another document")?;
    same(&attributes(&p), &attributes(&r), "the attributes left in a clone differ")?;
    Ok(())
}

fn reuse(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = conf(g);
    let a = source(g);
    let others: Vec<String> = (0..g.range(1, 2)).map(|_| inert(g)).collect();
    cx.input(format!("{}\n\u{2015}\u{2015}\u{2015}\n{a}", others.join("\n\u{2015}\u{2015}\u{2015}\n")));
    cx.nontrivial(a.lines().filter(|l| !l.trim().is_empty()).count() >= 2);
    let mut p = c.make();
    let before = attributes(&p);
    let mut docs = vec![];
    for o in &others {
        let d = p.parse(o);
        if walk::blocks(&d).iter().any(|b| matches!(b, Block::DocumentAttribute(_))) || d.header().title().is_some() {
            return Err(format!("harness: not inert: {o:?}"));
        }
        let s = dump(&d);
        docs.push((d, s));
    }
    same(&before, &attributes(&p), "a document without attribute entries changed an attribute")?;
    let d = p.parse(&a);
    let got = dump(&d);
    let mut q = c.make();
    let e = q.parse(&a);
    same(&dump(&e), &got, "a parser that was used before reads another document than a new one")?;
    if d != e {
        return Err("document of a used parser is not equal to the one of a new parser".into());
    }
    same(&attributes(&q), &attributes(&p), "the attributes left in a used parser and a new one differ")?;
    // Documents do not depend on the parser, or on each other.
    drop(p);
    drop(a);
    for (d, s) in &docs {
        same(s, &dump(d), "a later parse changed a document")?;
    }
    same(&got, &dump(&d), "dropping the parser changed a document")?;
    Ok(())
}

/// The names a text could give a value, the way the parser keeps them.
fn entry_names(src: &str, out: &mut Vec<String>) {
    for l in src.lines() {
        let Some(r) = l.strip_prefix(':') else { continue };
        let Some((n, _)) = r.split_once(':') else { continue };
        let n = n.trim_matches('!').to_lowercase();
        let n = if n == "hardbreaks" { "hardbreaks-option".into() } else { n };
        if !out.contains(&n) {
            out.push(n);
        }
    }
}

/// Nothing is carried over from one document to the next but attributes: a
/// used parser reads like a new one that was given the attributes it has.
fn transfer(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = conf(g);
    let a = source(g);
    let b = source(g);
    cx.input(format!("{a}\n\u{2015}\u{2015}\u{2015}\n{b}"));
    let mut p = c.make();
    p.parse(&a);
    let mut q = c.make();
    let mut names: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
    names.retain(|n| n != "hardbreaks");
    entry_names(&a, &mut names);
    for f in c.files.iter().flatten() {
        entry_names(f, &mut names);
    }
    let mut changed = 0;
    for n in &names {
        let v = p.attribute_value(n);
        if v == q.attribute_value(n) && p.has_attribute(n) == q.has_attribute(n) {
            continue;
        }
        changed += 1;
        // Who may change it stays what it was.
        let m = c
            .attrs
            .iter()
            .rev()
            .find(|x| x.0 == n || (x.0 == "hardbreaks" && n == "hardbreaks-option"))
            .map(|x| x.3.clone())
            .unwrap_or(if n == "toc" || n == "sectnumlevels" { ModificationContext::ApiOrHeader } else { ModificationContext::Anywhere });
        q = match v {
            InterpretedValue::Value(v) => q.with_intrinsic_attribute(n, v, m),
            v => q.with_intrinsic_attribute_bool(n, v == InterpretedValue::Set, m),
        };
    }
    cx.nontrivial(changed > 0 && b.lines().filter(|l| !l.trim().is_empty()).count() >= 2);
    let (d, e) = (p.parse(&b), q.parse(&b));
    same(&dump(&e), &dump(&d), "a used parser reads a document otherwise than a new one with the same attributes")?;
    if d != e {
        return Err("documents of a used parser and of a new one with the same attributes are not equal".into());
    }
    same(&attributes(&q), &attributes(&p), "the attributes left differ")?;
    Ok(())
}

/// Reading a document does not change it, in whatever order it is read.
fn reading(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = conf(g);
    let src = source(g);
    cx.input(src.clone());
    let mut p = c.make();
    let d = p.parse(&src);
    let left = attributes(&p);
    let all = walk::blocks(&d);
    cx.nontrivial(all.len() >= 2);
    let one = |b: &Block<'_>| {
        let mut v = vec![];
        sem::block(RAW, b, 0, &mut v);
        v
    };
    let want: Vec<Vec<String>> = all.iter().map(|b| one(b)).collect();
    let first = dump(&d);
    for _ in 0..g.range(1, 5) {
        if all.is_empty() {
            break;
        }
        let i = g.u(all.len());
        match g.u(3) {
            0 => same(&want[i], &one(all[i]), "a block reads differently a second time")?,
            1 => {
                let t: Vec<&str> = all[i].nested_blocks().filter_map(|b| b.rendered_content()).collect();
                let u: Vec<&str> = all[i].nested_blocks().filter_map(|b| b.rendered_content()).collect();
                if t != u {
                    return Err("nested blocks read differently a second time".into());
                }
            }
            _ => same(&first, &dump(&d), "the document reads differently a second time")?,
        }
    }
    same(&left, &attributes(&p), "reading a document changed the parser")?;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "the document has at least two lines that are not blank (reading: two blocks)",
        assumptions: &["Include handlers are pure."],
        families: vec![
            Family { name: "repeat", run: repeat, quick: 120_000, thorough: 2_500_000 },
            Family { name: "reuse", run: reuse, quick: 120_000, thorough: 2_500_000 },
            Family { name: "transfer", run: transfer, quick: 120_000, thorough: 2_500_000 },
            Family { name: "reading", run: reading, quick: 30_000, thorough: 500_000 },
        ],
    }
}
