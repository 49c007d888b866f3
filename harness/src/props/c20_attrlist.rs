//! C20: attribute lists.

use std::{cell::RefCell, rc::Rc};

use asciidoc_parser::{
    Parser,
    attributes::Attrlist,
    blocks::{Block, IsBlock},
    parser::*,
};

use crate::{engine::*, inl};

#[derive(Clone, Debug, PartialEq)]
struct E {
    name: Option<String>,
    value: String,
    items: Vec<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum C {
    Block,
    Media,
    Inline,
    Macro,
}

const ATTRS: &[(&str, &str)] = &[("v", "val"), ("two", "p, q=r"), ("hash", "#i.r"), ("sp", " "), ("quot", "\"x\""), ("e", "\u{e9}")];

/// Free text of a value that needs no quotes.
fn bare(g: &mut G) -> String {
    let t = g
        .list(1, 3, |g| {
            g.of(&["a", "foo", "1", "20px", "x y", "caf\u{e9}", "\u{4e2d}", "-", "a-b", "a_b", "*b*", "x'y", "(C)", "&", "<t>", "a:b", "/p/q", "!", "^", "{nope}", "\\", "\u{1F600}", "?", ";", "@"])
        })
        .join(g.of(&["", " ", "  "]));
    t.trim_matches([' ', '\'', '\\']).to_string()
}

struct Sc {
    items: Vec<String>,
    style: Option<String>,
    id: Option<String>,
    roles: Vec<String>,
    opts: Vec<String>,
}

fn shorthand(g: &mut G) -> (String, Sc) {
    let mut s = Sc { items: vec![], style: None, id: None, roles: vec![], opts: vec![] };
    let mut src = String::new();
    let word = |g: &mut G| g.of(&["a", "foo", "x-1", "caf\u{e9}", "\u{4e2d}", "r_2", "Z"]).to_string();
    if g.p(50) {
        let w = g.of(&["quote", "verse", "foo bar", "x\u{e9}", "1"]).to_string();
        src.push_str(&w);
        s.items.push(w.clone());
        s.style = Some(w);
    }
    for _ in 0..g.range(usize::from(src.is_empty()), 4) {
        let w = word(g);
        let c = g.ch("#..%");
        src.push(c);
        src.push_str(&w);
        s.items.push(format!("{c}{w}"));
        match c {
            '#' if s.id.is_none() => s.id = Some(w),
            '#' => {}
            '.' => s.roles.push(w),
            _ => s.opts.push(w),
        }
    }
    (src, s)
}

/// A quoted value: source and content.
fn quoted(g: &mut G, q: char, norm: bool) -> (String, String) {
    let t = g
        .list(0, 4, |g| g.of(&["a", "foo", ",", "=", "x y", "caf\u{e9}", "b=c", "#x", ".y", "]", "[z", "\u{4e2d}", "  ", "'", "\"", "%o", "1", "\\\"y", "\\'", "\\\\z"]))
        .concat();
    // Substitutions of single-quoted values are C14's business: plain text or one mark.
    let t = if norm && q == '\'' {
        let plain: String = t.chars().filter(|c| !matches!(c, '\'' | '"' | '\\' | '=' | '[' | ']' | '#')).collect();
        if g.p(30) { format!("{plain} *s* & (C)") } else { plain }
    } else {
        t
    };
    let t = if t.trim().is_empty() { format!("{t}z") } else { t };
    let src = t.replace(q, &format!("\\{q}"));
    (format!("{q}{src}{q}"), t)
}

const NAMES: &[&str] = &["id", "role", "opts", "options", "alt", "width", "foo", "x1", "a-b", "2x", "Foo", "title", "start"];

fn normal(t: &str) -> String {
    let mut n = inl::Notes::default();
    inl::normal(t, &|_| None, &mut n)
}

/// Source of an attribute list and the attributes it has.
fn list(g: &mut G, c: C) -> (String, Vec<E>, bool) {
    let n = match g.w(&[1, 20, 2]) {
        0 => 0,
        1 => g.range(1, 6),
        _ => g.range(7, 30),
    };
    let mut src = String::new();
    let mut out = vec![];
    let mut warn = false;
    let mut open = c != C::Macro;
    // What stands on the sides of an equals sign.
    let eq = |g: &mut G| if c == C::Macro { g.of(&["", "", "", " ", "\t", "\n", " \n "]) } else { g.of(&["", "", "", " ", "\t"]) };
    for i in 0..n {
        if i > 0 {
            src.push_str(g.of(&[",", ",", ", ", " , ", ",  ", ",\t"]));
            if g.p(4) {
                // An empty attribute is reported and left out.
                src.push_str(g.of(&[",", ", ", ",,", ", , ", ", ,,,"]));
                warn = true;
            }
        }
        match g.w(&[4, 3, 2, 5, 4, 1]) {
            0 => {
                let mut v = bare(g);
                if v.is_empty() {
                    v = "e".into();
                }
                src.push_str(&v);
                // (Without a mark of shorthand in it.)
                let items = if open { vec![v.clone()] } else { vec![] };
                open = false;
                out.push(E { name: None, value: v, items });
            }
            1 => {
                let (v, s) = shorthand(g);
                src.push_str(&v);
                let items = if open { s.items } else { vec![] };
                open = false;
                out.push(E { name: None, value: v, items });
            }
            2 => {
                let q = g.ch("\"\"'");
                let norm = q == '\'' && c == C::Block;
                let (s, t) = quoted(g, q, norm);
                src.push_str(&s);
                open = false;
                out.push(E { name: None, value: if norm { normal(&t) } else { t }, items: vec![] });
            }
            3 => {
                let k = g.of(NAMES);
                let v = match g.w(&[6, 2, 1, 1]) {
                    0 => bare(g),
                    1 => g.of(&["a b", "x", "r1 r2  r3", "p", "None", "0", "#id", "a.b", "50%", "a=b", "x\"y"]).to_string(),
                    2 => "a".repeat(g.range(1, 40)),
                    _ => "n".into(),
                };
                let v = if v.is_empty() { "v".to_string() } else { v };
                src.push_str(&format!("{k}{}={}{v}", eq(g), eq(g)));
                if v != "None" {
                    out.push(E { name: Some(k.into()), value: v, items: vec![] });
                }
            }
            4 => {
                let k = g.of(NAMES);
                let q = g.ch("\"\"'");
                let norm = q == '\'' && c == C::Block;
                let (s, t) = quoted(g, q, norm);
                src.push_str(&format!("{k}{}={}{s}", eq(g), eq(g)));
                out.push(E { name: Some(k.into()), value: if norm { normal(&t) } else { t }, items: vec![] });
            }
            _ => {
                // An attribute reference, expanded before the list is read.
                let (s, v): (&str, Vec<(Option<&str>, &str)>) = g.of(&[
                    ("{v}", vec![(None, "val")]),
                    ("k={v}", vec![(Some("k"), "val")]),
                    ("{two}", vec![(None, "p"), (Some("q"), "r")]),
                    ("role=\"a {E}\"", vec![(Some("role"), "a \u{e9}")]),
                    ("z={quot}", vec![(Some("z"), "x")]),
                    ("{v}=1", vec![(Some("val"), "1")]),
                    ("{hash}", vec![(None, "#i.r")]),
                    ("w=\\{v}", vec![(Some("w"), "{v}")]),
                ]);
                src.push_str(s);
                for (k, t) in v {
                    let items = match (k, open, t) {
                        (None, true, "#i.r") => vec!["#i".to_string(), ".r".to_string()],
                        (None, true, _) => vec![t.to_string()],
                        _ => vec![],
                    };
                    if k.is_none() {
                        open = false;
                    }
                    out.push(E { name: k.map(str::to_string), value: t.into(), items });
                }
            }
        }
    }
    if n > 0 && g.p(8) {
        src.push_str("  ");
    }
    (src, out, warn)
}

/// What the list says, as seen through its accessors.
#[derive(Debug, PartialEq, Clone, Default)]
struct Seen {
    all: Vec<(Option<String>, String, Vec<String>)>,
    nth: Vec<Option<String>>,
    named: Vec<(String, Option<String>)>,
    both: Vec<Option<String>>,
    id: Option<String>,
    roles: Vec<String>,
    opts: Vec<String>,
    has: Vec<bool>,
    style: Option<String>,
}

const ASK: &[&str] = &["id", "role", "opts", "options", "alt", "width", "foo", "x1", "a-b", "2x", "Foo", "k", "q", "z", "nope", "fo"];
const HAS: &[&str] = &["a", "foo", "o", "x-1", "nope", "", "A", "Foo", "z", "Z", "1", "%a", "fo"];

fn seen(a: &Attrlist<'_>) -> Seen {
    let s = |x: &str| x.to_string();
    Seen {
        all: a.attributes().map(|e| (e.name().map(s), s(e.value()), e.shorthand_items().into_iter().map(s).collect())).collect(),
        nth: (0..34).map(|i| a.nth_attribute(i).map(|e| s(e.value()))).collect(),
        named: ASK.iter().map(|n| (s(n), a.named_attribute(n).map(|e| s(e.value())))).collect(),
        both: ASK.iter().enumerate().map(|(i, n)| a.named_or_positional_attribute(n, i % 4).map(|e| s(e.value()))).collect(),
        id: a.id().map(s),
        roles: a.roles().into_iter().map(s).collect(),
        opts: a.options().into_iter().map(s).collect(),
        has: HAS.iter().map(|o| a.has_option(o)).collect(),
        style: a.block_style().map(s),
    }
}

fn model(es: &[E]) -> Seen {
    let pos: Vec<&E> = es.iter().filter(|e| e.name.is_none()).collect();
    let named = |n: &str| es.iter().find(|e| e.name.as_deref() == Some(n)).map(|e| e.value.clone());
    let nth = |i: usize| if i == 0 { None } else { pos.get(i - 1).map(|e| e.value.clone()) };
    let items: Vec<String> = pos.first().map(|e| e.items.clone()).unwrap_or_default();
    let short = |c: char| items.iter().filter(|i| i.starts_with(c)).map(|i| i[1..].to_string()).collect::<Vec<_>>();
    let mut roles = short('.');
    roles.extend(named("role").unwrap_or_default().split(' ').filter(|s| !s.is_empty()).map(str::to_string));
    let mut opts = short('%');
    for n in ["opts", "options"] {
        opts.extend(named(n).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(str::to_string));
    }
    Seen {
        all: es.iter().map(|e| (e.name.clone(), e.value.clone(), e.items.clone())).collect(),
        nth: (0..34).map(nth).collect(),
        named: ASK.iter().map(|n| (n.to_string(), named(n))).collect(),
        both: ASK.iter().enumerate().map(|(i, n)| named(n).or_else(|| nth(i % 4))).collect(),
        id: short('#').first().cloned().or_else(|| named("id")),
        has: HAS.iter().map(|o| opts.iter().any(|x| x == o)).collect(),
        roles,
        opts,
        style: items.first().filter(|i| !i.starts_with(['#', '.', '%'])).cloned(),
    }
}

type Log = Rc<RefCell<Vec<Seen>>>;

#[derive(Debug)]
struct Inc(Log);
impl IncludeFileHandler for Inc {
    fn resolve_target<'s>(&self, _: Option<&str>, _: &str, a: &Attrlist<'s>, _: &Parser) -> Option<String> {
        self.0.borrow_mut().push(seen(a));
        None
    }
}

#[derive(Debug)]
struct Ren(Log);
impl InlineSubstitutionRenderer for Ren {
    fn render_special_character(&self, t: SpecialCharacter, d: &mut String) {
        // (Not escaped, to see the list as it is written.)
        d.push(match t {
            SpecialCharacter::Lt => '<',
            SpecialCharacter::Gt => '>',
            SpecialCharacter::Ampersand => '&',
        });
    }
    fn render_quoted_substitition(&self, _: QuoteType, _: QuoteScope, _: Option<Attrlist<'_>>, _: Option<String>, b: &str, d: &mut String) {
        d.push_str(b);
    }
    fn render_character_replacement(&self, _: CharacterReplacementType, _: &mut String) {}
    fn render_line_break(&self, _: &mut String) {}
    fn render_image(&self, p: &ImageRenderParams, _: &mut String) {
        self.0.borrow_mut().push(seen(p.attrlist));
    }
    fn image_uri(&self, _: &str, _: &Parser, _: Option<&str>) -> String {
        String::new()
    }
    fn render_icon(&self, p: &IconRenderParams, _: &mut String) {
        self.0.borrow_mut().push(seen(p.attrlist));
    }
    fn render_link(&self, _: &LinkRenderParams, _: &mut String) {}
    fn render_anchor(&self, _: &str, _: Option<String>, _: &mut String) {}
}

fn parser() -> Parser {
    let mut p = Parser::default();
    for (k, v) in ATTRS {
        if *k != "sp" {
            p = p.with_intrinsic_attribute(k, v, ModificationContext::Anywhere);
        }
    }
    p
}

fn read(c: C, s: &str, icon: bool) -> Result<(Seen, Vec<String>, String), String> {
    let log: Log = Rc::default();
    let (src, mut p) = match c {
        C::Block => (format!("[{s}]\npara"), parser()),
        C::Media => (format!("image::t.png[{s}]"), parser()),
        C::Inline => (format!("include::t[{s}]"), parser().with_include_file_handler(Inc(log.clone()))),
        // The macro substitution alone, so that nothing else changes the list.
        C::Macro => (format!("[subs=macros]\n++++\n{}:t.png[{s}]\n++++", if icon { "icon" } else { "image" }), parser().with_inline_substitution_renderer(Ren(log.clone()))),
    };
    let d = p.parse(&src);
    let got = match c {
        C::Block => d.nested_blocks().next().and_then(|b| b.attrlist()).map(seen),
        C::Media => d.nested_blocks().next().and_then(|b| if let Block::Media(m) = b { Some(seen(m.macro_attrlist())) } else { None }),
        _ => log.borrow().first().cloned(),
    };
    let w = d.warnings().map(|w| format!("{:?} {:?}", w.warning, w.source.data())).collect();
    Ok((got.ok_or_else(|| format!("no attribute list was read from {src:?}"))?, w, src))
}

fn fits(c: C, s: &str) -> bool {
    match c {
        C::Block => !s.starts_with([' ', '\t']) && !s.starts_with('['),
        C::Media => true,
        C::Inline => !s.contains('\n'),
        // The macro ends at the first bracket that is not escaped.
        C::Macro => !s.contains([']', '[', '\\', '{']) && !s.contains("<t>"),
    }
}

fn check(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = g.of(&[C::Block, C::Media, C::Inline, C::Macro]);
    let (s, es, warn) = list(g, c);
    let icon = g.p(30);
    cx.input(format!("{c:?} [{s}]"));
    if !fits(c, &s) {
        cx.label("does not fit the context");
        return Ok(());
    }
    cx.nontrivial(es.len() > 1);
    cx.label(match c {
        C::Block => "block",
        C::Media => "block macro",
        C::Inline => "directive",
        C::Macro => "inline macro",
    });
    if c == C::Macro && s.is_empty() {
        return Ok(());
    }
    let (got, w, src) = read(c, &s, icon)?;
    let want = model(&es);
    ensure_eq!(want.all, got.all, "attributes of {src:?}");
    ensure_eq!(want, got, "accessors for {src:?}");
    if matches!(c, C::Block | C::Media) {
        ensure_eq!(warn, !w.is_empty(), "is anything reported for {src:?}: {w:?}");
        ensure!(w.iter().all(|x| x.starts_with("WarningType::EmptyAttributeValue")), "reported for {src:?}: {w:?}");
    }
    Ok(())
}

/// Lists with one fault: the rest is still read, and the fault is reported.
fn faulty(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = g.of(&[C::Block, C::Media]);
    let (head, mut es, warn) = list(g, c);
    if warn || !fits(c, &head) {
        cx.input(head);
        return Ok(());
    }
    let mut s = head.clone();
    if !head.trim().is_empty() {
        s.push_str(", ");
    }
    let el = |name: Option<&str>, value: &str, items: Vec<&str>| E { name: name.map(str::to_string), value: value.into(), items: items.into_iter().map(str::to_string).collect() };
    let first = !es.iter().any(|e| e.name.is_none());
    let want = match g.u(4) {
        0 => {
            // Quote not closed: the value is what stands before the comma.
            let q = g.ch("\"'");
            s.push_str(&format!("k={q}abc, m=n"));
            es.push(el(Some("k"), &format!("{q}abc"), vec![]));
            es.push(el(Some("m"), "n", vec![]));
            "AttributeValueMissingTerminatingQuote"
        }
        1 => {
            // Text after a quoted value: that is not read.
            s.push_str("k=\"abc\" x, m=n");
            es.push(el(Some("k"), "abc", vec![]));
            "MissingCommaAfterQuotedAttributeValue"
        }
        2 => {
            s.push_str("k=v,,m=n");
            es.push(el(Some("k"), "v", vec![]));
            es.push(el(Some("m"), "n", vec![]));
            "EmptyAttributeValue"
        }
        _ if first => {
            let (t, items) = g.of(&[("a#", vec!["a"]), ("a..b", vec!["a", ".b"]), ("#.r%o", vec![".r", "%o"]), ("%", vec![])]);
            s.push_str(t);
            es.push(el(None, t, items));
            "EmptyShorthandItem"
        }
        _ => return Ok(()),
    };
    cx.input(format!("{c:?} [{s}]"));
    cx.nontrivial(true);
    cx.label(want);
    let (got, w, src) = read(c, &s, false)?;
    ensure_eq!(model(&es).all, got.all, "attributes of {src:?}");
    ensure_eq!(vec![format!("WarningType::{want} {s:?}")], w, "reported for {src:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "at least two attributes; every faulty list",
        assumptions: &["no trailing comma, no empty first attribute; in inline macros no brackets, backslashes or references in the list (C17, C18)"],
        families: vec![
            Family { name: "check", run: check, quick: 600_000, thorough: 10_000_000 },
            Family { name: "faulty", run: faulty, quick: 100_000, thorough: 1_000_000 },
        ],
    }
}
