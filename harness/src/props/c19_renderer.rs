//! C19: everything that is converted goes through the renderer that the
//! caller supplied, once, with the right parameters.

use asciidoc_parser::{Parser, attributes::Attrlist, blocks::IsBlock, parser::*};

use crate::{ctx, docgen, engine::*, gens, sem};

const BODY: &str = "\u{E000}";

/// The HTML renderer, with every tag it makes renamed to `vp…`.
#[derive(Debug)]
struct Marked(HtmlSubstitutionRenderer);

fn mark(s: &str) -> String {
    // Only real tags (not text in attribute values that was marked before).
    s.replace("</", "\u{E001}").replace('<', "<vp").replace('\u{E001}', "</vp").replace("<vpvp", "<vp").replace("</vpvp", "</vp")
}

fn unmark(s: &str) -> String {
    let mut s = s.replace("vp", ""); // (not a text that is generated)
    // (Without the semicolon: a bare URL can end just before it.)
    for m in MADE {
        s = s.replace(hex(m).trim_end_matches(';'), &format!("&#{m}"));
    }
    s
}

/// The same character reference in hexadecimal form (which is, like the
/// decimal one, dropped from generated section IDs).
fn hex(m: &str) -> String {
    format!("&#x{:x};", m.parse::<u32>().unwrap_or(0))
}

fn mark_refs(s: &str) -> String {
    let mut s = s.to_string();
    for m in MADE {
        s = s.replace(&format!("&#{m};"), &hex(m));
    }
    s
}

impl InlineSubstitutionRenderer for Marked {
    fn render_special_character(&self, t: SpecialCharacter, d: &mut String) {
        self.0.render_special_character(t, d);
    }
    fn render_quoted_substitition(&self, t: QuoteType, s: QuoteScope, a: Option<Attrlist<'_>>, id: Option<String>, b: &str, d: &mut String) {
        let mut o = String::new();
        self.0.render_quoted_substitition(t, s, a, id, BODY, &mut o);
        let o = mark_refs(&mark(&o));
        d.push_str(&o.replace(BODY, b));
    }
    fn render_character_replacement(&self, t: CharacterReplacementType, d: &mut String) {
        if let CharacterReplacementType::CharacterReference(_) = t {
            return self.0.render_character_replacement(t, d);
        }
        let mut o = String::new();
        self.0.render_character_replacement(t, &mut o);
        d.push_str(&mark_refs(&o));
    }
    fn render_line_break(&self, d: &mut String) {
        let mut o = String::new();
        self.0.render_line_break(&mut o);
        d.push_str(&mark(&o));
    }
    fn render_image(&self, p: &ImageRenderParams, d: &mut String) {
        let mut o = String::new();
        self.0.render_image(p, &mut o);
        d.push_str(&mark(&o));
    }
    fn image_uri(&self, t: &str, p: &Parser, k: Option<&str>) -> String {
        self.0.image_uri(t, p, k)
    }
    fn render_icon(&self, p: &IconRenderParams, d: &mut String) {
        let mut o = String::new();
        self.0.render_icon(p, &mut o);
        d.push_str(&mark(&o));
    }
    fn render_link(&self, p: &LinkRenderParams, d: &mut String) {
        let mut o = String::new();
        let mut q = p.clone();
        q.link_text = BODY.into();
        self.0.render_link(&q, &mut o);
        d.push_str(&mark(&o).replace(BODY, &p.link_text));
    }
    fn render_anchor(&self, id: &str, r: Option<String>, d: &mut String) {
        let mut o = String::new();
        self.0.render_anchor(id, r, &mut o);
        d.push_str(&mark(&o));
    }
}

fn pieces(l: &str) -> String {
    let mut s = l.to_string();
    for m in MADE {
        s = s.replace(hex(m).trim_start_matches("&#").trim_end_matches(';'), m);
    }
    s
}

const MADE: &[&str] = &["169", "174", "8482", "8201", "8212", "8203", "8230", "8592", "8656", "8594", "8658", "8217", "8220", "8221", "8216"];

/// Text that can hold tags or references which no renderer made.
fn raw(s: &str) -> bool {
    ["+++", "pass", "subs", "[stem", "{set", "\u{96}", "\u{97}", "&#", "[source", "++++", "\u{E000}"].iter().any(|x| s.contains(x))
}

fn compare(src: &str, cx: &mut Cx, api: &[(&str, &str)]) -> Outcome {
    let mut p = Parser::default();
    let mut q = Parser::default().with_inline_substitution_renderer(Marked(HtmlSubstitutionRenderer {}));
    for (k, v) in api {
        p = p.with_intrinsic_attribute(k, v, ModificationContext::Anywhere);
        q = q.with_intrinsic_attribute(k, v, ModificationContext::Anywhere);
    }
    let v = sem::View { trim: false, blank: false, line: Some(0), spans: true };
    let (d, e) = (p.parse(src), q.parse(src));
    let want: Vec<String> = sem::all(v, &d).iter().map(|l| unmark(l)).collect();
    let marked = sem::all(v, &e);
    cx.nontrivial(marked.iter().any(|l| l.contains("<vp") || l.contains("&#x")));
    let mut got: Vec<String> = marked.iter().map(|l| unmark(l)).collect();
    let mut want = want;
    // Pieces of references get into IDs (from titles that have a bare URL
    // just before a reference, from shorthand in attribute lists).
    for l in want.iter_mut().chain(got.iter_mut()) {
        *l = pieces(l);
    }
    if let Some(m) = sem::diff(&want, &got) {
        return Err(format!("with a renderer of the caller: {m}\n  for {src:?}"));
    }
    if raw(src) {
        cx.label("raw output possible");
        return Ok(());
    }
    for b in crate::walk::blocks(&e) {
        // A comment's text is not rendered.
        if b.raw_context().as_ref() == "comment" || b.raw_context().as_ref() == "pass" {
            continue;
        }
        for t in [b.rendered_content(), b.title()].into_iter().flatten() {
            bypass(t, src)?;
        }
    }
    bypass(e.header().title().unwrap_or(""), src)
}

fn bypass(t: &str, src: &str) -> Outcome {
    for (i, _) in t.match_indices('<') {
        let r = t[i + 1..].trim_start_matches('/');
        ensure!(r.starts_with("vp"), "the tag {:?} does not come from the renderer: {t:?}\n  for {src:?}", &t[i..].chars().take(12).collect::<String>());
    }
    for m in MADE {
        ensure!(!t.contains(&format!("&#{m};")), "&#{m}; does not come from the renderer: {t:?}\n  for {src:?}");
    }
    Ok(())
}

fn api(g: &mut G) -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    for (k, xs) in [("icons", ["font", "", "image"]), ("experimental", ["", "", ""]), ("hardbreaks-option", ["", "", ""]), ("name", ["*x* (C)", "a -- b", "http://a.b"]), ("hide-uri-scheme", ["", "", ""])] {
        if g.p(15) {
            v.push((k, g.of(&xs)));
        }
    }
    v
}

fn inline(g: &mut G, cx: &mut Cx) -> Outcome {
    let t = gens::inline_soup(g, 10);
    let src = match g.u(6) {
        0..=2 => t,
        3 => format!("= {t}\n\n== {t}\n\n.{t}\npara"),
        4 => format!("[subs=normal]\n----\n{t}\n----"),
        // (Not in the first position, which is split at marks for shorthand.)
        _ => format!("[title='{t}', reftext='{t}']\npara {t}"),
    };
    cx.input(src.clone());
    compare(&src, cx, &api(g))
}

fn docs(g: &mut G, cx: &mut Cx) -> Outcome {
    let src = if g.p(40) {
        let d = docgen::doc(g, &docgen::Cfg::default());
        docgen::write_doc(g, &d).src
    } else {
        gens::doc_soup(g, 12)
    };
    cx.input(src.clone());
    compare(&src, cx, &api(g))
}

// ------------------------------------------------------- parameters ---------

/// A renderer that is not HTML at all: it spells out its parameters.
#[derive(Debug)]
struct Spell;

fn opt(s: Option<&str>) -> String {
    s.unwrap_or("-").to_string()
}

impl InlineSubstitutionRenderer for Spell {
    fn render_special_character(&self, t: SpecialCharacter, d: &mut String) {
        d.push_str(&format!("\u{27e8}{t:?}\u{27e9}"));
    }
    fn render_quoted_substitition(&self, t: QuoteType, s: QuoteScope, a: Option<Attrlist<'_>>, id: Option<String>, b: &str, d: &mut String) {
        let roles = a.as_ref().map(|a| a.roles().join(" ")).unwrap_or_default();
        d.push_str(&format!("\u{27e8}{t:?} {s:?} {} {} {roles:?}:{b}\u{27e9}", a.is_some(), opt(id.as_deref())));
    }
    fn render_character_replacement(&self, t: CharacterReplacementType, d: &mut String) {
        d.push_str(&format!("\u{27e8}{t:?}\u{27e9}"));
    }
    fn render_line_break(&self, d: &mut String) {
        d.push_str("\u{27e8}br\u{27e9}");
    }
    fn render_image(&self, p: &ImageRenderParams, d: &mut String) {
        let uri = self.image_uri(p.target, p.parser, None);
        d.push_str(&format!("\u{27e8}image {} {} {:?} {} {} {}\u{27e9}", p.target, uri, p.alt, opt(p.width), opt(p.height), opt(p.attrlist.named_attribute("title").map(|a| a.value()))));
    }
    fn image_uri(&self, t: &str, p: &Parser, k: Option<&str>) -> String {
        format!("uri({t},{},{})", opt(k), sem::value(&p.attribute_value("where")))
    }
    fn render_icon(&self, p: &IconRenderParams, d: &mut String) {
        let uri = self.icon_uri(p.target, p.attrlist, p.parser);
        d.push_str(&format!("\u{27e8}icon {} {} {:?} {}\u{27e9}", p.target, uri, p.alt, opt(p.size)));
    }
    fn render_link(&self, p: &LinkRenderParams, d: &mut String) {
        d.push_str(&format!("\u{27e8}link {} {:?} {} {} {}\u{27e9}", p.target, p.extra_roles, opt(p.window), opt(p.attrlist.named_attribute("id").map(|a| a.value())), p.link_text));
    }
    fn render_anchor(&self, id: &str, r: Option<String>, d: &mut String) {
        d.push_str(&format!("\u{27e8}anchor {id} {}\u{27e9}", opt(r.as_deref())));
    }
}

const W: &[&str] = &["x", "foo", "caf\u{e9}", "a b", "1"];

fn piece(g: &mut G, wher: &str) -> (String, String) {
    let l = '\u{27e8}';
    let r = '\u{27e9}';
    match g.u(9) {
        0 | 1 => {
            let (o, c, t, s) = g.of(&[
                ("*", "*", "Strong", "Constrained"),
                ("**", "**", "Strong", "Unconstrained"),
                ("_", "_", "Emphasis", "Constrained"),
                ("__", "__", "Emphasis", "Unconstrained"),
                ("`", "`", "Monospaced", "Constrained"),
                ("``", "``", "Monospaced", "Unconstrained"),
                ("#", "#", "Mark", "Constrained"),
                ("##", "##", "Mark", "Unconstrained"),
                ("^", "^", "Superscript", "Unconstrained"),
                ("~", "~", "Subscript", "Unconstrained"),
                ("\"`", "`\"", "DoubleQuote", "Constrained"),
                ("'`", "`'", "SingleQuote", "Constrained"),
            ]);
            let b = if o == "^" || o == "~" { "x2" } else { g.of(W) };
            let (al, has, id, roles) = g.of(&[("", false, "-", ""), ("", false, "-", ""), ("[.r1.r2]", true, "-", "r1 r2"), ("[#i-d.r]", true, "i-d", "r"), ("[role=z]", true, "-", "z"), ("[id=q]", true, "q", "")]);
            // `#` in the list would be taken for a mark (they come before ^ and ~).
            let (al, has, id, roles) = if (o == "^" || o == "~") && al.contains('#') { ("", false, "-", "") } else { (al, has, id, roles) };
            let t = if t == "Mark" && has { "Unquoted" } else { t };
            // A passthrough with a list makes the same kind of span.
            if has && g.p(15) {
                let (o, c) = g.of(&[("+", "+"), ("++", "++"), ("+++", "+++"), ("$$", "$$")]);
                return (format!("{al}{o}{b}{c}"), format!("{l}Unquoted Unconstrained {has} {id} {roles:?}:{b}{r}"));
            }
            (format!("{al}{o}{b}{c}"), format!("{l}{t} {s} {has} {id} {roles:?}:{b}{r}"))
        }
        2 => {
            let (s, t) = g.of(&[("(C)", "Copyright"), ("(R)", "Registered"), ("(TM)", "Trademark"), ("x...", "Ellipsis"), ("&#167;", "CharacterReference(\"#167\")")]);
            if let Some(p) = s.strip_suffix("...") {
                return (s.into(), format!("{p}{l}{t}{r}"));
            }
            // (Only HTML's form of an escaped ampersand is taken for a reference.)
            if s.starts_with('&') {
                return ("(C)".into(), format!("{l}Copyright{r}"));
            }
            (s.into(), format!("{l}{t}{r}"))
        }
        3 => {
            let (s, t) = g.of(&[("a&b", "a|Ampersand|b"), ("a<b", "a|Lt|b"), ("a>b", "a|Gt|b"), ("<>&", "|Lt||Gt||Ampersand|")]);
            let mut out = String::new();
            let mut open = true;
            for c in t.chars() {
                if c == '|' {
                    out.push(if open { l } else { r });
                    open = !open;
                } else {
                    out.push(c);
                }
            }
            (s.into(), out)
        }
        4 => {
            let alt = g.of(&["", "Alt", "An alt"]);
            let (tail, w, h, t) = g.of(&[("", "-", "-", "-"), (",10", "10", "-", "-"), (",10,20", "10", "20", "-"), (",title=T", "-", "-", "T"), (",height=5", "-", "5", "-")]);
            if alt.is_empty() && !tail.is_empty() {
                return ("w".into(), "w".into());
            }
            let shown = if alt.is_empty() { "s un" } else { alt };
            (format!("image:s_un.png[{alt}{tail}]"), format!("{l}image s_un.png uri(s_un.png,-,{wher}) {shown:?} {w} {h} {t}{r}"))
        }
        5 => {
            let (s, z) = g.of(&[("", "-"), ("2x", "2x"), ("size=lg", "lg")]);
            (format!("icon:heart[{s}]"), format!("{l}icon heart uri(heart.png,iconsdir,{wher}) \"heart\" {z}{r}"))
        }
        6 => {
            let b = g.of(W);
            let (tail, win, id) = g.of(&[("", "-", "-"), ("^", "_blank", "-"), (",id=i", "-", "i")]);
            let b2 = if tail.is_empty() { b } else { "Text" };
            (format!("link:t.html[{b2}{tail}]"), format!("{l}link t.html [] {win} {id} {b2}{r}"))
        }
        7 => match g.u(3) {
            0 => ("https://x.y/z".into(), format!("{l}link https://x.y/z [\"bare\"] - - https://x.y/z{r}")),
            1 => ("https://x.y/z[T u]".into(), format!("{l}link https://x.y/z [] - - T u{r}")),
            _ => ("me@x.org".into(), format!("{l}link mailto:me@x.org [] - - me@x.org{r}")),
        },
        _ => match g.u(3) {
            0 => ("[[a-b]]w".into(), format!("{l}anchor a-b -{r}w")),
            1 => ("[[a,Ref text]]w".into(), format!("{l}anchor a Ref text{r}w")),
            _ => ("anchor:z[Ref]w".into(), format!("{l}anchor z Ref{r}w")),
        },
    }
}

fn spell(g: &mut G, cx: &mut Cx) -> Outcome {
    let (wv, ws) = g.of(&[("up", "\"up\""), ("", "\"\"")]);
    let mut src = vec!["w".to_string()];
    let mut want = vec!["w".to_string()];
    for _ in 0..g.range(1, 8) {
        let (s, w) = piece(g, ws);
        src.push(s);
        want.push(w);
        if g.p(40) {
            src.push("and".into());
            want.push("and".into());
        }
    }
    let brk = g.p(25);
    let (mut t, mut w) = (src.join(" "), want.join(" "));
    if brk {
        t.push_str(" +\nend");
        w.push_str("\u{27e8}br\u{27e9}\nend");
    }
    let c = ctx::any(g, &t);
    let c = if brk { ctx::Ctx::Para } else { c };
    cx.input(t.clone());
    cx.nontrivial(src.len() > 2);
    let mut p = Parser::default().with_inline_substitution_renderer(Spell).with_intrinsic_attribute("where", wv, ModificationContext::Anywhere);
    let (src, got) = ctx::render_in(&mut p, c, &t)?;
    ensure_eq!(w, got, "rendering of {src:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "the renderer made something (a tag or a replacement)",
        assumptions: &[
            "`inline` and `docs`: the renderer's tags have other names but the form of tags, since later substitutions look at characters around them",
            "texts that ask for raw output are compared but not searched for tags that bypass the renderer",
        ],
        families: vec![
            Family { name: "inline", run: inline, quick: 150_000, thorough: 3_000_000 },
            Family { name: "docs", run: docs, quick: 60_000, thorough: 1_000_000 },
            Family { name: "spell", run: spell, quick: 150_000, thorough: 2_000_000 },
        ],
    }
}
