//! Inline formatting, replacements and attribute references against the
//! reference model in `inl`.

use asciidoc_parser::{Parser, parser::ModificationContext};

use crate::{ctx, engine::*, gens, inl};

const WORDS: &[&str] = &["a", "b", "foo", "Bar", "x1", "caf\u{e9}", "\u{4e2d}", "9", "\u{df}e"];
const NONWORD: &[&str] = &[" ", " ", " ", ",", ".", "!", "(", ")", "\u{2014}", "\u{1F600}", "-", "/", ";", ":", "}", "&", "'", "\"", "<", ">", "=", "\n", "\\"];
const ATTRS: &[&str] = &["[r]", "[.r]", "[.r1.r2]", "[#i]", "[#i.r]", "[.r#i]", "[big red]", "[]"];

const VARS: &[(&str, &str)] = &[("val", "value"), ("two", "one *two* three"), ("sp", " "), ("lt", "&lt;"), ("ref", "{val}"), ("empty", "")];

fn lookup(n: &str) -> Option<String> {
    VARS.iter().find(|(k, _)| *k == n).map(|(_, v)| v.to_string())
}

fn parser() -> Parser {
    let mut p = Parser::default();
    for (k, v) in VARS {
        if *k != "sp" && *k != "empty" {
            p = p.with_intrinsic_attribute(*k, *v, ModificationContext::Anywhere);
        }
    }
    p
}

/// Join tokens into text all of whose lines are plain paragraph lines.
fn finish(toks: Vec<String>) -> String {
    let t = toks.concat();
    let mut lines: Vec<String> = vec![];
    for l in t.split('\n') {
        let mut l = l.trim().to_string();
        if l.is_empty() {
            continue;
        }
        if !l.chars().any(char::is_alphanumeric) {
            l += if lines.len() % 2 == 0 { " w" } else { ", w" };
        }
        if !ctx::plain_line(&l) {
            l = format!("w {l}");
        }
        if !ctx::plain_line(&l) {
            continue;
        }
        lines.push(l);
    }
    if lines.is_empty() {
        lines.push("w".into());
    }
    lines.join("\n")
}

fn excluded(t: &str) -> bool {
    // Would trigger macros or passthroughs, which this model leaves out.
    t.contains("[[") || t.contains("((") || t.contains("<<") || t.contains("://") || t.contains("pass:") || t.contains('@')
}

fn compare(g: &mut G, cx: &mut Cx, t: &str) -> Outcome {
    let c = ctx::any(g, t);
    let src = ctx::embed(c, t);
    cx.input(src);
    if excluded(t) {
        return Ok(());
    }
    let mut n = inl::Notes::default();
    let want = inl::normal(t, &lookup, &mut n);
    if n.unsure {
        cx.label("outside the model");
        return Ok(());
    }
    cx.nontrivial(n.applied >= 1 || want != inl::escape(t));
    cx.label_if(n.applied >= 2, "2+ substitutions");
    cx.label_if(c != ctx::Ctx::Para, "not a plain paragraph");
    cx.label_if(t.contains('\n'), "several lines");
    cx.label_if(t.contains('\\'), "escapes");
    let (src, got) = ctx::render_in(&mut parser(), c, t)?;
    ensure_eq!(want, got, "rendering of {t:?} in {src:?}");
    Ok(())
}

fn quote_tok(g: &mut G) -> String {
    match g.w(&[8, 10, 8, 2, 2]) {
        0 => g.of(WORDS).to_string(),
        1 => g.of(&["*", "*", "_", "_", "`", "`", "#", "#", "**", "__", "``", "##", "^", "^", "~", "~", "\"`", "`\"", "'`", "`'"]).to_string(),
        2 => g.of(NONWORD).to_string(),
        3 => g.of(ATTRS).to_string(),
        _ => "\\".to_string(),
    }
}

fn quote_soup(g: &mut G, cx: &mut Cx) -> Outcome {
    let t = finish(g.list(2, 14, quote_tok));
    compare(g, cx, &t)
}

/// One or two kinds of marks only, so that matches (and near misses) are dense.
fn quote_dense(g: &mut G, cx: &mut Cx) -> Outcome {
    let m = g.of(&["*", "_", "`", "#", "^", "~", "\"`", "'`"]);
    let m2 = g.of(&["*", "_", "#", "^"]);
    let close: String = m.chars().rev().collect();
    let toks = g.list(2, 12, |g| match g.w(&[5, 5, 5, 4, 2, 2, 1, 1, 1]) {
        8 => g.of(&["\n", " \n", "\t"]).to_string(),
        0 => m.to_string(),
        1 => close.clone(),
        2 => g.of(WORDS).to_string(),
        3 => g.of(NONWORD).to_string(),
        4 => m.repeat(2),
        5 => m2.to_string(),
        6 => g.of(ATTRS).to_string(),
        _ => "\\".to_string(),
    });
    let t = finish(toks);
    compare(g, cx, &t)
}

/// Well-formed nesting in chosen surroundings, so that every rule is exercised
/// as intended use.
fn nested(g: &mut G, d: usize, used: &mut Vec<char>) -> String {
    let parts = g.list(1, 3, |g| {
        if d == 0 || g.p(35) {
            return g.of(WORDS).to_string();
        }
        let avail: Vec<char> = "*_`#^~\"'".chars().filter(|c| !used.contains(c) && !(used.contains(&'`') && "\"'".contains(*c)) && !(*c == '`' && (used.contains(&'"') || used.contains(&'\'')))).collect();
        if avail.is_empty() {
            return g.of(WORDS).to_string();
        }
        let c = g.of(&avail);
        used.push(c);
        let sup = c == '^' || c == '~';
        let body = if sup { g.of(WORDS).to_string() } else { nested(g, d - 1, used) };
        used.pop();
        let attrs = if g.p(25) && !"\"'".contains(c) { g.of(ATTRS) } else { "" };
        match c {
            '"' => format!("\"`{body}`\""),
            '\'' => format!("'`{body}`'"),
            c if sup => format!("{attrs}{c}{body}{c}"),
            c if g.p(40) => format!("{attrs}{c}{c}{body}{c}{c}"),
            c => format!("{attrs}{c}{body}{c}"),
        }
    });
    let sep = g.of(&[" ", " ", ", ", ""]);
    parts.join(sep)
}

fn quote_nested(g: &mut G, cx: &mut Cx) -> Outcome {
    let n = g.range(1, 3);
    let mut toks = vec![];
    for i in 0..n {
        if i > 0 {
            toks.push(g.of(&[" ", "\n", ", ", " (", ") ", ""]).to_string());
        }
        toks.push(g.of(&["", "", "w ", "w", "(", "\\"]).to_string());
        toks.push(nested(g, 3, &mut vec![]));
        toks.push(g.of(&["", "", " w", "w", ")", ".", ","]).to_string());
    }
    let t = finish(toks);
    compare(g, cx, &t)
}

const REPL: &[&str] = &[
    "(C)", "(R)", "(TM)", "--", " -- ", "...", "`'", "'", "->", "=>", "<-", "<=", "&amp;", "&#169;", "&#xA9;", "&copy;", "&frac12;", "&a;", "&#1;", "&#1234567;", "&#x1;", "&#xABCDEF;", "&lt;", "(c)", "(T)", "..", "-", "<", ">", "&", "(C", "C)",
];

fn repl_tok(g: &mut G) -> String {
    match g.w(&[10, 8, 3, 4, 1, 2]) {
        5 => gens::char_ref(g),
        0 => g.of(REPL).to_string(),
        1 => g.of(WORDS).to_string(),
        2 => "\\".to_string(),
        3 => g.of(&[" ", " ", "\n", ",", "_", "(", ")"]).to_string(),
        _ => g.of(&["*", "*", "#"]).to_string(),
    }
}

fn repl_soup(g: &mut G, cx: &mut Cx) -> Outcome {
    let t = finish(g.list(2, 12, repl_tok));
    compare(g, cx, &t)
}

fn attr_tok(g: &mut G) -> String {
    match g.w(&[10, 6, 4, 3]) {
        0 => g.of(&["{val}", "{val}", "{two}", "{sp}", "{lt}", "{ref}", "{empty}", "{undefined}", "\\{val}", "\\{undefined}", "{val", "val}", "{}", "{-x}", "{v al}", "{{val}}", "{a_b-c}", "{1}"]).to_string(),
        1 => g.of(WORDS).to_string(),
        2 => g.of(&[" ", " ", ",", "\n", "-", "\\"]).to_string(),
        _ => g.of(&["*", "_", "#", "`", "(C)", "'", "--", "..."]).to_string(),
    }
}

pub fn attr_soup(g: &mut G, cx: &mut Cx) -> Outcome {
    let t = finish(g.list(2, 10, attr_tok));
    compare(g, cx, &t)
}

fn mixed(g: &mut G, cx: &mut Cx) -> Outcome {
    let t = finish(g.list(2, 14, |g| match g.u(3) {
        0 => quote_tok(g),
        1 => repl_tok(g),
        _ => attr_tok(g),
    }));
    compare(g, cx, &t)
}

/// The documented marks, one at a time, in every kind of surrounding.
pub fn formatting() -> Prop {
    Prop {
        id: "C14",
        rule: "at least one mark was recognised (or a backslash spent) by the model, or its output differs from plain escaping",
        assumptions: &[
            "Texts are compared with a reference model of the quotes substitution written from the language description; text in which the model meets a monospaced span directly followed by a quote character is skipped (counted as 'outside the model').",
            "No macros or passthroughs in the text (C15, C17, C18 cover those), no attribute lists before curved quotes.",
        ],
        families: vec![
            Family { name: "soup", run: quote_soup, quick: 400_000, thorough: 8_000_000 },
            Family { name: "dense", run: quote_dense, quick: 400_000, thorough: 8_000_000 },
            Family { name: "nested", run: quote_nested, quick: 300_000, thorough: 6_000_000 },
        ],
    }
}

pub fn replacements() -> Prop {
    Prop {
        id: "C16",
        rule: "the model replaced something or spent a backslash",
        assumptions: &[
            "A double hyphen between a word character and a line boundary is outside the model (the documentation and other processors disagree).",
        ],
        families: vec![
            Family { name: "repl", run: repl_soup, quick: 800_000, thorough: 12_000_000 },
            Family { name: "mixed", run: mixed, quick: 200_000, thorough: 4_000_000 },
        ],
    }
}
