//! Passthroughs: content is protected from every substitution but the ones
//! that the construct asks for.

use asciidoc_parser::{Parser, document::InterpretedValue, parser::ModificationContext};

use crate::{ctx, engine::*, inl};

const VARS: &[(&str, &str)] = &[("val", "value"), ("lt", "&lt;"), ("st", "*not bold*")];

fn lookup(n: &str) -> Option<String> {
    VARS.iter().find(|(k, _)| *k == n).map(|(_, v)| v.to_string())
}

fn parser() -> Parser {
    VARS.iter().fold(Parser::default(), |p, (k, v)| p.with_intrinsic_attribute(*k, *v, ModificationContext::Anywhere))
}

const PAY: &[&str] = &[
    "x", "<b>", "</b>", "<", ">", "&", "&amp;", "&#8201;", "*s*", "**u**", "_e_", "`m`", "#k#", "^p^", "~b~", "{val}", "{lt}", "{st}", "{nope}", "\\{val}", "(C)", "(TM)", "...", "a--b", "it's", "->", "=>", "<-", "image:a.png[]", "http://a.b", "http://a.b[t]", "link:u[v]", "[[an]]", "me@x.org", "\\", "\"`q`\"", "'`q`'", "caf\u{e9}", "\u{4e2d}", "\u{1F600}", "\u{96}", "\u{97}", "\u{96}0\u{97}", "1", "9", "(", ")", ".", ",", "|", "!", "\"", "'", "/", "@", "%", "=",
];

/// Payload without any of `bad`, no surrounding blanks.
fn payload(g: &mut G, bad: &[&str], nl: bool) -> String {
    let v = g.list(1, 6, |g| match g.w(&[10, 3, if nl { 1 } else { 0 }]) {
        0 => g.of(PAY).to_string(),
        1 => " ".to_string(),
        _ => "\nw ".to_string(),
    });
    let mut t = v.concat();
    for b in bad {
        while t.contains(b) {
            t = t.replace(b, "");
        }
    }
    let t = t.trim_matches(|c: char| c == '\\' || c.is_whitespace()).to_string();
    if t.is_empty() || t.contains("\n\n") || t.lines().any(|l| l.trim().is_empty()) { "x".into() } else { t }
}

const ATTRS: &[&str] = &["[r]", "[.r]", "[.a.b]", "[#i]", "[#i.r]", "[r x-y]"];

/// Source and expected rendering of one passthrough.  `None` source prefix
/// means it may stand anywhere; `constrained` ones need non-word neighbours.
struct Seg {
    src: String,
    out: String,
    constrained: bool,
}

fn seg(g: &mut G, nl: bool, header: bool, n: &mut inl::Notes) -> Seg {
    let kind = g.w(&[3, 3, 2, 3, 3, 4, if header { 0 } else { 2 }, if header { 0 } else { 2 }, if header { 0 } else { 3 }]);
    let attrs = if !header && matches!(kind, 0..=3) && g.p(30) { g.of(ATTRS) } else { "" };
    let span = |body: String| -> String { if attrs.is_empty() { body } else { inl::wrap("span", Some(&attrs[1..attrs.len() - 1]), &body) } };
    match kind {
        0 => {
            let t = payload(g, &["+"], nl);
            Seg { src: format!("{attrs}+++{t}+++"), out: span(t), constrained: false }
        }
        1 => {
            let t = payload(g, &["+"], nl);
            Seg { src: format!("{attrs}++{t}++"), out: span(inl::escape(&t)), constrained: false }
        }
        2 => {
            let t = payload(g, &["$"], nl);
            Seg { src: format!("{attrs}$${t}$$"), out: span(inl::escape(&t)), constrained: false }
        }
        3 => {
            let t = payload(g, &["+"], nl);
            Seg { src: format!("{attrs}+{t}+"), out: span(inl::escape(&t)), constrained: true }
        }
        4 => {
            let t = payload(g, &["]", "["], nl);
            let (w, t) = if g.p(25) { (t.replace('x', "x\\]"), t.replace('x', "x]")) } else { (t.clone(), t) };
            // Blanks and line ends at the ends of the text are part of it.
            let (a, b) = if nl && g.p(15) { (g.of(&["", "\n", " "]), g.of(&["\n", " "])) } else if g.p(15) { (g.of(&["", " ", "  "]), g.of(&["", " ", "  "])) } else { ("", "") };
            Seg { src: format!("pass:[{a}{w}{b}]"), out: format!("{a}{t}{b}"), constrained: false }
        }
        5 => {
            let (w, names): (&str, &str) = g.of(&[
                ("c", "c"), ("q", "q"), ("a", "a"), ("r", "r"), ("p", "p"), ("c,q", "cq"), ("q,c", "qc"), ("c,a", "ca"), ("a,c", "ac"), ("c,r", "cr"), ("specialchars", "c"), ("quotes", "q"), ("attributes", "a"), ("replacements", "r"), ("c,q,a,r", "cqar"), ("quotes,attributes", "qa"), ("v", "c"), ("verbatim", "c"), ("n", "cqarmp"), ("normal", "cqarmp"), ("m", "m"), ("none", ""), ("specialcharacters,quotes", "cq"), ("n,-q", "carmp"), ("c,q,-c", "q"), ("normal,-specialchars,-m", "qarp"), ("c,a,-a", "c"), ("v,-q", "c"),
            ]);
            let mut bad = vec!["]", "["];
            if names.contains('m') {
                bad.extend(["+", "$$", "\u{96}", "\u{97}", "://", "@", "((", "pass:"]);
            }
            let t = payload(g, &bad, nl);
            let out = inl::steps(&t, names, &lookup, n);
            Seg { src: format!("pass:{w}[{t}]"), out, constrained: false }
        }
        6 => {
            // Literal monospace.
            let t = payload(g, &["+", "`"], nl);
            Seg { src: format!("`+{t}+`"), out: format!("<code>{}</code>", inl::escape(&t)), constrained: true }
        }
        7 => {
            // Old-style monospace.
            let t = payload(g, &["`", "+"], nl);
            let (w, a) = g.of(&[("x-", ""), ("x-", ""), (".s x-", ".s"), ("#i.r x-", "#i.r"), ("r x-", "r"), ("\u{e9} x-", "\u{e9}")]);
            Seg { src: format!("[{w}]`{t}`"), out: inl::wrap("code", Some(a), &inl::escape(&t)), constrained: true }
        }
        _ => {
            let t = payload(g, &["+", "$"], nl);
            let e = inl::escape(&t);
            match g.u(11) {
                // Only (double) plus signs and graves have the old style.
                9 => Seg { src: format!("[x-]$${t}$$"), out: inl::wrap("span", Some("x-"), &e), constrained: false },
                10 => Seg { src: format!("[r x-]+++{t}+++"), out: inl::wrap("span", Some("r x-"), &t), constrained: false },
                // The backslash is for the attribute list only.
                0 => Seg { src: format!("\\[r]++{t}++"), out: format!("[r]{e}"), constrained: false },
                1 => Seg { src: format!("\\[r]+++{t}+++"), out: format!("[r]{t}"), constrained: false },
                2 => Seg { src: format!("\\[r]$${t}$$"), out: format!("[r]{e}"), constrained: false },
                // The list is not one after a colon or semicolon.
                3 => Seg { src: format!("/:[r]+{t}+"), out: format!("/:[r]{e}"), constrained: true },
                4 => Seg { src: format!("/;[r]+{t}+"), out: format!("/;[r]{e}"), constrained: true },
                5 => Seg { src: g.of(&["pass:[]", "pass:c[]", "pass:q,a[]"]).into(), out: String::new(), constrained: false },
                // Old-style: monospaced, with the normal substitutions.
                6 | 7 => {
                    let t = payload(g, &["+", "$$", "]", "[", "\u{96}", "\u{97}", "://", "@", "((", "pass:"], nl);
                    let out = inl::steps(&t, "cqarmp", &lookup, n);
                    let (w, a) = g.of(&[("x-", ""), (".s x-", ".s"), ("#i.r x-", "#i.r"), ("r x-", "r"), ("\u{e9} x-", "\u{e9}")]);
                    Seg { src: format!("[{w}]++{t}++"), out: inl::wrap("code", Some(a), &out), constrained: false }
                }
                _ => {
                    let t = payload(g, &["+", "$$", "]", "[", "\u{96}", "\u{97}", "://", "@", "((", "pass:"], nl);
                    let out = inl::steps(&t, "cqarmp", &lookup, n);
                    Seg { src: format!("[x-]+{t}+"), out: inl::wrap("code", Some(""), &out), constrained: true }
                }
            }
        }
    }
}

fn pua(i: usize) -> char {
    char::from_u32(0xE000 + i as u32).unwrap()
}

const AROUND: &[&str] = &["w ", "w, ", "(", " *b* ", "_e_ ", "{val} ", "a & b ", "it's ", "9 ", " < ", "\u{4e2d} ", ""];

/// Builds text with passthroughs; expected rendering by substituting
/// private-use characters for them in the model.
fn build(g: &mut G, k: usize, nl: bool, header: bool, n: &mut inl::Notes) -> (String, String, Vec<String>) {
    let mut src = String::from("w ");
    let mut model = String::from("w ");
    let mut outs = vec![];
    for i in 0..k {
        let s = seg(g, nl, header, n);
        let a = g.of(AROUND);
        let a = if header { a.replace(['*', '_', '\''], "") } else { a.to_string() };
        src.push_str(&a);
        model.push_str(&a);
        let (mut l, mut r) = match if header { 0 } else { g.w(&[6, 1, 1, 1]) } {
            0 => ("", ""),
            1 => ("*", "*"),
            2 => ("__", "__"),
            _ => ("#", "#"),
        };
        if s.constrained {
            // Formatting marks are non-word neighbours, except the
            // underscore.
            if l == "__" {
                (l, r) = ("(", ")");
            }
            let ok = src.chars().last().is_none_or(|c| !inl::is_word(c) && !"\\:;".contains(c) && (c != '&'));
            if !ok {
                src.push(' ');
                model.push(' ');
            }
        }
        if (s.src.starts_with('[') || s.src.starts_with('`')) && src.ends_with(['\\', '`', '"', '\'', '}', ';', ':', '&', '$', '+']) {
            src.push(' ');
            model.push(' ');
        }
        if src.ends_with(['+', '$']) {
            src.push(' ');
            model.push(' ');
        }
        src.push_str(l);
        src.push_str(&s.src);
        src.push_str(r);
        model.push_str(l);
        model.push(pua(i));
        model.push_str(r);
        outs.push(s.out);
        let t = if s.constrained || !l.is_empty() { g.of(&[" ", ", ", ". "]) } else { g.of(&[" ", ", ", " w ", "w "]) };
        src.push_str(t);
        model.push_str(t);
    }
    src.push('z');
    model.push('z');
    (src, model, outs)
}

fn fill(mut s: String, outs: &[String]) -> String {
    for (i, o) in outs.iter().enumerate() {
        s = s.replace(pua(i), o);
    }
    s
}

fn number(g: &mut G) -> usize {
    if g.p(12) { g.range(9, 14) } else { g.range(1, 4) }
}

fn protects(g: &mut G, cx: &mut Cx) -> Outcome {
    let k = number(g);
    several(g, cx, k)
}

/// So many that their numbers have three digits.
fn many(g: &mut G, cx: &mut Cx) -> Outcome {
    let k = if g.p(20) { g.range(250, 300) } else { g.range(95, 130) };
    several(g, cx, k)
}

fn several(g: &mut G, cx: &mut Cx, k: usize) -> Outcome {
    let mut n = inl::Notes::default();
    let nl = g.p(20);
    let (src, model, outs) = build(g, k, nl, false, &mut n);
    let c = ctx::any(g, &src);
    cx.input(ctx::embed(c, &src));
    let want = inl::normal(&model, &lookup, &mut n);
    if n.unsure || src.lines().any(|l| !ctx::plain_line(l)) {
        cx.label("outside the model");
        return Ok(());
    }
    let want = fill(want, &outs);
    cx.nontrivial(outs.iter().any(|o| o.chars().any(|c| !c.is_alphanumeric())));
    cx.label_if(outs.len() >= 10, "ten or more passthroughs");
    cx.label_if(src.contains('\n'), "across lines");
    cx.label_if(src.contains("pass:"), "pass macro");
    let (doc, got) = ctx::render_in(&mut parser(), c, &src)?;
    ensure_eq!(want, got, "rendering of {doc:?}");
    Ok(())
}

/// Document title and attribute values go through the header group: escaping,
/// attribute references and passthroughs only.
fn header(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut n = inl::Notes::default();
    let k = number(g);
    let (src, model, outs) = build(g, k, false, true, &mut n);
    let attr = g.p(50);
    let doc = if attr { format!("= T\n:name: {src}\n\npara") } else { format!("= {src}\n\npara") };
    cx.input(doc.clone());
    cx.nontrivial(true);
    let want = fill(inl::attributes(&inl::escape(&model), &lookup), &outs);
    if n.unsure {
        return Ok(());
    }
    let mut p = parser();
    let d = p.parse(&doc);
    if attr {
        match p.attribute_value("name") {
            InterpretedValue::Value(v) => ensure_eq!(want, v, "value of the attribute in {doc:?}"),
            o => return Err(format!("attribute is {o:?}")),
        }
    } else {
        ensure_eq!(Some(want.as_str()), d.header().title(), "document title of {doc:?}");
    }
    Ok(())
}

/// What does not qualify, or is escaped, is not a passthrough: the text gets
/// all normal substitutions.
fn not_pass(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut n = inl::Notes::default();
    let mut src = String::from("w");
    let mut model = String::from("w");
    for _ in 0..g.range(1, 4) {
        let w = g.of(&["x", "x1", "foo", "\u{e9}"]);
        let t = payload(g, &["+", "$", "]", "[", "\u{96}", "\u{97}", "://", "@", "((", "\\", "`", "pass:", "image:", "link:", "\n"], false);
        let (s, m) = match g.u(15) {
            13 => (format!("[r]\\\\$${t}$$ "), format!("[r]\\$${t}$$ ")),
            14 => (format!("\\[r]\\$${t}$$ "), format!("\\[r]$${t}$$ ")),
            12 => { let w = g.of(&["x", "x1", "foo", "\u{e9}", "b c"]); (format!("\\\\$${w}$$ "), format!("\\$${w}$$ ")) }
            10 => (format!("[r]\\\\+{t}+ "), format!("[r]\\+{t}+ ")),
            11 => (format!("[r]\\$${t}$$ "), format!("[r]$${t}$$ ")),
            7 => (format!("[r]\\+{t}+ "), format!("[r]+{t}+ ")),
            8 => (format!("[.a x-]\\+{t}+ "), format!("[.a x-]+{t}+ ")),
            9 => { let p = g.of(&[":", ";", "a:"]); (format!("{p}+{t}+ "), format!("{p}+{t}+ ")) }
            0 => (format!("a+{w}+ "), format!("a+{w}+ ")),
            1 => (format!("+{w}+b "), format!("+{w}+b ")),
            2 => (format!("\\+{t}+ "), format!("+{t}+ ")),
            3 => (format!("\\pass:[{t}] "), format!("pass:[{t}] ")),
            4 => (format!("\\pass:q,a[{t}] "), format!("pass:q,a[{t}] ")),
            5 => (format!("\\$${t}$$ "), format!("$${t}$$ ")),
            _ => (format!("{t} + "), format!("{t} + ")),
        };
        // `x + y` pairs with a later plus only if that one hugs a word.
        if s.ends_with(" + ") && (src.contains('+') || s[..s.len() - 3].contains('+')) {
            continue;
        }
        src = format!("{src} {s}");
        model = format!("{model} {m}");
        // An opening plus without its closing one would pair with a later one.
        if s.ends_with(" + ") || s.starts_with(&format!("+{w}+b")) {
            break;
        }
    }
    let src = src.trim_end().to_string();
    let model = model.trim_end().to_string();
    let c = ctx::any(g, &src);
    cx.input(ctx::embed(c, &src));
    let want = inl::normal(&model, &lookup, &mut n);
    if n.unsure {
        cx.label("outside the model");
        return Ok(());
    }
    cx.nontrivial(want != model);
    cx.label_if(src.contains('\\'), "escaped");
    let (doc, got) = ctx::render_in(&mut parser(), c, &src)?;
    ensure_eq!(want, got, "rendering of {doc:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "a passthrough holds a character other than letters and digits (protects, header); some substitution applies to the text (not-pass)",
        assumptions: &[
            "Passthrough content holds no closing mark of its own kind and no blanks or backslashes at its ends.",
            "Escaped triple and double plus are left out: the single-plus rule takes over the remainder.",
        ],
        families: vec![
            Family { name: "protects", run: protects, quick: 400_000, thorough: 8_000_000 },
            Family { name: "many", run: many, quick: 4_000, thorough: 60_000 },
            Family { name: "header", run: header, quick: 100_000, thorough: 2_000_000 },
            Family { name: "not-pass", run: not_pass, quick: 200_000, thorough: 4_000_000 },
        ],
    }
}
