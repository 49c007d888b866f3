//! C12: special characters are escaped exactly once, in every context, and
//! text cannot produce markup of its own.

use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
    document::InterpretedValue,
    parser::ModificationContext,
};

use crate::{ctx, engine::*, gens, inl, walk};

fn nolook(_: &str) -> Option<String> {
    None
}

fn plain_text(g: &mut G) -> String {
    let t = g.list(1, 12, |g| match g.w(&[6, 10, 3, 2, 1]) {
        0 => g.of(&["a", "foo", "x1", "caf\u{e9}", "\u{4e2d}"]).to_string(),
        1 => g.of(&["<", ">", "&", "<b>", "</b>", "&amp;", "&lt;", "<a href=x>", "<script>", "<!--", "]]>", "&&", "<<<x", "a<b>c&d", "&#", "&;", "<=x", "x=>", "&#39;", "&quot;", "x->y"]).to_string(),
        2 => " ".into(),
        3 => g.of(&["\n", "\"", "'", "=", ";", ",", "/"]).to_string(),
        _ => g.of(&["{nope}", "(", ")", "!", "?"]).to_string(),
    });
    let s = t.concat();
    let lines: Vec<String> = s
        .split('\n')
        .map(|l| l.trim())
        .filter(|l| !l.is_empty())
        .map(|l| if ctx::plain_line(l) { l.to_string() } else { format!("w {l}") })
        .collect();
    if lines.is_empty() { "a < b & c > d".into() } else { lines.join("\n") }
}

/// Exact rendering of text whose only special part is `<`, `>` and `&`.
fn exact(g: &mut G, cx: &mut Cx) -> Outcome {
    let t = plain_text(g);
    let one = t.replace('\n', " ");
    let mut n = inl::Notes::default();
    let kind = g.u(12);
    let normal = |t: &str, n: &mut inl::Notes| inl::normal(t, &nolook, n);
    let esc = inl::escape(&t);
    let esc1 = inl::escape(&one);
    let mut p = Parser::default();
    let (src, want, got) = match kind {
        0..=2 => {
            let c = ctx::any(g, &t);
            let (s, got) = ctx::render_in(&mut p, c, &t)?;
            (s, normal(&t, &mut n), got)
        }
        3 | 4 => {
            let (d, b) = g.of(&[("----", ""), ("....", ""), ("------", ".T\n"), ("----", "[source,rust]\n"), ("....", "[#i]\n"), ("----", "[subs=specialchars]\n"), ("++++", "[subs=verbatim]\n"), ("....", "[subs=-quotes]\n")]);
            let (o, c) = g.of(&[("", ""), ("====\n", "\n===="), ("== S\n\n", ""), ("para\n\n", "\n\npara")]);
            let s = format!("{o}{b}{d}\n{t}\n{d}{c}");
            let doc = p.parse(&s);
            let got = walk::blocks(&doc).into_iter().find_map(|b| if let Block::RawDelimited(_) = b { b.rendered_content().map(str::to_string) } else { None });
            let got = got.ok_or_else(|| format!("no delimited block in {s:?}"))?;
            (s.clone(), esc, got)
        }
        5 => {
            // Attribute value, read back and through a reference.
            let s = format!(":x: {one}\n\n{{x}}");
            let doc = p.parse(&s);
            let v = doc.header().attributes().next().ok_or("no attribute")?.value().clone();
            let got = doc.nested_blocks().next().and_then(|b| b.rendered_content()).map(str::to_string).unwrap_or_default();
            ensure_eq!(InterpretedValue::Value(esc1.clone()), v, "attribute value of {s:?}");
            (s.clone(), inl::replacements(&esc1, &mut n), got)
        }
        6 => {
            // Body attribute value.
            let s = format!("para\n\n:x: {one}\n\n{{x}}");
            let doc = p.parse(&s);
            let got = doc.nested_blocks().last().and_then(|b| b.rendered_content()).map(str::to_string).unwrap_or_default();
            (s.clone(), inl::replacements(&esc1, &mut n), got)
        }
        7 => {
            let s = format!("= {one}\n\npara");
            let doc = p.parse(&s);
            let got = doc.header().title().unwrap_or("?").to_string();
            (s.clone(), esc1, got)
        }
        8 => {
            let s = format!("a `+{one}+` b ++{one}++ c $${one}$$ d");
            let doc = p.parse(&s);
            let got = doc.nested_blocks().next().and_then(|b| b.rendered_content()).map(str::to_string).unwrap_or_default();
            (s.clone(), format!("a <code>{esc1}</code> b {esc1} c {esc1} d"), got)
        }
        9 => {
            let s = format!("*{one}* x **{one}** link:u[{one}]");
            if one.contains('=') || one.contains(']') || one.contains('"') || one.starts_with('\'') || one.starts_with(' ') || one.contains('\'') {
                cx.input(s);
                return Ok(());
            }
            let doc = p.parse(&s);
            let got = doc.nested_blocks().next().and_then(|b| b.rendered_content()).map(str::to_string).unwrap_or_default();
            let m = normal(&one, &mut n);
            (s.clone(), format!("<strong>{m}</strong> x <strong>{m}</strong> <a href=\"u\">{m}</a>"), got)
        }
        10 => {
            // Header values: an entry, the author's name, the remark.
            let (s, nm) = match g.u(3) {
                0 => (format!("= T\n:au: {one}\n\n{{au}}"), one.clone()),
                1 if !one.contains(['{', ';', '_']) => {
                    let nm = format!("A B C {one}");
                    (format!("= T\n{nm}\n\n{{{}}}", g.of(&["author", "firstname"])), nm)
                }
                _ => (format!("= T\nA B\nv1, 2020: {one}\n\n{{revremark}}"), one.clone()),
            };
            let nm = nm.as_str();
            let doc = p.parse(&s);
            let got = doc.nested_blocks().next().and_then(|b| b.rendered_content()).map(str::to_string).unwrap_or_default();
            (s.clone(), inl::replacements(&inl::escape(nm), &mut n), got)
        }
        _ => {
            // The author's e-mail address.
            let nm = g.of(&["a&b@c.d", "a<b@c", "a&amp;b", "http://a.b/?c&d"]);
            let s = format!("= T\nA B <{nm}>\n\n{{email}}");
            let doc = p.parse(&s);
            let got = doc.header().author_line().and_then(|a| a.authors().next()).and_then(|a| a.email()).unwrap_or("?").to_string();
            (s.clone(), inl::replacements(&inl::escape(nm), &mut n), got)
        }
    };
    cx.input(src.clone());
    if n.unsure {
        cx.label("outside the model");
        return Ok(());
    }
    cx.nontrivial(want.contains("&lt;") || want.contains("&gt;") || want.contains("&amp;"));
    cx.label(["normal", "normal", "normal", "verbatim", "verbatim", "attribute", "attribute", "document title", "passthrough", "inside marks", "header values", "other"][kind]);
    ensure_eq!(want, got, "rendering of {src:?}");
    Ok(())
}

const TAGS: &[&str] = &["strong", "em", "code", "mark", "span", "sup", "sub", "a", "img", "i", "br"];

/// Is this text made of known tags, character references and plain text only?
pub fn well_formed(r: &str, refs: bool) -> Outcome {
    let v: Vec<char> = r.chars().collect();
    let (mut lt, mut gt) = (0, 0);
    for i in 0..v.len() {
        match v[i] {
            '<' => {
                lt += 1;
                let mut j = i + 1;
                if v.get(j) == Some(&'/') {
                    j += 1;
                }
                let name: String = v[j..].iter().take_while(|c| c.is_ascii_alphanumeric()).collect();
                let after = v.get(j + name.len());
                ensure!(TAGS.contains(&name.as_str()) && matches!(after, Some(' ') | Some('>')), "'<' at {i} starts no element of this renderer in {r:?}");
            }
            '>' => gt += 1,
            '&' if refs => {
                let mut j = i + 1;
                if v.get(j) == Some(&'#') {
                    j += 1;
                }
                let k = j + v[j..].iter().take_while(|c| c.is_ascii_alphanumeric()).count();
                ensure!(k > j && v.get(k) == Some(&';'), "'&' at {i} starts no character reference in {r:?}");
            }
            _ => {}
        }
    }
    ensure!(!refs || lt == gt, "numbers of '<' and '>' differ in {r:?}");
    Ok(())
}

/// Lines that ask for unescaped output, on purpose.
fn raw(s: &str) -> bool {
    ["+++", "pass:", "subs=", "subs =", "[pass", "[stem", "{set", "\u{96}", "\u{97}"].iter().any(|x| s.contains(x))
}

fn check_texts(p: &mut Parser, src: &str) -> Outcome {
    let refs = !src.contains("://");
    let doc = p.parse(src);
    if let Some(t) = doc.header().title() {
        well_formed(t, refs)?;
    }
    for b in walk::blocks(&doc) {
        if let Some(t) = b.title() {
            well_formed(t, refs)?;
        }
        match b {
            Block::Simple(_) => well_formed(b.rendered_content().unwrap_or(""), refs)?,
            Block::RawDelimited(_) if b.raw_context().as_ref() != "comment" => well_formed(b.rendered_content().unwrap_or(""), refs)?,
            Block::Section(s) => well_formed(s.section_title(), refs)?,
            Block::DocumentAttribute(a) => {
                if let InterpretedValue::Value(v) = a.value() {
                    well_formed(v, refs)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn soup(g: &mut G, cx: &mut Cx) -> Outcome {
    let src = if g.p(60) {
        let t = gens::inline_soup(g, 10);
        match g.u(7) {
            0..=2 => t,
            6 => {
                let one = |g: &mut G| gens::inline_soup(g, 6).replace(['\n', '\r', '{'], " ");
                format!("= T\n{}\n{}\n\n{{author}}, {{firstname}}, {{middlename}} {{lastname}} ({{email}}) {{revnumber}}. {{revdate}} {{revremark}}, {{author_2}}.", one(g), one(g))
            }
            3 => format!("== {t}"),
            4 => format!(":name: {t}\n\n{{name}} {}", gens::inline_soup(g, 4)),
            _ => format!(".{t}\n{}", gens::inline_soup(g, 4)),
        }
    } else {
        gens::doc_soup(g, 10)
    };
    cx.input(src.clone());
    if raw(&src) {
        cx.label("asks for raw output");
        return Ok(());
    }
    // The brackets of a macro that a mark follows are that mark's attribute
    // list, and the mark becomes part of the macro.
    let marks = ["]*", "]_", "]`", "]#", "]^", "]~", "]$$", "]++"];
    if ["image:", "icon:"].iter().any(|m| src.contains(m)) && marks.iter().any(|m| src.contains(m)) {
        cx.label("mark after a macro");
        return Ok(());
    }
    cx.nontrivial(src.contains(['<', '>', '&']));
    cx.label_if(src.contains("://"), "has a URL");
    let mut p = Parser::default();
    if g.p(20) {
        p = p.with_intrinsic_attribute("icons", "font", ModificationContext::Anywhere);
    }
    check_texts(&mut p, &src).map_err(|e| format!("{e}\n  for {src:?}"))
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "the expected output holds an escaped character (exact); the text holds one of < > & (soup)",
        assumptions: &[
            "Texts that ask for raw output (triple plus, pass macro or block, subs=, stem) are not subject to the soup family.",
            "Texts with an image or icon macro in which a mark follows a closing bracket are not subject to the soup family: there the brackets are the mark's attribute list.",
            "In texts with URLs only the tags are checked: a bare URL may end inside a character reference, as in other processors.",
            "Attribute values given through the API are inserted as they are, so none with special characters are used.",
        ],
        families: vec![
            Family { name: "exact", run: exact, quick: 600_000, thorough: 8_000_000 },
            Family { name: "soup", run: soup, quick: 1_000_000, thorough: 10_000_000 },
        ],
    }
}
