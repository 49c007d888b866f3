//! C22: the document header: title, author line, revision line, entries and
//! comments, and the attributes derived from them.

use std::collections::BTreeMap;

use asciidoc_parser::{HasSpan, Parser, blocks::IsBlock, document::InterpretedValue};

use crate::{engine::*, inl, sem};

#[derive(Debug, Clone, PartialEq, Default)]
struct A {
    name: String,
    first: String,
    middle: Option<String>,
    last: Option<String>,
    email: Option<String>,
}

fn initial(s: &str) -> String {
    s.chars().next().map(|c| c.to_string()).unwrap_or_default()
}

impl A {
    fn initials(&self) -> String {
        initial(&self.first) + &self.middle.as_deref().map(initial).unwrap_or_default() + &self.last.as_deref().map(initial).unwrap_or_default()
    }
}

const PARTS: &[&str] = &[
    "Doc", "Writer", "Mary", "Sue", "R.", "J", "O'Neil", "Jean-Luc", "Mary_Sue", "Bront\u{eb}", "\u{c9}mile", "\u{5c71}\u{7530}", "\u{391}\u{3bb}\u{3ad}", "\u{1e9e}x", "4th", "de_la_Cruz", "x", "A.B.", "Zo\u{eb}-L", "\u{130}stanbul",
];
/// Names with ampersands, and how they are shown.
const AMPS: &[(&str, &str)] = &[
    ("Fran&ccedil;ois", "Fran&ccedil;ois"), ("L&aacute;szl&oacute;x", "L&aacute;szl&oacute;x"), ("X&frac14;y", "X&frac14;y"), ("N&#233;e", "N&#233;e"), ("Z&#x141;a", "Z&#x141;a"), ("W&#128512;w", "W&#128512;w"), ("Q&#1114111;q", "Q&#1114111;q"), ("Q&#11141110;q", "Q&amp;#11141110;q"), ("W&#x1F600;w", "W&#x1F600;w"),
    ("AT&T", "AT&amp;T"), ("A&b;c", "A&amp;b;c"), ("A&#1;c", "A&amp;#1;c"), ("A&#xF;c", "A&amp;#xF;c"), ("A&x123;c", "A&amp;x123;c"), ("R&D", "R&amp;D"), ("A&amp;B", "A&amp;B"), ("A&AMP;B", "A&AMP;B"), ("J&#x000000001;x", "J&amp;#x000000001;x"),
];
const EMAILS: &[&str] = &["a@b.c", "doc.writer@example.com", "https://example.com/x", "x+y@z.org", "caf\u{e9}@x.y", "@handle"];

/// Source of one author, and what it means.
fn author(g: &mut G, refs: &BTreeMap<&str, &str>) -> (String, A) {
    let us = |s: &str| s.replace('_', " ");
    // Names and addresses made with references.
    let has = |k: &str| refs.contains_key(k);
    if (has("first") || has("last")) && g.p(35) {
        let part = |g: &mut G| -> (String, String) {
            match g.u(3) {
                0 if has("first") => ("{first}".into(), refs["first"].into()),
                1 if has("last") => ("{last}".into(), refs["last"].into()),
                _ => {
                    let w = g.of(PARTS).to_string();
                    (w.clone(), w)
                }
            }
        };
        let n = g.list(2, 4, part);
        let mut src = n.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(" ");
        let full = n.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(" ");
        let v: Vec<String> = n.iter().map(|x| us(&x.1)).collect();
        let mut a = A { name: us(&full), first: v[0].clone(), ..A::default() };
        match n.len() {
            2 => a.last = Some(v[1].clone()),
            3 => {
                a.middle = Some(v[1].clone());
                a.last = Some(v[2].clone());
            }
            _ => a.first = us(&full),
        }
        // (With more than one reference the brackets are escaped.)
        if n.len() < 4 && src.matches('{').count() == 1 && g.p(40) {
            src.push_str(" <a@b.c>");
            a.email = Some("a@b.c".into());
        }
        return (src, a);
    }
    if has("dom") && g.p(25) {
        let e = g.of(&["x@{dom}", "https://{dom}/y", "{dom}/{dom}"]);
        let a = A { name: "Doc Writer".into(), first: "Doc".into(), last: Some("Writer".into()), email: Some(e.replace("{dom}", refs["dom"])), ..A::default() };
        return (format!("Doc Writer <{e}>"), a);
    }
    match g.w(&[12, 2, 2, 1]) {
        0 => {
            let both: Vec<(&str, &str)> = g.list(1, 3, |g| {
                if g.p(12) {
                    return g.of(AMPS);
                }
                let p = g.of(PARTS);
                (p, p)
            });
            let mut src = both.iter().map(|b| b.0).collect::<Vec<_>>().join(" ");
            let n: Vec<&str> = both.iter().map(|b| b.1).collect();
            let mut a = A { name: us(&n.join(" ")), first: us(n[0]), ..A::default() };
            match n.len() {
                2 => a.last = Some(us(n[1])),
                3 => {
                    a.middle = Some(us(n[1]));
                    a.last = Some(us(n[2]));
                }
                _ => {}
            }
            if g.p(45) {
                let e = g.of(EMAILS);
                src.push_str(&format!("{}<{e}>", g.of(&[" ", " ", "  "])));
                a.email = Some(e.into());
            } else if g.p(10)
                && let Some((k, v)) = refs.iter().next()
            {
                src.push_str(&format!(" <{{{k}}}>"));
                a.email = Some(v.to_string());
            }
            (src, a)
        }
        1 => {
            // More than three names.
            let both: Vec<(&str, &str)> = g.list(4, 6, |g| {
                if g.p(10) {
                    return g.of(AMPS);
                }
                let p = g.of(PARTS);
                (p, p)
            });
            let src = both.iter().map(|b| b.0).collect::<Vec<_>>().join(" ");
            let shown = us(&both.iter().map(|b| b.1).collect::<Vec<_>>().join(" "));
            let a = A { name: shown.clone(), first: shown, ..A::default() };
            (src, a)
        }
        2 => {
            // Not of the form of a name.
            if g.p(25) {
                let (src, shown) = g.of(&[
                    ("Doc Writer <>", "Doc Writer &lt;&gt;"), ("Doc <", "Doc &lt;"), ("Doc>", "Doc&gt;"), ("<a@b.c>", "&lt;a@b.c&gt;"), ("Doc <a@b.c> x", "Doc &lt;a@b.c&gt; x"), ("Doc<a@b.c>", "Doc&lt;a@b.c&gt;"), ("A B C D <a@b.c>", "A B C D &lt;a@b.c&gt;"), ("Doc Writer <a@b.c>>", "Doc Writer &lt;a@b.c&gt;&gt;"),
                    ("/", "/"), ("/x", "/x"), ("/ Doc", "/ Doc"), ("/x //y", "/x //y"), ("x //y", "x //y"), ("/ /x", "/ /x"),
                ]);
                return (src.into(), A { name: us(shown), first: us(shown), ..A::default() });
            }
            if g.p(5) {
                return ("Doc <b <c>".into(), A { name: "Doc".into(), first: "Doc".into(), email: Some("b &lt;c".into()), ..A::default() });
            }
            let src = format!("{}{}", g.of(&["The (Team)", "Doc, Writer", "@me", "x/y z", "A! B", "\"Quoted\" Name", "-x", "Doc -x", "Doc W. -x", "A .b C", "A B 'c", "Team *X*", "a: b", "///", "/// Doc", "///x", ":k:v", ":k:v w x y", "= Doc", "==", "== Doc W", "*", "Doc W. !"]), g.of(&["", "", " x"]));
            let a = A { name: us(&src), first: us(&src), ..A::default() };
            (src, a)
        }
        _ => match refs.iter().next() {
            Some((k, v)) => (format!("{{{k}}}"), A { name: us(v), first: us(v), ..A::default() }),
            None => ("Solo".into(), A { name: "Solo".into(), first: "Solo".into(), ..A::default() }),
        },
    }
}

#[derive(Debug, Clone, PartialEq)]
struct R {
    number: Option<String>,
    date: String,
    remark: Option<String>,
}

fn revision(g: &mut G, sub: &dyn Fn(&str) -> String) -> (String, R) {
    let num = g.of(&["1.0", "2", "1.2.3-beta.1", "0.9 rc1", "10-x", "3\u{e9}"]);
    let date = g.of(&["2020-01-01", "Nov1", "Rev v1", "Jan 1", "Winter '24", "{when}", "1 < 2", "Mai \u{e9}", "x & y", "Sept.", "(2020)", "-", "2020;", "\"x\"", "5/6/20"]);
    let remark = g.of(&["First", "a: b", "x, y", "See <this> & that", "{when}: {nope}", "\u{4e2d}", "v2", "*not bold*", "(C)", "x.", ":", "; y;"]);
    let sp = |g: &mut G| g.of(&["", "", " ", "  "]);
    let prefix = g.of(&["v", "v", "", "Version ", "LPR", "v.", "version ", "ver ", "V-", "\u{201c}", "vv", "r\u{e9}v. "]);
    let (core, number, d) = match g.u(3) {
        0 => (format!("v{num}"), Some(num), ""),
        1 => {
            let tail = g.of(&["", "", ", 2024", ", x"]);
            let full = format!("{date}{tail}");
            let r = R { number: Some(num.into()), date: sub(&full), remark: None };
            let src = format!("{prefix}{num}{},{}{full}", sp(g), g.of(&[" ", " ", "", "  "]));
            return finish(g, src, r, remark, sub);
        }
        _ => (date.to_string(), None, date),
    };
    let r = R { number: number.map(sub), date: sub(d), remark: None };
    finish(g, core, r, remark, sub)
}

fn finish(g: &mut G, mut src: String, mut r: R, remark: &str, sub: &dyn Fn(&str) -> String) -> (String, R) {
    if g.p(50) {
        src.push_str(&format!("{}:{}{remark}", g.of(&["", "", " "]), g.of(&[" ", " ", "", "  "])));
        r.remark = Some(sub(remark));
    }
    (src, r)
}

fn header(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut p = Parser::default();
    // Attributes that the header's entries set, before they are used.
    let mut st: BTreeMap<String, String> = BTreeMap::new();
    let mut lines: Vec<String> = vec![];
    let mut comments: Vec<String> = vec![];
    let mut entries: Vec<String> = vec![];
    let mut attrs: BTreeMap<String, Option<String>> = BTreeMap::new();

    for _ in 0..g.w(&[6, 1, 1]) {
        lines.push(g.of(&["", " "]).to_string());
    }
    let titled = g.p(88);
    let authored = titled && g.p(70);
    let revised = authored && g.p(60);
    let unterminated = revised && g.p(20);
    let slashes = !titled && g.p(30);
    let extras = |g: &mut G, lines: &mut Vec<String>, st: &mut BTreeMap<String, String>, comments: &mut Vec<String>, entries: &mut Vec<String>, attrs: &mut BTreeMap<String, Option<String>>| {
        let n = g.w(&[60, 30, 20, 10, 2]);
        for _ in 0..if n == 4 { g.range(5, 20) } else { n } {
            match g.w(&[4, 2, 1]) {
                0 => {
                    let (k, v) = g.of(&[("when", "May 5"), ("when", "2021"), ("foo", "v"), ("em", "x@y.z"), ("zz", "a b c"), ("first", "Jo_Ann"), ("last", "O'Sm\u{ed}th"), ("dom", "x.org")]);
                    lines.push(format!(":{k}: {v}"));
                    st.insert(k.into(), v.into());
                    attrs.insert(k.into(), Some(v.into()));
                    entries.push(format!("{k} {:?}", v));
                }
                1 => {
                    let c = g.of(&["// comment", "//", "//x", "// :a: b", "// = T"]);
                    lines.push(c.into());
                    comments.push(c.into());
                }
                _ => {
                    lines.push(":!gone:".into());
                    attrs.insert("gone".into(), None);
                    entries.push("gone unset".into());
                }
            }
        }
    };
    extras(g, &mut lines, &mut st, &mut comments, &mut entries, &mut attrs);
    let mut title = None;
    let (mut authors, mut rev, mut rest) = (vec![], None, None);
    if titled {
        let t: Vec<String> = g.list(1, 4, |g| g.of(&["Title", "{when}", "a & b", "<x>", "*s*", "caf\u{e9}", "{nope}", ":", "=", "(C)", "it's"]).to_string());
        let t = t.join(" ");
        lines.push(format!("={}{t}{}", g.of(&[" ", " ", "  "]), g.of(&["", "", " "])));
        let r = inl::attributes(&inl::escape(&t), &|n: &str| st.get(n).cloned());
        attrs.insert("doctitle".into(), Some(r.clone()));
        title = Some((t, r));
        extras(g, &mut lines, &mut st, &mut comments, &mut entries, &mut attrs);
    }
    if authored {
        let refs: BTreeMap<&str, &str> = ["em", "zz", "first", "last", "dom"].iter().filter_map(|k| st.get(*k).map(|v| (*k, v.as_str()))).collect();
        let n = g.w(&[0, 10, 4, 2, 1, 1]);
        let n = if n == 5 { g.range(5, 12) } else { n };
        let mut src = vec![];
        for _ in 0..n {
            let (s, a) = author(g, &refs);
            src.push(s);
            authors.push(a);
        }
        let sep = g.of(&["; ", "; ", ";  "]);
        let line = src.join(sep);
        lines.push(line);
        for (i, a) in authors.iter().enumerate() {
            let n = |s: &str| if i == 0 { s.to_string() } else { format!("{s}_{}", i + 1) };
            attrs.insert(n("author"), Some(a.name.clone()));
            attrs.insert(n("firstname"), Some(a.first.clone()));
            attrs.insert(n("authorinitials"), Some(a.initials()));
            attrs.insert(n("middlename"), a.middle.clone());
            attrs.insert(n("lastname"), a.last.clone());
            attrs.insert(n("email"), a.email.clone());
        }
        drop(refs);
        extras(g, &mut lines, &mut st, &mut comments, &mut entries, &mut attrs);
    }
    if revised {
        let s2 = st.clone();
        let sub = move |s: &str| inl::attributes(&inl::escape(s), &|n: &str| s2.get(n).cloned());
        let (s, r) = revision(g, &sub);
        lines.push(s);
        attrs.insert("revdate".into(), Some(r.date.clone()));
        attrs.insert("revnumber".into(), r.number.clone());
        attrs.insert("revremark".into(), r.remark.clone());
        rev = Some(r);
        extras(g, &mut lines, &mut st, &mut comments, &mut entries, &mut attrs);
    }
    let hdr_lines = lines.len();
    if unterminated {
        let l = g.of(&["body text", "== Section", "* item", "more & more", "----\nx\n----", "image::x.png[]", ":k:v w", ": x", ":k :", "= Second", "/// x"]);
        rest = Some(l);
        lines.push(l.into());
    } else if slashes {
        // Neither a comment nor anything else that a header has.
        let l = g.of(&["/// x", "///x\n= T", "/////x\n:k: v"]);
        rest = Some(l);
        lines.push(l.into());
    } else {
        lines.push("".into());
    }
    lines.push("".into());
    // The values as the body sees them.
    let mut shown: Vec<(&String, &String)> = attrs.iter().filter_map(|(k, v)| v.as_ref().map(|v| (k, v))).collect();
    shown.retain(|(_, v)| !v.contains(['{', '*', '(', '\'', ':', '@', '.', '/', '"', '_', '-', '!']));
    lines.push(format!("body{}", shown.iter().map(|(k, _)| format!(" {{{k}}};")).collect::<String>()));
    let src = lines.join(if g.p(10) { "\r\n" } else { "\n" });
    cx.input(src.clone());
    cx.nontrivial(titled && lines.len() > 5);
    cx.label_if(authors.len() > 1, "several authors");
    cx.label_if(rev.is_some(), "revision line");
    cx.label_if(unterminated, "unterminated");

    let d = p.parse(&src);
    let h = d.header();
    ensure_eq!(title.as_ref().map(|t| t.1.as_str()), h.title(), "title");
    ensure_eq!(title.as_ref().map(|t| t.0.as_str()), h.title_source().map(|t| t.data()), "source of the title");
    let got: Vec<String> = h.attributes().map(|a| format!("{} {}", a.name().data(), sem::value(a.value()))).collect();
    ensure_eq!(entries, got, "entries of the header");
    let got: Vec<String> = h.comments().map(|c| c.data().to_string()).collect();
    ensure_eq!(comments, got, "comments of the header");
    let got: Vec<A> = h
        .author_line()
        .map(|l| {
            l.authors()
                .map(|a| A {
                    name: a.name().into(),
                    first: a.firstname().into(),
                    middle: a.middlename().map(str::to_string),
                    last: a.lastname().map(str::to_string),
                    email: a.email().map(str::to_string),
                })
                .collect()
        })
        .unwrap_or_default();
    ensure_eq!(authors, got, "authors");
    ensure_eq!(authored, h.author_line().is_some(), "is there an author line");
    if let Some(l) = h.author_line() {
        for (a, m) in l.authors().zip(&authors) {
            ensure_eq!(m.initials(), a.initials(), "initials of {a:?}");
        }
    }
    let got = h.revision_line().map(|r| R { number: r.revnumber().map(str::to_string), date: r.revdate().into(), remark: r.revremark().map(str::to_string) });
    ensure_eq!(rev, got, "revision");

    // Attributes.
    for (k, v) in &attrs {
        let got = p.attribute_value(k);
        let want = v.as_ref().map_or(InterpretedValue::Unset, |v| InterpretedValue::Value(v.clone()));
        ensure_eq!(want, got, "attribute {k:?} after the header");
    }
    // Where the header ends.
    let w: Vec<String> = d.warnings().map(|w| format!("{:?} {:?} {}", w.warning, w.source.data(), w.source.line())).collect();
    let want: Vec<String> = rest.iter().filter(|_| titled).map(|l| format!("WarningType::DocumentHeaderNotTerminated {:?} {}", l.split('\n').next().unwrap(), hdr_lines + 1)).collect();
    let w: Vec<String> = w.into_iter().filter(|x| x.contains("Header")).collect();
    ensure_eq!(want, w, "warnings about the header");
    let first = d.nested_blocks().next().ok_or("no body")?;
    match rest {
        Some(l) => ensure_eq!((hdr_lines + 1, true), (first.span().line(), first.span().data().starts_with(l.split('\n').next().unwrap())), "start of the body"),
        None => {
            ensure_eq!(lines.len(), first.span().line(), "line on which the body starts");
            let want: String = format!("body{}", shown.iter().map(|(_, v)| format!(" {v};")).collect::<String>());
            ensure_eq!(Some(want.as_str()), first.rendered_content(), "values that the body sees");
        }
    }
    // The header's span, if it has one.
    let span = h.span();
    let nonblank: Vec<&String> = lines[..hdr_lines].iter().filter(|l| !l.trim().is_empty()).collect();
    if let (Some(a), Some(z)) = (nonblank.first(), nonblank.last()) {
        ensure!(span.data().starts_with(a.trim_end()), "header starts with {:?}, its first line is {a:?}", span.data());
        ensure!(span.data().ends_with(z.trim_end()), "header ends with {:?}, its last line is {z:?}", span.data());
    } else {
        ensure_eq!("", span.data(), "span of an empty header");
    }
    Ok(())
}

/// The author given by an entry.
fn entry(g: &mut G, cx: &mut Cx) -> Outcome {
    let (s, a) = author(g, &BTreeMap::new());
    let (o, c) = g.of(&[("= T\n", "\n\nx"), ("", "\n\nx"), ("// c\n= T\n:x: y\n", "\n:z: z\n\nx")]);
    let name = g.of(&["author", "author", "Author"]);
    let src = format!("{o}:{name}: {s}{c}");
    cx.input(src.clone());
    cx.nontrivial(a.last.is_some());
    let mut p = Parser::default();
    let d = p.parse(&src);
    ensure!(d.header().author_line().is_none(), "there is no author line");
    for (k, v) in [
        ("firstname", Some(a.first.clone())),
        ("middlename", a.middle.clone()),
        ("lastname", a.last.clone()),
        ("email", a.email.clone()),
        ("authorinitials", Some(a.initials())),
    ] {
        let want = v.map_or(InterpretedValue::Unset, InterpretedValue::Value);
        ensure_eq!(want, p.attribute_value(k), "attribute {k:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "a title and more than five lines (header); an author with at least two names (entry)",
        assumptions: &["names are separated by one space; only whole names or addresses are attribute references"],
        families: vec![
            Family { name: "header", run: header, quick: 300_000, thorough: 6_000_000 },
            Family { name: "entry", run: entry, quick: 40_000, thorough: 400_000 },
        ],
    }
}
