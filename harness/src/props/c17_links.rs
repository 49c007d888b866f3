//! C17: URLs, link/mailto macros and e-mail addresses become exactly the links
//! that were written.

use asciidoc_parser::{Parser, parser::ModificationContext};

use crate::{ctx, engine::*, inl};

#[derive(Default, Clone)]
struct Attrs {
    id: Option<String>,
    roles: Vec<String>,
    window: Option<String>,
    noopener: bool,
    nofollow: bool,
}

fn anchor(target: &str, bare: bool, at: &Attrs, text: &str) -> String {
    let mut o = format!("<a href=\"{target}\"");
    if let Some(id) = &at.id {
        o += &format!(" id=\"{id}\"");
    }
    let mut roles: Vec<&str> = if bare { vec!["bare"] } else { vec![] };
    roles.extend(at.roles.iter().map(|s| s.as_str()));
    if !roles.is_empty() {
        o += &format!(" class=\"{}\"", roles.join(" "));
    }
    if let Some(w) = &at.window {
        o += &format!(" target=\"{w}\"");
        if w == "_blank" || at.noopener {
            o += " rel=\"noopener\"";
        }
    } else if at.nofollow {
        o += " rel=\"nofollow\"";
    }
    format!("{o}>{text}</a>")
}

fn nolook(_: &str) -> Option<String> {
    None
}

fn esc(s: &str) -> String {
    inl::normal(s, &nolook, &mut inl::Notes::default())
}

/// A URL body that no substitution but escaping touches.
fn body(g: &mut G) -> String {
    let mut s: String = g.of(&["example.org", "a.b", "x", "localhost", "caf\u{e9}.fr", "\u{4e2d}.cn", "127.0.0.1"]).to_string();
    for _ in 0..g.u(4) {
        s += g.of(&["/", "/path", "/a-b", "/x.html", "?q=1", "&z=2", "#frag", "%20", "/~u", ":80", "/a(b)c", "/,x", "/$y", "@v", "/a=b", "/|x", ";k=v", "/!/b"]);
    }
    // The last character decides where a bare URL ends.
    s + g.of(&["", "/", "z", "9"])
}

fn scheme(g: &mut G) -> &'static str {
    g.of(&["https://", "http://", "ftp://", "irc://", "file://"])
}

/// Source and rendering of a link text that is used as written.
fn text(g: &mut G) -> (String, String) {
    let one = |g: &mut G| -> (String, String) {
        match g.u(12) {
            11 => ("x^y z".into(), "x^y z".into()),
            0 => ("foo".into(), "foo".into()),
            1 => ("caf\u{e9}".into(), "caf\u{e9}".into()),
            2 => ("*bold*".into(), "<strong>bold</strong>".into()),
            3 => ("__em__".into(), "<em>em</em>".into()),
            4 => ("`x < y`".into(), "<code>x &lt; y</code>".into()),
            5 => ("a & b".into(), "a &amp; b".into()),
            6 => ("x\\]y".into(), "x]y".into()),
            7 => ("\"q\"".into(), "\"q\"".into()),
            8 => ("(C)".into(), "&#169;".into()),
            9 => ("it's".into(), "it&#8217;s".into()),
            _ => ("[z\\]".into(), "[z]".into()),
        }
    };
    let v = g.list(1, 3, one);
    let sep = g.of(&[" ", " ", ", ", " / ", ". "]);
    (
        v.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(sep),
        v.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(sep),
    )
}

/// Text (source and rendering, both possibly empty) and attributes.
struct Inside {
    src: String,
    text: String,
    at: Attrs,
}

fn inside(g: &mut G, cx: &mut Cx) -> Inside {
    let mut at = Attrs::default();
    match g.w(&[3, 6, 2, 6]) {
        0 => Inside { src: String::new(), text: String::new(), at },
        1 => {
            let (s, t) = text(g);
            Inside { src: s, text: t, at }
        }
        2 => {
            let (s, t) = text(g);
            cx.label("new window mark");
            at.window = Some("_blank".into());
            Inside { src: format!("{s}^"), text: t, at }
        }
        _ => {
            cx.label("attributes in link text");
            // A text that is parsed as the first positional attribute.
            let (mut s, t) = match g.u(7) {
                0 => (String::new(), String::new()),
                1 => ("foo".into(), "foo".into()),
                2 => { let (a, b) = g.of(&[("two words", "two words"), ("two\nw words", "two w words")]); (a.into(), b.into()) }
                3 => ("\"a, b\"".into(), "a, b".into()),
                4 => ("*bold* z".into(), "<strong>bold</strong> z".into()),
                5 => ("\"a=b\"".into(), "a=b".into()),
                _ => ("x\\]y".into(), "x]y".into()),
            };
            if !s.is_empty() && !s.ends_with('"') && g.p(15) {
                s.push('^');
                at.window = Some("_blank".into());
            }
            let mut parts = if s.is_empty() { vec![] } else { vec![s] };
            let mut kinds = g.list(1, 3, |g| g.u(5));
            kinds.sort();
            kinds.dedup();
            if g.p(50) {
                kinds.reverse();
            }
            for k in kinds {
                parts.push(match k {
                    0 => {
                        let r = g.of(&["r1", "big", "r-2", "bare"]);
                        at.roles.push(r.to_string());
                        if g.p(50) { format!("role={r}") } else { format!("role=\"{r}\"") }
                    }
                    1 => {
                        at.id = Some(g.of(&["i1", "x-y"]).to_string());
                        format!("id={}", at.id.as_ref().unwrap())
                    }
                    2 => {
                        if at.window.is_some() || at.nofollow {
                            continue;
                        }
                        let w = g.of(&["_blank", "_top", "win"]);
                        at.window = Some(w.into());
                        if g.p(30) {
                            at.noopener = true;
                            format!("window={w},opts=noopener")
                        } else {
                            format!("window={w}")
                        }
                    }
                    3 => {
                        if at.window.is_some() || at.noopener {
                            continue;
                        }
                        at.nofollow = true;
                        format!("{}=nofollow", g.of(&["opts", "options"]))
                    }
                    _ => "title=T".into(),
                });
            }
            if !parts.iter().any(|p| p.contains('=') && !p.starts_with('"')) {
                parts.push("foo=bar".into());
            }
            let sep = g.of(&[",", ", "]);
            Inside { src: parts.join(sep), text: t, at }
        }
    }
}

fn hide(t: &str, on: bool) -> String {
    if !on {
        return t.to_string();
    }
    match t.find("://") {
        Some(i) => t[i + 3..].to_string(),
        None => t.to_string(),
    }
}

fn email(g: &mut G) -> String {
    let l = g.of(&["joe", "a.b", "x_1", "j-d", "a&b", "Joe%x", "caf\u{e9}", "1"]);
    let d = g.of(&["example.org", "a.co", "x-y.info", "s1.s2.de", "\u{e9}t\u{e9}.fr"]);
    format!("{l}@{d}")
}

fn encode(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"*_.-".contains(&b) {
            o.push(b as char)
        } else {
            o.push_str(&format!("%{b:02X}"))
        }
    }
    o
}

/// The target without what looks like a scheme: a letter, at least one letter,
/// digit, period, plus, or hyphen, a colon, and up to two slashes.
fn unscheme(t: &str) -> &str {
    let Some((s, r)) = t.split_once(':') else { return t };
    let ok = s.chars().next().is_some_and(char::is_alphabetic) && s.chars().count() > 1 && s.chars().all(|c| c.is_alphabetic() || c.is_numeric() || ".+-".contains(c));
    if ok { r.strip_prefix("//").or(r.strip_prefix('/')).unwrap_or(r) } else { t }
}

/// One piece: (source, rendering, links made).
fn piece(g: &mut G, cx: &mut Cx, hs: bool) -> (String, String, usize) {
    match g.w(&[6, 3, 5, 6, 5, 4, 4, 4, 2]) {
        // Bare URL with surrounding punctuation.
        0 => {
            let u = format!("{}{}", scheme(g), body(g));
            let e = inl::escape(&u);
            let (open, oe) = g.of(&[("", ""), ("", ""), ("(", "("), (";", ";"), (")", ")"), ("**z**", "<strong>z</strong>")]);
            let close = g.of(&["", "", ".", ",", "!", "?", ")", ").", "),", ";", ":", ");", "):", "?!", ",)"]);
            cx.label_if(!close.is_empty(), "punctuation after a bare URL");
            (format!("{open}{u}{close}"), format!("{oe}{}{close}", anchor(&e, true, &Attrs::default(), &hide(&e, hs))), 1)
        }
        // In angle brackets (any last character).
        1 => {
            let u = format!("{}{}{}", scheme(g), body(g), g.of(&["", ".", "?", "!", ")", ";", ":", "]", "[x"]));
            if u.contains("[x") || u.contains(']') {
                return ("w".into(), "w".into(), 0);
            }
            let e = inl::escape(&u);
            cx.label("URL in angle brackets");
            match g.u(6) {
                // With a text: the bracket stays.
                0 => {
                    let (i, j) = (inside(g, cx), inside(g, cx));
                    let t = |i: &Inside| if i.text.is_empty() { (hide(&e, hs), true) } else { (i.text.clone(), false) };
                    let ((t1, b1), (t2, b2)) = (t(&i), t(&j));
                    let (m, me) = g.of(&[("> <", "&gt; &lt;"), (" [x] <", " [x] &lt;"), (". <", ". &lt;")]);
                    return (format!("<{u}[{}]{m}{u}[{}]>", i.src, j.src), format!("&lt;{}{me}{}&gt;", anchor(&e, b1, &i.at, &t1), anchor(&e, b2, &j.at, &t2)), 2);
                }
                // Several, not separated by blanks.
                1 => {
                    let a = anchor(&e, true, &Attrs::default(), &hide(&e, hs));
                    let m = g.of(&["", ",", "x", "/", "-"]);
                    return (format!("<{u}>{m}<{u}>"), format!("{a}{m}{a}"), 2);
                }
                // Not closed: stays, and does not reach beyond blanks.
                2 if !u.contains(';') => {
                    let (m, me) = g.of(&[("\n", "\n"), (" ", " "), ("\nw > ", "\nw &gt; ")]);
                    let v = format!("{}{}", scheme(g), body(g));
                    let ve = inl::escape(&v);
                    let a = anchor(&ve, true, &Attrs::default(), &hide(&ve, hs));
                    return (format!("<{u}{m}{v} w"), format!("&lt;{e}{me}{a} w"), 1);
                }
                _ => {}
            }
            let tail = g.of(&["", ".", "x", ")"]);
            (format!("<{u}>{tail}"), format!("{}{tail}", anchor(&e, true, &Attrs::default(), &hide(&e, hs))), 1)
        }
        // URL with text.
        2 => {
            let u = format!("{}{}{}", scheme(g), body(g), g.of(&["", "", ".", "?", ")", ";"]));
            let e = inl::escape(&u);
            let i = inside(g, cx);
            let pre = g.of(&["", "", "link:", "(", "\""]);
            let tail = g.of(&["", "", ".", "x", ")", ";"]);
            let (t, bare) = if i.text.is_empty() { (hide(&e, hs), true) } else { (i.text.clone(), false) };
            let shown = if pre == "link:" { "" } else { pre };
            (format!("{pre}{u}[{}]{tail}", i.src), format!("{shown}{}{tail}", anchor(&e, bare, &i.at, &t)), 1)
        }
        // link: macro.
        3 => {
            let t = g.of(&["x", "foo.html", "a/b/c.adoc", "../up", "/root", "a_b.html", "caf\u{e9}", "?q=a&b=c", "#frag", "x,y", "a@b", "mail", "a:b", "{not", "ab:c", "git+ssh://h/x", "x-y.z:/a", "h2:///b", "1a://x", "+a:b", "a_b:c", "\u{e9}t\u{e9}:x"]);
            let e = inl::escape(t);
            let i = inside(g, cx);
            let tail = g.of(&["", "", ".", "x", ")", ";"]);
            let pre = g.of(&["", "", "(", "x", "\""]);
            let (txt, bare) = if i.text.is_empty() {
                // Anything that looks like a scheme is hidden.
                (inl::escape(if hs { unscheme(t) } else { t }), true)
            } else {
                (i.text.clone(), false)
            };
            (format!("{pre}link:{t}[{}]{tail}", i.src), format!("{pre}{}{tail}", anchor(&e, bare, &i.at, &txt)), 1)
        }
        // mailto: macro.
        4 => {
            let a = email(g);
            let e = inl::escape(&a);
            let (src, href, txt, at) = match g.w(&[2, 4, 2, 5, 2]) {
                4 => {
                    let (s, t) = g.of(&[("Mail us^", "Mail us"), ("^", e.as_str()), ("a b^", "a b"), ("x^,role=r1", "x")]);
                    let at = Attrs { window: Some("_blank".into()), noopener: true, roles: if s.ends_with("r1") { vec!["r1".into()] } else { vec![] }, ..Attrs::default() };
                    (s.to_string(), e.clone(), t.to_string(), at)
                }
                0 => (String::new(), e.clone(), e.clone(), Attrs::default()),
                1 => {
                    let (s, t) = loop {
                        let (s, t) = text(g);
                        if !s.contains(',') {
                            break (s, t);
                        }
                    };
                    (s, e.clone(), t, Attrs::default())
                }
                2 => {
                    let r = g.of(&["r1", "r2"]);
                    (format!("Mail us,role={r}"), e.clone(), "Mail us".into(), Attrs { roles: vec![r.into()], ..Attrs::default() })
                }
                _ => {
                    cx.label("mail subject");
                    let sub = g.of(&["Subject", "two words", "50% off!", "caf\u{e9}", "a/b?c:d", "~x", "a 'b' c", "x*y!"]);
                    let sq = if g.p(30) { format!("\"{sub}, x\"") } else { sub.to_string() };
                    let sv = if sq.starts_with('"') { format!("{sub}, x") } else { sub.to_string() };
                    let mut src = format!("Mail us,{sq}");
                    let mut href = format!("{e}?subject={}", enc_sub(&sv));
                    if g.p(60) {
                        let b = g.of(&["Body", "Dear all. Hi!", "1 (2)", "\u{4e2d}"]);
                        src += &format!(",{b}");
                        href += &format!("&amp;body={}", enc_sub(b));
                    }
                    (src, href, "Mail us".into(), Attrs::default())
                }
            };
            let pre = g.of(&["", "", "(", "x"]);
            (format!("{pre}mailto:{a}[{src}]"), format!("{pre}{}", anchor(&format!("mailto:{href}"), false, &at, &txt)), 1)
        }
        // E-mail address.
        5 => {
            let a = email(g);
            let e = inl::escape(&a);
            let (o, oe) = g.of(&[("", ""), ("", ""), ("(", "("), ("<", "&lt;"), ("\"", "\""), (",", ","), ("*z* ", "<strong>z</strong> ")]);
            let (c, ce) = g.of(&[("", ""), (".", "."), (",", ","), (")", ")"), (">", "&gt;"), ("!", "!"), (" x", " x"), (";", ";"), (":", ":")]);
            cx.label("bare e-mail");
            (format!("{o}{a}{c}"), format!("{oe}{}{ce}", anchor(&format!("mailto:{e}"), false, &Attrs::default(), &e)), 1)
        }
        // Escaped.
        6 => {
            cx.label("escaped");
            let u = format!("{}{}", scheme(g), body(g));
            let e = inl::escape(&u);
            let t = g.of(&["", "t", "a b", "t,role=x"]);
            match g.u(7) {
                0 => (format!("\\{u}"), e, 0),
                1 => (format!("\\{u}[{t}]"), format!("{e}[{t}]"), 0),
                2 => (format!("\\link:foo.html[{t}]"), format!("link:foo.html[{t}]"), 0),
                3 => (format!("\\mailto:joe[{t}]"), format!("mailto:joe[{t}]"), 0),
                4 => {
                    let a = email(g);
                    (format!("\\{a}"), inl::escape(&a), 0)
                }
                5 => (format!("<\\{u}>"), format!("&lt;{e}&gt;"), 0),
                _ => (format!("(\\{u})"), format!("({e})"), 0),
            }
        }
        // Not links.
        7 => {
            cx.label("near miss");
            let u = format!("{}{}", scheme(g), g.of(&["a.b", "example.org/x", "x"]));
            match g.u(16) {
                14 => ("https://[x]".into(), "https://[x]".into(), 0),
                15 => ("irc://.".into(), "irc://.".into(), 0),
                0 => (format!("x{u}"), format!("x{u}"), 0),
                1 => (format!("\"{u}\""), format!("\"{u}\""), 0),
                2 => (format!("'{u}'"), format!("'{u}'"), 0),
                3 => (format!("-{u}"), format!("-{u}"), 0),
                4 => (format!("link:{u}"), format!("link:{u}"), 0),
                5 => ("link: x[y]".into(), "link: x[y]".into(), 0),
                6 => ("link:[y]".into(), "link:[y]".into(), 0),
                7 => ("mailto:[y]".into(), "mailto:[y]".into(), 0),
                8 => ("https:// x".into(), "https:// x".into(), 0),
                9 => ("a@b x@y.z @c.de a@b.toolong".into(), "a@b x@y.z @c.de a@b.toolong".into(), 0),
                10 => (":a@b.org".into(), ":a@b.org".into(), 0),
                11 => ("/a@b.org".into(), "/a@b.org".into(), 0),
                12 => ("gopher://a.b/c".into(), "gopher://a.b/c".into(), 0),
                _ => ("foo:bar[baz] https:x".into(), "foo:bar[baz] https:x".into(), 0),
            }
        }
        _ => {
            let (s, t) = g.of(&[("w", "w"), ("*s*", "<strong>s</strong>"), ("x & y", "x &amp; y"), ("(C)", "&#169;")]);
            (s.into(), t.into(), 0)
        }
    }
}

/// Subject and body: escaped characters were already replaced by entities.
fn enc_sub(s: &str) -> String {
    encode(&esc(s)).replace("%7E", "~")
}

fn pieces(g: &mut G, cx: &mut Cx) -> Outcome {
    let hs = g.p(35);
    let n = g.list(1, 4, |g| piece(g, cx, hs));
    let mut src = String::new();
    let mut want = String::new();
    let mut links = 0;
    for (i, (s, w, l)) in n.iter().enumerate() {
        let sep = if i == 0 {
            g.of(&["", "", "w "])
        } else {
            g.of(&[" ", " ", "\n", "\t"])
        };
        src += sep;
        want += sep;
        src += s;
        want += w;
        links += l;
    }
    if g.p(30) {
        src += " end";
        want += " end";
    }
    if src.split('\n').any(|l| !ctx::plain_line(l)) {
        // (A line end inside a link is not in the rendering.)
        if src.matches('\n').count() != want.matches('\n').count() {
            return Ok(());
        }
        src = src.split('\n').map(|l| format!("w {l}")).collect::<Vec<_>>().join("\n");
        want = want.split('\n').map(|l| format!("w {l}")).collect::<Vec<_>>().join("\n");
    }
    let c = ctx::any(g, &src);
    cx.input(format!("{}{}", if hs { "(hide-uri-scheme)\n" } else { "" }, ctx::embed(c, &src)));
    // Punctuation of two pieces could make up a mark.
    if src.matches('~').count() > 1 || src.contains("--") || src.contains("...") || src.split('\n').any(|l| l.ends_with(' ')) {
        return Ok(());
    }
    cx.nontrivial(links > 0);
    cx.label_if(links > 1, "2+ links");
    cx.label_if(hs, "hide-uri-scheme");
    let mut p = Parser::default();
    if hs {
        p = p.with_intrinsic_attribute_bool("hide-uri-scheme", true, ModificationContext::Anywhere);
    }
    let (doc, got) = ctx::render_in(&mut p, c, &src)?;
    ensure_eq!(want, got, "rendering of {doc:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "at least one link is expected in the output",
        assumptions: &["URL and text are drawn so that other substitutions (formatting marks, dashes) do not run across the link's own delimiters."],
        families: vec![Family { name: "pieces", run: pieces, quick: 500_000, thorough: 10_000_000 }],
    }
}
