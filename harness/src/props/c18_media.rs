//! C18: images, icons, anchors and media blocks.

use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock, MediaType},
    parser::ModificationContext,
};

use crate::{ctx, engine::*, inl, walk};

/// What web_path has to give for the path shapes generated here (no empty
/// segments): plain segment arithmetic.
pub fn web_path(target: &str, start: Option<&str>) -> String {
    let mut t = target.to_string();
    let mut prefix = String::new();
    if let Some(s) = start
        && !t.starts_with('/')
    {
        t = if s.ends_with('/') { format!("{s}{t}") } else { format!("{s}/{t}") };
        if let Some(i) = t.find("://") {
            prefix = t[..i + 3].to_string();
            t = t[i + 3..].to_string();
        }
    }
    let (root, rest) = if let Some(r) = t.strip_prefix('/') {
        ("/", r)
    } else if let Some(r) = t.strip_prefix("./") {
        ("./", r)
    } else {
        ("", t.as_str())
    };
    let mut out: Vec<&str> = vec![];
    for s in rest.split('/') {
        match s {
            "." => {}
            ".." => match out.last() {
                None if root == "/" => {}
                None | Some(&"..") => out.push(".."),
                _ => {
                    out.pop();
                }
            },
            s => out.push(s),
        }
    }
    format!("{prefix}{root}{}", out.join("/")).replace(' ', "%20")
}

fn is_uri(t: &str) -> bool {
    t.contains("://") || t.starts_with("data:")
}

struct Env {
    imagesdir: Option<&'static str>,
    /// None: off, Some(""): images, Some("font").
    icons: Option<&'static str>,
    iconsdir: Option<&'static str>,
    icontype: Option<&'static str>,
}

fn default_alt(t: &str) -> String {
    let b = t.rsplit('/').next().unwrap();
    let b = match b.rfind('.') {
        Some(0) | None => b,
        Some(i) => &b[..i],
    };
    b.replace(['_', '-'], " ")
}

/// Named attributes shared by images and icons.
#[derive(Default)]
struct Named {
    roles: Vec<&'static str>,
    float: Option<&'static str>,
    link: Option<&'static str>,
    window: Option<&'static str>,
    nofollow: bool,
    title: Option<(&'static str, &'static str)>,
    src: Vec<String>,
}

fn quoted(g: &mut G, n: &str, v: &str) -> String {
    match g.u(3) {
        0 if !v.contains([',', '"']) => format!("{n}={v}"),
        1 => format!("{n}='{v}'"),
        _ => format!("{n}=\"{}\"", v.replace('"', "\\\"")),
    }
}

fn named(g: &mut G, urls: bool) -> Named {
    let mut n = Named::default();
    if g.p(25) {
        n.roles = g.of(&[vec!["r1"], vec!["thumb", "right"], vec!["a-b"]]);
        let s = quoted(g, "role", &n.roles.join(" "));
        n.src.push(s);
    }
    if g.p(20) {
        n.float = Some(g.of(&["left", "right"]));
        let s = quoted(g, "float", n.float.unwrap());
        n.src.push(s);
    }
    if g.p(25) {
        n.title = Some(g.of(&[("A title", "A title"), ("T", "T"), ("a, b", "a, b"), ("x & y", "x &amp; y"), ("x\\]y", "x]y"), ("say \"hi\" twice", "say &quot;hi&quot; twice"), ("5\" x", "5&quot; x"), ("over\nlines", "over lines")]));
        let s = quoted(g, "title", n.title.unwrap().0);
        n.src.push(s);
    }
    if g.p(30) {
        let mut ls = vec!["self", "foo.html", "a/b", "#frag", "Self", "selfie"];
        if urls {
            ls.push("https://example.org/x");
        }
        n.link = Some(g.of(&ls));
        let s = quoted(g, "link", n.link.unwrap());
        n.src.push(s);
        match g.u(4) {
            0 => {
                n.window = Some(g.of(&["_blank", "win"]));
                let s = quoted(g, "window", n.window.unwrap());
                n.src.push(s);
            }
            1 => {
                n.nofollow = true;
                let s = g.of(&["opts=nofollow", "options=nofollow", "opts=\"x,nofollow\""]);
                n.src.push(s.to_string());
            }
            _ => {}
        }
    }
    if g.p(30) {
        n.src.reverse();
    }
    n
}

fn frame(kind: &str, n: &Named, inner: &str, src: &str) -> String {
    let inner = match n.link {
        None => inner.to_string(),
        Some(l) => {
            let l = if l == "self" { src } else { l };
            let w = match n.window {
                Some("_blank") => " target=\"_blank\" rel=\"noopener\"".to_string(),
                Some(w) => format!(" target=\"{w}\""),
                None if n.nofollow => " rel=\"nofollow\"".to_string(),
                None => String::new(),
            };
            format!("<a class=\"image\" href=\"{l}\"{w}>{inner}</a>")
        }
    };
    let mut class = vec![kind];
    class.extend(n.float);
    class.extend(n.roles.iter());
    format!("<span class=\"{}\">{inner}</span>", class.join(" "))
}

fn title_attr(n: &Named) -> String {
    n.title.map_or(String::new(), |t| format!(" title=\"{}\"", t.1))
}

const TARGETS: &[&str] = &[
    "x", "sunset.jpg", "a/b/pic.png", "my_pic-2.svg", "../up.gif", "./dot.png", "/root/r.png", "a/../b.png", "two words.png", "caf\u{e9}.png", "https://example.org/i/p.png",
    "http://a.b/c d.png", "data:image/png;base64,AAAA", "a.b.c.png", "noext", "a&b.png",
];

const ALTS: &[(&str, &str)] = &[
    ("Sunset", "Sunset"),
    ("Two words", "Two words"),
    ("\"a, b\"", "a, b"),
    ("a & b", "a &amp; b"),
    ("x \"q\" y", "x &quot;q&quot; y"),
    ("x\\]y", "x]y"),
    ("over\nlines", "over lines"),
    ("v1.0 #2 50%", "v1.0 #2 50%"),
    ("'s, t'", "s, t"),
    ("\"b \\] c\"", "b ] c"),
    ("\"a \\\" b\"", "a &quot; b"),
];

fn image(g: &mut G, cx: &mut Cx, e: &Env) -> (String, String) {
    let t = g.of(TARGETS);
    let te = inl::escape(t);
    let src = if is_uri(t) { te.replace(' ', "%20") } else { web_path(&te, e.imagesdir) };
    let n = named(g, true);
    let mut parts: Vec<String> = vec![];
    let mut alt = default_alt(&te);
    let mut size: [Option<&str>; 2] = [None, None];
    let pos = g.u(4);
    let lone = |g: &mut G| g.of(ALTS);
    if pos > 0 {
        let (s, a) = lone(g);
        parts.push(s.to_string());
        alt = a.to_string();
        for (i, sz) in size.iter_mut().enumerate().take(pos - 1) {
            *sz = Some(g.of(if i == 0 { &["100", "50%"] } else { &["200", "7"] }));
            parts.push(sz.unwrap().to_string());
        }
        // A name wins over a position.
        for (i, nm) in ["width", "height"].iter().enumerate() {
            if g.p(8) {
                size[i] = Some(g.of(&["10", "20%"]));
                parts.push(quoted(g, nm, size[i].unwrap()));
            }
        }
    } else {
        if g.p(30) {
            let (s, a) = g.of(&[("alt=Foo", "Foo"), ("alt=\"a, b\"", "a, b"), ("alt='x \"q\"'", "x &quot;q&quot;")]);
            parts.push(s.to_string());
            alt = a.to_string();
        }
        for (i, nm) in ["width", "height"].iter().enumerate() {
            if g.p(30) {
                size[i] = Some(g.of(&["10", "20%"]));
                parts.push(quoted(g, nm, size[i].unwrap()));
            }
        }
    }
    parts.extend(n.src.iter().cloned());
    if !n.nofollow && g.p(10) {
        // Without safe modes, these options make no difference.
        parts.push(g.of(&["opts=inline", "opts=interactive", "options=\"interactive,x\""]).into());
    }
    cx.label("inline image");
    cx.label_if(e.imagesdir.is_some(), "imagesdir");
    cx.label_if(n.link.is_some(), "linked image");
    let mut img = format!("<img src=\"{src}\" alt=\"{alt}\"");
    for (v, nm) in size.iter().zip(["width", "height"]) {
        if let Some(v) = v {
            img += &format!(" {nm}=\"{v}\"");
        }
    }
    img += &title_attr(&n);
    img += ">";
    let sep = g.of(&[",", ", "]);
    (format!("image:{t}[{}]", parts.join(sep)), frame("image", &n, &img, &src))
}

fn icon(g: &mut G, cx: &mut Cx, e: &Env) -> (String, String) {
    let t = g.of(&["fire", "tags", "arrow-up", "a/b", "x_y", "h", "caf\u{e9}"]);
    let mut n = named(g, e.icons.is_some());
    if e.icons.is_none() && n.link == Some("self") && e.iconsdir == Some("http://h/ic") {
        n = Named::default();
    }
    let mut parts: Vec<String> = vec![];
    let mut alt = default_alt(t);
    let mut cls = format!("fa fa-{t}");
    if g.p(30) {
        let s = g.of(&["2x", "lg"]);
        cls += &format!(" fa-{s}");
        parts.push(if g.p(50) { s.to_string() } else { format!("size={s}") });
    }
    if g.p(25) {
        let (s, a) = g.of(&[("Alt", "Alt"), ("an alt", "an alt"), ("x\\]y", "x]y"), ("say \"hi\" twice", "say \"hi\" twice"), ("5\" x", "5\" x"), ("over\nlines", "over lines")]);
        alt = a.to_string();
        parts.push(quoted(g, "alt", s));
    }
    match g.u(6) {
        0 => {
            cls += " fa-flip-vertical";
            parts.push("flip=vertical".into());
        }
        1 => {
            cls += " fa-rotate-90";
            parts.push("rotate=90".into());
        }
        2 => {
            cls += " fa-flip-horizontal";
            parts.push("rotate=90".into());
            parts.push("flip=horizontal".into());
        }
        _ => {}
    }
    let mut wh = String::new();
    for nm in ["width", "height"] {
        if g.p(15) {
            parts.push(format!("{nm}=16"));
            wh += &format!(" {nm}=\"16\"");
        }
    }
    parts.extend(n.src.iter().cloned());
    let dir = e.iconsdir.unwrap_or("./images/icons");
    let file = format!("{t}.{}", e.icontype.unwrap_or("png"));
    let src = web_path(&file, Some(dir));
    let inner = match e.icons {
        None => {
            cx.label("icon as text");
            format!("[{alt}&#93;")
        }
        Some("font") => {
            cx.label("icon from font");
            format!("<i class=\"{cls}\"{}></i>", title_attr(&n))
        }
        _ => {
            cx.label("icon as image");
            format!("<img src=\"{src}\" alt=\"{}\"{wh}{}>", alt.replace('"', "&quot;"), title_attr(&n))
        }
    };
    (format!("icon:{t}[{}]", parts.join(",")), frame("icon", &n, &inner, &src))
}

fn anchor(g: &mut G, cx: &mut Cx) -> (String, String) {
    cx.label("inline anchor");
    let id = g.of(&["a", "an-id", "_x", ":c", "A.b:c-1", "caf\u{e9}"]);
    let s = match g.u(5) {
        0 => format!("[[{id}]]"),
        1 => format!("[[{id},{}]]", g.of(&["text", " two words", "*b*", "a,b"])),
        2 => format!("anchor:{id}[]"),
        3 => format!("anchor:{id}[{}]", g.of(&["text", "two words", "a\\]b"])),
        _ => {
            let (o, r) = g.of(&[("[[1a]]", "[[1a]]"), ("anchor:9[]", "anchor:9[]"), ("[[ a]]", "[[ a]]"), ("[[a b]]", "[[a b]]"), ("anchor:[x]", "anchor:[x]"), ("[[]]", "[[]]")]);
            return (o.into(), r.into());
        }
    };
    if g.p(15) {
        // The bold text in a reference text is still formatted.
        let w = inl::quotes(&s, &mut inl::Notes::default());
        return (format!("\\{s}"), w);
    }
    (s, format!("<a id=\"{id}\"></a>"))
}

fn inline(g: &mut G, cx: &mut Cx) -> Outcome {
    let e = Env {
        imagesdir: g.of(&[None, None, Some("img"), Some("img/"), Some("/abs"), Some("https://cdn.example.org/i"), Some("../r"), Some("./d"), Some("a b")]),
        icons: g.of(&[None, Some(""), Some("font"), Some("font"), Some(""), None, Some("fonts"), Some("Font"), Some("image")]),
        iconsdir: g.of(&[None, None, Some("ic"), Some("/ic/"), Some("http://h/ic")]),
        icontype: g.of(&[None, None, Some("svg")]),
    };
    let v = g.list(1, 4, |g| match g.w(&[5, 4, 3, 2, 1]) {
        0 => image(g, cx, &e),
        1 => icon(g, cx, &e),
        2 => anchor(g, cx),
        3 => {
            cx.label("escaped or near miss");
            let (s, w) = g.of(&[
                ("\\image:x.png[]", "image:x.png[]"),
                ("\\image:x.png[Alt,100]", "image:x.png[Alt,100]"),
                ("\\icon:fire[2x]", "icon:fire[2x]"),
                ("image:[x]", "image:[x]"),
                ("icon:[x]", "icon:[x]"),
                ("image: x[y]", "image: x[y]"),
                ("images:x[y]", "images:x[y]"),
                ("icon :x[y]", "icon :x[y]"),
            ]);
            (s.to_string(), w.to_string())
        }
        _ => g.of(&[("w".to_string(), "w".to_string()), ("**b**".into(), "<strong>b</strong>".into()), ("x & y".into(), "x &amp; y".into())]),
    });
    let mut src = String::new();
    let mut want = String::new();
    for (i, (s, w)) in v.iter().enumerate() {
        let sep = if i == 0 { "" } else { g.of(&[" ", " ", "\n", ", "]) };
        let (o, c) = g.of(&[("", ""), ("", ""), ("(", ")"), ("x", "x"), ("", "."), ("\"", "\"")]);
        src += &format!("{sep}{o}{s}{c}");
        want += &format!("{sep}{o}{w}{c}");
    }
    // Never a block macro or block attribute line.
    if src.split('\n').any(|l| !ctx::plain_line(l)) || src.contains("[[") {
        src = format!("w {src}");
        want = format!("w {want}");
    }
    if src.split('\n').any(|l| !ctx::plain_line(l)) {
        return Ok(());
    }
    let c = ctx::any(g, &src);
    cx.input(format!("imagesdir={:?} icons={:?} iconsdir={:?} icontype={:?}\n{}", e.imagesdir, e.icons, e.iconsdir, e.icontype, ctx::embed(c, &src)));
    cx.nontrivial(want.contains('<'));
    cx.label_if(v.len() > 1, "several");
    let mut p = Parser::default();
    for (n, v) in [("imagesdir", e.imagesdir), ("icons", e.icons), ("iconsdir", e.iconsdir), ("icontype", e.icontype)] {
        if let Some(v) = v {
            p = p.with_intrinsic_attribute(n, v, ModificationContext::Anywhere);
        }
    }
    let (doc, got) = ctx::render_in(&mut p, c, &src)?;
    ensure_eq!(want, got, "rendering of {doc:?}");
    Ok(())
}

fn block(g: &mut G, cx: &mut Cx) -> Outcome {
    let (name, ty) = g.of(&[("image", MediaType::Image), ("video", MediaType::Video), ("audio", MediaType::Audio)]);
    let t = g.of(&["x", "sunset.jpg", "a/b/pic.png", "my_pic-2.svg", "two words.mp4", "caf\u{e9}.png", "https://example.org/i/p.png", "a]b", "x::y", "rPmxYuHyIcg/list", ":", "a,b"]);
    let mut parts: Vec<String> = vec![];
    let mut pos: Vec<String> = vec![];
    let mut nam: Vec<(String, String)> = vec![];
    for _ in 0..g.u(4) {
        let v = g.of(&["Alt", "two words", "100", "youtube", "x]y", "caf\u{e9}", "a{sp}b", "{undef}"]);
        let out = v.replace("{sp}", " ");
        parts.push(if g.p(20) { format!("\"{v}, z\"") } else { v.to_string() });
        pos.push(if parts.last().unwrap().starts_with('"') { format!("{out}, z") } else { out });
    }
    for n in ["start", "opts", "role", "link", "width", "a-b"] {
        if g.p(25) {
            let v = g.of(&["60", "x y", "autoplay", "q"]);
            parts.push(quoted(g, n, v));
            nam.push((n.into(), v.into()));
        }
    }
    let sep = g.of(&[",", ", "]);
    let line = format!("{name}::{t}[{}]{}", parts.join(sep), g.of(&["", "", " ", "  "]));
    let meta = g.of(&["", "", ".Title\n", "[#bid.brole]\n", "[[anc]]\n"]);
    let (pre, post) = g.of(&[("", ""), ("para\n\n", ""), ("", "\n\npara"), ("====\n", "\n===="), ("== S\n\n", "\n\n== T"), ("", "\npara right after")]);
    let src = format!("{pre}{meta}{line}{post}");
    cx.input(src.clone());
    cx.nontrivial(!parts.is_empty());
    let mut p = Parser::default();
    let d = p.parse(&src);
    let m: Vec<_> = walk::blocks(&d).into_iter().filter_map(|b| if let Block::Media(m) = b { Some(m) } else { None }).collect();
    ensure_eq!(1, m.len(), "media blocks in {src:?}");
    let m = m[0];
    ensure_eq!(ty, m.type_(), "type");
    ensure_eq!(name.to_string(), m.raw_context().to_string(), "context");
    ensure_eq!(Some(t), m.target().map(|t| t.data()), "target");
    ensure_eq!(pos, m.macro_attrlist().attributes().filter(|a| a.name().is_none()).map(|a| a.value().to_string()).collect::<Vec<_>>(), "positional attributes");
    ensure_eq!(nam, m.macro_attrlist().attributes().filter_map(|a| a.name().map(|n| (n.to_string(), a.value().to_string()))).collect::<Vec<_>>(), "named attributes");
    for (n, v) in &nam {
        ensure_eq!(Some(v.as_str()), m.macro_attrlist().named_attribute(n).map(|a| a.value()), "attribute {n}");
    }
    for (i, v) in pos.iter().enumerate() {
        ensure_eq!(Some(v.as_str()), m.macro_attrlist().nth_attribute(i + 1).map(|a| a.value()), "positional attribute {}", i + 1);
        ensure_eq!(Some(v.as_str()), m.macro_attrlist().named_or_positional_attribute("alt", i + 1).map(|a| a.value()), "positional attribute {} through its name", i + 1);
    }
    match meta {
        ".Title\n" => ensure_eq!(Some("Title"), m.title(), "title"),
        "[#bid.brole]\n" => {
            ensure_eq!(Some("bid"), m.id(), "id");
            ensure_eq!(vec!["brole"], m.roles(), "roles");
        }
        "[[anc]]\n" => ensure_eq!(Some("anc"), m.id(), "id"),
        _ => ensure!(m.id().is_none() && m.title().is_none(), "no id or title was written"),
    }
    ensure!(m.rendered_content().is_none(), "a media block has no content");
    ensure!(d.warnings().count() == 0, "unexpected warnings {:?}", walk::warnings_of(&d));
    // What stands after the block is not lost.
    let n = walk::blocks(&d).iter().filter(|b| matches!(b, Block::Simple(_))).count();
    ensure_eq!((pre.contains("para") || post.contains("para")) as usize, n, "paragraphs beside the media block in {src:?}");
    Ok(())
}

fn not_media(g: &mut G, cx: &mut Cx) -> Outcome {
    let name = g.of(&["image", "video", "audio"]);
    let l = match g.u(8) {
        0 => format!("{name}::[x]"),
        1 => format!("{name}::x"),
        2 => format!("{name}::x[y"),
        3 => format!("{name}:: "),
        4 => format!("{name}s::x[]"),
        5 => format!("{name}::x[] z"),
        6 => format!("x{name}::x[]"),
        _ => format!("{name} ::x[]"),
    };
    let src = format!("{l}\n\npara");
    cx.input(src.clone());
    cx.nontrivial(true);
    let mut p = Parser::default();
    let d = p.parse(&src);
    let b: Vec<_> = d.nested_blocks().collect();
    ensure_eq!(2, b.len(), "blocks of {src:?}");
    let Block::Simple(s) = b[0] else { return Err(format!("{l:?} is not a block macro but was read as {}", b[0].raw_context().as_ref())) };
    ensure_eq!(l.trim_end(), s.content().original().data(), "paragraph text");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "inline: at least one element is expected in the output; block: the macro has attributes",
        assumptions: &[
            "Option nofollow is not combined with a window; no URL as the link (or as the image behind 'self') of an icon shown as text; values in width, height and link hold no quotes.",
            "Alternative text of block media macros holds no '.', '#' or '%' (existing tests pin that these are read as shorthand there).",
        ],
        families: vec![
            Family { name: "inline", run: inline, quick: 400_000, thorough: 8_000_000 },
            Family { name: "block", run: block, quick: 200_000, thorough: 4_000_000 },
            Family { name: "not-media", run: not_media, quick: 2_000, thorough: 10_000 },
        ],
    }
}
