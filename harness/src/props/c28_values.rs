//! C28: the string type's storage forms cannot be told apart.
//! C29: web paths.

use std::{
    borrow::{Borrow, Cow},
    collections::{HashMap, hash_map::DefaultHasher},
    hash::{Hash, Hasher},
    ops::Deref,
};

use asciidoc_parser::{
    Parser,
    parser::{ModificationContext, PathResolver},
    strings::{CowStr, InlineStr},
};

use crate::{ctx, engine::*, gens};

fn text(g: &mut G) -> String {
    match g.u(4) {
        // Around the inline limit, with characters of all widths.
        0 | 1 => {
            let n = g.range(0, 26);
            let mut s = String::new();
            while s.len() < n {
                s.push(g.of(&['a', 'b', ' ', '\0', '"', '\\', '\u{e9}', '\u{4e2d}', '\u{1F600}']));
            }
            s
        }
        2 => g.list(0, 12, gens::any_char).into_iter().collect(),
        _ => "x\u{e9}".repeat(g.range(0, 40)),
    }
}

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

const MAX: usize = 3 * size_of::<isize>() - 2;

fn forms(s: &str) -> Vec<(String, CowStr<'_>)> {
    let mut v: Vec<(String, CowStr<'_>)> = vec![
        ("from &str".into(), CowStr::from(s)),
        ("from String".into(), CowStr::from(s.to_string())),
        ("from Cow::Borrowed".into(), CowStr::from(Cow::Borrowed(s))),
        ("from Cow::Owned".into(), CowStr::from(Cow::<str>::Owned(s.to_string()))),
    ];
    if let Ok(i) = InlineStr::try_from(s) {
        v.push(("inlined".into(), CowStr::Inlined(i)));
    }
    let mut it = s.chars();
    if let (Some(c), None) = (it.next(), it.next()) {
        v.push(("from char".into(), CowStr::from(c)));
        v.push(("from Cow<char>".into(), CowStr::from(Cow::<char>::Owned(c))));
        v.push(("InlineStr from char".into(), CowStr::Inlined(InlineStr::from(c))));
    }
    let n = v.len();
    for i in 0..n {
        let c = (format!("clone of {}", v[i].0), v[i].1.clone());
        let d = (format!("clone of {}", c.0), c.1.clone());
        v.push(c);
        v.push(d);
    }
    v
}

fn strings(g: &mut G, cx: &mut Cx) -> Outcome {
    let s = text(g);
    // Another string: often one that differs by little.
    let t = match g.u(4) {
        0 => s.clone(),
        1 => format!("{s}a"),
        2 => {
            let mut t = s.clone();
            t.pop();
            t
        }
        _ => text(g),
    };
    cx.input(format!("{s:?} {t:?}"));
    cx.nontrivial(s.len() > 1);
    cx.label_if(s.len().abs_diff(MAX) <= 1, "around the inline limit");
    match InlineStr::try_from(s.as_str()) {
        Ok(i) => {
            ensure!(s.len() <= MAX, "{s:?} ({} bytes) fits in an InlineStr", s.len());
            ensure_eq!(s.as_str(), i.deref(), "InlineStr");
            ensure_eq!(s, i.to_string(), "InlineStr's Display");
            ensure_eq!(s.as_str(), i.as_ref(), "InlineStr::as_ref");
            let j = i;
            ensure!(i == j && hash(&i) == hash(&j), "a copy of an InlineStr differs");
            if let Ok(k) = InlineStr::try_from(t.as_str()) {
                ensure_eq!(s == t, i == k, "InlineStr == for {s:?} and {t:?}");
            }
        }
        Err(_) => ensure!(s.len() > MAX, "{s:?} ({} bytes) does not fit in an InlineStr", s.len()),
    }
    for (n, a) in forms(&s) {
        ensure_eq!(s.as_str(), a.deref(), "{n}: deref");
        ensure_eq!(s.as_str(), a.as_ref(), "{n}: as_ref");
        let b: &str = a.borrow();
        ensure_eq!(s.as_str(), b, "{n}: borrow");
        ensure_eq!(s, a.to_string(), "{n}: Display");
        ensure_eq!(format!("{s:?}"), format!("{a:#?}"), "{n}: alternate Debug");
        ensure_eq!(s.len(), a.len(), "{n}: length");
        ensure_eq!(hash(s.as_str()), hash(&a), "{n}: hash (and that of &str, since it can be borrowed as one)");
        let c: Cow<'_, str> = a.clone().into();
        ensure_eq!(s.as_str(), c.as_ref(), "{n}: into Cow");
        ensure_eq!(s, a.clone().into_string(), "{n}: into_string");
        for (m, b) in forms(&t) {
            ensure_eq!(s == t, a == b, "{n} == {m} for {s:?} and {t:?}");
        }
        // A map finds it by any of its forms.
        let mut map: HashMap<CowStr<'_>, i32> = HashMap::new();
        map.insert(a, 1);
        ensure_eq!(Some(&1), map.get(s.as_str()), "{n}: found by &str");
        ensure_eq!(s == t, map.contains_key(t.as_str()), "{n}: found by another &str");
    }
    Ok(())
}

pub fn strings_prop() -> Prop {
    Prop {
        id: "C28",
        rule: "text of more than one byte",
        assumptions: &["the storage forms themselves (which one is chosen) are left open, except that texts of up to 22 bytes fit inline"],
        families: vec![Family { name: "strings", run: strings, quick: 60_000, thorough: 2_000_000 }],
    }
}

// ------------------------------------------------------------------ paths ----

const SEGS: &[&str] = &["a", "b.png", "..", "..", ".", "", "my file", "caf\u{e9}", "...", ".x", "x..", "c:", "%20", "a b  c", "\u{4e2d}", "..a", " "];

fn segs(g: &mut G, n: usize) -> String {
    g.list(0, n, |g| g.of(SEGS)).join("/")
}

/// Where a path leads: URI prefix, root, steps up, and names.
fn walk(path: &str) -> (usize, Vec<String>) {
    let mut up = 0;
    let mut names: Vec<String> = vec![];
    for s in path.split('/').filter(|s| *s != ".") {
        if s == ".." {
            if names.pop().is_none() {
                up += 1;
            }
        } else {
            names.push(s.to_string());
        }
    }
    (up, names)
}

fn scheme(s: &str) -> usize {
    let Some(i) = s.find(':') else { return 0 };
    let mut c = s[..i].chars();
    if !c.next().is_some_and(char::is_alphabetic) || c.clone().next().is_none() || !c.all(|c| c.is_alphabetic() || c.is_numeric() || ".+-".contains(c)) {
        return 0;
    }
    let mut n = i + 1;
    for _ in 0..2 {
        if s[n..].starts_with('/') {
            n += 1;
        }
    }
    n
}

fn model(target: &str, start: Option<&str>, sep: char) -> String {
    let posix = |s: &str| if sep == '\\' { s.replace('\\', "/") } else { s.to_string() };
    let mut t = posix(target);
    let mut prefix = String::new();
    if let (Some(s), false) = (start, t.starts_with('/')) {
        let s = posix(s);
        let slash = if s.ends_with('/') { "" } else { "/" };
        let whole = format!("{s}{slash}{t}");
        let n = scheme(&whole);
        prefix = whole[..n].to_string();
        t = whole[n..].to_string();
    }
    let (root, rest) = if let Some(r) = t.strip_prefix('/') {
        ("/", r)
    } else if let Some(r) = t.strip_prefix("./") {
        ("./", r)
    } else {
        ("", t.as_str())
    };
    let (up, names) = walk(rest);
    let mut v: Vec<String> = if root == "/" { vec![] } else { vec!["..".to_string(); up] };
    v.extend(names);
    format!("{prefix}{root}{}", v.join("/")).replace(' ', "%20")
}

fn paths(g: &mut G, cx: &mut Cx) -> Outcome {
    let sep = if g.p(25) { '\\' } else { '/' };
    let r = PathResolver { file_separator: sep };
    let mut t = format!("{}{}", g.of(&["", "", "", "./", "/", "//", "../", "..", "."]), segs(g, 6));
    let mut start = match g.u(4) {
        0 => None,
        1 => Some(g.of(&["", "/", "./", "images", "images/", "../assets", "http://x.y", "https://x.y/z/", "file:///a b", "c:/x", "mailto:q", "h2+a-b.c://k", "1a://x", "a", "x y/./..", "..", "."]).to_string()),
        2 => Some(format!("{}{}", g.of(&["http://h/", "/", "data:", "./", ""]), segs(g, 4))),
        _ => Some(segs(g, 4)),
    };
    if g.p(30) {
        let k = g.range(1, 3);
        t = t.replacen('/', "\\", k);
        start = start.map(|s| s.replacen('/', "\\", k));
    }
    cx.input(format!("{t:?} {start:?} {sep:?}"));
    let got = r.web_path(&t, start.as_deref());
    cx.nontrivial(t.contains("..") || start.is_some());
    let px = r.posixify(&t);
    ensure_eq!(if sep == '\\' { t.replace('\\', "/") } else { t.clone() }, px, "posixify({t:?}) with {sep:?}");
    ensure_eq!(px.starts_with('/'), r.is_web_root(&px), "is_web_root({px:?})");
    ensure_eq!(model(&t, start.as_deref(), sep), got, "web_path({t:?}, {start:?}) with {sep:?}");
    // Laws, whatever the details.
    ensure!(!got.contains(' '), "blank in {got:?}");
    if scheme(&got) == 0 {
        ensure_eq!(got, r.web_path(&got, None), "resolving {got:?} again");
        let rest = got.strip_prefix("./").unwrap_or(&got);
        let mut names = false;
        for s in rest.split('/') {
            ensure!(s != ".", "self reference in {got:?}");
            ensure!(s != ".." || !names, "parent reference after a name in {got:?}");
            names = names || s != "..";
        }
        ensure!(got != "/.." && !got.starts_with("/../"), "above the root: {got:?}");
    }
    if px.starts_with('/') {
        ensure_eq!(r.web_path(&t, None), got, "absolute target with start {start:?}");
    }
    Ok(())
}

/// The same through an image or icon.
fn images(g: &mut G, cx: &mut Cx) -> Outcome {
    let clean = |s: String| s.replace(['[', ']', '\\'], "");
    let seg = |g: &mut G| g.of(&["a", "b", "..", ".", "", "c d", "caf\u{e9}", "x.y"]);
    let name = g.list(0, 3, seg).join("/");
    let mut t = format!("{}{}{}", g.of(&["", "", "../", "./", "/", "http://h/", "h2+a-b.c://k/", "ab:", "c:/", "1a://x/"]), if name.is_empty() { String::new() } else { format!("{name}/") }, "i.png");
    t = clean(t);
    // The form of a macro's target.
    if t.starts_with(' ') || t.contains("//c d") {
        t = "i.png".into();
    }
    let dir = g.of(&["images", "images/", "../x", "http://h.i/j", "/root/a/b", "a b", ".", "./", "c:/d", "", "a/./b/..", "\u{e9}"]);
    let icon = g.p(30);
    let key = if icon { "iconsdir" } else { "imagesdir" };
    let set = g.p(85);
    let mut p = Parser::default();
    p.path_resolver = PathResolver { file_separator: '/' };
    if set {
        p = p.with_intrinsic_attribute(key, dir, ModificationContext::Anywhere);
    } else if icon {
        return Ok(());
    }
    let src = if icon {
        p = p.with_intrinsic_attribute("icons", "image", ModificationContext::Anywhere);
        t = t.replace("..", "u").replace("//", "/").replace(' ', "_").replace("http:", "h");
        let src = format!("x icon:{}[] y", t.strip_suffix(".png").unwrap_or(&t));
        src
    } else {
        format!("x image:{t}[] y")
    };
    cx.input(format!("{src} ({key}={dir:?})"));
    cx.nontrivial(set);
    let (_, out) = ctx::render_in(&mut p, ctx::Ctx::Para, &src)?;
    let want = if scheme(&t) > 0 { t.replace(' ', "%20") } else { model(&t, if set { Some(dir) } else { None }, '/') };
    let Some(got) = out.split_once("src=\"").and_then(|x| x.1.split_once('"')) else {
        return Err(format!("no image in {out:?} for {src:?}"));
    };
    ensure_eq!(want.as_str(), got.0, "source of the image {src:?} with {key}={dir:?}");
    Ok(())
}

pub fn paths_prop() -> Prop {
    Prop {
        id: "C29",
        rule: "there is a start path or a parent reference",
        assumptions: &["as tests pin: an empty start path makes the target absolute, and a trailing slash is kept"],
        families: vec![
            Family { name: "paths", run: paths, quick: 400_000, thorough: 8_000_000 },
            Family { name: "images", run: images, quick: 60_000, thorough: 1_000_000 },
        ],
    }
}
