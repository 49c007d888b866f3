//! C06: section hierarchy.  C07: section numbers.  C08: generated IDs.
//! C09: catalog.  One model of a document's headings, blocks and attribute
//! entries; each property compares its own part.

use std::collections::HashMap;

use asciidoc_parser::{
    Document, HasSpan, Parser,
    blocks::{Block, IsBlock, SectionType},
    document::RefType,
    parser::ModificationContext,
};

use crate::{engine::*, gens::char_ref, inl};

#[derive(Clone, Copy, PartialEq)]
enum What {
    Tree,
    Numbers,
    Ids,
    Catalog,
}

#[derive(Default, Clone)]
struct Item {
    raw: &'static str,
    /// Lines of metadata, then of the block itself (for compound blocks the
    /// children go between the last two).
    meta: Vec<String>,
    body: Vec<String>,
    level: usize,
    title: String,
    style: &'static str,
    id: Option<String>,
    reftext: Option<String>,
    btitle: Option<String>,
    attr: Option<(&'static str, Option<String>)>,
    warn: Option<String>,
    kids: Vec<Item>,
}

const TITLES: &[&str] = &[
    "Alpha", "Beta", "alpha", "Alpha beta", "Alpha-beta", "Alpha.beta", "Wiley & Sons, Inc.", "Foo (*bar*)", "_Em_ text", "`code` x", "C++ (C)", "D\u{e9}j\u{e0} vu", "x -- y", "It's here", "1. One", "a < b", "A{av}Z", "wait... what",
    "\u{4e2d}\u{6587} T", "Q&A, yes", "&#167; Law", "a+b=c", "x_y", "Alpha 2", "alpha  beta", "*B*", "Caf\u{e9}!", "[.red]#Red# x", "A/B: C; D", "beta 2", "Alpha, beta", "\u{130}x", "v1.0-rc.2 notes", "Tom &amp; Jerry", "& Foo bar", "(x) y", "? what", "\u{4e2d} & \u{6587}", "Alpha -", "x &", "one.  two", "Straße Ünd", "A - . B", "#1 & #2", "{av} {av}", "{nope}x",
];
const TITLE_BITS: &[&str] = &[
    "Alpha", "beta", "X", "\u{e9}t\u{e9}", "\u{4e2d}", " *b* ", " `c` ", "{av}", "2", "10", " ", " ", " ", "  ", "-x", "- ", ".", "..", "_", "__", ",", ":", "!", "/", "&", " & ", "<", ">", "a > b", "(", ")", "'", "\"", "=", "#", "$", "\u{1F600}",
    "\u{2014}",
];

fn title(g: &mut G) -> String {
    if g.p(65) {
        return g.of(TITLES).to_string();
    }
    let mut t = g.of(&["A", "b", "Zed", "9", "\u{c9}"]).to_string();
    for _ in 0..g.range(1, 6) {
        if g.p(15) {
            t.push_str(&char_ref(g));
        } else {
            t.push_str(g.of(TITLE_BITS));
        }
    }
    t.truncate(t.trim_end().len());
    // (Not a passthrough.)
    while t.contains("$$") {
        t = t.replace("$$", "$");
    }
    t
}

const IDS: &[&str] = &["i1", "i2", "_alpha", "_beta", "_alpha-2", "_alpha_beta", "x-y", "i\u{e9}", "alpha"];
const REFTEXTS: &[&str] = &["Alpha", "Ref", "See this", "i1", "Title A"];

fn id_meta(g: &mut G, it: &mut Item, pct: usize, style: &'static str) {
    let mut list = String::new();
    it.style = style;
    if !style.is_empty() {
        if g.p(12) {
            list.push_str(&format!("{{st-{style}}}"));
        } else {
            list.push_str(style);
        }
    }
    let mut anchor = None;
    if g.p(pct) {
        let id = g.of(IDS).to_string();
        match g.u(4) {
            0 => anchor = Some(id.clone()),
            1 | 2 => list.push_str(&format!("#{id}")),
            _ => {
                let sep = if list.is_empty() { "" } else { "," };
                list.push_str(&format!("{sep}id={id}"));
            }
        }
        it.id = Some(id);
        if g.p(30) {
            let r = g.of(REFTEXTS).to_string();
            if let Some(a) = &mut anchor
                && it.raw != "section"
                && g.p(60)
            {
                // (What an anchor before a section gives is pinned by a test.)
                a.push_str(&format!(",{r}"));
            } else {
                let sep = if list.is_empty() { "" } else { "," };
                list.push_str(&format!("{sep}reftext=\"{r}\""));
            }
            it.reftext = Some(r);
        }
    } else if g.p(10) && style.is_empty() {
        list.push_str(".role");
    }
    let mut m = vec![];
    if !list.is_empty() {
        m.push(format!("[{list}]"));
    }
    if let Some(a) = anchor {
        m.insert(g.u(m.len() + 1), format!("[[{a}]]"));
    }
    if it.raw != "section" && g.p(25) {
        let t = g.of(&["Title A", "Alpha", "*b* c"]);
        it.btitle = Some(t.into());
        m.insert(g.u(m.len() + 1), format!(".{t}"));
    }
    it.meta = m;
}

fn heading(g: &mut G, what: What) -> Item {
    let mut it = Item { raw: "section", ..Item::default() };
    it.level = match g.w(&[4, 5, 3, 2, 1]) {
        0 => 1,
        n => n + 1,
    };
    it.title = title(g);
    let style = match what {
        What::Numbers => g.of(&["", "", "", "appendix", "discrete", "abstract"]),
        _ => g.of(&["", "", "", "", "", "", "discrete", "float", "appendix", "abstract"]),
    };
    let pct = match what {
        What::Catalog => 40,
        What::Ids => 20,
        _ => 5,
    };
    id_meta(g, &mut it, pct, style);
    let mark = if g.p(25) { "#" } else { "=" };
    let sp = if g.p(10) { g.of(&["  ", "\t", " \t "]) } else { " " };
    it.body.push(format!("{}{sp}{}", mark.repeat(it.level + 1), it.title));
    it
}

fn block(g: &mut G, what: What, depth: usize) -> Item {
    let pct = if what == What::Catalog { 60 } else { 10 };
    let k = g.w(&[6, 2, 1, 1, if depth > 0 { 3 } else { 0 }, 1, 1]);
    let mut it = Item::default();
    match k {
        0 => {
            it.raw = "paragraph";
            it.body.push(g.of(&["text", "some words", "foo == bar", "==# mixed", "###= mixed", "==glued", "##glued"]).into());
        }
        1 => {
            it.raw = g.of(&["listing", "literal", "pass"]);
            let d = match it.raw {
                "listing" => "----",
                "literal" => "....",
                _ => "++++",
            };
            it.body = vec![d.into(), g.of(&["== No section", "x", "[[i1]]", ":sectnums:", "[#i2]\ny"]).into(), d.into()];
        }
        2 => {
            it.raw = "image";
            it.body.push("image::x.png[]".into());
        }
        3 => {
            it.raw = g.of(&["thematic_break", "page_break"]);
            it.body.push(if it.raw == "page_break" { "<<<" } else { "'''" }.into());
        }
        4 => {
            let (r, d) = if depth > 1 { g.of(&[("example", "===="), ("sidebar", "****"), ("quote", "____")]) } else { g.of(&[("example", "====="), ("open", "--"), ("quote", "_____")]) };
            it.raw = r;
            it.body = vec![d.into(), d.into()];
            it.kids = g.list(0, 3, |g| {
                if g.p(15) {
                    let mut h = heading(g, what);
                    h.kids.clear();
                    let mut d = Item { raw: "section", level: h.level, title: h.title, body: h.body, ..Item::default() };
                    id_meta(g, &mut d, pct, "discrete");
                    d
                } else {
                    block(g, what, depth - 1)
                }
            });
        }
        // Headings that are none.
        5 => {
            it.raw = "paragraph";
            it.body.push("= Not a section".into());
            it.warn = Some("WarningType::Level0SectionHeadingNotSupported".into());
        }
        _ => {
            it.raw = "paragraph";
            let n = g.range(7, 9);
            it.body.push(format!("{} Too deep", g.of(&["=", "#"]).repeat(n)));
            it.warn = Some(format!("WarningType::SectionHeadingLevelExceedsMaximum({})", n - 1));
        }
    }
    id_meta(g, &mut it, pct, "");
    it
}

fn entry(g: &mut G, what: What) -> Item {
    let (n, v): (&'static str, Option<String>) = match what {
        What::Numbers => ("sectnums", if g.p(60) { Some(String::new()) } else { None }),
        _ => match g.u(4) {
            0 => ("sectids", if g.p(50) { Some(String::new()) } else { None }),
            1 => ("idprefix", Some(g.of(&["", "", "_", "p-", "id_", "sec.", "\u{e9}"]).to_string())),
            2 => ("idseparator", Some(g.of(&["_", "-", ".", "", "--", "\u{b7}", "\u{2013}x", "+"]).to_string())),
            _ => ("av", Some(g.of(&["one", "Two", "x y"]).to_string())),
        },
    };
    let line = match &v {
        None if g.p(50) => format!(":{n}!:"),
        None => format!(":!{n}:"),
        Some(v) if v.is_empty() => format!(":{n}:"),
        Some(v) => format!(":{n}: {v}"),
    };
    Item { raw: "attribute", body: vec![line], attr: Some((n, v)), ..Item::default() }
}

// ----------------------------------------------------------------- model ----

#[derive(Clone, Default, Debug, PartialEq)]
struct N {
    depth: usize,
    raw: String,
    line: usize,
    level: usize,
    stype: &'static str,
    title: String,
    id: Option<String>,
    num: Option<Vec<usize>>,
    shown: Option<String>,
}

#[derive(Default)]
struct Model {
    attrs: HashMap<String, Option<String>>,
    levels: usize,
    normal: Vec<usize>,
    appendix: Vec<usize>,
    top: &'static str,
    out: Vec<N>,
    /// Registered IDs in order.
    refs: Vec<(String, Option<String>, bool)>,
    warnings: Vec<(String, usize)>,
    prev: usize,
}

struct Open {
    at: usize,
    level: usize,
    base: String,
    manual: Option<String>,
    reftext: String,
    sectids: bool,
    line: usize,
}

/// ID proposed for a rendered title.
pub fn base_id(title: &str, prefix: &str, sep: &str) -> String {
    let low = title.to_lowercase();
    let c: Vec<char> = low.chars().collect();
    let at = |i: usize, s: &str| c[i..].iter().take(s.len()).collect::<String>() == s;
    let mut keep = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '<'
            && let Some(n) = c[i + 1..].iter().position(|x| *x == '>')
            && n > 0
        {
            i += n + 2;
            continue;
        }
        if at(i, "&lt;")
            && let Some(n) = c[i + 4..].iter().position(|x| *x == '&')
            && at(i + 4 + n, "&gt;")
        {
            i += 4 + n + 4;
            continue;
        }
        if c[i] == '&'
            && let Some(n) = c[i..].iter().position(|x| *x == ';')
            && n > 2
            && c[i + 1..i + n].iter().all(|x| x.is_ascii_alphanumeric() || *x == '#')
        {
            i += n + 1;
            continue;
        }
        if inl::is_word(c[i]) || matches!(c[i], ' ' | '.' | '-' | '\u{301}' | '\u{307}') {
            keep.push(c[i]);
        }
        i += 1;
    }
    let sep: String = sep.chars().take(1).collect();
    let mut id = String::new();
    for ch in keep.chars() {
        if matches!(ch, ' ' | '.' | '-') {
            if !sep.is_empty() && !id.ends_with(&sep) {
                id.push_str(&sep);
            }
        } else if !(sep == ch.to_string() && id.ends_with(&sep)) {
            id.push(ch);
        }
    }
    if !sep.is_empty() && id.ends_with(&sep) {
        id.pop();
    }
    if prefix.is_empty() && !sep.is_empty() && id.starts_with(&sep) {
        id.remove(0);
    }
    format!("{prefix}{id}")
}

impl Model {
    fn get(&self, n: &str) -> Option<String> {
        self.attrs.get(n).cloned().flatten()
    }
    fn set(&self, n: &str) -> bool {
        matches!(self.attrs.get(n), Some(Some(_)))
    }
    fn register(&mut self, id: &str, reftext: Option<String>, section: bool, line: usize) {
        if self.refs.iter().any(|r| r.0 == id) {
            self.warnings.push((format!("WarningType::DuplicateId({id:?})"), line));
        } else {
            self.refs.push((id.to_string(), reftext, section));
        }
    }
    fn close(&mut self, o: Open) {
        if let Some(id) = &o.manual {
            self.register(id, Some(o.reftext), true, o.line);
            self.out[o.at].id = Some(id.clone());
        } else if o.sectids {
            let mut id = o.base.clone();
            let mut n = 2;
            while self.refs.iter().any(|r| r.0 == id) {
                id = format!("{}-{n}", o.base);
                n += 1;
            }
            self.refs.push((id.clone(), Some(o.reftext), true));
            self.out[o.at].id = Some(id);
        }
    }
    fn render(&self, t: &str) -> String {
        inl::normal(t, &|n| self.get(n), &mut inl::Notes::default())
    }
    fn item(&mut self, it: &Item, depth: usize, line: usize) -> Option<Open> {
        if let Some(w) = &it.warn {
            self.warnings.push((w.clone(), line + it.meta.len()));
        }
        let at = self.out.len();
        self.out.push(N { depth, raw: it.raw.into(), line, ..N::default() });
        if let Some((n, v)) = &it.attr {
            self.attrs.insert(n.to_string(), v.clone());
            return None;
        }
        if it.raw != "section" {
            self.out[at].id = it.id.clone();
            return None;
        }
        let discrete = matches!(it.style, "discrete" | "float");
        let title = self.render(&it.title);
        if !discrete && it.level == 1 {
            self.top = if it.style == "appendix" { "Appendix" } else { "Normal" };
        }
        let n = &mut self.out[at];
        n.level = it.level;
        n.title = title.clone();
        n.stype = if discrete { "Discrete" } else { self.top };
        if !discrete && self.set("sectnums") && it.level <= self.levels {
            let app = self.top == "Appendix";
            let v = if app { &mut self.appendix } else { &mut self.normal };
            if v.len() >= it.level {
                v.truncate(it.level);
                v[it.level - 1] += 1;
            } else {
                while v.len() < it.level {
                    v.push(1);
                }
            }
            let v = v.clone();
            let mut s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            if app {
                let mut x = v[0];
                let mut l = String::new();
                while x > 0 {
                    l.insert(0, (b'A' + ((x - 1) % 26) as u8) as char);
                    x = (x - 1) / 26;
                }
                s[0] = l;
            }
            let n = &mut self.out[at];
            n.num = Some(v);
            n.shown = Some(s.join("."));
        }
        let o = Open {
            at,
            level: it.level,
            base: base_id(&title, &self.get("idprefix").unwrap_or_default(), &self.get("idseparator").unwrap_or_default()),
            manual: it.id.clone(),
            reftext: it.reftext.clone().unwrap_or(title),
            sectids: self.set("sectids"),
            line,
        };
        if discrete {
            self.close(o);
            return None;
        }
        Some(o)
    }
}

fn write(g: &mut G, it: &Item, lines: &mut Vec<String>, m: &mut Model, depth: usize) -> Option<Open> {
    let line = lines.len() + 1;
    for l in &it.meta {
        lines.push(l.clone());
    }
    let open = m.item(it, depth, line);
    let compound = matches!(it.raw, "example" | "sidebar" | "quote" | "open");
    for (i, l) in it.body.iter().enumerate() {
        if compound && i == 1 {
            for (k, kid) in it.kids.iter().enumerate() {
                if k > 0 || g.p(20) {
                    lines.push(String::new());
                }
                write(g, kid, lines, m, depth + 1);
            }
        }
        lines.extend(l.split('\n').map(str::to_string));
    }
    // A block is registered when it ends.
    if it.raw != "section" && it.attr.is_none()
        && let Some(id) = &it.id
    {
        let r = it.reftext.clone().or_else(|| it.btitle.as_ref().map(|t| m.render(t)));
        m.register(id, r, false, line);
    }
    open
}

fn seen<'a>(it: impl Iterator<Item = &'a Block<'a>>, depth: usize, v: &mut Vec<N>) {
    for b in it {
        if matches!(b, Block::Preamble(_)) {
            seen(b.nested_blocks(), depth, v);
            continue;
        }
        let mut n = N { depth, raw: b.raw_context().to_string(), line: b.span().line(), id: b.id().map(str::to_string), ..N::default() };
        match b {
            Block::Section(s) => {
                n.level = s.level();
                n.title = s.section_title().to_string();
                n.stype = match s.section_type() {
                    SectionType::Normal => "Normal",
                    SectionType::Appendix => "Appendix",
                    SectionType::Discrete => "Discrete",
                };
                n.id = s.id().map(str::to_string);
                n.num = s.section_number().map(|x| x.components().to_vec());
                n.shown = s.section_number().map(|x| x.to_string());
            }
            Block::DocumentAttribute(_) => n.raw = "attribute".into(),
            _ => {}
        }
        v.push(n);
        seen(b.nested_blocks(), depth + 1, v);
    }
}

fn run(g: &mut G, cx: &mut Cx, what: What) -> Outcome {
    let many = g.p(3);
    let items: Vec<Item> = if many && what != What::Numbers {
        // Long documents, few titles.
        let n = g.range(15, 40);
        let t = g.list(1, 2, title);
        (0..n)
            .map(|_| {
                let mut h = heading(g, what);
                if g.p(80) {
                    let l = h.body.len() - 1;
                    let w = h.body[l].replace(&h.title, "");
                    h.title = g.of(&t);
                    h.body[l] = format!("{w}{}", h.title);
                    if g.p(70) {
                        h.style = "";
                        h.id = None;
                        h.reftext = None;
                        h.meta.clear();
                    }
                }
                h
            })
            .collect()
    } else if many {
        // Enough appendices for a second letter.
        let n = g.range(20, 90);
        let flat = g.p(50);
        (0..n).map(|_| { let mut h = heading(g, what); if flat {
                    h.level = 1;
                    h.body = vec![format!("== {}", h.title)];
                }
                if h.level == 1 && g.p(80) { h.style = "appendix"; h.id = None; h.meta = vec!["[appendix]".into()]; } h }).collect()
    } else {
        g.list(1, 12, |g| match g.w(&[8, 4, if what == What::Tree { 0 } else { 3 }]) {
            0 => heading(g, what),
            1 => block(g, what, 2),
            _ => entry(g, what),
        })
    };
    let mut lines: Vec<String> = vec!["= Doc".into()];
    let mut m = Model { levels: 3, top: "Normal", prev: 0, ..Model::default() };
    for (n, v) in [("sectids", Some("")), ("idprefix", Some("_")), ("idseparator", Some("_")), ("av", Some("Val"))] {
        m.attrs.insert(n.into(), v.map(str::to_string));
    }
    lines.push(":av: Val".into());
    for st in ["discrete", "float", "appendix", "abstract"] {
        lines.push(format!(":st-{st}: {st}"));
    }
    let mut p = Parser::default();
    let nums = match what {
        What::Numbers => g.p(80),
        _ => g.p(20),
    };
    if nums {
        m.attrs.insert("sectnums".into(), Some(String::new()));
        if g.p(15) {
            p = p.with_intrinsic_attribute_bool("sectnums", true, ModificationContext::Anywhere);
        } else {
            lines.push(":sectnums:".into());
        }
    }
    if what == What::Numbers && g.p(60) {
        let n = g.range(0, 6);
        m.levels = if n == 6 { 3 } else { n };
        if n == 6 {
            // Without a number, three levels.
            lines.push(g.of(&[":sectnumlevels!:", ":!sectnumlevels:", ":sectnumlevels: 3"]).to_string());
        } else if g.p(30) {
            p = p.with_intrinsic_attribute("sectnumlevels", n.to_string(), ModificationContext::Anywhere);
        } else {
            lines.push(format!(":sectnumlevels: {n}"));
        }
    }
    if matches!(what, What::Ids | What::Catalog) {
        for _ in 0..g.w(&[5, 2, 1]) {
            let e = entry(g, what);
            let (n, v) = e.attr.clone().unwrap();
            m.attrs.insert(n.into(), v);
            lines.extend(e.body);
        }
    }
    lines.push(String::new());
    let mut stack: Vec<Open> = vec![];
    let mut heads = 0;
    for it in &items {
        let real = it.raw == "section" && !matches!(it.style, "discrete" | "float");
        if real {
            heads += 1;
            while stack.last().is_some_and(|o| o.level >= it.level) {
                let o = stack.pop().unwrap();
                m.close(o);
            }
            if m.prev > 0 && it.level > m.prev + 1 {
                m.warnings.push((format!("WarningType::SectionHeadingLevelSkipped({}, {})", m.prev, it.level), lines.len() + 1 + it.meta.len()));
            }
            m.prev = it.level;
        }
        let depth = stack.len();
        let o = write(g, it, &mut lines, &mut m, depth);
        stack.extend(o);
        for _ in 0..g.w(&[0, 5, 1]) {
            lines.push(String::new());
        }
    }
    while let Some(o) = stack.pop() {
        // The level 1 section's end resets the type for what follows; nothing
        // does.
        m.close(o);
    }
    let src = lines.join("\n");
    cx.input(src.clone());
    cx.label_if(many, "long document");
    let doc = p.parse(&src);
    let mut got = vec![];
    seen(doc.nested_blocks(), 0, &mut got);
    let mut want = m.out.clone();
    for v in [&mut got, &mut want] {
        for n in v.iter_mut() {
            match what {
                What::Tree => {
                    n.id = None;
                    n.num = None;
                    n.shown = None;
                }
                What::Numbers => n.id = None,
                What::Ids | What::Catalog => {
                    n.num = None;
                    n.shown = None;
                }
            }
        }
    }
    for (w, g) in want.iter().zip(&got) {
        ensure_eq!(w, g, "block at line {} of {src:?}", w.line);
    }
    ensure_eq!(want.len(), got.len(), "number of blocks in {src:?}");
    // What stands before the first section is the preamble.
    let top: Vec<&N> = want.iter().filter(|n| n.depth == 0).collect();
    let cut = top.iter().position(|n| n.raw == "section" && n.stype != "Discrete").filter(|i| top[..*i].iter().any(|n| n.raw != "attribute" && n.raw != "comment"));
    let pre: Vec<(usize, usize)> = doc.nested_blocks().enumerate().filter(|(_, b)| matches!(b, Block::Preamble(_))).map(|(i, b)| (i, b.nested_blocks().count())).collect();
    ensure_eq!(cut.map(|i| (0, i)).into_iter().collect::<Vec<_>>(), pre, "preamble (place, blocks) in {src:?}");
    let pick = |s: &str| match what {
        What::Tree => s.contains("SectionHeading"),
        What::Catalog => s.contains("DuplicateId"),
        _ => false,
    };
    let mut ws: Vec<(String, usize)> = m.warnings.iter().filter(|w| pick(&w.0)).cloned().collect();
    let mut wg: Vec<(String, usize)> = doc.warnings().map(|w| (format!("{:?}", w.warning), w.source.line())).filter(|w| pick(&w.0)).collect();
    ws.sort();
    wg.sort();
    ensure_eq!(ws, wg, "warnings (with line) in {src:?}");
    match what {
        What::Tree => cx.nontrivial(heads > 1),
        What::Numbers => cx.nontrivial(m.out.iter().filter(|n| n.num.is_some()).count() > 1),
        What::Ids => cx.nontrivial(m.out.iter().filter(|n| n.stype != "" && n.id.is_some()).count() > 1),
        What::Catalog => {
            cx.nontrivial(m.refs.len() > 1);
            cx.label_if(!ws.is_empty(), "duplicates");
            catalog(&doc, &m, &src)?;
        }
    }
    if what == What::Ids {
        // All generated IDs are different and can be looked up.
        for n in m.out.iter().filter(|n| n.stype != "") {
            if let Some(id) = &n.id {
                ensure!(doc.catalog().contains_id(id), "section ID {id:?} is not in the catalog of {src:?}");
            }
        }
    }
    Ok(())
}

fn catalog(doc: &Document<'_>, m: &Model, src: &str) -> Outcome {
    let c = doc.catalog();
    ensure_eq!(m.refs.len(), c.len(), "catalog entries in {src:?}");
    ensure_eq!(m.refs.is_empty(), c.is_empty(), "catalog emptiness in {src:?}");
    let mut first: HashMap<&str, &str> = HashMap::new();
    for (id, r, section) in &m.refs {
        let e = c.get_ref(id).ok_or_else(|| format!("{id:?} is not in the catalog of {src:?}"))?;
        ensure!(c.contains_id(id), "contains_id({id:?}) is false in {src:?}");
        ensure_eq!(id, &e.id, "ID of the entry in {src:?}");
        ensure_eq!(r, &e.reftext, "reference text of {id:?} in {src:?}");
        ensure_eq!(*section, e.ref_type == RefType::Section, "section entry {id:?} in {src:?}");
        if let Some(r) = r {
            first.entry(r).or_insert(id);
        }
    }
    for (r, id) in &first {
        ensure_eq!(Some(id.to_string()), c.resolve_id(r), "ID for reference text {r:?} in {src:?}");
    }
    for x in ["no such id", "", "No section"] {
        ensure!(!c.contains_id(x) && c.get_ref(x).is_none(), "{x:?} is in the catalog of {src:?}");
    }
    ensure_eq!(None, c.resolve_id("no such text"), "unknown reference text");
    Ok(())
}

fn tree(g: &mut G, cx: &mut Cx) -> Outcome {
    run(g, cx, What::Tree)
}
fn numbers(g: &mut G, cx: &mut Cx) -> Outcome {
    run(g, cx, What::Numbers)
}
fn ids(g: &mut G, cx: &mut Cx) -> Outcome {
    run(g, cx, What::Ids)
}
fn cat(g: &mut G, cx: &mut Cx) -> Outcome {
    run(g, cx, What::Catalog)
}

pub fn c06() -> Prop {
    Prop { id: "C06", rule: "more than one section", assumptions: &["Sections are not placed inside delimited blocks."], families: vec![Family { name: "tree", run: tree, quick: 200_000, thorough: 4_000_000 }] }
}
pub fn c07() -> Prop {
    Prop { id: "C07", rule: "more than one numbered section", assumptions: &[], families: vec![Family { name: "numbers", run: numbers, quick: 200_000, thorough: 4_000_000 }] }
}
pub fn c08() -> Prop {
    Prop { id: "C08", rule: "more than one section with an ID", assumptions: &["Titles start with a word character or markup around one."], families: vec![Family { name: "ids", run: ids, quick: 200_000, thorough: 4_000_000 }] }
}
pub fn c09() -> Prop {
    Prop { id: "C09", rule: "more than one entry in the catalog", assumptions: &[], families: vec![Family { name: "catalog", run: cat, quick: 200_000, thorough: 4_000_000 }] }
}
