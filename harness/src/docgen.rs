//! Structured documents: a tree that is written out as AsciiDoc in one of many
//! equivalent ways, together with the dump that parsing it must give.

use asciidoc_parser::{
    Document, HasSpan,
    blocks::{Block, IsBlock},
};

use crate::{ctx, engine::*, inl};

#[derive(Clone, Debug, Default)]
pub struct Attrs {
    pub style: Option<&'static str>,
    pub id: Option<String>,
    pub roles: Vec<&'static str>,
    pub opts: Vec<&'static str>,
    /// As written, between the brackets.
    pub src: String,
    /// Expected attributes in order.
    pub all: Vec<(Option<String>, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub title: Option<String>,
    pub anchor: Option<(String, Option<String>)>,
    pub at: Option<Attrs>,
    /// Metadata lines in the order written (comment lines included).
    pub lines: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// Lines; those that start with `//` are comments.
    Para(Vec<String>),
    /// Indented paragraph.
    Indented(Vec<String>),
    /// (Closed or not.)
    Raw { delim: String, lines: Vec<String>, closed: bool },
    Compound { delim: String, kids: Vec<Node>, closed: bool },
    Section { level: usize, mark: char, title: String, kids: Vec<Node> },
    Discrete { level: usize, title: String },
    Media { name: &'static str, target: String, alt: String },
    Break(&'static str),
    Attr { name: String, value: Option<String>, line: String },
    Comments(Vec<String>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub meta: Meta,
    pub kind: Kind,
}

/// What a block looks like from outside.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct D {
    pub raw: String,
    pub ctx: String,
    pub model: String,
    pub style: Option<String>,
    pub title: Option<String>,
    pub id: Option<String>,
    pub anchor: Option<String>,
    pub reftext: Option<String>,
    pub roles: Vec<String>,
    pub opts: Vec<String>,
    pub attrs: Option<Vec<(Option<String>, String)>>,
    pub text: Option<String>,
    pub extra: String,
    /// First line and text of the span (without blanks at its end).
    pub line: usize,
    pub span: String,
    pub kids: Vec<D>,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub depth: usize,
    pub max: usize,
    /// Percentage of blocks with metadata.
    pub meta: usize,
    pub sections: bool,
    pub attrs: bool,
    pub comments: bool,
    /// Percentage of paragraph lines that merely look like something else.
    pub tricky: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { depth: 3, max: 5, meta: 35, sections: true, attrs: true, comments: true, tricky: 25 }
    }
}

#[derive(Default)]
pub struct St {
    pub n: usize,
    /// Delimiters of the blocks around the current place.
    pub encl: Vec<String>,
    pub sect: usize,
}

pub const PLAIN: &[&str] = &["a", "foo", "Hello world", "x1", "caf\u{e9}", "\u{4e2d}\u{6587}", "the quick brown", "z, y", "one. two", "item 3", "\u{1F600}"];
const MARKED: &[&str] = &["*bold*", "_em_", "`code`", "a & b", "x < y", "(C)", "it's", "a -- b", "#hl#", "**un**x", "wait...", "{nope}", "&amp;", "\\*no*", "a^2^", "x=>y"];

pub fn words(g: &mut G) -> String {
    let mut s = g.of(PLAIN).to_string();
    for _ in 0..g.w(&[4, 4, 2]) {
        s.push(' ');
        s.push_str(if g.p(40) { g.of(MARKED) } else { g.of(PLAIN) });
    }
    s
}

/// Lines that are plain text within a paragraph although they would start
/// something else elsewhere.
const INNER: &[&str] = &[
    "== x", "= T", "=== y z", ".foo", ".Title here", ":a: b", ":!a:", "'''", "---", "***", "* item", "- item", ". item", "1. item", "|===", "<<<", "////x", "///", "---- x", "====x", "-----y", "[x", "x]", "## H", "# H",
    "+ x", "NOTE: n", "term:: def", "* * *", "====.", "--x", "..", "...", ". ", "[a] b", "  indented", "\tx", "=", "==", "-", "*", ".", ":", "x ----", "a //b",
    "===x", "---x", "***x", "___x", "...x", "/// x", "///x", "===x====", "--- ---", "__.", "--=", "====\u{2550}", "----.", "....-", "====-", "****_", "____-", "-----+", "////-",
    "//// //", "/////  /", "---- --", "....  .", "**** *", "____ _", "==== =", "--  -", "////\t/",
];

/// First lines that look special but are not.
const FIRST: &[&str] = &[
    "* item", "- item", ". item", "1. item", "|=== x", "NOTE: n", "term:: def", "[x", "[a] b", "---- x", "====x", "==x", "--x", ".. x", ":a", ":a b", "'' x", "* * * *", "- - - -", "- -", "* *", "<<", "<<<<", "-- -", "''", "'''''", "- - - x", "****x", "<<<x", "<<< x", "''' x", "//// x y".split_at(0).1, "__x", "image:x", "imagex::y", "> quote", "***x y",
    "- - -x", "|a", "_____x", "....x", "****x", "image::x", "video::[x]", "image::x[] y", "<<", "''", "* *", "- -", "=== ".split_at(3).0, "...", "===x", "---x", "___x", "...x y", "====\u{2550}", ":a:b", ":a:b: c", "----.", "....-", "====-", "****_", "____-", "-----+", "--- -", "---.", "---- --", ".... .", "**** *", "____ _", "--  -",
];

fn first_line(g: &mut G, c: &Cfg) -> String {
    if g.p(c.tricky) {
        let l = g.of(FIRST);
        if !l.starts_with("//") {
            return l.to_string();
        }
    }
    for _ in 0..4 {
        let w = words(g);
        if ctx::plain_line(&w) {
            return w;
        }
    }
    "foo".into()
}

fn inner_line(g: &mut G, c: &Cfg) -> String {
    if g.p(c.tricky) {
        return g.of(INNER).to_string();
    }
    if c.comments && g.p(8) {
        return g.of(&["// comment", "//", "//[x]", "// ----", "//// no".split_at(2).0, "// *x*"]).to_string();
    }
    let w = words(g);
    if w.starts_with("//") || w == "+" || (w.starts_with('[') && w.ends_with(']')) { "foo".into() } else { w }
}

/// Does the text (trailing blanks aside) equal a delimiter around this place?
fn closes(st: &St, l: &str) -> bool {
    st.encl.iter().any(|d| d == l.trim_end_matches([' ', '\t']))
}

pub const STYLES: &[&str] = &["abstract", "lead", "custom", "NOTE", "quote", "example", "sidebar", "partintro", "x-y"];
/// Styles of what is no paragraph: none makes it something else.
pub const BSTYLES: &[&str] = &["abstract", "custom", "quote", "example", "sidebar", "x-y", "listing", "source", "normal", "verse", "open", "section", "appendix", "discrete", "admonition", "paragraph", "image", "thematic_break", "comment", "stem", "literally"];
const PSTYLES: &[&str] = &["normal", "literal", "listing", "source"];
const ROLES: &[&str] = &["r1", "big", "r-2", "red"];
const OPTS: &[&str] = &["opt", "hardbreak", "a-b", "x"];

fn quote(g: &mut G, v: &str) -> String {
    match g.u(3) {
        0 if !v.contains([',', ' ', '"']) && !v.is_empty() => v.to_string(),
        1 if !v.contains('"') => format!("\"{v}\""),
        _ if !v.contains('\'') => format!("'{v}'"),
        _ => format!("\"{}\"", v.replace('"', "\\\"")),
    }
}

pub fn attrs(g: &mut G, st: &mut St, styles: &[&'static str]) -> Attrs {
    let mut a = Attrs::default();
    let mut first = String::new();
    if !styles.is_empty() && g.p(40) {
        a.style = Some(g.of(styles));
        first.push_str(a.style.unwrap());
    }
    // Shorthand items in any order.
    let mut items: Vec<u8> = g.list(0, 3, |g| g.of(&[b'#', b'.', b'.', b'%']));
    if items.iter().filter(|c| **c == b'#').count() > 1 {
        items.retain(|c| *c != b'#');
    }
    let mut srcs: Vec<String> = vec![];
    for i in items {
        match i {
            b'#' => {
                st.n += 1;
                let id = format!("{}{}", g.of(&["id", "_i-", "caf\u{e9}", "a:b"]), st.n);
                first.push_str(&format!("#{id}"));
                a.id = Some(id);
            }
            b'.' => {
                let r = g.of(ROLES);
                first.push_str(&format!(".{r}"));
                a.roles.push(r);
            }
            _ => {
                let o = g.of(OPTS);
                first.push_str(&format!("%{o}"));
                a.opts.push(o);
            }
        }
    }
    if !first.is_empty() {
        a.all.push((None, first.clone()));
        srcs.push(first);
        for _ in 0..g.w(&[6, 2, 1]) {
            let v = g.of(&["Author", "two words", "a.b#c%d", "v", "50%", "\u{e9}"]);
            a.all.push((None, v.to_string()));
            srcs.push(if v.contains(' ') && g.p(50) { format!("\"{v}\"") } else { v.to_string() });
        }
    }
    for _ in 0..g.w(&[6, 3, 1]) {
        match g.u(5) {
            0 if !a.all.iter().any(|x| x.0.as_deref() == Some("role")) => {
                let n = g.range(1, 2);
                let rs: Vec<&'static str> = (0..n).map(|_| g.of(ROLES)).collect();
                let v = rs.join(" ");
                a.roles.extend(rs);
                let q = quote(g, &v);
                srcs.push(format!("role={q}"));
                a.all.push((Some("role".into()), v));
            }
            1 if a.id.is_none() => {
                st.n += 1;
                let id = format!("nid{}", st.n);
                let q = quote(g, &id);
                srcs.push(format!("id={q}"));
                a.all.push((Some("id".into()), id.clone()));
                a.id = Some(id);
            }
            2 if !a.all.iter().any(|x| matches!(x.0.as_deref(), Some("opts") | Some("options"))) => {
                let n = g.range(1, 2);
                let os: Vec<&'static str> = (0..n).map(|_| g.of(OPTS)).collect();
                let v = os.join(",");
                a.opts.extend(os);
                let q = quote(g, &v);
                let nm = g.of(&["opts", "options"]);
                srcs.push(format!("{nm}={q}"));
                a.all.push((Some(nm.into()), v));
            }
            _ => {
                let nm = g.of(&["foo", "a-b", "k1"]);
                if a.all.iter().any(|x| x.0.as_deref() == Some(nm)) {
                    continue;
                }
                let v = g.of(&["v", "two words", "a,b", "1.5", "it", "\u{4e2d}"]);
                let q = quote(g, v);
                srcs.push(format!("{nm}={q}"));
                a.all.push((Some(nm.into()), v.to_string()));
            }
        }
    }
    // (An empty list is a list, too.)
    if srcs.is_empty() && g.p(60) {
        a.all.push((None, ".r1".into()));
        a.roles.push("r1");
        srcs.push(".r1".into());
    }
    let sep = g.of(&[",", ", "]);
    a.src = srcs.join(sep);
    a
}

pub fn meta(g: &mut G, c: &Cfg, st: &mut St, styles: &[&'static str]) -> Meta {
    let mut m = Meta::default();
    if !g.p(c.meta) {
        return m;
    }
    let which = g.range(1, 7);
    let mut lines = vec![];
    if which & 1 != 0 {
        m.at = Some(attrs(g, st, styles));
        lines.push(format!("[{}]", m.at.as_ref().unwrap().src));
    }
    if which & 2 != 0 {
        let t = words(g);
        lines.push(format!(".{t}"));
        m.title = Some(t);
    }
    if which & 4 != 0 {
        st.n += 1;
        let id = format!("{}{}", g.of(&["anc", "_a-", ":c.", "\u{e9}", "x\u{b7}", "n\u{663}", "\u{4e2d}."]), st.n);
        let r = if g.p(40) { Some(g.of(&["Ref text", " spaced", "a, b", "x"]).to_string()) } else { None };
        lines.push(match &r {
            Some(r) => format!("[[{id},{r}]]"),
            None => format!("[[{id}]]"),
        });
        m.anchor = Some((id, r));
    }
    // Any order.
    for i in (1..lines.len()).rev() {
        let j = g.u(i + 1);
        // 0 keeps the order.
        lines.swap(i, i - j);
    }
    for (i, l) in lines.into_iter().enumerate() {
        if i > 0 && c.comments && g.p(6) {
            m.lines.push("// between".into());
        }
        m.lines.push(format!("{l}{}", if g.p(6) { "  " } else { "" }));
    }
    if c.comments && g.p(6) {
        m.lines.push("// before the block".into());
    }
    m
}

fn fresh_delim(g: &mut G, st: &St, ch: char) -> String {
    let mut n = 4 + g.of(&[0, 0, 0, 0, 0, 1, 1, 2, 9, 60]);
    loop {
        let d = ch.to_string().repeat(n);
        if !st.encl.contains(&d) {
            return d;
        }
        n += 1;
    }
}

pub const RAWLINES: &[&str] = &[
    "code", "  indented", "x < y && z", "*not bold*", "{nope}", "", "", "== not a section", "[quote]", ".title", "// not a comment", ":a: b", "----", "....", "====", "****", "____", "++++", "////", "--", "'''", "[[x]]", "* a", "image::x[]",
    "<b>", "a\tb", "|===", "+", "-----", ".....", "x -- y", "it's", "(C)", "http://x.y[z]", "link:a[b]", "+++x+++", "\\{a}", "<<<", "---- ", "\u{e9}\u{4e2d}", "&amp;", "trailing  ", "\t", "  ", "#x#", "pass:[y]", "ends with \\", "a +",
];

pub fn raw_lines(g: &mut G, st: &St, delim: &str, max: usize) -> Vec<String> {
    g.list(0, max, |g| {
        let l = if g.p(85) { g.of(RAWLINES).to_string() } else { g.list(0, 10, crate::gens::any_char).into_iter().filter(|c| !matches!(c, '\n' | '\r')).collect() };
        let t = l.trim_end_matches([' ', '\t']);
        // U+0096/0097 are used as placeholders by the implementation's own
        // technique and are checked elsewhere.
        if t == delim || closes(st, &l) || l.starts_with("include::") || l.starts_with("if") || l.starts_with("endif") { "x".into() } else { l }
    })
}

pub fn para(g: &mut G, c: &Cfg) -> Vec<String> {
    let mut v = vec![first_line(g, c)];
    v.extend(g.list(0, 3, |g| inner_line(g, c)));
    v
}

fn para_for(g: &mut G, c: &Cfg, st: &St) -> Vec<String> {
    let mut v = para(g, c);
    for l in v.iter_mut() {
        if closes(st, l) {
            *l = "foo".into();
        }
    }
    v
}

pub fn node(g: &mut G, c: &Cfg, st: &mut St, depth: usize) -> Node {
    let k = g.w(&[10, 3, 8, if depth > 0 { 8 } else { 0 }, 3, 3, if c.attrs { 3 } else { 0 }, if c.comments { 3 } else { 0 }, if c.sections { 1 } else { 0 }]);
    match k {
        0 => {
            let m = meta(g, c, st, &[STYLES, PSTYLES].concat());
            let v = para_for(g, c, st);
            Node { meta: m, kind: Kind::Para(v) }
        }
        1 => {
            let m = meta(g, c, st, &[&["custom", "lead"], PSTYLES].concat());
            let ind = g.of(&[" ", "  ", "    ", "\t", " \t"]);
            let mut v = vec![format!("{ind}{}", g.of(&["literal", "x < y", "*b*", ".x", "== y", "* item", "// z", ":a: b", "----"]))];
            v.extend(g.list(0, 3, |g| {
                let i = g.of(&["", ind, " ", "      "]);
                let w = g.of(&["more", "text & x", "_e_", "foo"]);
                format!("{i}{w}")
            }));
            for l in v.iter_mut() {
                if closes(st, l) {
                    *l = format!("{ind}foo");
                }
            }
            Node { meta: m, kind: Kind::Indented(v) }
        }
        2 => {
            let ch = g.of(&['-', '.', '+', '/']);
            let m = meta(g, c, st, BSTYLES);
            let delim = fresh_delim(g, st, ch);
            let lines = raw_lines(g, st, &delim, 5);
            Node { meta: m, kind: Kind::Raw { delim, lines, closed: true } }
        }
        3 => {
            let ch = g.of(&['=', '*', '_', '-']);
            let delim = if ch == '-' {
                if st.encl.iter().any(|d| d == "--") { fresh_delim(g, st, '=') } else { "--".into() }
            } else {
                fresh_delim(g, st, ch)
            };
            let m = meta(g, c, st, BSTYLES);
            st.encl.push(delim.clone());
            let mut c2 = *c;
            c2.max = 4;
            let kids = g.list(0, 4, |g| node(g, &c2, st, depth - 1));
            st.encl.pop();
            Node { meta: m, kind: Kind::Compound { delim, kids, closed: true } }
        }
        4 => {
            let m = meta(g, c, st, BSTYLES);
            let name = g.of(&["image", "video", "audio"]);
            Node { meta: m, kind: Kind::Media { name, target: g.of(&["x.png", "a/b", "http://x.y/z", "two words"]).into(), alt: g.of(&["", "Alt", "Alt,10"]).into() } }
        }
        5 => {
            let m = meta(g, c, st, BSTYLES);
            Node { meta: m, kind: Kind::Break(g.of(&["'''", "---", "- - -", "***", "* * *", "<<<"])) }
        }
        6 => {
            let name = g.of(&["x", "y-z", "foo"]).to_string();
            let (value, line) = match g.u(4) {
                0 => (Some("val".to_string()), format!(":{name}: val")),
                1 => (Some("a &lt; b".to_string()), format!(":{name}: a < b")),
                2 => (Some(String::new()), format!(":{name}:")),
                _ => (None, format!(":!{name}:")),
            };
            Node { meta: Meta::default(), kind: Kind::Attr { name, value, line } }
        }
        7 => Node { meta: Meta::default(), kind: Kind::Comments(g.list(1, 2, |g| g.of(&["// comment", "//", "//x", "// ----", "//[x]", "// == y"]).to_string())) },
        _ => {
            st.sect += 1;
            let mut m = meta(g, c, st, &[]);
            // The style makes it discrete.
            if m.at.is_some() {
                m = Meta::default();
            }
            let s = g.of(&["discrete", "float"]);
            m.lines.insert(g.u(m.lines.len() + 1), format!("[{s}]"));
            m.at = Some(Attrs { style: Some(s), src: s.into(), all: vec![(None, s.into())], ..Attrs::default() });
            Node { meta: m, kind: Kind::Discrete { level: g.range(1, 5), title: format!("{} {}", g.of(&["Alpha", "Be ta", "gamma"]), st.sect) } }
        }
    }
}

fn section(g: &mut G, c: &Cfg, st: &mut St, level: usize) -> Node {
    st.sect += 1;
    let m = meta(g, c, st, &["abstract", "preface", "custom"]);
    let title = format!("{} {}", g.of(&["Alpha", "Be ta", "gamma", "D\u{e9}j\u{e0}"]), st.sect);
    let mut kids = g.list(0, 3, |g| node(g, c, st, 1));
    if level < 5 {
        // A level may be skipped.
        let mut skip = true;
        let subs = g.list(0, 2, |g| {
            skip = skip && g.p(10);
            let l = if skip { (level + 2).min(5) } else { level + 1 };
            section(g, c, st, l)
        });
        kids.extend(subs);
    }
    Node { meta: m, kind: Kind::Section { level, mark: g.of(&['=', '=', '#']), title, kids } }
}

pub struct Doc {
    pub title: Option<String>,
    pub nodes: Vec<Node>,
}

pub fn doc(g: &mut G, c: &Cfg) -> Doc {
    let mut st = St::default();
    let title = if g.p(30) { Some(format!("Doc {}", g.of(PLAIN))) } else { None };
    let mut nodes = g.list(1, c.max, |g| node(g, c, &mut st, c.depth));
    if c.sections && g.p(50) {
        if g.p(30) {
            nodes.clear();
        }
        let mut deep = true;
        nodes.extend(g.list(1, 3, |g| {
            deep = deep && g.p(15);
            section(g, c, &mut st, if deep { 2 } else { 1 })
        }));
    }
    // Without a title, leading attribute entries and comments are the header.
    if title.is_none() && matches!(nodes[0].kind, Kind::Attr { .. } | Kind::Comments(_)) {
        nodes.insert(0, Node { meta: Meta::default(), kind: Kind::Para(vec!["first".into()]) });
    }
    if title.is_none()
        && let Kind::Raw { delim, .. } = &nodes[0].kind
        && delim.starts_with('/')
    {
        nodes.insert(0, Node { meta: Meta::default(), kind: Kind::Para(vec!["first".into()]) });
    }
    Doc { title, nodes }
}

/// Writes the tree out; fills in where each block stands.
pub struct Out {
    pub lines: Vec<String>,
}

/// Does the node run to the end of what is around it?
pub fn is_open(n: &Node) -> bool {
    match &n.kind {
        Kind::Raw { closed, .. } => !closed,
        Kind::Compound { closed, kids, .. } => !closed || kids.last().is_some_and(is_open),
        Kind::Section { kids, .. } => kids.last().is_some_and(is_open),
        _ => false,
    }
}

/// Leaves out closing delimiters at the end.
pub fn open_end(g: &mut G, nodes: &mut [Node]) {
    let Some(n) = nodes.last_mut() else { return };
    match &mut n.kind {
        Kind::Raw { lines, closed, .. } => {
            *closed = false;
            while lines.last().is_some_and(|l| l.trim().is_empty()) {
                lines.pop();
            }
        }
        Kind::Compound { closed, kids, .. } => {
            if g.p(60) {
                *closed = false;
            }
            open_end(g, kids);
        }
        Kind::Section { kids, .. } => open_end(g, kids),
        _ => {}
    }
}

fn paraish(n: &Node) -> bool {
    match &n.kind {
        Kind::Para(_) | Kind::Indented(_) => true,
        Kind::Section { kids, .. } => kids.last().is_some_and(paraish),
        _ => false,
    }
}

/// Does the first line of this node end a paragraph?
fn interrupts(n: &Node) -> bool {
    if let Some(l) = n.meta.lines.first() {
        let t = l.trim_end();
        return t.starts_with('[') && t.ends_with(']');
    }
    matches!(n.kind, Kind::Raw { .. } | Kind::Compound { .. })
}

fn blank(g: &mut G) -> String {
    if g.p(8) { g.of(&[" ", "   "]).to_string() } else { String::new() }
}

fn trail(g: &mut G) -> &'static str {
    if g.p(5) { "  " } else { "" }
}

pub fn write_list(g: &mut G, nodes: &[Node], o: &mut Out) -> Vec<D> {
    let mut v = vec![];
    for (i, n) in nodes.iter().enumerate() {
        if i > 0 {
            let need = paraish(&nodes[i - 1]) && !interrupts(n);
            let k = match g.w(&[12, 4, 2]) {
                0 => 1,
                1 if !need => 0,
                1 => 1,
                _ => 2,
            };
            for _ in 0..k {
                let b = blank(g);
                o.lines.push(b);
            }
        }
        if let Some(d) = write(g, n, o) {
            v.push(d);
        }
    }
    v
}

fn nolook(_: &str) -> Option<String> {
    None
}

pub fn render(s: &str) -> String {
    inl::normal(s, &nolook, &mut inl::Notes::default())
}

const BUILT_IN: &[&str] = &["admonition", "audio", "colist", "dlist", "document", "example", "floating_title", "image", "list_item", "listing", "literal", "olist", "open", "page_break", "paragraph", "pass", "preamble", "quote", "section", "sidebar", "table", "table_cell", "thematic_break", "toc", "ulist", "verse", "video"];

fn write(g: &mut G, n: &Node, o: &mut Out) -> Option<D> {
    let start = o.lines.len();
    for l in &n.meta.lines {
        o.lines.push(l.clone());
    }
    let mut d = D { model: "Simple".into(), ..D::default() };
    if let Some(t) = &n.meta.title {
        d.title = Some(render(t));
    }
    if let Some((a, r)) = &n.meta.anchor {
        d.anchor = Some(a.clone());
        d.id = Some(a.clone());
        d.reftext = r.clone();
    }
    if let Some(a) = &n.meta.at {
        d.style = a.style.map(str::to_string);
        if d.id.is_none() {
            d.id = a.id.clone();
        }
        d.roles = a.roles.iter().map(|s| s.to_string()).collect();
        d.opts = a.opts.iter().map(|s| s.to_string()).collect();
        d.attrs = Some(a.all.clone());
    }
    let mut end = None;
    match &n.kind {
        Kind::Para(ls) => {
            d.raw = "paragraph".into();
            for l in ls {
                let t = trail(g);
                o.lines.push(format!("{l}{t}"));
            }
            let t: Vec<&str> = ls.iter().filter(|l| !(l.starts_with("//") && !l.starts_with("///"))).map(|l| l.trim_end_matches([' ', '\t'])).collect();
            d.text = Some(render(&t.join("\n")));
            d.extra = match d.style.as_deref() {
                Some("literal") => "Literal",
                Some("listing") => "Listing",
                Some("source") => "Source",
                _ => "Paragraph",
            }
            .into();
        }
        Kind::Indented(ls) => {
            d.raw = "paragraph".into();
            o.lines.extend(ls.iter().cloned());
            let k = ls[0].len() - ls[0].trim_start_matches([' ', '\t']).len();
            let t: Vec<&str> = ls
                .iter()
                .map(|l| {
                    let own = l.len() - l.trim_start_matches([' ', '\t']).len();
                    &l[own.min(k)..]
                })
                .collect();
            d.text = Some(render(&t.join("\n")));
            d.extra = match d.style.as_deref() {
                Some("normal") => "Paragraph",
                Some("listing") => "Listing",
                Some("source") => "Source",
                _ => "Literal",
            }
            .into();
        }
        Kind::Raw { delim, lines, closed } => {
            let (ctx, model) = match delim.as_bytes()[0] {
                b'-' => ("listing", "Verbatim"),
                b'.' => ("literal", "Verbatim"),
                b'+' => ("pass", "Raw"),
                _ => ("comment", "Raw"),
            };
            d.raw = ctx.into();
            d.model = model.into();
            let t = trail(g);
            o.lines.push(format!("{delim}{t}"));
            o.lines.extend(lines.iter().cloned());
            if *closed {
                let t = trail(g);
                o.lines.push(format!("{delim}{t}"));
            }
            let text = lines.join("\n");
            d.text = Some(if model == "Verbatim" { inl::escape(&text) } else { text });
        }
        Kind::Compound { delim, kids, closed } => {
            d.raw = match delim.as_bytes()[0] {
                b'=' => "example",
                b'*' => "sidebar",
                b'_' => "quote",
                _ => "open",
            }
            .into();
            d.model = "Compound".into();
            let t = trail(g);
            o.lines.push(format!("{delim}{t}"));
            for _ in 0..g.w(&[8, 2]) {
                let b = blank(g);
                o.lines.push(b);
            }
            d.kids = write_list(g, kids, o);
            if *closed {
                if !kids.last().is_some_and(is_open) {
                    for _ in 0..g.w(&[8, 2]) {
                        let b = blank(g);
                        o.lines.push(b);
                    }
                }
                let t = trail(g);
                o.lines.push(format!("{delim}{t}"));
            }
        }
        Kind::Section { level, mark, title, kids } => {
            d.raw = "section".into();
            d.model = "Compound".into();
            let sp = g.of(&[" ", " ", "  "]);
            let t = trail(g);
            o.lines.push(format!("{}{sp}{title}{t}", mark.to_string().repeat(level + 1)));
            d.extra = format!("level {level} Normal {title:?}");
            if d.id.is_none() {
                d.id = Some(auto_id(title));
            }
            for _ in 0..g.w(&[3, 8, 2]) {
                let b = blank(g);
                o.lines.push(b);
            }
            d.kids = write_list(g, kids, o);
            let mut last = start + n.meta.lines.len();
            if let Some(k) = d.kids.last() {
                last = k.line - 1 + k.span.matches('\n').count();
            }
            end = Some(last);
        }
        Kind::Discrete { level, title } => {
            d.raw = "section".into();
            d.model = "Compound".into();
            o.lines.push(format!("{} {title}", "=".repeat(level + 1)));
            d.extra = format!("level {level} Discrete {title:?}");
            if d.id.is_none() {
                d.id = Some(auto_id(title));
            }
        }
        Kind::Media { name, target, alt } => {
            d.raw = name.to_string();
            d.model = "Empty".into();
            let t = trail(g);
            o.lines.push(format!("{name}::{target}[{alt}]{t}"));
            d.extra = format!("{name} {target} {alt}");
        }
        Kind::Break(b) => {
            d.raw = if *b == "<<<" { "page_break" } else { "thematic_break" }.into();
            d.model = "Empty".into();
            let t = trail(g);
            o.lines.push(format!("{b}{t}"));
        }
        Kind::Attr { name, value, line } => {
            d.raw = "attribute".into();
            d.model = "Empty".into();
            o.lines.push(line.clone());
            d.extra = match value {
                Some(v) if v.is_empty() => format!("{name} set"),
                Some(v) => format!("{name}={v}"),
                None => format!("{name} unset"),
            };
        }
        Kind::Comments(ls) => {
            o.lines.extend(ls.iter().cloned());
            return None;
        }
    }
    d.ctx = match &d.style {
        Some(s) if BUILT_IN.contains(&s.as_str()) => s.clone(),
        _ => d.raw.clone(),
    };
    let end = end.unwrap_or(o.lines.len() - 1);
    d.line = start + 1;
    d.span = o.lines[start..=end].join("\n").trim_end().to_string();
    Some(d)
}

/// ID made from a title of letters, digits and single spaces.
pub fn auto_id(t: &str) -> String {
    format!("_{}", t.to_lowercase().replace(' ', "_"))
}

pub struct Written {
    pub src: String,
    pub want: Vec<D>,
}

pub fn write_doc(g: &mut G, doc: &Doc) -> Written {
    let mut o = Out { lines: vec![] };
    if let Some(t) = &doc.title {
        o.lines.push(format!("= {t}"));
        o.lines.push(String::new());
        if g.p(20) {
            o.lines.push(String::new());
        }
    } else {
        for _ in 0..g.w(&[8, 1]) {
            let b = blank(g);
            o.lines.push(b);
        }
    }
    let after_header = o.lines.len();
    let mut want = write_list(g, &doc.nodes, &mut o);
    // What stands before the first section is the preamble.
    if let Some(i) = want.iter().position(|d| d.raw == "section" && !d.extra.contains(" Discrete ")) {
        let content = want[..i].iter().any(|d| d.raw != "attribute" && d.raw != "comment");
        if content {
            let rest = want.split_off(i);
            let last = want.last().unwrap();
            let end = last.line - 1 + last.span.matches('\n').count();
            let mut first = after_header;
            while o.lines[first].trim().is_empty() {
                first += 1;
            }
            let p = D {
                raw: "preamble".into(),
                ctx: "preamble".into(),
                model: "Compound".into(),
                line: first + 1,
                span: o.lines[first..=end].join("\n").trim_end().to_string(),
                kids: want,
                ..D::default()
            };
            want = vec![p];
            want.extend(rest);
        }
    }
    let mut src = o.lines.join("\n");
    match g.w(&[4, 4, if doc.nodes.last().is_some_and(is_open) { 0 } else { 1 }]) {
        0 => {}
        1 => src.push('\n'),
        _ => src.push_str("\n\n"),
    }
    Written { src, want }
}

// ------------------------------------------------------------- actual -------

pub fn dump_block(b: &Block<'_>) -> D {
    let mut d = D {
        raw: b.raw_context().to_string(),
        ctx: b.resolved_context().to_string(),
        model: format!("{:?}", b.content_model()).replace("ContentModel::", ""),
        style: b.declared_style().map(str::to_string),
        title: b.title().map(str::to_string),
        id: b.id().map(str::to_string),
        anchor: b.anchor().map(|a| a.data().to_string()),
        reftext: b.anchor_reftext().map(|a| a.data().to_string()),
        roles: b.roles().iter().map(|s| s.to_string()).collect(),
        opts: b.options().iter().map(|s| s.to_string()).collect(),
        attrs: b.attrlist().map(|a| a.attributes().map(|x| (x.name().map(str::to_string), x.value().to_string())).collect()),
        text: b.rendered_content().map(str::to_string),
        extra: String::new(),
        line: b.span().line(),
        span: b.span().data().trim_end().to_string(),
        kids: vec![],
    };
    match b {
        Block::Simple(s) => d.extra = format!("{:?}", s.style()).replace("SimpleBlockStyle::", ""),
        Block::Section(s) => {
            // `Block::id` leaves out generated IDs.
            d.id = s.id().map(str::to_string);
            d.extra = format!("level {} {} {:?}", s.level(), format!("{:?}", s.section_type()).replace("SectionType::", ""), s.section_title());
        }
        Block::Media(m) => d.extra = format!("{} {} {}", format!("{:?}", m.type_()).replace("MediaType::", "").to_lowercase(), m.target().map_or("", |t| t.data()), m.macro_attrlist().span().data()),
        Block::DocumentAttribute(a) => {
            use asciidoc_parser::document::InterpretedValue as V;
            let n = a.name().data();
            d.extra = match a.value() {
                V::Value(v) => format!("{n}={v}"),
                V::Set => format!("{n} set"),
                V::Unset => format!("{n} unset"),
            };
            d.raw = "attribute".into();
            d.ctx = "attribute".into();
        }
        _ => {}
    }
    d.kids = b.nested_blocks().map(dump_block).collect();
    d
}

pub fn dump_doc(doc: &Document<'_>) -> Vec<D> {
    doc.nested_blocks().map(dump_block).collect()
}

/// First difference between two dumps, for a readable message.
pub fn diff(want: &[D], got: &[D], at: &str) -> Option<String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if w == g {
            continue;
        }
        let at = format!("{at}/{i}:{}", w.raw);
        macro_rules! f {
            ($($n:ident),*) => { $( if w.$n != g.$n { return Some(format!("{at}: {} differs\n  expected: {:?}\n  actual:   {:?}", stringify!($n), w.$n, g.$n)); } )* };
        }
        f!(raw, line, ctx, model, extra, style, title, id, anchor, reftext, roles, opts, attrs, text);
        if let Some(m) = diff(&w.kids, &g.kids, &at) {
            return Some(m);
        }
        f!(span);
    }
    if want.len() != got.len() {
        let names = |v: &[D]| v.iter().map(|d| format!("{} {:?}", d.raw, d.span)).collect::<Vec<_>>();
        return Some(format!("{at}: {} blocks expected, {} found\n  expected: {:?}\n  actual:   {:?}", want.len(), got.len(), names(want), names(got)));
    }
    None
}

pub fn count(v: &[D]) -> usize {
    v.iter().map(|d| 1 + count(&d.kids)).sum()
}

/// Drops from section and preamble spans what stands after their last block
/// (comment lines), so that dumps can be compared.
pub fn trim_spans(v: &mut [D]) {
    for d in v {
        trim_spans(&mut d.kids);
        if d.raw == "section" || d.raw == "preamble" {
            loop {
                let t = d.span.trim_end();
                let last = t.rsplit('\n').next().unwrap_or("");
                let keep = last.starts_with("//") && !last.starts_with("///") && t.contains('\n') && !inside(&d.kids, d.line + t.matches('\n').count());
                let n = if keep { t.len() - last.len() } else { t.len() };
                let stop = n == d.span.len();
                d.span.truncate(n);
                if stop {
                    break;
                }
            }
        }
    }
}

/// Is this line part of one of the blocks?
fn inside(v: &[D], line: usize) -> bool {
    v.iter().any(|d| (d.line..=d.line + d.span.matches('\n').count()).contains(&line))
}
