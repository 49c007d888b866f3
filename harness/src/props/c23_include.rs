//! C23: include directives are replaced by the files they name, and the
//! source map leads back to them.

use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    rc::Rc,
};

use asciidoc_parser::{
    HasSpan, Parser,
    attributes::Attrlist,
    document::InterpretedValue,
    parser::{IncludeFileHandler, ModificationContext, SourceLine},
};

use crate::{docgen, engine::*, gens, sem, walk};

/// What a line of a file is to the model.
#[derive(Clone, Debug)]
enum L {
    Text(String),
    /// Lines, name, value (None: unset, `Some("")`: set).
    Entry(Vec<String>, String, Option<String>),
    /// Target, attribute list, what follows.
    Include(String, String, &'static str),
}

type Fs = BTreeMap<String, Vec<L>>;

#[derive(Clone, Debug, PartialEq)]
struct Call {
    from: Option<String>,
    target: String,
    attrs: Vec<(Option<String>, String)>,
    seen: Vec<String>,
}

const SEEN: &[&str] = &["d", "b", "e", "fixed"];

fn show(v: &InterpretedValue) -> String {
    // (An entry whose references expand to nothing has an empty value.)
    if *v == InterpretedValue::Value(String::new()) { "set".into() } else { sem::value(v) }
}

#[derive(Debug)]
struct Handler {
    files: BTreeMap<String, String>,
    budget: Cell<usize>,
    log: Rc<RefCell<Vec<Call>>>,
}

impl IncludeFileHandler for Handler {
    fn resolve_target<'s>(&self, src: Option<&str>, target: &str, a: &Attrlist<'s>, p: &Parser) -> Option<String> {
        self.log.borrow_mut().push(Call {
            from: src.map(str::to_string),
            target: target.to_string(),
            attrs: a.attributes().map(|e| (e.name().map(str::to_string), e.value().to_string())).collect(),
            seen: SEEN.iter().map(|n| show(&p.attribute_value(n))).collect(),
        });
        if self.budget.get() == 0 {
            return None;
        }
        self.budget.set(self.budget.get() - 1);
        self.files.get(target).cloned()
    }
}

type Attrs = BTreeMap<String, Option<String>>;

fn expand(s: &str, st: &Attrs) -> String {
    // {name} is replaced if there is such an attribute.
    let mut out = String::new();
    let mut r = s;
    while let Some(i) = r.find('{') {
        let Some(j) = r[i..].find('}') else { break };
        let name = &r[i + 1..i + j];
        out.push_str(&r[..i]);
        match st.get(&name.to_lowercase()) {
            Some(v) if out.ends_with('\\') => {
                out.pop();
                let _ = v;
                out.push_str(&r[i..=i + j]);
            }
            Some(v) => out.push_str(v.as_deref().unwrap_or("")),
            None => out.push_str(&r[i..=i + j]),
        }
        r = &r[i + j + 1..];
    }
    out + r
}

struct Model<'a> {
    fs: &'a Fs,
    st: Attrs,
    /// Attributes that may not be changed in the header, in the body.
    locked: [&'a [&'a str]; 2],
    in_body: bool,
    titled: bool,
    budget: usize,
    out: Vec<(String, SourceLine)>,
    calls: Vec<Call>,
    resolved: usize,
    entries: usize,
}

const ATTRLISTS: &[(&str, &[(Option<&str>, &str)])] = &[
    ("", &[]),
    ("", &[]),
    ("lines=1..2", &[(Some("lines"), "1..2")]),
    ("x", &[(None, "x")]),
    ("tag=a,leveloffset=+1", &[(Some("tag"), "a"), (Some("leveloffset"), "+1")]),
    ("\"tags\"", &[(None, "tags")]),
    ("encoding=\"utf 8\"", &[(Some("encoding"), "utf 8")]),
    ("tag={fixed}", &[(Some("tag"), "FIX")]),
    ("é, indent=0", &[(None, "é"), (Some("indent"), "0")]),
];

impl Model<'_> {
    fn seen(&self) -> Vec<String> {
        SEEN.iter()
            .map(|n| match self.st.get(*n) {
                Some(Some(v)) if v.is_empty() => show(&InterpretedValue::Set),
                Some(Some(v)) => show(&InterpretedValue::Value(v.clone())),
                _ => show(&InterpretedValue::Unset),
            })
            .collect()
    }

    fn file(&mut self, lines: &[L], name: Option<&str>) {
        let mut n = 0;
        for l in lines {
            n += 1;
            let at = |n: usize| SourceLine(name.map(str::to_string), n);
            match l {
                L::Text(t) => {
                    if t.chars().all(|c| c == ' ') {
                        // (Blank lines before the title are skipped.)
                        self.in_body |= self.titled;
                    } else if t.starts_with("= ") {
                        self.titled = true;
                    }
                    self.out.push((t.clone(), at(n)))
                }
                L::Entry(src, k, v) => {
                    for (i, s) in src.iter().enumerate() {
                        self.out.push((s.clone(), at(n + i)));
                    }
                    n += src.len() - 1;
                    if !self.locked[self.in_body as usize].contains(&k.as_str()) {
                        let v = v.as_ref().map(|v| expand(v, &self.st));
                        self.st.insert(k.clone(), v);
                    }
                    self.entries += 1;
                }
                L::Include(t, a, tail) => {
                    let target = expand(t, &self.st);
                    self.calls.push(Call {
                        from: name.map(str::to_string),
                        target: target.clone(),
                        attrs: ATTRLISTS.iter().find(|x| x.0 == a).unwrap().1.iter().map(|(k, v)| (k.map(str::to_string), v.to_string())).collect(),
                        seen: self.seen(),
                    });
                    let hit = if self.budget == 0 {
                        None
                    } else {
                        self.budget -= 1;
                        self.fs.get(&target).cloned()
                    };
                    match hit {
                        Some(f) => {
                            self.resolved += 1;
                            self.file(&f, Some(&target));
                        }
                        None => {
                            let text = format!("Unresolved directive in {} - include::{t}[{a}]{tail}", name.unwrap_or("(root file)"));
                            self.out.push((text, at(n)));
                        }
                    }
                }
            }
        }
    }
}

fn text_of(lines: &[L], eol: &str, last: bool) -> String {
    let mut v: Vec<String> = vec![];
    for l in lines {
        match l {
            L::Text(t) => v.push(t.clone()),
            L::Entry(s, ..) => v.extend(s.iter().cloned()),
            L::Include(t, a, tail) => v.push(format!("include::{t}[{a}]{tail}")),
        }
    }
    let mut s = v.join(eol);
    // A last line that is empty is there only if its line end is.
    if !v.is_empty() && (last || v.last().is_some_and(|l| l.is_empty())) {
        s.push_str(eol);
    }
    s
}

const PATHS: &[&str] = &["inc/a.adoc", "inc/b.adoc", "inc/a.txt", "inc/b.txt", "é x/a.adoc", "é x/b.adoc", "é x/a.txt", "é x/b.txt"];

fn target(g: &mut G) -> String {
    match g.w(&[5, 4, 1]) {
        0 => g.of(PATHS).to_string(),
        1 => {
            let d = g.of(&["inc", "é x", "{d}", "{D}", "{dir}"]);
            let b = g.of(&["a", "b", "{b}", "{b}{none}", "{b_2}", "{fixed}"]);
            let e = g.of(&["adoc", "txt", "{e}"]);
            format!("{d}/{b}.{e}")
        }
        _ => g.of(&["nope.adoc", "x", "{d}", "{undefined}", "\\{d}/a.adoc", "a{b", "}", "https://x.y/z?a=b", "c:\\d e\\f", "{fixed}é", "a]b"]).to_string(),
    }
}

fn include(g: &mut G) -> L {
    L::Include(target(g), g.of(ATTRLISTS).0.to_string(), g.of(&["", "", "", " ", "  \t"]))
}

fn soup_line(g: &mut G) -> Vec<L> {
    match g.w(&[10, 4, 3]) {
        0 => gens::line_soup(g)
            .replace('\r', "")
            .split('\n')
            // (`\include` keeps its backslash in this parser.)
            .filter(|l| !l.starts_with(':') && !l.starts_with("include::") && !l.starts_with("\\include"))
            .map(|l| L::Text(l.to_string()))
            .collect(),
        1 => vec![include(g)],
        _ => vec![L::Text(
            g.of(&["", " include::inc/a.adoc[]", "include::inc/a.adoc", "include:: inc/a.adoc[]", "include::[]", "include:inc/a.adoc[]", "include::inc/a.adoc[] x", "x include::inc/a.adoc[]", "Include::inc/a.adoc[]", "include::inc/a.adoc []", "include::inc/a.adoc[x"])
                .to_string(),
        )],
    }
}

fn soup_file(g: &mut G) -> Vec<L> {
    if g.p(15) {
        let d = docgen::doc(g, &docgen::Cfg::default());
        let w = docgen::write_doc(g, &d).src.replace('\r', "");
        if !w.split('\n').any(|l| l.starts_with(':') || l.starts_with("include::") || l.starts_with("\\include")) {
            return w.trim_end_matches('\n').split('\n').map(|l| L::Text(l.to_string())).collect();
        }
    }
    g.list(0, 7, soup_line).concat()
}

struct Setup {
    fs: Fs,
    root: Vec<L>,
    primary: Option<&'static str>,
    api: Vec<(&'static str, &'static str, ModificationContext)>,
    budget: usize,
}

fn run(g: &mut G, cx: &mut Cx, s: Setup, rule: impl Fn(&Model<'_>) -> bool) -> Outcome {
    let mut st = Attrs::new();
    let mut locked = [vec![], vec![]];
    for (k, v, c) in &s.api {
        st.insert(k.to_string(), Some(v.to_string()));
        if matches!(c, ModificationContext::ApiOnly | ModificationContext::ApiOrDocumentBody) {
            locked[0].push(*k);
        }
        if matches!(c, ModificationContext::ApiOnly | ModificationContext::ApiOrHeader) {
            locked[1].push(*k);
        }
    }
    let mut m = Model { fs: &s.fs, st, locked: [&locked[0], &locked[1]], in_body: false, titled: false, budget: s.budget, out: vec![], calls: vec![], resolved: 0, entries: 0 };
    m.file(&s.root, s.primary);
    let eols: Vec<(&str, bool)> = (0..=s.fs.len()).map(|_| (if g.p(15) { "\r\n" } else { "\n" }, g.p(70))).collect();
    let src = text_of(&s.root, eols[0].0, eols[0].1);
    let mut shown = format!("root {:?}, API {:?}\n{src}", s.primary, s.api);
    let mut files = BTreeMap::new();
    for (i, (k, f)) in s.fs.iter().enumerate() {
        let t = text_of(f, eols[i + 1].0, eols[i + 1].1);
        if m.calls.iter().any(|c| &c.target == k) {
            shown.push_str(&format!("\n=== {k:?}\n{t}"));
        }
        files.insert(k.clone(), t);
    }
    cx.input(shown);
    cx.nontrivial(rule(&m));
    cx.label_if(m.resolved > 2, "more than two resolved");
    cx.label_if(m.calls.len() > m.resolved, "unresolved");
    cx.label_if(m.calls.iter().any(|c| c.from.as_deref().is_some_and(|f| Some(f) != s.primary)), "nested");

    let mut p = Parser::default();
    let mut q = Parser::default();
    for (k, v, c) in &s.api {
        p = p.with_intrinsic_attribute(k, v, c.clone());
        q = q.with_intrinsic_attribute(k, v, c.clone());
    }
    if let Some(n) = s.primary {
        p = p.with_primary_file_name(n);
    }
    let log = Rc::new(RefCell::new(vec![]));
    p = p.with_include_file_handler(Handler { files, budget: Cell::new(s.budget), log: log.clone() });
    let d = p.parse(&src);

    let got = log.borrow();
    for i in 0..m.calls.len().max(got.len()) {
        ensure_eq!(m.calls.get(i), got.get(i), "request {i} to the include file handler");
    }
    let want: String = m.out.iter().map(|(t, _)| format!("{t}\n")).collect();
    let text = d.span().data().replace("\r\n", "\n");
    ensure_eq!(want.trim_end(), text.trim_end(), "text after preprocessing");
    for (i, (t, at)) in m.out.iter().enumerate() {
        ensure_eq!(Some(at.clone()), d.source_map().original_file_and_line(i + 1), "origin of line {} {t:?}", i + 1);
    }
    let e = q.parse(&want);
    let v = sem::View { trim: true, blank: false, line: Some(0), spans: true };
    if let Some(x) = sem::diff(&sem::all(v, &e), &sem::all(v, &d)) {
        return Err(format!("document differs from that of the expanded text: {x}"));
    }
    for b in walk::blocks(&d) {
        let l = b.span().line();
        if let Some((t, at)) = m.out.get(l - 1) {
            ensure_eq!(Some(at.clone()), d.source_map().original_file_and_line(l), "origin of the block at line {l} {t:?}");
        }
    }
    Ok(())
}

const API: &[(&str, &[&str])] = &[("d", &["inc", "é x", "nope"]), ("b", &["a", "b"]), ("e", &["adoc", "txt"]), ("dir", &["inc"]), ("b_2", &["a", "b"]), ("fixed", &["FIX"])];

fn api(g: &mut G, pct: usize, titled: bool) -> Vec<(&'static str, &'static str, ModificationContext)> {
    let mut v = vec![];
    for (k, vs) in API {
        if *k == "fixed" {
            v.push((*k, "FIX", ModificationContext::ApiOnly));
        } else if g.p(pct) {
            let c = match g.w(&[6, 3, if titled { 3 } else { 0 }, if titled { 3 } else { 0 }]) {
                0 => ModificationContext::Anywhere,
                1 => ModificationContext::ApiOnly,
                2 => ModificationContext::ApiOrHeader,
                _ => ModificationContext::ApiOrDocumentBody,
            };
            v.push((*k, g.of(vs), c));
        }
    }
    v
}

fn primary(g: &mut G) -> Option<&'static str> {
    if g.p(50) { Some(g.of(&["main.adoc", "inc/a.adoc", "dir é/m.txt"])) } else { None }
}

fn soup(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut fs = Fs::new();
    for p in PATHS {
        if g.p(70) {
            fs.insert(p.to_string(), soup_file(g));
        }
    }
    let mut root = soup_file(g);
    let at = g.u(root.len() + 1);
    root.insert(at, include(g));
    let s = Setup { fs, root, primary: primary(g), api: api(g, 80, false), budget: g.u(12) };
    run(g, cx, s, |m| m.resolved > 0)
}

// Attributes in targets: files whose structure is known.

fn entry(g: &mut G) -> L {
    let k = g.of(&["d", "d", "b", "b", "e", "dir", "fixed", "zz"]);
    let mixed = if g.p(15) { k.to_uppercase() } else { k.to_string() };
    if g.p(8) {
        let l = if g.p(50) { format!(":!{mixed}:") } else { format!(":{mixed}!:") };
        return L::Entry(vec![l], k.into(), None);
    }
    if g.p(5) {
        return L::Entry(vec![format!(":{mixed}:")], k.into(), Some(String::new()));
    }
    let v: &str = match k {
        "d" => g.of(&["inc", "é x", "{dir}", "in{zz}c"]),
        "b" => g.of(&["a", "b", "{zz}", "{fixed}"]),
        "e" => g.of(&["adoc", "txt", "{none}"]),
        "dir" => g.of(&["inc", "é x", "{d}"]),
        _ => g.of(&["a", "b", "é"]),
    };
    if g.p(12) {
        let v2 = g.of(&["y", "{b}"]);
        return L::Entry(vec![format!(":{mixed}: {v} \\"), v2.into()], k.into(), Some(format!("{v} {v2}")));
    }
    let gap = g.of(&[" ", " ", " ", "  ", "\t"]);
    L::Entry(vec![format!(":{mixed}:{gap}{v}")], k.into(), Some(v.into()))
}

fn word_line(g: &mut G) -> L {
    L::Text(g.of(&["Some text.", "word {b} and {d}", "*bold* line", "caf\u{e9}", "| not: an entry", "a :b: c", ":d:zz", ":b:x: y", "/// three", "///x", "=x", "=Word {b}"]).to_string())
}

fn blank(g: &mut G) -> L {
    L::Text(g.of(&["", "", "", "", "", " ", "   "]).into())
}

fn body_items(g: &mut G, max: usize) -> Vec<L> {
    let mut v = vec![];
    for _ in 0..g.range(1, max) {
        match g.w(&[4, 4, 5, 1, 1]) {
            0 => {
                v.extend(g.list(1, 3, word_line));
                if g.p(25) {
                    // Text, since it is part of the paragraph.
                    if g.p(30) {
                        v.push(L::Text("// comment".into()));
                    }
                    v.push(L::Text(g.of(&[":d: nope", ":b: nope", ":e!:", ":!d:", ":dir: inc"]).into()));
                }
                v.push(blank(g));
            }
            1 => {
                v.push(blank(g));
                if g.p(15) {
                    v.push(L::Text("// comment".into()));
                }
                v.extend(g.list(1, 3, entry));
                v.push(L::Text(g.of(&["", "", " "]).into()));
            }
            2 => {
                v.push(include(g));
                v.push(blank(g));
            }
            3 => {
                v.push(L::Text(g.of(&["== Section", ".Title\nx", "[#id]\nx", "----\n\nx\n----"]).into()));
                let L::Text(t) = v.pop().unwrap() else { unreachable!() };
                v.extend(t.split('\n').map(|l| L::Text(l.into())));
                v.push(blank(g));
            }
            _ => {
                v.push(word_line(g));
                v.push(include(g));
                v.push(word_line(g));
                v.push(blank(g));
            }
        }
    }
    v
}

fn attrs(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut fs = Fs::new();
    for p in PATHS {
        if g.p(85) {
            let mut f = vec![];
            if g.p(50) {
                f.push(blank(g));
            }
            f.extend(body_items(g, 3));
            // (A file ends with an empty line, so that what follows starts a new block.)
            fs.insert(p.to_string(), f);
        }
    }
    // Files of entries only, for the header.
    for p in ["h1.adoc", "h2.adoc"] {
        let mut f = g.list(1, 3, entry);
        if p == "h1.adoc" && g.p(40) {
            let at = g.u(f.len() + 1);
            f.insert(at, L::Include("h2.adoc".into(), String::new(), ""));
        }
        fs.insert(p.into(), f);
    }
    let mut root = vec![];
    for _ in 0..g.w(&[6, 1, 1]) {
        root.push(blank(g));
    }
    let hdr = |g: &mut G, root: &mut Vec<L>| {
        for _ in 0..g.u(3) {
            match g.w(&[3, 2, 1]) {
                0 => root.push(entry(g)),
                1 => root.push(L::Include(g.of(&["h1.adoc", "h2.adoc"]).into(), String::new(), "")),
                _ => root.push(L::Text("// comment".into())),
            }
        }
    };
    hdr(g, &mut root);
    let titled = g.p(60);
    if titled {
        root.push(L::Text("= Title".into()));
        if g.p(25) {
            root.push(L::Text("Author Name <a@b.c>".into()));
            if g.p(50) {
                root.push(L::Text("v1.0, 2020-01-01".into()));
            }
        }
        hdr(g, &mut root);
    }
    root.push(blank(g));
    root.extend(body_items(g, 6));
    let s = Setup { fs, root, primary: primary(g), api: api(g, 40, titled), budget: 12 };
    run(g, cx, s, |m| m.resolved > 0 && m.entries > 0 && m.calls.iter().any(|c| !c.seen.iter().all(|v| v == "unset")))
}

/// Chains of files.
fn chain(g: &mut G, cx: &mut Cx) -> Outcome {
    let n = g.range(1, 60);
    let mut fs = Fs::new();
    let name = |i: usize| format!("f{i}.adoc");
    let file = |g: &mut G, i: usize| {
        let mut v = g.list(0, 2, word_line);
        if i < n {
            v.push(L::Include(name(i + 1), String::new(), ""));
        }
        v.extend(g.list(0, 2, word_line));
        v
    };
    let mut root = file(g, 0);
    // Many, one after the other.
    if g.p(30) {
        for _ in 0..g.range(20, 120) {
            root.push(L::Include(name(g.range(n.max(3) - 2, n)), String::new(), ""));
        }
    }
    for i in 1..=n {
        let f = file(g, i);
        fs.insert(name(i), f);
    }
    let s = Setup { fs, root, primary: primary(g), api: vec![("fixed", "FIX", ModificationContext::ApiOnly)], budget: 1000 };
    run(g, cx, s, |m| m.resolved > 3)
}

/// A file that includes itself.
fn cycle(g: &mut G, cx: &mut Cx) -> Outcome {
    let k = g.range(1, 3);
    let mut files = BTreeMap::new();
    for i in 0..k {
        let a = g.of(&["", "before\n", "before\n\n"]);
        let b = g.of(&["", "after\n", "\nafter\n"]);
        files.insert(format!("f{i}"), format!("{a}mark{i}\ninclude::f{}[]\n{b}", (i + 1) % k));
    }
    cx.input(format!("{files:?}"));
    cx.nontrivial(true);
    let root = "include::f0[]\n\nlast";
    let mut p = Parser::default();
    if let Some(n) = primary(g) {
        p = p.with_primary_file_name(n);
    }
    let log = Rc::new(RefCell::new(vec![]));
    let mut p = p.with_include_file_handler(Handler { files, budget: Cell::new(100_000), log: log.clone() });
    let d = p.parse(root);
    let calls = log.borrow().len();
    ensure!(calls < 5_000, "{calls} requests for files");
    let t = d.span().data();
    ensure!(t.contains("mark0") && t.trim_end().ends_with("last"), "file or the rest of the document is missing: {t:?}");
    ensure!(t.contains("Unresolved directive in f"), "no directive is left unresolved: {t:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "at least one directive is resolved (in `attrs`, with attribute entries and attributes in effect; in `chain`, more than three)",
        assumptions: &["include targets use attributes that are set through the API, in the header or by entries that stand between blocks"],
        families: vec![
            Family { name: "soup", run: soup, quick: 80_000, thorough: 2_000_000 },
            Family { name: "attrs", run: attrs, quick: 80_000, thorough: 2_000_000 },
            Family { name: "chain", run: chain, quick: 3_000, thorough: 60_000 },
            Family { name: "cycle", run: cycle, quick: 200, thorough: 2_000 },
        ],
    }
}
