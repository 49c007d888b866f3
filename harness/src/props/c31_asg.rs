//! C31: the ASG schema accepts the graphs the language allows, fills in the
//! defaults, and rejects graphs with a single fault.

use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::{BufRead, BufReader, Write},
    path::PathBuf,
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
};

use crate::{engine::*, json::J};

fn asg() -> PathBuf {
    PathBuf::from(std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into())).join("asg")
}

// ------------------------------------------------------------- server ------

struct Server {
    _child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}

thread_local!(static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) });

fn ask(j: &J) -> Result<J, String> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let mut c = Command::new("node")
                .arg(concat!(env!("CARGO_MANIFEST_DIR"), "/asg/server.mjs"))
                .arg(asg())
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| format!("node: {e}"))?;
            let i = c.stdin.take().unwrap();
            let o = BufReader::new(c.stdout.take().unwrap());
            *s = Some(Server { _child: c, i, o });
        }
        let sv = s.as_mut().unwrap();
        let mut l = String::new();
        let sent = writeln!(sv.i, "{j}").and_then(|_| sv.i.flush()).and_then(|_| sv.o.read_line(&mut l));
        if sent.is_err() || l.is_empty() {
            *s = None;
            return Err("the schema, or its `defaults` keyword, does not load or crashes on this graph".into());
        }
        J::parse(&l)
    })
}

// ---------------------------------------------------------- generator ------

const TEXT: &[&str] = &["", "x", "water", "a *b*", "\u{e9}\u{5c71}", "\"q\" \\ n", "line\nline", "<&>", "{x}", "\u{1f600}"];

fn text(g: &mut G) -> J {
    J::s(g.of(TEXT))
}

fn boundary(g: &mut G) -> J {
    let mut v = vec![("line", J::Num(g.range(1, 300) as f64)), ("col", J::Num(g.u(90) as f64))];
    if g.p(25) {
        v.push(("file", J::Arr(g.list(1, 3, text))));
    }
    J::obj(&v)
}

struct B(BTreeMap<String, J>);

impl B {
    fn new(name: &str, ty: &str) -> B {
        B(BTreeMap::new()).put("name", J::s(name)).put("type", J::s(ty))
    }
    fn put(mut self, k: &str, v: J) -> B {
        self.0.insert(k.into(), v);
        self
    }
    fn opt(self, g: &mut G, pct: usize, k: &str, v: impl FnOnce(&mut G) -> J) -> B {
        if g.p(pct) {
            let v = v(g);
            self.put(k, v)
        } else {
            self
        }
    }
    fn loc(self, g: &mut G, pct: usize) -> B {
        self.opt(g, pct, "location", |g| J::Arr(vec![boundary(g), boundary(g)]))
    }
    fn j(self) -> J {
        J::Obj(self.0)
    }
}

fn inline(g: &mut G, d: usize) -> J {
    match if d == 0 { 0 } else { g.w(&[4, 2, 2]) } {
        0 => B::new(g.pick(&["text", "charref", "raw"]), "string").put("value", text(g)),
        1 => B::new("span", "inline")
            .put("variant", J::s(g.pick(&["strong", "emphasis", "code", "mark"])))
            .put("form", J::s(g.pick(&["constrained", "unconstrained"])))
            .put("inlines", inlines(g, d - 1, 0)),
        _ => B::new("ref", "inline").put("variant", J::s(g.pick(&["link", "xref"]))).put("target", text(g)).put("inlines", inlines(g, d - 1, 0)),
    }
    .loc(g, 30)
    .j()
}

fn inlines(g: &mut G, d: usize, min: usize) -> J {
    J::Arr(g.list(min, 3, |g| inline(g, d)))
}

fn metadata(g: &mut G) -> J {
    let mut b = B(BTreeMap::new());
    b = b.opt(g, 60, "attributes", |g| {
        let ks = g.list(0, 3, |g| g.of(&["$1", "$2", "$10", "role", "x-y", "_a", "A9", "a_b"]));
        let mut o = BTreeMap::new();
        for k in ks {
            o.insert(k.to_string(), text(g));
        }
        J::Obj(o)
    });
    b = b.opt(g, 50, "options", |g| J::Arr(g.list(0, 3, text)));
    b = b.opt(g, 50, "roles", |g| J::Arr(g.list(0, 3, text)));
    b.loc(g, 20).j()
}

/// The properties every block may have.
fn common(g: &mut G, b: B) -> B {
    b.opt(g, 20, "id", text).opt(g, 20, "title", |g| inlines(g, 1, 0)).opt(g, 15, "reftext", |g| inlines(g, 1, 0)).opt(g, 25, "metadata", metadata).loc(g, 30)
}

fn item(g: &mut G, d: usize, dl: bool) -> J {
    let b = B::new(if dl { "dlistItem" } else { "listItem" }, "block");
    let mut b = common(g, b).put("marker", text(g));
    b = if dl {
        b.put("terms", J::Arr(g.list(1, 3, |g| inlines(g, 1, 0)))).opt(g, 50, "principal", |g| inlines(g, 1, 0))
    } else {
        b.put("principal", inlines(g, 1, 0))
    };
    b.opt(g, 40, "blocks", |g| J::Arr(blocks(g, d, false))).j()
}

fn heading(g: &mut G, name: &str) -> B {
    let b = common(g, B::new(name, "block"));
    b.put("title", inlines(g, 1, 0)).put("level", J::Num(g.u(7) as f64))
}

fn block(g: &mut G, d: usize, sections: bool) -> J {
    let k = if d == 0 { g.w(&[4, 1, 1, 1]) } else { g.w(&[4, 1, 1, 1, 2, 2, 3, if sections { 4 } else { 0 }]) };
    match k {
        0 => {
            let n = g.of(&["listing", "literal", "paragraph", "pass", "stem", "verse"]);
            let b = common(g, B::new(n, "block"));
            let b = match g.u(4) {
                0 => b,
                1 => b.put("form", J::s("paragraph")),
                2 => b.put("form", J::s("indented")),
                _ => b.put("form", J::s("delimited")).put("delimiter", J::s(g.pick(&["----", "....", "++++", "____"]))),
            };
            b.opt(g, 70, "inlines", |g| inlines(g, 2, 0)).j()
        }
        1 => {
            let b = common(g, B::new("break", "block"));
            b.put("variant", J::s(g.pick(&["page", "thematic"]))).j()
        }
        2 => {
            let n = g.of(&["audio", "video", "image", "toc"]);
            let b = common(g, B::new(n, "block"));
            b.put("form", J::s("macro")).opt(g, 70, "target", text).j()
        }
        3 => heading(g, "heading").j(),
        4 => {
            let b = common(g, B::new("list", "block"));
            b.put("marker", text(g)).put("variant", J::s(g.pick(&["callout", "ordered", "unordered"]))).put("items", J::Arr(g.list(1, 3, |g| item(g, d - 1, false)))).j()
        }
        5 => {
            let b = common(g, B::new("dlist", "block"));
            b.put("marker", text(g)).put("items", J::Arr(g.list(1, 3, |g| item(g, d - 1, true)))).j()
        }
        6 => {
            let n = g.of(&["admonition", "example", "sidebar", "open", "quote"]);
            let mut b = common(g, B::new(n, "block")).put("form", J::s("delimited")).put("delimiter", J::s(g.pick(&["====", "****", "--", "____"])));
            if n == "admonition" {
                b = b.put("variant", J::s(g.pick(&["caution", "important", "note", "tip", "warning"])));
            }
            b.opt(g, 75, "blocks", |g| J::Arr(blocks(g, d - 1, false))).j()
        }
        _ => heading(g, "section").opt(g, 75, "blocks", |g| J::Arr(blocks(g, d - 1, true))).j(),
    }
}

fn blocks(g: &mut G, d: usize, sections: bool) -> Vec<J> {
    g.list(0, 3, |g| block(g, d, sections))
}

fn document(g: &mut G) -> J {
    let mut b = B::new("document", "block");
    let head = g.p(50);
    if head || g.p(40) {
        let mut o = BTreeMap::new();
        for k in g.list(0, 3, |g| g.of(&["x", "a-b", "toc", "9", "A_b", "x--"])) {
            let v = if g.p(30) { J::Null } else { text(g) };
            o.insert(k.to_string(), v);
        }
        b = b.put("attributes", J::Obj(o));
    }
    if head {
        b = b.put("header", {
            let h = B(BTreeMap::new()).opt(g, 70, "title", |g| inlines(g, 1, 0));
            h.opt(g, 50, "authors", |g| {
                J::Arr(g.list(1, 3, |g| {
                    let mut a = B(BTreeMap::new());
                    for k in ["fullname", "initials", "firstname", "middlename", "lastname", "address"] {
                        a = a.opt(g, 50, k, text);
                    }
                    a.j()
                }))
            })
            .loc(g, 40)
            .j()
        });
    }
    let d = g.range(0, 3);
    b.opt(g, 90, "blocks", |g| J::Arr(blocks(g, d, true))).loc(g, 50).j()
}

// --------------------------------------------------------------- walk ------

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Doc,
    Header,
    Author,
    DocAttrs,
    Block,
    Meta,
    MetaAttrs,
    Inline,
    Boundary,
    /// Arrays.
    Loc,
}

#[derive(Clone, Debug)]
enum Step {
    K(String),
    I(usize),
}

fn kind_of_child(parent: K, key: &str) -> Option<(K, usize)> {
    // (kind, array depth)
    Some(match key {
        "location" => (K::Loc, 0),
        "header" => (K::Header, 0),
        "authors" => (K::Author, 1),
        "attributes" if parent == K::Doc => (K::DocAttrs, 0),
        "attributes" => (K::MetaAttrs, 0),
        "metadata" => (K::Meta, 0),
        "blocks" | "items" => (K::Block, 1),
        "title" | "reftext" | "principal" | "inlines" => (K::Inline, 1),
        "terms" => (K::Inline, 2),
        _ => return None,
    })
}

fn visit(j: &J, k: K, at: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, K)>) {
    out.push((at.clone(), k));
    match j {
        J::Arr(v) if k == K::Loc => {
            for (i, x) in v.iter().enumerate() {
                at.push(Step::I(i));
                visit(x, K::Boundary, at, out);
                at.pop();
            }
        }
        J::Obj(o) if !matches!(k, K::DocAttrs | K::MetaAttrs | K::Boundary) => {
            for (key, x) in o {
                let Some((ck, depth)) = kind_of_child(k, key) else { continue };
                at.push(Step::K(key.clone()));
                deep(x, ck, depth, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn deep(j: &J, k: K, depth: usize, at: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, K)>) {
    if depth == 0 {
        return visit(j, k, at, out);
    }
    if let J::Arr(v) = j {
        for (i, x) in v.iter().enumerate() {
            at.push(Step::I(i));
            deep(x, k, depth - 1, at, out);
            at.pop();
        }
    }
}

fn find<'a>(j: &'a mut J, at: &[Step]) -> &'a mut J {
    at.iter().fold(j, |j, s| match (j, s) {
        (J::Obj(o), Step::K(k)) => o.get_mut(k).unwrap(),
        (J::Arr(v), Step::I(i)) => &mut v[*i],
        _ => unreachable!(),
    })
}

fn obj(j: &mut J) -> &mut BTreeMap<String, J> {
    if let J::Obj(o) = j { o } else { unreachable!() }
}

fn name(j: &J) -> &str {
    if let Some(J::Str(s)) = j.get("name") { s } else { "" }
}

/// The defaults the schema promises.
fn filled(j: &J) -> J {
    let mut j = j.clone();
    let mut nodes = vec![];
    visit(&j, K::Doc, &mut vec![], &mut nodes);
    for (at, k) in nodes {
        let n = find(&mut j, &at);
        let mut add: Vec<(&str, J)> = vec![];
        match (k, name(n)) {
            (K::Doc, _) | (K::Block, "section" | "listItem" | "dlistItem" | "admonition" | "example" | "sidebar" | "open" | "quote") => add.push(("blocks", J::Arr(vec![]))),
            (K::Block, "listing" | "literal" | "paragraph" | "pass" | "stem" | "verse") => add.push(("inlines", J::Arr(vec![]))),
            (K::Meta, _) => add = vec![("attributes", J::obj(&[])), ("options", J::Arr(vec![])), ("roles", J::Arr(vec![]))],
            _ => {}
        }
        for (k, v) in add {
            obj(n).entry(k.into()).or_insert(v);
        }
    }
    j
}

// ------------------------------------------------------------- faults ------

fn required(k: K, n: &J) -> Vec<&'static str> {
    match k {
        K::Doc => {
            if n.get("header").is_some() {
                vec!["name", "type", "attributes"]
            } else {
                vec!["name", "type"]
            }
        }
        K::Boundary => vec!["line", "col"],
        K::Inline => match name(n) {
            "span" => vec!["name", "type", "inlines", "variant", "form"],
            "ref" => vec!["name", "type", "inlines", "variant", "target"],
            _ => vec!["name", "type", "value"],
        },
        K::Block => {
            let mut v = vec!["name", "type"];
            v.extend_from_slice(match name(n) {
                "list" => &["marker", "variant", "items"],
                "dlist" => &["marker", "items"],
                "listItem" => &["marker", "principal"],
                "dlistItem" => &["marker", "terms"],
                "heading" | "section" => &["title", "level"],
                "break" => &["variant"],
                "audio" | "video" | "image" | "toc" => &["form"],
                "admonition" => &["form", "delimiter", "variant"],
                "example" | "sidebar" | "open" | "quote" => &["form", "delimiter"],
                _ if n.get("delimiter").is_some() => &["delimiter"],
                _ => &[],
            });
            v
        }
        _ => vec![],
    }
}

/// Plants one fault at a node; returns what it is, or `None` when the chosen
/// kind of fault does not apply there.
fn fault(g: &mut G, k: K, n: &mut J) -> Option<String> {
    match g.u(6) {
        // A required property is missing.
        0 => {
            let r = required(k, n);
            if r.is_empty() {
                return None;
            }
            let p = g.of(&r);
            obj(n).remove(p);
            Some(format!("{p} missing"))
        }
        // An unknown property, or one of another kind of node.
        1 => {
            if matches!(k, K::Loc) {
                return None;
            }
            if k == K::DocAttrs || k == K::MetaAttrs {
                let p = if k == K::DocAttrs { g.of(&["", "-x", "a b", "$1", "a.b", "\u{e9}", "x\n"]) } else { g.of(&["", "-x", "a b", "$0", "$", "$x", "9a", "$01", "a.b", "$1x", "\u{e9}"]) };
                obj(n).insert(p.into(), J::s("v"));
                return Some(format!("attribute name {p:?}"));
            }
            let p = g.of(&["foo", "", "Name", "xyz", "lines", "positional", "anchors", "delimiter", "variant", "level", "items", "terms", "value", "blocks", "inlines", "header", "authors", "attributes", "id", "principal", "target", "form"]);
            let allowed: &[&str] = match (k, name(n)) {
                (K::Doc, _) => &["attributes", "header", "blocks"],
                (K::Header, _) => &["authors"],
                (K::Author, _) | (K::Boundary, _) => &[],
                (K::Meta, _) => &["attributes"],
                (K::Inline, "span") => &["variant", "form", "inlines"],
                (K::Inline, "ref") => &["variant", "target", "inlines"],
                (K::Inline, _) => &["value"],
                (K::Block, "list") => &["id", "variant", "items"],
                (K::Block, "dlist") => &["id", "items"],
                (K::Block, "listItem") => &["id", "principal", "blocks"],
                (K::Block, "dlistItem") => &["id", "principal", "terms", "blocks"],
                (K::Block, "heading") => &["id", "level"],
                (K::Block, "section") => &["id", "level", "blocks"],
                (K::Block, "break") => &["id", "variant"],
                (K::Block, "audio" | "video" | "image" | "toc") => &["id", "form", "target"],
                (K::Block, "admonition") => &["id", "form", "delimiter", "variant", "blocks"],
                (K::Block, "example" | "sidebar" | "open" | "quote") => &["id", "form", "delimiter", "blocks"],
                _ => &["id", "form", "delimiter", "inlines"],
            };
            // A leaf block has a delimiter exactly when it is delimited.
            let stray = p == "delimiter" && k == K::Block && matches!(name(n), "listing" | "literal" | "paragraph" | "pass" | "stem" | "verse") && n.get("form") != Some(&J::s("delimited"));
            if (allowed.contains(&p) && !stray) || n.get(p).is_some() {
                return None;
            }
            let v = match p {
                "blocks" | "inlines" | "items" | "terms" | "principal" | "authors" => J::Arr(vec![]),
                "level" => J::Num(1.0),
                "header" | "attributes" => J::obj(&[]),
                "form" => J::s("delimited"),
                "variant" => J::s("note"),
                _ => J::s("x"),
            };
            obj(n).insert(p.into(), v);
            Some(format!("property {p:?}"))
        }
        // A value of the wrong type.
        2 => {
            if k == K::Loc {
                *n = g.of(&[J::Null, J::s("1:1"), J::obj(&[]), J::Num(1.0)]);
                return Some("location of the wrong type".into());
            }
            let keys: Vec<String> = obj(n).keys().cloned().collect();
            if keys.is_empty() {
                return None;
            }
            let p = g.of(&keys);
            let old = &obj(n)[&p];
            let is_str = matches!(old, J::Str(_)) || k == K::DocAttrs;
            let v = match g.u(5) {
                0 => J::Bool(g.p(50)),
                1 => J::Num(7.0),
                2 if !is_str => J::s("1"),
                3 if !matches!(old, J::Arr(_)) => J::Arr(vec![]),
                4 if !matches!(old, J::Obj(_)) => J::obj(&[("x", J::Num(1.0))]),
                _ => J::Bool(true),
            };
            if matches!((old, &v), (J::Num(_), J::Num(_))) {
                return None;
            }
            let d = format!("{p} is {v}");
            obj(n).insert(p, v);
            Some(d)
        }
        // A value out of range.
        3 => {
            let (p, v): (&str, J) = match k {
                K::Boundary => match g.u(4) {
                    0 => ("line", g.of(&[J::Num(0.0), J::Num(-1.0), J::Num(1.5)])),
                    1 => ("col", g.of(&[J::Num(-1.0), J::Num(0.5)])),
                    2 => ("file", J::Arr(vec![])),
                    _ => ("file", J::Arr(vec![J::s("a"), J::Num(1.0)])),
                },
                K::Loc => {
                    let J::Arr(v) = n else { return None };
                    let b = J::obj(&[("line", J::Num(1.0)), ("col", J::Num(1.0))]);
                    match g.u(3) {
                        0 => v.clear(),
                        1 => {
                            v.pop();
                        }
                        _ => v.push(b),
                    }
                    return Some("a location with other than two ends".into());
                }
                K::Header => ("authors", J::Arr(vec![])),
                K::Meta => (g.of(&["options", "roles"]), J::Arr(vec![J::s("a"), J::Null])),
                K::MetaAttrs => ("k", g.of(&[J::Null, J::Num(1.0), J::Arr(vec![])])),
                K::DocAttrs => ("k", g.of(&[J::Bool(false), J::Num(1.0), J::Arr(vec![])])),
                K::Doc => match g.u(2) {
                    0 => ("name", J::s(g.pick(&["section", "paragraph", "Document", ""]))),
                    _ => ("type", J::s(g.pick(&["inline", "string", "doc"]))),
                },
                K::Author => return None,
                K::Inline => match (g.u(4), name(n)) {
                    (0, "span") => ("variant", J::s(g.pick(&["link", "Strong", "quote", "", "xref"]))),
                    (0, "ref") => ("variant", J::s(g.pick(&["strong", "url", "", "footnote"]))),
                    (1, "span") => ("form", J::s(g.pick(&["paragraph", "delimited", ""]))),
                    (2, _) => ("name", J::s(g.pick(&["paragraph", "image", "Text", ""]))),
                    (3, "span" | "ref") => ("type", J::s(g.pick(&["string", "block"]))),
                    (3, _) => ("type", J::s(g.pick(&["inline", "block"]))),
                    _ => return None,
                },
                K::Block => match (g.u(4), name(n)) {
                    (0, "list") => ("variant", J::s(g.pick(&["description", "note", ""]))),
                    (0, "admonition") => ("variant", J::s(g.pick(&["danger", "NOTE", "ordered"]))),
                    (0, "break") => ("variant", J::s(g.pick(&["line", "column", ""]))),
                    (1, "list" | "dlist") => ("items", J::Arr(vec![])),
                    (1, "dlistItem") => ("terms", J::Arr(vec![])),
                    (1, "section" | "heading") => ("level", g.of(&[J::Num(-1.0), J::Num(0.5), J::s("1")])),
                    (1, "audio" | "video" | "image" | "toc") => ("form", J::s(g.pick(&["delimited", "inline"]))),
                    (1, "admonition" | "example" | "sidebar" | "open" | "quote") => ("form", J::s(g.pick(&["paragraph", "indented", ""]))),
                    (1, "break" | "listItem") => ("type", J::s("inline")),
                    (1, _) => ("form", J::s(g.pick(&["macro", "block", ""]))),
                    (2, _) => ("name", J::s(g.pick(&["document", "text", "table", "preamble", "Paragraph", "", "floatingTitle"]))),
                    _ => ("type", J::s(g.pick(&["inline", "string", "Block"]))),
                },
            };
            obj(n).insert(p.into(), v.clone());
            Some(format!("{p} is {v}"))
        }
        // A node in the wrong place.
        4 => {
            let par = J::obj(&[("name", J::s("paragraph")), ("type", J::s("block"))]);
            let sec = J::obj(&[("name", J::s("section")), ("type", J::s("block")), ("level", J::Num(1.0)), ("title", J::Arr(vec![]))]);
            let itm = J::obj(&[("name", J::s("listItem")), ("type", J::s("block")), ("marker", J::s("*")), ("principal", J::Arr(vec![]))]);
            let dit = J::obj(&[("name", J::s("dlistItem")), ("type", J::s("block")), ("marker", J::s("::")), ("terms", J::Arr(vec![J::Arr(vec![])]))]);
            let txt = J::obj(&[("name", J::s("text")), ("type", J::s("string")), ("value", J::s("x"))]);
            let hdr = J::obj(&[("name", J::s("heading")), ("type", J::s("block")), ("level", J::Num(1.0)), ("title", J::Arr(vec![]))]);
            let (key, v) = match (k, name(n)) {
                (K::Doc, _) | (K::Block, "section") => ("blocks", g.of(&[itm, dit, txt, J::Null, J::s("x")])),
                (K::Block, "listItem" | "dlistItem" | "admonition" | "example" | "sidebar" | "open" | "quote") => ("blocks", g.of(&[sec, itm, txt, J::Null])),
                (K::Block, "list") => ("items", g.of(&[sec, par, dit, txt])),
                (K::Block, "dlist") => ("items", g.of(&[sec, par, itm, txt])),
                (K::Block, "heading") => ("title", g.of(&[par, hdr, J::s("x")])),
                (K::Block, "listing" | "literal" | "paragraph" | "pass" | "stem" | "verse") | (K::Inline, "span" | "ref") => ("inlines", g.of(&[par, J::s("x"), J::Null])),
                _ => return None,
            };
            let e = obj(n).entry(key.into()).or_insert(J::Arr(vec![]));
            let J::Arr(l) = e else { return None };
            let d = format!("{v} in {key}");
            let at = g.u(l.len() + 1);
            l.insert(at, v);
            Some(d)
        }
        // Whole nodes of the wrong type.
        _ => {
            if matches!(k, K::DocAttrs | K::Header) && g.p(30) {
                return None;
            }
            let v = g.of(&[J::s("x"), J::Arr(vec![]), J::Num(1.0), J::Bool(true)]);
            if k == K::Loc && matches!(v, J::Arr(_)) {
                return None;
            }
            let d = format!("{k:?} is {v}");
            *n = v;
            Some(d)
        }
    }
}

fn broken(g: &mut G, j: &J) -> Option<(J, String)> {
    let mut nodes = vec![];
    visit(j, K::Doc, &mut vec![], &mut nodes);
    let (at, k) = g.of(&nodes);
    let mut b = j.clone();
    let d = fault(g, k, find(&mut b, &at))?;
    let p: String = at
        .iter()
        .map(|s| match s {
            Step::K(k) => format!("/{k}"),
            Step::I(i) => format!("/{i}"),
        })
        .collect();
    Some((b, format!("{d} at {p}")))
}

fn depth(j: &J) -> usize {
    match j {
        J::Arr(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        J::Obj(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn valid(g: &mut G, cx: &mut Cx) -> Outcome {
    let d = document(g);
    cx.input(format!("{d}"));
    cx.nontrivial(depth(&d) >= 5);
    let r = ask(&d)?;
    ensure!(r.get("ok") == Some(&J::Bool(true)), "a valid graph is rejected: {}", r.get("error").cloned().unwrap_or(J::Null));
    ensure_eq!(filled(&d), *r.get("data").unwrap_or(&J::Null), "the graph after validation");
    // Validation of the filled graph changes nothing.
    let f = filled(&d);
    let r = ask(&f)?;
    ensure!(r.get("ok") == Some(&J::Bool(true)), "the filled graph is rejected");
    ensure_eq!(f, *r.get("data").unwrap_or(&J::Null), "the filled graph after validation");
    cx.label_if(f != d, "defaults filled");
    Ok(())
}

fn invalid(g: &mut G, cx: &mut Cx) -> Outcome {
    let d = document(g);
    let Some((b, what)) = (0..12).find_map(|_| broken(g, &d)) else { return Ok(()) };
    cx.input(format!("{what}\n{b}"));
    cx.nontrivial(depth(&d) >= 3);
    let r = ask(&b)?;
    ensure!(r.get("ok") == Some(&J::Bool(false)), "a graph is accepted with {what}");
    Ok(())
}

// ---------------------------------------------------------------- cli ------

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn copy(from: &std::path::Path, to: &std::path::Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let n = e.file_name();
        if n == "node_modules" || n == "test" {
            continue;
        }
        if e.file_type()?.is_dir() {
            copy(&e.path(), &to.join(&n))?;
        } else if e.file_type()?.is_file() {
            std::fs::copy(e.path(), to.join(&n))?;
        }
    }
    Ok(())
}

/// The command: silent on a valid file, names the file and a reason otherwise;
/// an array is the inlines of a paragraph.
fn cli(g: &mut G, cx: &mut Cx) -> Outcome {
    let wrapped = g.p(40);
    let good = g.p(50);
    let mut d = document(g);
    if wrapped {
        // The inlines of a paragraph; the command makes the locations of the
        // block and the document from theirs.
        let J::Arr(mut v) = inlines(g, 2, 0) else { unreachable!() };
        for x in &mut v {
            obj(x).insert("location".into(), J::Arr(vec![boundary(g), boundary(g)]));
        }
        d = J::Arr(v);
    }
    let mut bad = None;
    if !good {
        if wrapped {
            let J::Arr(mut v) = d.clone() else { unreachable!() };
            if !v.is_empty() {
                let at = g.u(v.len());
                let k = g.of(&["name", "type"]);
                obj(&mut v[at]).remove(k);
                bad = Some((J::Arr(v), format!("{k} missing")));
            }
        } else {
            // Graphs that are arrays at the top are inlines to the command.
            bad = (0..12).find_map(|_| broken(g, &d)).filter(|x| matches!(x.0, J::Obj(_)));
        }
    }
    let (j, what) = bad.clone().unwrap_or((d.clone(), "nothing wrong".into()));
    cx.input(format!("{what}\n{j}"));
    cx.nontrivial(true);
    let s = Scratch(std::env::temp_dir().join(format!("vp-asg-{}-{:x}", std::process::id(), hash_str(&cx.input))));
    copy(&asg(), &s.0).map_err(|e| format!("copy: {e}"))?;
    std::fs::create_dir_all(s.0.join("node_modules")).map_err(|e| e.to_string())?;
    std::os::unix::fs::symlink("/opt/veriftools/node/node_modules/ajv", s.0.join("node_modules/ajv")).map_err(|e| e.to_string())?;
    let f = g.of(&["graph.json", "x y.json", "in-output.json"]);
    std::fs::write(s.0.join(f), j.to_string()).map_err(|e| e.to_string())?;
    let mut c = Command::new("node");
    c.current_dir(&s.0).arg("bin/validate-asg.js");
    if g.p(20) {
        c.arg("--validate-schema");
    }
    let o = c.arg(f).output().map_err(|e| format!("node: {e}"))?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    ensure!(o.status.success() && o.stderr.is_empty(), "the command fails: {}", String::from_utf8_lossy(&o.stderr));
    if bad.is_none() {
        ensure_eq!("", out.as_str(), "output for a valid file");
    } else {
        ensure!(out.lines().next() == Some(f) && out.lines().count() > 1, "no report for a file with {what}: {out:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        rule: "valid: the graph nests at least 5 deep (document, blocks, block, inlines, inline); faulty: 3 deep; command: always",
        assumptions: &["the graphs the schema should allow are those of its own definitions on the pinned commit, written out again in the generator"],
        families: vec![
            Family { name: "valid", run: valid, quick: 40_000, thorough: 1_000_000 },
            Family { name: "faulty", run: invalid, quick: 80_000, thorough: 2_000_000 },
            Family { name: "command", run: cli, quick: 120, thorough: 2_000 },
        ],
    }
}
