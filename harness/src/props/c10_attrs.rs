//! Document attributes: a state machine over API settings, header entries,
//! body entries and references, compared with a model.

use std::collections::BTreeMap;

use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
    document::InterpretedValue,
    parser::ModificationContext as M,
};

use crate::{engine::*, inl, walk};

#[derive(Clone, PartialEq, Debug)]
enum V {
    Val(String),
    Set,
    Unset,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum C {
    Any,
    ApiHeader,
    ApiBody,
    Api,
}

type State = BTreeMap<String, (V, C)>;

/// Built-in attributes the scenarios refer to.
fn builtin() -> State {
    let mut s = State::new();
    let mut add = |n: &str, v: V, c| s.insert(n.to_string(), (v, c));
    add("empty", V::Val("".into()), C::Api);
    add("sp", V::Val(" ".into()), C::Api);
    add("deg", V::Val("&#176;".into()), C::Api);
    add("plus", V::Val("&#43;".into()), C::Api);
    add("toc", V::Unset, C::ApiHeader);
    add("example-caption", V::Set, C::Any);
    add("iconsdir", V::Set, C::Any);
    add("sectnumlevels", V::Val("3".into()), C::ApiHeader);
    add("idprefix", V::Val("_".into()), C::Any);
    add("idseparator", V::Val("_".into()), C::Any);
    add("sectids", V::Set, C::Any);
    add("sectnums", V::Unset, C::Any);
    s
}

fn default_of(n: &str) -> Option<&'static str> {
    match n {
        "toc" => Some("auto"),
        "example-caption" => Some("Example"),
        "iconsdir" => Some("./images/icons"),
        "sectnums" => Some("all"),
        _ => None,
    }
}

fn effective(st: &State, n: &str) -> V {
    match st.get(n) {
        None => V::Unset,
        Some((V::Set, _)) => default_of(n).map_or(V::Set, |d| V::Val(d.into())),
        Some((v, _)) => v.clone(),
    }
}

fn same(v: &V, got: &InterpretedValue) -> bool {
    match (v, got) {
        (V::Val(a), InterpretedValue::Value(b)) => a == b,
        (V::Set, InterpretedValue::Set) | (V::Unset, InterpretedValue::Unset) => true,
        _ => false,
    }
}

const NAMES: &[&str] = &[
    "foo", "foo", "bar", "bar", "a-b", "x_1", "9lives", "_u", "q", "sp", "empty", "deg", "plus", "toc", "sectnums", "sectids", "idprefix", "sectnumlevels", "idseparator", "example-caption", "iconsdir",
];

fn case(g: &mut G, n: &str) -> String {
    match g.w(&[8, 1, 1]) {
        0 => n.to_string(),
        1 => n.to_uppercase(),
        _ => {
            let mut c = n.chars();
            c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str())
        }
    }
}

const FRAG: &[&str] = &[
    "v", "w1", "x y", "<b>", "a & b", "a>b", "*s*", "(C)", "it's", "&lt;", "#", "caf\u{e9}", "\u{4e2d}", "1.5", "a,b", ":", "a:b", "!", "'q'", "\"q\"", "[z]", "=", "//", "--", "...", "a\\b", "_e_", "p.q", "\u{1F600}",
];

fn refs(g: &mut G, st: &State) -> Option<String> {
    // A reference whose outcome the property fixes.
    let n = g.of(&["foo", "bar", "a-b", "x_1", "9lives", "_u", "q", "sp", "deg", "plus", "empty", "undefined", "no-such", "idprefix", "toc"]);
    if matches!(st.get(n), Some((V::Unset, _))) {
        return None;
    }
    if matches!(st.get(n), Some((V::Set, _))) && default_of(n).is_some() {
        return None;
    }
    let esc = if g.p(12) { "\\" } else { "" };
    Some(format!("{esc}{{{}}}", case(g, n)))
}

/// One line of an attribute value: source text, no surrounding blanks.
fn value_line(g: &mut G, st: &State) -> String {
    let v: Vec<String> = g.list(1, 4, |g| {
        if g.p(30)
            && let Some(r) = refs(g, st)
        {
            return r;
        }
        g.of(FRAG).to_string()
    });
    let sep = g.of(&[" ", "", ", "]);
    let t = v.join(sep);
    let t = t.trim_end_matches(['\\', '+']).trim().to_string();
    if t.is_empty() { "v".into() } else { t }
}

fn lookup<'a>(st: &'a State) -> impl Fn(&str) -> Option<String> + 'a {
    move |n: &str| {
        let n = n.to_lowercase();
        st.get(&n).map(|(v, _)| match v {
            V::Val(v) => v.clone(),
            V::Set => default_of(&n).unwrap_or("").to_string(),
            V::Unset => String::new(),
        })
    }
}

fn header_subs(s: &str, st: &State) -> String {
    inl::attributes(&inl::escape(s), &lookup(st))
}

struct Entry {
    src: String,
    name: String,
    v: V,
}

fn entry(g: &mut G, st: &State) -> Entry {
    let n = g.of(NAMES);
    let written = case(g, n);
    let name = n.to_lowercase();
    match g.w(&[12, 4, 3, 2]) {
        0 => {
            let extra = if g.p(18) { g.range(1, 3) } else { 0 };
            // At most one run of plus signs, which are content: two of them
            // could enclose a passthrough.
            let plus_at = if g.p(15) { g.u(extra + 1) } else { 99 };
            let plus = g.of(&["C+", " C+", " C++"]);
            let mut src = value_line(g, st);
            if plus_at == 0 {
                src.push_str(plus);
            }
            let mut val = src.clone();
            for k in 0..extra {
                let hard = g.p(30);
                let slash = if hard { "" } else { g.of(&["", "", "", "\\ ", "/\\"]) };
                let slash = slash.trim_end();
                src.push_str(slash);
                val.push_str(slash);
                let mut next = value_line(g, st);
                if plus_at == k + 1 {
                    next.push_str(plus);
                }
                let indent = g.of(&["", " ", "   "]);
                // (The space before the backslash may be missing.)
                let gap = g.of(&[" ", " ", " ", "  ", ""]);
                if g.p(8) {
                    // A plus sign on a line of its own.
                    src = format!("{src} \\\n{indent}+{gap}\\\n{indent}{next}");
                    val = format!("{val} \n{next}");
                    continue;
                }
                src = format!("{src}{}{gap}\\\n{indent}{next}", if hard { g.of(&[" +", " +", "  +", "   +"]) } else { "" });
                val = format!("{val}{}{next}", if hard { "\n" } else { " " });
            }
            let gap = g.of(&[" ", " ", "   ", "\t"]);
            let tail = if extra == 0 { g.of(&["", "", "  "]) } else { "" };
            let v = V::Val(header_subs(&val, st));
            Entry { src: format!(":{written}:{gap}{src}{tail}"), name, v }
        }
        1 => Entry { src: format!(":{written}:"), name, v: V::Set },
        2 => Entry { src: format!(":!{written}:"), name, v: V::Unset },
        _ => Entry { src: format!(":{written}!:"), name, v: V::Unset },
    }
}

/// Applies an entry; false if it must be refused.
fn apply(st: &mut State, e: &Entry, header: bool) -> bool {
    let ctx = st.get(&e.name).map(|x| x.1);
    let ok = match ctx {
        None | Some(C::Any) => true,
        Some(C::ApiHeader) => header,
        Some(C::ApiBody) => !header,
        Some(C::Api) => false,
    };
    if ok {
        st.insert(e.name.clone(), (e.v.clone(), ctx.unwrap_or(C::Any)));
    }
    ok
}

struct Scenario {
    src: String,
    parser: Parser,
    st: State,
    /// Source text and name of refused entries, in order.
    refused: Vec<(String, String)>,
    /// All entries in document order: (header?, value).
    entries: Vec<(bool, String, V)>,
    /// Expected renderings in document order (paragraph text, section titles).
    texts: Vec<String>,
    unsure: bool,
    accepted: usize,
    referenced: usize,
    api: String,
}

fn text(g: &mut G, s: &mut Scenario, title: bool) -> String {
    let st = s.st.clone();
    let toks: Vec<String> = g.list(1, 5, |g| {
        if g.p(65)
            && let Some(r) = refs(g, &st)
        {
            return r;
        }
        g.of(&["w", "x y", "*s*", "<", "&", "9", "{", "}", "{-a}", "{a b}", "_e_", ",", "\u{e9}"]).to_string()
    });
    s.referenced += toks.iter().filter(|t| t.starts_with('{') && t.ends_with('}')).count();
    let sep = g.of(&[" ", "", " "]);
    let mut t = format!("t{sep}{}", toks.join(sep)).trim().to_string();
    if !title && g.p(20) {
        t = format!("{t}\nu {}", refs(g, &st).unwrap_or_else(|| "w".into()));
    }
    let mut n = inl::Notes::default();
    let want = inl::normal(&t, &lookup(&st), &mut n);
    // A value that opens a macro is out of scope here.
    let expanded = inl::attributes(&inl::escape(&t), &lookup(&st));
    s.unsure |= n.unsure || expanded.contains("://") || expanded.contains("[[") || expanded.contains("((") || expanded.contains('@');
    s.texts.push(want);
    t
}

fn body(g: &mut G, s: &mut Scenario, d: usize, out: &mut Vec<String>) {
    let n = g.range(1, 6);
    for _ in 0..n {
        match g.w(&[6, 8, if d > 0 { 2 } else { 0 }]) {
            0 => {
                let e = entry(g, &s.st);
                let ok = apply(&mut s.st, &e, false);
                s.accepted += ok as usize;
                if !ok {
                    s.refused.push((e.src.trim_end().to_string(), e.name.clone()));
                }
                s.entries.push((false, e.name.clone(), e.v.clone()));
                out.push(e.src);
                if g.p(70) {
                    out.push(String::new());
                }
            }
            1 => {
                let t = if g.p(6) {
                    // Not an entry: the value is not set off from the colon.
                    let t = g.of(&[":foo:x", ":bar:w 1", ":a-b:x: y", ":!foo:x", ":q::"]);
                    s.texts.push(t.to_string());
                    t.to_string()
                } else {
                    text(g, s, false)
                };
                out.push(t);
                out.push(String::new());
            }
            _ => {
                let fence = if out.is_empty() && d == 2 { "====" } else { "****" };
                let fence = if d == 1 { "-----" } else { fence };
                let fence = if fence == "-----" { "_____" } else { fence };
                out.push(fence.into());
                body(g, s, d - 1, out);
                out.push(fence.into());
                out.push(String::new());
            }
        }
    }
}

fn scenario(g: &mut G) -> Scenario {
    let mut s = Scenario {
        src: String::new(),
        parser: Parser::default(),
        st: builtin(),
        refused: vec![],
        entries: vec![],
        texts: vec![],
        unsure: false,
        accepted: 0,
        referenced: 0,
        api: String::new(),
    };
    let k = g.u(4);
    api(g, &mut s, k);
    document(g, &mut s);
    s
}

/// Settings made through the API.
fn api(g: &mut G, s: &mut Scenario, k: usize) {
    let mut p = std::mem::take(&mut s.parser);
    for _ in 0..k {
        let n = g.of(NAMES);
        let (c, m) = g.of(&[(C::Any, M::Anywhere), (C::ApiHeader, M::ApiOrHeader), (C::ApiBody, M::ApiOrDocumentBody), (C::Api, M::ApiOnly)]);
        let written = case(g, n);
        let v = match g.w(&[4, 1, 1]) {
            0 => V::Val(g.of(&["api", "1", "a b", "<i>", "(C)", "", "{foo}"]).to_string()),
            1 => V::Set,
            _ => V::Unset,
        };
        p = match &v {
            V::Val(x) => p.with_intrinsic_attribute(&written, x, m.clone()),
            V::Set => p.with_intrinsic_attribute_bool(&written, true, m.clone()),
            V::Unset => p.with_intrinsic_attribute_bool(&written, false, m.clone()),
        };
        s.api.push_str(&format!("API {written} = {v:?} ({m:?})\n"));
        s.st.insert(n.to_lowercase(), (v, c));
    }
    s.parser = p;
}

/// One more document for the same parser.
fn document(g: &mut G, s: &mut Scenario) {
    s.refused.clear();
    s.entries.clear();
    s.texts.clear();
    s.unsure = false;
    let mut out: Vec<String> = vec![];
    let title = g.p(70);
    let before = if g.p(30) { g.range(1, 2) } else { 0 };
    let head = |g: &mut G, s: &mut Scenario, out: &mut Vec<String>| {
        let e = entry(g, &s.st);
        let ok = apply(&mut s.st, &e, true);
        s.accepted += ok as usize;
        if !ok {
            s.refused.push((e.src.trim_end().to_string(), e.name.clone()));
        }
        s.entries.push((true, e.name.clone(), e.v.clone()));
        out.push(e.src);
    };
    for _ in 0..before {
        head(g, s, &mut out);
    }
    if title {
        out.push("= Title".into());
    }
    for _ in 0..g.u(5) {
        head(g, s, &mut out);
    }
    if title {
        out.push(String::new());
    }
    // Without a title the header runs to the first line that is neither an
    // entry nor blank nor a comment.
    if !title {
        let t = text(g, s, false);
        out.push(String::new());
        out.push(t);
        out.push(String::new());
    }
    body(g, s, 2, &mut out);
    for _ in 0..g.u(3) {
        if g.p(50) {
            let t = text(g, s, true);
            out.push(format!("== {t}"));
            out.push(String::new());
        }
        body(g, s, 1, &mut out);
    }
    s.src = out.join("\n");
}

fn texts(b: &Block<'_>, v: &mut Vec<String>) {
    match b {
        Block::Section(s) => v.push(s.section_title().to_string()),
        Block::Simple(_) => v.push(b.rendered_content().unwrap_or("").to_string()),
        _ => {}
    }
    for n in b.nested_blocks() {
        texts(n, v);
    }
}

fn run(g: &mut G, cx: &mut Cx, perms: bool) -> Outcome {
    let mut s = scenario(g);
    let mut past = String::new();
    let docs = g.w(&[6, 3, 1]) + 1;
    let (mut refused, mut referenced) = (false, false);
    for k in 0..docs {
        if k > 0 {
            // What was set and allowed so far stays that way.
            past = format!("{past}{}{}\n--- next document\n", s.api, s.src);
            s.api.clear();
            let n = if g.p(20) { 1 } else { 0 };
            api(g, &mut s, n);
            document(g, &mut s);
            cx.label("parser used again");
        }
        // With a title but nothing in the body before an entry, that entry still
        // belongs to the body; without a title leading entries are the header's.
        cx.input(format!("{past}{}{}", s.api, s.src));
        refused |= !s.refused.is_empty();
        referenced |= s.referenced > 0 && s.accepted > 0;
        cx.nontrivial(if perms { refused } else { referenced });
        cx.label_if(!s.refused.is_empty(), "refused entry");
        cx.label_if(s.api.len() > 1, "API settings");
        cx.label_if(s.src.contains(" \\\n"), "wrapped value");
        cx.label_if(s.src.contains("+ \\\n"), "hard-wrapped value");
        cx.label_if(s.entries.iter().any(|e| !e.0), "entry in the body");
        judge(&mut s, cx, perms)?;
    }
    Ok(())
}

fn judge(s: &mut Scenario, cx: &mut Cx, perms: bool) -> Outcome {
    let d = s.parser.parse(&s.src);
    if perms {
        let got: Vec<(String, String)> = d
            .warnings()
            .filter_map(|w| {
                let t = format!("{:?}", w.warning);
                let n = t.split("AttributeValueIsLocked(\"").nth(1)?.split('"').next()?.to_string();
                Some((w.source.data().trim_end().to_string(), n))
            })
            .collect();
        ensure_eq!(s.refused, got, "refused entries (source, name) vs. AttributeValueIsLocked warnings");
        for n in NAMES {
            let want = effective(&s.st, n);
            let v = s.parser.attribute_value(n);
            ensure!(same(&want, &v), "after parsing, attribute {n} should be {want:?} but attribute_value() is {v:?}");
            ensure_eq!(s.st.contains_key(*n), s.parser.has_attribute(n), "has_attribute({n})");
            ensure_eq!(matches!(s.st.get(*n), Some((V::Val(_) | V::Set, _))), s.parser.is_attribute_set(n), "is_attribute_set({n})");
        }
        return Ok(());
    }
    let i = s.entries.iter().filter(|e| e.0).count();
    let hd: Vec<_> = d.header().attributes().map(|a| (a.name().data().to_lowercase(), a.value().clone())).collect();
    let bd: Vec<_> = walk::blocks(&d)
        .into_iter()
        .filter_map(|b| match b {
            Block::DocumentAttribute(a) => Some((a.name().data().to_lowercase(), a.value().clone())),
            _ => None,
        })
        .collect();
    ensure_eq!(i, hd.len(), "number of header entries");
    ensure_eq!(s.entries.len(), hd.len() + bd.len(), "number of attribute entries");
    for ((_, name, v), (n, got)) in s.entries.iter().zip(hd.iter().chain(bd.iter())) {
        ensure_eq!(name, n, "entry name");
        ensure!(same(v, got), "value of entry :{name}: should be {v:?} but is {got:?}");
    }
    if s.unsure {
        cx.label("text outside the model");
        return Ok(());
    }
    let mut got = vec![];
    for b in d.nested_blocks() {
        texts(b, &mut got);
    }
    ensure_eq!(s.texts, got, "rendered texts in document order");
    Ok(())
}

fn perm(g: &mut G, cx: &mut Cx) -> Outcome {
    run(g, cx, true)
}
fn vals(g: &mut G, cx: &mut Cx) -> Outcome {
    run(g, cx, false)
}

pub fn permissions() -> Prop {
    Prop {
        id: "C10",
        rule: "at least one entry is refused",
        assumptions: &["Names are drawn from user-defined names and ten built-in ones; values do not end in a backslash or plus sign."],
        families: vec![Family { name: "history", run: perm, quick: 300_000, thorough: 6_000_000 }],
    }
}

pub fn values() -> Prop {
    Prop {
        id: "C11",
        rule: "an entry was accepted and a reference written",
        assumptions: &[
            "References to attributes that are explicitly unset are not generated (the language description leaves their rendering open).",
            "Values that would start a macro, link or anchor are left to other properties.",
        ],
        families: vec![
            Family { name: "history", run: vals, quick: 300_000, thorough: 6_000_000 },
            Family { name: "references", run: super::c14_inline::attr_soup, quick: 300_000, thorough: 6_000_000 },
        ],
    }
}
