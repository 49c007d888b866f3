//! C24: the substitutions of a block are the ones its kind and its `subs`
//! attribute name, in that order.  C25: hard line breaks.

use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
    parser::ModificationContext,
};

use crate::{ctx, engine::*, inl, walk};

const VARS: &[(&str, &str)] = &[("val", "value"), ("st", "*not bold*"), ("amp", "a & b"), ("c", "(C)")];

fn lookup(n: &str) -> Option<String> {
    VARS.iter().find(|(k, _)| *k == n).map(|(_, v)| v.to_string())
}

fn parser() -> Parser {
    VARS.iter().fold(Parser::default(), |p, (k, v)| p.with_intrinsic_attribute(*k, *v, ModificationContext::Anywhere))
}

const PIECES: &[&str] = &[
    "word", "a", "x < y", "p > q", "R & D", "*bold*", "_em_", "`code`", "#hl#", "**un**x", "2^nd^", "{val}", "{st}", "{amp}", "{c}", "{nope}", "(C)", "(TM)", "wait...", "a--b", "x -- y", "it's", "->", "<=", "&lt;", "&#167;", "\\*no*", "\\{val}", "\\(C)", "*a < b*", "_{val}_", "[r]#x#", "caf\u{e9}",
    "link:u[T]", "+++<x>*y*+++", "pass:[<b>{val}]", "[.a.b]*x*",
];

const STEPS: &[(char, &[&str])] = &[
    ('c', &["specialchars", "specialcharacters", "c"]),
    ('q', &["quotes", "q"]),
    ('a', &["attributes", "a"]),
    ('r', &["replacements", "r"]),
    ('m', &["macros", "m"]),
    ('p', &["post_replacements", "p"]),
];
const NORMAL: &str = "cqarmp";

/// A `subs` value and the steps it leads to from `default`; `None` value for
/// no attribute.
fn subs(g: &mut G, default: &str) -> (Option<String>, String) {
    let name = |g: &mut G, c: char| -> &'static str {
        let v = STEPS.iter().find(|s| s.0 == c).unwrap().1;
        g.of(v)
    };
    let mut left: Vec<char> = NORMAL.chars().collect();
    match g.w(&[2, 4, 4, 3, 2, 1]) {
        0 => (None, default.into()),
        // A list in any order.
        1 => {
            let n = g.range(1, 4);
            let mut v = vec![];
            let mut out = String::new();
            for _ in 0..n {
                let c = left.remove(g.u(left.len()));
                v.push(name(g, c).to_string());
                out.push(c);
            }
            (Some(v.join(g.of(&[",", ", ", " , "]))), out)
        }
        // Changes to the default list.
        2 => {
            let n = g.range(1, 4);
            let mut cur: Vec<char> = default.chars().collect();
            let mut v = vec![];
            for _ in 0..n {
                let has = cur.clone();
                let k = g.u(3);
                if k == 0 && !has.is_empty() {
                    let c = has[g.u(has.len())];
                    cur.retain(|x| *x != c);
                    v.push(format!("-{}", name(g, c)));
                } else {
                    // A step may come twice.
                    let again = g.p(20);
                    let cand: Vec<char> = NORMAL.chars().filter(|c| again || !cur.contains(c)).collect();
                    if cand.is_empty() {
                        continue;
                    }
                    let c = cand[g.u(cand.len())];
                    if k == 1 {
                        cur.push(c);
                        v.push(format!("+{}", name(g, c)));
                    } else {
                        cur.insert(0, c);
                        v.push(format!("{}+", name(g, c)));
                    }
                }
            }
            if v.is_empty() {
                v.push("-quotes".into());
                cur.retain(|x| *x != 'q');
            }
            (Some(v.join(",")), cur.into_iter().collect())
        }
        3 => {
            let (w, s) = g.of(&[("none", ""), ("normal", NORMAL), ("n", NORMAL), ("verbatim", "c"), ("v", "c")]);
            (Some(w.into()), s.into())
        }
        // A group, and changes to it.
        4 => {
            let (w, s) = g.of(&[("normal", NORMAL), ("n", NORMAL), ("verbatim", "c"), ("v", "c")]);
            let mut cur: Vec<char> = s.chars().collect();
            let mut v = vec![w.to_string()];
            for _ in 0..g.range(1, 3) {
                let c = g.of(&['c', 'q', 'a', 'r', 'm', 'p']);
                let has = cur.contains(&c);
                match g.u(4) {
                    0 if has => {
                        cur.retain(|x| *x != c);
                        v.push(format!("-{}", name(g, c)));
                    }
                    1 if !has => {
                        cur.insert(0, c);
                        v.push(format!("{}+", name(g, c)));
                    }
                    2 if !has => {
                        cur.push(c);
                        v.push(format!("+{}", name(g, c)));
                    }
                    3 if !has => {
                        cur.push(c);
                        v.push(name(g, c).to_string());
                    }
                    _ => {
                        cur.retain(|x| *x != c);
                        v.push(format!("-{}", name(g, c)));
                    }
                }
            }
            (Some(v.join(g.of(&[",", ", "]))), cur.into_iter().collect())
        }
        // Not a list of substitutions: no effect.
        _ => (Some(g.of(&["bogus", "quotes,bogus", "-bogus", "attribute"]).into()), default.into()),
    }
}

fn apply(text: &str, names: &str, n: &mut inl::Notes) -> String {
    let macros = names.contains('m');
    let mut s = text.to_string();
    // Passthroughs are taken out first, if there are macros.
    let holes: &[(&str, &str, &str)] = &[("+++<x>*y*+++", "<x>*y*", "\u{E000}"), ("pass:[<b>{val}]", "<b>{val}", "\u{E001}")];
    if macros {
        for (w, _, h) in holes {
            s = s.replace(w, h);
        }
    }
    for c in names.chars() {
        s = if c == 'm' { s.replace("link:u[T]", "<a href=\"u\">T</a>") } else { inl::step(&s, c, &lookup, n) };
    }
    for (_, o, h) in holes {
        s = s.replace(h, o);
    }
    s
}

const WRAP: &[(&str, &str)] = &[("", ""), ("====\n", "\n===="), ("[subs=none]\n****\n", "\n****"), ("== S\n\n", ""), ("[subs=\"quotes\"]\nother\n\n", ""), ("--\n", "\n\nmore\n--")];

fn groups(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut lines: Vec<String> = vec![];
    for _ in 0..g.range(1, 3) {
        let mut l = g.list(1, 4, |g| g.of(PIECES)).join(g.of(&[" ", " ", ", "]));
        if g.p(20) {
            l.push_str(" +");
        }
        lines.push(l);
    }
    if lines.last().is_some_and(|l| l.ends_with(" +")) {
        let l = lines.last_mut().unwrap();
        l.truncate(l.len() - 2);
    }
    if lines.iter().any(|l| !ctx::plain_line(l)) {
        lines.insert(0, "w".into());
        for l in lines.iter_mut() {
            if l.starts_with('[') {
                *l = format!("w {l}");
            }
        }
    }
    let text = lines.join("\n");
    let kind = g.w(&[5, 2, 2, 2, 1, 1]);
    let (delim, default, style) = match kind {
        0 => ("", NORMAL, ""),
        1 => ("----", "c", ""),
        2 => ("....", "c", ""),
        3 => ("++++", "", ""),
        4 => ("----", "c", "source,ruby"),
        _ => ("", "", "pass"),
    };
    let (value, names) = subs(g, default);
    let mut list = style.to_string();
    if let Some(v) = &value {
        if !list.is_empty() {
            list.push(',');
        }
        list.push_str(&if v.contains([',', ' ']) || g.p(30) { format!("subs=\"{v}\"") } else { format!("subs={v}") });
    }
    let (pre, post) = g.of(WRAP);
    let at = if list.is_empty() { String::new() } else { format!("[{list}]\n") };
    // Without the closing delimiter, to the end of what is around it.
    let open = !delim.is_empty() && !post.contains("more") && g.p(20);
    let body = if delim.is_empty() {
        text.clone()
    } else if open {
        format!("{delim}\n{text}")
    } else { format!("{delim}\n{text}\n{delim}") };
    let src = format!("{pre}{at}{body}{post}");
    cx.input(src.clone());
    cx.nontrivial(value.is_some());
    let mut n = inl::Notes::default();
    let want = apply(&text, &names, &mut n);
    if n.unsure {
        cx.label("outside the model");
        return Ok(());
    }
    cx.label_if(names.contains('m'), "macros");
    let mut p = parser();
    let doc = p.parse(&src);
    let all = walk::blocks(&doc);
    let b = all.iter().find(|b| {
        let d = match b {
            Block::Simple(s) => s.content().original().data(),
            Block::RawDelimited(s) => s.content().original().data(),
            _ => return false,
        };
        d == text
    });
    let Some(b) = b else { return Err(format!("no block has the text in {src:?}")) };
    ensure_eq!(want, b.rendered_content().unwrap_or("<none>").to_string(), "substitutions {names:?} in {src:?}");
    Ok(())
}

// --------------------------------------------------------------- C25 --------

fn hard(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut src = String::new();
    let mut p = parser();
    let mut on = false;
    let titled = g.p(40);
    if g.p(15) {
        p = p.with_intrinsic_attribute_bool(g.of(&["hardbreaks", "hardbreaks-option"]), true, ModificationContext::Anywhere);
        on = true;
    }
    if titled {
        src.push_str("= Doc\n");
        if g.p(30) {
            src.push_str(g.of(&[":hardbreaks:\n", ":hardbreaks-option:\n"]));
            on = true;
        }
        src.push('\n');
    } else {
        src.push_str("first\n\n");
    }
    let mut want: Vec<String> = vec![];
    let mut n = inl::Notes::default();
    let mut breaks = 0;
    for _ in 0..g.range(1, 4) {
        match g.w(&[6, 2, 1]) {
            1 => {
                on = g.p(50);
                src.push_str(if on { g.of(&[":hardbreaks:\n\n", ":hardbreaks-option:\n\n"]) } else { g.of(&[":!hardbreaks:\n\n", ":hardbreaks-option!:\n\n"]) });
                continue;
            }
            2 => {
                // No hard breaks in verbatim text.
                let t = g.of(&["a\nb +\nc", "a +\nb"]);
                src.push_str(&format!("{}----\n{t}\n----\n\n", if g.p(50) { "[%hardbreaks]\n" } else { "" }));
                want.push(t.to_string());
                continue;
            }
            _ => {}
        }
        let opt = g.p(30);
        let at = if opt { g.of(&["[%hardbreaks]\n", "[.r%hardbreaks%x]\n", "[options=hardbreaks]\n", "[opts=\"x,hardbreaks\"]\n", "[#i%hardbreaks,a=b]\n"]) } else { g.of(&["", "", "[.r]\n", "[%x]\n", "[opts=hardbreak]\n"]) };
        let wrap = g.of(&["", "", "", "====", "--"]);
        let mut text: Vec<String> = vec![];
        let mut written = String::new();
        let k = g.range(1, 4);
        for i in 0..k {
            let mut l = g.of(&["foo", "two words", "*b* x", "a & b", "a +b", "x + y", "caf\u{e9}", "{val}", "1 + 1"]).to_string();
            if g.p(if i + 1 < k { 35 } else { 12 }) {
                // The first break goes, what looks like a second stays.
                l.push_str(g.of(&[" +", " +", " +", " +", " + +", "  +", " \t +", " + + +", "\t+"]));
                breaks += usize::from(l.ends_with(" +") && k > 1);
            }
            written.push_str(&l);
            if g.p(10) {
                written.push_str("  ");
            }
            written.push('\n');
            if g.p(8) {
                written.push_str("// comment +\n");
            }
            text.push(l);
        }
        let title = if g.p(15) { ".Title +\n" } else { "" };
        src.push_str(&if wrap.is_empty() { format!("{title}{at}{written}\n") } else { format!("{wrap}\n{title}{at}{written}{wrap}\n\n") });
        let s = text.join("\n");
        let s = inl::escape(&s);
        let s = inl::quotes(&s, &mut n);
        let s = inl::attributes(&s, &lookup);
        let s = inl::replacements(&s, &mut n);
        if on || opt {
            breaks += k - 1;
        }
        want.push(inl::line_breaks(&s, on || opt));
    }
    cx.input(src.clone());
    cx.nontrivial(breaks > 0);
    let doc = p.parse(&src);
    let all = walk::blocks(&doc);
    let mut got: Vec<&str> = all.iter().filter(|b| matches!(b, Block::Simple(_) | Block::RawDelimited(_))).map(|b| b.rendered_content().unwrap_or("<none>")).collect();
    if !titled {
        got.remove(0);
    }
    ensure_eq!(want.len(), got.len(), "blocks in {src:?}");
    for (w, x) in want.iter().zip(&got) {
        ensure_eq!(w.as_str(), *x, "line breaks in {src:?}");
    }
    Ok(())
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "the block has a subs attribute",
        assumptions: &["No step is named twice, and a list is either incremental throughout or not at all."],
        families: vec![Family { name: "groups", run: groups, quick: 300_000, thorough: 6_000_000 }],
    }
}

pub fn c25() -> Prop {
    Prop { id: "C25", rule: "at least one hard line break is expected", assumptions: &[], families: vec![Family { name: "hard", run: hard, quick: 200_000, thorough: 4_000_000 }] }
}
