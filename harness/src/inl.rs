//! Reference model of the inline substitutions, written from the AsciiDoc
//! description of each step (leftmost match, shortest content, in the fixed
//! order of the normal group).  Deliberately naive: explicit scanning over a
//! char vector, no regular expressions, nothing shared with the crate.

pub fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            c => o.push(c),
        }
    }
    o
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Q {
    Strong,
    Double,
    Single,
    Mono,
    Em,
    Mark,
    Sup,
    Sub,
}

struct Sub {
    q: Q,
    constrained: bool,
    open: &'static str,
    close: &'static str,
}

const SUBS: &[Sub] = &[
    Sub { q: Q::Strong, constrained: false, open: "**", close: "**" },
    Sub { q: Q::Strong, constrained: true, open: "*", close: "*" },
    Sub { q: Q::Double, constrained: true, open: "\"`", close: "`\"" },
    Sub { q: Q::Single, constrained: true, open: "'`", close: "`'" },
    Sub { q: Q::Mono, constrained: false, open: "``", close: "``" },
    Sub { q: Q::Mono, constrained: true, open: "`", close: "`" },
    Sub { q: Q::Em, constrained: false, open: "__", close: "__" },
    Sub { q: Q::Em, constrained: true, open: "_", close: "_" },
    Sub { q: Q::Mark, constrained: false, open: "##", close: "##" },
    Sub { q: Q::Mark, constrained: true, open: "#", close: "#" },
    Sub { q: Q::Sup, constrained: false, open: "^", close: "^" },
    Sub { q: Q::Sub, constrained: false, open: "~", close: "~" },
];

fn at(v: &[char], i: usize, s: &str) -> bool {
    let mut i = i;
    for c in s.chars() {
        if v.get(i) != Some(&c) {
            return false;
        }
        i += 1;
    }
    true
}

/// `[attrs]` at i: (attrs, index after).
fn bracket(v: &[char], i: usize) -> Option<(String, usize)> {
    if v.get(i) != Some(&'[') {
        return None;
    }
    let mut j = i + 1;
    while j < v.len() && v[j] != '[' && v[j] != ']' {
        j += 1;
    }
    if j > i + 1 && v.get(j) == Some(&']') { Some((v[i + 1..j].iter().collect(), j + 1)) } else { None }
}

/// The delimited content after an opening mark: index of the closing mark.
fn closing(v: &[char], start: usize, s: &Sub) -> Option<usize> {
    if start >= v.len() {
        return None;
    }
    let n = s.close.chars().count();
    if s.constrained {
        if v[start].is_whitespace() {
            return None;
        }
        for e in start + 1..v.len() {
            if !v[e - 1].is_whitespace() && at(v, e, s.close) && v.get(e + n).is_none_or(|c| !is_word(*c)) {
                return Some(e);
            }
        }
        None
    } else {
        for e in start + 1..v.len() {
            if matches!(s.q, Q::Sup | Q::Sub) && v[e - 1].is_whitespace() {
                return None;
            }
            if at(v, e, s.close) {
                return Some(e);
            }
        }
        None
    }
}

/// (id, roles) of a formatting-mark attribute list of the simple forms the
/// generators use: `role`, `.r1.r2`, `#id`, `#id.role`, `.role#id`.
pub fn quote_attrs(a: &str) -> (Option<String>, Vec<String>) {
    let mut id = None;
    let mut roles = vec![];
    let mut cur = String::new();
    let mut kind = ' ';
    let flush = |kind: char, cur: &mut String, id: &mut Option<String>, roles: &mut Vec<String>| {
        if !cur.is_empty() {
            match kind {
                '#' => {
                    if id.is_none() {
                        *id = Some(cur.clone())
                    }
                }
                _ => roles.push(cur.clone()),
            }
        }
        cur.clear();
    };
    for c in a.chars() {
        if c == '.' || c == '#' {
            flush(kind, &mut cur, &mut id, &mut roles);
            kind = c;
        } else {
            cur.push(c);
        }
    }
    flush(kind, &mut cur, &mut id, &mut roles);
    (id, roles)
}

pub fn wrap(tag: &str, attrs: Option<&str>, body: &str) -> String {
    let (id, roles) = attrs.map(quote_attrs).unwrap_or_default();
    let mut o = format!("<{tag}");
    if let Some(id) = id {
        o.push_str(&format!(" id=\"{id}\""));
    }
    if !roles.is_empty() {
        o.push_str(&format!(" class=\"{}\"", roles.join(" ")));
    }
    format!("{o}>{body}</{tag}>")
}

pub fn html(q: Q, attrs: Option<&str>, body: &str) -> String {
    match q {
        Q::Strong => wrap("strong", attrs, body),
        Q::Mono => wrap("code", attrs, body),
        Q::Em => wrap("em", attrs, body),
        Q::Sup => wrap("sup", attrs, body),
        Q::Sub => wrap("sub", attrs, body),
        Q::Mark if attrs.is_some() => wrap("span", attrs, body),
        Q::Mark => wrap("mark", None, body),
        Q::Double => format!("&#8220;{body}&#8221;"),
        Q::Single => format!("&#8216;{body}&#8217;"),
    }
}

/// Set when the text contains a construct whose outcome the model does not
/// claim to know (see `monospace followed by quote` in DESIGN.md).
#[derive(Default)]
pub struct Notes {
    pub unsure: bool,
    pub applied: usize,
}

pub fn quotes(s: &str, notes: &mut Notes) -> String {
    if !s.contains(['*', '_', '`', '#', '^', '~']) {
        return s.to_string();
    }
    let mut text: Vec<char> = s.chars().collect();
    for sub in SUBS {
        let mut out = String::new();
        let mut i = 0;
        'scan: while i < text.len() {
            if let Some((o, next)) = match_at(&text, i, sub, notes) {
                out.push_str(&o);
                i = next;
                continue 'scan;
            }
            out.push(text[i]);
            i += 1;
        }
        text = out.chars().collect();
    }
    text.into_iter().collect()
}

fn match_at(v: &[char], i: usize, s: &Sub, notes: &mut Notes) -> Option<(String, usize)> {
    let n_open = s.open.chars().count();
    let n_close = s.close.chars().count();
    if s.constrained {
        // Either at the very start, or after a character that is not a word
        // character and not one of & ; : } (monospace: nor " ' `).
        let mut starts = vec![];
        if i == 0 {
            starts.push((None, 0));
        }
        let p = v[i];
        let bad = is_word(p) || "&;:}".contains(p) || (s.q == Q::Mono && "\"'`".contains(p));
        if !bad {
            starts.push((Some(p), i + 1));
        }
        for (prefix, j) in starts {
            let cands: Vec<(Option<String>, usize)> = match bracket(v, j) {
                Some((a, k)) => vec![(Some(a), k), (None, j)],
                None => vec![(None, j)],
            };
            for (attrs, k) in cands {
                if !at(v, k, s.open) {
                    continue;
                }
                let Some(e) = closing(v, k + n_open, s) else { continue };
                let after = e + n_close;
                if s.q == Q::Mono && v.get(after).is_some_and(|c| "\"'`".contains(*c)) {
                    notes.unsure = true;
                }
                let body: String = v[k + n_open..e].iter().collect();
                let all: String = v[i..after].iter().collect();
                notes.applied += 1;
                if prefix == Some('\\') {
                    return Some(match attrs {
                        Some(a) => (format!("[{a}]{}", html(s.q, None, &body)), after),
                        None => (all[1..].to_string(), after),
                    });
                }
                let mut o = String::new();
                if let Some(p) = prefix {
                    o.push(p);
                }
                o.push_str(&html(s.q, attrs.as_deref(), &body));
                return Some((o, after));
            }
        }
        None
    } else {
        let mut starts = vec![];
        if v[i] == '\\' {
            starts.push((true, i + 1));
        }
        starts.push((false, i));
        for (esc, j) in starts {
            let cands: Vec<(Option<String>, usize)> = match bracket(v, j) {
                Some((a, k)) => vec![(Some(a), k), (None, j)],
                None => vec![(None, j)],
            };
            for (attrs, k) in cands {
                if !at(v, k, s.open) {
                    continue;
                }
                let Some(e) = closing(v, k + n_open, s) else { continue };
                let after = e + n_close;
                let body: String = v[k + n_open..e].iter().collect();
                notes.applied += 1;
                if esc {
                    return Some((v[i + 1..after].iter().collect(), after));
                }
                return Some((html(s.q, attrs.as_deref(), &body), after));
            }
        }
        None
    }
}

/// `lookup`: None = not defined (left alone), Some(v) = replaced by v.
pub fn attributes(s: &str, lookup: &dyn Fn(&str) -> Option<String>) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        let esc = v[i] == '\\';
        let j = i + esc as usize;
        if v.get(j) == Some(&'{') {
            let mut k = j + 1;
            while k < v.len() && (v[k].is_ascii_alphanumeric() || v[k] == '_' || (v[k] == '-' && k > j + 1)) {
                k += 1;
            }
            if k > j + 1 && v.get(k) == Some(&'}') {
                let name: String = v[j + 1..k].iter().collect();
                let whole: String = v[j..=k].iter().collect();
                match lookup(&name) {
                    None => {
                        if esc {
                            o.push('\\');
                        }
                        o.push_str(&whole)
                    }
                    Some(_) if esc => o.push_str(&whole),
                    Some(val) => o.push_str(&val),
                }
                i = k + 1;
                continue;
            }
        }
        o.push(v[i]);
        i += 1;
    }
    o
}

fn lit(s: &str, pat: &str, to: &str, n: &mut Notes) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    let len = pat.chars().count();
    while i < v.len() {
        if v[i] == '\\' && at(&v, i + 1, pat) {
            o.push_str(pat);
            n.applied += 1;
            i += 1 + len;
        } else if at(&v, i, pat) {
            o.push_str(to);
            n.applied += 1;
            i += len;
        } else {
            o.push(v[i]);
            i += 1;
        }
    }
    o
}

pub fn replacements(s: &str, n: &mut Notes) -> String {
    let s = lit(s, "(C)", "&#169;", n);
    let s = lit(&s, "(R)", "&#174;", n);
    let s = lit(&s, "(TM)", "&#8482;", n);
    let s = dash_spaced(&s, n);
    let s = dash_word(&s, n);
    let s = lit(&s, "...", "&#8230;&#8203;", n);
    let s = lit(&s, "`'", "&#8217;", n);
    let s = apostrophe(&s, n);
    let s = lit(&s, "-&gt;", "&#8594;", n);
    let s = lit(&s, "=&gt;", "&#8658;", n);
    let s = lit(&s, "&lt;-", "&#8592;", n);
    let s = lit(&s, "&lt;=", "&#8656;", n);
    entities(&s, n)
}

fn dash_spaced(s: &str, n: &mut Notes) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        let lead: Option<usize> = if (c == ' ' || c == '\n' || c == '\\') && at(&v, i + 1, "--") {
            Some(1)
        } else if i == 0 && at(&v, 0, "--") {
            Some(0)
        } else {
            None
        };
        if let Some(l) = lead {
            let e = i + l + 2;
            let tail = match v.get(e) {
                None => Some(0),
                Some(' ') | Some('\n') => Some(1),
                _ => None,
            };
            if let Some(t) = tail {
                n.applied += 1;
                if l == 1 && c == '\\' {
                    o.extend(&v[i + 1..e + t]);
                } else {
                    o.push_str("&#8201;&#8212;&#8201;");
                }
                i = e + t;
                continue;
            }
        }
        o.push(c);
        i += 1;
    }
    o
}

fn dash_word(s: &str, n: &mut Notes) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if is_word(c) {
            let esc = v.get(i + 1) == Some(&'\\');
            let j = i + 1 + esc as usize;
            if at(&v, j, "--") {
                let next = v.get(j + 2);
                // "Between a word character and a line boundary" counts, too.
                if next.is_none_or(|c| *c == '\n' || is_word(*c)) {
                    n.applied += 1;
                    o.push(c);
                    o.push_str(if esc { "--" } else { "&#8212;&#8203;" });
                    i = j + 2;
                    continue;
                }
            }
        }
        o.push(c);
        i += 1;
    }
    o
}

fn apostrophe(s: &str, n: &mut Notes) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if c.is_alphanumeric() {
            let esc = v.get(i + 1) == Some(&'\\');
            let j = i + 1 + esc as usize;
            if v.get(j) == Some(&'\'') && v.get(j + 1).is_some_and(|c| c.is_alphabetic()) {
                n.applied += 1;
                o.push(c);
                o.push_str(if esc { "'" } else { "&#8217;" });
                i = j + 1;
                continue;
            }
        }
        o.push(c);
        i += 1;
    }
    o
}

/// `name`, `#123` or `#x1F` of a character reference (without `&` and `;`).
pub fn is_char_ref(body: &str) -> bool {
    let b: Vec<char> = body.chars().collect();
    if b.first() == Some(&'#') {
        if b.get(1) == Some(&'x') {
            let h = &b[2..];
            (2..=5).contains(&h.len()) && h.iter().all(|c| c.is_ascii_hexdigit())
        } else {
            let d = &b[1..];
            (2..=6).contains(&d.len()) && d.iter().all(|c| c.is_ascii_digit())
        }
    } else {
        let letters = b.iter().take_while(|c| c.is_ascii_alphabetic()).count();
        let digits = b.len() - letters;
        letters >= 2 && digits <= 2 && b[letters..].iter().all(|c| c.is_ascii_digit())
    }
}

fn entities(s: &str, n: &mut Notes) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        let esc = v[i] == '\\';
        let j = i + esc as usize;
        if at(&v, j, "&amp;") {
            let b = j + 5;
            let mut e = b;
            while e < v.len() && (v[e].is_ascii_alphanumeric() || v[e] == '#') {
                e += 1;
            }
            let body: String = v[b..e].iter().collect();
            if v.get(e) == Some(&';') && is_char_ref(&body) {
                n.applied += 1;
                if esc {
                    o.push_str(&format!("&amp;{body};"));
                } else {
                    o.push_str(&format!("&{body};"));
                }
                i = e + 1;
                continue;
            }
        }
        o.push(v[i]);
        i += 1;
    }
    o
}

/// ` +` at the end of a line that is followed by another line.
pub fn line_breaks(s: &str, hard: bool) -> String {
    if !s.contains('\n') {
        return s.to_string();
    }
    let lines: Vec<&str> = s.split('\n').collect();
    let last = lines.len() - 1;
    lines
        .iter()
        .enumerate()
        .map(|(i, l)| {
            if hard {
                if i == last { l.to_string() } else { format!("{}<br>", l.strip_suffix(" +").unwrap_or(l)) }
            } else if let Some(b) = l.strip_suffix(" +") {
                format!("{b}<br>")
            } else {
                l.to_string()
            }
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Normal group without macros and passthroughs (generators must not produce
/// either).
pub fn normal(s: &str, lookup: &dyn Fn(&str) -> Option<String>, n: &mut Notes) -> String {
    let s = escape(s);
    let s = quotes(&s, n);
    let s = attributes(&s, lookup);
    let s = if s.contains(['&', '\'']) || s.contains("--") || s.contains("...") || s.contains('(') {
        replacements(&s, n)
    } else {
        s
    };
    line_breaks(&s, false)
}

/// One named substitution step.
pub fn step(s: &str, name: char, lookup: &dyn Fn(&str) -> Option<String>, n: &mut Notes) -> String {
    match name {
        'c' => escape(s),
        'q' => quotes(s, n),
        'a' => attributes(s, lookup),
        'r' => replacements(s, n),
        'p' => line_breaks(s, false),
        // Macros: texts given to the model hold none.
        _ => s.to_string(),
    }
}

pub fn steps(s: &str, names: &str, lookup: &dyn Fn(&str) -> Option<String>, n: &mut Notes) -> String {
    names.chars().fold(s.to_string(), |s, c| step(&s, c, lookup, n))
}
