//! C26: what a document means does not depend on line ends, trailing spaces or
//! the number of blank lines.

use asciidoc_parser::Parser;

use crate::{docgen, engine::*, gens, sem};

/// Document lines: soup or a generated tree, without carriage returns.
fn lines(g: &mut G) -> Vec<String> {
    if g.p(30) {
        let d = docgen::doc(g, &docgen::Cfg::default());
        let w = docgen::write_doc(g, &d);
        return w.src.replace('\r', "").split('\n').map(str::to_string).collect();
    }
    let mut v: Vec<String> = vec![];
    for l in g.list(1, 12, gens::line_soup) {
        v.extend(l.replace('\r', "").split('\n').map(str::to_string));
    }
    v
}

fn sources(ls: &[String]) -> bool {
    let n = ls.iter().filter(|l| !l.trim().is_empty()).count();
    n >= 2
}

fn compare(a: &str, b: &str, v: sem::View) -> Outcome {
    let (mut p, mut q) = (Parser::default(), Parser::default());
    let (d, e) = (p.parse(a), q.parse(b));
    if let Some(m) = sem::diff(&sem::all(v, &d), &sem::all(v, &e)) {
        return Err(format!("{m}\n  for {a:?}\n  and {b:?}"));
    }
    Ok(())
}

fn eol(g: &mut G, cx: &mut Cx) -> Outcome {
    let ls = lines(g);
    let (a, b) = (ls.join("\n"), ls.join("\r\n"));
    cx.input(a.clone());
    cx.nontrivial(sources(&ls));
    compare(&a, &b, sem::View { trim: true, blank: false, line: Some(0), spans: true })
}

fn trailing(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut ls = lines(g);
    for l in ls.iter_mut() {
        let n = l.trim_end().len();
        l.truncate(n);
    }
    let with: Vec<String> = ls.iter().map(|l| format!("{l}{}", g.of(&["", "", " ", "   "]))).collect();
    let (a, b) = (ls.join("\n"), with.join("\n"));
    cx.input(b.clone());
    cx.nontrivial(sources(&ls) && a != b);
    compare(&a, &b, sem::View { trim: true, blank: false, line: Some(0), spans: true })
}

fn blanks(g: &mut G, cx: &mut Cx) -> Outcome {
    let ls = lines(g);
    let mut more: Vec<String> = vec![];
    let blank = |g: &mut G| g.of(&["", "", "  ", " "]).to_string();
    for _ in 0..g.w(&[3, 1, 1]) {
        more.push(blank(g));
    }
    for l in &ls {
        // An empty line may also be the continuation of an attribute entry.
        if l.trim_matches(' ').is_empty() && !more.last().is_some_and(|l| l.trim_end().ends_with('\\')) {
            for _ in 0..g.u(3) {
                more.push(blank(g));
            }
        }
        more.push(l.clone());
    }
    for _ in 0..g.u(3) {
        more.push(blank(g));
    }
    let (a, b) = (ls.join("\n"), more.join("\n"));
    cx.input(b.clone());
    cx.nontrivial(sources(&ls) && ls.len() != more.len());
    compare(&a, &b, sem::View { trim: true, blank: true, line: None, spans: false })
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "at least two lines that are not blank, and the two layouts differ",
        assumptions: &[],
        families: vec![
            Family { name: "eol", run: eol, quick: 150_000, thorough: 3_000_000 },
            Family { name: "trailing", run: trailing, quick: 150_000, thorough: 3_000_000 },
            Family { name: "blanks", run: blanks, quick: 150_000, thorough: 3_000_000 },
        ],
    }
}
