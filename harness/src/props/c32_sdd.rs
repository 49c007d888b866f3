//! C32: the spec-coverage tool reports, for every specification page, each
//! line once, with the state its tests give it.

use std::{collections::BTreeMap, fs, path::PathBuf, process::Command};

use crate::{engine::*, json::J};

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

const LINES: &[&str] = &[
    "", "", "", "= Title", "== Section", "Some text.", "a line with \"quotes\"# and \\ backslash", "----", " ", "  indented", "* item", "[#id]", "include::example$x.adoc[]", "// verifies nothing", "non_normative!", "\u{e9}\u{5c71}", "r#\"x",
    "{\"1\": 0}", "verifies! (x)", "\"", "track_file!(x)", "pub fn x()", "#\"", "\"x\"#",
];

fn line(g: &mut G) -> String {
    if g.p(15) { format!("line {}", g.u(50)) } else { g.of(LINES).to_string() }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Not,
    Yes,
    Todo,
}

/// The marker block for some lines.
fn marked(g: &mut G, s: S, lines: &[String]) -> String {
    let m = match s {
        S::Not => "non_normative!(",
        S::Yes => "verifies!(",
        S::Todo => "to_do_verifies!(",
    };
    let i = g.of(&["", "    ", "        "]);
    let h = if g.p(20) { "##" } else { "#" };
    let mut o = format!("{i}{m}\n{i}    r{h}\"\n");
    for l in lines {
        o += l;
        o.push('\n');
    }
    o + &format!("\"{h}\n{i});\n")
}

const CODE: &[&str] = &[
    "\n", "use crate::tests::prelude::*;\n", "#[test]\nfn x() {\n", "}\n", "    assert_eq!(a, b);\n", "    let x = r#\"text\"#;\n", "    // a comment\n", "mod y {\n", "    let d = Parser::default().parse(\"Some text.\");\n",
];

/// One `.rs` file tracking a page, and the lines it gives states to.
fn rs(g: &mut G, page: &str, adoc: &[String]) -> (String, Vec<(String, S)>) {
    let mut o = String::from("use crate::tests::prelude::*;\n\n");
    let mut cov = vec![];
    let early = g.p(85);
    let track = format!("track_file!(\"{page}\");\n");
    if early {
        o += &track;
    }
    let upto = if g.p(30) { g.u(adoc.len() + 1) } else { adoc.len() };
    let mut i = 0;
    while i < upto {
        let n = g.range(1, 4).min(upto - i);
        let s = g.of(&[S::Yes, S::Not, S::Todo]);
        let mut ls: Vec<String> = adoc[i..i + n].to_vec();
        i += n;
        // The page changed since, or the copy is wrong.
        if g.p(12) {
            let k = g.u(ls.len());
            match g.u(4) {
                0 => ls[k] = line(g),
                1 => ls[k].push(' '),
                2 => ls.insert(k, line(g)),
                _ => {
                    ls.remove(k);
                }
            }
        }
        o += &marked(g, s, &ls);
        cov.extend(ls.into_iter().map(|l| (l, s)));
        for _ in 0..g.u(3) {
            o += g.of(CODE);
        }
    }
    if g.p(10) {
        let extra = g.list(1, 3, line);
        o += &marked(g, S::Yes, &extra);
        cov.extend(extra.into_iter().map(|l| (l, S::Yes)));
    }
    if !early {
        o += &track;
    }
    (o, cov)
}

const DIRS: &[&str] = &["ROOT/pages", "blocks/pages", "blocks/partials", "x.y", "a/b/c/d", ".hidden/pages", "ROOT/.git"];
const NAMES: &[&str] = &["index.adoc", "nav-a.adoc", "a b.adoc", "caf\u{e9}.adoc", ".index.adoc", "x.txt", "y.adoc.bak", "adoc", "z.adoc", "q\"q.adoc"];

fn case(g: &mut G, cx: &mut Cx) -> Outcome {
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    let mut want: BTreeMap<String, J> = BTreeMap::new();
    let mut states = [0usize; 3];
    let n = g.range(1, 4);
    for k in 0..n {
        let (d, f) = if k == 0 { ("ROOT/pages", "index.adoc") } else { (g.of(DIRS), g.of(NAMES)) };
        let page = format!("docs/modules/{d}/{f}");
        if files.contains_key(&page) {
            continue;
        }
        let lines = g.list(0, 14, line);
        let nl = g.of(&["\n", "\n", "\r\n"]);
        let mut src = lines.join(nl);
        if !lines.is_empty() && (g.p(80) || lines.last().is_some_and(|l| l.is_empty())) {
            src += nl;
        }
        files.insert(page.clone(), src);
        let mut cov: Vec<(String, S)> = vec![];
        if g.p(80) {
            let (text, c) = rs(g, &page, &lines);
            let f = match g.u(8) {
                // These are not read.
                0 => g.of(&[".x{}.rs", ".d/x{}.rs", "x{}.txt", "x{}.rs.orig", "x{}rs"]),
                1 => "a/b/x{}.rs",
                2 => "x{}.tests.rs",
                3 => "blocks/caf\u{e9}{}.rs",
                _ => "x{}.rs",
            };
            let read = f.ends_with(".rs") && !f.starts_with('.');
            files.insert(format!("parser/src/tests/{}", f.replace("{}", &k.to_string())), text);
            if read {
                cov = c;
            }
        }
        if f.starts_with('.') || d.contains("/.") || d.starts_with('.') || !f.ends_with(".adoc") {
            continue;
        }
        let mut m = BTreeMap::new();
        for (i, l) in lines.iter().enumerate() {
            if l.is_empty() {
                continue;
            }
            let v = match cov.get(i) {
                None => Some(0.0),
                Some((c, S::Yes)) if c == l => Some(1.0),
                Some((c, S::Todo)) if c == l => Some(0.0),
                _ => None,
            };
            if let Some((_, s)) = cov.get(i) {
                states[*s as usize] += 1;
            }
            if let Some(v) = v {
                m.insert((i + 1).to_string(), J::Num(v));
            }
        }
        want.insert(page, J::Obj(m));
    }
    if g.p(20) {
        let (text, _) = rs(g, "docs/modules/none/none.adoc", &["x".into(), "y".into()]);
        files.insert("parser/src/tests/none.rs".into(), text);
    }
    if g.p(20) {
        // Markers without a page are not used.
        let t = marked(g, S::Yes, &["x".into()]);
        files.insert("parser/src/tests/untracked.rs".into(), t);
    }
    cx.input(files.iter().map(|(k, v)| format!("=== {k}\n{v}")).collect::<Vec<_>>().join("\n"));
    cx.nontrivial(states[S::Yes as usize] > 0 && states[S::Not as usize] > 0);
    cx.label_if(states[S::Todo as usize] > 0, "to do");
    let s = Scratch(std::env::temp_dir().join(format!("vp-sdd-{}-{:x}", std::process::id(), hash_str(&cx.input))));
    for d in ["sdd", "parser/src/tests", "docs/modules"] {
        fs::create_dir_all(s.0.join(d)).map_err(|e| e.to_string())?;
    }
    for (k, v) in &files {
        let p = s.0.join(k);
        fs::create_dir_all(p.parent().unwrap()).map_err(|e| e.to_string())?;
        fs::write(p, v).map_err(|e| e.to_string())?;
    }
    let o = Command::new(concat!(env!("CARGO_MANIFEST_DIR"), "/target/release/sdd")).current_dir(s.0.join("sdd")).output().map_err(|e| format!("sdd: {e}"))?;
    ensure!(o.status.success(), "the tool fails: {}", String::from_utf8_lossy(&o.stderr));
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let j = J::parse(&out).map_err(|e| format!("the report is not JSON: {e}\n{out}"))?;
    let J::Obj(top) = &j else { return Err("the report is no object".into()) };
    ensure!(top.len() == 1, "the report has {} parts", top.len());
    let Some(J::Obj(got)) = j.get("coverage") else { return Err("no coverage".into()) };
    ensure_eq!(want.keys().collect::<Vec<_>>(), got.keys().collect::<Vec<_>>(), "the pages reported");
    for (p, w) in &want {
        ensure_eq!(*w, got[p], "the lines of {p}");
    }
    // No page and no line twice.
    let keys = 1 + want.len() + want.values().map(|w| if let J::Obj(o) = w { o.len() } else { 0 }).sum::<usize>();
    ensure_eq!(keys, out.lines().filter(|l| l.trim_start().starts_with('"')).count(), "the number of keys in the report");
    Ok(())
}

/// A test file that tracks two pages is refused.
fn double(g: &mut G, cx: &mut Cx) -> Outcome {
    let (mut t, _) = rs(g, "docs/modules/a.adoc", &["x".into(), "y".into()]);
    let second = g.of(&["docs/modules/a.adoc", "docs/modules/b.adoc"]);
    let (u, _) = rs(g, second, &["x".into()]);
    t += &u;
    cx.input(t.clone());
    cx.nontrivial(true);
    let s = Scratch(std::env::temp_dir().join(format!("vp-sdd-{}-{:x}", std::process::id(), hash_str(&cx.input))));
    for d in ["sdd", "parser/src/tests", "docs/modules"] {
        fs::create_dir_all(s.0.join(d)).map_err(|e| e.to_string())?;
    }
    fs::write(s.0.join("docs/modules/a.adoc"), "x\ny\n").map_err(|e| e.to_string())?;
    fs::write(s.0.join("parser/src/tests/x.rs"), t).map_err(|e| e.to_string())?;
    let o = Command::new(concat!(env!("CARGO_MANIFEST_DIR"), "/target/release/sdd")).current_dir(s.0.join("sdd")).output().map_err(|e| format!("sdd: {e}"))?;
    ensure!(!o.status.success(), "a test file that tracks two pages is accepted");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C32",
        rule: "report: some tracked page has both verified and non-normative lines; double: always",
        assumptions: &[
            "the markers are written as the repository writes them: the macro's opening, the opening of the raw string and its end each on a line of their own, the end in the first column",
            "one test file tracks a page (the tool keeps one of several, in directory order)",
        ],
        families: vec![Family { name: "report", run: case, quick: 12_000, thorough: 300_000 }, Family { name: "double", run: double, quick: 400, thorough: 8_000 }],
    }
}
