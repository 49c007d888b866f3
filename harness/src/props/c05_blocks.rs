//! C05: block structure — a tree of blocks written out in any equivalent way
//! is read back as that tree.

use asciidoc_parser::Parser;

use crate::{docgen::*, engine::*};

pub fn check(src: &str, want: &[D], cx: &mut Cx) -> Outcome {
    let mut p = Parser::default();
    let doc = p.parse(src);
    let mut got = dump_doc(&doc);
    trim_spans(&mut got);
    let mut want = want.to_vec();
    trim_spans(&mut want);
    if let Some(m) = diff(&want, &got, "") {
        return Err(format!("{m}\n  in {src:?}"));
    }
    let n = count(&want);
    cx.nontrivial(n > 1);
    Ok(())
}

fn tree(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = Cfg { depth: 4, ..Cfg::default() };
    let d = doc(g, &c);
    let w = write_doc(g, &d);
    cx.input(w.src.clone());
    check(&w.src, &w.want, cx)
}

/// The last block (and blocks around it) lacks its closing delimiter.
fn open(g: &mut G, cx: &mut Cx) -> Outcome {
    let c = Cfg { depth: 4, meta: 60, ..Cfg::default() };
    let mut d = doc(g, &c);
    let mut st = St { n: 1000, sect: 1000, ..St::default() };
    for _ in 0..4 {
        if d.nodes.last().is_some_and(is_open) {
            break;
        }
        open_end(g, &mut d.nodes);
        if d.nodes.last().is_some_and(is_open) {
            break;
        }
        let n = node(g, &c, &mut st, 3);
        if matches!(n.kind, Kind::Raw { .. } | Kind::Compound { .. }) {
            let mut v = &mut d.nodes;
            while matches!(v.last(), Some(Node { kind: Kind::Section { .. }, .. })) {
                let Some(Node { kind: Kind::Section { kids, .. }, .. }) = v.last_mut() else { unreachable!() };
                v = kids;
            }
            v.push(n);
        }
    }
    let w = write_doc(g, &d);
    cx.input(w.src.clone());
    if !d.nodes.last().is_some_and(is_open) {
        return Ok(());
    }
    check(&w.src, &w.want, cx)
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "more than one block is expected",
        assumptions: &[],
        families: vec![Family { name: "tree", run: tree, quick: 300_000, thorough: 6_000_000 }, Family { name: "open", run: open, quick: 100_000, thorough: 2_000_000 }],
    }
}
