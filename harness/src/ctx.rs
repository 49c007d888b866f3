//! Places where inline text is rendered with the normal substitutions.

use asciidoc_parser::{
    Document, Parser,
    blocks::{Block, IsBlock},
};

use crate::engine::G;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctx {
    Para,
    InExample,
    InSidebar,
    InOpen,
    AfterMeta,
    InSection,
    InQuote,
    ListingNormal,
    PassNormal,
    SectionTitle,
    BlockTitle,
    DocTitle,
}

pub const MULTI: &[Ctx] =
    &[Ctx::Para, Ctx::InExample, Ctx::InSidebar, Ctx::InOpen, Ctx::AfterMeta, Ctx::InSection, Ctx::InQuote, Ctx::ListingNormal, Ctx::PassNormal];
pub const SINGLE: &[Ctx] = &[Ctx::SectionTitle, Ctx::BlockTitle];

/// A context fit for the text (paragraph most of the time).
pub fn any(g: &mut G, text: &str) -> Ctx {
    if g.p(55) {
        return Ctx::Para;
    }
    if !text.contains('\n') && !text.is_empty() && title_ok(text) && g.p(45) {
        return g.of(SINGLE);
    }
    g.of(MULTI)
}

/// Can the text stand as a title on its own (no leading character that would
/// change what the line is, no trailing blank)?
pub fn title_ok(t: &str) -> bool {
    let f = t.chars().next().unwrap_or(' ');
    f != '.' && f != ' ' && f != '\t' && t.trim() == t && !t.ends_with('\\')
}

pub fn embed(c: Ctx, t: &str) -> String {
    match c {
        Ctx::Para => t.to_string(),
        Ctx::InExample => format!("====\n{t}\n===="),
        Ctx::InSidebar => format!("****\n{t}\n****\n\nafter"),
        Ctx::InOpen => format!("--\n{t}\n--"),
        Ctx::InQuote => format!("____\n====\n{t}\n====\n____"),
        Ctx::AfterMeta => format!("[#anid.arole]\n.A title\n{t}"),
        Ctx::InSection => format!("== Section\n\n=== Sub\n\n{t}"),
        Ctx::ListingNormal => format!("[subs=normal]\n----\n{t}\n----"),
        Ctx::PassNormal => format!("[subs=normal]\n++++\n{t}\n++++"),
        Ctx::SectionTitle => format!("== {t}\n\npara"),
        Ctx::BlockTitle => format!(".{t}\npara"),
        Ctx::DocTitle => format!("= {t}\n\npara"),
    }
}

fn only<'a>(mut it: impl Iterator<Item = &'a Block<'a>>) -> Result<&'a Block<'a>, String> {
    let b = it.next().ok_or("no block")?;
    Ok(b)
}

/// The rendering of the embedded text.
pub fn extract(c: Ctx, d: &Document<'_>) -> Result<String, String> {
    fn deep(b: &Block<'_>, n: usize) -> Result<String, String> {
        if n == 0 {
            return match b {
                Block::Simple(_) => b.rendered_content().map(str::to_string).ok_or("no content".into()),
                Block::RawDelimited(_) => b.rendered_content().map(str::to_string).ok_or("no content".into()),
                o => Err(format!("expected a leaf block, got {}", o.raw_context().as_ref())),
            };
        }
        let mut it = b.nested_blocks();
        let x = it.next().ok_or_else(|| format!("expected a nested block in {}", b.raw_context().as_ref()))?;
        if it.next().is_some() {
            return Err("more than one block where one was written".into());
        }
        deep(x, n - 1)
    }
    match c {
        Ctx::DocTitle => d.header().title().map(str::to_string).ok_or("no document title".into()),
        Ctx::SectionTitle => match only(d.nested_blocks())? {
            Block::Section(s) => Ok(s.section_title().to_string()),
            o => Err(format!("expected a section, got {}", o.raw_context().as_ref())),
        },
        Ctx::BlockTitle => {
            only(d.nested_blocks())?.title().map(str::to_string).ok_or("no block title".into())
        }
        _ => {
            let n = d.nested_blocks().count();
            let want = if c == Ctx::InSidebar { 2 } else { 1 };
            if n != want {
                return Err(format!("expected {want} top-level block(s), got {n}"));
            }
            let b = only(d.nested_blocks())?;
            match c {
                Ctx::Para | Ctx::AfterMeta | Ctx::ListingNormal | Ctx::PassNormal => deep(b, 0),
                Ctx::InExample | Ctx::InSidebar | Ctx::InOpen => deep(b, 1),
                _ => deep(b, 2),
            }
        }
    }
}

pub fn render_in(p: &mut Parser, c: Ctx, t: &str) -> Result<(String, String), String> {
    let src = embed(c, t);
    let d = p.parse(&src);
    let r = extract(c, &d).map_err(|e| format!("{e} for {src:?}"))?;
    Ok((src, r))
}

/// Would a line of this text be taken for something other than paragraph text?
/// Conservative: true is safe.
pub fn plain_line(l: &str) -> bool {
    let Some(f) = l.chars().next() else { return false };
    if l.trim() != l {
        return false;
    }
    if !l.chars().any(char::is_alphanumeric) {
        return false;
    }
    if f == '[' {
        return !l.ends_with(']');
    }
    if f == '#' {
        let n = l.chars().take_while(|c| *c == '#').count();
        return !matches!(l.chars().nth(n), Some(c) if c.is_whitespace()) ;
    }
    if l.starts_with("```") || l.starts_with("--") || l.starts_with("++") || l.starts_with("**") && l.len() < 5 || l.starts_with("__") && l.len() < 5 {
        return false;
    }
    !matches!(f, '.' | ':' | '/' | '=' | '|' | ' ' | '\t' | ',' | '!' | '<')
}
