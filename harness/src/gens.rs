//! Shared generators.

use crate::engine::G;

/// Characters chosen to hit every lexical class the parser distinguishes,
/// including multi-byte ones and control characters.
pub const UNI: &str = "abzAZ09 é½\u{4e2d}\u{1F600}\u{301}\u{a0}\u{2003}\u{200b}\u{feff}\u{3000}\u{96}\u{97}\u{0}\u{1}\u{7f}\u{85}\u{2028}İıß";
pub const PUNCT: &str = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";

pub fn any_char(g: &mut G) -> char {
    match g.w(&[30, 30, 20, 8, 8, 4]) {
        0 => g.ch("abcxyzABC019"),
        1 => g.ch(PUNCT),
        2 => ' ',
        3 => '\n',
        4 => g.ch(UNI),
        _ => char::from_u32(g.u(0x11_0000) as u32).unwrap_or('?'),
    }
}

pub const WORDS: &[&str] = &[
    "a", "foo", "bar", "Hello", "x1", "caf\u{e9}", "\u{4e2d}\u{6587}", "one two", "The quick", "z", "0", "42", "I",
];

pub const INLINE: &[&str] = &[
    "*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "'", "\"`", "`\"", "'`", "`'", "\\", "\\\\", "+", "++", "+++", "$$",
    "[.role]", "[#id]", "[red]", "[", "]", "[]", "(", ")", "{", "}", "<", ">", "&", "<<", ">>", "<<id>>", "<<id,text>>",
    "(C)", "(R)", "(TM)", "--", " -- ", "...", "->", "=>", "<-", "<=", "&amp;", "&#169;", "&#xA9;", "\\(C)",
    "{name}", "{empty}", "{sp}", "{nbsp}", "{undefined}", "\\{name}", "{set:x:y}", "{counter:c}", "{Name}", "{a-b}",
    "http://example.com", "https://example.org/a?b=c&d", "https://x.y[text]", "http://foo>", "<http://foo>", "&lt;http://foo&gt;",
    "link:x[foo]", "link:url[]", "link:++a b++[t]", "mailto:a@b.c[Mail]", "mailto:x[s,t,u]", "link:foo[bar^]", "link:foo[\"a,b\",window=_blank]",
    "link:foo[bar,role=x]", "user@example.com", "\\user@example.com", ":a@b.co", "irc://x", "ftp://a.b[c]", "http://a.b)", "(http://a.b)", "http://a.b;", "http://a.b:",
    "xref:id[t]", "xref:a#b[]", "image:foo.png[]", "image:foo.png[Alt,100,200]", "image:[]", "image:[x]", "icon:fire[]", "icon:[x]",
    "icon:tags[role=\"blue\"]", "image:foo.svg[opts=inline]", "image:foo.svg[opts=interactive]", "image:f.svg[opts=interactive,fallback=y.png]", "image:http://x/y.png[a,link=z,window=_blank,opts=nofollow]",
    "kbd:[Ctrl+C]", "btn:[OK]", "menu:File[Save]", "footnote:[x]", "footnote:id[]", "stem:[x^2]", "latexmath:[y]", "asciimath:[z]",
    "pass:[<b>]", "pass:q[*x*]", "pass:c,a[<{name}>]", "pass:zz[x]", "\\pass:[x]", "[[anchor]]", "[[anchor,text]]", "anchor:foo[]", "anchor:foo[bar]",
    "(((a,b)))", "((term))", "indexterm:[x]", "indexterm2:[y]", " +\n", "a +", "\u{96}", "\u{97}", "\u{96}0\u{97}", "\u{96}1\u{97}", "\u{96}99999999999999999999999\u{97}", "\u{96}\u{663}\u{97}", "99999999999999999999", "&#99999999999999999999;", "{counter:c:99999999999999999999}",
    "'s", "o'clock", "Sam\u{2019}s", ":", "::", ";;", ",", ".", "=", "|", "!", "@", "//", "/", "\t", "\u{a0}", "\u{e9}", "\u{1F600}", "\n", "\r\n", "\r",
];

pub fn inline_soup(g: &mut G, max: usize) -> String {
    g.list(1, max, |g| match g.w(&[5, 9, 3, 1]) {
        0 => g.of(WORDS).to_string(),
        1 => g.of(INLINE).to_string(),
        2 => " ".to_string(),
        _ => any_char(g).to_string(),
    })
    .concat()
}

pub const BLOCK_LINES: &[&str] = &[
    "", "", "", " ", "\t", "= Title", "== Section", "=== Sub", "==== Sub sub", "===== L4", "====== L5", "======= L6", "# T", "## S", "### SS",
    "==NoSpace", "== ", "=", "==", "# ", "#", ".Title", ".", "..", ". x", ".T *b*", "----", "-----", "--", "....", ".....", "====", "=====", "****", "*****", "____", "_____", "++++", "+++++",
    "////", "/////", "//", "// comment", "///", "/// x", "'''", "''", "---", "- - -", "***", "* * *", "<<<", "<<<<", "|===", "!===", ",===", ":===", "```", "```rust",
    "[[id]]", "[[id,ref text]]", "[[]]", "[[ a ]]", "[[1]]", "[]", "[quote]", "[quote, author, source]", "[source,rust]", "[#id.role%opt]", "[.a.b%c#d]", "[discrete]", "[appendix]", "[appendix]\n== A",
    "[discrete]\n== D", "[abstract]", "[literal]", "[listing]", "[normal]", "[verse]", "[pass]", "[stem]", "[subs=attributes]", "[subs=\"+attributes,-quotes\"]", "[subs=none]", "[subs=verbatim]", "[subs=\"quotes+\"]", "[subs=bogus]", "[subs=macros]",
    "[id=foo]", "[role=\"a b\"]", "[options=\"x,y\"]", "[opts=x]", "[foo=bar,baz]", "[\"q,r\",s]", "['a','b']", "[%hardbreaks]", "[reftext=R]", "[#]", "[.]", "[%]", "[#a#b]", "[,]", "[a,,b]", "[=]", "[a=]", "[=a]", "[\"", "['", "[a", "[a]b",
    ":name: value", ":name:", ":!name:", ":name!:", ":name: a \\\nb", ":name: a + \\\nb \\", ":Name: v", ":a-b: c", ":1x: y", ":na me: v", ": x", ":", "::", ":x", ":x:y", ":sectnums:", ":sectnums!:", ":!sectids:", ":idprefix:", ":idseparator: -", ":idprefix: x_", ":sectnumlevels: 1", ":sectnumlevels: 9", ":sectnumlevels: x", ":hardbreaks:", ":hardbreaks-option:", ":leveloffset: +1", ":imagesdir: img", ":icons: font", ":icons:", ":iconsdir: /i", ":name: {other}", ":other: {name}", ":name: pass:[<b>]", ":appendix-caption: App", ":doctitle: DT", ":author: Au Thor", ":hide-uri-scheme:", ":experimental:",
    "Author Name <a@b.c>", "A B C <x@y.z>; D E", "v1.0, 2020-01-01: remark", "v1.0", "1.0,", "v,", "2020",
    "image::foo.png[]", "image::foo.png[Alt,1,2]", "image::[]", "image::x", "image::a b[c]", "video::v.mp4[]", "audio::a.mp3[]", "image:: x[]", "image:foo[]", "foo::bar[]", "video::x[start=1,opts=autoplay]",
    "include::foo.adoc[]", "include::a.adoc[]", "include::{name}.adoc[lines=1..2]", "include::", "include::x", "\\include::a[]", "include::[]", "ifdef::name[]", "ifdef::name[text]", "ifndef::x[]", "endif::[]", "ifeval::[1 == 1]",
    "* item", "** nested", "- item", ". num", ".. num", "1. x", "term:: def", "term::", "a::: b", "<1> callout", "+", "NOTE: note", "TIP: x", "WARNING:", " literal", "  lit2", "\tlit", "[horizontal]", "toc::[]", "|a |b", "a b c  ", "\u{feff}= BOM", "\u{a0}", "\u{3000}x",
];

pub fn line_soup(g: &mut G) -> String {
    match g.w(&[10, 5, 1]) {
        0 => g.of(BLOCK_LINES).to_string(),
        1 => inline_soup(g, 6),
        _ => g.list(0, 8, any_char).into_iter().collect(),
    }
}

pub fn doc_soup(g: &mut G, max_lines: usize) -> String {
    let lines = g.list(0, max_lines, line_soup);
    let eol = match g.w(&[10, 2, 1]) {
        0 => "\n",
        1 => "\r\n",
        _ => "\r",
    };
    let mut s = String::new();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            s.push_str(eol);
        }
        s.push_str(l);
    }
    if g.p(50) {
        s.push_str(eol);
    }
    s
}

/// A character reference of some form and width.
pub fn char_ref(g: &mut G) -> String {
    let body: String = match g.u(3) {
        0 => format!("#{}", g.list(1, 7, |g| g.of(&['0', '1', '4', '9'])).into_iter().collect::<String>()),
        1 => format!("#{}{}", g.of(&["x", "x", "x", "X"]), g.list(1, 7, |g| g.of(&['0', '9', 'a', 'f', 'A', 'C', 'F', 'D', '3'])).into_iter().collect::<String>()),
        _ => format!("{}{}", g.list(0, 4, |g| g.of(&['a', 'Z', 'q'])).into_iter().collect::<String>(), g.list(0, 3, |g| g.of(&['1', '0'])).into_iter().collect::<String>()),
    };
    format!("&{body};")
}
