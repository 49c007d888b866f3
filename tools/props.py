# Single source for properties.jsonl and MANIFEST.json (see meta.py).
P = "parser/src/"
PROPS = [
 dict(id="C01", title="Parsing and inspecting is total",
  statement="For every text, however malformed, and every combination of API-supplied attributes and (acyclic) include files, parsing terminates without a panic, abort or hang and yields a document. Every accessor, Debug and Display of everything reachable from that document also completes.",
  over=["inputs","configurations"], quant="all UTF-8 texts with block nesting up to 30, all intrinsic attribute values, all acyclic include handlers",
  why="Tests parse a few hundred hand-written, mostly well-formed snippets; the parser's regex-driven substitutions and hand-written scanners fail on combinations nobody wrote down (ten panics, hangs and overflows were found this way).",
  files=[P+"parser/parser.rs",P+"document/document.rs",P+"blocks/block.rs",P+"content/substitution_step.rs",P+"content/macros.rs",P+"content/passthroughs.rs",P+"attributes/attrlist.rs",P+"blocks/parse_utils.rs"],
  mech=[("Parser::parse", P+"parser/parser.rs"),("Block::parse fallbacks", P+"blocks/block.rs"),("substitution replacers", P+"content/")],
  technique="grammar-aware random fuzzing with panic/abort/hang detection and shrinking",
  note="Random search over dictionary-assembled documents and arbitrary Unicode; debug assertions and overflow checks on. Nothing is claimed beyond what was generated; deeper nesting than 30 is excluded (recursive descent)."),
 dict(id="C10", title="Attribute permissions and precedence hold for every history",
  statement="An attribute supplied through the API keeps its modification context (anywhere, API only, API or header, API or document body) for the whole parse: an attribute entry, title, author or revision line in a place where that context does not permit changes never alters the value seen by later references or left in the parser, and the refused entry is reported by exactly one warning on that entry. A permitted entry (set, set to empty, unset with leading or trailing '!') takes effect from its position onward, last one wins, names without regard to case; setting or unsetting never changes what is permitted. Attributes not supplied may be set anywhere, except built-in read-only ones.",
  over=["histories","configurations"], quant="all sequences of API calls, header entries, body entries (top level and inside blocks and sections) and references over a pool of names",
  why="Tests set one attribute and try one change; lifting of a restriction by a first permitted change, and locked values overwritten through the title or author line, needed sequences (both were defects).",
  files=[P+"parser/parser.rs",P+"document/attribute.rs",P+"document/header.rs",P+"parser/built_in_attrs.rs"],
  mech=[("set_attribute_from_header/body", P+"parser/parser.rs"),("ModificationContext", P+"parser/attribute_value.rs")],
  technique="stateful (model-based) random generation of attribute histories against a reference store", note="Histories up to about 15 entries over user-defined and ten built-in names."),
 dict(id="C11", title="Attribute entries take effect in order and references expand",
  statement="Text that contains {name} renders the value the attribute has at that point of the document (API, then header, then body entries in order; section titles, block titles and block content alike), substituted once: references that the value holds are expanded when the entry is read, not when it is used. Names are case-insensitive. A value may continue over lines that end in ' \\' (joined by a space) and keeps a hard break for ' + \\'. References to attributes that were never set, malformed references and escaped references are left as written (the latter without the backslash). Each entry is reported, in order, with the value read (header.attributes(), document attribute blocks).",
  over=["inputs","histories"], quant="all interleavings of attribute entries and paragraphs, titles, delimited blocks and sections; all texts of reference-like fragments",
  why="Ordering effects only show when entries, sections and references interleave; tests check one reference after one entry (a section title read stale values, and entries after a delimited block were taken for text).",
  files=[P+"document/attribute.rs",P+"content/substitution_step.rs",P+"blocks/parse_utils.rs",P+"blocks/section.rs",P+"parser/parser.rs"],
  mech=[("Attribute::parse / InterpretedValue", P+"document/attribute.rs"),("AttributeReplacer", P+"content/substitution_step.rs")],
  technique="stateful random generation against a reference interpreter of entries and references", note="References to explicitly unset attributes and {set:}/{counter:} are not generated."),
 dict(id="C14", title="Inline formatting marks follow the constrained/unconstrained rules",
  statement="In text with normal substitutions, the marks for strong, emphasis, monospace, highlight, superscript, subscript and curved quotes are converted exactly where the language says: constrained marks only between non-word characters and hugging non-blank content, doubled (unconstrained) marks anywhere, superscript/subscript without blanks at their ends, shortest content, leftmost first, in the fixed order of types so that different types nest, across lines. An attribute list before a mark supplies id and roles; a backslash before a mark (or its attribute list) suppresses it and is consumed; everything else stays as written.",
  over=["inputs"], quant="all texts over words (ASCII and not), punctuation, marks, attribute lists and backslashes, in every block and title context that has normal substitutions",
  why="The rules are about what surrounds a mark; the combinations of neighbours, nesting, escapes and non-ASCII word characters are unbounded and tests sample a few dozen.",
  files=[P+"content/substitution_step.rs",P+"parser/inline_substitution_renderer.rs"],
  mech=[("QuoteReplacer, QUOTE_SUBS", P+"content/substitution_step.rs"),("render_quoted_substitition", P+"parser/inline_substitution_renderer.rs")],
  technique="differential random testing against an independent reference model (no regular expressions)", note="1.1 million texts per quick run; a monospaced span directly followed by a quote character is left out."),
 dict(id="C15", title="Passthroughs protect their content exactly",
  statement="Content of an inline passthrough comes out untouched by every substitution except the ones it asks for: +…+ , ++…++ and $$…$$ escape special characters only, +++…+++ and pass:[…] change nothing, pass:subs[…] applies exactly the named steps or groups in the normal order, `+…+` gives escaped text in a monospaced span; roles and ids in a preceding attribute list are applied. This holds for any number of passthroughs in one text, in every context, in attribute values given as pass:subs[…] in the header, and when the content looks like markup, references, macros or internal placeholders. Text that is not a passthrough (an unpaired or spaced plus, an escaped passthrough) is treated as ordinary text.",
  over=["inputs"], quant="all contents (arbitrary Unicode without the closing mark), all sub lists, all mixes of several passthroughs and ordinary text",
  why="Protection works by extraction and restoration through placeholder characters; collisions and ordering between several passthroughs cannot be settled by sampling (a literal U+0096 crashed it).",
  files=[P+"content/passthroughs.rs",P+"content/substitution_group.rs"],
  mech=[("Passthroughs::extract_from / restore_to", P+"content/passthroughs.rs")],
  technique="constructive random generation with per-piece expected output from the reference model", note="Content holds no closing mark of its kind and no blanks at its ends."),
 dict(id="C16", title="Textual replacements are exact",
  statement="With normal substitutions (C), (R), (TM), the em dash (two hyphens between spaces or line ends, or between a word character and a word character or line end), the ellipsis, the four arrows, the typographic apostrophe between a letter or digit and a letter, `' and character references written as &name; or &#n; are replaced by their character references wherever they stand and nowhere else; a backslash before any of them suppresses the replacement and is consumed. All other characters are unchanged.",
  over=["inputs"], quant="all texts over words, the replaceable sequences, their near misses, backslashes, marks and line ends",
  why="Replacements interact with each other and with the preceding character or line boundary; two such interactions (a letter swallowed after an apostrophe, an em dash before punctuation) were wrong although the tests pass.",
  files=[P+"content/substitution_step.rs",P+"parser/inline_substitution_renderer.rs"],
  mech=[("CharacterReplacer, REPLACEMENTS", P+"content/substitution_step.rs")],
  technique="differential random testing against an independent reference model", note=""),
 dict(id="C12", title="Special characters are escaped exactly once, everywhere",
  statement="Outside of passthroughs and blocks that ask for raw output, every '<', '>' and '&' of the text appears in the rendered output as &lt;, &gt; and &amp;, exactly once, in every place that is rendered (paragraphs, literal and listing blocks, section, block and document titles, header attribute values, macro text, alternative text, link targets, author and revision lines), and nothing else is escaped. Consequently text alone never produces a tag: whatever the input, every tag of the rendered output is one of the converter's own and every '&' in it starts a character reference.",
  over=["inputs"], quant="all texts (arbitrary mixes of special characters, marks, macros, references, attribute values) in every rendered context",
  why="Double escaping, missed escaping and markup injection depend on which substitution sees a character first; that is a statement about all inputs, tests check a handful of strings.",
  files=[P+"content/substitution_step.rs",P+"content/macros.rs",P+"parser/inline_substitution_renderer.rs",P+"document/header.rs",P+"content/substitution_group.rs"],
  mech=[("apply_special_characters", P+"content/substitution_step.rs"),("render_special_character", P+"parser/inline_substitution_renderer.rs")],
  technique="random generation against an exact escaping model, plus an output well-formedness invariant over adversarial text", note="The exact family uses texts whose only special part is <, > and &; the second family checks the invariant over unrestricted inline soup."),
 dict(id="C17", title="Links and e-mail addresses become anchors with the right target and text",
  statement="In text with macros, a bare URL (http, https, ftp, irc, file), a URL in angle brackets, a URL followed by [text], link:target[text], mailto:address[text,subject,body] and a bare e-mail address each become exactly one anchor whose href is the escaped target as written (with percent-encoded subject and body for mail) and whose text is the given text, formatted, or the target (without scheme under hide-uri-scheme). Trailing punctuation of a bare URL stays outside; text that is empty or starts with attributes marks the link as bare; role, id, window, nofollow/noopener and a trailing ^ set the corresponding HTML attributes; '\\]' is a bracket in the text. Near misses and links escaped with a backslash stay text (without the backslash).",
  over=["inputs"], quant="all sequences of links of every form with generated targets, texts, attributes and surrounding punctuation, in every context",
  why="The five link forms are one regex plus positional special cases; neighbours, punctuation and attribute combinations are unbounded (five crashes and two wrong outputs were found).",
  files=[P+"content/macros.rs",P+"parser/inline_substitution_renderer.rs",P+"attributes/attrlist.rs"],
  mech=[("InlineLinkReplacer, InlineLinkMacroReplacer, EmailReplacer", P+"content/macros.rs"),("render_link", P+"parser/inline_substitution_renderer.rs")],
  technique="constructive random generation: pieces with expected HTML, concatenated and embedded", note="URL and text are drawn so that other substitutions do not run across the link's delimiters."),
 dict(id="C18", title="Images, icons, anchors and media blocks are rendered from their attributes",
  statement="Inline image:, icon: and anchor ([[id]], anchor:id[]) macros become exactly the element their target and attributes describe: source path resolved against imagesdir/iconsdir (URIs untouched, '.' and '..' resolved, spaces encoded), alternative text given or derived from the file name, width, height, title, role, float, link (with window, nofollow), and for icons the form chosen by the icons attribute (text, font with size/flip/rotate, image of icontype). Block macros image::, video::, audio:: become one media block with the target, positional and named attributes as written, keep their title, ID and roles, and do not consume what follows. Escaped macros and near misses stay text.",
  over=["inputs","configurations"], quant="all combinations of target, alternative text, named and positional attributes, path and icon settings, and surrounding text",
  why="The output depends on the product of some fifteen attributes and settings; tests cover single settings (options on SVG images and an empty target crashed, audio was unknown, block anchors lost their text).",
  files=[P+"content/macros.rs",P+"parser/inline_substitution_renderer.rs",P+"parser/path_resolver.rs",P+"blocks/media.rs"],
  mech=[("InlineImageMacroReplacer", P+"content/macros.rs"),("render_image, render_icon, render_anchor", P+"parser/inline_substitution_renderer.rs"),("MediaBlock::parse", P+"blocks/media.rs")],
  technique="constructive random generation against a reference model of the HTML output and of web paths", note="Option nofollow is not combined with a window; alternative text of block macros holds no '.', '#' or '%' (pinned by tests)."),
 dict(id="C03", title="Spans name the text they were taken from",
  statement="For a document without include directives, every span the API hands out (document, header and its parts, blocks, block titles, anchors, attribute lists and their attributes, contents, targets, attribute names and values, warnings) lies within the source, its data is the source text at its byte offset, and its line and column (counted in characters) are those of that offset. The spans of a block's parts lie inside the block's span, a nested block's span inside its parent's (trailing blanks aside), siblings follow each other without overlap, and blocks follow the header.",
  over=["inputs"], quant="all texts: line soup of the language's own constructs, structured documents, damaged structured documents, with either line end and any Unicode",
  why="Every parser step narrows spans by hand; an offset that is right on ASCII, on LF, or at top level can be wrong elsewhere. Tests pin the spans of single examples.",
  files=[P+"span/mod.rs",P+"span/",P+"blocks/",P+"document/header.rs",P+"attributes/"],
  mech=[("Span, take_line, trim_remainder", P+"span/")],
  technique="random and structured generation against an invariant over every span of the parsed document", note="Spans of documents with includes refer to the preprocessed text (C23)."),
 dict(id="C04", title="No line of the source is lost",
  statement="Every line of the source that is not blank or a line comment belongs to the header (title, attribute entry, comment, author or revision line) or to a block, and inside a block to its metadata (title, anchor, attribute list), its delimiters, its section title, its content or one of its nested blocks: a delimited block consists of two equal delimiter lines (one, if unterminated) around its content, a section of a title line followed by its blocks, a paragraph of its content lines, a block macro, break or one-line entry of one line. Metadata lines with no block after them are kept as text.",
  over=["inputs"], quant="all texts: line soup, structured documents and damaged structured documents",
  why="Lines get lost at the seams (metadata before nothing, attribute lists before an entry, unclosed blocks, interrupted paragraphs), which tests visit one at a time; three such losses were found.",
  files=[P+"blocks/block.rs",P+"blocks/parse_utils.rs",P+"blocks/metadata.rs",P+"blocks/simple.rs",P+"blocks/compound_delimited.rs",P+"blocks/raw_delimited.rs",P+"document/header.rs"],
  mech=[("Block::parse, parse_blocks_until", P+"blocks/"),("BlockMetadata::parse", P+"blocks/metadata.rs")],
  technique="random and structured generation against a coverage (tiling) invariant of source lines", note="Carriage returns only as part of CRLF; documents without include directives."),
 dict(id="C05", title="The block tree is the one the document describes",
  statement="Any document composed of paragraphs, literal/listing/pass/comment blocks, example/sidebar/quote/open blocks, block macros, breaks, attribute entries, discrete headings and sections, nested as the language permits, with or without block titles, anchors and attribute lists, separated by any blank lines and line comments, parses into exactly that tree: same order and nesting, and for each block its raw and resolved context, content model, style, title, ID, anchor and its reference text, roles, options, attributes, source text of the content and first line. Blocks before the first section form one preamble, and only then. Text that merely looks like a delimiter, title, macro, break or section stays text.",
  over=["inputs"], quant="all documents over that grammar up to the generated depth and size",
  why="The parser tries block kinds in order, and each decides for itself where it ends; only whole documents with arbitrary neighbours and nesting exercise all of those decisions.",
  files=[P+"blocks/",P+"document/document.rs"],
  mech=[("Block::parse", P+"blocks/block.rs"),("parse_blocks_until", P+"blocks/parse_utils.rs"),("Preamble", P+"blocks/preamble.rs")],
  technique="round trip: random tree, written to AsciiDoc with random layout, parsed and compared", note="Depth up to 4, about 20 blocks per document; nested delimited blocks use delimiters of different lengths or kinds."),
 dict(id="C13", title="Verbatim and raw text is kept; comments leave no trace",
  statement="The lines between the delimiters of a listing, literal, pass or comment block are that block's content character by character, whatever they look like, at any nesting: nothing in them starts a block, sets an attribute, registers an ID or causes a warning; listing and literal content is rendered with special characters escaped only, pass and comment content unchanged. Without a closing delimiter the block extends to the end of its parent and one warning names its opening line. Line comments (between blocks, between metadata lines, inside paragraphs, in the header) and comment blocks, whatever they say, change nothing in the rest of the document: blocks, rendered text, attributes, catalog and warnings are those of the document without them.",
  over=["inputs"], quant="all contents (block syntax, inline syntax, arbitrary Unicode), all nestings and all comment placements in structured documents",
  why="That text is inert is a statement about all texts; tests show it for a few. The comment relation compares two whole documents (a comment block before the first section counted as preamble content).",
  files=[P+"blocks/raw_delimited.rs",P+"blocks/simple.rs",P+"blocks/parse_utils.rs",P+"blocks/metadata.rs",P+"document/header.rs",P+"document/document.rs"],
  mech=[("RawDelimitedBlock::parse", P+"blocks/raw_delimited.rs"),("discard_comment_lines", P+"span/")],
  technique="constructive random generation with exact content, plus a metamorphic relation (insert comments)", note="Comments before the first block of a document without title and preprocessor directives are left out."),
 dict(id="C21", title="Block metadata in any order belongs to the block that follows",
  statement="A block title (.Title), a block anchor ([[id]] or [[id,reftext]]) and an attribute list ([...]) directly before a block of any kind, in any order and with comment lines in between, are that block's title (rendered with normal substitutions), anchor, reference text and attributes; its ID is the anchor or else the id given in the list, its roles and options are the shorthand ones followed by the named ones, its style the first positional item. Metadata that no block follows directly (end of document, end of parent, blank line) is kept as paragraph text with one warning per paragraph and is not given to a later block. Lines that only resemble metadata are text.",
  over=["inputs"], quant="all subsets and orders of metadata, all attribute lists of the grammar, all block kinds, all parents",
  why="Six orders times block kinds times attribute forms; each kind of block picks up its metadata in its own code (breaks lost their reference text, anchors disappeared when no block followed).",
  files=[P+"blocks/metadata.rs",P+"blocks/block.rs",P+"blocks/is_block.rs",P+"attributes/attrlist.rs",P+"blocks/break.rs",P+"blocks/media.rs"],
  mech=[("BlockMetadata::parse", P+"blocks/metadata.rs"),("IsBlock::id, roles, options, declared_style", P+"blocks/is_block.rs")],
  technique="round trip of random metadata through all block kinds, plus constructed orphan and look-alike documents", note="At most one title, anchor and list per block; a second list is not merged by this version."),
 dict(id="C06", title="Sections nest by level and skipped levels are reported",
  statement="A heading of level l (l+1 equals signs or number signs, 1 to 5) starts a section that contains everything up to the next heading of level l or less, wherever metadata, attribute entries, breaks and delimited blocks stand; deeper headings become its subsections, discrete headings (discrete, float) never hold or end anything. Each heading more than one level below the heading before it in its section is reported by exactly one warning that names both levels and points at the heading; no other heading is. A level 0 heading in the body and headings with more than six signs stay text, each with its one warning.",
  over=["inputs"], quant="all sequences of headings of all levels, styles and markers interleaved with other blocks",
  why="Nesting is decided by look-ahead in every enclosing section at once; tests show two or three headings (warnings were repeated per enclosing section and pointed at metadata lines).",
  files=[P+"blocks/section.rs",P+"blocks/parse_utils.rs",P+"blocks/block.rs"],
  mech=[("SectionBlock::parse, peer_or_ancestor_section", P+"blocks/section.rs"),("parse_blocks_until", P+"blocks/parse_utils.rs")],
  technique="model-based random generation: heading sequences against a stack model", note="Sections inside delimited blocks are not generated."),
 dict(id="C07", title="Section numbers count what is numbered, in document order",
  statement="With sectnums set at a heading and its level at most sectnumlevels (as of the end of the header, 3 by default), a section gets the next number of its level: components restart below a new section, levels never numbered so far count as 1, sections where sectnums is unset are skipped without counting, discrete headings are never numbered. A level 1 section with style appendix and its subsections are of type appendix and numbered by letter (A to Z, AA, ...) independently of the others; the next level 1 section is normal again. Numbering starts anew with every parse.",
  over=["inputs","histories"], quant="all sequences of headings, styles and sectnums toggles, set in header, body or through the API",
  why="A counter machine over the whole document; tests follow a few fixed outlines (numbering of appendices continued across parses; the 27th appendix was '[').",
  files=[P+"blocks/section.rs",P+"parser/parser.rs"],
  mech=[("assign_section_number", P+"parser/parser.rs"),("SectionNumber", P+"blocks/section.rs")],
  technique="model-based random generation: outlines with toggles against a reference counter", note="Reuse of a parser is covered by C02."),
 dict(id="C08", title="Generated section IDs follow the title and are unique",
  statement="A section or discrete heading without an ID of its own gets, while sectids is set at that place, the ID made from its rendered title: lower case, tags (also escaped ones), character references and characters that are no word character removed, spaces, periods and hyphens replaced by the first character of idseparator and condensed, none at the end (nor at the beginning if idprefix is empty), after idprefix, as these attributes are at that place. If it is taken, the lowest free number from 2 is appended (-2, -3, ...), a section being registered when it ends. With sectids unset no ID is generated. All generated IDs are in the catalog, and no two sections share one.",
  over=["inputs","histories"], quant="all titles (formatting, special characters, references, several scripts) under all settings of idprefix, idseparator and sectids changed in mid-document",
  why="Uniqueness is a property of whole documents; derivation of IDs from arbitrary markup leaked pieces of tags ('Foo (*bar*)' gave _foo_strongbar).",
  files=[P+"blocks/section.rs",P+"document/catalog.rs"],
  mech=[("generate_section_id", P+"blocks/section.rs"),("generate_and_register_unique_id", P+"document/catalog.rs")],
  technique="model-based random generation against an independent derivation of IDs", note="Titles that start with a blank, period or hyphen are left out."),
 dict(id="C09", title="The catalog holds every ID once, with its reference text",
  statement="After a parse the catalog has exactly one entry for each distinct ID of a block (anchor, shorthand or id attribute, on blocks of any kind and at any depth) or section (also generated): under that ID, marked as section or anchor, with the reftext attribute (or the reference text of the anchor of a block that is no section) or else the rendered section title or block title as reference text. The block that ends first keeps a disputed ID, and every later one is reported by exactly one duplicate warning that names the ID at the first line of the block. resolve_id gives the first ID registered for a reference text; what was never registered is not found.",
  over=["inputs"], quant="all documents mixing sections, discrete headings and blocks of every kind with IDs from a small pool (also ones that collide with generated IDs)",
  why="Each block kind registers itself in its own code path; three kinds of entries were missing or wrong (breaks, reftext of blocks, sections with both anchor and id) with all tests passing.",
  files=[P+"document/catalog.rs",P+"blocks/block.rs",P+"blocks/section.rs"],
  mech=[("register_block_id", P+"blocks/block.rs"),("Catalog", P+"document/catalog.rs")],
  technique="model-based random generation against a reference catalog", note="Inline anchors are not catalogued by this version; anchor reference texts are not claimed."),
 dict(id="C24", title="A block's substitutions are the ones its kind and subs attribute name",
  statement="By default paragraphs get the normal substitutions, listing and literal delimited blocks special characters only, passthrough blocks and paragraphs of style pass none. A subs attribute replaces that by the named steps (special characters, quotes, attributes, replacements, macros, post replacements; long names or letters) applied in the order given, or by a group (none, normal or n, verbatim or v), or changes the default by '-step', 'step+' (before) and '+step' (after), starting from the block's own default. A list that names anything unknown has no effect. Passthroughs inside the text are honoured exactly when macros are among the steps. The attribute concerns this one block only: neighbours and enclosing blocks render as without it.",
  over=["inputs"], quant="all lists of distinct steps and modifiers, on paragraphs and raw blocks of every kind, in every enclosing context, over texts for which each step makes a difference",
  why="The list is an ordered program over the text; tests try a handful of lists (incremental lists on pass paragraphs started from the wrong default).",
  files=[P+"content/substitution_group.rs",P+"content/substitution_step.rs",P+"content/passthroughs.rs"],
  mech=[("SubstitutionGroup::from_custom_string / override_via_attrlist / apply", P+"content/substitution_group.rs")],
  technique="differential random testing: subs programs against a reference interpreter of the steps", note="Callouts, repeated steps and lists mixing incremental and plain names are left out."),
 dict(id="C25", title="Hard line breaks stand exactly where asked for",
  statement="In a paragraph with normal substitutions every line but the last that ends in ' +' ends in <br> instead, also when a comment line follows; with the hardbreaks option on the block (any option syntax), or while the document attribute hardbreaks-option (or its alias hardbreaks; API, header or body) is set at that point, every line but the last does, without a plus being left. Neither adds or removes anything else: a plus within a line, a block title, verbatim blocks and other paragraphs are unaffected.",
  over=["inputs","histories"], quant="all paragraphs under all option syntaxes and all sequences of hardbreaks entries",
  why="Depends on block, document and text state at once; tests cover each alone (setting the alias through the API had no effect).",
  files=[P+"content/substitution_step.rs",P+"parser/parser.rs"],
  mech=[("apply_post_replacements", P+"content/substitution_step.rs"),("remap_attr_name", P+"parser/parser.rs")],
  technique="model-based random generation: paragraphs and attribute histories against a reference renderer", note=""),
 dict(id="C02", title="A parse depends on nothing but source, configuration and attributes",
  statement="Two parsers with the same configuration read the same source into equal documents (blocks, texts, spans, warnings, catalog, source map) and are left with the same attributes; so is a clone of a parser, untouched by what the original parsed since. A parser that was used before behaves like a new one, unless earlier documents changed its attributes: section numbers, IDs, catalog, warnings and include state never carry over, and a document without attribute entries, title, author or revision line changes no attribute. Documents stay as they are when the parser goes on, or is dropped, and reading them changes neither them nor the parser.",
  over=["inputs","histories","configurations"], quant="all sources, sequences of parses on one parser, configurations (attributes, primary file, include handler), orders of reading",
  why="Reuse of a parser is a sequence of documents; tests make a new parser for nearly every document (numbers of appendices did carry over).",
  files=[P+"parser/parser.rs",P+"document/document.rs",P+"parser/preprocessor.rs",P+"document/catalog.rs"],
  mech=[("Parser::parse", P+"parser/parser.rs"),("Document::parse", P+"document/document.rs"),("preprocess (clone of the parser)", P+"parser/preprocessor.rs")],
  technique="metamorphic random testing: used, cloned and new parsers against each other", note="Carried-over attribute values are intended (Parser::parse documents them) and are covered by C10."),
 dict(id="C26", title="Line ends, trailing spaces and extra blank lines mean nothing",
  statement="A document means the same with CRLF as with LF line ends (same blocks, texts, header, attributes, warnings, line numbers; texts have LF), with any number of spaces added at the ends of lines, and with more than one blank line (or lines of spaces) where there is one, or at the beginning or end, up to line numbers. Verbatim and passthrough blocks keep the blank lines and spaces they are given.",
  over=["inputs"], quant="all documents, well-formed or not, in three equivalent layouts",
  why="Each scanner finds line ends on its own; one that forgets CR or a trailing space fails on inputs no test has in both layouts (rendered text of CRLF listings, header line scanning and include directives did).",
  files=[P+"span/line.rs",P+"blocks/raw_delimited.rs",P+"blocks/simple.rs",P+"document/header.rs",P+"parser/preprocessor.rs",P+"blocks/parse_utils.rs"],
  mech=[("Span::take_normalized_line, discard_empty_lines", P+"span/line.rs"),("SimpleBlock content", P+"blocks/simple.rs")],
  technique="metamorphic random testing over dictionary soup and generated trees", note="Tabs at line ends and the empty line that ends a continued attribute value are left out."),
 dict(id="C27", title="A block is read the same wherever it stands",
  statement="Documents written one after the other (separated by a blank line) give the blocks and warnings of each, in order, with line numbers shifted, provided that nothing in the earlier ones reaches on (sections, attribute entries, unterminated blocks, orphaned block attributes) and no ID occurs in two of them. The same text inside an example, sidebar or quote block, nested ones, or a section gives the same blocks, texts and warnings as at the top level, also when a block in it is unterminated (it ends with the enclosing block).",
  over=["inputs"], quant="all pairs and triples of documents and all bodies (dictionary soup or generated trees) in ten enclosing contexts",
  why="Blocks share one parser; state left behind by a block or look-ahead that crosses the end of the enclosing block shows only in combinations.",
  files=[P+"blocks/parse_utils.rs",P+"blocks/block.rs",P+"blocks/compound_delimited.rs",P+"blocks/section.rs",P+"content/substitution_group.rs"],
  mech=[("parse_blocks_until", P+"blocks/parse_utils.rs"),("CompoundDelimitedBlock::parse", P+"blocks/compound_delimited.rs")],
  technique="metamorphic random testing: concatenation and embedding", note="Paragraphs styled literal or listing that look like headings are left out of sections."),
 dict(id="C23", title="Include directives are replaced by their files, and origins are kept",
  statement="Parsing a document with an include file handler gives the document that results from replacing each include directive line (include::target[attributes] from the start of a line, in header or body, inside blocks too) by the lines of the file that the handler returns, recursively, whatever line ends the files use and whether or not they end with one; a directive that is not resolved becomes one line that names the including file and shows the directive; near misses stay text. The handler is asked once per directive, in order, with the including file's name, the target with attribute references replaced by the values in effect there (API, header and body entries, also those made by included files, permissions respected), the parsed attribute list, and a parser that has those values. The source map leads from every line of the resulting text to the file and line it came from, including after the end of nested includes. Chains of up to 60 files resolve; a file that includes itself does not exhaust the machine.",
  over=["inputs","histories","configurations"], quant="all sets of files (arbitrary lines, nested directives, attribute entries), targets, attribute lists, API attributes, root file names",
  why="Which file and line a warning refers to, and which value a target sees, depend on the whole history of includes so far; the tests include one or two small files (six defects, among them a stack overflow, were found).",
  files=[P+"parser/preprocessor.rs",P+"parser/source_map.rs",P+"parser/include_file_handler.rs",P+"parser/parser.rs",P+"document/document.rs"],
  mech=[("preprocess / process_adoc_include", P+"parser/preprocessor.rs"),("SourceMap::original_file_and_line", P+"parser/source_map.rs")],
  technique="model-based random generation: a reference preprocessor predicts handler calls, text, origins; the document is compared with that of the expanded text", note="Targets use attributes set through the API, in the header, or by entries between blocks; conditional directives are not implemented by the parser and \\include:: keeps its backslash (pinned)."),
 dict(id="C22", title="The document header is read completely and its attributes agree",
  statement="A document header (blank lines, comments and attribute entries, the title after '= ', then an author line and a revision line, with entries and comments anywhere between) is recognised up to the blank line that ends it: title and title source, entries and comments in order, every author (any number, separated by '; ': up to three names, underscores joining words of a name, more than three or irregular ones taken as a whole, an e-mail address or URL in angle brackets, initials) and the revision number, date and remark in each of their forms. The attributes doctitle, author, firstname, middlename, lastname, authorinitials, email (with _2, _3 … for further authors), revnumber, revdate and revremark have the values that the accessors report and are seen by everything after. The body starts after the header; a header that is not terminated is reported on the line that follows it, and that line starts the body.",
  over=["inputs"], quant="all headers composed of these parts, names and texts in any script, LF and CRLF",
  why="The header is a positional grammar with many optional parts; tests cover fixed samples (revision attributes missed the substitutions that the accessors had, and author names were not escaped).",
  files=[P+"document/header.rs",P+"document/author.rs",P+"document/author_line.rs",P+"document/revision_line.rs",P+"parser/parser.rs"],
  mech=[("Header::parse", P+"document/header.rs"),("Author::parse", P+"document/author.rs"),("RevisionLine::parse", P+"document/revision_line.rs")],
  technique="constructive random generation: headers written from a model of their content", note="Names are separated by single spaces; attribute references in the author line only stand for a whole name or address (other mixtures follow ad-hoc rules pinned by tests)."),
 dict(id="C20", title="Attribute lists are read exactly",
  statement="An attribute list on a block, block macro, inline macro or include directive yields its attributes in order: items are separated by commas with optional blanks; name=value items (names of letters, digits and hyphens, blanks allowed around '=') are named, all others positional; values may be quoted with single or double quotes and then hold commas, equals signs, brackets and escaped quotes, blanks around unquoted values are dropped, single-quoted values of a block's list get the normal substitutions; references to attributes are expanded before the list is split; a named value None is left out. nth_attribute counts positional attributes only, named_attribute finds the first of a name, named_or_positional_attribute prefers the name. The first positional attribute, unless quoted or in an inline macro, is split into style, #id, .roles and %options; id(), roles(), options(), has_option() and block_style() combine shorthand with the id, role, opts and options attributes, in that order. An unclosed quote, text after a closing quote, an empty item and an empty shorthand item are each reported once on the list and leave the other attributes as they are.",
  over=["inputs"], quant="all lists of up to 30 items over names, values in any script, quotes, escapes, shorthand and references, in four contexts",
  why="A list is a small language with escapes and positions; tests cover single samples (a name after an empty item was lost).",
  files=[P+"attributes/attrlist.rs",P+"attributes/element_attribute.rs",P+"span/primitives.rs"],
  mech=[("Attrlist::parse", P+"attributes/attrlist.rs"),("ElementAttribute::parse, parse_shorthand_items", P+"attributes/element_attribute.rs")],
  technique="constructive random generation: lists written from their attributes, read back through all accessors (also through handler and renderer callbacks)", note="Trailing commas and an empty first item are left out (an empty positional value today)."),
 dict(id="C19", title="All inline output goes through the caller's renderer",
  statement="Every piece of inline output (special characters, formatted spans, textual replacements, hard line breaks, images, icons, links, anchors) is made by the InlineSubstitutionRenderer the parser was given, exactly once per construct, in block content, titles, the header and attribute values alike, with the parameters the source gives: type and scope, attribute list, id and roles, target, link text, alt text, size, window, extra roles, anchor id and reference text. Everything else of the document (structure, spans, IDs, warnings) does not depend on the renderer, and text around a construct comes out the same.",
  over=["inputs","configurations"], quant="all texts and documents; renderers that rename HTML's output and a renderer that spells out its parameters",
  why="Tests check the default HTML output of single constructs; that nothing bypasses a supplied renderer or reaches it twice or with a neighbour's parameters is about all constructs in all contexts.",
  files=[P+"parser/inline_substitution_renderer.rs",P+"content/substitution_step.rs",P+"content/macros.rs",P+"content/passthroughs.rs",P+"parser/parser.rs"],
  mech=[("InlineSubstitutionRenderer", P+"parser/inline_substitution_renderer.rs"),("Parser::with_inline_substitution_renderer", P+"parser/parser.rs")],
  technique="metamorphic testing (renamed renderer against the HTML renderer) and constructive generation with a parameter-spelling renderer", note="The renaming renderer keeps the outer form of HTML tags, since later substitutions look at neighbouring characters."),
 dict(id="C30", title="Warnings name each irregularity once, and nothing else",
  statement="Each irregularity in a document (an attribute list with an empty value, an empty shorthand item, a quote that is not closed or not followed by a comma; an empty or invalid block anchor; metadata without a block; a delimited block that is not closed; an ID used twice; a level 0, too deep or level-skipping heading; a refused attribute entry; a header that does not end) is reported by exactly one warning of its kind, at its line and with the text concerned, wherever it stands: top level, nested blocks or sections. A document without irregularities, and lines that only resemble one, give no warning; two parses of the same text give the same warnings.",
  over=["inputs"], quant="all interleavings of regular blocks and irregular ones of 14 kinds, nested up to 3 deep and in sections, up to about 50 units",
  why="Warnings travel up through every level of the recursive parser and through retries; whether one is lost or doubled on the way depends on where the irregularity stands. Tests check each kind once, at top level.",
  files=[P+"warnings.rs",P+"blocks/block.rs",P+"blocks/section.rs",P+"blocks/metadata.rs",P+"attributes/attrlist.rs",P+"blocks/parse_utils.rs",P+"document/document.rs"],
  mech=[("MatchAndWarnings", P+"warnings.rs"),("Block::parse", P+"blocks/block.rs"),("parse_title_line", P+"blocks/section.rs")],
  technique="constructive random generation of documents with a known multiset of warnings", note="The order of warnings is left open; so is where the text named by the warning about missing blocks ends."),
 dict(id="C28", title="String storage forms cannot be told apart",
  statement="A CowStr (and InlineStr) holds exactly the text it was made from, whether boxed, borrowed or inlined and however often cloned or converted: dereferencing, Display, alternate Debug, Borrow, conversion to Cow and String give that text, equality is equality of the texts, and equal texts hash equally (and like the str they can be looked up by). A text fits in an InlineStr exactly if it has at most three words less two bytes.",
  over=["inputs"], quant="all texts (arbitrary Unicode, lengths around the inline limit), all pairs of storage forms and conversions",
  why="Tests use fixed short ASCII texts; the limit of the inline form and multi-byte characters at it matter for all texts.",
  files=[P+"strings.rs"],
  mech=[("CowStr, InlineStr", P+"strings.rs")],
  technique="property-based testing of algebraic laws over all pairs of storage forms", note="Which storage form is chosen is left open."),
 dict(id="C29", title="Paths of images and icons are resolved and clean",
  statement="Resolving a web path joins target and start path, removes self references and resolves parent references as far as there is something to go up from: never above a root, kept at the front of a relative path; an absolute target ignores the start path; the URI prefix of the start path is kept; blanks are encoded; backslashes count as separators only where the file separator is one. Resolving the result again changes nothing. Images and icons use imagesdir and iconsdir as start path, except for targets that are URIs.",
  over=["inputs","configurations"], quant="all targets and start paths made from names, dots, empty segments, blanks, URI prefixes and backslashes; both file separators",
  why="Path clean-up is a fold over arbitrarily many segments with root and prefix cases; tests list forty paths.",
  files=[P+"parser/path_resolver.rs",P+"parser/inline_substitution_renderer.rs"],
  mech=[("PathResolver::web_path", P+"parser/path_resolver.rs"),("normalize_web_path", P+"parser/inline_substitution_renderer.rs")],
  technique="differential random testing against a reference resolver, plus idempotence and normal-form laws", note="An empty start path makes the target absolute (pinned by a test)."),
 dict(id="C31", title="The ASG schema allows exactly the graphs the language defines",
  statement="Every graph built from the node kinds of the abstract semantic graph (document with header, authors and attributes; sections; lists and description lists; leaf and parent blocks; headings, breaks and macros; spans, references and literals; metadata and locations) validates against asg/schema.json, and validation fills in the promised defaults (missing blocks, inlines and metadata lists become empty ones) and changes nothing else, at every depth. A graph with one fault is rejected wherever the fault is: a required property missing, one the node kind does not have, a value of the wrong type or out of range, a node kind where it may not stand. The validate-asg command prints nothing for a valid file, names the file and a reason otherwise, and takes an array as the inlines of a paragraph.",
  over=["inputs"], quant="all graphs nested up to 3 blocks deep with every optional property; all single faults of six kinds at every node",
  why="The schema is recursive and conditional and fills in values while it chooses between alternatives; the tests validate three small samples.",
  observe=["asg/bin/validate-asg.js","Ajv with asg/schema.json"], files=["asg/schema.json","asg/schema.js","asg/lib/ajv-keyword-defaults.js","asg/bin/validate-asg.js"],
  mech=[("the schema's definitions", "asg/schema.json"),("defaults keyword", "asg/lib/ajv-keyword-defaults.js"),("validate-asg", "asg/bin/validate-asg.js")],
  technique="constructive random generation of valid graphs and single-fault mutation of them, against the defaults computed by a model", note="Run with the Ajv and Node.js of the sandbox."),
 dict(id="C32", title="The spec-coverage report gives each page line the state its tests give it",
  statement="For every .adoc file below docs/modules (hidden files and folders left out) the sdd tool reports each non-empty line: 1 if the test file that tracks the page has the same line at the same position in a verifies! block, 0 if it has it in a to_do_verifies! block or the tracked text ends before it, and nothing if it is non-normative, differs, or is blank. Test files that are hidden, have another extension or track no page add nothing; a test file that tracks two pages is refused. The report is one JSON object with every page and every line once.",
  over=["inputs"], quant="all trees of pages and test files; pages up to 14 lines, blocks of all three kinds, complete, cut short or with differing lines; line ends LF and CRLF",
  why="The tool has no tests; the alignment of blocks and pages is a matter of the whole history of lines before.",
  observe=["standard output of the sdd tool"], files=["sdd/src/main.rs"],
  mech=[("parse_rs_file, emit_adoc_coverage", "sdd/src/main.rs")],
  technique="model-based random testing: generated trees of pages and test files in a scratch folder, the report compared with a model", note="Markers are written the way the repository writes them; each page is tracked by one test file."),
 dict(id="C33", title="All views of a block agree",
  statement="Whatever the document, a block gives the same answers through the Block enum and through the block inside it, and every derived query follows from what it is derived from: a copy equals the original; declared style, roles, options, has_option and id are those of the block's attribute list and anchor (through the section itself also a generated one); the resolved context is the declared style if that names a built-in context and the raw context otherwise; a title is there exactly with its source; content is there exactly for simple, verbatim and raw content models and nested blocks only for compound ones; the kind of medium or break matches the context; attributes of a list are found by name (the first of it) and by number; style, id, roles and options of an attribute are those of its shorthand items. The document as a block is compound and without metadata. Every ID a block has is in the catalog.",
  over=["inputs"], quant="all documents: trees of every kind of block, metadata lines of every kind before every kind of block, arbitrary lines",
  why="Tests ask a fixed document's block one question at a time; that every question through every view of every kind of block gives agreeing answers is a relation over all documents.",
  files=[P+"blocks/block.rs",P+"blocks/is_block.rs",P+"blocks/section.rs",P+"attributes/attrlist.rs",P+"attributes/element_attribute.rs"],
  mech=[("Block as IsBlock", P+"blocks/block.rs"),("IsBlock default methods", P+"blocks/is_block.rs"),("Attrlist queries", P+"attributes/attrlist.rs")],
  technique="property-based testing of consistency invariants over generated documents", note="What the attribute lists, titles and IDs are is the subject of C20, C21, C08 and C09."),
#NEXT
]
NOT_APPLICABLE = []
