From 423902962a5680fd924284f56242e09a0121ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 01/60] fix: inline image/icon macro without a target must not
 panic

An empty target ('image:[x]') matched with the target group missing, and
a one-character target ('image:a[]') was not recognized at all.
---
 parser/src/content/macros.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 0217002..6fc0010 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -111,9 +111,11 @@ static INLINE_IMAGE_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
             (                           # Group 1: the target
                 [^:\s\[\n]                  # First char: not colon, whitespace, [, or newline
-                [^\[\n]*?                   # Middle chars: any except [ or newline, lazily
-                [^\s\[\n]                   # Last char: not whitespace, [, or newline
-            )?                          # Entire target group is optional
+                (?:
+                    [^\[\n]*               # Middle chars: any except [ or newline
+                    [^\s\[\n]              # Last char: not whitespace, [, or newline
+                )?                      # A target may be a single character
+            )
 
             \[                          # Opening square bracket
 
-- 
2.43.0


From 4c4c6ec7c30d914dac11ad577a9f4236f5fcc1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 02/60] fix: one-character target in link and mailto macros
 must not panic

The 'empty target' alternative consumed one arbitrary character, which won
over the real target group for 'link:x[text]'.
---
 parser/src/content/macros.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 6fc0010..4bf02fc 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -419,16 +419,13 @@ static INLINE_LINK_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
         :                       # Colon after macro name
 
-        (?:                     # Non-capturing outer group
-            ().                 #   capture group 2: empty target
-          | ([^:\s\[] [^\s\[]*) #   capture group 3: valid target (no colon/space/'[')
-        )
+        ([^:\s\[] [^\s\[]*)     # capture group 2: target (no colon/space/'[')
 
         \[                      # Opening square bracket
 
         (?:                     # Non-capturing outer group
-            ()                  #   capture group 4: empty label
-          | (.*?[^\\])          #   capture group 5: minimally match anything, not ending in '\'
+            ()                  #   capture group 3: empty label
+          | (.*?[^\\])          #   capture group 4: minimally match anything, not ending in '\'
         )
 
         \]                      # Closing square bracket
@@ -449,21 +446,21 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
         }
 
         let (mailto, mailto_text, mut target) = if caps.get(1).is_some() {
-            let mailto_text = &caps[3];
+            let mailto_text = &caps[2];
             (
                 caps.get(1).map(|c| c.as_str()),
                 Some(mailto_text),
                 format!("mailto:{mailto_text}"),
             )
         } else {
-            (None, None, caps[3].to_string())
+            (None, None, caps[2].to_string())
         };
 
         let mut attrlist: Option<Attrlist<'_>> = None;
         let link_type = LinkRenderType::Link;
 
         let mut link_text = caps
-            .get(5)
+            .get(4)
             .map(|c| c.as_str().to_string())
             .unwrap_or_default();
 
-- 
2.43.0


From 067553a9ff194c521d6c73a4feff24bbbbe8effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 03/60] fix: bare URL followed by '>' must not panic

'&gt;' ends a URL only when the URL was introduced by '&lt;'. Without the
back-reference of the Ruby original the alternative was tried everywhere,
and its match had none of the groups the bare-link code reads.
---
 parser/src/content/macros.rs | 75 +++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 4bf02fc..ea7bf2c 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -209,18 +209,29 @@ fn normalize_text_lf_escaped_bracket(text: &str) -> String {
 }
 
 static INLINE_LINK: LazyLock<Regex> = LazyLock::new(|| {
+    // NOTE: A URL is terminated by `&gt;` only if it was preceded by `&lt;`. Ruby
+    // Asciidoctor expresses this with a back-reference, which is not available
+    // here, so these two cases are spelled out as separate alternatives.
     #[allow(clippy::unwrap_used)]
     Regex::new(
         r#"(?msx)
-        ( ^ | link: | [\ \t] | \\?&lt;() | [>\(\)\[\];"'] )   # capture group 1: prefix
-                                                              # capture group 2: flag for prefix == "&lt;"
-        ( \\? (?: https? | file | ftp | irc ):// )            # capture group 3: scheme
         (?:
-            ( [^\s\[\]]+ )                                    # capture group 4: target
-            \[ ( | .*?[^\\] ) \]                              # capture group 5: attrlist
-          | ( [^\s]+? ) &gt;                                  # capture group 6: URL inside <>
-          | ( [^\s\[\]<]* ( [^\s,.?!\[\]<\)] ) )              # capture group 7: bare link,
-                                                              # capture group 8: trailing char
+            ( \\?&lt; )                                       # prefix (angle bracket)
+            ( \\? (?: https? | file | ftp | irc ):// )        # scheme
+            (?:
+                ( [^\s\[\]]+ )                                # target
+                \[ ( | .*?[^\\] ) \]                          # attrlist
+              | ( [^\s]+? ) &gt;                              # URL inside <>
+              | ( [^\s\[\]<]* ( [^\s,.?!\[\]<\)] ) )          # bare link, trailing char
+            )
+        |
+            ( ^ | link: | [\ \t] | [>\(\)\[\];"'] )            # prefix (anything else)
+            ( \\? (?: https? | file | ftp | irc ):// )        # scheme
+            (?:
+                ( [^\s\[\]]+ )                                # target
+                \[ ( | .*?[^\\] ) \]                          # attrlist
+              | ( [^\s\[\]<]* ( [^\s,.?!\[\]<\)] ) )          # bare link, trailing char
+            )
         )
     "#,
     )
@@ -232,33 +243,47 @@ struct InlineLinkReplacer<'p>(&'p Parser);
 
 impl Replacer for InlineLinkReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
+        let angle_bracket_prefix = caps.get(1).map(|c| c.as_str());
+
+        // Groups 1..=7 describe a URL preceded by `&lt;`. Groups 8..=13 are the
+        // equivalent groups (except for the URL inside `<>`) for all other URLs.
+        let group = |angle: usize, other: usize| {
+            caps.get(angle)
+                .or_else(|| caps.get(other))
+                .map(|c| c.as_str())
+        };
+
+        let prefix = group(1, 8).unwrap_or_default();
+        let scheme = group(2, 9).unwrap_or_default();
+        let macro_target = group(3, 10);
+        let macro_attrlist = group(4, 11);
+        let angle_bracket_url = caps.get(5).map(|c| c.as_str());
+        let bare_link = group(6, 12).unwrap_or_default();
+        let tail = group(7, 13).unwrap_or_default();
+
         let mut attrlist = Attrlist::parse(Span::default(), self.0, AttrlistContext::Inline)
             .item
             .item;
 
-        if caps.get(2).is_some() && caps.get(5).is_none() {
+        if angle_bracket_prefix.is_some() && macro_attrlist.is_none() {
             // Honor the escapes.
-            if caps[1].starts_with('\\') {
+            if prefix.starts_with('\\') {
                 dest.push_str(&caps[0][1..]);
                 return;
             }
 
-            if caps[3].starts_with('\\') {
-                dest.push_str(&caps[1]);
-                dest.push_str(&caps[0][caps[1].len() + 1..]);
+            if scheme.starts_with('\\') {
+                dest.push_str(prefix);
+                dest.push_str(&caps[0][prefix.len() + 1..]);
                 return;
             }
 
-            let Some(link_suffix) = caps.get(6) else {
+            let Some(link_suffix) = angle_bracket_url else {
                 dest.push_str(&caps[0]);
                 return;
             };
 
-            let target = format!(
-                "{scheme}{link_suffix}",
-                scheme = &caps[3],
-                link_suffix = link_suffix.as_str()
-            );
+            let target = format!("{scheme}{link_suffix}");
 
             // TO DO (https://github.com/scouten/asciidoc-parser/issues/335):
             // doc.register :links, target
@@ -284,8 +309,7 @@ impl Replacer for InlineLinkReplacer<'_> {
             return;
         }
 
-        let mut prefix = caps[1].to_string();
-        let scheme = &caps[3];
+        let mut prefix = prefix.to_string();
 
         // Honor the escape.
         if scheme.starts_with('\\') {
@@ -296,20 +320,20 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut target = format!(
             "{scheme}{link_text}",
-            link_text = caps.get(4).map(|m| m.as_str()).unwrap_or_else(|| &caps[7])
+            link_text = macro_target.unwrap_or(bare_link)
         );
 
         let mut suffix = "".to_owned();
         let mut link_text: Option<String> = None;
 
-        // NOTE: If capture group 5 exists (the attrlist), we're looking at a formal macro (e.g., https://example.org[]).
-        if let Some(attrlist) = caps.get(5) {
+        // NOTE: If the attrlist exists, we're looking at a formal macro (e.g., https://example.org[]).
+        if let Some(attrlist) = macro_attrlist {
             if prefix == "link:" {
                 prefix = "".to_owned();
             }
 
             if !attrlist.is_empty() {
-                link_text = Some(attrlist.as_str().to_owned());
+                link_text = Some(attrlist.to_owned());
             }
         } else {
             if prefix == "link" || prefix == "\"" || prefix == "'" {
@@ -324,7 +348,6 @@ impl Replacer for InlineLinkReplacer<'_> {
                 return;
             }
 
-            let tail = &caps[8];
             if tail == ";" || tail == ":" {
                 // Move trailing semicolon or colon and adjacent ) if it exists
                 // out of the URL.
-- 
2.43.0


From 5c8dc7e7e92b3fe2947224246bf68c3536adff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 04/60] fix: leave a 'link:' URL without brackets alone

The captured prefix is 'link:', not 'link', so this invalid macro was
turned into 'link:<a href=...>' instead of being left as it was written.
---
 parser/src/content/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index ea7bf2c..68bdb21 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -336,7 +336,7 @@ impl Replacer for InlineLinkReplacer<'_> {
                 link_text = Some(attrlist.to_owned());
             }
         } else {
-            if prefix == "link" || prefix == "\"" || prefix == "'" {
+            if prefix == "link:" || prefix == "\"" || prefix == "'" {
                 // Note from the Ruby implementation which also applies to this if clause:
 
                 // Invalid macro syntax (link: prefix w/o trailing square brackets or URL
-- 
2.43.0


From 7d656cdfe12abd501e3243b4009b22bb76b52e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 05/60] fix: SVG image with 'inline' or 'interactive' option
 must not panic

Safe modes are not supported yet, so these images are rendered as Ruby
Asciidoctor renders them in its default (secure) mode.
---
 .../parser/inline_substitution_renderer.rs    | 52 ++++---------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index dd0ab13..6ea74b0 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -508,50 +508,16 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             ));
         }
 
-        let format = params
-            .attrlist
-            .named_attribute("format")
-            .map(|format| format.value());
-
         // TO DO (https://github.com/scouten/asciidoc-parser/issues/277):
-        // Enforce non-safe mode. Add this contraint to following `if` clause:
-        // `&& node.document.safe < SafeMode::SECURE`
-
-        let img = if format == Some("svg") || params.target.contains(".svg") {
-            // NOTE: In the SVG case we may have to ignore the attrs list.
-            if params.attrlist.has_option("inline") {
-                todo!(
-                    "Port this: {}",
-                    r#"img = (read_svg_contents node, target) || %(<span class="alt">#{node.alt}</span>)
-                    NOTE: The attrs list calculated above may not be usable.
-                    "#
-                );
-            } else if params.attrlist.has_option("interactive") {
-                todo!(
-                    "Port this: {}",
-                    r##"
-                        fallback = (node.attr? 'fallback') ? %(<img src="#{node.image_uri node.attr 'fallback'}" alt="#{encode_attribute_value node.alt}"#{attrs}#{@void_element_slash}>) : %(<span class="alt">#{node.alt}</span>)
-                        img = %(<object type="image/svg+xml" data="#{src = node.image_uri target}"#{attrs}>#{fallback}</object>)
-                        NOTE: The attrs list calculated above may not be usable.
-                    "##
-                );
-            } else {
-                format!(
-                    r#"<img {attrs}{void_element_slash}>"#,
-                    attrs = attrs.join(" "),
-                    void_element_slash = "",
-                )
-            }
-        } else {
-            format!(
-                r#"<img {attrs}{void_element_slash}>"#,
-                attrs = attrs.join(" "),
-                void_element_slash = "",
-                // img = %(<img src="#{src = node.image_uri target}"
-                // alt="#{encode_attribute_value node.alt}"#{attrs}#{@
-                // void_element_slash}>)
-            )
-        };
+        // The `inline` and `interactive` options for SVG images apply only when the
+        // safe mode is less than `SECURE`, which is the default. Since safe modes
+        // aren't supported yet, these images are rendered like all others.
+
+        let img = format!(
+            r#"<img {attrs}{void_element_slash}>"#,
+            attrs = attrs.join(" "),
+            void_element_slash = "",
+        );
 
         render_icon_or_image(params.attrlist, &img, &src, "image", dest);
     }
-- 
2.43.0


From 79ca80f55d1e8cf1604bf89b73a92546a64c72f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 06/60] fix: indented paragraph in a section is not a section
 title

A line that starts with whitespace passed for a title with no markers at
all; its level underflowed (a panic in debug builds, a bogus
SectionHeadingLevelSkipped warning otherwise).
---
 parser/src/blocks/section.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bba3540..91310b0 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -292,6 +292,11 @@ fn parse_title_line<'src>(
         }
     }
 
+    if count == 0 {
+        // Not a section title. (This might be an indented paragraph.)
+        return None;
+    }
+
     if count == 1 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
-- 
2.43.0


From b04ac7b4244440705433b16b86e649408e81fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 07/60] fix: line of non-ASCII whitespace must not hang the
 parser

Such a line is not 'empty' when blank lines are skipped, but yields no
paragraph either, so the block loop never advanced.
---
 parser/src/blocks/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 269fec4..0e1f6ed 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -34,6 +34,10 @@ where
         if let Some(mi) = maw.item {
             source = mi.after;
             blocks.push(mi.item);
+        } else {
+            // There is no block to be found here. (The line consists solely of whitespace
+            // other than spaces and tabs.) Skip the line to guarantee progress.
+            source = source.take_line().after.discard_empty_lines();
         }
     }
 
-- 
2.43.0


From c4d45be4cada0e39315b6e1536a80692a7a9eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 08/60] fix: rejected monospace match must not lose text or
 panic

After a rejected look-ahead the search restarts on the rest of the text,
but the end of the previous match was kept as an offset into the old text,
and the character skipped was assumed to be one byte long.
---
 parser/src/content/substitution_step.rs | 6 +++++-
 parser/src/internal/regex.rs            | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 7215f7e..af1f2ec 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -316,7 +316,11 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
             && self.scope == QuoteScope::Constrained
             && after.starts_with(['"', '\'', '`'])
         {
-            let skip_ahead = if caps[0].starts_with('\\') { 2 } else { 1 };
+            let skip_ahead = if caps[0].starts_with('\\') {
+                2
+            } else {
+                caps[0].chars().next().map_or(1, char::len_utf8)
+            };
             dest.push_str(&caps[0][0..skip_ahead]);
             return LookaheadResult::SkipAheadAndRetry(skip_ahead);
         }
diff --git a/parser/src/internal/regex.rs b/parser/src/internal/regex.rs
index a5b0db7..d37ec25 100644
--- a/parser/src/internal/regex.rs
+++ b/parser/src/internal/regex.rs
@@ -37,6 +37,7 @@ pub fn replace_with_lookahead<'h, LR: LookaheadReplacer>(
                 LookaheadResult::SkipAheadAndRetry(n) => {
                     assert!(n > 0);
                     haystack = &haystack[m.start() + n..];
+                    last_match = 0;
                     continue 'retry;
                 }
             }
-- 
2.43.0


From 3793d7c85dbf2ed4d9adccc3df6699ef7e941369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 09/60] fix: U+0096 in the source must not be taken for a
 passthrough mark

Text such as '<U+0096>0<U+0097>' was replaced by an unrelated passthrough
or an internal error message; inside that passthrough it recursed until
the stack overflowed.
---
 parser/src/content/passthroughs.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index d8ca641..95666bb 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -33,6 +33,31 @@ impl Passthroughs {
         // * passthroughs => self.saved_spans
         // * old_behavior => appears to affect the entire span
 
+        if content.rendered.contains('\u{96}') {
+            // The text already contains the character that we use to mark the place of an
+            // extracted passthrough. Treat each occurrence as a passthrough of its own so
+            // it can't be mistaken for such a mark.
+            let mut new_result = String::with_capacity(content.rendered.len());
+
+            for (index, part) in content.rendered.split('\u{96}').enumerate() {
+                if index > 0 {
+                    passthroughs.push(
+                        Passthrough {
+                            text: '\u{96}'.to_string(),
+                            subs: SubstitutionGroup::None,
+                            type_: None,
+                            attrlist: None,
+                        },
+                        &mut new_result,
+                    );
+                }
+
+                new_result.push_str(part);
+            }
+
+            content.rendered = new_result.into();
+        }
+
         {
             let text = content.rendered.as_ref();
             if text.contains("++") || text.contains("$$") || text.contains("ss:") {
-- 
2.43.0


From 286622efbd2da8947854730d70f7ba452e58fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 10/60] fix: passthrough mark in an attribute value must not
 cause endless recursion

---
 parser/src/content/passthroughs.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index 95666bb..f58a991 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -92,7 +92,7 @@ impl Passthroughs {
             return;
         }
 
-        let replacer = PassthroughRestoreReplacer(self, parser);
+        let replacer = PassthroughRestoreReplacer(self, parser, None);
 
         if let Cow::Owned(new_result) =
             PASS_WITH_INDEX.replace_all(content.rendered().as_ref(), replacer)
@@ -456,12 +456,20 @@ impl Replacer for InlinePassReplacer<'_> {
 }
 
 #[derive(Debug)]
-struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser);
+struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser, Option<usize>);
 
 impl Replacer for PassthroughRestoreReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
         let index = caps[1].parse::<usize>().unwrap_or_default();
 
+        // A passthrough can only contain those that were extracted before it. Anything
+        // else that looks like a mark comes from elsewhere (such as the value of an
+        // attribute) and could cause us to recurse forever.
+        if self.2.is_some_and(|enclosing| index >= enclosing) {
+            dest.push_str(&caps[0]);
+            return;
+        }
+
         let Some(pass) = self.0.0.get(index) else {
             dest.push_str(&format!(
                 "(INTERNAL ERROR: Unresolved passthrough index {index})"
@@ -500,7 +508,7 @@ impl Replacer for PassthroughRestoreReplacer<'_> {
 
         if subbed_text.rendered().contains('\u{96}') {
             // Recursively apply passthrough replacement and write the result.
-            let replacer = PassthroughRestoreReplacer(self.0, self.1);
+            let replacer = PassthroughRestoreReplacer(self.0, self.1, Some(index));
 
             let new_result = PASS_WITH_INDEX.replace_all(subbed_text.rendered().as_ref(), replacer);
 
-- 
2.43.0


From af8dd3bc7aecc8d170c73116253b644895a8861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 11/60] fix: '--' between a word and punctuation is not an em
 dash

---
 parser/src/content/substitution_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index af1f2ec..64a0cd5 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -569,7 +569,7 @@ static REPLACEMENTS: LazyLock<Vec<CharacterReplacement>> = LazyLock::new(|| {
             // Em dash without spaces `--`
             type_: CharacterReplacementType::EmDashWithoutSpace,
             #[allow(clippy::unwrap_used)]
-            pattern: Regex::new(r#"(\w)\\?--\b{start-half}"#).unwrap(),
+            pattern: Regex::new(r#"(\w)\\?--(?:\b{start}|(?m:$))"#).unwrap(),
         },
         CharacterReplacement {
             // Ellipsis `...`
-- 
2.43.0


From cae3ebee175fb00a0c9172f6977417703d2bcb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 12/60] fix: apostrophe replacement must not consume the letter
 that follows it

---
 parser/src/content/substitution_step.rs | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 64a0cd5..9853b12 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -514,7 +514,7 @@ fn apply_character_replacements(
             renderer,
         };
 
-        if let Cow::Owned(new_result) = repl.pattern.replace_all(&result, replacer) {
+        if let Cow::Owned(new_result) = replace_with_lookahead(&repl.pattern, &result, replacer) {
             result = new_result.into();
         }
         // If it's Cow::Borrowed, there was no match for this pattern, so no
@@ -587,7 +587,9 @@ static REPLACEMENTS: LazyLock<Vec<CharacterReplacement>> = LazyLock::new(|| {
             // Apostrophe (inside a word)
             type_: CharacterReplacementType::TypographicApostrophe,
             #[allow(clippy::unwrap_used)]
-            pattern: Regex::new(r#"([[:alnum:]])\\?'([[:alpha:]])"#).unwrap(),
+            pattern: Regex::new(r#"([\p{Alphabetic}\p{Nd}])\\?'"#).unwrap(),
+            // NB: The apostrophe must be followed by a letter. Since we don't have look-ahead
+            // in Rust Regex, CharacterReplacer checks for that.
         },
         CharacterReplacement {
             // Right arrow `->`
@@ -628,13 +630,26 @@ struct CharacterReplacer<'r> {
     renderer: &'r dyn InlineSubstitutionRenderer,
 }
 
-impl Replacer for CharacterReplacer<'_> {
-    fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
+impl LookaheadReplacer for CharacterReplacer<'_> {
+    fn replace_append(
+        &mut self,
+        caps: &Captures<'_>,
+        dest: &mut String,
+        after: &str,
+    ) -> LookaheadResult {
+        if self.type_ == CharacterReplacementType::TypographicApostrophe
+            && caps.get(1).is_some()
+            && !after.starts_with(char::is_alphabetic)
+        {
+            dest.push_str(&caps[0]);
+            return LookaheadResult::SkipAheadAndRetry(caps[0].len());
+        }
+
         if caps[0].contains('\\') {
             // We have to replace since we aren't sure the backslash is the first char.
             let unescaped = &caps[0].replace("\\", "");
             dest.push_str(unescaped);
-            return;
+            return LookaheadResult::Continue;
         }
 
         match self.type_ {
@@ -668,10 +683,6 @@ impl Replacer for CharacterReplacer<'_> {
                     CharacterReplacementType::TypographicApostrophe,
                     dest,
                 );
-
-                if let Some(after) = caps.get(2) {
-                    dest.push_str(after.as_str());
-                }
             }
 
             CharacterReplacementType::CharacterReference(_) => {
@@ -681,6 +692,8 @@ impl Replacer for CharacterReplacer<'_> {
                 );
             }
         }
+
+        LookaheadResult::Continue
     }
 }
 
-- 
2.43.0


From 617409e35cf22e55fa35577f232b31a94f06416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 13/60] fix: unterminated delimited block must have its
 substitutions applied

---
 parser/src/blocks/raw_delimited.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index 8561da4..bdc4a95 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -132,10 +132,16 @@ impl<'src> RawDelimitedBlock<'src> {
 
         let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
+        let mut content: Content<'src> = content.into();
+
+        substitution_group = substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
+
+        substitution_group.apply(&mut content, parser, metadata.attrlist.as_ref());
+
         Some(MatchAndWarnings {
             item: Some(MatchedItem {
                 item: Self {
-                    content: content.into(),
+                    content,
                     content_model,
                     context: context.into(),
                     source: metadata
-- 
2.43.0


From 3d8bd00b14ee6c7a1f91cc242ebaf7521ac29f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 14/60] fix: recognize the audio block macro

---
 parser/src/blocks/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 6d43cb1..da05d56 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -217,7 +217,7 @@ impl<'src> Block<'src> {
 
             if line.item.starts_with("image::")
                 || line.item.starts_with("video::")
-                || line.item.starts_with("video::")
+                || line.item.starts_with("audio::")
             {
                 let mut media_block_maw = MediaBlock::parse(&metadata, parser);
 
-- 
2.43.0


From 2da129cfe8171207698c9eb22d12f12cb4fab9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 15/60] fix: media block must keep its anchor's reference text

---
 parser/src/blocks/media.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/media.rs b/parser/src/blocks/media.rs
index 41ce255..e7e2c72 100644
--- a/parser/src/blocks/media.rs
+++ b/parser/src/blocks/media.rs
@@ -129,7 +129,7 @@ impl<'src> MediaBlock<'src> {
                     title_source: metadata.title_source,
                     title: metadata.title.clone(),
                     anchor: metadata.anchor,
-                    anchor_reftext: None,
+                    anchor_reftext: metadata.anchor_reftext,
                     attrlist: metadata.attrlist.clone(),
                 },
 
-- 
2.43.0


From 02fdd580739a24b357c07e02260dd56ec0b40534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 16/60] fix: section title must use the attribute values in
 effect where it stands

---
 parser/src/blocks/section.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 91310b0..1b8dc04 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -81,6 +81,13 @@ impl<'src> SectionBlock<'src> {
                 None
             };
 
+        // Render the section title and propose an ID BEFORE parsing child blocks because
+        // those might alter the attribute values used here.
+        let mut section_title = Content::from(level_and_title.item.1);
+        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
+
+        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
+
         let mut most_recent_level = level;
 
         let mut maw_blocks = parse_blocks_until(
@@ -92,11 +99,6 @@ impl<'src> SectionBlock<'src> {
         let blocks = maw_blocks.item;
         let source = metadata.source.trim_remainder(blocks.after);
 
-        let mut section_title = Content::from(level_and_title.item.1);
-        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
-
-        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
-
         let manual_id = metadata
             .attrlist
             .as_ref()
-- 
2.43.0


From b3b4d7ffc5bac0fb40f324a269589e406be2297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 17/60] fix: setting an attribute must not lift the restriction
 on where it may be set

---
 parser/src/parser/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 12be260..bd4bd7d 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -396,7 +396,10 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: existing_attr
+                .map_or(ModificationContext::Anywhere, |existing_attr| {
+                    existing_attr.modification_context.clone()
+                }),
             value,
         };
 
@@ -434,8 +437,10 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(attr.name().data());
 
+        let existing_attr = self.attribute_values.get(&attr_name);
+
         // Verify that we have permission to overwrite any existing attribute value.
-        if let Some(existing_attr) = self.attribute_values.get(&attr_name)
+        if let Some(existing_attr) = existing_attr
             && (existing_attr.modification_context != ModificationContext::Anywhere
                 && existing_attr.modification_context != ModificationContext::ApiOrDocumentBody)
         {
@@ -448,7 +453,10 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: existing_attr
+                .map_or(ModificationContext::Anywhere, |existing_attr| {
+                    existing_attr.modification_context.clone()
+                }),
             value: attr.value().clone(),
         };
 
-- 
2.43.0


From 967b98b5f86a34d518b634493264f8a6c6a6eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 18/60] fix: title, author, and revision lines must not change
 attributes locked by the API

---
 parser/src/parser/parser.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index bd4bd7d..44e3354 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -417,9 +417,23 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(name);
 
+        let existing_attr = self.attribute_values.get(&attr_name);
+
+        // A value which was locked by the API takes precedence over a value that is
+        // implied by the header.
+        if let Some(existing_attr) = existing_attr
+            && (existing_attr.modification_context == ModificationContext::ApiOnly
+                || existing_attr.modification_context == ModificationContext::ApiOrDocumentBody)
+        {
+            return;
+        }
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: existing_attr
+                .map_or(ModificationContext::Anywhere, |existing_attr| {
+                    existing_attr.modification_context.clone()
+                }),
             value: InterpretedValue::Value(value.as_ref().to_owned()),
         };
 
-- 
2.43.0


From 45dcee963d4269d8302c8ab8a049bbd10520222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 19/60] fix: attribute references are not case-sensitive

---
 parser/src/content/substitution_step.rs | 3 ++-
 parser/src/parser/preprocessor.rs       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 9853b12..2901dc3 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -459,7 +459,8 @@ struct AttributeReplacer<'p>(&'p Parser);
 
 impl Replacer for AttributeReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
-        let attr_name = &caps[1];
+        // Attribute names are always stored in lower case.
+        let attr_name = &caps[1].to_lowercase();
 
         // TO DO: Handle alternative responses ('skip', etc.) for missing attributes.
         if !self.0.has_attribute(attr_name) {
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c3fe096..e4f1ecf 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -187,7 +187,8 @@ impl<'p> PreprocessorState<'p> {
 
         impl Replacer for AttributeReplacer<'_> {
             fn replace_append(&mut self, caps: &regex::Captures<'_>, dest: &mut String) {
-                let attr_name = &caps[1];
+                // Attribute names are always stored in lower case.
+                let attr_name = &caps[1].to_lowercase();
 
                 if !self.0.has_attribute(attr_name) {
                     dest.push_str(&caps[0]);
-- 
2.43.0


From b75d70a1512957056c011d349cd3cf6ddee35391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 20/60] fix: recognize attribute entry after a delimited block
 and blank lines

---
 parser/src/blocks/parse_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 0e1f6ed..cf689a1 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -32,7 +32,8 @@ where
         }
 
         if let Some(mi) = maw.item {
-            source = mi.after;
+            // Not every kind of block consumes the blank lines that follow it.
+            source = mi.after.discard_empty_lines();
             blocks.push(mi.item);
         } else {
             // There is no block to be found here. (The line consists solely of whitespace
-- 
2.43.0


From b3bee9bcbee785074b8b656eb06c236c6e724e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 21/60] fix: unset 'icons' attribute means that icons are off

---
 parser/src/parser/inline_substitution_renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index 6ea74b0..b4f61e8 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -561,7 +561,7 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
     fn render_icon(&self, params: &IconRenderParams, dest: &mut String) {
         let src = self.icon_uri(params.target, params.attrlist, params.parser);
 
-        let img = if params.parser.has_attribute("icons") {
+        let img = if params.parser.is_attribute_set("icons") {
             let icons = params.parser.attribute_value("icons");
             if let Some(icons) = icons.as_maybe_str()
                 && icons == "font"
-- 
2.43.0


From bd84fdb17b8ee1bb8432a17742759a0c4427ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 22/60] fix: unescape closing bracket in link text that is
 followed by attributes

---
 parser/src/content/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 68bdb21..75ed386 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -363,7 +363,7 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut bare = false;
 
-        let link_text_for_attrlist = link_text.clone().unwrap_or_default();
+        let link_text_for_attrlist = link_text.clone().unwrap_or_default().replace("\\]", "]");
         let span_for_attrlist = Span::new(&link_text_for_attrlist);
         let mut window: Option<&'static str> = None;
 
@@ -487,7 +487,7 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
             .map(|c| c.as_str().to_string())
             .unwrap_or_default();
 
-        let link_text_for_attrlist = link_text.replace("\n", " ");
+        let link_text_for_attrlist = link_text.replace("\n", " ").replace("\\]", "]");
         let span_for_attrlist = Span::new(&link_text_for_attrlist);
         let mut window: Option<&'static str> = None;
 
-- 
2.43.0


From 131b40f86c2d6bdb68395856afde89f83afc35b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 23/60] fix: text of an inline macro must not be taken for
 shorthand roles, ID, or options

---
 parser/src/attributes/attrlist.rs |  6 +++++-
 parser/src/content/macros.rs      | 12 ++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/parser/src/attributes/attrlist.rs b/parser/src/attributes/attrlist.rs
index 2fda968..f40741f 100644
--- a/parser/src/attributes/attrlist.rs
+++ b/parser/src/attributes/attrlist.rs
@@ -35,7 +35,7 @@ impl<'src> Attrlist<'src> {
         attrlist_context: AttrlistContext,
     ) -> MatchAndWarnings<'src, MatchedItem<'src, Self>> {
         let mut attributes: Vec<ElementAttribute> = vec![];
-        let mut parse_shorthand_items = true;
+        let mut parse_shorthand_items = attrlist_context != AttrlistContext::Macro;
         let mut warnings: Vec<Warning<'src>> = vec![];
 
         // Apply attribute value substitutions before parsing attrlist content.
@@ -427,6 +427,10 @@ impl std::fmt::Debug for Attrlist<'_> {
 pub(crate) enum AttrlistContext {
     Block,
     Inline,
+
+    /// Attribute list of an inline macro. The shorthand syntax is not recognized
+    /// here because the first positional attribute is ordinary text.
+    Macro,
 }
 
 #[cfg(test)]
diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 75ed386..602d3db 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -143,7 +143,7 @@ impl Replacer for InlineImageMacroReplacer<'_> {
 
         let target = &caps[1];
         let span = Span::new(&caps[2]);
-        let attrlist = Attrlist::parse(span, self.0, AttrlistContext::Inline)
+        let attrlist = Attrlist::parse(span, self.0, AttrlistContext::Macro)
             .item
             .item;
 
@@ -261,7 +261,7 @@ impl Replacer for InlineLinkReplacer<'_> {
         let bare_link = group(6, 12).unwrap_or_default();
         let tail = group(7, 13).unwrap_or_default();
 
-        let mut attrlist = Attrlist::parse(Span::default(), self.0, AttrlistContext::Inline)
+        let mut attrlist = Attrlist::parse(Span::default(), self.0, AttrlistContext::Macro)
             .item
             .item;
 
@@ -533,7 +533,7 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
         let attrlist = if let Some(attrlist) = attrlist {
             attrlist
         } else {
-            Attrlist::parse(Span::default(), self.0, AttrlistContext::Inline)
+            Attrlist::parse(Span::default(), self.0, AttrlistContext::Macro)
                 .item
                 .item
         };
@@ -585,7 +585,7 @@ fn extract_attributes_from_text<'src>(
     parser: &Parser,
     default_text: Option<&str>,
 ) -> (String, Attrlist<'src>) {
-    let attrlist_maw = Attrlist::parse(*text, parser, AttrlistContext::Inline);
+    let attrlist_maw = Attrlist::parse(*text, parser, AttrlistContext::Macro);
     let attrs = attrlist_maw.item.item;
 
     if let Some(resolved_text) = attrs.nth_attribute(1) {
@@ -595,7 +595,7 @@ fn extract_attributes_from_text<'src>(
         // constraint that should make this impossible.
 
         /* if resolved_text.value() == text.data() {
-            let empty_attrs = Attrlist::parse(Span::default(), parser, AttrlistContext::Inline).item.item;
+            let empty_attrs = Attrlist::parse(Span::default(), parser, AttrlistContext::Macro).item.item;
             (text.data().to_owned(), empty_attrs)
         } else { */
         (resolved_text.value().to_owned(), attrs)
@@ -695,7 +695,7 @@ impl Replacer for InlineEmailReplacer<'_> {
 
         let target = format!("mailto:{mailto}", mailto = &caps[2]);
 
-        let attrlist = Attrlist::parse(Span::default(), self.0, AttrlistContext::Inline)
+        let attrlist = Attrlist::parse(Span::default(), self.0, AttrlistContext::Macro)
             .item
             .item;
 
-- 
2.43.0


From 733edb8bf996ff7065ff908ba75cd52c49fb3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:30 +0000
Subject: [PATCH 24/60] fix: comment line must not swallow the block that
 follows it

---
 parser/src/blocks/metadata.rs    |  8 ++++++++
 parser/src/blocks/parse_utils.rs |  9 +++++----
 parser/src/span/line.rs          | 30 ++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index dc0df46..9d29157 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -147,6 +147,14 @@ impl<'src> BlockMetadata<'src> {
                 continue;
             }
 
+            // A comment line may stand between the metadata items and the block.
+            if block_start != source {
+                block_start = block_start.discard_comment_lines();
+                if block_start != original_block_start {
+                    continue;
+                }
+            }
+
             // No more metadata items found.
             break;
         }
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index cf689a1..6d3138e 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -18,7 +18,7 @@ where
     let mut blocks: Vec<Block<'src>> = vec![];
     let mut warnings: Vec<Warning<'src>> = vec![];
 
-    source = source.discard_empty_lines();
+    source = source.discard_empty_and_comment_lines();
 
     while !source.data().is_empty() {
         if f(&source) {
@@ -32,13 +32,14 @@ where
         }
 
         if let Some(mi) = maw.item {
-            // Not every kind of block consumes the blank lines that follow it.
-            source = mi.after.discard_empty_lines();
+            // Not every kind of block consumes the blank lines that follow it. Comment
+            // lines between blocks are not part of any block.
+            source = mi.after.discard_empty_and_comment_lines();
             blocks.push(mi.item);
         } else {
             // There is no block to be found here. (The line consists solely of whitespace
             // other than spaces and tabs.) Skip the line to guarantee progress.
-            source = source.take_line().after.discard_empty_lines();
+            source = source.take_line().after.discard_empty_and_comment_lines();
         }
     }
 
diff --git a/parser/src/span/line.rs b/parser/src/span/line.rs
index 506a9a1..ddf0eca 100644
--- a/parser/src/span/line.rs
+++ b/parser/src/span/line.rs
@@ -80,6 +80,36 @@ impl<'src> Span<'src> {
         i
     }
 
+    /// Discard zero or more comment lines.
+    ///
+    /// A comment line starts with two forward slashes, not followed by a third.
+    ///
+    /// Return the original span if no comment lines are found.
+    pub(crate) fn discard_comment_lines(self) -> Span<'src> {
+        let mut i = self;
+
+        while i.starts_with("//") && !i.starts_with("///") {
+            i = i.take_line().after;
+        }
+
+        i
+    }
+
+    /// Discard zero or more empty lines and comment lines.
+    ///
+    /// Return the original span if no such lines are found.
+    pub(crate) fn discard_empty_and_comment_lines(self) -> Span<'src> {
+        let mut i = self;
+
+        loop {
+            let next = i.discard_empty_lines().discard_comment_lines();
+            if next == i {
+                return i;
+            }
+            i = next;
+        }
+    }
+
     /// Split the span, consuming one normalized, non-empty line that may be
     /// continued onto subsequent lines with an explicit continuation marker.
     ///
-- 
2.43.0


From 4a0dc06e209079c77756b64d7fab710edfbbc5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 25/60] fix: recognize the delimiters of a block that has the
 literal style

---
 parser/src/blocks/block.rs | 46 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index da05d56..066c391 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -159,33 +159,33 @@ impl<'src> Block<'src> {
         let is_literal =
             metadata.attrlist.as_ref().and_then(|a| a.block_style()) == Some("literal");
 
-        if !is_literal {
-            if let Some(mut rdb_maw) = RawDelimitedBlock::parse(&metadata, parser)
-                && let Some(rdb) = rdb_maw.item
-            {
-                if !rdb_maw.warnings.is_empty() {
-                    warnings.append(&mut rdb_maw.warnings);
-                }
+        if let Some(mut rdb_maw) = RawDelimitedBlock::parse(&metadata, parser)
+            && let Some(rdb) = rdb_maw.item
+        {
+            if !rdb_maw.warnings.is_empty() {
+                warnings.append(&mut rdb_maw.warnings);
+            }
 
-                let block = Self::RawDelimited(rdb.item);
+            let block = Self::RawDelimited(rdb.item);
 
-                Self::register_block_id(
-                    block.id(),
-                    block.title(),
-                    block.span(),
-                    parser,
-                    &mut warnings,
-                );
+            Self::register_block_id(
+                block.id(),
+                block.title(),
+                block.span(),
+                parser,
+                &mut warnings,
+            );
 
-                return MatchAndWarnings {
-                    item: Some(MatchedItem {
-                        item: block,
-                        after: rdb.after,
-                    }),
-                    warnings,
-                };
-            }
+            return MatchAndWarnings {
+                item: Some(MatchedItem {
+                    item: block,
+                    after: rdb.after,
+                }),
+                warnings,
+            };
+        }
 
+        if !is_literal {
             if let Some(mut cdb_maw) = CompoundDelimitedBlock::parse(&metadata, parser)
                 && let Some(cdb) = cdb_maw.item
             {
-- 
2.43.0


From 80a470a506400c17a5ae847c97055bf82370d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 26/60] fix: appendix numbering must start over for each
 document

---
 parser/src/parser/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 44e3354..5d4ef03 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -123,6 +123,7 @@ impl Parser {
 
         // Reset section numbering for each new document.
         self.last_section_number = SectionNumber::default();
+        self.last_appendix_section_number.components.clear();
 
         Document::parse(&preprocessed_source, source_map, self)
     }
-- 
2.43.0


From 39cdd6095c93905a30a123893aaac2d411ead5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:56 +0000
Subject: [PATCH 27/60] fix: discrete heading must not end the preamble

---
 parser/src/document/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/document/document.rs b/parser/src/document/document.rs
index 0469b39..22bb77a 100644
--- a/parser/src/document/document.rs
+++ b/parser/src/document/document.rs
@@ -7,7 +7,9 @@ use self_cell::self_cell;
 use crate::{
     Parser, Span,
     attributes::Attrlist,
-    blocks::{Block, ContentModel, IsBlock, Preamble, parse_utils::parse_blocks_until},
+    blocks::{
+        Block, ContentModel, IsBlock, Preamble, SectionType, parse_utils::parse_blocks_until,
+    },
     document::{Catalog, Header},
     internal::debug::DebugSliceReference,
     parser::SourceMap,
@@ -87,7 +89,9 @@ impl<'src> Document<'src> {
             for (index, block) in blocks.iter().enumerate() {
                 match block {
                     Block::DocumentAttribute(_) => (),
-                    Block::Section(_) => {
+                    Block::Section(section)
+                        if section.section_type() != SectionType::Discrete =>
+                    {
                         if has_content_blocks {
                             preamble_split_index = Some(index);
                         }
-- 
2.43.0


From afb9ab2532a4cc4efc8143862e5cc514d567d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:02 +0000
Subject: [PATCH 28/60] fix: warning about a heading's level must not be
 repeated or be raised for a block delimiter

---
 parser/src/blocks/section.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 1b8dc04..9eda7f2 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -345,7 +345,9 @@ fn peer_or_ancestor_section<'src>(
 
     let source_after_metadata = block_metadata.block_start;
 
-    if let Some(mi) = parse_title_line(source_after_metadata, warnings) {
+    // Ignore any warnings from the title line here. If there is anything to report,
+    // `SectionBlock::parse` will do so when this line is parsed as a block.
+    if let Some(mi) = parse_title_line(source_after_metadata, &mut vec![]) {
         let found_level = mi.item.0;
 
         if found_level > *most_recent_level + 1 {
-- 
2.43.0


From 4c5605cc2b4c13ae71777ec4fa29348278bc194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:08 +0000
Subject: [PATCH 29/60] fix: warning about a skipped heading level must point
 to the heading

---
 parser/src/blocks/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 9eda7f2..63b70db 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -352,7 +352,7 @@ fn peer_or_ancestor_section<'src>(
 
         if found_level > *most_recent_level + 1 {
             warnings.push(Warning {
-                source: source.take_normalized_line().item,
+                source: source_after_metadata.take_normalized_line().item,
                 warning: WarningType::SectionHeadingLevelSkipped(*most_recent_level, found_level),
             });
         }
-- 
2.43.0


From 1e0cd7de3b6312bd8a2b1751716a645873a55f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:16 +0000
Subject: [PATCH 30/60] fix: break must keep its anchor's reference text

---
 parser/src/blocks/break.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/break.rs b/parser/src/blocks/break.rs
index 96bff37..6684aaf 100644
--- a/parser/src/blocks/break.rs
+++ b/parser/src/blocks/break.rs
@@ -14,6 +14,7 @@ pub struct Break<'src> {
     title_source: Option<Span<'src>>,
     title: Option<String>,
     anchor: Option<Span<'src>>,
+    anchor_reftext: Option<Span<'src>>,
     attrlist: Option<Attrlist<'src>>,
 }
 
@@ -61,6 +62,7 @@ impl<'src> Break<'src> {
                 title_source: metadata.title_source,
                 title: metadata.title.clone(),
                 anchor: metadata.anchor,
+                anchor_reftext: metadata.anchor_reftext,
                 attrlist: metadata.attrlist.clone(),
             },
 
@@ -100,7 +102,7 @@ impl<'src> IsBlock<'src> for Break<'src> {
     }
 
     fn anchor_reftext(&'src self) -> Option<Span<'src>> {
-        None
+        self.anchor_reftext
     }
 
     fn attrlist(&'src self) -> Option<&'src Attrlist<'src>> {
-- 
2.43.0


From 9cd6613dc5eece2334f3bea8673d548e9072368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 31/60] fix: anchor line that no block follows must not be
 dropped

---
 parser/src/blocks/block.rs    | 1 +
 parser/src/blocks/metadata.rs | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 066c391..e4f7923 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -307,6 +307,7 @@ impl<'src> Block<'src> {
                 metadata.title_source = None;
                 metadata.title = None;
                 metadata.anchor = None;
+                metadata.anchor_reftext = None;
                 metadata.attrlist = None;
                 metadata.block_start = metadata.source;
             }
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index 9d29157..f1e4c7f 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -179,9 +179,9 @@ impl<'src> BlockMetadata<'src> {
         }
     }
 
-    /// Return `true` if both `title` and `attrlist` are empty.
+    /// Return `true` if `title`, `anchor`, and `attrlist` are empty.
     pub(crate) fn is_empty(&self) -> bool {
-        self.title.is_none() && self.attrlist.is_none()
+        self.title.is_none() && self.anchor.is_none() && self.attrlist.is_none()
     }
 
     /// Return `true` if this block metadata has either the `discrete` or
-- 
2.43.0


From 2566f99dadd4b9bc1df7c338cbc660727f4099a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:55 +0000
Subject: [PATCH 32/60] fix: comment block is not content of a preamble

---
 parser/src/document/document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/document/document.rs b/parser/src/document/document.rs
index 22bb77a..153c03c 100644
--- a/parser/src/document/document.rs
+++ b/parser/src/document/document.rs
@@ -89,6 +89,7 @@ impl<'src> Document<'src> {
             for (index, block) in blocks.iter().enumerate() {
                 match block {
                     Block::DocumentAttribute(_) => (),
+                    Block::RawDelimited(raw) if raw.raw_context().as_ref() == "comment" => (),
                     Block::Section(section)
                         if section.section_type() != SectionType::Discrete =>
                     {
-- 
2.43.0


From ced42ff063be150242573d448d296f9e3132bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:01 +0000
Subject: [PATCH 33/60] fix: catalog must have the section under the ID that
 the section reports

---
 parser/src/blocks/section.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 63b70db..8807071 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -100,10 +100,10 @@ impl<'src> SectionBlock<'src> {
         let source = metadata.source.trim_remainder(blocks.after);
 
         let manual_id = metadata
-            .attrlist
+            .anchor
             .as_ref()
-            .and_then(|a| a.id())
-            .or_else(|| metadata.anchor.as_ref().map(|anchor| anchor.data()));
+            .map(|anchor| anchor.data())
+            .or_else(|| metadata.attrlist.as_ref().and_then(|a| a.id()));
 
         let reftext = metadata
             .attrlist
-- 
2.43.0


From 0946add03c98a4024624f1ae4ee0110202f5243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 34/60] fix: catalog must have the reference text from a
 block's attribute list

---
 parser/src/blocks/block.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index e4f7923..85ff73c 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -120,7 +120,7 @@ impl<'src> Block<'src> {
 
             Self::register_block_id(
                 block.id(),
-                block.title(),
+                block.reftext(),
                 block.span(),
                 parser,
                 &mut warnings,
@@ -170,7 +170,7 @@ impl<'src> Block<'src> {
 
             Self::register_block_id(
                 block.id(),
-                block.title(),
+                block.reftext(),
                 block.span(),
                 parser,
                 &mut warnings,
@@ -197,7 +197,7 @@ impl<'src> Block<'src> {
 
                 Self::register_block_id(
                     block.id(),
-                    block.title(),
+                    block.reftext(),
                     block.span(),
                     parser,
                     &mut warnings,
@@ -233,7 +233,7 @@ impl<'src> Block<'src> {
 
                     Self::register_block_id(
                         block.id(),
-                        block.title(),
+                        block.reftext(),
                         block.span(),
                         parser,
                         &mut warnings,
@@ -325,7 +325,7 @@ impl<'src> Block<'src> {
         if let Some(ref matched_item) = result.item {
             Self::register_block_id(
                 matched_item.item.id(),
-                matched_item.item.title(),
+                matched_item.item.reftext(),
                 matched_item.item.span(),
                 parser,
                 &mut result.warnings,
@@ -335,13 +335,22 @@ impl<'src> Block<'src> {
         result
     }
 
+    /// Return the text by which this block can be referenced: The reference text
+    /// from its attribute list or, if there is none, its title.
+    fn reftext(&'src self) -> Option<&'src str> {
+        self.attrlist()
+            .and_then(|attrlist| attrlist.named_attribute("reftext"))
+            .map(|reftext| reftext.value())
+            .or_else(|| self.title())
+    }
+
     /// Register a block's ID with the catalog if the block has an ID.
     ///
     /// This should be called for all block types except `SectionBlock`,
     /// which handles its own catalog registration.
     fn register_block_id(
         id: Option<&str>,
-        title: Option<&str>,
+        reftext: Option<&str>,
         span: Span<'src>,
         parser: &mut Parser,
         warnings: &mut Vec<Warning<'src>>,
@@ -350,7 +359,7 @@ impl<'src> Block<'src> {
             && let Some(catalog) = parser.catalog_mut()
             && let Err(_duplicate_error) = catalog.register_ref(
                 id,
-                title, // Use block title as reftext if available
+                reftext,
                 RefType::Anchor,
             )
         {
-- 
2.43.0


From e5556fe020b9ae794d9861aa45551bd5f6fd3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 35/60] fix: catalog must have the ID of a break

---
 parser/src/blocks/block.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 85ff73c..ff3d8c5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -276,9 +276,19 @@ impl<'src> Block<'src> {
             {
                 // Continue quietly if `Break` parser rejects this block.
 
+                let block = Self::Break(mi_break.item);
+
+                Self::register_block_id(
+                    block.id(),
+                    block.reftext(),
+                    block.span(),
+                    parser,
+                    &mut warnings,
+                );
+
                 return MatchAndWarnings {
                     item: Some(MatchedItem {
-                        item: Self::Break(mi_break.item),
+                        item: block,
                         after: mi_break.after,
                     }),
                     warnings,
-- 
2.43.0


From 80281144ae0f533d47aac8182bde55b15b67a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 36/60] fix: literal style with no block after it must not be
 dropped

---
 parser/src/blocks/block.rs | 52 +++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index ff3d8c5..ae4be8d 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -294,33 +294,33 @@ impl<'src> Block<'src> {
                     warnings,
                 };
             }
+        }
 
-            // First, let's look for a fun edge case. Perhaps the text contains block
-            // metadata but no block immediately following. If we're not careful, we could
-            // spin in a loop (for example, `parse_blocks_until`) thinking there will be
-            // another block, but there isn't.
-
-            // The following check disables that spin loop.
-            let simple_block_mi = SimpleBlock::parse(&metadata, parser);
-
-            if simple_block_mi.is_none() && !metadata.is_empty() {
-                // We have a metadata with no block. Treat it as a simple block but issue a
-                // warning.
-
-                warnings.push(Warning {
-                    source: metadata.source,
-                    warning: WarningType::MissingBlockAfterTitleOrAttributeList,
-                });
-
-                // Remove the metadata content so that SimpleBlock will read the title/attrlist
-                // line(s) as regular content.
-                metadata.title_source = None;
-                metadata.title = None;
-                metadata.anchor = None;
-                metadata.anchor_reftext = None;
-                metadata.attrlist = None;
-                metadata.block_start = metadata.source;
-            }
+        // First, let's look for a fun edge case. Perhaps the text contains block
+        // metadata but no block immediately following. If we're not careful, we could
+        // spin in a loop (for example, `parse_blocks_until`) thinking there will be
+        // another block, but there isn't.
+
+        // The following check disables that spin loop.
+        let simple_block_mi = SimpleBlock::parse(&metadata, parser);
+
+        if simple_block_mi.is_none() && !metadata.is_empty() {
+            // We have a metadata with no block. Treat it as a simple block but issue a
+            // warning.
+
+            warnings.push(Warning {
+                source: metadata.source,
+                warning: WarningType::MissingBlockAfterTitleOrAttributeList,
+            });
+
+            // Remove the metadata content so that SimpleBlock will read the title/attrlist
+            // line(s) as regular content.
+            metadata.title_source = None;
+            metadata.title = None;
+            metadata.anchor = None;
+            metadata.anchor_reftext = None;
+            metadata.attrlist = None;
+            metadata.block_start = metadata.source;
         }
 
         // If no other block kind matches, we can always use SimpleBlock.
-- 
2.43.0


From 120e84ec8aa7de7a147f9056a4bd1b5de9043d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:35 +0000
Subject: [PATCH 37/60] fix: section ID must not contain parts of tags or
 character references

---
 parser/src/blocks/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 8807071..0c55e46 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -392,7 +392,7 @@ fn generate_section_id(title: &str, parser: &Parser) -> String {
     #[allow(clippy::unwrap_used)]
     static INVALID_SECTION_ID_CHARS: LazyLock<Regex> = LazyLock::new(|| {
         Regex::new(
-            r"<[^>]+>|&lt;[^&]*&gt;|&(?:[a-z][a-z]+\d{0,2}|#\d{2,5}|#x[\da-f]{2,4});|[^ \w\-.]+",
+            r"<[^>]+>|&lt;[^&]*&gt;|&(?:[a-z][a-z]+\d{0,2}|#\d{2,5}|#x[\da-f]{2,4});|[^ \w\-.]",
         )
         .unwrap()
     });
-- 
2.43.0


From 7ffe6b6e445140ea293a0d162dd2ead4c59decc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 38/60] fix: appendix after the 26th must have letters

---
 parser/src/blocks/section.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 0c55e46..818a2ad 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -499,9 +499,7 @@ impl fmt::Display for SectionNumber {
                 .enumerate()
                 .map(|(index, x)| {
                     if index == 0 && self.section_type == SectionType::Appendix {
-                        char::from_u32(b'A' as u32 + (x - 1) as u32)
-                            .unwrap_or('?')
-                            .to_string()
+                        appendix_letters(*x)
                     } else {
                         x.to_string()
                     }
@@ -512,6 +510,18 @@ impl fmt::Display for SectionNumber {
     }
 }
 
+/// Return the letters for the n-th appendix: `A` to `Z`, then `AA`, `AB`, etc.
+fn appendix_letters(mut n: usize) -> String {
+    let mut letters = String::new();
+
+    while n > 0 {
+        letters.insert(0, (b'A' + ((n - 1) % 26) as u8) as char);
+        n = (n - 1) / 26;
+    }
+
+    letters
+}
+
 impl fmt::Debug for SectionNumber {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_struct("SectionNumber")
-- 
2.43.0


From 079782215eab17416d7b0a307aa01ea4b677739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:50 +0000
Subject: [PATCH 39/60] fix: incremental substitutions of a pass paragraph must
 start from none

---
 parser/src/content/substitution_group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_group.rs b/parser/src/content/substitution_group.rs
index bf0a5b4..c0eb804 100644
--- a/parser/src/content/substitution_group.rs
+++ b/parser/src/content/substitution_group.rs
@@ -201,7 +201,7 @@ impl SubstitutionGroup {
             if let Some(sub_group) = attrlist
                 .named_attribute("subs")
                 .map(|attr| attr.value())
-                .and_then(|s| Self::from_custom_string(Some(self), s))
+                .and_then(|s| Self::from_custom_string(Some(&result), s))
             {
                 result = sub_group;
             }
-- 
2.43.0


From 0f216d6b0ab1be8a56f76e1d4e983f3d2a7db54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 40/60] fix: hardbreaks set through the API must be the same
 attribute as in a document

---
 parser/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 5d4ef03..3a01685 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -219,7 +219,7 @@ impl Parser {
         };
 
         self.attribute_values
-            .insert(name.as_ref().to_lowercase(), attribute_value);
+            .insert(remap_attr_name(name), attribute_value);
 
         self
     }
@@ -314,7 +314,7 @@ impl Parser {
         };
 
         self.attribute_values
-            .insert(name.as_ref().to_lowercase(), attribute_value);
+            .insert(remap_attr_name(name), attribute_value);
 
         self
     }
-- 
2.43.0


From 6c0660c9d547195f9eb1701ae733585442b33b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:01 +0000
Subject: [PATCH 41/60] fix: rendered raw block must not depend on the kind of
 line end

---
 parser/src/blocks/raw_delimited.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index bdc4a95..75056d1 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -97,7 +97,7 @@ impl<'src> RawDelimitedBlock<'src> {
             if line.item.data() == delimiter.item.data() {
                 let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
-                let mut content: Content<'src> = content.into();
+                let mut content = normalize_line_ends(content);
 
                 substitution_group =
                     substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
@@ -132,7 +132,7 @@ impl<'src> RawDelimitedBlock<'src> {
 
         let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
-        let mut content: Content<'src> = content.into();
+        let mut content = normalize_line_ends(content);
 
         substitution_group = substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
 
@@ -170,6 +170,16 @@ impl<'src> RawDelimitedBlock<'src> {
     }
 }
 
+/// Lines of raw content are joined by a line feed, however they end in the
+/// source.
+fn normalize_line_ends<'src>(content: Span<'src>) -> Content<'src> {
+    if content.data().contains("\r\n") {
+        Content::from_filtered(content, content.data().replace("\r\n", "\n"))
+    } else {
+        content.into()
+    }
+}
+
 impl<'src> IsBlock<'src> for RawDelimitedBlock<'src> {
     fn content_model(&self) -> ContentModel {
         self.content_model
-- 
2.43.0


From 00f80716f0e9d557bcb38dc25c2cb03931bb51be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 42/60] fix: line of an unresolved include directive must have
 its own source location

---
 parser/src/parser/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index e4f1ecf..adff880 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -142,6 +142,14 @@ impl<'p> PreprocessorState<'p> {
                     // Re-report the including file if there's more content.
                     has_reported_file = false;
                 } else {
+                    if !has_reported_file {
+                        has_reported_file = true;
+                        self.source_map.append(
+                            self.output_line_number,
+                            SourceLine(to_owned(file_name), source_line_number),
+                        );
+                    }
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
-- 
2.43.0


From 25d255d91b7cb21d8bb0ce2eb0b7882fbf24bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 43/60] fix: include directive may have a one-character
 attribute list or trailing space

---
 parser/src/parser/preprocessor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index adff880..7f164a9 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -246,10 +246,12 @@ static INCLUDE_DIRECTIVE: LazyLock<Regex> = LazyLock::new(|| {
 
         \[                          # Literal '[' starting the attributes block
 
-        ([^\]].+)?                  # (2) Optional contents inside brackets (lazy by default)
+        ([^\]].*)?                  # (2) Optional contents inside brackets (lazy by default)
 
         \]                          # Literal closing bracket
 
+        [\ \t]*                     # Trailing space is ignored
+
         $                           # End of line
         "#,
     )
-- 
2.43.0


From fcfadad3533c82d1c9570ec02936a63c178869fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 44/60] fix: include directive in the header must see the
 attributes set in the header

---
 parser/src/parser/preprocessor.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 7f164a9..8cce89c 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -46,6 +46,7 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
     in_document_header: bool,
+    has_document_title: bool,
     can_have_attribute: bool,
     include_depth: usize,
     output_line_number: usize,
@@ -58,6 +59,7 @@ impl<'p> PreprocessorState<'p> {
         Self {
             parser,
             in_document_header: true,
+            has_document_title: false,
             can_have_attribute: true,
             include_depth: 0,
             output_line_number: 1,
@@ -98,8 +100,13 @@ impl<'p> PreprocessorState<'p> {
                 }
 
                 let mut warnings: Vec<Warning> = vec![];
-                self.parser
-                    .set_attribute_from_body(&attr.item, &mut warnings);
+                if self.in_document_header {
+                    self.parser
+                        .set_attribute_from_header(&attr.item, &mut warnings);
+                } else {
+                    self.parser
+                        .set_attribute_from_body(&attr.item, &mut warnings);
+                }
 
                 self.output.push_str(attr.item.span().data());
                 self.output.push('\n');
@@ -167,11 +174,25 @@ impl<'p> PreprocessorState<'p> {
                     );
                 }
 
+                let is_comment = line.starts_with("//") && !line.starts_with("///");
+
                 if line.is_empty() {
-                    self.in_document_header = false;
+                    if self.has_document_title {
+                        self.in_document_header = false;
+                    }
                     self.can_have_attribute = true;
-                } else if !self.in_document_header {
-                    self.can_have_attribute = false;
+                } else if self.in_document_header
+                    && !self.has_document_title
+                    && line.starts_with("= ")
+                {
+                    self.has_document_title = true;
+                } else if !is_comment {
+                    if !self.has_document_title {
+                        self.in_document_header = false;
+                    }
+                    if !self.in_document_header {
+                        self.can_have_attribute = false;
+                    }
                 }
 
                 self.output_line_number += 1;
-- 
2.43.0


From 744b4cb90ca13c87de596cbb6a67d62a470bf503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:19 +0000
Subject: [PATCH 45/60] fix: file that includes itself must not overflow the
 stack

---
 parser/src/parser/preprocessor.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 8cce89c..59e9c53 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -42,6 +42,10 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
     (state.output, state.source_map)
 }
 
+/// Include directives which are nested deeper than this are not resolved. (A
+/// file might include itself.)
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 #[derive(Debug)]
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
@@ -137,10 +141,11 @@ impl<'p> PreprocessorState<'p> {
                     })
                     .unwrap_or_default();
 
-                if let Some(include_text) =
-                    self.parser.include_file_handler.as_ref().and_then(|ifh| {
-                        ifh.resolve_target(file_name, &target, &attrlist, self.parser)
-                    })
+                if self.include_depth <= MAX_INCLUDE_DEPTH
+                    && let Some(include_text) =
+                        self.parser.include_file_handler.as_ref().and_then(|ifh| {
+                            ifh.resolve_target(file_name, &target, &attrlist, self.parser)
+                        })
                 {
                     // TODO: Use process_adoc_include or (TBD) depending on
                     // whether it's an Asciidoc file type.
-- 
2.43.0


From 4dcb8d93165fdd7cdc3e88a0305a8e17d9fb724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 46/60] fix: preprocessor must not drop the empty line that
 ends an attribute value

---
 parser/src/parser/preprocessor.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 59e9c53..788709f 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -3,7 +3,7 @@ use std::{borrow::Cow, sync::LazyLock};
 use regex::{Regex, Replacer};
 
 use crate::{
-    HasSpan, Parser, Span,
+    Parser, Span,
     attributes::{Attrlist, AttrlistContext},
     document::{Attribute, InterpretedValue},
     parser::{SourceLine, SourceMap},
@@ -112,18 +112,15 @@ impl<'p> PreprocessorState<'p> {
                         .set_attribute_from_body(&attr.item, &mut warnings);
                 }
 
-                self.output.push_str(attr.item.span().data());
-                self.output.push('\n');
+                // NOTE: The span of the attribute doesn't include a trailing line which is
+                // empty, but that line is needed to end its value.
+                let attr_lines = original_source.trim_remainder(attr.after);
 
-                self.output_line_number += attr
-                    .item
-                    .span()
-                    .data()
-                    .as_bytes()
-                    .iter()
-                    .filter(|&&b| b == b'\n')
-                    .count()
-                    + 1;
+                for attr_line in attr_lines.data().lines() {
+                    self.output.push_str(attr_line);
+                    self.output.push('\n');
+                    self.output_line_number += 1;
+                }
 
                 source_span = attr.after;
             } else if line.starts_with("include::")
-- 
2.43.0


From a4326ffb7f4815b52d391780c4bb4eaefe691a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:12 +0000
Subject: [PATCH 47/60] fix: line of spaces must be an empty line to the
 preprocessor

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 788709f..c779fcc 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -178,7 +178,7 @@ impl<'p> PreprocessorState<'p> {
 
                 let is_comment = line.starts_with("//") && !line.starts_with("///");
 
-                if line.is_empty() {
+                if line.chars().all(|c| c == ' ') {
                     if self.has_document_title {
                         self.in_document_header = false;
                     }
-- 
2.43.0


From d23a815e4f162e5b89e89ca53c6eb5f300ae2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 48/60] fix: revision attributes must have the values that the
 revision line reports

---
 parser/src/document/revision_line.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/src/document/revision_line.rs b/parser/src/document/revision_line.rs
index 06f1ac3..6215079 100644
--- a/parser/src/document/revision_line.rs
+++ b/parser/src/document/revision_line.rs
@@ -45,20 +45,23 @@ impl<'src> RevisionLine<'src> {
             }
         };
 
+        let revnumber = revnumber.map(|s| apply_header_subs(&s, parser));
         if let Some(revnumber) = revnumber.as_deref() {
             parser.set_attribute_by_value_from_header("revnumber", revnumber);
         }
 
+        let revdate = apply_header_subs(&revdate, parser);
         parser.set_attribute_by_value_from_header("revdate", &revdate);
 
+        let revremark = revremark.map(|s| apply_header_subs(&s, parser));
         if let Some(revremark) = revremark.as_deref() {
             parser.set_attribute_by_value_from_header("revremark", revremark);
         }
 
         Self {
-            revnumber: revnumber.map(|s| apply_header_subs(&s, parser)),
-            revdate: apply_header_subs(&revdate, parser),
-            revremark: revremark.map(|s| apply_header_subs(&s, parser)),
+            revnumber,
+            revdate,
+            revremark,
             source,
         }
     }
-- 
2.43.0


From f54e83cefd3895cff208cdcb8a581ed565c5f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:30 +0000
Subject: [PATCH 49/60] fix: special characters in the author line must be
 escaped

---
 parser/src/document/author.rs | 69 +++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/parser/src/document/author.rs b/parser/src/document/author.rs
index a362bc8..3cf8beb 100644
--- a/parser/src/document/author.rs
+++ b/parser/src/document/author.rs
@@ -2,7 +2,10 @@ use std::sync::LazyLock;
 
 use regex::Regex;
 
-use crate::{Parser, Span, content::Content};
+use crate::{
+    Parser, Span,
+    content::{Content, SubstitutionStep},
+};
 
 /// Represents a single author as (typically) described on the [author line].
 ///
@@ -55,22 +58,24 @@ impl Author {
             })
         } else if let Some(captures) = AUTHOR.captures(source) {
             // Raw input matches author pattern: Extract components then apply
-            // substitutions.
+            // substitutions. (Names do not contain attribute references here.)
             let name_without_email = source.split_once('<').unwrap_or((source, "")).0.trim();
-            let name = replace_underscores_with_spaces(name_without_email.to_string());
-
-            // Extract raw components first.
-            let firstname =
-                replace_underscores_with_spaces(apply_author_subs(&captures[1], parser));
-            let mut middlename = captures
-                .get(2)
-                .map(|m| replace_underscores_with_spaces(apply_author_subs(m.as_str(), parser)));
-            let mut lastname = captures
-                .get(3)
-                .map(|m| replace_underscores_with_spaces(apply_author_subs(m.as_str(), parser)));
-            let email = captures
-                .get(4)
-                .map(|m| apply_author_subs(m.as_str(), parser));
+            let render_name = |name: &str| {
+                replace_underscores_with_spaces(escape_special_characters(name, parser))
+            };
+
+            let name = render_name(name_without_email);
+            let firstname = render_name(&captures[1]);
+            let mut middlename = captures.get(2).map(|m| render_name(m.as_str()));
+            let mut lastname = captures.get(3).map(|m| render_name(m.as_str()));
+
+            let email = captures.get(4).map(|m| {
+                if m.as_str().contains('{') {
+                    apply_author_subs(m.as_str(), parser)
+                } else {
+                    escape_special_characters(m.as_str(), parser)
+                }
+            });
 
             if middlename.is_some() && lastname.is_none() {
                 lastname = middlename;
@@ -146,19 +151,7 @@ impl Author {
         } else {
             // Input doesn't contain attributes and doesn't match pattern: Treat as single
             // name.
-            let mut name = source.to_string();
-
-            // Apply HTML encoding for unparseable patterns that contain angle brackets.
-            if name.contains('<') && name.contains('>') {
-                let span = crate::Span::new(&name);
-                let mut content = crate::content::Content::from(span);
-                crate::content::SubstitutionStep::SpecialCharacters.apply(
-                    &mut content,
-                    parser,
-                    None,
-                );
-                name = content.rendered().to_string();
-            }
+            let name = escape_special_characters(source, parser);
 
             let name_with_spaces = replace_underscores_with_spaces(name);
             Some(Self {
@@ -263,11 +256,25 @@ static AUTHOR: LazyLock<Regex> = LazyLock::new(|| {
     .unwrap()
 });
 
-fn apply_author_subs(source: &str, parser: &Parser) -> String {
+/// Escape special characters, but leave character references as they are.
+fn escape_special_characters(source: &str, parser: &Parser) -> String {
     let span = Span::new(source);
     let mut content = Content::from(span);
+    SubstitutionStep::SpecialCharacters.apply(&mut content, parser, None);
 
-    use crate::content::SubstitutionStep;
+    ESCAPED_CHARACTER_REFERENCE
+        .replace_all(content.rendered(), "&$1;")
+        .into_owned()
+}
+
+static ESCAPED_CHARACTER_REFERENCE: LazyLock<Regex> = LazyLock::new(|| {
+    #[allow(clippy::unwrap_used)]
+    Regex::new(r"&amp;([a-zA-Z][a-zA-Z]+\d{0,2}|#\d{2,7}|#x[\da-fA-F]{2,6});").unwrap()
+});
+
+fn apply_author_subs(source: &str, parser: &Parser) -> String {
+    let span = Span::new(source);
+    let mut content = Content::from(span);
 
     // Apply attribute references first.
     SubstitutionStep::AttributeReferences.apply(&mut content, parser, None);
-- 
2.43.0


From fd0997fbf24c4912592d2a20683f6b541100c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 50/60] fix: attribute after an empty one must keep its name

---
 parser/src/attributes/attrlist.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/src/attributes/attrlist.rs b/parser/src/attributes/attrlist.rs
index f40741f..1b385f7 100644
--- a/parser/src/attributes/attrlist.rs
+++ b/parser/src/attributes/attrlist.rs
@@ -109,14 +109,12 @@ impl<'src> Attrlist<'src> {
                 Some(comma) => {
                     after = comma.after.take_whitespace().after;
 
-                    if after.starts_with(',') {
+                    while after.starts_with(',') {
                         warnings.push(Warning {
                             source,
                             warning: WarningType::EmptyAttributeValue,
                         });
-                        after = after.discard(1);
-                        index = after.byte_offset();
-                        continue;
+                        after = after.discard(1).take_whitespace().after;
                     }
 
                     index = after.byte_offset();
-- 
2.43.0


From fa9800dbdc983396d651a980e63a906101b44bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 51/60] fix: an attribute list with an attribute reference can
 make a heading in a section discrete

---
 parser/src/blocks/compound_delimited.rs |  2 +-
 parser/src/blocks/parse_utils.rs        |  4 ++--
 parser/src/blocks/section.rs            | 10 ++++++++--
 parser/src/document/document.rs         |  2 +-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/parser/src/blocks/compound_delimited.rs b/parser/src/blocks/compound_delimited.rs
index ccd2da0..373114c 100644
--- a/parser/src/blocks/compound_delimited.rs
+++ b/parser/src/blocks/compound_delimited.rs
@@ -101,7 +101,7 @@ impl<'src> CompoundDelimitedBlock<'src> {
 
         let inside_delimiters = delimiter.after.trim_remainder(closing_delimiter);
 
-        let maw_blocks = parse_blocks_until(inside_delimiters, |_| false, parser);
+        let maw_blocks = parse_blocks_until(inside_delimiters, |_, _| false, parser);
 
         let blocks = maw_blocks.item;
         let source = metadata
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 6d3138e..6d392b4 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -13,7 +13,7 @@ pub(crate) fn parse_blocks_until<'src, F>(
     parser: &mut Parser,
 ) -> MatchAndWarnings<'src, MatchedItem<'src, Vec<Block<'src>>>>
 where
-    F: FnMut(&Span<'src>) -> bool,
+    F: FnMut(&Span<'src>, &Parser) -> bool,
 {
     let mut blocks: Vec<Block<'src>> = vec![];
     let mut warnings: Vec<Warning<'src>> = vec![];
@@ -21,7 +21,7 @@ where
     source = source.discard_empty_and_comment_lines();
 
     while !source.data().is_empty() {
-        if f(&source) {
+        if f(&source, parser) {
             break;
         }
 
diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 818a2ad..f267a13 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -92,7 +92,10 @@ impl<'src> SectionBlock<'src> {
 
         let mut maw_blocks = parse_blocks_until(
             level_and_title.after,
-            |i| discrete || peer_or_ancestor_section(*i, level, &mut most_recent_level, warnings),
+            |i, parser| {
+                discrete
+                    || peer_or_ancestor_section(*i, level, parser, &mut most_recent_level, warnings)
+            },
             parser,
         );
 
@@ -328,13 +331,16 @@ fn parse_title_line<'src>(
 fn peer_or_ancestor_section<'src>(
     source: Span<'src>,
     level: usize,
+    parser: &Parser,
     most_recent_level: &mut usize,
     warnings: &mut Vec<Warning<'src>>,
 ) -> bool {
     // Skip over any block metadata (title, anchor, attrlist) to find the actual
     // section line. We create a temporary parser to avoid modifying the real
-    // parser state.
+    // parser state. (It needs the current attribute values because the attribute
+    // list may refer to those.)
     let mut temp_parser = Parser::default();
+    temp_parser.attribute_values = parser.attribute_values.clone();
 
     let block_metadata_maw = BlockMetadata::parse(source, &mut temp_parser);
 
diff --git a/parser/src/document/document.rs b/parser/src/document/document.rs
index 153c03c..8ace955 100644
--- a/parser/src/document/document.rs
+++ b/parser/src/document/document.rs
@@ -76,7 +76,7 @@ impl<'src> Document<'src> {
             let header = mi.item.item;
             let mut warnings = mi.warnings;
 
-            let mut maw_blocks = parse_blocks_until(after_header, |_| false, parser);
+            let mut maw_blocks = parse_blocks_until(after_header, |_, _| false, parser);
 
             if !maw_blocks.warnings.is_empty() {
                 warnings.append(&mut maw_blocks.warnings);
-- 
2.43.0


From d702cd37551e050e90b66636c5e2a797517d8abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:40 +0000
Subject: [PATCH 52/60] fix: sdd counted the lines of to_do_verifies! blocks,
 which say that nothing verifies them yet, as verified

---
 sdd/src/main.rs | 50 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/sdd/src/main.rs b/sdd/src/main.rs
index af5d48b..53bdd90 100644
--- a/sdd/src/main.rs
+++ b/sdd/src/main.rs
@@ -9,8 +9,15 @@ use std::{collections::HashMap, fs, io::BufRead, path::Path};
 
 use walkdir::{DirEntry, WalkDir};
 
+#[derive(Clone, Copy)]
+enum LineKind {
+    NonNormative,
+    Verified,
+    ToDo,
+}
+
 fn main() {
-    let mut spec_coverage: HashMap<String, Vec<(String, bool)>> = HashMap::new();
+    let mut spec_coverage: HashMap<String, Vec<(String, LineKind)>> = HashMap::new();
 
     let rs_files: Vec<DirEntry> = WalkDir::new("../parser/src/tests")
         .into_iter()
@@ -96,7 +103,7 @@ fn main() {
     println!("    }}\n}}");
 }
 
-fn parse_rs_file(path: &Path) -> Option<(String, Vec<(String, bool)>)> {
+fn parse_rs_file(path: &Path) -> Option<(String, Vec<(String, LineKind)>)> {
     // if !path.ends_with("revision_line.rs") {
     //     return None;
     // }
@@ -104,9 +111,10 @@ fn parse_rs_file(path: &Path) -> Option<(String, Vec<(String, bool)>)> {
     let rs_file = fs::read(path).unwrap();
 
     let mut tracked_file: Option<String> = None;
-    let mut lines: Vec<(String, bool)> = vec![];
+    let mut lines: Vec<(String, LineKind)> = vec![];
     let mut in_non_normative_block = false;
     let mut in_verifies_block = false;
+    let mut in_to_do_block = false;
 
     for line in rs_file.lines() {
         let line = line.unwrap();
@@ -125,6 +133,15 @@ fn parse_rs_file(path: &Path) -> Option<(String, Vec<(String, bool)>)> {
             // println!("NN+");
             in_non_normative_block = true;
             in_verifies_block = false;
+            in_to_do_block = false;
+            continue;
+        }
+
+        if line.contains("to_do_verifies!(") {
+            // println!("TD+");
+            in_non_normative_block = false;
+            in_verifies_block = false;
+            in_to_do_block = true;
             continue;
         }
 
@@ -132,6 +149,7 @@ fn parse_rs_file(path: &Path) -> Option<(String, Vec<(String, bool)>)> {
             // println!("VF+");
             in_non_normative_block = false;
             in_verifies_block = true;
+            in_to_do_block = false;
             continue;
         }
 
@@ -139,6 +157,7 @@ fn parse_rs_file(path: &Path) -> Option<(String, Vec<(String, bool)>)> {
             // println!("QQQ");
             in_non_normative_block = false;
             in_verifies_block = false;
+            in_to_do_block = false;
             continue;
         }
 
@@ -149,10 +168,13 @@ fn parse_rs_file(path: &Path) -> Option<(String, Vec<(String, bool)>)> {
 
         if in_non_normative_block {
             // println!("NN  {line}");
-            lines.push((line, false));
+            lines.push((line, LineKind::NonNormative));
         } else if in_verifies_block {
             // println!("VF  {line}");
-            lines.push((line, true));
+            lines.push((line, LineKind::Verified));
+        } else if in_to_do_block {
+            // println!("TD  {line}");
+            lines.push((line, LineKind::ToDo));
         } else {
             // println!("--  {line}");
         }
@@ -161,7 +183,7 @@ fn parse_rs_file(path: &Path) -> Option<(String, Vec<(String, bool)>)> {
     tracked_file.map(|tracked_file| (tracked_file, lines))
 }
 
-fn emit_adoc_coverage(path: &str, coverage: Option<&Vec<(String, bool)>>) {
+fn emit_adoc_coverage(path: &str, coverage: Option<&Vec<(String, LineKind)>>) {
     // if !path.contains("/id.adoc") {
     //     return;
     // }
@@ -169,7 +191,7 @@ fn emit_adoc_coverage(path: &str, coverage: Option<&Vec<(String, bool)>>) {
     let path = format!("../{path}");
     let adoc_file = fs::read(path).unwrap();
 
-    let empty_coverage: Vec<(String, bool)> = vec![];
+    let empty_coverage: Vec<(String, LineKind)> = vec![];
     let coverage = if let Some(coverage) = coverage.as_ref() {
         coverage
     } else {
@@ -192,10 +214,18 @@ fn emit_adoc_coverage(path: &str, coverage: Option<&Vec<(String, bool)>>) {
             continue;
         }
 
-        if let Some((cov_line, is_normative)) = coverage_line {
+        if let Some((cov_line, kind)) = coverage_line {
             // println!("      {cov_line}");
-            if cov_line == &line && *is_normative {
-                output_lines.push(format!("            \"{count}\": 1"));
+            if cov_line == &line {
+                match kind {
+                    LineKind::NonNormative => {}
+                    LineKind::Verified => {
+                        output_lines.push(format!("            \"{count}\": 1"));
+                    }
+                    LineKind::ToDo => {
+                        output_lines.push(format!("            \"{count}\": 0"));
+                    }
+                }
             }
         } else {
             output_lines.push(format!("            \"{count}\": 0"));
-- 
2.43.0


From 02c33513c7e22bb29101a9ac18b968ab451ada40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:40 +0000
Subject: [PATCH 53/60] fix: keep trailing plus signs and backslashes that are
 content in a multi-line attribute value

---
 parser/src/document/attribute.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index a069ce4..19936ae 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -188,18 +188,25 @@ impl InterpretedValue {
                         line
                     };
 
+                    let line = line.trim_start_matches('\r').trim_end_matches(' ');
+
+                    if count == last_count {
+                        return line.to_string();
+                    }
+
                     let line = line
-                        .trim_start_matches('\r')
-                        .trim_end_matches(' ')
-                        .trim_end_matches('\\')
+                        .strip_suffix('\\')
+                        .unwrap_or(line)
                         .trim_end_matches(' ');
 
-                    if line.ends_with('+') {
-                        format!("{}\n", line.trim_end_matches('+').trim_end_matches(' '))
-                    } else if count < last_count {
-                        format!("{line} ")
+                    // A hard line break is a plus sign preceded by a space; any other trailing
+                    // plus sign is content.
+                    if line == "+" {
+                        "\n".to_string()
+                    } else if let Some(line) = line.strip_suffix(" +") {
+                        format!("{}\n", line.trim_end_matches(' '))
                     } else {
-                        line.to_string()
+                        format!("{line} ")
                     }
                 })
                 .collect();
-- 
2.43.0


From da01ba7b9a389d1faecb76409ac07fe8ebc3de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:46 +0000
Subject: [PATCH 54/60] fix: a line whose text follows the closing colon
 directly is not an attribute entry

---
 parser/src/blocks/block.rs        | 1 -
 parser/src/document/attribute.rs  | 5 +++++
 parser/src/parser/preprocessor.rs | 1 -
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index ae4be8d..ff185b7 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -134,7 +134,6 @@ impl<'src> Block<'src> {
 
         // Look for document attributes first since these don't support block metadata.
         if first_line.item.starts_with(':')
-            && (first_line.item.ends_with(':') || first_line.item.contains(": "))
             && let Some(attr) = Attribute::parse(source, parser)
         {
             let mut warnings: Vec<Warning<'src>> = vec![];
diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index 19936ae..a2a2df9 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -60,6 +60,11 @@ impl<'src> Attribute<'src> {
 
         let line = line.take_prefix(":")?;
 
+        // A value must be offset from the closing colon.
+        if !line.after.is_empty() && !line.after.starts_with([' ', '\t']) {
+            return None;
+        }
+
         let (value, value_source) = if unset {
             // Ensure line is now empty except for comment.
             (InterpretedValue::Unset, None)
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c779fcc..55516bc 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -88,7 +88,6 @@ impl<'p> PreprocessorState<'p> {
 
             if self.can_have_attribute
                 && line.starts_with(':')
-                && (line.ends_with(':') || line.contains(": "))
                 && let Some(attr) = Attribute::parse(original_source, self.parser)
             {
                 // Process attribute entries so they're available for include directives. NOTE:
-- 
2.43.0


From 27bf9cf8b42e570a714cf7d94eaf5aa4b28617d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:14 +0000
Subject: [PATCH 55/60] fix: every character reference is left out of generated
 section IDs, whatever its length

---
 parser/src/blocks/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index f267a13..b167b1b 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -398,7 +398,7 @@ fn generate_section_id(title: &str, parser: &Parser) -> String {
     #[allow(clippy::unwrap_used)]
     static INVALID_SECTION_ID_CHARS: LazyLock<Regex> = LazyLock::new(|| {
         Regex::new(
-            r"<[^>]+>|&lt;[^&]*&gt;|&(?:[a-z][a-z]+\d{0,2}|#\d{2,5}|#x[\da-f]{2,4});|[^ \w\-.]",
+            r"<[^>]+>|&lt;[^&]*&gt;|&(?:[a-z][a-z]+\d{0,2}|#\d{2,6}|#x[\da-f]{2,5});|[^ \w\-.]",
         )
         .unwrap()
     });
-- 
2.43.0


From 0f51046f2cb524a26d5143c1fdfb85ce87317489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:18 +0000
Subject: [PATCH 56/60] fix: escaped brackets and line ends are normalized in
 all attributes of inline images and icons

---
 parser/src/content/macros.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 602d3db..628e657 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -142,7 +142,8 @@ impl Replacer for InlineImageMacroReplacer<'_> {
         }
 
         let target = &caps[1];
-        let span = Span::new(&caps[2]);
+        let attrlist_text = normalize_text_lf_escaped_bracket(&caps[2]);
+        let span = Span::new(&attrlist_text);
         let attrlist = Attrlist::parse(span, self.0, AttrlistContext::Macro)
             .item
             .item;
@@ -164,9 +165,7 @@ impl Replacer for InlineImageMacroReplacer<'_> {
                 target,
                 alt: attrlist
                     .named_or_positional_attribute("alt", 1)
-                    .map_or(default_alt, |a| {
-                        normalize_text_lf_escaped_bracket(a.value())
-                    }),
+                    .map_or(default_alt, |a| a.value().to_string()),
                 width: attrlist
                     .named_or_positional_attribute("width", 2)
                     .map(|a| a.value()),
@@ -181,9 +180,9 @@ impl Replacer for InlineImageMacroReplacer<'_> {
         } else {
             let params = IconRenderParams {
                 target,
-                alt: attrlist.named_attribute("alt").map_or(default_alt, |a| {
-                    normalize_text_lf_escaped_bracket(a.value())
-                }),
+                alt: attrlist
+                    .named_attribute("alt")
+                    .map_or(default_alt, |a| a.value().to_string()),
                 size: attrlist
                     .named_or_positional_attribute("size", 1)
                     .map(|a| a.value()),
-- 
2.43.0


From d76e06d1a08e5b904762f5b917a7ef4fe56aa634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:59 +0000
Subject: [PATCH 57/60] fix: line end in attributes of URL macro must be a
 blank, as for other links

---
 parser/src/content/macros.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 628e657..9071c9f 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -362,7 +362,11 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut bare = false;
 
-        let link_text_for_attrlist = link_text.clone().unwrap_or_default().replace("\\]", "]");
+        let link_text_for_attrlist = link_text
+            .clone()
+            .unwrap_or_default()
+            .replace("\n", " ")
+            .replace("\\]", "]");
         let span_for_attrlist = Span::new(&link_text_for_attrlist);
         let mut window: Option<&'static str> = None;
 
-- 
2.43.0


From fedf876cb950a7d963775ead19fcb7688b560615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:11 +0000
Subject: [PATCH 58/60] fix: encode quotes in the title of an icon, as in the
 title of an image

---
 parser/src/parser/inline_substitution_renderer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index b4f61e8..1c99e91 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -585,7 +585,10 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
                     r##"<i class="{i_class_attr_val}"{title_attr}></i>"##,
                     i_class_attr_val = i_class_attrs.join(" "),
                     title_attr = if let Some(title) = params.attrlist.named_attribute("title") {
-                        format!(r#" title="{title}""#, title = title.value())
+                        format!(
+                            r#" title="{title}""#,
+                            title = encode_attribute_value(title.value().to_owned())
+                        )
                     } else {
                         "".to_owned()
                     }
@@ -608,7 +611,10 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
                 }
 
                 if let Some(title) = params.attrlist.named_attribute("title") {
-                    attrs.push(format!(r#"title="{title}""#, title = title.value()));
+                    attrs.push(format!(
+                        r#"title="{title}""#,
+                        title = encode_attribute_value(title.value().to_owned())
+                    ));
                 }
 
                 format!(
-- 
2.43.0


From 598236ae807e980eb0848acca16c263ef4a95975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:15 +0000
Subject: [PATCH 59/60] fix: use the reference text of a block anchor, as
 documented, also in the catalog

---
 parser/src/blocks/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index ff185b7..dd8fdba 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -345,11 +345,12 @@ impl<'src> Block<'src> {
     }
 
     /// Return the text by which this block can be referenced: The reference text
-    /// from its attribute list or, if there is none, its title.
+    /// from its attribute list or its anchor or, if there is none, its title.
     fn reftext(&'src self) -> Option<&'src str> {
         self.attrlist()
             .and_then(|attrlist| attrlist.named_attribute("reftext"))
             .map(|reftext| reftext.value())
+            .or_else(|| self.anchor_reftext().map(|reftext| reftext.data()))
             .or_else(|| self.title())
     }
 
-- 
2.43.0


From a2831b762471806f1a6c96696059ade00b732492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:11 +0000
Subject: [PATCH 60/60] fix: a title line of just = and blanks must not be
 taken for a document title by the preprocessor

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 55516bc..d211dad 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -184,7 +184,7 @@ impl<'p> PreprocessorState<'p> {
                     self.can_have_attribute = true;
                 } else if self.in_document_header
                     && !self.has_document_title
-                    && line.starts_with("= ")
+                    && line.trim_trailing_whitespace().starts_with("= ")
                 {
                     self.has_document_title = true;
                 } else if !is_comment {
-- 
2.43.0

