From d93f7a978809047168a87c4f124f57df2cd5d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 01/42] fix: documents with a flow collection or empty hash at
 the root can be formatted and parsed again

The root value was written after '--- ', which the grammar does not accept, and
a root '{...}' was not accepted at all.
---
 src/yaml.pest        |  2 +-
 src/yaml/document.rs | 11 ++++++++++-
 src/yaml/parser.rs   |  3 ++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aa93289..616399b 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -92,5 +92,5 @@ leading_comments = { (blanknl* ~ commentnl ~ blanknl*)* }
 blank = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | (SPACE_SEPARATOR* ~ NEWLINE)? }
 blanknl = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | SPACE_SEPARATOR* ~ NEWLINE }
 
-document = { hash | array }
+document = { hash | array | inline_hash }
 yaml = { SOI ~ leading_comments ~ "---" ~ blanknl ~ commentnls ~ document ~ blank ~ (comment ~ blank)* ~ spaces ~ EOI }
diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 2e6faea..ed67ccc 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -82,7 +82,16 @@ impl Document {
         for item in self.items.iter() {
             match item {
                 DocumentData::Comment(c) => write!(&mut s, "\n#{}", c),
-                DocumentData::Yaml(y) => y.format(&mut s, 0, None),
+                DocumentData::Yaml(y) => {
+                    let mut content = String::new();
+                    y.format(&mut content, 0, None)?;
+                    if content.starts_with('\n') {
+                        s.push_str(&content);
+                    } else {
+                        write!(&mut s, "\n{}", content.trim_start_matches(' '))?;
+                    }
+                    Ok(())
+                }
             }?;
         }
         Ok(s)
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 9e664d1..cd9990a 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -518,7 +518,8 @@ impl YamlParser {
     fn document(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
         [hash(h)] => Ok(h),
-        [array(a)] => Ok(a))
+        [array(a)] => Ok(a),
+        [inline_hash(h)] => Ok(h))
     }
 
     fn yaml(input: Node) -> InternalYamlResult<Document> {
-- 
2.43.0


From 20fd0366f1d1a48da0385c88960ab09c4008d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 02/42] fix: don't read the indentation before a scalar on its
 own line as part of the scalar

---
 src/yaml.pest | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 616399b..ccfc724 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -9,12 +9,12 @@ number = @{
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
-disallowed_unquoted_inline_string_start_elements = { "," | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | NEWLINE }
+disallowed_unquoted_inline_string_start_elements = { " " | "," | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | NEWLINE }
 disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ": " | "\"" | "#" | ">" | "|" | NEWLINE }
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_start_elements = { " " | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
@@ -67,7 +67,7 @@ alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
 
-yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
+yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | SPACE_SEPARATOR* ~ inline_value }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
 first_hash_element = { hash_element ~ comment? }
-- 
2.43.0


From ac3f847ea71f0fa9df46fccb14e3e65ed514577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 03/42] fix: a flow scalar ending with ':' can be parsed again
 after formatting

The formatter writes a space before the closing bracket, which made the colon
look like a key separator.
---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index ccfc724..dae04b6 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -9,8 +9,8 @@ number = @{
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
-disallowed_unquoted_inline_string_start_elements = { " " | "," | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | NEWLINE }
-disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ": " | "\"" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_inline_string_start_elements = { " " | "," | "[" | "]" | "{" | "}" | ":" ~ " "+ ~ !("," | "]" | "}" | " " | NEWLINE) | "\"" | "'" | "#" | NEWLINE }
+disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ":" ~ " "+ ~ !("," | "]" | "}" | " " | NEWLINE) | "\"" | "#" | ">" | "|" | NEWLINE }
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-- 
2.43.0


From 304dc1a0e71b20f93d47bd5e29c6320a92a91912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 04/42] fix: an anchor may be on its own line and doesn't
 attach to the value of the next line's key

---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index dae04b6..d8e6a2a 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -65,10 +65,10 @@ array = { inline_array | block_array }
 alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
-alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
+alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ (alternative_hash | alternative_array) }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | SPACE_SEPARATOR* ~ inline_value }
-aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
+aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
-- 
2.43.0


From 5b393de3eefc261734b2faeb158cc6566ebf94a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 05/42] fix: nested block arrays with one element or with
 comments are parsed with the right nesting

'- - a\n- b' was read as one nested array with two elements.
---
 src/yaml.pest      |  9 +++++----
 src/yaml/parser.rs | 35 +++++++++++++++++++++++++++--------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index d8e6a2a..9227ded 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -57,19 +57,20 @@ inline_value = { (anchor | inline_array | inline_hash | string ) }
 inline_array_value = { (anchor | inline_array | inline_hash | inline_array_string ) }
 
 inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ inline_array_value)*)? ~ spaces ~ "]" }
-block_array_element = { "-" ~ SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value }
+block_array_element = { "-" ~ (SPACE_SEPARATOR+ | &NEWLINE) ~ block_array_aliased_yaml_value }
 first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
-block_array = { commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
+block_array = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
-alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
+alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
+alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ (alternative_hash | alternative_array) }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | SPACE_SEPARATOR* ~ inline_value }
 aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
+hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
 hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index cd9990a..451702b 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -356,6 +356,7 @@ impl YamlParser {
         //println!("{:#?}", input);
         match_nodes!(input.into_children();
                 [hash_key(key), block_array_aliased_yaml_value(value)] => Ok(HashElement { key, value }),
+                [hash_key(key), aliased_yaml_value(value)] => Ok(HashElement { key, value }),
         )
     }
 
@@ -480,17 +481,35 @@ impl YamlParser {
         ))
     }
 
-    fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
+    fn alternative_array_continuation(input: Node) -> InternalYamlResult<Vec<ArrayData>> {
         match_nodes!(input.into_children();
-        [first_block_array_element(element1),first_block_array_element(element2), block_array_data(elements).., commentnls(cs)] => Ok(
-            Yaml::Array(
-                element1.into_iter()
-                .chain(element2.into_iter())
+            [commentnls(cs), first_block_array_element(element), block_array_data(elements)..] => Ok(
+                cs.into_iter().map(|c| ArrayData::Comment(c))
+                .chain(element.into_iter())
                 .chain(elements.into_iter().flatten())
-                .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
                 .collect()
-            )
-        ))
+            ),
+        )
+    }
+
+    fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
+        match_nodes!(input.into_children();
+            [first_block_array_element(element1), alternative_array_continuation(cont), commentnls(cs)] => Ok(
+                Yaml::Array(
+                    element1.into_iter()
+                    .chain(cont.into_iter())
+                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                    .collect()
+                )
+            ),
+            [first_block_array_element(element1), commentnls(cs)] => Ok(
+                Yaml::Array(
+                    element1.into_iter()
+                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                    .collect()
+                )
+            ),
+        )
     }
 
     fn commentnls(input: Node) -> InternalYamlResult<Vec<String>> {
-- 
2.43.0


From 5a5c6203a7a08f093aec6027b05d61baa226d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 06/42] fix: '#' only starts a comment after a space

'url: a#b' was read as the value 'a' with the comment 'b'.
---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 9227ded..086ffd5 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -10,12 +10,12 @@ number = @{
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
 disallowed_unquoted_inline_string_start_elements = { " " | "," | "[" | "]" | "{" | "}" | ":" ~ " "+ ~ !("," | "]" | "}" | " " | NEWLINE) | "\"" | "'" | "#" | NEWLINE }
-disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ":" ~ " "+ ~ !("," | "]" | "}" | " " | NEWLINE) | "\"" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ":" ~ " "+ ~ !("," | "]" | "}" | " " | NEWLINE) | "\"" | SPACE_SEPARATOR+ ~ "#" | ">" | "|" | NEWLINE }
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
 disallowed_unquoted_string_start_elements = { " " | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
-disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
+disallowed_unquoted_string_elements = { ": " | SPACE_SEPARATOR+ ~ "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
 unquoted_string = @{ unquoted_string_start_elements ~ unquoted_string_elements* }
-- 
2.43.0


From 846cb2263960188e99326e85c421a3401ad54d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 07/42] fix: block strings keep their leading blank lines and
 report bad indentation as a parse error

The first line determined the indentation even when it was blank, less indented
lines were cut or made the parser panic, just like an indentation indicator that
is 0 or too big.
---
 src/yaml.pest      |  7 +++--
 src/yaml/mod.rs    | 13 +++++++--
 src/yaml/parser.rs | 73 ++++++++++++++++++++++++++++++----------------
 3 files changed, 63 insertions(+), 30 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 086ffd5..170fd07 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -41,10 +41,11 @@ string = { unquoted_string | double_quoted_string | single_quoted_string }
 inline_array_string = { unquoted_inline_string | double_quoted_string | single_quoted_string }
 
 block_string = @{ (!NEWLINE ~ ANY)+ | "" }
-block_empty_lines = @{ NEWLINE* }
+block_leading_lines = @{ (!(PEEK ~ " ") ~ " "* ~ NEWLINE)* }
+block_empty_lines = @{ (!PEEK[-2..] ~ " "* ~ NEWLINE)* }
 string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
-string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
-string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_trailing = @{ (NEWLINE ~ " "* ~ &NEWLINE)* }
+string_multiline_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
 string_multiline_indent = { (NUMBER+)* } 
 string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_indent ~ string_multiline_content }
 string_multiline_literal = { "|" ~ string_block_chomping? ~  string_multiline_indent  ~ string_multiline_content }
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9c27b94..a84f089 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -449,7 +449,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " |")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if starts_with_indented_line(lines) {
                             write!(f, "2")?;
                         }
                     }
@@ -462,7 +462,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " >")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if starts_with_indented_line(lines) {
                             write!(f, "2")?;
                         }
                     }
@@ -475,6 +475,15 @@ impl Yaml {
     }
 }
 
+// The indentation of a block string is determined by its first line that is not empty,
+// so an indentation indicator is needed when that line starts with a space itself.
+fn starts_with_indented_line(lines: &[String]) -> bool {
+    lines
+        .iter()
+        .find(|line| !line.is_empty())
+        .map_or(false, |line| line.starts_with(' '))
+}
+
 pub trait Pretty {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Self;
     fn pretty(self) -> Self
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 451702b..20cd25d 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -233,11 +233,12 @@ impl YamlParser {
         Ok(input.as_str().to_string())
     }
 
+    fn block_leading_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
+    }
+
     fn block_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok((0..input.as_str().len())
-            .into_iter()
-            .map(|_| "".to_string())
-            .collect())
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_block_chomping(input: Node) -> InternalYamlResult<BlockChomping> {
@@ -252,8 +253,11 @@ impl YamlParser {
         Ok(if input.as_str().is_empty() {
             None
         } else {
-            let given: usize = input.as_str().parse().unwrap();
-            Some(given - 1)
+            let indent: usize = input.as_str().parse().map_err(|e| input.error(e))?;
+            let indent = indent
+                .checked_sub(1)
+                .ok_or_else(|| input.error("indentation should be at least 1"))?;
+            Some(indent)
         })
     }
 
@@ -265,12 +269,12 @@ impl YamlParser {
     }
 
     fn string_multiline_trailing(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok(input.as_str().chars().filter(|c| *c == '\n').map(|_| String::new()).collect())
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_multiline_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [block_empty_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+        [block_leading_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
             Ok(es.into_iter()
                 .chain(std::iter::once(b))
                 .chain(bs.into_iter().flat_map(|x| x))
@@ -280,24 +284,26 @@ impl YamlParser {
     }
 
     fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
+        let node = input.clone();
         match_nodes!(input.into_children();
         [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
+            clean_multiline_strings(&node, indent, cs)?, BlockChomping::Clip
         )),
         [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), chomp
+            clean_multiline_strings(&node, indent, cs)?, chomp
         )))
 
         // string_block_chomping
     }
 
     fn string_multiline_literal(input: Node) -> InternalYamlResult<Yaml> {
+        let node = input.clone();
         match_nodes!(input.into_children();
         [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
+            clean_multiline_strings(&node, indent, cs)?, BlockChomping::Clip
         )),
         [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), chomp
+            clean_multiline_strings(&node, indent, cs)?, chomp
         )))
     }
 
@@ -564,25 +570,42 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
-fn count_whitespace_bytes_at_start(input: &str) -> usize {
+/// One empty string for every newline in the input
+fn empty_lines(input: &str) -> Vec<String> {
     input
-        .chars()
-        .take_while(|ch| ch.is_whitespace() && *ch != '\n')
-        .map(|ch| ch.len_utf8())
-        .sum()
+        .replace("\r\n", "\n")
+        .matches(['\n', '\r'])
+        .map(|_| String::new())
+        .collect()
 }
 
-fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
-    let indent = indent.unwrap_or_else(|| count_whitespace_bytes_at_start(&lines[0]));
+fn count_spaces_at_start(input: &str) -> usize {
+    input.len() - input.trim_start_matches(' ').len()
+}
 
+/// Removes the given amount of spaces from the start of every line.
+/// Lines that only contain spaces are allowed to be shorter.
+fn remove_indent(node: &Node, indent: usize, lines: Vec<String>) -> InternalYamlResult<Vec<String>> {
     lines
         .into_iter()
-        .map(|x| {
-            if x.is_empty() {
-                x
-            } else {
-                x[indent..].to_string()
-            }
+        .map(|line| match line.get(indent..) {
+            Some(rest) if count_spaces_at_start(&line) >= indent => Ok(rest.to_string()),
+            _ if line.trim_start_matches(' ').is_empty() => Ok(String::new()),
+            _ => Err(node.error("line is indented less than the start of the block string")),
         })
         .collect()
 }
+
+fn clean_multiline_strings(
+    node: &Node,
+    indent: Option<usize>,
+    lines: Vec<String>,
+) -> InternalYamlResult<Vec<String>> {
+    let indent = indent.unwrap_or_else(|| {
+        lines
+            .iter()
+            .find(|line| !line.trim_start_matches(' ').is_empty())
+            .map_or(usize::MAX, |line| count_spaces_at_start(line))
+    });
+    remove_indent(node, indent, lines)
+}
-- 
2.43.0


From b45eab12e5fe1df65ce552560d665fbb652ec6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 08/42] fix: don't nest values that aren't indented deeper than
 their parent

'a:\nb: 1' was read as '{a: {b: 1}}'. An explicit indentation of a block string
is now relative to the key it belongs to, as the formatter writes it.
---
 src/yaml/parser.rs | 118 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 111 insertions(+), 7 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 20cd25d..74e0be6 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -360,10 +360,13 @@ impl YamlParser {
 
     fn hash_element(input: Node) -> InternalYamlResult<HashElement> {
         //println!("{:#?}", input);
-        match_nodes!(input.into_children();
-                [hash_key(key), block_array_aliased_yaml_value(value)] => Ok(HashElement { key, value }),
-                [hash_key(key), aliased_yaml_value(value)] => Ok(HashElement { key, value }),
-        )
+        let owner = input.clone();
+        let (key, value) = match_nodes!(input.into_children();
+                [hash_key(key), block_array_aliased_yaml_value(value)] => (key, value),
+                [hash_key(key), aliased_yaml_value(value)] => (key, value),
+        );
+        let value = check_indentation(&owner, value)?;
+        Ok(HashElement { key, value })
     }
 
     fn first_hash_element(input: Node) -> InternalYamlResult<Vec<HashData>> {
@@ -440,9 +443,11 @@ impl YamlParser {
     }
 
     fn block_array_element(input: Node) -> InternalYamlResult<ArrayData> {
-        match_nodes!(input.into_children();
-            [block_array_aliased_yaml_value(value)] => Ok(ArrayData::Element(value)),
-        )
+        let owner = input.clone();
+        let value = match_nodes!(input.into_children();
+            [block_array_aliased_yaml_value(value)] => value,
+        );
+        Ok(ArrayData::Element(check_indentation(&owner, value)?))
     }
 
     fn first_block_array_element(input: Node) -> InternalYamlResult<Vec<ArrayData>> {
@@ -570,6 +575,59 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
+/// Column (in characters, starting at 0) at which the node starts
+fn column(node: &Node) -> usize {
+    let before = &node.as_pair().get_input()[..node.as_span().start()];
+    before.chars().rev().take_while(|c| *c != '\n').count()
+}
+
+/// The value of a hash or array element should be indented deeper than the element itself.
+/// The grammar can't verify this, because it only remembers the indentation of the line.
+fn check_indentation(owner: &Node, mut value: AliasedYaml) -> InternalYamlResult<AliasedYaml> {
+    let owner_column = column(owner);
+    let mut node = match owner.children().last() {
+        Some(node) => node,
+        None => return Ok(value),
+    };
+    let in_hash = owner.as_rule() == Rule::hash_element;
+    loop {
+        let next = match node.as_rule() {
+            Rule::block_array_aliased_yaml_value
+            | Rule::aliased_yaml_value
+            | Rule::yaml_value
+            | Rule::array => node.children().last(),
+            Rule::hash => node
+                .children()
+                .find(|n| n.as_rule() == Rule::first_hash_element),
+            Rule::block_array => node
+                .children()
+                .find(|n| n.as_rule() == Rule::first_block_array_element),
+            Rule::first_hash_element | Rule::first_block_array_element => {
+                let same_column_allowed =
+                    in_hash && node.as_rule() == Rule::first_block_array_element;
+                let start = node.as_span().start() - owner.as_span().start();
+                if !owner.as_str()[..start].contains(['\n', '\r'])
+                    || column(&node) < owner_column
+                    || column(&node) == owner_column && !same_column_allowed
+                {
+                    return Err(node.error("value should be indented deeper than its parent"));
+                }
+                None
+            }
+            Rule::string_multiline_literal | Rule::string_multiline_folded => {
+                check_multiline_indentation(&node, owner_column, &mut value.value)?;
+                None
+            }
+            _ => None,
+        };
+        match next {
+            Some(n) => node = n,
+            None => return Ok(value),
+        }
+    }
+}
+
+
 /// One empty string for every newline in the input
 fn empty_lines(input: &str) -> Vec<String> {
     input
@@ -609,3 +667,49 @@ fn clean_multiline_strings(
     });
     remove_indent(node, indent, lines)
 }
+
+/// The lines of a block string should be indented deeper than the element it belongs to
+/// and an explicit indentation is relative to the column of that element.
+fn check_multiline_indentation(
+    node: &Node,
+    owner_column: usize,
+    value: &mut Yaml,
+) -> InternalYamlResult<()> {
+    let mut explicit_indent = false;
+    let mut content = Vec::new();
+    let mut base_column = 0;
+    for child in node.children() {
+        match child.as_rule() {
+            Rule::string_multiline_indent => explicit_indent = !child.as_str().is_empty(),
+            Rule::string_multiline_content => {
+                for line in child.children() {
+                    match line.as_rule() {
+                        Rule::block_string => {
+                            base_column = column(&line);
+                            content.push(line);
+                        }
+                        Rule::string_multiline_content_part => content.extend(line.children().last()),
+                        _ => (),
+                    }
+                }
+            }
+            _ => (),
+        }
+    }
+    if explicit_indent {
+        let extra = (owner_column + 1).saturating_sub(base_column);
+        if let Yaml::LiteralString(lines, _) | Yaml::FoldedString(lines, _) = value {
+            *lines = remove_indent(node, extra, std::mem::take(lines))?;
+        }
+        return Ok(());
+    }
+    let first = content
+        .iter()
+        .find(|line| !line.as_str().trim_start_matches(' ').is_empty());
+    match first {
+        Some(line) if base_column + count_spaces_at_start(line.as_str()) <= owner_column => {
+            Err(line.error("block string should be indented deeper than its parent"))
+        }
+        _ => Ok(()),
+    }
+}
-- 
2.43.0


From d03ab9cd36f3bca1e80c632b36970e9f51a34aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 09/42] fix: folded strings keep leading blank lines and
 consecutive more indented lines

An empty block string with clip chomping is the empty string.
---
 src/yaml/string.rs | 59 +++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 398b3db..b26773b 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -10,7 +10,9 @@ fn handle_ending_newlines(s: String, chomping: BlockChomping) -> String {
         }
         BlockChomping::Clip => {
             let mut result = s.trim_end_matches('\n').to_string();
-            result.push('\n');
+            if !result.is_empty() {
+                result.push('\n');
+            }
             result
         }
         BlockChomping::Strip => s.trim_end_matches('\n').to_string(),
@@ -41,35 +43,32 @@ pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
     if lines.is_empty() {
         return String::new();
     }
-    let start = lines[0].to_string();
-
-    let result = lines
-        .into_iter()
-        .skip(1)
-        .fold((start, false), |(s, prev_was_empty), element| {
-            let mut c = s.clone(); // TODO
-            let is_empty = if element.is_empty() {
-                c.push_str("\n");
-                true
-            } else {
-                let without_indent = &element; // TODO: remove
-
-                if without_indent.starts_with(" ") {
-                    c.push_str("\n");
-                    c.push_str(without_indent);
-                    c.push_str("\n");
-                    true
-                } else {
-                    if !prev_was_empty {
-                        c.push_str(" ");
-                    }
-                    c.push_str(without_indent);
-                    false
-                }
-            };
-            (c, is_empty)
-        })
-        .0;
+    let mut result = String::new();
+    // None until the first line with content, then whether the previous line is more indented
+    let mut prev_is_indented = None;
+    let mut empty_lines = 0;
+    for line in lines {
+        if line.is_empty() {
+            empty_lines += 1;
+            continue;
+        }
+        let is_indented = line.starts_with([' ', '\t']);
+        match prev_is_indented {
+            Some(false) if !is_indented && empty_lines == 0 => result.push(' '),
+            Some(false) if !is_indented => (),
+            Some(_) => result.push('\n'),
+            None => (),
+        }
+        result.push_str(&"\n".repeat(empty_lines));
+        result.push_str(line);
+        prev_is_indented = Some(is_indented);
+        empty_lines = 0;
+    }
+    if prev_is_indented.is_none() {
+        // the line break of the last empty line is added below
+        empty_lines -= 1;
+    }
+    result.push_str(&"\n".repeat(empty_lines));
     handle_ending_newlines(result, chomping)
 }
 
-- 
2.43.0


From ebe0122d13d15dcede784d60079023b501ccb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 10/42] fix: an index after a condition isn't part of its
 value, a too large index is an error

---
 src/path.pest | 2 +-
 src/path.rs   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/path.pest b/src/path.pest
index c63d648..fa7a20b 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -4,7 +4,7 @@ key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
 pure_key = { key_items+ }
 
 field = { (!("=") ~ ANY)+ }
-value = { (!("." | "|") ~ ANY)+ }
+value = { (!("." | "|" | "[") ~ ANY)+ }
 condition = { field ~ "=" ~ value }
 key = { pure_key ~ ( "|" ~ condition )* }
 
diff --git a/src/path.rs b/src/path.rs
index 1f3cd36..9bb5fdf 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -32,7 +32,8 @@ impl PathParser {
     }
 
     fn index_number(input: Node) -> PathResult<Vec<usize>> {
-        Ok(vec![input.as_str().parse().unwrap()]) // TODO: remove unwrap
+        let index = input.as_str().parse().map_err(|e| input.error(e))?;
+        Ok(vec![index])
     }
     fn index_all(input: Node) -> PathResult<()> {
         Ok(())
-- 
2.43.0


From 1efb7974a6688338c1b1567b454c80e6a48226c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 11/42] fix: a block string as first value of a compact element
 ends where the next element starts

Its indentation is now the indentation of its first line, so the lines of the
next key (or array element) aren't read as part of the string. The formatter
doesn't put an element with an indentation indicator on the line of a dash.
---
 src/yaml.pest      |  8 ++++++--
 src/yaml/mod.rs    | 18 ++++++++++++++++--
 src/yaml/parser.rs | 35 +++++++++++++++++++++++++++++++++--
 3 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 170fd07..e37db8c 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -46,9 +46,13 @@ block_empty_lines = @{ (!PEEK[-2..] ~ " "* ~ NEWLINE)* }
 string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
 string_multiline_trailing = @{ (NEWLINE ~ " "* ~ &NEWLINE)* }
 string_multiline_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+detected_leading_lines = @{ (" "* ~ NEWLINE)* }
+detected_empty_lines = @{ (!PEEK ~ " "* ~ NEWLINE)* }
+string_multiline_detected_part = { NEWLINE ~ detected_empty_lines ~ PEEK ~ block_string }
+string_multiline_detected_content = { SPACE_SEPARATOR* ~ NEWLINE ~ detected_leading_lines ~ PUSH(PEEK ~ " "+) ~ !NEWLINE ~ block_string ~ string_multiline_detected_part* ~ string_multiline_trailing ~ DROP }
 string_multiline_indent = { (NUMBER+)* } 
-string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_indent ~ string_multiline_content }
-string_multiline_literal = { "|" ~ string_block_chomping? ~  string_multiline_indent  ~ string_multiline_content }
+string_multiline_folded = { ">" ~ string_block_chomping? ~ (string_multiline_detected_content | string_multiline_indent ~ string_multiline_content) }
+string_multiline_literal = { "|" ~ string_block_chomping? ~ (string_multiline_detected_content | string_multiline_indent ~ string_multiline_content) }
 
 string_block_chomping = { "-" | "+" }
 
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index a84f089..44abd13 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -339,7 +339,9 @@ impl Yaml {
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
-                                (Some(_), Some(Parent::Array)) => idx == 0,
+                                (Some(_), Some(Parent::Array)) => {
+                                    idx == 0 && !needs_indentation_indicator(&v.value.value)
+                                }
                                 _ => false,
                             };
 
@@ -380,7 +382,9 @@ impl Yaml {
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
-                                (Some(_), Some(Parent::Array)) => idx == 0,
+                                (Some(_), Some(Parent::Array)) => {
+                                    idx == 0 && !needs_indentation_indicator(&v.value)
+                                }
                                 _ => false,
                             };
 
@@ -484,6 +488,16 @@ fn starts_with_indented_line(lines: &[String]) -> bool {
         .map_or(false, |line| line.starts_with(' '))
 }
 
+// The parser doesn't know the column of an element that is on the line of its parent's dash.
+fn needs_indentation_indicator(value: &Yaml) -> bool {
+    match value {
+        Yaml::LiteralString(lines, _) | Yaml::FoldedString(lines, _) => {
+            starts_with_indented_line(lines)
+        }
+        _ => false,
+    }
+}
+
 pub trait Pretty {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Self;
     fn pretty(self) -> Self
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 74e0be6..a6a48b3 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -283,9 +283,37 @@ impl YamlParser {
         })
     }
 
+    fn detected_leading_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn detected_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn string_multiline_detected_part(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [detected_empty_lines(es), block_string(b)] => {
+            Ok(es.into_iter().chain(std::iter::once(b)).collect())
+        })
+    }
+
+    fn string_multiline_detected_content(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [detected_leading_lines(es), block_string(b), string_multiline_detected_part(bs).., string_multiline_trailing(trailing)] => {
+            Ok(es.into_iter()
+                .chain(std::iter::once(b))
+                .chain(bs.into_iter().flat_map(|x| x))
+                .chain(trailing)
+                .collect())
+        })
+    }
+
     fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
         let node = input.clone();
         match_nodes!(input.into_children();
+        [string_multiline_detected_content(cs)] => Ok(Yaml::FoldedString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_detected_content(cs)] => Ok(Yaml::FoldedString(cs, chomp)),
         [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
             clean_multiline_strings(&node, indent, cs)?, BlockChomping::Clip
         )),
@@ -299,6 +327,8 @@ impl YamlParser {
     fn string_multiline_literal(input: Node) -> InternalYamlResult<Yaml> {
         let node = input.clone();
         match_nodes!(input.into_children();
+        [string_multiline_detected_content(cs)] => Ok(Yaml::LiteralString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_detected_content(cs)] => Ok(Yaml::LiteralString(cs, chomp)),
         [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
             clean_multiline_strings(&node, indent, cs)?, BlockChomping::Clip
         )),
@@ -681,14 +711,15 @@ fn check_multiline_indentation(
     for child in node.children() {
         match child.as_rule() {
             Rule::string_multiline_indent => explicit_indent = !child.as_str().is_empty(),
-            Rule::string_multiline_content => {
+            Rule::string_multiline_content | Rule::string_multiline_detected_content => {
                 for line in child.children() {
                     match line.as_rule() {
                         Rule::block_string => {
                             base_column = column(&line);
                             content.push(line);
                         }
-                        Rule::string_multiline_content_part => content.extend(line.children().last()),
+                        Rule::string_multiline_content_part
+                        | Rule::string_multiline_detected_part => content.extend(line.children().last()),
                         _ => (),
                     }
                 }
-- 
2.43.0


From 3bb6e3e7a47543e3564cb9db94035c2590e333cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 12/42] fix: lines after '- - a' are added to the collection
 they are aligned with

They were always added to the innermost collection, even when they were
indented less than its first element.
---
 src/yaml/parser.rs | 145 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 111 insertions(+), 34 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index a6a48b3..8ecf102 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -453,23 +453,20 @@ impl YamlParser {
     }
 
     fn alternative_hash(input: Node) -> InternalYamlResult<Yaml> {
-        match_nodes!(input.into_children();
-            [first_hash_element(element1), alternative_hash_continuation(cont), commentnls(cs)] => Ok(
-                Yaml::Hash(
-                    element1.into_iter()
-                    .chain(cont.into_iter())
-                    .chain(cs.into_iter().map(|c| HashData::Comment(c)))
-                    .collect()
-                )
-            ),
-            [first_hash_element(element1), commentnls(cs)] => Ok(
-                Yaml::Hash(
-                    element1.into_iter()
-                    .chain(cs.into_iter().map(|c| HashData::Comment(c)))
-                    .collect()
-                )
-            ),
-        )
+        let chain = alternative_chain(&input);
+        let mut items = match_nodes!(input.into_children();
+            [first_hash_element(element1), alternative_hash_continuation(_), commentnls(_)] => element1,
+            [first_hash_element(element1), commentnls(_)] => element1,
+        );
+        for node in continuations(&chain)? {
+            match node.as_rule() {
+                Rule::commentnls => {
+                    items.extend(Self::commentnls(node)?.into_iter().map(HashData::Comment))
+                }
+                _ => items.extend(Self::alternative_hash_continuation(node)?),
+            }
+        }
+        Ok(Yaml::Hash(items))
     }
 
     fn block_array_element(input: Node) -> InternalYamlResult<ArrayData> {
@@ -534,23 +531,20 @@ impl YamlParser {
     }
 
     fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
-        match_nodes!(input.into_children();
-            [first_block_array_element(element1), alternative_array_continuation(cont), commentnls(cs)] => Ok(
-                Yaml::Array(
-                    element1.into_iter()
-                    .chain(cont.into_iter())
-                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
-                    .collect()
-                )
-            ),
-            [first_block_array_element(element1), commentnls(cs)] => Ok(
-                Yaml::Array(
-                    element1.into_iter()
-                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
-                    .collect()
-                )
-            ),
-        )
+        let chain = alternative_chain(&input);
+        let mut items = match_nodes!(input.into_children();
+            [first_block_array_element(element1), alternative_array_continuation(_), commentnls(_)] => element1,
+            [first_block_array_element(element1), commentnls(_)] => element1,
+        );
+        for node in continuations(&chain)? {
+            match node.as_rule() {
+                Rule::commentnls => {
+                    items.extend(Self::commentnls(node)?.into_iter().map(ArrayData::Comment))
+                }
+                _ => items.extend(Self::alternative_array_continuation(node)?),
+            }
+        }
+        Ok(Yaml::Array(items))
     }
 
     fn commentnls(input: Node) -> InternalYamlResult<Vec<String>> {
@@ -611,6 +605,85 @@ fn column(node: &Node) -> usize {
     before.chars().rev().take_while(|c| *c != '\n').count()
 }
 
+/// The collection that starts on the line of a dash (or key) and the ones that start inside of it
+/// on the same line (`- - - a`), the outermost one first.
+fn alternative_chain<'i>(node: &Node<'i>) -> Vec<Node<'i>> {
+    let mut chain = Vec::new();
+    let mut node = node.clone();
+    loop {
+        let next = match node.as_rule() {
+            Rule::alternative_hash | Rule::alternative_array => {
+                chain.push(node.clone());
+                node.children().next()
+            }
+            Rule::first_hash_element | Rule::first_block_array_element => node.children().next(),
+            Rule::hash_element
+            | Rule::block_array_element
+            | Rule::block_array_aliased_yaml_value
+            | Rule::alternative_aliased_yaml_value => node.children().last(),
+            _ => None,
+        };
+        match next {
+            Some(n) => node = n,
+            None => return chain,
+        }
+    }
+}
+
+/// The grammar adds the lines that continue a collection of the chain to the innermost one it can
+/// add them to, this gives the nodes (continuation and comments) that belong to the outermost one:
+/// those that start at the same column.
+fn continuations<'i>(chain: &[Node<'i>]) -> InternalYamlResult<Vec<Node<'i>>> {
+    let columns: Vec<usize> = chain.iter().map(column).collect();
+    let mut owner = Some(chain.len() - 1);
+    let mut result = Vec::new();
+    for (index, node) in chain.iter().enumerate().rev() {
+        owner = owner.map(|o| o.min(index));
+        for child in node.children() {
+            match child.as_rule() {
+                Rule::alternative_hash_continuation | Rule::alternative_array_continuation => {
+                    let first = child.children().find(|n| n.as_rule() != Rule::commentnls);
+                    let first_column = first.map_or(0, |n| column(&n));
+                    let same_kind = child.as_rule() == Rule::alternative_hash_continuation;
+                    owner = columns.iter().position(|c| *c == first_column);
+                    let is_valid = match owner {
+                        Some(o) => (chain[o].as_rule() == Rule::alternative_hash) == same_kind,
+                        None => first_column < columns[0],
+                    };
+                    if !is_valid {
+                        return Err(child.error("element isn't aligned with another element"));
+                    }
+                    if owner == Some(0) {
+                        result.push(child);
+                    }
+                }
+                Rule::commentnls if owner == Some(0) => result.push(child),
+                _ => (),
+            }
+        }
+    }
+    Ok(result)
+}
+
+/// The lines that continue a collection on the line of its owner are either aligned with one of the
+/// collections on that line or belong to a collection around the owner.
+fn check_continuations(value: &Node, owner_column: usize) -> InternalYamlResult<()> {
+    let chain = alternative_chain(value);
+    let first_column = chain.first().map_or(0, column);
+    for child in chain.iter().flat_map(|node| node.children()) {
+        if let Rule::alternative_hash_continuation | Rule::alternative_array_continuation =
+            child.as_rule()
+        {
+            let element = child.children().find(|n| n.as_rule() != Rule::commentnls);
+            let element_column = element.map_or(0, |n| column(&n));
+            if element_column > owner_column && element_column < first_column {
+                return Err(child.error("element isn't aligned with another element"));
+            }
+        }
+    }
+    Ok(())
+}
+
 /// The value of a hash or array element should be indented deeper than the element itself.
 /// The grammar can't verify this, because it only remembers the indentation of the line.
 fn check_indentation(owner: &Node, mut value: AliasedYaml) -> InternalYamlResult<AliasedYaml> {
@@ -626,6 +699,10 @@ fn check_indentation(owner: &Node, mut value: AliasedYaml) -> InternalYamlResult
             | Rule::aliased_yaml_value
             | Rule::yaml_value
             | Rule::array => node.children().last(),
+            Rule::alternative_aliased_yaml_value => {
+                check_continuations(&node, owner_column)?;
+                None
+            }
             Rule::hash => node
                 .children()
                 .find(|n| n.as_rule() == Rule::first_hash_element),
-- 
2.43.0


From a0b27bad636c84074d7017d7f54977916e13ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 13/42] fix: a scalar can't start with a dash that starts an
 array element

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index e37db8c..2158ee7 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -14,7 +14,7 @@ disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ":"
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { " " | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_start_elements = { "-" ~ (" " | NEWLINE | EOI) | " " | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | SPACE_SEPARATOR+ ~ "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
-- 
2.43.0


From 7b614ad1b3f719dfb2412d80fe70fffd97b8db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 14/42] fix: aliases are linked to the last definition of their
 anchor before them

Anchors in values that were not visited (ignored fields) were unknown, an alias
could see definitions after it, an alias of an alias wasn't resolved and an alias
inside of its own anchor made the deserializer overflow its stack.
---
 src/yaml/deserializer.rs | 102 ++++++++++++++++++++++++++++-----------
 1 file changed, 75 insertions(+), 27 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 049b962..590e550 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -4,8 +4,7 @@ use serde::Deserialize;
 use super::string::{
     parse_double_quoted_string, parse_folded, parse_literal, parse_single_quoted_string,
 };
-use super::{AliasedYaml, ArrayData, HashData, Yaml};
-use std::cell::RefCell;
+use super::{AliasedYaml, ArrayData, HashData, HashElement, Yaml};
 use std::collections::HashMap;
 use std::rc::Rc;
 
@@ -51,42 +50,89 @@ fn yaml_to_string(yaml: &Yaml) -> Option<String> {
     }
 }
 
-type Anchors = Rc<RefCell<HashMap<String, Yaml>>>;
+// The values of the anchors of a document, every definition has its own identifier.
+type Anchors = Rc<HashMap<String, Yaml>>;
 
-fn register(anchors: &Anchors, aliased: &AliasedYaml) {
-    if let Some(name) = &aliased.alias {
-        anchors.borrow_mut().insert(name.clone(), aliased.value.clone());
+/// Links every alias to the last definition of its anchor that ends before it. Aliases without
+/// such a definition keep their name, using them is an error.
+#[derive(Default)]
+struct Linker {
+    values: HashMap<String, Yaml>,
+    // the identifier of the current definition of an anchor
+    current: HashMap<String, String>,
+}
+
+impl Linker {
+    fn link(&mut self, yaml: Yaml) -> Yaml {
+        match yaml {
+            Yaml::Anchor(name) => match self.current.get(&name) {
+                Some(id) => Yaml::Anchor(id.clone()),
+                None => Yaml::Anchor(name),
+            },
+            Yaml::Hash(data) => Yaml::Hash(
+                data.into_iter()
+                    .map(|d| match d {
+                        HashData::Element(e) => HashData::Element(HashElement {
+                            key: e.key,
+                            value: self.link_aliased(e.value),
+                        }),
+                        comment => comment,
+                    })
+                    .collect(),
+            ),
+            Yaml::Array(data) => Yaml::Array(
+                data.into_iter()
+                    .map(|d| match d {
+                        ArrayData::Element(e) => ArrayData::Element(self.link_aliased(e)),
+                        comment => comment,
+                    })
+                    .collect(),
+            ),
+            Yaml::InlineHash(data) => {
+                Yaml::InlineHash(data.into_iter().map(|(k, v)| (k, self.link(v))).collect())
+            }
+            Yaml::InlineArray(data) => {
+                Yaml::InlineArray(data.into_iter().map(|v| self.link(v)).collect())
+            }
+            scalar => scalar,
+        }
+    }
+
+    fn link_aliased(&mut self, aliased: AliasedYaml) -> AliasedYaml {
+        let value = self.link(aliased.value);
+        if let Some(name) = &aliased.alias {
+            // a space can't be part of a name
+            let id = format!("{name} {}", self.values.len());
+            self.values.insert(id.clone(), value.clone());
+            self.current.insert(name.clone(), id);
+        }
+        AliasedYaml { alias: aliased.alias, value }
     }
 }
 
 fn resolve(anchors: &Anchors, name: &str) -> Result<Yaml, YamlDeserializeError> {
-    anchors
-        .borrow()
-        .get(name)
-        .cloned()
-        .ok_or_else(|| YamlDeserializeError(format!("undefined anchor: {name}")))
+    match anchors.get(name) {
+        // the definitions are linked to earlier ones, so this ends
+        Some(Yaml::Anchor(other)) => resolve(anchors, other),
+        Some(value) => Ok(value.clone()),
+        None => Err(YamlDeserializeError(format!("undefined anchor: {name}"))),
+    }
 }
 
-fn hash_entries(anchors: &Anchors, data: Vec<HashData>) -> Vec<(String, Yaml)> {
+fn hash_entries(data: Vec<HashData>) -> Vec<(String, Yaml)> {
     data.into_iter()
         .filter_map(|d| match d {
-            HashData::Element(e) => {
-                register(anchors, &e.value);
-                Some((e.key, e.value.value))
-            }
+            HashData::Element(e) => Some((e.key, e.value.value)),
             HashData::InlineComment(_) | HashData::Comment(_) => None,
         })
         .collect()
 }
 
-fn seq_values(anchors: &Anchors, elements: Vec<ArrayData>) -> Vec<Yaml> {
+fn seq_values(elements: Vec<ArrayData>) -> Vec<Yaml> {
     elements
         .into_iter()
         .filter_map(|d| match d {
-            ArrayData::Element(e) => {
-                register(anchors, &e);
-                Some(e.value)
-            }
+            ArrayData::Element(e) => Some(e.value),
             ArrayData::InlineComment(_) | ArrayData::Comment(_) => None,
         })
         .collect()
@@ -111,7 +157,9 @@ pub struct YamlDeserializer {
 
 impl YamlDeserializer {
     pub fn new(yaml: Yaml) -> Self {
-        Self { yaml, anchors: Rc::new(RefCell::new(HashMap::new())) }
+        let mut linker = Linker::default();
+        let yaml = linker.link(yaml);
+        Self { yaml, anchors: Rc::new(linker.values) }
     }
 
     fn with(yaml: Yaml, anchors: Anchors) -> Self {
@@ -184,12 +232,12 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_string(parse_single_quoted_string(parts))
             }
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -321,7 +369,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
@@ -350,7 +398,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -393,7 +441,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             // Newtype / tuple / struct variant: single-key map where the key is
             // the variant name and the value is the variant's content.
             Yaml::Hash(data) => {
-                let mut entries = hash_entries(&anchors, data);
+                let mut entries = hash_entries(data);
                 if entries.len() == 1 {
                     let (variant, value) = entries.remove(0);
                     visitor.visit_enum(StrEnumAccess { variant, value, anchors })
-- 
2.43.0


From 532532633664dfd065779b94f2359021830d4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 15/42] fix: a path with spaces outside of its keys doesn't
 make the parser panic

---
 src/path.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.pest b/src/path.pest
index fa7a20b..3f00020 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,4 +1,4 @@
-WHITESPACE = { " " }
+WHITESPACE = _{ " " }
 
 key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
 pure_key = { key_items+ }
-- 
2.43.0


From 1beb2db162313a2db530c01aa0ab075ed440cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 16/42] fix: the time to parse nested collections doesn't
 double with every level

---
 src/yaml.pest      |  5 +++--
 src/yaml/parser.rs | 16 ++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 2158ee7..bd8e4f9 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -70,12 +70,13 @@ array = { inline_array | block_array }
 alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
 alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
 
-block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
+same_line_collection = _{ (alias ~ SPACE_SEPARATOR*)? ~ ("-" ~ (SPACE_SEPARATOR | NEWLINE) | hash_key ~ ":" ~ SPACE_SEPARATOR) }
+block_array_aliased_yaml_value = { alternative_aliased_yaml_value | !same_line_collection ~ aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ (alternative_hash | alternative_array) }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | SPACE_SEPARATOR* ~ inline_value }
 aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
+hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ !NEWLINE ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
 hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 8ecf102..b8412e4 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -454,10 +454,10 @@ impl YamlParser {
 
     fn alternative_hash(input: Node) -> InternalYamlResult<Yaml> {
         let chain = alternative_chain(&input);
-        let mut items = match_nodes!(input.into_children();
-            [first_hash_element(element1), alternative_hash_continuation(_), commentnls(_)] => element1,
-            [first_hash_element(element1), commentnls(_)] => element1,
-        );
+        let mut items = match input.into_children().next() {
+            Some(element) => Self::first_hash_element(element)?,
+            None => unreachable!(),
+        };
         for node in continuations(&chain)? {
             match node.as_rule() {
                 Rule::commentnls => {
@@ -532,10 +532,10 @@ impl YamlParser {
 
     fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
         let chain = alternative_chain(&input);
-        let mut items = match_nodes!(input.into_children();
-            [first_block_array_element(element1), alternative_array_continuation(_), commentnls(_)] => element1,
-            [first_block_array_element(element1), commentnls(_)] => element1,
-        );
+        let mut items = match input.into_children().next() {
+            Some(element) => Self::first_block_array_element(element)?,
+            None => unreachable!(),
+        };
         for node in continuations(&chain)? {
             match node.as_rule() {
                 Rule::commentnls => {
-- 
2.43.0


From 64d9dae5add34e24d9b12f8147c9b3d90a4bf602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 17/42] fix: a scalar on its own line should be indented deeper
 than its key

---
 src/yaml/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index b8412e4..345c6d6 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -721,6 +721,13 @@ fn check_indentation(owner: &Node, mut value: AliasedYaml) -> InternalYamlResult
                 }
                 None
             }
+            Rule::inline_value | Rule::inline_array => {
+                let start = node.as_span().start() - owner.as_span().start();
+                if owner.as_str()[..start].contains(['\n', '\r']) && column(&node) <= owner_column {
+                    return Err(node.error("value should be indented deeper than its parent"));
+                }
+                None
+            }
             Rule::string_multiline_literal | Rule::string_multiline_folded => {
                 check_multiline_indentation(&node, owner_column, &mut value.value)?;
                 None
-- 
2.43.0


From 92919501d6f27a2a529e7b0b90769d2021c3a8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 18/42] fix: blank lines and then comments may precede the
 first element of a nested collection

---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index bd8e4f9..e762b31 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -65,7 +65,7 @@ inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ i
 block_array_element = { "-" ~ (SPACE_SEPARATOR+ | &NEWLINE) ~ block_array_aliased_yaml_value }
 first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
-block_array = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
+block_array = { blank ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
 alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
 alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
@@ -79,7 +79,7 @@ aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_val
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ !NEWLINE ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
-hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
+hash = { blank ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
 
 alternative_hash_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element ~ (hash_element_data)* ~ DROP }
 alternative_hash = { first_hash_element ~ alternative_hash_continuation? ~ commentnls }
-- 
2.43.0


From d226b1d1d7ed69fc6176806ccadd7d6cbb09a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 19/42] fix: an index in a path also denotes the elements of an
 inline array

---
 src/yaml/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 44abd13..d9efe6b 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -113,6 +113,22 @@ impl Yaml {
             _ => None,
         }
     }
+    // Visits an element of an array with the part of the path after the index
+    fn for_element<F, R, A: Additive>(
+        &mut self,
+        other_path: &Option<Box<YamlPath>>,
+        f: &F,
+        r: &R,
+    ) -> A
+    where
+        F: Fn(&mut HashElement) -> A,
+        R: Fn(&mut Yaml) -> A,
+    {
+        match other_path {
+            Some(other_path) => self.for_hash(other_path, f, r),
+            None => r(self),
+        }
+    }
     fn fits_conditions(&self, conditions: &Vec<Condition>) -> bool {
         conditions
             .iter()
@@ -160,14 +176,14 @@ impl YamlInsert for Yaml {
                     _ => A::zero(),
                 }
             }
-            YamlPath::Indexes(indexes, conditions, _) => match self {
+            YamlPath::Indexes(indexes, conditions, other) => match self {
                 Yaml::InlineArray(elements) => {
                     let mut count = A::zero();
                     for index in indexes.iter() {
                         let element_opt = elements.get_mut(*index);
                         if let Some(element) = element_opt {
                             if element.fits_conditions(conditions) {
-                                count = count + element.for_hash(path, f, r)
+                                count = count + element.for_element(other, f, r)
                             }
                         }
                     }
@@ -192,12 +208,12 @@ impl YamlInsert for Yaml {
                 _ => A::zero(),
             },
             //YamlPath::AllIndexes(Some(other_path)) => match self {
-            YamlPath::AllIndexes(conditions, _) => match self {
+            YamlPath::AllIndexes(conditions, other) => match self {
                 Yaml::InlineArray(elements) => {
                     let mut count = A::zero();
                     for element in elements.iter_mut() {
                         if element.fits_conditions(conditions) {
-                            count = count + element.for_hash(path, f, r)
+                            count = count + element.for_element(other, f, r)
                         }
                     }
                     count
-- 
2.43.0


From 47ff5a68f13c850f5d80cdbf86d494b411380fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 20/42] fix: appending to a path keeps the conditions of the
 root, appending an empty path changes nothing

---
 src/path.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 9bb5fdf..702da7b 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -109,7 +109,17 @@ impl std::str::FromStr for YamlPath {
 impl YamlPath {
     pub fn insert(&mut self, p: YamlPath) {
         match self {
-            YamlPath::Root(_) => *self = p,
+            YamlPath::Root(conditions) => {
+                let mut conditions = std::mem::take(conditions);
+                *self = p;
+                // the conditions of the root are conditions on the hash of the first key
+                if let YamlPath::Root(cs) | YamlPath::Key(_, cs, _) = self {
+                    conditions.append(cs);
+                    *cs = conditions;
+                }
+            }
+            // appending an empty path changes nothing
+            _ if matches!(&p, YamlPath::Root(conditions) if conditions.is_empty()) => (),
             YamlPath::Key(_, _, Some(ref mut o)) => o.insert(p),
             YamlPath::AllIndexes(_, Some(ref mut o)) => o.insert(p),
             YamlPath::Indexes(_, _, Some(ref mut o)) => o.insert(p),
-- 
2.43.0


From b6f10ce9826d3b54ec78ba3319171771f38a91b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 21/42] fix: moving fields to a subfield that can't contain
 them, or twice, doesn't lose or duplicate them

---
 src/yaml/insert.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index b1d48c0..02d017e 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -138,18 +138,21 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
-                let fields: Vec<_> = fields_to_move
+                let mut fields: Vec<_> = fields_to_move
                     .iter()
-                    .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
+                    .enumerate()
+                    .filter(|(i, key)| *key != &subfield && !fields_to_move[..*i].contains(key))
+                    .filter_map(|(_, key)| hash.key_value_owned(key).map(|val| (key, val)))
                     .collect();
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
-                        for (key, value) in fields.iter() {
-                            let path = key.parse().unwrap();
-                            subfield_value.insert_into_hash(&path, &value, true);
-                        }
-                        1
+                        // a field that can't be added to the subfield stays where it is
+                        fields.retain(|(key, value)| {
+                            let path = YamlPath::Key(key.to_string(), Vec::new(), None);
+                            subfield_value.insert_into_hash(&path, &value, true) > 0
+                        });
+                        usize::from(!fields.is_empty())
                     } else {
                         let value = Yaml::Hash(
                             fields
@@ -164,11 +167,12 @@ pub trait YamlInsert {
                                 .collect(),
                         );
                         let new = AliasedYaml { alias: None, value };
-                        hash.insert_into_hash(&subfield.parse().unwrap(), &new, false);
+                        let path = YamlPath::Key(subfield.clone(), Vec::new(), None);
+                        hash.insert_into_hash(&path, &new, false);
                         1
                     };
                     for (key, _) in fields {
-                        hash.remove_from_hash(&key.parse().unwrap());
+                        hash.remove_from_hash(&YamlPath::Key(key.clone(), Vec::new(), None));
                     }
                     res
                 } else {
-- 
2.43.0


From 3636678e0cac54c5185f3f416da26544b3c025c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 22/42] fix: splitting a map doesn't lose its entries when the
 new map exists and doesn't define its anchor twice

---
 src/yaml/insert.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index 02d017e..2959f93 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -198,8 +198,12 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
-                if let Some(result) = hash.key_value_owned(&old_map_name) {
+                if hash.key_index(&new_map_name).is_some() {
+                    // the new map can't be added
+                    0
+                } else if let Some(result) = hash.key_value_owned(&old_map_name) {
                     if let Yaml::Hash(hash_data) = result.value {
+                        let key_path = |key: &String| YamlPath::Key(key.clone(), Vec::new(), None);
                         let mut new_hashes: BTreeMap<String, Vec<HashData>> = BTreeMap::new();
                         let mut old_hashes = Vec::new();
                         let mut comments = Vec::new();
@@ -212,15 +216,14 @@ pub trait YamlInsert {
                                     {
                                         if let Some(s) = key.as_string() {
                                             if keeps.contains(&s) || s.is_empty() {
-                                                hash_data
-                                                    .remove_from_hash(&selector.parse().unwrap());
+                                                hash_data.remove_from_hash(&key_path(&selector));
                                                 old_hashes.extend(comments.clone());
                                                 comments.clear();
                                                 old_hashes.push(hash_data);
                                                 last_added_to = None
                                             } else {
                                                 let mut value = hash_element.value.clone();
-                                                value.remove_from_hash(&selector.parse().unwrap());
+                                                value.remove_from_hash(&key_path(&selector));
 
                                                 let new_hash_element =
                                                     HashData::Element(HashElement {
@@ -265,8 +268,9 @@ pub trait YamlInsert {
                             old_hashes.extend(comments);
                         }
                         if !new_hashes.is_empty() {
+                            // the old map keeps the anchor
                             let new = AliasedYaml {
-                                alias: result.alias.clone(),
+                                alias: None,
                                 value: Yaml::Hash(
                                     new_hashes
                                         .into_iter()
@@ -282,12 +286,12 @@ pub trait YamlInsert {
                                         .collect(),
                                 ),
                             };
-                            hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
+                            hash.insert_into_hash(&key_path(&new_map_name), &new, false);
                             let old = AliasedYaml {
                                 alias: result.alias.clone(),
                                 value: Yaml::Hash(old_hashes),
                             };
-                            hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
+                            hash.insert_into_hash(&key_path(&old_map_name), &old, true);
                             1
                         } else {
                             0
-- 
2.43.0


From 92757e62952c54cfbce65451f6599bd7bf000e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 23/42] fix: when a map is split the comment on the line of an
 entry stays with that entry

---
 src/yaml/insert.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index 2959f93..51fe41b 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -257,9 +257,12 @@ pub trait YamlInsert {
                                         last_added_to = None
                                     }
                                 }
-                                HashData::Comment(_) | HashData::InlineComment(_) => {
-                                    comments.push(hash_data)
-                                }
+                                // on the line of the previous element
+                                HashData::InlineComment(_) => match &last_added_to {
+                                    Some(s) => new_hashes.get_mut(s).unwrap().push(hash_data),
+                                    None => old_hashes.push(hash_data),
+                                },
+                                HashData::Comment(_) => comments.push(hash_data),
                             }
                         }
                         if let Some(s) = last_added_to {
-- 
2.43.0


From 2be3ebd078346fa369c067ec10ccda56ad02aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 24/42] fix: comments that remain after an edit don't end up in
 the data or make the document unreadable

---
 src/yaml/mod.rs | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index d9efe6b..6ba306e 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -343,15 +343,21 @@ impl Yaml {
                 write!(f, "}}")
             }
             Yaml::Hash(v) => {
-                if v.is_empty() {
-                    return write!(f, " {{}}");
+                if !v.iter().any(|d| matches!(d, HashData::Element(_))) {
+                    write!(f, " {{}}")?;
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
                         HashData::Comment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        HashData::InlineComment(c) => write!(f, " #{}", c),
+                        HashData::InlineComment(c) => {
+                            if matches!(previous_item(v, idx), Some(HashData::Element(e)) if ends_in_line(&e.value.value)) {
+                                write!(f, " #{}", c)
+                            } else {
+                                write!(f, "\n{}#{}", indent(spaces), c)
+                            }
+                        }
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
@@ -388,13 +394,19 @@ impl Yaml {
                 write!(f, "]")
             }
             Yaml::Array(v) => {
-                if v.is_empty() {
-                    return write!(f, " []");
+                if !v.iter().any(|d| matches!(d, ArrayData::Element(_))) {
+                    write!(f, " []")?;
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
-                        ArrayData::InlineComment(c) => write!(f, " #{}", c),
+                        ArrayData::InlineComment(c) => {
+                            if matches!(previous_item(v, idx), Some(ArrayData::Element(e)) if ends_in_line(&e.value)) {
+                                write!(f, " #{}", c)
+                            } else {
+                                write!(f, "\n{}#{}", indent(spaces), c)
+                            }
+                        }
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
@@ -495,6 +507,26 @@ impl Yaml {
     }
 }
 
+fn previous_item<T>(items: &[T], idx: usize) -> Option<&T> {
+    idx.checked_sub(1).and_then(|i| items.get(i))
+}
+
+// Can a comment be added to the last line of a formatted value?
+fn ends_in_line(value: &Yaml) -> bool {
+    match value {
+        Yaml::LiteralString(_, _) | Yaml::FoldedString(_, _) => false,
+        Yaml::Hash(v) => match v.last() {
+            Some(HashData::Element(e)) => ends_in_line(&e.value.value),
+            last => last.is_none(),
+        },
+        Yaml::Array(v) => match v.last() {
+            Some(ArrayData::Element(e)) => ends_in_line(&e.value),
+            last => last.is_none(),
+        },
+        _ => true,
+    }
+}
+
 // The indentation of a block string is determined by its first line that is not empty,
 // so an indentation indicator is needed when that line starts with a space itself.
 fn starts_with_indented_line(lines: &[String]) -> bool {
-- 
2.43.0


From be700be041ffa82666d1e984e9e810052c90b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 25/42] fix: pretty quotes plain strings that it moves into an
 inline array

---
 src/yaml/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 6ba306e..9c433fe 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -742,7 +742,10 @@ impl Pretty for Yaml {
                         let elems: Vec<Yaml> = prettied
                             .iter()
                             .filter_map(|d| match d {
-                                ArrayData::Element(e) => Some(e.value.clone()),
+                                // plain strings that would end in flow context are quoted
+                                ArrayData::Element(e) => {
+                                    Some(e.value.clone().pretty_with_options(true, false))
+                                }
                                 _ => None,
                             })
                             .collect();
-- 
2.43.0


From d1d009bef633b0cd735fe319b37333b934d775d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 26/42] fix: pretty keeps the quotes of strings that mean
 something else without them

---
 src/yaml/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9c433fe..7091560 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -640,8 +640,9 @@ impl<T: Pretty> Pretty for Vec<T> {
 
 // Returns true when a string can be written as a plain (unquoted) YAML scalar in block context.
 // Rules based on yaml_subset's grammar:
-//   - start disallowed: [ ] { } " ' # > | newline
-//   - anywhere disallowed: ": " (colon-space), # , newlines
+//   - start disallowed: [ ] { } " ' # > | newline, and the other indicators of YAML
+//   - anywhere disallowed: ": " (colon-space), # , newlines and other control characters
+//   - end disallowed: ":" and whitespace
 // Also rejects strings that serde's untagged-enum Content mechanism misinterprets:
 // untagged enum deserialization calls deserialize_any to collect into Content, and
 // deserialize_any maps UnquotedString("2") → visit_i64(2) → Content::I64(2).
@@ -650,18 +651,27 @@ impl<T: Pretty> Pretty for Vec<T> {
 // so Vec<String> fields next to integer fields in the same struct both work.
 // Note: inline_breaking_chars must also be checked for inline (flow) context.
 fn can_be_unquoted_in_block(s: &str) -> bool {
-    if s.is_empty() || s.starts_with(' ') || s.ends_with(' ') {
+    if s.is_empty() || s.trim() != s {
         return false;
     }
     match s.chars().next().unwrap() {
-        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' => return false,
+        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' | '*' | '&' | '!' | '%' | '@' | '`'
+        | ',' => return false,
         _ => {}
     }
-    if s.contains(": ") || s.contains('#') || s.contains('\n') || s.contains('\r') {
+    // '-', '?' and ':' have a meaning in front of whitespace
+    let ends_word = |rest: &str| rest.chars().next().map_or(true, char::is_whitespace);
+    if s.strip_prefix(['-', '?']).map_or(false, ends_word) {
+        return false;
+    }
+    if s.match_indices(':').any(|(i, _)| ends_word(&s[i + 1..])) {
+        return false;
+    }
+    if s.contains('#') || s.contains(char::is_control) {
         return false;
     }
     !s.parse::<i64>().is_ok() && !s.parse::<f64>().is_ok()
-        && !matches!(s, "true" | "false" | "null" | "~")
+        && !matches!(s, "true" | "false" | "null" | "Null" | "NULL" | "~")
 }
 
 fn inline_breaking_chars(s: &str) -> bool {
-- 
2.43.0


From 789e1ddd02aa274598792fd0b277ce5e3c61ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 27/42] fix: pretty only changes a quoted string to a block
 string that has the same value

---
 src/yaml/mod.rs | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 7091560..a2dc138 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -31,7 +31,7 @@ use crate::utils::indent;
 use crate::yaml::insert::Additive;
 use crate::yaml::string::parse_double_quoted_string;
 use crate::yaml::string::parse_single_quoted_string;
-use crate::yaml::string::{create_folded, create_literal};
+use crate::yaml::string::{create_folded, create_literal, parse_folded, parse_literal};
 use crate::yaml::string::SingleQuotedStringEscapedChar;
 use crate::YamlPath;
 use std::fmt::Write;
@@ -699,6 +699,26 @@ fn str_to_single_quoted_parts(s: &str) -> Vec<SingleQuotedStringPart> {
     parts
 }
 
+fn literal_string(s: String, chomping: BlockChomping) -> Option<Yaml> {
+    let lines = create_literal(s.clone());
+    let value = parse_literal(lines.iter().map(|l| l.as_str()).collect(), chomping);
+    (value == s && are_block_lines(&lines)).then(|| Yaml::LiteralString(lines, chomping))
+}
+
+fn folded_string(s: String, line_length: usize, chomping: BlockChomping) -> Option<Yaml> {
+    let lines = create_folded(s.clone(), line_length);
+    let value = parse_folded(lines.iter().map(|l| l.as_str()).collect(), chomping);
+    (value == s && are_block_lines(&lines)).then(|| Yaml::FoldedString(lines, chomping))
+}
+
+// Are these lines read back as they are when they are written in a block string?
+fn are_block_lines(lines: &[String]) -> bool {
+    lines.iter().any(|line| !line.is_empty())
+        && lines
+            .iter()
+            .all(|line| !line.contains('\r') && (line.is_empty() || !line.trim().is_empty()))
+}
+
 impl Pretty for Yaml {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Yaml {
         let max_line_length = 90;
@@ -787,13 +807,14 @@ impl Pretty for Yaml {
                 let s = parse_double_quoted_string(&parts);
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
-                if contains_escape {
-                    Yaml::LiteralString(create_literal(s), chomping)
+                let block_string = if contains_escape {
+                    literal_string(s, chomping)
                 } else if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                    folded_string(s, max_line_length, chomping)
                 } else {
-                    Yaml::DoubleQuotedString(parts)
-                }
+                    None
+                };
+                block_string.unwrap_or(Yaml::DoubleQuotedString(parts))
             }
             Yaml::SingleQuotedString(parts) => {
                 let contains_newline = parts
@@ -802,20 +823,20 @@ impl Pretty for Yaml {
                 let s = parse_single_quoted_string(&parts);
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
-                if contains_newline {
-                    return Yaml::LiteralString(create_literal(s), chomping);
-                }
                 if !in_inline && can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
                     return Yaml::UnquotedString(s);
                 }
                 if in_inline {
                     return Yaml::SingleQuotedString(parts);
                 }
-                if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                let block_string = if contains_newline {
+                    literal_string(s, chomping)
+                } else if total_length > max_line_length {
+                    folded_string(s, max_line_length, chomping)
                 } else {
-                    Yaml::SingleQuotedString(parts)
-                }
+                    None
+                };
+                block_string.unwrap_or(Yaml::SingleQuotedString(parts))
             }
             Yaml::LiteralString(lines, chomping) => Yaml::LiteralString(lines, chomping),
             Yaml::FoldedString(lines, chomping) => Yaml::FoldedString(lines, chomping),
-- 
2.43.0


From 181d9bcc26742048dfd660874174e534db086b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 28/42] fix: a string with a comment on its line stays on that
 line when it's prettified

---
 src/yaml/mod.rs | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index a2dc138..09dc5c2 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -638,6 +638,35 @@ impl<T: Pretty> Pretty for Vec<T> {
     }
 }
 
+#[derive(PartialEq)]
+enum LineEnd {
+    // the item is a comment on the line of the item before it
+    Comment,
+    // a comment can be added to the line
+    Free,
+    Other,
+}
+
+// The comment on the line of an entry stays there, so such an entry can't become a block string.
+fn pretty_entries<T: Pretty + Clone>(
+    entries: Vec<T>,
+    child_of_array: bool,
+    line_end: impl Fn(&T) -> LineEnd,
+) -> Vec<T> {
+    let mut entries = entries.into_iter().peekable();
+    let mut result = Vec::new();
+    while let Some(entry) = entries.next() {
+        let has_comment = entries.peek().map_or(false, |next| line_end(next) == LineEnd::Comment);
+        let original = (has_comment && line_end(&entry) == LineEnd::Free).then(|| entry.clone());
+        let prettied = entry.pretty_with_options(false, child_of_array);
+        result.push(match original {
+            Some(original) if line_end(&prettied) != LineEnd::Free => original,
+            _ => prettied,
+        });
+    }
+    result
+}
+
 // Returns true when a string can be written as a plain (unquoted) YAML scalar in block context.
 // Rules based on yaml_subset's grammar:
 //   - start disallowed: [ ] { } " ' # > | newline, and the other indicators of YAML
@@ -742,7 +771,11 @@ impl Pretty for Yaml {
                         .collect();
                     Yaml::InlineHash(entries)
                 } else {
-                    Yaml::Hash(v.pretty_with_options(false, false))
+                    Yaml::Hash(pretty_entries(v, false, |d| match d {
+                        HashData::InlineComment(_) => LineEnd::Comment,
+                        HashData::Element(e) if ends_in_line(&e.value.value) => LineEnd::Free,
+                        _ => LineEnd::Other,
+                    }))
                 }
             }
             Yaml::InlineArray(v) => Yaml::InlineArray(v.pretty_with_options(true, false)),
@@ -761,7 +794,11 @@ impl Pretty for Yaml {
                         .collect();
                     return Yaml::InlineArray(elements);
                 }
-                let prettied: Vec<ArrayData> = v.pretty_with_options(false, true);
+                let prettied = pretty_entries(v, true, |d| match d {
+                    ArrayData::InlineComment(_) => LineEnd::Comment,
+                    ArrayData::Element(e) if ends_in_line(&e.value) => LineEnd::Free,
+                    _ => LineEnd::Other,
+                });
                 // Auto-inline when this array is a direct child of another block array.
                 if child_of_array {
                     let can_inline = prettied.iter().all(|d| match d {
-- 
2.43.0


From 29940857a000c2a789126c0cbdc79f9dffba9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 29/42] fix: folding a string only breaks lines at single
 spaces and keeps strings of newlines

---
 src/yaml/string.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index b26773b..9fa2348 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -72,24 +72,27 @@ pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
     handle_ending_newlines(result, chomping)
 }
 
+// The lines are joined with one space again, so a line can only end at a single space between two
+// words. Lines that start with whitespace aren't folded.
 fn split_on_length(input: String, length: usize) -> Vec<String> {
+    let is_indented = input.starts_with([' ', '\t']);
     let mut result = Vec::new();
     let mut s = String::new();
-    let mut first = true;
-    for word in input.split(" ") {
-        if s.len() + word.len() + 1 > length {
-            result.push(s.clone());
-            s = word.to_string();
-        } else {
-            if !first {
-                s.push_str(" ");
-            }
-            s.push_str(word);
-            first = false;
+    for (i, word) in input.split(' ').enumerate() {
+        let can_start_line = !is_indented
+            && !s.is_empty()
+            && !s.ends_with(' ')
+            && !word.is_empty()
+            && !word.starts_with('\t');
+        if can_start_line && s.len() + word.len() + 1 > length {
+            result.push(std::mem::take(&mut s));
+        } else if i > 0 {
+            s.push(' ');
         }
+        s.push_str(word);
     }
     if !s.is_empty() {
-        result.push(s.clone());
+        result.push(s);
     }
     result
 }
@@ -98,6 +101,7 @@ fn split_on_length(input: String, length: usize) -> Vec<String> {
 // Strips two trailing ""s that the chain([""])  pattern adds for strings ending
 // with \n: one for the paragraph-break after the last wrapped line, and one for
 // the empty split result of the trailing \n.  Keep chomping adds the \n back.
+// (Without a line that isn't empty there is no such paragraph-break.)
 pub fn create_folded(s: String, line_length: usize) -> Vec<String> {
     let ends_with_newline = s.ends_with('\n');
     let mut lines: Vec<String> = s
@@ -109,8 +113,9 @@ pub fn create_folded(s: String, line_length: usize) -> Vec<String> {
         })
         .collect();
     if ends_with_newline {
+        let has_content = lines.iter().any(|l| !l.is_empty());
         if lines.last().map(|l| l.is_empty()).unwrap_or(false) { lines.pop(); }
-        if lines.last().map(|l| l.is_empty()).unwrap_or(false) { lines.pop(); }
+        if has_content && lines.last().map(|l| l.is_empty()).unwrap_or(false) { lines.pop(); }
     }
     lines
 }
-- 
2.43.0


From 8c5853df3d9b4d89b967033434855d24977fc58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 30/42] fix: a scalar that ends with ':' can't be followed by a
 comment after a no-break space either

---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index e762b31..6220e15 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -14,8 +14,8 @@ disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ":"
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { "-" ~ (" " | NEWLINE | EOI) | " " | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
-disallowed_unquoted_string_elements = { ": " | SPACE_SEPARATOR+ ~ "#" |  NEWLINE }
+disallowed_unquoted_string_start_elements = { "-" ~ (" " | NEWLINE | EOI) | " " | "[" | "]" | "{" | "}" | ": " | ":" ~ SPACE_SEPARATOR+ ~ "#" | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_elements = { ": " | ":" ~ SPACE_SEPARATOR+ ~ "#" | SPACE_SEPARATOR+ ~ "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
 unquoted_string = @{ unquoted_string_start_elements ~ unquoted_string_elements* }
-- 
2.43.0


From b8338be92c352c35010832e81e263263c325ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 31/42] fix: variants with content are serialized with the name
 of the variant

---
 src/yaml/serializer.rs | 47 ++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 8fc2c34..a54669f 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -32,6 +32,14 @@ fn aliased(value: Yaml) -> AliasedYaml {
     AliasedYaml { alias: None, value }
 }
 
+// A variant with content is a map with the name of the variant as its only key.
+fn tagged(variant: &str, content: Yaml) -> Yaml {
+    Yaml::Hash(vec![HashData::Element(HashElement {
+        key: variant.to_string(),
+        value: aliased(content),
+    })])
+}
+
 // Returns true when a string cannot be written as a plain (unquoted) YAML scalar.
 // Also quotes strings that are unsafe in inline (flow) context, since the serializer
 // has no context. pretty() will de-quote back to unquoted in block context when safe.
@@ -165,10 +173,10 @@ impl ser::Serializer for YamlSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = TupleSerializer;
     type SerializeTupleStruct = TupleSerializer;
-    type SerializeTupleVariant = TupleSerializer;
+    type SerializeTupleVariant = VariantSerializer<TupleSerializer>;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
-    type SerializeStructVariant = MapSerializer;
+    type SerializeStructVariant = VariantSerializer<MapSerializer>;
 
     fn serialize_bool(self, v: bool) -> Result<Yaml, Self::Error> {
         Ok(Yaml::UnquotedString(
@@ -255,10 +263,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Yaml, Self::Error> {
-        value.serialize(self)
+        Ok(tagged(variant, value.serialize(self)?))
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<SeqSerializer, Self::Error> {
         Ok(SeqSerializer {
@@ -281,10 +289,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
-    ) -> Result<TupleSerializer, Self::Error> {
-        self.serialize_tuple(len)
+    ) -> Result<VariantSerializer<TupleSerializer>, Self::Error> {
+        Ok(VariantSerializer { variant, content: self.serialize_tuple(len)? })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<MapSerializer, Self::Error> {
         Ok(MapSerializer {
@@ -303,10 +311,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
-    ) -> Result<MapSerializer, Self::Error> {
-        self.serialize_map(Some(len))
+    ) -> Result<VariantSerializer<MapSerializer>, Self::Error> {
+        Ok(VariantSerializer { variant, content: self.serialize_map(Some(len))? })
     }
 }
 
@@ -374,19 +382,26 @@ impl ser::SerializeTupleStruct for TupleSerializer {
     }
 }
 
-impl ser::SerializeTupleVariant for TupleSerializer {
+impl ser::SerializeTupleVariant for VariantSerializer<TupleSerializer> {
     type Ok = Yaml;
     type Error = YamlSerializeError;
 
     fn serialize_field<T: Serialize + ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeTuple::serialize_element(self, value)
+        ser::SerializeTuple::serialize_element(&mut self.content, value)
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        ser::SerializeTuple::end(self)
+        Ok(tagged(self.variant, ser::SerializeTuple::end(self.content)?))
     }
 }
 
+// ─── Variant Serializer ──────────────────────────────────────────────────────
+
+pub struct VariantSerializer<S> {
+    variant: &'static str,
+    content: S,
+}
+
 // ─── Map / Struct Serializer ─────────────────────────────────────────────────
 
 pub struct MapSerializer {
@@ -447,7 +462,7 @@ impl ser::SerializeStruct for MapSerializer {
     }
 }
 
-impl ser::SerializeStructVariant for MapSerializer {
+impl ser::SerializeStructVariant for VariantSerializer<MapSerializer> {
     type Ok = Yaml;
     type Error = YamlSerializeError;
 
@@ -456,10 +471,10 @@ impl ser::SerializeStructVariant for MapSerializer {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        ser::SerializeStruct::serialize_field(self, key, value)
+        ser::SerializeStruct::serialize_field(&mut self.content, key, value)
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        ser::SerializeMap::end(self)
+        Ok(tagged(self.variant, ser::SerializeMap::end(self.content)?))
     }
 }
-- 
2.43.0


From 3d8ce6e53d8f0beeabec7f1e2d536b3b4782065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 32/42] fix: keys that can't be written are an error when
 serializing, and every string that can be a key is one

---
 src/yaml/parser.rs     |  7 +++++++
 src/yaml/serializer.rs | 38 ++++++++++++++++++--------------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 345c6d6..33758a1 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -599,6 +599,13 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
+/// Can this be written as the key of a hash?
+#[cfg(feature = "serde")]
+pub(super) fn is_key(key: &str) -> bool {
+    let node = YamlParser::parse(Rule::hash_key, key).and_then(|nodes| nodes.single());
+    !key.ends_with(' ') && node.map_or(false, |node| node.as_str() == key)
+}
+
 /// Column (in characters, starting at 0) at which the node starts
 fn column(node: &Node) -> usize {
     let before = &node.as_pair().get_input()[..node.as_span().start()];
diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index a54669f..9e08b41 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -5,6 +5,7 @@ use super::string::{
     DoubleQuotedStringEscapedChar, DoubleQuotedStringPart, SingleQuotedStringEscapedChar,
     SingleQuotedStringPart,
 };
+use super::parser::is_key;
 use super::{AliasedYaml, ArrayData, HashData, HashElement, Yaml};
 
 // ─── Error ───────────────────────────────────────────────────────────────────
@@ -32,12 +33,17 @@ fn aliased(value: Yaml) -> AliasedYaml {
     AliasedYaml { alias: None, value }
 }
 
+// Keys are always written plain, so not every string can be one.
+fn hash_data(key: String, value: Yaml) -> Result<HashData, YamlSerializeError> {
+    if !is_key(&key) {
+        return Err(YamlSerializeError(format!("{key:?} can't be written as a key")));
+    }
+    Ok(HashData::Element(HashElement { key, value: aliased(value) }))
+}
+
 // A variant with content is a map with the name of the variant as its only key.
-fn tagged(variant: &str, content: Yaml) -> Yaml {
-    Yaml::Hash(vec![HashData::Element(HashElement {
-        key: variant.to_string(),
-        value: aliased(content),
-    })])
+fn tagged(variant: &str, content: Yaml) -> Result<Yaml, YamlSerializeError> {
+    Ok(Yaml::Hash(vec![hash_data(variant.to_string(), content)?]))
 }
 
 // Returns true when a string cannot be written as a plain (unquoted) YAML scalar.
@@ -149,10 +155,11 @@ fn str_to_yaml(s: &str) -> Yaml {
 }
 
 fn yaml_to_key_string(yaml: Yaml) -> Result<String, YamlSerializeError> {
-    use super::string::parse_double_quoted_string;
+    use super::string::{parse_double_quoted_string, parse_single_quoted_string};
     match yaml {
         Yaml::UnquotedString(s) => Ok(s),
         Yaml::DoubleQuotedString(ref parts) => Ok(parse_double_quoted_string(parts)),
+        Yaml::SingleQuotedString(ref parts) => Ok(parse_single_quoted_string(parts)),
         _ => Err(YamlSerializeError("non-string map key".to_string())),
     }
 }
@@ -266,7 +273,7 @@ impl ser::Serializer for YamlSerializer {
         variant: &'static str,
         value: &T,
     ) -> Result<Yaml, Self::Error> {
-        Ok(tagged(variant, value.serialize(self)?))
+        tagged(variant, value.serialize(self)?)
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<SeqSerializer, Self::Error> {
         Ok(SeqSerializer {
@@ -391,7 +398,7 @@ impl ser::SerializeTupleVariant for VariantSerializer<TupleSerializer> {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(tagged(self.variant, ser::SerializeTuple::end(self.content)?))
+        tagged(self.variant, ser::SerializeTuple::end(self.content)?)
     }
 }
 
@@ -429,17 +436,8 @@ impl ser::SerializeMap for MapSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::Hash(
-            self.entries
-                .into_iter()
-                .map(|(k, v)| {
-                    HashData::Element(HashElement {
-                        key: k,
-                        value: aliased(v),
-                    })
-                })
-                .collect(),
-        ))
+        let entries = self.entries.into_iter().map(|(k, v)| hash_data(k, v));
+        Ok(Yaml::Hash(entries.collect::<Result<_, _>>()?))
     }
 }
 
@@ -475,6 +473,6 @@ impl ser::SerializeStructVariant for VariantSerializer<MapSerializer> {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(tagged(self.variant, ser::SerializeMap::end(self.content)?))
+        tagged(self.variant, ser::SerializeMap::end(self.content)?)
     }
 }
-- 
2.43.0


From f5e1910f559cc9cd02f68880b43e6b79c057eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 33/42] fix: collections in a tuple are serialized inline, they
 can't be written in block style there

---
 src/yaml/serializer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 9e08b41..0282853 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -6,7 +6,7 @@ use super::string::{
     SingleQuotedStringPart,
 };
 use super::parser::is_key;
-use super::{AliasedYaml, ArrayData, HashData, HashElement, Yaml};
+use super::{AliasedYaml, ArrayData, HashData, HashElement, Pretty, Yaml};
 
 // ─── Error ───────────────────────────────────────────────────────────────────
 
@@ -372,7 +372,8 @@ impl ser::SerializeTuple for TupleSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::InlineArray(self.elements))
+        // collections in an inline array have to be inline too
+        Ok(Yaml::InlineArray(self.elements.pretty_with_options(true, false)))
     }
 }
 
-- 
2.43.0


From f9753d27b0be63f01a65e541d860821172ff0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 34/42] fix: 128 bit integers can be deserialized

---
 src/yaml/deserializer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 590e550..77195cf 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -302,6 +302,26 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected unsigned integer"))
         }
     }
+    fn deserialize_i128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<i128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_i128(v))
+        } else {
+            Err(Self::Error::custom("expected integer"))
+        }
+    }
+    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<u128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_u128(v))
+        } else {
+            Err(Self::Error::custom("expected unsigned integer"))
+        }
+    }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_f64(visitor)
     }
-- 
2.43.0


From fb5eff1830cc5da19989c62894e7dd870cbafce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 35/42] fix: a 32 bit float is read as the nearest one

---
 src/yaml/deserializer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 77195cf..f149910 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -323,7 +323,15 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         }
     }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        self.deserialize_f64(visitor)
+        // not via f64, rounding twice can result in another number
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<f32>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_f32(v))
+        } else {
+            Err(Self::Error::custom("expected float"))
+        }
     }
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
-- 
2.43.0


From cda5866181c541f18676490cf92d181db0469a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 36/42] fix: a float without fraction isn't serialized as an
 integer

---
 src/yaml/serializer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 0282853..0a70a3b 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -221,10 +221,12 @@ impl ser::Serializer for YamlSerializer {
         Ok(Yaml::UnquotedString(v.to_string()))
     }
     fn serialize_f32(self, v: f32) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::UnquotedString(v.to_string()))
+        // unlike an integer this always contains a '.' or an exponent
+        Ok(Yaml::UnquotedString(format!("{v:?}")))
     }
     fn serialize_f64(self, v: f64) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::UnquotedString(v.to_string()))
+        // unlike an integer this always contains a '.' or an exponent
+        Ok(Yaml::UnquotedString(format!("{v:?}")))
     }
     fn serialize_char(self, v: char) -> Result<Yaml, Self::Error> {
         Ok(str_to_yaml(&v.to_string()))
-- 
2.43.0


From b6bbf1235a6fac396393073e6cbf5ef13e576cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 37/42] fix: elements after the last one of a tuple aren't
 ignored when deserializing

---
 src/yaml/deserializer.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index f149910..b7a0a27 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -233,9 +233,9 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             }
             Yaml::Array(elements) => {
                 let values = seq_values(elements);
-                visitor.visit_seq(VecSeqAccess::new(values, anchors))
+                visit_seq(values, anchors, visitor)
             }
-            Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
+            Yaml::InlineArray(elements) => visit_seq(elements, anchors, visitor),
             Yaml::Hash(data) => {
                 let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
@@ -398,9 +398,9 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         match yaml {
             Yaml::Array(elements) => {
                 let values = seq_values(elements);
-                visitor.visit_seq(VecSeqAccess::new(values, anchors))
+                visit_seq(values, anchors, visitor)
             }
-            Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
+            Yaml::InlineArray(elements) => visit_seq(elements, anchors, visitor),
             _ => Err(Self::Error::custom("expected sequence")),
         }
     }
@@ -517,6 +517,21 @@ impl VecSeqAccess {
     }
 }
 
+// Elements that the visitor doesn't read, like those after the last one of a tuple, are an error.
+fn visit_seq<'de, V: Visitor<'de>>(
+    values: Vec<Yaml>,
+    anchors: Anchors,
+    visitor: V,
+) -> Result<V::Value, YamlDeserializeError> {
+    let len = values.len();
+    let mut access = VecSeqAccess::new(values, anchors);
+    let value = visitor.visit_seq(&mut access)?;
+    match access.iter.len() {
+        0 => Ok(value),
+        left => Err(DeError::invalid_length(len, &format!("{} elements", len - left).as_str())),
+    }
+}
+
 impl<'de> SeqAccess<'de> for VecSeqAccess {
     type Error = YamlDeserializeError;
 
-- 
2.43.0


From 32b742d958798c6c29c56f3c3624350125c6a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 38/42] fix: only null can be deserialized to a unit

---
 src/yaml/deserializer.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index b7a0a27..5f07afd 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -50,6 +50,10 @@ fn yaml_to_string(yaml: &Yaml) -> Option<String> {
     }
 }
 
+fn is_null(yaml: &Yaml) -> bool {
+    matches!(yaml, Yaml::UnquotedString(s) if matches!(s.as_str(), "~" | "null" | "Null" | "NULL"))
+}
+
 // The values of the anchors of a document, every definition has its own identifier.
 type Anchors = Rc<HashMap<String, Yaml>>;
 
@@ -366,23 +370,27 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
 
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
-        match &yaml {
-            Yaml::UnquotedString(s) if matches!(s.as_str(), "~" | "null" | "Null" | "NULL") => {
-                visitor.visit_none()
-            }
-            _ => visitor.visit_some(YamlDeserializer::with(yaml, anchors)),
+        if is_null(&yaml) {
+            visitor.visit_none()
+        } else {
+            visitor.visit_some(YamlDeserializer::with(yaml, anchors))
         }
     }
 
     fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        visitor.visit_unit()
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if is_null(&yaml) {
+            visitor.visit_unit()
+        } else {
+            Err(Self::Error::custom("expected null"))
+        }
     }
     fn deserialize_unit_struct<V: Visitor<'de>>(
         self,
         _name: &'static str,
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        visitor.visit_unit()
+        self.deserialize_unit(visitor)
     }
 
     fn deserialize_newtype_struct<V: Visitor<'de>>(
-- 
2.43.0


From c8691f53185ab54d512328b3e677bec811d4d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 39/42] fix: the content of a variant isn't ignored or made up
 when deserializing

---
 src/yaml/deserializer.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 5f07afd..46cd5f7 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -470,7 +470,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                     .ok_or_else(|| Self::Error::custom("expected string for enum variant"))?;
                 visitor.visit_enum(StrEnumAccess {
                     variant: s,
-                    value: Yaml::UnquotedString("~".to_string()),
+                    value: None,
                     anchors,
                 })
             }
@@ -480,7 +480,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 let mut entries = hash_entries(data);
                 if entries.len() == 1 {
                     let (variant, value) = entries.remove(0);
-                    visitor.visit_enum(StrEnumAccess { variant, value, anchors })
+                    visitor.visit_enum(StrEnumAccess { variant, value: Some(value), anchors })
                 } else {
                     Err(Self::Error::custom(
                         "expected single-key map for tagged enum variant",
@@ -490,7 +490,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Yaml::InlineHash(mut data) => {
                 if data.len() == 1 {
                     let (variant, value) = data.remove(0);
-                    visitor.visit_enum(StrEnumAccess { variant, value, anchors })
+                    visitor.visit_enum(StrEnumAccess { variant, value: Some(value), anchors })
                 } else {
                     Err(Self::Error::custom(
                         "expected single-key inline hash for tagged enum variant",
@@ -605,38 +605,54 @@ impl<'de> MapAccess<'de> for VecMapAccess {
 
 struct StrEnumAccess {
     variant: String,
-    value: Yaml,
+    // a plain variant has no content
+    value: Option<Yaml>,
     anchors: Anchors,
 }
 
 impl<'de> EnumAccess<'de> for StrEnumAccess {
     type Error = YamlDeserializeError;
-    type Variant = YamlDeserializer;
+    type Variant = VariantContent;
 
     fn variant_seed<V: DeserializeSeed<'de>>(
         self,
         seed: V,
-    ) -> Result<(V::Value, YamlDeserializer), Self::Error> {
+    ) -> Result<(V::Value, VariantContent), Self::Error> {
         let variant = seed.deserialize(YamlDeserializer::with(
             Yaml::UnquotedString(self.variant),
             Rc::clone(&self.anchors),
         ))?;
-        Ok((variant, YamlDeserializer::with(self.value, self.anchors)))
+        Ok((variant, VariantContent { value: self.value, anchors: self.anchors }))
     }
 }
 
-impl<'de> VariantAccess<'de> for YamlDeserializer {
+struct VariantContent {
+    value: Option<Yaml>,
+    anchors: Anchors,
+}
+
+impl VariantContent {
+    fn deserializer(self) -> Result<YamlDeserializer, YamlDeserializeError> {
+        let value = self.value.ok_or_else(|| DeError::custom("expected a variant with content"))?;
+        Ok(YamlDeserializer::with(value, self.anchors))
+    }
+}
+
+impl<'de> VariantAccess<'de> for VariantContent {
     type Error = YamlDeserializeError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        Ok(())
+        match self.value {
+            Some(value) => <()>::deserialize(YamlDeserializer::with(value, self.anchors)),
+            None => Ok(()),
+        }
     }
 
     fn newtype_variant_seed<T: DeserializeSeed<'de>>(
         self,
         seed: T,
     ) -> Result<T::Value, Self::Error> {
-        seed.deserialize(self)
+        seed.deserialize(self.deserializer()?)
     }
 
     fn tuple_variant<V: Visitor<'de>>(
@@ -644,7 +660,7 @@ impl<'de> VariantAccess<'de> for YamlDeserializer {
         len: usize,
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        de::Deserializer::deserialize_tuple(self, len, visitor)
+        de::Deserializer::deserialize_tuple(self.deserializer()?, len, visitor)
     }
 
     fn struct_variant<V: Visitor<'de>>(
@@ -652,7 +668,7 @@ impl<'de> VariantAccess<'de> for YamlDeserializer {
         fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        de::Deserializer::deserialize_struct(self, "", fields, visitor)
+        de::Deserializer::deserialize_struct(self.deserializer()?, "", fields, visitor)
     }
 }
 
-- 
2.43.0


From 547f2b4a10d7f1baa45979fcb729dca2277d06f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 40/42] fix: every kind of line break ends a line of a quoted
 string

---
 src/yaml.pest      | 10 +++++-----
 src/yaml/parser.rs |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 6220e15..32f8d2d 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -21,18 +21,18 @@ unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements)
 unquoted_string = @{ unquoted_string_start_elements ~ unquoted_string_elements* }
 string_value = @{ (("\\" ~ ANY) | (!(PEEK) ~ ANY))* }
 
-escaped_double_quote_char_value = { "n" | "\\" | "r" | "t" | "\"" | "\n" }
+escaped_double_quote_char_value = { "n" | "\\" | "r" | "t" | "\"" | NEWLINE }
 escaped_double_quote_char = _{ "\\" ~ escaped_double_quote_char_value }
-double_quote_text = { (!("\"" | "\\" | "\n") ~ ANY)+ }
+double_quote_text = { (!("\"" | "\\" | NEWLINE) ~ ANY)+ }
 double_quote_without_escape = { escaped_double_quote_char | blank_lines | removable_newline | double_quote_text }
 double_quote_content = { double_quote_without_escape* }
 double_quoted_string = { PUSH("\"") ~ double_quote_content ~ POP ~ SPACE_SEPARATOR* }
 
 single_quote = { "'" }
 single_quote_char = _{ "'" ~ single_quote }
-blank_lines = { "\n" ~ "\n"+ }
-removable_newline = { "\n" }
-single_quote_text = { (!("'" | "\n") ~ ANY)+ }
+blank_lines = { NEWLINE ~ NEWLINE+ }
+removable_newline = { NEWLINE }
+single_quote_text = { (!("'" | NEWLINE) ~ ANY)+ }
 escaped_single_quote_char = { single_quote_char | blank_lines | removable_newline | single_quote_text }
 single_quote_content = { escaped_single_quote_char* }
 single_quoted_string = { PUSH("'") ~ single_quote_content ~ POP ~ SPACE_SEPARATOR* }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 33758a1..cd2153a 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -115,7 +115,7 @@ impl YamlParser {
     ) -> InternalYamlResult<DoubleQuotedStringEscapedChar> {
         match input.as_str().chars().next().unwrap() {
             'n' => Ok(DoubleQuotedStringEscapedChar::Newline),
-            '\n' => Ok(DoubleQuotedStringEscapedChar::RealNewline),
+            '\n' | '\r' => Ok(DoubleQuotedStringEscapedChar::RealNewline),
             'r' => Ok(DoubleQuotedStringEscapedChar::CarriageReturn),
             't' => Ok(DoubleQuotedStringEscapedChar::Tab),
             '\\' => Ok(DoubleQuotedStringEscapedChar::Backslash),
@@ -133,7 +133,7 @@ impl YamlParser {
     }
 
     fn blank_lines(input: Node) -> InternalYamlResult<usize> {
-        Ok(input.as_str().lines().count() - 1)
+        Ok(empty_lines(input.as_str()).len() - 1)
     }
 
     fn double_quote_without_escape(input: Node) -> InternalYamlResult<DoubleQuotedStringPart> {
-- 
2.43.0


From 00401f031530f8ab1ed8627ada7ce1d392267ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 41/42] fix: blank lines before --- don't need a comment

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 32f8d2d..a411427 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -94,7 +94,7 @@ commentnl = { (comment_base ~ blank) }
 comment = { comment_base }
 commentnls = { commentnl* }
 
-leading_comments = { (blanknl* ~ commentnl ~ blanknl*)* }
+leading_comments = { (blanknl* ~ commentnl ~ blanknl*)* ~ blanknl* }
 
 blank = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | (SPACE_SEPARATOR* ~ NEWLINE)? }
 blanknl = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | SPACE_SEPARATOR* ~ NEWLINE }
-- 
2.43.0


From 6e87615ddd9342a6582f7bd6b2e3f85cb5f9315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 42/42] fix: a block string without text ends where the next
 element starts

---
 src/yaml/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 09dc5c2..a6b7a9b 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -362,7 +362,7 @@ impl Yaml {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
                                 (Some(_), Some(Parent::Array)) => {
-                                    idx == 0 && !needs_indentation_indicator(&v.value.value)
+                                    idx == 0 && !needs_own_line(&v.value.value)
                                 }
                                 _ => false,
                             };
@@ -411,7 +411,7 @@ impl Yaml {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
                                 (Some(_), Some(Parent::Array)) => {
-                                    idx == 0 && !needs_indentation_indicator(&v.value)
+                                    idx == 0 && !needs_own_line(&v.value)
                                 }
                                 _ => false,
                             };
@@ -536,11 +536,12 @@ fn starts_with_indented_line(lines: &[String]) -> bool {
         .map_or(false, |line| line.starts_with(' '))
 }
 
-// The parser doesn't know the column of an element that is on the line of its parent's dash.
-fn needs_indentation_indicator(value: &Yaml) -> bool {
+// The parser doesn't know the column of an element that is on the line of its parent's dash,
+// so it can't see where a block string ends that has no text or an indentation indicator.
+fn needs_own_line(value: &Yaml) -> bool {
     match value {
         Yaml::LiteralString(lines, _) | Yaml::FoldedString(lines, _) => {
-            starts_with_indented_line(lines)
+            starts_with_indented_line(lines) || lines.iter().all(|line| line.is_empty())
         }
         _ => false,
     }
-- 
2.43.0

