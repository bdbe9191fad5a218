BUILD = "the check is not built yet"
def P(id, title, statement, over, quantifier, why, files, mechanism, observe, note, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
             mechanism=mechanism, observe=observe, note=note)
    d.update(kw)
    return d

GRAMMAR = ["src/yaml.pest", "src/yaml/parser.rs"]
FMT = ["src/yaml/mod.rs", "src/yaml/aliased.rs", "src/yaml/document.rs"]
EDIT = ["src/yaml/insert.rs", "src/yaml/mod.rs", "src/yaml/hash_data.rs", "src/yaml/hash_element.rs", "src/yaml/array_data.rs"]
TRUST = " Trusted: rustc, pest and the small reference model in mc/src. Nothing is claimed outside the stated bounds."

PROPS = [
P("C01", "Every input is answered with a result or an error, in bounded time",
  "Parsing any text as a document, and then formatting, prettifying or deserializing it, and parsing any text as a path and using that path on a document, always returns: never a panic, abort, stack overflow (nesting up to a few hundred levels) or hang, and no exponential growth of the time with the nesting depth. A rejected document comes with a line and column that are a position of that document.",
  ["inputs"], "all texts (enumerated: all token strings up to a length after a set of prefixes, all line templates, all edits of seed documents, all nestings of container kinds up to depth 100/300, long repetitions of every token pair)",
  "The tests parse a few dozen well formed documents; malformed, deeply nested and odd inputs are not among them, and the set of texts is infinite.",
  GRAMMAR + ["src/path.pest", "src/path.rs", "src/yaml/mod.rs", "src/yaml/deserializer.rs"],
  [("PEG grammar + typed consumers", "src/yaml.pest, src/yaml/parser.rs"), ("path grammar", "src/path.pest, src/path.rs")],
  ["parse_yaml_file", "Document::format", "Pretty::pretty", "from_yaml_str", "YamlPath::from_str", "YamlInsert"],
  "Every text of the enumerated spaces is run on the real code, in a child process so that aborts and hangs are seen; timeouts are 40 s per case while legitimate cases take milliseconds." + TRUST),

P("C02", "A document reads as the same tree in every layout YAML allows for it",
  "A tree of block and flow mappings and sequences with plain, quoted and block scalars and anchors reads as exactly that tree (entries, order, scalar texts, anchor names), whichever layout is used: indentation width, sequences indented or flush with their key, collections on the line of a dash or on their own line, blank lines, trailing spaces, CRLF line ends, spacing inside and line breaks between flow entries, values on the line after their key, a missing final newline.",
  ["inputs"], "all trees up to a size x all layouts that differ from the standard one in up to 3 dimensions",
  "The tests contain a handful of trees, each in one layout; nesting bugs depend on combinations of container kind, position and layout.",
  GRAMMAR, [("grammar with an indentation stack (PUSH/PEEK/DROP)", "src/yaml.pest"), ("indentation and continuation checks", "src/yaml/parser.rs")],
  ["parse_yaml_file"],
  "Abstract documents are enumerated and written by an independent renderer; the parse of every text must equal the abstract document it was written from." + TRUST),

P("C03", "Every scalar style yields the text YAML defines for it",
  "The text of a scalar is what YAML 1.2 defines for its style: plain text as written; quoted text with its escapes replaced; literal block text with its lines as written, relative to its indentation (detected or explicit), and folded block text with the folding rules; with trailing newlines according to the chomping indicator. Line breaks inside quoted strings are the exception: a single one disappears, and n blank lines yield n newlines.",
  ["inputs"], "all block scalars up to a number of lines over a line alphabet x style x chomping x indicator x position in the document x what follows; all quoted token strings up to a length; all plain strings of accepted characters",
  "Tests pin a handful of block scalars; chomping, folding, leading blank lines and indentation interact.",
  GRAMMAR + ["src/yaml/string.rs"], [("parse_literal/parse_folded/handle_ending_newlines", "src/yaml/string.rs"), ("clean_multiline_strings", "src/yaml/parser.rs")],
  ["parse_yaml_file + as_string"],
  "The expected text is computed by an independent implementation of the YAML rules and compared for every enumerated scalar." + TRUST),

P("C04", "Indentation alone decides nesting",
  "Every document made of 'key:', 'key: value', '-', '- value' and compact '- key: value' / '- - value' lines at arbitrary indentations is either rejected or read with the nesting that its indentation defines; a document that YAML accepts and that is within the subset is not rejected. A line never silently becomes part of another collection than the one it is aligned with.",
  ["inputs"], "all documents of up to n lines over the line alphabet x all indentations up to 4",
  "Tests contain a few well indented documents; misaligned lines, which silently moved entries to other parents, are not tested.",
  GRAMMAR, [("PUSH/PEEK/DROP", "src/yaml.pest"), ("check_indentation, continuations", "src/yaml/parser.rs")],
  ["parse_yaml_file"],
  "All line sequences are enumerated and compared with an independent line based reader." + TRUST),

P("C05", "Formatting a parsed document and parsing it again gives the same document",
  "For every text that is accepted, the formatted document is accepted and parses to an equal document (data, styles, anchors and comments), and formatting that again gives the same text.",
  ["inputs"], "all accepted texts (enumerated as for C01), all trees x layouts",
  "Snapshot tests show the formatted text of about 30 documents and never parse it again.",
  FMT + GRAMMAR, [("Yaml::format", "src/yaml/mod.rs"), ("Document::format", "src/yaml/document.rs")],
  ["parse_yaml_file", "Document::format"],
  "Every enumerated text is parsed, formatted, parsed and formatted on the real code and compared." + TRUST),

P("C06", "Comments are kept, in order, at their place in the data",
  "Parsing and formatting keep every comment: none is lost, duplicated, moved across a key or value, or turned into data, and no part of the data becomes a comment ('#' only starts a comment at the start of a line or after a space, outside quoted and block scalars).",
  ["inputs"], "all trees up to a size x all sets of comment positions (all subsets for small documents, up to 2 comments for larger) x layouts",
  "A few snapshot tests contain comments in some positions; there are exponentially many.",
  GRAMMAR + FMT, [("comment, commentnls", "src/yaml.pest"), ("InlineComment/Comment entries", "src/yaml/mod.rs")],
  ["parse_yaml_file", "Document::format"],
  "The renderer writes comments in every enumerated set of positions and knows the event sequence that has to come back, before and after formatting." + TRUST),

P("C07", "Prettifying a document never changes its data, anchors or comments",
  "The pretty version of a parsed document, read back from its formatted text, denotes the same data as the original: the same entries in the same order, every scalar with the same type and text, every anchor and alias, and every comment in order. A string only loses its quotes when YAML reads it as the same plain string.",
  ["inputs"], "all accepted texts of the enumerated spaces, all trees x scalar styles, all quoted strings up to a length, long strings around the line length",
  "Few tests call pretty, on values picked to work.",
  FMT + ["src/yaml/string.rs"], [("Pretty for Yaml", "src/yaml/mod.rs"), ("create_folded/create_literal", "src/yaml/string.rs")],
  ["Pretty::pretty", "Document::format", "parse_yaml_file"],
  "Every enumerated document is prettified, formatted and read back; data, anchors and comments are compared." + TRUST),

P("C08", "Prettifying is stable",
  "Prettifying a pretty document changes nothing, also after writing it to text and reading it back: pretty(parse(format(pretty(d)))) equals pretty(d) and formats to the same text.",
  ["inputs"], "as C07", "No test applies pretty twice.",
  FMT, [("Pretty for Yaml", "src/yaml/mod.rs")], ["Pretty::pretty", "Document::format"],
  "Every enumerated document is prettified twice, directly and through text." + TRUST),

P("C09", "A path expression denotes the steps that are written in it",
  "Parsing a path yields its steps in order (keys, [index], [*]) each with the conditions written behind it, keys may contain every character that is not part of the path syntax, and appending a path to another gives the path that denotes the one behind the other. Every path that is not of that form is an error. (Whether spaces next to the path syntax belong to a key is not decided; a path starts with a key or is empty.)",
  ["inputs"], "all path texts up to a length over the path alphabet; all structured paths up to 5 steps; all pairs for appending",
  "The tests parse ten paths.",
  ["src/path.pest", "src/path.rs"], [("path grammar", "src/path.pest"), ("YamlPath::insert", "src/path.rs")], ["YamlPath::from_str", "YamlPath::insert"],
  "All texts up to the bound are compared with an independent path reader." + TRUST),

P("C10", "find_values returns exactly the values a path denotes",
  "Looking up a path yields precisely the values at the places the path denotes, in document order: a key step selects the value of that key of a block mapping, an index step that element and [*] all elements of a block or flow sequence, and a condition keeps only block mappings whose field has that text; nothing else is returned and the document is unchanged. Flow mappings and aliases are not entered, and of a key that occurs twice the first entry counts.",
  ["inputs"], "all documents up to a size x all paths up to 4 steps with up to 2 conditions",
  "One test looks up a few paths in one document.",
  EDIT + ["src/path.rs"], [("for_hash", "src/yaml/mod.rs")], ["YamlInsert::find_values"],
  "Compared with an independent path evaluator on plain trees." + TRUST),

P("C11", "Insert and remove change exactly the denoted entries and count them",
  "Inserting at a path adds the entry to every block mapping the path denotes that doesn't have it (and replaces it only when overwriting), removing deletes exactly that entry, and everything else, including every comment (also the one on the line of a removed entry), stays as it was. The result is the number of entries inserted, replaced or removed.",
  ["inputs", "histories"], "all documents up to a size x all paths x {insert, overwrite, remove, insert by call}",
  "Tests insert at a few paths in two documents and don't use comments.",
  EDIT, [("edit_hash_structure", "src/yaml/mod.rs"), ("insert_into_hash, remove_from_hash", "src/yaml/insert.rs")], ["YamlInsert"],
  "Compared with the same operation on an independent tree model." + TRUST),

P("C12", "Renaming and wrapping fields touches only the denoted fields",
  "Renaming a field changes the key of every denoted entry and nothing else; wrapping a field puts its value (with its anchor) under a single new key and changes nothing else. Both return the number of entries they changed.",
  ["inputs"], "all documents up to a size x all paths", "Two tests on one document each.",
  EDIT, [("rename_field, to_object", "src/yaml/insert.rs")], ["YamlInsert::rename_field", "YamlInsert::to_object"],
  "Compared with the same operation on an independent tree model." + TRUST),

P("C13", "Moving fields into a subfield never loses or duplicates data",
  "Moving fields into a subfield leaves every moved value, with its anchor, at exactly one place: under the subfield when it could be moved, and otherwise (when the subfield exists and is not a block mapping) where it was; an entry of the same name in the subfield is replaced, the subfield itself and repetitions in the list are ignored, and fields that are not moved are untouched. The result is the number of mappings that were changed.",
  ["inputs"], "all documents up to a size x paths x subfield names x lists of fields, including a subfield that exists with any kind of value or is itself moved",
  "Two tests with well chosen fields.",
  EDIT, [("move_to_subfield", "src/yaml/insert.rs")], ["YamlInsert::move_to_subfield"],
  "Compared with the same operation on an independent tree model and with the conservation of the set of values." + TRUST),

P("C14", "Splitting a map on a field never loses or duplicates entries",
  "Moving the entries of a map to a new map, keyed by a field of theirs, leaves every entry at exactly one place: under its field's value in the new map, or in the old map when it lacks the field or its value is to be kept; the field itself is removed from the entries that were moved or kept for their value, all other content, anchors and comments are kept: the comment on the line of an entry and those before it stay with the entry, those after the last entry with that one. If the new map exists already or no entry would be moved nothing changes.",
  ["inputs"], "all maps up to a number of entries x selector values x keep lists x comments x existing target",
  "One test with one map.",
  EDIT, [("move_to_map_with_field_as_key", "src/yaml/insert.rs")], ["YamlInsert::move_to_map_with_field_as_key"],
  "Compared with the same operation on an independent tree model and with the conservation of entries and comments." + TRUST),

P("C15", "An edited document can be written and read back",
  "After any sequence of edits (insert, remove, rename, wrap, move) of a parsed document with valid names and values, its formatted text is accepted and denotes the edited data, anchors included; and so is and does that of its pretty version.",
  ["histories"], "all sequences of up to 3 operations (4 in the thorough tier) over an operation alphabet on a set of seed documents; insertions of every kind of value in every place; histories of up to 2 operations on all small trees",
  "No test formats and parses a document after editing it.",
  EDIT + FMT, [("Yaml::format", "src/yaml/mod.rs")], ["YamlInsert", "Document::format", "parse_yaml_file"],
  "All operation sequences up to the depth are executed on the real code; the document is written and read back after every one." + TRUST),

P("C16", "A serialized value deserializes to an equal value",
  "Every value of a serde type is serialized, unless one of its keys can't be written, and gives, in memory or written as text (prettified or not) and deserialized as its type, an equal value: numbers, strings, characters, bytes, units, options, sequences, tuples, maps, structs, and enums with unit, newtype, tuple and struct variants, nested in each other in every way; and also as untagged, internally or adjacently tagged and flattened types. Excluded are options of values that are null themselves, and scalars at the root of a document can only be read back in memory.",
  ["inputs"], "all types of up to 4 constructors (5 with string leaves in the thorough tier) x a set of values for every leaf and collection x 6 places; all trees of up to 4-5 nodes of an untagged type; families of derived types",
  "Tests round trip about 30 values in memory, without writing them as text.",
  ["src/yaml/serializer.rs", "src/yaml/deserializer.rs"] + FMT, [("YamlSerializer", "src/yaml/serializer.rs"), ("YamlDeserializer", "src/yaml/deserializer.rs")],
  ["YamlSerializer", "Document::format", "from_yaml_str"],
  "Every value of the bounded families is serialized, written, read and compared." + TRUST),

P("C17", "Every string survives serialization in every position",
  "Any string (without NUL and other control characters besides newline, carriage return and tab) that is serialized as an element, field value, option, tuple element or variant reads back as the same string, never as another type, and never changes the structure around it. Serialized as a key it reads back as the same key or is an error, and a key of letters, digits, '_', '-' and inner spaces that doesn't start with '-' is no error.",
  ["inputs"], "all strings of up to 3-4 of 40 significant characters (4-6 of fewer), all words that look like other types in 22 contexts, long strings around the line length x 14 positions x pretty or not",
  "Tests use a dozen strings.",
  ["src/yaml/serializer.rs", "src/yaml/mod.rs", "src/yaml/string.rs"], [("str_to_yaml, needs_quoting", "src/yaml/serializer.rs"), ("can_be_unquoted_in_block", "src/yaml/mod.rs")],
  ["YamlSerializer", "from_yaml_str"],
  "All strings of the bound in all positions, through text." + TRUST),

P("C18", "Typed reading accepts exactly the texts of that type",
  "Reading a scalar as a boolean, integer, float, string, char, option or unit variant gives the value that its text denotes for that type or an error, never another value, whichever style and position it is written in: booleans and null only for the plain words of YAML (true/yes/on ..., null/~), integers for decimal digits with a sign that fit the type, floats for decimal notation, strings for every scalar. Reading without a type gives null, booleans (true, false) and numbers only for plain scalars. A collection is only read as a type with its shape: tuples with their length, structs with all fields that aren't optional (unknown keys are ignored), variants with their content.",
  ["inputs"], "all scalar texts up to a length over the characters of numbers and all type-like words x 5 styles x 6 positions x 22 requested types; all trees of up to 3-4 nodes x all types of up to 3-5 constructors",
  "Tests read a few scalars with the type they were written with.",
  ["src/yaml/deserializer.rs"], [("deserialize_* methods", "src/yaml/deserializer.rs")], ["from_yaml_str"],
  "Compared with an independent table of what each text denotes." + TRUST),

P("C19", "An alias reads as the value its anchor had before it",
  "Deserializing gives every alias the value of the last definition of its anchor that is complete before the alias, in document order, wherever definition and alias are; an alias without such a definition is an error, and reading always ends.",
  ["inputs"], "all documents up to a number of entries with every placement of up to 3 anchors and aliases with up to 2 names",
  "Two tests with one anchor.",
  ["src/yaml/deserializer.rs"], [("Linker, resolve", "src/yaml/deserializer.rs")], ["from_yaml_str"],
  "Compared with an independent alias resolver." + TRUST),

P("C20", "A number is never silently changed",
  "An integer or float that is serialized and read back as its type is the same number (bit for bit for floats other than NaN), a decimal is read as the nearest 32 bit float when that is requested, and a number that doesn't fit the requested type is an error.",
  ["inputs"], "all i8/u8/i16/u16 values, all boundaries of the wider types, floats of all exponents x mantissa patterns (thorough: all 2^32 f32 values), decimals at and next to the middle of neighbouring f32 values",
  "Tests read six numbers.",
  ["src/yaml/serializer.rs", "src/yaml/deserializer.rs"], [("serialize_*/deserialize_* of numbers", "src/yaml/serializer.rs, src/yaml/deserializer.rs")], ["YamlSerializer", "from_yaml_str"],
  "Exhaustive over the small types, patterns for the wide ones." + TRUST),

P("C21", "Mapping and visiting reach every node exactly once",
  "Mapping a function over a tree applies it to every node exactly once, in document order with children before their parent, and keeps keys, order, anchors and comments; visiting calls the function for every entry of the block collections exactly once, parents first, in document order.",
  ["inputs"], "all trees up to a size with comments and anchors",
  "One test visits one document; mapping is not tested.",
  ["src/yaml/mod.rs", "src/yaml/aliased.rs", "src/yaml/array_data.rs", "src/yaml/hash_data.rs", "src/yaml/hash_element.rs"], [("MapYaml, VisitYaml", "src/yaml/mod.rs")], ["MapYaml::map_yaml", "VisitYaml::visit_yaml"],
  "Compared with an independent traversal." + TRUST),

P("C22", "Splitting text into block lines and joining them gives the text back",
  "The lines made for a literal block string denote the original text under the chomping the library picks for it, and those made for a folded block string too, for every line length, for texts of which no line starts with a space or tab (or that have one line); no folded line is longer than asked when it could be broken at a space; joining lines follows the YAML folding and chomping rules.",
  ["inputs"], "all texts up to a length over {word, space, newline, tab} x line lengths x chomping; all line lists up to a length",
  "Four tests.",
  ["src/yaml/string.rs"], [("create_literal, create_folded, parse_literal, parse_folded", "src/yaml/string.rs")], ["yaml::string"],
  "Compared with independent implementations of the YAML rules." + TRUST),
]
