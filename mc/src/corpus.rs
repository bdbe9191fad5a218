//! Token alphabets, line templates and seed documents shared by the checks

pub const TOKS: &[&str] = &[
    "a", ": ", ":", "\n", " ", "  ", "- ", "-", "\"", "'", "[", "]", "{", "}", ", ", "#", "&a ",
    "*a", "|", ">", "2", "\\", "é", "\t", "\r\n", "---",
];
/// the positions of a document from which token strings are grown
pub const PREFIXES: &[&str] = &[
    "---\n",
    "---\na: ",
    "---\na:\n",
    "---\n- ",
    "---\na: |\n",
    "---\na: >-2\n",
    "---\na: \"",
    "---\na: '",
    "---\n[",
    "---\n{a: ",
    "---\na:\n  - b: c\n    d:",
    "---\n- - a\n  ",
    "",
];
pub const BLOCK_TOKS: &[&str] = &["a", "\n", " ", "  ", "#", "b: c", "\t", "-", "é", "\r\n"];
pub const BLOCK_PREFIXES: &[&str] = &[
    "---\na: |\n",
    "---\na: >\n",
    "---\na: |-\n",
    "---\na: >+\n",
    "---\na: |2\n",
    "---\na: >1\n",
    "---\n- |\n",
    "---\n- - >-\n",
    "---\na:\n  b: |+\n",
    "---\n- a: >\n",
];
/// whole lines after the header of a block scalar
pub const BLOCK_LINES: &[&str] = &["\n", " \n", "#\n", "  # c\n", "  t\n", "   t\n", "  b: c\n", "b: c\n", "- x\n", "  - x\n", " t\n", "    \n"];
pub const BLOCK_HEADS: &[&str] = &[
    "---\na: |\n",
    "---\na: >-\n",
    "---\n- |\n",
    "---\n- >+ # c\n",
    "---\n- a: >\n",
    "---\n- a: |+\n",
    "---\n- a: >1\n",
    "---\n- - |\n",
    "---\n- &x >-\n",
    "---\nk:\n- a: |\n",
    "---\nk:\n  a: >2\n",
    "---\nk:\n  - |\n",
];
pub const QUOTE_TOKS: &[&str] = &[
    "a", " ", "\n", "\"", "'", "\\", "\\n", "\\\"", "''", "\\\\", "\\t", "\\\n", "#", ": ", "é", ",", "\r\n", "\r",
];
pub const QUOTE_PREFIXES: &[&str] = &[
    "---\na: \"",
    "---\na: '",
    "---\n- \"",
    "---\n[\"",
    "---\n{k: '",
];

/// documents that use every construct; their neighbourhoods are explored
pub const DOCS: &[&str] = &[
    "---\n# test\nk: &anch test\n# hi\nv: &ok\n   - &ok2 test\n# comment\n   - *test\nw: test # maybe\nl: [5, 10, \"e\"]\nm: []\n",
    "---\ndouble_quoted: \"test\n\nnow a \\n vs \\\\n\n\"\nsingle: 'it''s\n\nx'\n",
    "# lead\n---\na:\n  b:\n    c: |\n      x\n\n       y\n    d: >-\n      f\n      g\n  e: {}\n",
    "---\n- a: 1\n  b: 2\n- - x\n  - y\n-\n  c: d\n- [a, {b: c}]\n- {k: [l, m], n: \"o\"}\n",
    "---\nf: &t {}\ni: { key: \"value\", other: [a, b]}\no: # check\n  c: { key: { key: [l, {a: \"b\"}]} }\n",
    "---\na: |2\n    x\n  y\nb: >+\n  z\n\n\nc: ~\n",
    "---\r\na: b\r\nc:\r\n  - d\r\n  - e: f\r\n",
    "---\n[a, [b, c], { d: e }]\n",
    "---\n{ a: b, c: { d: [] } }\n",
    "---\n- &a b\n- *a\n- &c\n  d: e\n- &f\n  - g\n# end\n",
];

/// `n` lines, from which line enumerations are built
pub const LINES: &[&str] = &[
    "a:", "a: b", "a: # c", "a: b # c", "a: |", "a: >-", "a: [b, c]", "a: {b: c}", "a: &x", "a: &x b", "a: *x",
    "a: \"b\"", "a: []", "- a", "- a: b", "- a:", "- - a", "- - a: b", "-", "- |", "- &x", "- &x a: b", "- [a]", "- a # c",
    "# c", "", "text", "\"q\"", "[a,", "b]", "*x",
];
pub const INDENTS: &[usize] = &[0, 1, 2, 3, 4];
