//! C01 totality, C02 structure over layouts, C05 parse/format identity, C06 comments
use crate::corpus::*;
use crate::engine::*;
use crate::layouts::layouts;
use crate::model::*;
use crate::scaled::*;
use crate::util::*;
use std::sync::Arc;
use yaml_subset::yaml::*;
use yaml_subset::YamlPath;

// ------------------------------------------------------------------------------- C01

/// reading, printing, prettifying and deserializing `text` returns
fn total(text: &str, ctx: &mut Ctx) -> Res {
    ctx.call(1);
    match parse(text) {
        Err(e) => {
            ctx.class("rejected");
            check_location(text, e.loc)?;
            ctx.compared();
        }
        Ok(d) => {
            ctx.class("accepted");
            ctx.state(&format!("{:?}", abs_doc(&d)));
            let out = format(&d);
            let p = format(&d.clone().pretty());
            ctx.call(2);
            ctx.compared();
            ctx.class(if out == p { "pretty as written" } else { "pretty changes text" });
        }
    }
    let _ = from_yaml_str::<crate::serdes::Any>(text);
    ctx.call(1);
    Ok(())
}

fn check_location(text: &str, (line, col): (usize, usize)) -> Res {
    let lines: Vec<&str> = text.split('\n').collect();
    let ok = line >= 1 && line <= lines.len() && col >= 1 && col <= lines[line - 1].chars().count() + 1;
    if ok {
        Ok(())
    } else {
        viol(
            format!("location {text}"),
            format!("error location {line}:{col} is not a position of the input\n{text:?}"),
        )
    }
}

fn total_path(text: &str, ctx: &mut Ctx) -> Res {
    ctx.call(1);
    match text.parse::<YamlPath>() {
        Ok(p) => {
            ctx.class("accepted");
            ctx.state(&format!("{p:?}"));
            // using it doesn't crash either
            let mut d = path_doc().clone();
            d.find_values(&p);
            d.insert_into_hash(&p, &AliasedYaml { alias: None, value: Yaml::UnquotedString("n".into()) }, true);
            d.rename_field(&p, "renamed".into());
            d.to_object(&p, "o".into());
            d.remove_from_hash(&p);
            ctx.call(5);
        }
        Err(e) => {
            ctx.class("rejected");
            let _ = format!("{e}");
        }
    }
    ctx.compared();
    Ok(())
}

fn path_doc() -> &'static Document {
    static D: std::sync::OnceLock<Document> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        parse("---\na:\n  a: b\n  b: [a, {a: b}]\nb:\n  - a: a\n  - b: b\n    a:\n      a: 0\n").ok().expect("path doc")
    })
}

const PATH_TOKS: &[&str] = &[
    "a", "b", ".", "[", "]", "*", "0", "1", "99999999999999999999", "|", "=", "é", " ", "\n", "-",
];

/// neighbours of a document: truncations, deletions, insertions and substitutions
pub fn edits(doc: &str, thorough: bool) -> Vec<String> {
    let cs: Vec<char> = doc.chars().collect();
    let mut out = Vec::new();
    for i in 0..=cs.len() {
        let a: String = cs[..i].iter().collect();
        let b: String = cs[i..].iter().collect();
        out.push(a.clone());
        for t in TOKS {
            out.push(format!("{a}{t}{b}"));
        }
        for w in 1..=(if thorough { 12 } else { 3 }) {
            if i + w <= cs.len() {
                let c: String = cs[i + w..].iter().collect();
                out.push(format!("{a}{c}"));
                for t in TOKS {
                    out.push(format!("{a}{t}{c}"));
                }
            }
        }
        if thorough {
            for j in 0..=cs.len() {
                // a line moved or repeated somewhere else
                if (j == 0 || cs[j - 1] == '\n') && j != i {
                    let l: String = cs[j..].iter().take_while(|c| **c != '\n').collect();
                    out.push(format!("{a}{l}{b}"));
                    out.push(format!("{a}\n{l}\n{b}"));
                }
            }
        }
    }
    out
}

/// every way to nest containers with a period of at most 3 kinds, up to a depth
fn nested(thorough: bool) -> Vec<String> {
    let depths: &[usize] = if thorough {
        &[1, 2, 3, 4, 5, 8, 13, 21, 34, 55, 89, 144, 200, 300]
    } else {
        &[1, 2, 3, 5, 8, 21, 55, 100]
    };
    let mut out = Vec::new();
    for &n in depths {
        for i in 0..10usize.pow(3) {
            let kinds = [i % 10, i / 10 % 10, i / 100];
            let mut s = String::from("---\n");
            let mut indent = 0;
            let mut line_start = true;
            let mut close: Vec<&str> = Vec::new();
            for d in 0..n {
                let mut k = kinds[d % 3];
                if !close.is_empty() && k < 8 {
                    k = 8 + k % 2;
                }
                if line_start && k < 8 {
                    s.push_str(&" ".repeat(indent));
                }
                let flow_at_start = line_start;
                line_start = false;
                match k {
                    0 => {
                        s.push_str("k:\n");
                        indent += 1;
                        line_start = true;
                    }
                    1 => {
                        s.push_str("- ");
                        indent += 2;
                    }
                    2 => {
                        s.push_str("-\n");
                        indent += 1;
                        line_start = true;
                    }
                    3 => {
                        s.push_str("k: &a\n");
                        indent += 1;
                        line_start = true;
                    }
                    4 => {
                        s.push_str("k: \n");
                        indent += 1;
                        line_start = true;
                    }
                    5 => {
                        s.push_str("k: # c\n# d\n");
                        indent += 1;
                        line_start = true;
                    }
                    6 => {
                        s.push_str("- k: v\n");
                        indent += 2;
                        s.push_str(&" ".repeat(indent));
                        s.push_str("l:\n");
                        indent += 2;
                        line_start = true;
                    }
                    7 => {
                        s.push_str("- # c\n\n");
                        indent += 1;
                        line_start = true;
                    }
                    8 => {
                        if flow_at_start {
                            s.push_str(&" ".repeat(indent));
                        }
                        s.push('[');
                        close.push("]");
                    }
                    _ => {
                        if flow_at_start {
                            s.push_str(&" ".repeat(indent));
                        }
                        s.push_str("{k: ");
                        close.push("}");
                    }
                }
            }
            if line_start {
                s.push_str(&" ".repeat(indent));
            }
            s.push_str(if close.is_empty() { "k: v" } else { "v" });
            let unclosed = s.clone();
            for c in close.iter().rev() {
                s.push_str(c);
            }
            s.push('\n');
            if !close.is_empty() {
                out.push(unclosed);
            }
            // one that ends well and some that don't
            out.push(format!("{s}\"\n"));
            out.push(format!("{s}]\n"));
            out.push(format!("{s} x\n y: z\n"));
            out.push(s);
        }
    }
    out
}

fn long(thorough: bool) -> Vec<String> {
    // the same short piece repeated: parse time has to stay bounded
    let n = if thorough { 3000 } else { 400 };
    let mut out = Vec::new();
    let mut pieces: Vec<String> = Vec::new();
    for a in TOKS {
        pieces.push(a.to_string());
        for b in TOKS {
            pieces.push(format!("{a}{b}"));
            if thorough {
                for c in TOKS {
                    pieces.push(format!("{a}{b}{c}"));
                }
            }
        }
    }
    for p in PREFIXES {
        for piece in &pieces {
            // deeply nested flow input is bounded separately
            let twice = piece.repeat(2);
            let k = match () {
                _ if piece.contains(['[', '{']) || piece.contains("- ") => 60,
                // mappings on one line are nested too
                _ if twice.contains(": ") || twice.contains("- ") => 300,
                _ => n,
            };
            out.push(format!("{p}{}", piece.repeat(k)));
        }
    }
    out
}

fn c01(thorough: bool) -> Vec<Space> {
    let mut s = Vec::new();
    s.extend(token_spaces("document tokens", PREFIXES, TOKS, if thorough { 5 } else { 3 }, total));
    s.extend(token_spaces("document tokens after ---", &["---\n"], TOKS, if thorough { 5 } else { 4 }, total));
    s.extend(token_spaces("block scalar tokens", BLOCK_PREFIXES, BLOCK_TOKS, if thorough { 6 } else { 4 }, total));
    s.extend(token_spaces("lines after block headers", BLOCK_HEADS, BLOCK_LINES, if thorough { 5 } else { 4 }, total));
    s.extend(token_spaces("quoted scalar tokens", QUOTE_PREFIXES, QUOTE_TOKS, if thorough { 5 } else { 4 }, total));
    s.extend(token_spaces("path tokens", &["", "a", "b[0]", "a|b=a"], PATH_TOKS, if thorough { 6 } else { 4 }, total_path));
    let mut e: Vec<String> = DOCS.iter().flat_map(|d| edits(d, thorough)).collect();
    e.sort_by_key(|s| s.len());
    e.dedup();
    s.push(text_space("neighbourhoods of the seed documents", e, total));
    s.push(line_space("line templates", if thorough { 4 } else { 2 }, total));
    s.push(text_space("nested containers", nested(thorough), total));
    s.push(text_space("repeated pieces", long(thorough), total));
    s
}

// ------------------------------------------------------------------------------- lines

fn line_text(n: usize, i: u64) -> String {
    let mut d = Dec(i);
    let mut s = String::from("---\n");
    for k in 0..n {
        let c = *d.of(LINES);
        let ind = if k == 0 { 0 } else { *d.of(INDENTS) };
        s.push_str(&" ".repeat(ind));
        s.push_str(c);
        s.push('\n');
    }
    s
}

/// all documents of `n` lines
pub fn line_space(label: &str, n: usize, run: fn(&str, &mut Ctx) -> Res) -> Space {
    let per = (LINES.len() * INDENTS.len()) as u64;
    let size = LINES.len() as u64 * per.pow(n as u32 - 1);
    Space::new(
        format!("{label} n={n}"),
        size,
        move |i| line_text(n, i),
        move |i, ctx| run(&line_text(n, i), ctx),
    )
}

// ------------------------------------------------------------------------------- C05

fn identity(text: &str, ctx: &mut Ctx) -> Res {
    ctx.call(1);
    let Ok(d) = parse(text) else {
        ctx.class("rejected");
        return Ok(());
    };
    ctx.class("accepted");
    doc_identity(&d, text, ctx)
}

/// format is a right inverse of parse and a fixpoint
pub fn doc_identity(d: &Document, text: &str, ctx: &mut Ctx) -> Res {
    let out = format(d);
    ctx.call(1);
    let d2 = must_reparse("format", text, &out, ctx)?;
    if *d != d2 {
        return viol(
            format!("format changes {text}"),
            format!("input:\n{text}\nparsed: {d:?}\nformatted:\n{out}\nparsed again: {d2:?}"),
        );
    }
    let out2 = format(&d2);
    ctx.call(1);
    if out != out2 {
        return viol(
            format!("format unstable {text}"),
            format!("input:\n{text}\nfirst:\n{out}\nsecond:\n{out2}"),
        );
    }
    ctx.state(&out);
    ctx.compared();
    Ok(())
}

fn c05(thorough: bool) -> Vec<Space> {
    let mut s = Vec::new();
    s.extend(token_spaces("document tokens", PREFIXES, TOKS, if thorough { 5 } else { 3 }, identity));
    s.extend(token_spaces("document tokens after ---", &["---\n"], TOKS, if thorough { 5 } else { 4 }, identity));
    s.extend(token_spaces("block scalar tokens", BLOCK_PREFIXES, BLOCK_TOKS, if thorough { 6 } else { 5 }, identity));
    s.extend(token_spaces("lines after block headers", BLOCK_HEADS, BLOCK_LINES, if thorough { 5 } else { 4 }, identity));
    s.extend(token_spaces("quoted scalar tokens", QUOTE_PREFIXES, QUOTE_TOKS, if thorough { 5 } else { 4 }, identity));
    let mut e: Vec<String> = DOCS.iter().flat_map(|d| edits(d, thorough)).collect();
    e.sort_by_key(|s| s.len());
    e.dedup();
    s.push(text_space("neighbourhoods of the seed documents", e, identity));
    for n in 1..=(if thorough { 4 } else { 3 }) {
        s.push(line_space("line templates", n, identity));
    }
    let identity: fn(&G, &Layout, &mut Ctx) -> Res = |g, l, ctx| {
        let (t, _, _) = render(g, l, &no_comments);
        let d = must_parse(&t, ctx)?;
        doc_identity(&d, &t, ctx)?;
        let (t, _, _) = render(g, l, &|n| (n % 3 == 0).then(|| format!(" c{n}")));
        identity(&t, ctx)
    };
    s.push(tree_space("trees x layouts", trees_full(if thorough { 5 } else { 4 }), layouts(if thorough { 2 } else { 1 }), identity));
    s.push(tree_space("all triples of scalars", trees_varied(if thorough { 5 } else { 4 }), layouts(0), identity));
    s.push(tree_space("equal entries, unusual keys", trees_renamed(if thorough { 7 } else { 6 }), layouts(0), identity));
    s.push(tree_space("quoted strings on several lines", trees_lines(if thorough { 5 } else { 4 }), layouts(0), identity));
    s.extend(scaled(thorough, identity));
    s
}

// ------------------------------------------------------------------------------- trees

pub fn block_leaves() -> Vec<G> {
    vec![plain(), dq(), sq(), lit(), fold(), G::BMapEmpty(), G::BSeqEmpty()]
}
pub fn flow_leaves() -> Vec<G> {
    vec![plain(), dq(), sq(), G::BMapEmpty(), G::BSeqEmpty()]
}

#[allow(non_snake_case)]
impl G {
    pub fn BMapEmpty() -> G {
        G::FMap(vec![])
    }
    pub fn BSeqEmpty() -> G {
        G::FSeq(vec![])
    }
}

/// every leaf style
pub fn trees_full(n: usize) -> Vec<G> {
    roots(&shape(block_leaves(), flow_leaves(), 3), n)
}
/// one leaf style, deeper
pub fn trees_deep(n: usize) -> Vec<G> {
    roots(&shape(vec![plain()], vec![plain()], 4), n)
}
/// quoted strings on several lines
pub fn trees_lines(n: usize) -> Vec<G> {
    roots(&shape(vec![dq_lines(), sq_lines()], vec![dq_lines(), sq_lines()], 3), n)
}
fn rich_leaves(flow: bool) -> Vec<G> {
    let mut out: Vec<G> = ["a b", "1", "-1.5e3", "~", "true", "x-", "a:b", "a#b", "é", "-x", "?x", "a'b"].map(|s| G::Plain(s.into())).into();
    for (raw, text) in [("", ""), ("a", "a"), ("]", "]"), ("}, {", "}, {"), ("'", "'"), ("\\\"", "\""), (" # x", " # x"), ("k: v", "k: v"), ("\\t", "\t")] {
        out.push(G::Quoted('"', raw.into(), text.into()));
    }
    for (raw, text) in [("", ""), ("a", "a"), ("[", "["), (", ", ", "), ("''", "'"), ("\"", "\""), ("\\", "\\"), ("- ", "- ")] {
        out.push(G::Quoted('\'', raw.into(), text.into()));
    }
    out.push(G::Alias("x".into()));
    out.push(G::Alias("é_1".into()));
    out.push(G::BMapEmpty());
    out.push(G::BSeqEmpty());
    if !flow {
        out.extend(["a, b", "a]", "a\"b", "a>b"].map(|s| G::Plain(s.into())));
        for folded in [false, true] {
            for c in [Chomp::Clip, Chomp::Strip] {
                out.push(G::Block(folded, c.clone(), false, vec!["a".into()]));
            }
        }
    }
    out
}
/// flow collections of every pair and triple of scalars
pub fn trees_flow(n: usize) -> Vec<G> {
    let mut s = shape(vec![], rich_leaves(true), 3);
    s.flow = true;
    let (_, flow) = crate::model::nodes_upto(&s, n);
    let mut out = Vec::new();
    for g in flow.into_iter().flatten().filter(|g| matches!(g, G::FMap(_) | G::FSeq(_))) {
        out.push(g.clone());
        out.push(G::BMap(vec![(String::new(), ge(g.clone())), (String::new(), ge(plain()))]));
        out.push(G::BSeq(vec![ge(g)]));
    }
    out.iter_mut().for_each(|g| crate::model::label(g, &mut 0));
    out
}
/// block collections of every pair and triple of scalars
pub fn trees_leaves(n: usize) -> Vec<G> {
    let mut s = shape(rich_leaves(false), vec![], 3);
    s.flow = false;
    roots(&s, n)
}
/// all entries and values look the same / keys have unusual names
pub fn renamed(mut trees: Vec<G>, keys: &'static [&'static str], value: Option<&str>) -> Vec<G> {
    fn go(g: &mut G, n: &mut usize, keys: &[&str], value: Option<&str>) {
        let mut key = |k: &mut String| {
            *k = keys[*n % keys.len()].to_string();
            *n += 1;
        };
        match g {
            G::BMap(m) => {
                m.iter_mut().for_each(|(k, _)| key(k));
                m.iter_mut().for_each(|(_, e)| go(&mut e.g, n, keys, value));
            }
            G::FMap(m) => {
                m.iter_mut().for_each(|(k, _)| key(k));
                m.iter_mut().for_each(|(_, g)| go(g, n, keys, value));
            }
            G::BSeq(m) => m.iter_mut().for_each(|e| go(&mut e.g, n, keys, value)),
            G::FSeq(m) => m.iter_mut().for_each(|g| go(g, n, keys, value)),
            G::Plain(s) => {
                if let Some(v) = value {
                    *s = v.to_string();
                }
            }
            _ => (),
        }
    }
    trees.iter_mut().for_each(|g| go(g, &mut 0, keys, value));
    trees
}
pub const KEYS: &[&str] = &["a b", "é", "1", "_x-", "A  -b", "ß2", "null", "_"];
/// trees in which the details of scalars and keys vary
pub fn trees_varied(n: usize) -> Vec<G> {
    let mut out = trees_flow(n);
    out.extend(trees_leaves(n));
    out
}
pub fn trees_renamed(n: usize) -> Vec<G> {
    let mut out = renamed(trees_deep(n), &["k"], Some("k"));
    out.extend(renamed(trees_deep(n), KEYS, None));
    out
}
pub fn trees_block(n: usize) -> Vec<G> {
    let mut s = shape(vec![plain(), lit()], vec![], 4);
    s.flow = false;
    roots(&s, n)
}

pub fn tree_space(
    label: &str,
    trees: Vec<G>,
    ls: Vec<Layout>,
    run: fn(&G, &Layout, &mut Ctx) -> Res,
) -> Space {
    let trees = Arc::new(trees);
    let ls = Arc::new(ls);
    let (t2, l2) = (trees.clone(), ls.clone());
    let nl = ls.len() as u64;
    Space::new(
        label,
        trees.len() as u64 * nl,
        move |i| render(&t2[(i / nl) as usize], &l2[(i % nl) as usize], &no_comments).0,
        move |i, ctx| run(&trees[(i / nl) as usize], &ls[(i % nl) as usize], ctx),
    )
}

// ------------------------------------------------------------------------------- C02

fn structure(g: &G, l: &Layout, ctx: &mut Ctx) -> Res {
    let (t, evs, _) = render(g, l, &no_comments);
    structure_of(&t, &evs, &e_value(g), ctx)
}

fn e_value(g: &G) -> V {
    g.value()
}

fn structure_of(t: &str, evs: &[Ev], want: &V, ctx: &mut Ctx) -> Res {
    let d = must_parse(t, ctx)?;
    let got = abs_doc(&d);
    if got != *want {
        return viol(
            format!("structure {t}"),
            format!("document:\n{t}\nmeans   {want:?}\nread as {got:?}"),
        );
    }
    let ev = events(&d);
    if ev != evs {
        return viol(
            format!("order {t}"),
            format!("document:\n{t}\nhas   {evs:?}\nread as {ev:?}"),
        );
    }
    ctx.state(&format!("{got:?}"));
    ctx.compared();
    Ok(())
}

/// trees with anchors on every subset of entries (at most `max` anchored)
fn anchored(trees: Vec<G>, max: usize) -> Vec<G> {
    let mut out = Vec::new();
    for g in trees {
        let n = entry_count(&g);
        for m in 1u32..(1 << n) {
            if m.count_ones() as usize > max {
                continue;
            }
            out.push(with_anchors(&g, &|i| (m >> i & 1 == 1).then(|| format!("x{i}"))));
        }
    }
    out
}

fn c02(thorough: bool) -> Vec<Space> {
    let l1 = layouts(1);
    let l2 = layouts(2);
    let l3 = layouts(3);
    let mut s = vec![
        tree_space("all leaf styles x layouts (1 deviation)", trees_full(if thorough { 5 } else { 4 }), l1.clone(), structure),
        tree_space("all leaf styles, small x layouts (3 deviations)", trees_full(3), if thorough { l3 } else { l2.clone() }, structure),
        tree_space("deep trees x layouts (1)", trees_deep(if thorough { 8 } else { 7 }), l1.clone(), structure),
        tree_space("deep trees x layouts (2)", trees_deep(if thorough { 6 } else { 5 }), l2.clone(), structure),
        tree_space("block trees x layouts (2)", trees_block(if thorough { 7 } else { 6 }), l2, structure),
        tree_space("all pairs of scalars x layouts (1)", trees_varied(3), l1.clone(), structure),
        tree_space("all triples of scalars", trees_varied(if thorough { 5 } else { 4 }), layouts(0), structure),
        tree_space("equal entries, unusual keys x layouts (1)", trees_renamed(if thorough { 7 } else { 6 }), l1.clone(), structure),
        tree_space("quoted strings on several lines x layouts (2)", trees_lines(if thorough { 5 } else { 4 }), layouts(2), structure),
        tree_space("anchored trees x layouts (1)", anchored(trees_full(if thorough { 4 } else { 3 }), 3), l1.clone(), structure),
        tree_space("anchored block trees x layouts (1)", anchored(trees_block(if thorough { 6 } else { 5 }), 2), l1, structure),
    ];
    s.extend(scaled(thorough, structure));
    s
}

// ------------------------------------------------------------------------------- C06

/// comments in the slots of `mask` stay where they are
fn comment_case(g: &G, l: &Layout, name: &dyn Fn(usize) -> Option<String>, ctx: &mut Ctx) -> Res {
    let (t, evs, _) = render(g, l, name);
    let d = must_parse(&t, ctx)?;
    let want = comment_positions(&evs);
    let got = comment_positions(&events(&d));
    if want != got {
        return viol(
            format!("comments parse {t}"),
            format!("document:\n{t}\nhas     {want:?}\nread as {got:?}"),
        );
    }
    let out = format(&d);
    ctx.call(1);
    let d2 = must_reparse("format comments", &t, &out, ctx)?;
    let got = comment_positions(&events(&d2));
    if want != got {
        return viol(
            format!("comments format {t}"),
            format!("document:\n{t}\nformatted:\n{out}\nhas {want:?}\nnow {got:?}"),
        );
    }
    ctx.state(&out);
    ctx.compared();
    Ok(())
}

/// (tree, layout, set of used comment slots); sets are all subsets of at most `max` slots or, for
/// small documents, all subsets
pub fn comment_space(
    label: &str,
    trees: Vec<G>,
    ls: Vec<Layout>,
    max: usize,
    text: fn(usize) -> String,
    run: fn(&G, &Layout, &dyn Fn(usize) -> Option<String>, &mut Ctx) -> Res,
) -> Space {
    let mut cases: Vec<(u32, u32, u32)> = Vec::new();
    for (ti, g) in trees.iter().enumerate() {
        let (_, _, slots) = render(g, &ls[0], &no_comments);
        let slots = slots.min(20);
        for mask in 0u32..(1 << slots) {
            if mask.count_ones() as usize <= max || mask == (1 << slots) - 1 {
                for li in 0..ls.len() {
                    cases.push((ti as u32, li as u32, mask));
                }
            }
        }
    }
    let data = Arc::new((trees, ls, cases));
    let d2 = data.clone();
    Space::new(
        label,
        data.2.len() as u64,
        move |i| {
            let (t, l, m) = d2.2[i as usize];
            render(&d2.0[t as usize], &d2.1[l as usize], &|n| {
                (m >> n & 1 == 1).then(|| text(n))
            })
            .0
        },
        move |i, ctx| {
            let (t, l, m) = data.2[i as usize];
            run(&data.0[t as usize], &data.1[l as usize], &|n| (m >> n & 1 == 1).then(|| text(n)), ctx)
        },
    )
}

fn comment_identity(text: &str, ctx: &mut Ctx) -> Res {
    // every comment line of an accepted text is still there, in order, after a round trip
    ctx.call(1);
    let Ok(d) = parse(text) else {
        ctx.class("rejected");
        return Ok(());
    };
    ctx.class("accepted");
    let before = comment_positions(&events(&d));
    let out = format(&d);
    let d2 = must_reparse("format", text, &out, ctx)?;
    let after = comment_positions(&events(&d2));
    if before != after {
        return viol(
            format!("comments {text}"),
            format!("document:\n{text}\nhas {before:?}\nformatted:\n{out}\nhas {after:?}"),
        );
    }
    ctx.compared();
    Ok(())
}

fn one(n: usize) -> String {
    format!(" c{n}: 'x")
}
/// comments on several lines, with blank lines between and around them
fn several(n: usize) -> String {
    format!(" c{n}\n- c{n}b\n\nc{n}: d")
}
fn spaced(n: usize) -> String {
    format!("\n\n c{n} \n")
}
fn empty(_: usize) -> String {
    String::new()
}
/// the same comment everywhere
fn same(_: usize) -> String {
    " c".into()
}
fn same_twice(_: usize) -> String {
    " c\n c\n\n c\n c".into()
}

/// every text of a comment, in every position of small documents
fn comment_text_space(len: usize) -> Space {
    const CHARS: &[char] = &[' ', '\t', '#', 'a', ':', '-', '"', '\'', '\\', '&', '|', '[', '}', ',', 'é', '\u{a0}'];
    let mut texts: Vec<String> = vec![String::new()];
    let mut cur = texts.clone();
    for _ in 0..len {
        cur = cur.iter().flat_map(|t| CHARS.iter().map(move |c| format!("{t}{c}"))).collect();
        texts.extend(cur.iter().cloned());
    }
    let mut places: Vec<(G, usize)> = Vec::new();
    for g in trees_full(2).into_iter().chain(trees_block(3)) {
        let (_, _, slots) = render(&g, &L0, &no_comments);
        places.extend((0..slots).map(|n| (g.clone(), n)));
    }
    let data = Arc::new((places, texts));
    let d2 = data.clone();
    let n = data.1.len() as u64;
    fn at(slot: usize, text: &str) -> impl Fn(usize) -> Option<String> + '_ {
        move |i| (i == slot).then(|| text.to_string())
    }
    Space::new(
        format!("every comment text of <= {len} characters x positions"),
        data.0.len() as u64 * n,
        move |i| {
            let (g, slot) = &d2.0[(i / n) as usize];
            render(g, &L0, &at(*slot, &d2.1[(i % n) as usize])).0
        },
        move |i, ctx| {
            let (g, slot) = &data.0[(i / n) as usize];
            comment_case(g, &L0, &at(*slot, &data.1[(i % n) as usize]), ctx)
        },
    )
}

/// many comments in one place
fn comment_run_space(thorough: bool) -> Space {
    let mut places: Vec<(G, usize)> = Vec::new();
    for g in trees_block(if thorough { 5 } else { 4 }).into_iter().chain(trees_full(3)) {
        let (_, _, slots) = render(&g, &L0, &no_comments);
        places.extend((0..slots).map(|n| (g.clone(), n)));
    }
    let mut texts = Vec::new();
    for n in (2..=12).chain([16, 17, 20, 32, 33, 64, 65, 100, 128, 129, 257]) {
        if n > 20 && !thorough && n != 33 && n != 129 {
            continue;
        }
        let line = |i: usize| format!(" c{i}");
        let lines = |sep: &str| (0..n).map(line).collect::<Vec<_>>().join(sep);
        texts.push(lines("\n"));
        texts.push(lines("\n\n"));
        texts.push(format!("{}\n\n z", lines("\n")));
        texts.push(format!(" a{}{}", "\n".repeat(n), lines("\n")));
        for word in [" c", ""] {
            texts.push(vec![word; n].join("\n"));
            texts.push(vec![word; n].join("\n\n"));
            texts.push(format!("{}\n z\n{}", vec![word; n].join("\n"), vec![word; n].join("\n")));
        }
        texts.push(" c".repeat(n));
        texts.push("é#".repeat(n));
        texts.push("#".repeat(n));
        texts.push(" ".repeat(n));
        texts.push(format!("{}x", " ".repeat(n)));
        texts.push(format!("x{}", " ".repeat(n)));
        texts.push("\n".repeat(n));
    }
    let data = Arc::new((places, texts));
    let d2 = data.clone();
    let n = data.1.len() as u64;
    fn at(slot: usize, text: &str) -> impl Fn(usize) -> Option<String> + '_ {
        move |i| (i == slot).then(|| text.to_string())
    }
    Space::new(
        "many or long comments in every place",
        data.0.len() as u64 * n,
        move |i| {
            let (g, slot) = &d2.0[(i / n) as usize];
            render(g, &L0, &at(*slot, &d2.1[(i % n) as usize])).0
        },
        move |i, ctx| {
            let (g, slot) = &data.0[(i / n) as usize];
            comment_case(g, &L0, &at(*slot, &data.1[(i % n) as usize]), ctx)
        },
    )
}

fn commented(g: &G, l: &Layout, ctx: &mut Ctx) -> Res {
    comment_case(g, l, &|n| Some(one(n)), ctx)?;
    comment_case(g, l, &|n| (n % 2 == 0).then(|| several(n)), ctx)
}

fn c06(thorough: bool) -> Vec<Space> {
    let l1 = layouts(1);
    let base = vec![L0];
    let mut s = vec![
        comment_space("all subsets of comment positions, base layout", trees_block(4), base.clone(), 20, one, comment_case),
        comment_space("<=2 comments x all leaf styles", trees_full(if thorough { 4 } else { 3 }), base.clone(), 2, one, comment_case),
        comment_space("<=2 comments x layouts (1)", trees_block(if thorough { 5 } else { 4 }), l1.clone(), 2, one, comment_case),
        comment_space("1 comment x deep trees x layouts (1)", trees_deep(if thorough { 6 } else { 5 }), l1.clone(), 1, one, comment_case),
        comment_space("<=2 comments x anchored trees", anchored(trees_block(4), 2), l1.clone(), 2, one, comment_case),
        comment_space("<=2 groups of comments", trees_block(5), base.clone(), 2, several, comment_case),
        comment_space("1 group of comments x layouts (1)", trees_block(if thorough { 5 } else { 4 }), l1.clone(), 1, several, comment_case),
        comment_space("<=2 comments between blank lines", trees_block(5), base.clone(), 2, spaced, comment_case),
        comment_space("1 comment between blank lines x layouts (1)", trees_full(if thorough { 4 } else { 3 }), l1.clone(), 1, spaced, comment_case),
        comment_space("<=2 empty comments", trees_block(5), base.clone(), 2, empty, comment_case),
        comment_space("the same comment in all subsets of positions", trees_block(4), base.clone(), 20, same, comment_case),
        comment_space("the same comments in <=3 positions", trees_block(4), base, 3, same_twice, comment_case),
        comment_text_space(if thorough { 4 } else { 3 }),
    ];
    s.push(line_space("line templates", 3, comment_identity));
    s.push(comment_run_space(thorough));
    s.extend(scaled(thorough, commented));
    s
}

pub fn props() -> Vec<Property> {
    vec![
        Property { id: "C01", rule: "every text is fed to the parser, formatter, prettifier and deserializer (or the path parser and the path operations); an execution is non-trivial when the text is accepted; it must return, and an error must point at a position of the text", assumptions: &[], spaces: c01 },
        Property { id: "C02", rule: "every abstract document is rendered in every layout of the bound; the parse must denote the abstract document", assumptions: &[], spaces: c02 },
        Property { id: "C05", rule: "every accepted text: parse(format(parse(t))) equals parse(t) exactly and format is a fixpoint", assumptions: &[], spaces: c05 },
        Property { id: "C06", rule: "every subset of comment positions of a document: comments keep text, order and position relative to the data through parse and format", assumptions: &[], spaces: c06 },
    ]
}
