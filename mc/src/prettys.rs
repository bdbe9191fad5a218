//! C07 pretty keeps the data, C08 pretty is stable, C22 block string helpers
use std::sync::Arc;
use crate::corpus::*;
use crate::engine::*;
use crate::layouts::layouts;
use crate::model::*;
use crate::text::*;
use crate::util::*;
use yaml_subset::yaml::*;

/// What has to survive: everything but the style of scalars and collections. Comments after the
/// last entry of a collection may belong to the collections around it as well.
fn typed_events(d: &Document) -> Vec<Ev> {
    let mut out = Vec::new();
    let mut held = Vec::new();
    for ev in events(d) {
        match ev {
            Ev::Comment(_) => held.push(ev),
            Ev::Close => out.push(ev),
            ev => {
                out.append(&mut held);
                out.push(match ev {
                    Ev::Scalar(v) => Ev::Scalar(v.typed()),
                    o => o,
                })
            }
        }
    }
    out.append(&mut held);
    out
}

fn keeps(text: &str, ctx: &mut Ctx) -> Res {
    ctx.call(1);
    match parse(text) {
        Err(_) => {
            ctx.class("rejected");
            Ok(())
        }
        Ok(d) => keeps_doc(&d, text, ctx),
    }
}

pub fn keeps_doc(d: &Document, text: &str, ctx: &mut Ctx) -> Res {
    let p = d.clone().pretty();
    let out = format(&p);
    ctx.call(2);
    let d2 = must_reparse("pretty", text, &out, ctx)?;
    ctx.compared();
    ctx.class(if p == *d { "already pretty" } else { "changed by pretty" });
    ctx.state(&out);
    let (want, direct, got) = (typed_events(d), typed_events(&p), typed_events(&d2));
    for (what, g) in [("the pretty document", direct), ("the pretty document, read back", got)] {
        if g != want {
            let i = g.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return viol(
                format!("pretty changes {text}"),
                format!(
                    "input:\n{text}\npretty:\n{out}\n{what} differs at item {i}: expected {:?}, got {:?}",
                    want.get(i),
                    g.get(i)
                ),
            );
        }
    }
    // a string that loses its quotes has to be a string for every reader of YAML
    for (a, b) in typed_events(d).iter().zip(scalar_styles(&p)) {
        if let (Ev::Scalar(V::Text(_)), Some(s)) = (a, b) {
            let was_quoted = !plain_scalars(d).contains(&s);
            if was_quoted && !is_yaml_plain(&s) {
                return viol(
                    format!("pretty unquotes {text}"),
                    format!("input:\n{text}\npretty:\n{out}\n{s:?} is not a plain scalar in YAML"),
                );
            }
        }
    }
    Ok(())
}

/// the plain scalars among the events, in the order of `typed_events`
fn scalar_styles(d: &Document) -> Vec<Option<String>> {
    let mut out = Vec::new();
    let mut held = 0;
    for ev in events(d) {
        match ev {
            Ev::Comment(_) => held += 1,
            Ev::Close => out.push(None),
            ev => {
                out.extend(std::iter::repeat(None).take(std::mem::take(&mut held)));
                out.push(match ev {
                    Ev::Scalar(V::Plain(s)) => Some(s),
                    _ => None,
                });
            }
        }
    }
    out
}

fn plain_scalars(d: &Document) -> Vec<String> {
    scalar_styles(d).into_iter().flatten().collect()
}

/// YAML 1.2, section 7.3.3, in block context
fn is_yaml_plain(s: &str) -> bool {
    let white = |c: char| c == ' ' || c == '\t';
    let mut it = s.chars();
    let first_ok = match it.next() {
        None => false,
        Some('-' | '?' | ':') => it.next().is_some_and(|c| !white(c)),
        Some(c) => !",[]{}#&*!|>'\"%@`".contains(c) && !white(c),
    };
    let cs: Vec<char> = s.chars().collect();
    let inner_ok = cs.iter().enumerate().all(|(i, c)| match c {
        ':' => cs.get(i + 1).is_some_and(|n| !white(*n)),
        '#' => i > 0 && !white(cs[i - 1]),
        '\n' | '\r' => false,
        _ => true,
    });
    first_ok && inner_ok && !cs.last().is_some_and(|c| white(*c))
}

fn stable(text: &str, ctx: &mut Ctx) -> Res {
    ctx.call(1);
    match parse(text) {
        Err(_) => {
            ctx.class("rejected");
            Ok(())
        }
        Ok(d) => stable_doc(&d, text, ctx),
    }
}

pub fn stable_doc(d: &Document, text: &str, ctx: &mut Ctx) -> Res {
    let p = d.clone().pretty();
    let out = format(&p);
    let q = p.clone().pretty();
    ctx.call(3);
    ctx.compared();
    ctx.class(if p == *d { "already pretty" } else { "changed by pretty" });
    ctx.state(&out);
    if q != p {
        return viol(
            format!("pretty twice {text}"),
            format!("input:\n{text}\npretty:\n{out}\ntwice:\n{}\n{:?}\n{:?}", format(&q), p.items, q.items),
        );
    }
    let d2 = must_reparse("pretty", text, &out, ctx)?;
    let again = format(&d2.pretty());
    if again != out {
        return viol(
            format!("pretty not stable {text}"),
            format!("input:\n{text}\npretty:\n{out}\nread back and prettified again:\n{again}"),
        );
    }
    Ok(())
}

/// strings around the length at which pretty folds them, with breaks at different places
fn long_strings(thorough: bool) -> Vec<String> {
    let pieces: &[&str] = &[
        "word ", "word", " ", "  ", ", ", ": ", " #x ", "''", "é", "-", "\t", "\\n", "\\\"", "\n\n", "\n", "\\n ", "\\n\\n", "\\\\",
    ];
    let mut values = Vec::new();
    let lens = if thorough { vec![70, 80, 84, 85, 86, 87, 88, 89, 90, 91, 92, 100, 180, 200] } else { vec![80, 87, 88, 89, 90, 91, 95, 185] };
    for n in lens {
        let base = "lorem ipsum dolor ".repeat(20);
        let solid = "x".repeat(n);
        for b in [&base[..n], &solid] {
            values.push(b.to_string());
            for p in pieces {
                for q in pieces {
                    for at in [0, 1, n / 2, n - 1, n] {
                        let (l, r) = b.split_at(at.min(b.len()));
                        values.push(format!("{l}{p}{r}{q}"));
                        values.push(format!("{l}{p}{q}{r}"));
                    }
                }
            }
        }
    }
    values.sort();
    values.dedup();
    let mut out = Vec::new();
    for v in values {
        for (a, b) in [("---\nk: ", "\nm: n\n"), ("---\n- ", "\n- x\n"), ("---\n- - ", "\n  - y\n"), ("---\nk: [a, ", "]\n")] {
            if !v.contains('\\') {
                out.push(format!("{a}'{v}'{b}"));
            }
            out.push(format!("{a}\"{}\"{b}", v.replace("''", "'")));
        }
    }
    out
}

/// nested sequences whose elements decide whether they are written inline
fn nested_seqs(thorough: bool) -> Vec<String> {
    let leaves: &[&str] = &[
        "a", "a, b", "a: b", "'a, b'", "'a: b'", "[a]", "{a: b}", "{a: 'x: y'}", "&x a", "*x", "\"q\\n\"", "\"q\"", "a [b", "a {b", "a > b",
        "a | b", "a \"b", "'it''s'", "1", "'1'", "[]", "{}", "'true'", "'~'", "'a:'", "'-'", "'- a'", "'*a'", "'&a'", "x:y", "a:", "'a\n\nb'", "a # c",
        "|\n      t", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "'?'", "'? a'", "? a", "'@'", "a}", "a]", "'a b'", "!t", "'Null'", "'inf'", "'0x1'", "''",
        "&xxxxxxxxxxxxxxxxxxxx a", "&é_1 'a, b'", "*xxxxxxxxxxxxxxxxxxxx", "'!t'", "'%x'", "'`x'", "',x'", "'[x'", "'{x'", "'}x'", "'\"x'", "'''x'", "'|x'", "'>x'", "'#x'", "'x #y'", "'x: '", "' x'", "'x '",
    ];
    let mut out = Vec::new();
    for a in leaves {
        out.push(format!("---\n- - {a}\n"));
        out.push(format!("---\nk: {a}\n"));
        out.push(format!("---\nk:\n  - - - {a}\n"));
        out.push(format!("---\nk: [{a}]\n"));
        out.push(format!("---\nk: {{x: {a}}}\n"));
        for b in leaves {
            out.push(format!("---\nx: &x y\nk:\n  - - {a}\n    - {b}\n"));
            out.push(format!("---\nx: &x y\nk:\n  - - - {a}\n    - - {b}\n  - z\n"));
            out.push(format!("---\nx: &x y\nk:\n  - z: {a}\n    y: {b}\n"));
            out.push(format!("---\nk: [{a}, {b}]\nl: [[{a}], {b}]\n"));
            if thorough {
                for c in leaves {
                    out.push(format!("---\nx: &x y\nk:\n  - - {a}\n    - {b}\n    - {c}\n"));
                    out.push(format!("---\nx: &x y\nk:\n  - - {a}\n    # com\n    - - {b}\n      - {c}\n"));
                }
            }
        }
    }
    out
}

fn spaces(thorough: bool, run: fn(&str, &mut Ctx) -> Res, run_doc: fn(&G, &crate::model::Layout, &mut Ctx) -> Res) -> Vec<Space> {
    let mut s = Vec::new();
    s.push(text_space("nested sequences", nested_seqs(thorough), run));
    s.push(text_space("long strings", long_strings(thorough), run));
    s.extend(token_spaces("quoted scalar tokens", PRETTY_QUOTE_PREFIXES, PRETTY_QUOTE_TOKS, if thorough { 6 } else { 4 }, run));
    s.extend(token_spaces("document tokens", PREFIXES, TOKS, if thorough { 5 } else { 3 }, run));
    s.extend(token_spaces("document tokens after ---", &["---\n"], TOKS, if thorough { 5 } else { 4 }, run));
    s.extend(token_spaces("block scalar tokens", BLOCK_PREFIXES, BLOCK_TOKS, if thorough { 6 } else { 4 }, run));
    s.extend(token_spaces("lines after block headers", BLOCK_HEADS, BLOCK_LINES, if thorough { 5 } else { 4 }, run));
    let mut e: Vec<String> = DOCS.iter().flat_map(|d| edits(d, thorough)).collect();
    e.sort_by_key(|s| s.len());
    e.dedup();
    s.push(text_space("neighbourhoods of the seed documents", e, run));
    for n in 1..=(if thorough { 4 } else { 3 }) {
        s.push(line_space("line templates", n, run));
    }
    s.push(tree_space("trees x layouts", trees_full(if thorough { 5 } else { 4 }), layouts(if thorough { 2 } else { 1 }), run_doc));
    s.push(tree_space("all triples of scalars", trees_varied(if thorough { 5 } else { 4 }), layouts(0), run_doc));
    s.push(tree_space("equal entries, unusual keys", trees_renamed(if thorough { 7 } else { 6 }), layouts(0), run_doc));
    s.push(tree_space("quoted strings on several lines", trees_lines(if thorough { 5 } else { 4 }), layouts(0), run_doc));
    s.extend(crate::scaled::scaled(thorough, run_doc));
    s
}

/// every scalar is closed by what follows, so that most of them are documents
const PRETTY_QUOTE_PREFIXES: &[&str] = &["---\nk: '", "---\nk: \"", "---\n- - '", "---\nk: ['", "---\nk:\n  - \""];
const PRETTY_QUOTE_TOKS: &[&str] = &[
    "a", " ", "\n", "\"", "'", "\\n", "\\\\", "\\t", "\\r", "#", ":", "-", ",", "[", "'\nm: n", "\"\nm: n", "']", "*", "1", "é", "\u{a0}", "|", "~", "null", "\r\n",
];

fn c07(thorough: bool) -> Vec<Space> {
    spaces(thorough, keeps, |g, l, ctx| {
        // comments keep sequences from being written on one line
        let (t, _, _) = render(g, l, &|_| None);
        keeps(&t, ctx)?;
        let (t, _, _) = render(g, l, &|n| (n % 3 == 0).then(|| format!(" c{n}")));
        keeps(&t, ctx)
    })
}

fn c08(thorough: bool) -> Vec<Space> {
    spaces(thorough, stable, |g, l, ctx| {
        // comments keep sequences from being written on one line
        let (t, _, _) = render(g, l, &|_| None);
        stable(&t, ctx)?;
        let (t, _, _) = render(g, l, &|n| (n % 3 == 0).then(|| format!(" c{n}")));
        stable(&t, ctx)
    })
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C07",
            rule: "every accepted text is prettified, written and read back; the streams of entries, typed scalars, anchors and comments before and after are compared",
            assumptions: &["a plain scalar and a quoted one denote the same string unless the plain one reads as a number, boolean or null"],
            spaces: c07,
        },
        Property {
            id: "C08",
            rule: "every accepted text is prettified twice, directly and through text, and the results are compared",
            assumptions: &[],
            spaces: c08,
        },
        Property {
            id: "C22",
            rule: "every text is split into lines for every line length and joined again, by the library and by an independent implementation of the YAML rules; every list of lines is joined by both",
            assumptions: &["texts in which a line starts with a space or tab are folded only if they have one line"],
            spaces: c22,
        },
    ]
}

// ------------------------------------------------------------------ block string helpers

const TEXT_TOKS: &[&str] = &["a", "bcd", " ", "\n", "\t", "é"];
const LENGTHS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 40, 79, 80, 81, 89, 90, 91, 128];

fn refs(lines: &[String]) -> Vec<&str> {
    lines.iter().map(|l| l.as_str()).collect()
}

/// the chomping that goes with the lines: the final newline is kept, or there is none
fn chomping_of(s: &str) -> (BlockChomping, Chomp) {
    if s.ends_with('\n') {
        (BlockChomping::Keep, Chomp::Keep)
    } else {
        (BlockChomping::Strip, Chomp::Strip)
    }
}

/// the shortest text of the kind that the existing test of create_folded pins lines for
const PINNED: &str = "a\n a";

fn text_to_lines(s: &str, ctx: &mut Ctx) -> Res {
    let (chomp, model_chomp) = chomping_of(s);
    let lines = string::create_literal(s.to_string());
    let back = string::parse_literal(refs(&lines), chomp);
    ctx.call(2);
    ctx.compared();
    ctx.state(&lines);
    let read = block_value(false, &model_chomp, &lines);
    if back != s || read != s || lines.iter().any(|l| l.contains('\n')) {
        return viol(
            format!("literal {s:?}"),
            format!("{s:?} becomes the lines {lines:?}, which the library joins to {back:?} and YAML to {read:?}"),
        );
    }
    // the existing tests pin other lines for texts in which more indented lines follow other lines
    if s != PINNED && s.contains('\n') && s.split('\n').any(|l| l.starts_with([' ', '\t'])) {
        ctx.class("more indented lines: literal only");
        return Ok(());
    }
    ctx.class(if s.ends_with('\n') { "kept newlines" } else { "stripped" });
    for length in LENGTHS {
        let length = if s == PINNED { &90 } else { length };
        let lines = string::create_folded(s.to_string(), *length);
        let back = string::parse_folded(refs(&lines), chomp);
        ctx.call(2);
        ctx.compared();
        ctx.state(&lines);
        let read = block_value(true, &model_chomp, &lines);
        if back != s || read != s || lines.iter().any(|l| l.contains('\n')) {
            return viol(
                if s == PINNED { format!("folded {s:?}") } else { format!("folded {length} {s:?}") },
                format!("{s:?} becomes the lines {lines:?} for length {length}, which the library joins to {back:?} and YAML to {read:?}"),
            );
        }
        for l in &lines {
            if l.len() > *length && !l.contains("  ") && !l.contains('\t') && !l.ends_with(' ') && has_break(l) {
                return viol(
                    format!("too long {length} {s:?}"),
                    format!("{s:?} becomes the lines {lines:?}: {l:?} is longer than {length} and can be folded"),
                );
            }
        }
    }
    Ok(())
}

/// is there a single space between two words at which a line can be folded?
fn has_break(l: &str) -> bool {
    let cs: Vec<char> = l.chars().collect();
    cs.first() != Some(&' ') && (1..cs.len().saturating_sub(1)).any(|i| cs[i] == ' ')
}

const LINES: &[&str] = &["", "a", "b c", " d", "\te", "f ", "  "];

fn join_case(lines: &[&str], ctx: &mut Ctx) -> Res {
    let owned: Vec<String> = lines.iter().map(|l| l.to_string()).collect();
    for (chomp, model_chomp) in [
        (BlockChomping::Clip, Chomp::Clip),
        (BlockChomping::Strip, Chomp::Strip),
        (BlockChomping::Keep, Chomp::Keep),
    ] {
        for folded in [false, true] {
            let got = if folded {
                string::parse_folded(lines.to_vec(), chomp)
            } else {
                string::parse_literal(lines.to_vec(), chomp)
            };
            let want = block_value(folded, &model_chomp, &owned);
            ctx.call(1);
            ctx.compared();
            ctx.state(&got);
            if got != want {
                return viol(
                    format!("{} {chomp:?} {lines:?}", if folded { "folded" } else { "literal" }),
                    format!("the lines {lines:?} are joined to {got:?} instead of {want:?} (folded: {folded}, {chomp:?})"),
                );
            }
        }
    }
    Ok(())
}

fn line_list_space(n: u32) -> Space {
    let m = LINES.len() as u64;
    let list = move |i: u64| -> Vec<&'static str> {
        let mut d = Dec(i);
        (0..n).map(|_| *d.of(LINES)).collect()
    };
    Space::new(
        format!("lists of {n} lines x style x chomping"),
        m.pow(n),
        move |i| format!("{:?}", list(i)),
        move |i, ctx| {
            join_case(&list(i), ctx)
        },
    )
}

/// long texts: many words, many lines, many blank lines, words around the length asked for
fn long_texts(thorough: bool) -> Space {
    let counts: Vec<usize> = (2..=if thorough { 40 } else { 20 }).chain([31, 32, 33, 63, 64, 65, 79, 80, 81, 89, 90, 91, 99, 100, 101, 127, 128, 129, 255, 256, 257]).collect();
    let mut out: Vec<String> = Vec::new();
    for &n in &counts {
        for w in ["a", "ab", "é", "日本", "\u{1f600}", "word", "a-long-word-of-24-letters", "#", ":", "-", "a:", "'", "\"", "\\", "\u{a0}", "\r", "\t", "\u{2028}", "\u{2029}", "\u{85}", "\u{b}", "\u{c}", "\u{feff}", "\u{3000}"] {
            out.push(w.repeat(n));
            out.push(vec![w; n].join(" "));
            out.push(format!("{} z", w.repeat(n)));
            out.push(format!("z {}", w.repeat(n)));
            out.push(format!("{} {}", w.repeat(n), w.repeat(n)));
            out.push(vec![w; n].join("\n"));
            out.push(vec![w; n].join("\n\n"));
            out.push(format!("{} {w}", vec![w; n].join(" \n")));
            out.push(format!("{w} {w}{}{w}", " ".repeat(n)));
            out.push(format!("{w}{}{w} {w}", "\n".repeat(n)));
            out.push(format!("{}{w}\n{w} {w}", "\n".repeat(n)));
            out.push(format!("{}\n{w}\n\n{}", vec![w; n].join(" "), vec![w; n].join(" ")));
        }
        for a in [1, 2, 3, 5, 8] {
            for b in [1, 4, 7, 13] {
                out.push((0..n).map(|i| "x".repeat(if i % 2 == 0 { a } else { b })).collect::<Vec<_>>().join(" "));
                out.push((0..n).map(|i| "x".repeat((i * a) % b + 1)).collect::<Vec<_>>().join(if n % 3 == 0 { "\n" } else { " " }));
            }
        }
    }
    for n in 1..=130 {
        for m in 1..=if thorough { 130 } else { 12 } {
            out.push(format!("{} {}", "x".repeat(n), "y".repeat(m)));
            out.push(format!("{} {} z", "x".repeat(n), "é".repeat(m)));
        }
    }
    out.sort();
    out.dedup();
    let all: Vec<String> = out.iter().flat_map(|t| (0..3).map(move |n| format!("{t}{}", "\n".repeat(n)))).collect();
    let all = Arc::new(all);
    let a2 = all.clone();
    Space::new("long texts", all.len() as u64, move |i| format!("{:?}", a2[i as usize]), move |i, ctx| text_to_lines(&all[i as usize], ctx))
}

/// two runs of lines, repeated
fn many_lines(thorough: bool) -> Space {
    let counts: &[usize] = if thorough { &[4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 129] } else { &[5, 8, 10, 17, 33, 65] };
    let m = LINES.len();
    let list = move |i: u64| -> Vec<&'static str> {
        let mut d = Dec(i);
        let (n, a, b, c, x) = (*d.of(counts), d.pick(m), d.pick(m), d.pick(m), d.pick(3));
        // the third kind of line is at the start, in the middle or at the end
        (0..n).map(|i| LINES[if i == [0, n / 2, n - 1][x] { c } else { [a, b][i % 2] }]).collect()
    };
    Space::new(
        "lists of many lines x style x chomping",
        (m * m * m * 3 * counts.len()) as u64,
        move |i| format!("{:?}", list(i)),
        move |i, ctx| join_case(&list(i), ctx),
    )
}

fn c22(thorough: bool) -> Vec<Space> {
    let mut s = token_spaces("texts", &[""], TEXT_TOKS, if thorough { 9 } else { 8 }, text_to_lines);
    for n in 1..=(if thorough { 8 } else { 6 }) {
        s.push(line_list_space(n));
    }
    s.push(long_texts(true));
    s.push(many_lines(true));
    s
}
