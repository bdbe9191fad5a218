//! C03 scalar texts, C04 nesting by indentation, C22 text helpers
use crate::engine::*;
use crate::model::*;
use crate::reads::{reads_untyped, untyped};
use crate::tys::Any;
use crate::util::*;
use std::sync::Arc;

// ------------------------------------------------------------------------------- C03

/// (text before the header with columns, column of the owner, text after the scalar)
const BLOCK_POS: &[(&str, usize, &str)] = &[
    ("---\na: ", 0, ""),
    ("---\na: ", 0, "z: w\n"),
    ("---\n- ", 0, "- w\n"),
    ("---\na:\n  b: ", 2, "  c: w\n"),
    ("---\na:\n  b: ", 2, "z: w\n"),
    ("---\n- - ", 2, "- w\n"),
    ("---\n- - ", 2, "  - w\n"),
    ("---\n- a: ", 2, ""),
    ("---\n- a: ", 2, "- w\n"),
    ("---\n- a: ", 2, "  b: w\n"),
    ("---\n- k: v\n  a: ", 2, "  b: w\n"),
    ("---\na:\n- b: ", 2, "c: w\n"),
    ("---\na: &x ", 0, "z: w\n"),
    ("---\n- &x ", 0, "- w\n"),
    ("---\na: ", 0, "# end\n"),
];
const BLOCK_LINES: &[&str] = &["", "x y", " s", "   t", "# c", "- a", "k: v", "\tt", "é|> ", "  "];

#[derive(Clone, Copy)]
struct BlockCase {
    pos: usize,
    fold: bool,
    chomp: usize,
    /// 0: detected, 1..: written indentation indicator, or detected with that many columns
    indicator: bool,
    cols: usize,
    /// write empty lines with the indentation
    padded: bool,
    /// no line break after the last line
    cut: bool,
}

fn block_case(n: usize, i: u64) -> (BlockCase, Vec<String>) {
    let mut d = Dec(i);
    let c = BlockCase {
        pos: d.pick(BLOCK_POS.len()),
        fold: d.pick(2) == 1,
        chomp: d.pick(3),
        indicator: d.pick(2) == 1,
        cols: *d.of(&[2, 1, 3]),
        padded: d.pick(2) == 1,
        cut: d.pick(2) == 1,
    };
    let lines = (0..n).map(|_| d.of(BLOCK_LINES).to_string()).collect();
    (c, lines)
}

fn block_size(n: usize) -> u64 {
    (BLOCK_POS.len() * 2 * 3 * 2 * 3 * 2 * 2) as u64 * (BLOCK_LINES.len() as u64).pow(n as u32)
}

/// the text, or None when the case isn't a document of the supported subset
fn block_text(c: &BlockCase, lines: &[String]) -> Option<String> {
    let (before, col, after) = BLOCK_POS[c.pos];
    let blank = |l: &String| l.trim_matches(' ').is_empty();
    // a block scalar without content isn't supported
    let first = lines.iter().position(|l| !blank(l))?;
    if !c.indicator {
        // the first line decides the indentation: it can't be indented itself, and the empty lines
        // before it can't be longer than it
        if lines[first].starts_with(' ') || lines[..first].iter().any(|l| !l.is_empty()) {
            return None;
        }
    }
    if c.indicator && before.starts_with("---\n- ") && after.starts_with("  ") {
        // an indicator on the line of a dash followed by a sibling is outside of the subset
        return None;
    }
    if c.cut && !after.is_empty() {
        return None;
    }
    if c.cut && c.padded && lines.last().is_some_and(blank) {
        // spaces at the end of the document that aren't a line
        return None;
    }
    let mut s = String::from(before);
    s.push(if c.fold { '>' } else { '|' });
    s.push_str(["", "-", "+"][c.chomp]);
    if c.indicator {
        s.push_str(&c.cols.to_string());
    }
    s.push('\n');
    for l in lines {
        if !l.is_empty() || c.padded {
            s.push_str(&" ".repeat(col + c.cols));
        }
        s.push_str(l);
        s.push('\n');
    }
    if c.cut {
        s.pop();
    }
    s.push_str(after);
    Some(s)
}

fn find_text(v: &V) -> Option<&V> {
    // the first scalar that isn't one of the fillers
    match v {
        V::Map(m) => m.iter().find_map(|(_, e)| find_text(&e.v)),
        V::Seq(s) => s.iter().find_map(|e| find_text(&e.v)),
        V::Text(_) => Some(v),
        _ => None,
    }
}

fn count_scalars(v: &V) -> usize {
    match v {
        V::Map(m) => m.iter().map(|(_, e)| count_scalars(&e.v)).sum(),
        V::Seq(s) => s.iter().map(|e| count_scalars(&e.v)).sum(),
        _ => 1,
    }
}

fn block(n: usize, i: u64, ctx: &mut Ctx) -> Res {
    let (c, lines) = block_case(n, i);
    block_check(&c, &lines, ctx)
}

fn block_check(c: &BlockCase, lines: &[String], ctx: &mut Ctx) -> Res {
    let Some(t) = block_text(c, lines) else {
        ctx.class("outside of the subset");
        return Ok(());
    };
    ctx.class("compared");
    let chomp = [Chomp::Clip, Chomp::Strip, Chomp::Keep][c.chomp].clone();
    let mut effective = lines.to_vec();
    if c.cut {
        // an empty last line without line break isn't a line
        if effective.last().is_some_and(|l| l.is_empty()) {
            effective.pop();
        }
    }
    let mut want = block_value(c.fold, &chomp, &effective);
    let d = must_parse(&t, ctx)?;
    let v = abs_doc(&d);
    let got = match find_text(&v) {
        Some(V::Text(s)) => s.clone(),
        _ => return viol(format!("block {t}"), format!("no block scalar in\n{t}\n{v:?}")),
    };
    if c.cut && got != want && !lines.last().unwrap().is_empty() {
        // the last line has no line break: YAML gives no newline, this library one
        if want.ends_with('\n') && got == want[..want.len() - 1] {
            want.pop();
        }
    }
    let rest = BLOCK_POS[c.pos].2.contains('w') as usize + BLOCK_POS[c.pos].0.contains("k: v") as usize;
    if got != want || count_scalars(&v) != 1 + rest {
        return viol(
            format!("block {t}"),
            format!("document:\n{t}\nwant {want:?}\ngot  {got:?}\nin {v:?}"),
        );
    }
    deserialized(&t, &d, &v, ctx)?;
    ctx.state(&got);
    ctx.compared();
    Ok(())
}

/// the deserializer reads the same texts, and so does `as_string`
fn deserialized(text: &str, d: &yaml_subset::yaml::Document, v: &V, ctx: &mut Ctx) -> Res {
    let mut all = Vec::new();
    scalars(root(d), &mut all);
    for s in all {
        ctx.call(1);
        let want = scalar_text(s);
        let got = yaml_subset::yaml::YamlTypes::as_string(s);
        if got.as_deref() != Some(&want) {
            return viol(
                format!("as_string {text}"),
                format!("document:\n{text}\n{s:?}.as_string()\nwant {want:?}\ngot  {got:?}"),
            );
        }
    }
    let want = untyped(v, &mut Default::default());
    reads_untyped(text, &want, yaml_subset::yaml::from_yaml_str::<Any>(text).map_err(|e| e.0), ctx)
}

fn block_space(n: usize) -> Space {
    Space::new(
        format!("block scalars of {n} lines"),
        block_size(n),
        move |i| {
            let (c, l) = block_case(n, i);
            block_text(&c, &l).unwrap_or_else(|| format!("outside of the subset {l:?}"))
        },
        move |i, ctx| block(n, i, ctx),
    )
}

/// what the characters between quotes denote; None: not a closed string
fn quoted_value(q: char, s: &str) -> Option<String> {
    // every kind of line break is one
    let cs: Vec<char> = s.replace("\r\n", "\n").replace('\r', "\n").chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '\n' {
            let n = cs[i..].iter().take_while(|c| **c == '\n').count();
            out.push_str(&"\n".repeat(n - 1));
            i += n;
        } else if q == '\'' && c == '\'' {
            if cs.get(i + 1) != Some(&'\'') {
                return None;
            }
            out.push('\'');
            i += 2;
        } else if q == '"' && c == '"' {
            return None;
        } else if q == '"' && c == '\\' {
            out.push(match cs.get(i + 1)? {
                'n' => '\n',
                't' => '\t',
                'r' => '\r',
                '\\' => '\\',
                '"' => '"',
                '\n' => '\n',
                _ => return None,
            });
            i += 2;
        } else {
            out.push(c);
            i += 1;
        }
    }
    Some(out)
}

const Q_TOKS: &[&str] = &[
    "a", " ", "\n", "'", "\"", "\\", "n", "t", "r", "#", ":", "é", "\t", "[", ",", "-", "\r\n", "\r",
];
const Q_POS: &[(&str, &str)] = &[
    ("---\nk: ", "\n"),
    ("---\nk: ", " # c\nl: m\n"),
    ("---\n- ", "\n- m\n"),
    ("---\n[", "]\n"),
    ("---\n{k: ", ", l: m}\n"),
    ("---\nk: &x ", "\n"),
    ("---\n- - ", ""),
    ("---\nk:\n  ", "\nl: m\n"),
];

fn quoted_text(n: usize, i: u64) -> (char, String, &'static str, &'static str) {
    let mut d = Dec(i);
    let q = *d.of(&['"', '\'']);
    let (a, b) = *d.of(Q_POS);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(d.of(Q_TOKS));
    }
    (q, s, a, b)
}

fn quoted_space(n: usize) -> Space {
    Space::new(
        format!("quoted scalars of {n} characters"),
        (2 * Q_POS.len()) as u64 * (Q_TOKS.len() as u64).pow(n as u32),
        move |i| {
            let (q, s, a, b) = quoted_text(n, i);
            format!("{a}{q}{s}{q}{b}")
        },
        move |i, ctx| {
            let (q, s, a, b) = quoted_text(n, i);
            quoted_check(q, &s, a, b, ctx)
        },
    )
}

fn quoted_check(q: char, s: &str, a: &str, b: &str, ctx: &mut Ctx) -> Res {
            let t = format!("{a}{q}{s}{q}{b}");
            let Some(want) = quoted_value(q, s) else {
                ctx.class("not a closed string");
                // it may be two things, but never this one scalar with this content
                return Ok(());
            };
            ctx.class("compared");
            let d = must_parse(&t, ctx)?;
            let v = abs_doc(&d);
            match find_text(&v) {
                Some(V::Text(got)) if *got == want && count_scalars(&v) == 1 + b.contains('m') as usize => {
                    deserialized(&t, &d, &v, ctx)?;
                    ctx.state(&want);
                    ctx.compared();
                    Ok(())
                }
                got => viol(
                    format!("quoted {t}"),
                    format!("document:\n{t}\nwant {want:?}\ngot  {got:?}\nin {v:?}"),
                ),
            }
}

const P_TOKS: &[&str] = &[
    "a", " ", ":", "#", "-", "?", ",", "'", "\"", "[", "]", "{", "}", "&", "*", "!", "|", ">", "%", "@", "\\", "é", "=", "~", "1", ".", "\t", "\u{a0}",
];

/// The subset only knows the space as white space, the tab is an ordinary character and other
/// spaces too unless they start the scalar or come before '#'. Where YAML and the subset differ
/// about that nothing is compared.
fn unclear_space(s: &str) -> bool {
    let cs: Vec<char> = s.chars().collect();
    let white = |c: char| c == '\t' || c == '\u{a0}';
    (0..cs.len()).any(|i| {
        white(cs[i])
            && (cs[..i].iter().all(|c| *c == ' ' || white(*c))
                || matches!(cs[i - 1], ':' | '-' | '?')
                || cs[i..].iter().find(|c| **c != ' ' && !white(**c)) == Some(&'#'))
    })
}

/// what YAML reads in the rest of a line: Some((text, comment)) for a plain scalar
fn plain_line(s: &str, flow: bool) -> Option<(String, Option<String>)> {
    let s = s.trim_start_matches(' ');
    if unclear_space(s) {
        return None;
    }
    let cs: Vec<char> = s.chars().collect();
    let first = *cs.first()?;
    if ",[]{}#&*!|>'\"%@`".contains(first) {
        return None;
    }
    let flow_ind = |c: char| flow && ",[]{}".contains(c);
    if "-?:".contains(first) {
        match cs.get(1) {
            None | Some(' ') => return None,
            Some(c) if flow_ind(*c) => return None,
            _ => (),
        }
    }
    let mut end = cs.len();
    let mut comment = None;
    for i in 1..cs.len() {
        if cs[i] == ':' && (i + 1 == cs.len() || cs[i + 1] == ' ' || flow_ind(cs[i + 1])) {
            return None;
        }
        if flow_ind(cs[i]) {
            return None;
        }
        if cs[i] == '#' && cs[i - 1] == ' ' {
            if flow {
                return None;
            }
            end = i;
            comment = Some(cs[i + 1..].iter().collect());
            break;
        }
    }
    let text: String = cs[..end].iter().collect();
    Some((text.trim_end_matches(' ').to_string(), comment))
}

const P_POS: &[(&str, &str, bool)] = &[
    ("---\nk: ", "\nl: m\n", false),
    ("---\n- ", "\n- m\n", false),
    ("---\nk:\n  - ", "\nl: m\n", false),
    ("---\n- k: ", "\n  l: m\n", false),
    ("---\n- - ", "\n  - m\n", false),
    ("---\nk: &x ", "\nl: m\n", false),
    ("---\nk: [", ", m]\n", true),
    ("---\nk: {l: ", ", n: m}\n", true),
    ("---\n[m, ", "]\n", true),
    ("---\nk:\n  ", "\nl: m\n", false),
];

fn plain_text(n: usize, i: u64) -> (String, &'static str, &'static str, bool) {
    let mut d = Dec(i);
    let (a, b, flow) = *d.of(P_POS);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(d.of(P_TOKS));
    }
    (s, a, b, flow)
}

fn plains(v: &V, out: &mut Vec<String>) {
    match v {
        V::Map(m) => m.iter().for_each(|x| plains(&x.1.v, out)),
        V::Seq(m) => m.iter().for_each(|x| plains(&x.v, out)),
        V::Plain(s) => out.push(s.clone()),
        o => out.push(format!("{o:?}")),
    }
}

fn plain_space(n: usize) -> Space {
    Space::new(
        format!("plain scalars of {n} characters"),
        P_POS.len() as u64 * (P_TOKS.len() as u64).pow(n as u32),
        move |i| {
            let (s, a, b, _) = plain_text(n, i);
            format!("{a}{s}{b}")
        },
        move |i, ctx| {
            let (s, a, b, flow) = plain_text(n, i);
            plain_check(&s, a, b, flow, ctx)
        },
    )
}

fn plain_check(s: &str, a: &str, b: &str, flow: bool, ctx: &mut Ctx) -> Res {
            let t = format!("{a}{s}{b}");
            let Some((want, comment)) = plain_line(s, flow) else {
                ctx.class("not a plain scalar");
                return Ok(());
            };
            // documented limits of the subset
            if flow && want.contains(['"', '>', '|']) || a.contains("&x") && want.starts_with("&") {
                ctx.class("outside of the subset");
                return Ok(());
            }
            ctx.class("compared");
            let d = must_parse(&t, ctx)?;
            let v = abs_doc(&d);
            let mut got = Vec::new();
            plains(&v, &mut got);
            let comments: Vec<String> = events(&d)
                .into_iter()
                .filter_map(|e| match e {
                    Ev::Comment(c) => Some(c),
                    _ => None,
                })
                .collect();
            let mut expect = vec![want.clone(), "m".to_string()];
            if a.contains('m') {
                expect.reverse();
            }
            if got != expect || comments != comment.clone().into_iter().collect::<Vec<_>>() {
                return viol(
                    format!("plain {t}"),
                    format!("document:\n{t}\nwant {expect:?} and comment {comment:?}\ngot  {got:?} and {comments:?}\nin {v:?}"),
                );
            }
            deserialized(&t, &d, &v, ctx)?;
            ctx.state(&want);
            ctx.compared();
            Ok(())
}

/// how often the pieces of long scalars are repeated
fn repeats(thorough: bool) -> Vec<usize> {
    if thorough {
        (3..=18).chain([20, 31, 32, 33, 40, 50, 63, 64, 65, 79, 80, 81, 88, 89, 90, 91, 100, 127, 128, 129, 255, 256, 257, 300]).collect()
    } else {
        vec![3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33, 65, 129]
    }
}

/// one or two pieces repeated, with another piece or none before and after them
fn pieces(thorough: bool, toks: &'static [&'static str], ends: &'static [&'static str]) -> Vec<(&'static str, Vec<&'static str>, &'static str)> {
    let mut out = Vec::new();
    let singles: Vec<Vec<&str>> = toks.iter().map(|t| vec![*t]).collect();
    let doubles = toks.iter().flat_map(|t| toks.iter().filter(move |u| *u != t).map(move |u| vec![*t, *u]));
    for p in &singles {
        let all: Vec<&str> = if thorough { toks.iter().chain([&""]).copied().collect() } else { ends.to_vec() };
        for a in &all {
            for b in &all {
                out.push((*a, p.clone(), *b));
            }
        }
    }
    for p in doubles {
        for a in ends {
            for b in ends {
                out.push((*a, p.clone(), *b));
            }
        }
    }
    out
}

fn long_spaces(thorough: bool) -> Vec<Space> {
    let text = |(a, p, b): &(&str, Vec<&str>, &str), n: usize| format!("{a}{}{b}", p.concat().repeat(n));
    let counts = Arc::new(repeats(thorough));
    let mut out = Vec::new();

    let (ps, cs) = (Arc::new(pieces(thorough, Q_TOKS, &["a", ""])), counts.clone());
    let at = move |i: u64| {
        let mut d = Dec(i);
        let (q, (a, b)) = (*d.of(&['"', '\'']), *d.of(Q_POS));
        let n = *d.of(&cs[..]);
        (q, text(&ps[d.0 as usize], n), a, b)
    };
    let at2 = at.clone();
    out.push(Space::new(
        "long quoted scalars of repeated characters",
        (2 * Q_POS.len() * counts.len()) as u64 * pieces(thorough, Q_TOKS, &["a", ""]).len() as u64,
        move |i| {
            let (q, s, a, b) = at2(i);
            format!("{a}{q}{s}{q}{b}")
        },
        move |i, ctx| {
            let (q, s, a, b) = at(i);
            quoted_check(q, &s, a, b, ctx)
        },
    ));

    let (ps, cs) = (Arc::new(pieces(thorough, P_TOKS, &["a", ""])), counts.clone());
    let at = move |i: u64| {
        let mut d = Dec(i);
        let (a, b, flow) = *d.of(P_POS);
        let n = *d.of(&cs[..]);
        (text(&ps[d.0 as usize], n), a, b, flow)
    };
    let at2 = at.clone();
    out.push(Space::new(
        "long plain scalars of repeated characters",
        (P_POS.len() * counts.len()) as u64 * pieces(thorough, P_TOKS, &["a", ""]).len() as u64,
        move |i| {
            let (s, a, b, _) = at2(i);
            format!("{a}{s}{b}")
        },
        move |i, ctx| {
            let (s, a, b, flow) = at(i);
            plain_check(&s, a, b, flow, ctx)
        },
    ));

    let flags = if thorough { 2 } else { 1 };
    let (ps, cs) = (Arc::new(pieces(thorough, BLOCK_LINES, &["x y", "", "  "])), counts.clone());
    let at = move |i: u64| {
        let mut d = Dec(i);
        let c = BlockCase {
            pos: *d.of(&[0, 1, 4, 5, 8, 13]),
            fold: d.pick(2) == 1,
            chomp: d.pick(3),
            indicator: d.pick(2) == 1,
            cols: 2,
            padded: d.pick(flags) == 1,
            cut: d.pick(flags) == 1,
        };
        let n = *d.of(&cs[..]);
        let (a, p, b) = &ps[d.0 as usize];
        let mut lines = vec![a.to_string()];
        for _ in 0..n {
            lines.extend(p.iter().map(|l| l.to_string()));
        }
        lines.push(b.to_string());
        (c, lines)
    };
    let at2 = at.clone();
    out.push(Space::new(
        "block scalars of many repeated lines",
        (6 * 2 * 3 * 2 * flags * flags * counts.len()) as u64 * pieces(thorough, BLOCK_LINES, &["x y", "", "  "]).len() as u64,
        move |i| {
            let (c, l) = at2(i);
            block_text(&c, &l).unwrap_or_else(|| format!("outside of the subset {l:?}"))
        },
        move |i, ctx| {
            let (c, l) = at(i);
            block_check(&c, &l, ctx)
        },
    ));
    out
}

fn c03(thorough: bool) -> Vec<Space> {
    let mut s = long_spaces(thorough);
    for n in 1..=(if thorough { 5 } else { 3 }) {
        s.push(block_space(n));
    }
    for n in 0..=(if thorough { 6 } else { 4 }) {
        s.push(quoted_space(n));
    }
    for n in 1..=(if thorough { 4 } else { 3 }) {
        s.push(plain_space(n));
    }
    s
}

// ------------------------------------------------------------------------------- C04

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Dash,
    Key(String),
    Scalar(String),
}

#[derive(Clone)]
struct LTok {
    line: usize,
    col: usize,
    t: Tok,
    /// comment lines before this line
    commented: bool,
}

const NEST_LINES: &[&str] = &["K:", "K: v", "-", "- v", "- K: v", "- - v", "- K:", "v", "", "# c", "- - K: v", "- -"];

fn nest_case(n: usize, max_indent: usize, i: u64) -> Vec<(usize, &'static str)> {
    let mut d = Dec(i);
    (0..n).map(|_| (d.pick(max_indent + 1), *d.of(NEST_LINES))).collect()
}

fn nest_text(lines: &[(usize, &str)]) -> String {
    let mut s = String::from("---\n");
    for (n, (ind, l)) in lines.iter().enumerate() {
        s.push_str(&" ".repeat(*ind));
        s.push_str(&l.replace('K', &format!("k{n}")).replace('v', &format!("v{n}")));
        s.push('\n');
    }
    s
}

fn nest_tokens(text: &str) -> Vec<LTok> {
    let mut out = Vec::new();
    let mut commented = false;
    for (line, l) in text.lines().enumerate().skip(1) {
        let mut col = l.len() - l.trim_start().len();
        let mut rest = l.trim();
        if rest.is_empty() || rest.starts_with('#') {
            commented |= !rest.is_empty();
            continue;
        }
        loop {
            if rest == "-" || rest.starts_with("- ") {
                out.push(LTok { line, col, t: Tok::Dash, commented });
                let after = rest[1..].trim_start();
                col += rest.len() - after.len();
                rest = after;
            } else if let Some((k, v)) = rest.split_once(':') {
                out.push(LTok { line, col, t: Tok::Key(k.to_string()), commented });
                let after = v.trim_start();
                col += rest.len() - after.len();
                rest = after;
            } else {
                out.push(LTok { line, col, t: Tok::Scalar(rest.to_string()), commented });
                rest = "";
            }
            if rest.is_empty() {
                break;
            }
        }
        commented = false;
    }
    out
}

struct NestParser {
    toks: Vec<LTok>,
    at: usize,
    /// the document may also be rejected
    lenient: bool,
}

impl NestParser {
    fn peek(&self) -> Option<LTok> {
        self.toks.get(self.at).cloned()
    }
    /// the value of an owner at (line, col)
    fn value(&mut self, line: usize, col: usize, in_map: bool) -> Option<V> {
        let t = self.peek()?; // a missing value is null, which isn't supported
        if t.line != line {
            let flush = in_map && t.t == Tok::Dash && t.col == col;
            if t.col <= col && !flush {
                return None;
            }
            if matches!(t.t, Tok::Scalar(_)) && (!in_map || t.commented) {
                // a scalar on the line after a dash or after a comment isn't supported
                self.lenient = true;
            }
        }
        self.node(false)
    }
    fn has_value(&self, line: usize, col: usize) -> bool {
        self.peek().is_some_and(|t| t.line == line || t.col > col || t.col == col && t.t == Tok::Dash)
    }
    fn node(&mut self, root: bool) -> Option<V> {
        let first = self.peek()?;
        let c = first.col;
        match first.t {
            Tok::Scalar(s) => {
                self.at += 1;
                Some(V::Plain(s))
            }
            Tok::Dash => {
                let mut items = Vec::new();
                while let Some(t) = self.peek() {
                    if t.col > c || t.col == c && t.t != Tok::Dash && items.is_empty() {
                        return None;
                    }
                    if t.col < c || t.t != Tok::Dash {
                        break;
                    }
                    self.at += 1;
                    items.push(e(self.value(t.line, t.col, false)?));
                }
                Some(V::Seq(items))
            }
            Tok::Key(k) => {
                self.at += 1;
                if !root && !self.has_value(first.line, c) {
                    // there are no null values: a lone `text:` is a text or an error
                    self.lenient = true;
                    return Some(V::Plain(format!("{k}:")));
                }
                self.at -= 1;
                let mut items = Vec::new();
                while let Some(t) = self.peek() {
                    if t.col > c {
                        return None;
                    }
                    if t.col < c {
                        break;
                    }
                    let Tok::Key(k) = t.t else { return None };
                    self.at += 1;
                    items.push((k, e(self.value(t.line, t.col, true)?)));
                }
                Some(V::Map(items))
            }
        }
    }
}

/// the data the indentation defines; None: not valid, or not in the subset (null values, scalars of
/// more than one line, scalar documents)
fn nest_reference(text: &str) -> Option<(V, bool)> {
    let mut p = NestParser { toks: nest_tokens(text), at: 0, lenient: false };
    let v = p.node(true)?;
    // every token has to belong to something
    (p.at == p.toks.len() && !matches!(v, V::Plain(_))).then_some((v, p.lenient))
}

fn nest(text: &str, ctx: &mut Ctx) -> Res {
    ctx.call(1);
    let want = nest_reference(text);
    let got = parse(text).ok().map(|d| abs_doc(&d));
    ctx.class(match (&want, &got) {
        (Some(_), Some(_)) => "read",
        (None, None) => "rejected",
        _ => "differs",
    });
    let ok = match (&want, &got) {
        (Some((w, _)), Some(g)) => w == g,
        (Some((_, lenient)), None) => *lenient,
        (None, got) => got.is_none(),
    };
    if !ok {
        return viol(
            format!("nesting {text}"),
            format!("document:\n{text}\nindentation defines {want:?}\nread as             {got:?}"),
        );
    }
    if let Some(v) = got {
        ctx.state(&format!("{v:?}"));
    }
    ctx.compared();
    Ok(())
}

fn nest_space(n: usize, max_indent: usize) -> Space {
    let per = ((max_indent + 1) * NEST_LINES.len()) as u64;
    Space::new(
        format!("{n} lines at indentations 0..={max_indent}"),
        per.pow(n as u32),
        move |i| nest_text(&nest_case(n, max_indent, i)),
        move |i, ctx| nest(&nest_text(&nest_case(n, max_indent, i)), ctx),
    )
}

fn c04(thorough: bool) -> Vec<Space> {
    let mut s = vec![nest_space(1, 4), nest_space(2, 6), nest_space(3, 6), nest_space(4, 3)];
    if thorough {
        s.push(nest_space(4, 6));
        s.push(nest_space(5, 3));
    }
    s
}

pub fn props() -> Vec<Property> {
    vec![
        Property { id: "C03", rule: "every scalar of the bound in every position is read and its text compared with an independent implementation of the YAML rules for its style; scalars the subset does not have are counted as such", assumptions: &[], spaces: c03 },
        Property { id: "C04", rule: "every sequence of lines at every indentation is read by the library and by an independent indentation based reader: same data, or both reject it", assumptions: &[], spaces: c04 },
    ]
}
