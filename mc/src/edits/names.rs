//! Names and texts that only differ a little: every pair of them, one in the document and one in the path
use super::*;

const KEYS: &[&str] = &[
    "a", "A", "aa", "aaa", "ab", "Ab", "aB", "AB", "b", "ba", "a b", "a  b", "a-b", "a_b", "_a", "__a", "a-", "a_", "a1", "a01", "a10", "1", "01", "10", "1a",
    "name", "names", "Name", "NAME", "name2", "ename", "nam", "name-2", "my name",
    "0", "00", "true", "True", "null", "x", "k0", "k00", "aaaaaaaab", "aaaaaaaac", "aaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaac",
];

const TEXTS: &[&str] = &[
    "x", "X", "xx", " x", "x ", "  x", "x  ", "\tx", "x\t", "\u{a0}x", "x y", "x  y", "x\ty", "xy", "x-y", "x_y", "X Y", "1", "01", "1.0", "1.", "+1", "-1", "1e0", "10",
    "0x1", "1_0", "0", "-0", "00", "true", "True", "TRUE", "yes", "null", "Null", "~", "", " ", "é", "É", "e", "ß", "ss", "SS", "x\n", "\nx", "x\ny", "\n", "'x'", "\"x\"", "''", "x'y", "x''y",
    "x\\y", "x\\\\y", "x#y", "#", "x,y", "[x]", "{x}", "*x", "&x", "!x", "-", "- x", "x:", "x:y", "x: y", "xxxxxxxxxxxxxxxxy", "xxxxxxxxxxxxxxxxz",
];

fn dq(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\t' => s.push_str("\\t"),
            c => s.push(c),
        }
    }
    s + "\""
}

/// the documents with two names, or with two texts
fn docs(a: &str, b: &str) -> Vec<String> {
    let mut out = vec![
        format!("---\n{a}: x # c\nz:\n  {a}: y\nl:\n  - {a}: x\n    z: 1\n  - z: 2\n"),
    ];
    if a != b {
        out.push(format!("---\n{a}: x\n{b}: y\nz:\n  {b}: x\n  {a}:\n    {b}: v\n    # end\n  w: x\nl:\n  - {b}: x\n    {a}: y\n  - {a}: x\n"));
        out.push(format!("---\nm:\n  {b}:\n    {a}: q\n    {b}: x\n  {a}:\n    {b}: q\n  w: x\nz: x\n"));
    }
    out
}

fn key(k: &str) -> Step {
    Step::Key(k.into(), vec![])
}

fn name_paths(a: &str, b: &str) -> Vec<Path> {
    let mut out = Vec::new();
    for k in [a, b] {
        let x = vec![(k.to_string(), "x".to_string())];
        out.push(Path::Root(x.clone()));
        for steps in [
            vec![key(k)],
            vec![key("z"), key(k)],
            vec![key("z"), key(k), key(b)],
            vec![key("m"), key(k), key(a)],
            vec![key("l"), Step::All(vec![]), key(k)],
            vec![key("l"), Step::All(x.clone())],
            vec![key("l"), Step::Idx(vec![0], x.clone()), key(a)],
            vec![Step::Key(b.into(), x.clone())],
            vec![key("z"), Step::Key(a.into(), x)],
        ] {
            out.push(Path::Steps(steps));
        }
    }
    out
}

/// which operations
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Find,
    Insert,
    Rename,
    Sub,
    Split,
}

fn space(label: &str, pairs: Vec<(&'static str, &'static str)>, texts: fn(&str, &str) -> Vec<String>, run: impl Fn(&Document, &str, &str, &mut Ctx) -> Res + Send + Sync + 'static) -> Space {
    let pairs = Arc::new(pairs);
    let p2 = pairs.clone();
    Space::new(
        label,
        pairs.len() as u64,
        move |i| format!("{:?}", p2[i as usize]),
        move |i, ctx| {
            let (a, b) = pairs[i as usize];
            for t in texts(a, b) {
                match parse(&t) {
                    Ok(d) => run(&d, a, b, ctx)?,
                    Err(_) => ctx.class("document rejected"),
                }
            }
            Ok(())
        },
    )
}

fn pairs(words: &'static [&'static str]) -> Vec<(&'static str, &'static str)> {
    words.iter().flat_map(|a| words.iter().map(move |b| (*a, *b))).collect()
}

fn run_ops(d: &Document, ops: &[Op], ctx: &mut Ctx) -> Res {
    ops.iter().try_for_each(|op| op_case(d, op, ctx))
}

pub fn spaces(kind: Kind) -> Vec<Space> {
    let names = space("similar names", pairs(KEYS), docs, move |d, a, b, ctx| {
        let ps = name_paths(a, b);
        match kind {
            Kind::Find => ps.iter().try_for_each(|p| find_case(d, p, ctx)),
            Kind::Insert => run_ops(d, &insert_ops(&ps), ctx),
            Kind::Rename => {
                for p in ps {
                    for n in [a, b, "n"] {
                        op_case(d, &Op::Rename(p.clone(), n.into()), ctx)?;
                        op_case(d, &Op::ToObject(p.clone(), n.into()), ctx)?;
                    }
                }
                Ok(())
            }
            Kind::Sub => {
                for p in [Path::Root(vec![]), Path::Steps(vec![key("z")]), Path::Steps(vec![key("m")]), Path::Steps(vec![key("l"), Step::All(vec![])])] {
                    for l in [&[a][..], &[b], &[a, b], &[b, a], &["z", a], &[b, "w"]] {
                        for s in [a, b, "n"] {
                            op_case(d, &Op::Sub(p.clone(), s.into(), l.iter().map(|s| s.to_string()).collect()), ctx)?;
                        }
                    }
                }
                Ok(())
            }
            Kind::Split => {
                for p in [Path::Root(vec![]), Path::Steps(vec![key("z")]), Path::Steps(vec![key("m")])] {
                    for (old, sel, new) in [("m", a, "n"), ("m", b, "n"), (a, b, "n"), (b, a, "n"), (a, b, b), (b, "w", a), ("m", a, b), ("z", b, a)] {
                        op_case(d, &Op::Split(p.clone(), old.into(), sel.into(), new.into(), vec!["v".into()]), ctx)?;
                        op_case(d, &Op::Split(p.clone(), old.into(), sel.into(), new.into(), vec![]), ctx)?;
                    }
                }
                Ok(())
            }
        }
    });
    let values = space(
        "similar texts",
        pairs(TEXTS),
        |a, b| {
            let mut out = vec![format!("---\nm:\n  e:\n    t: {}\n    v: 1 # e\n  f:\n    v: 2\n    t: {}\nl:\n  - t: {}\n    u: 1\n  - t: {}\n", dq(a), dq(b), dq(a), dq(b))];
            if !a.is_empty() && a.chars().all(|c| c.is_alphanumeric() || "+-._ ".contains(c)) && a.trim() == a && a != "-" && a != "- x" {
                out.push(format!("---\nm:\n  e:\n    t: {a}\n    v: 1 # e\n  f:\n    t: '{a}'\nl:\n  - t: {a}\n    u: 1\n  - t: '{a}'\n"));
            }
            out
        },
        move |d, a, b, ctx| {
            let mut ps = Vec::new();
            for v in [a, b] {
                let c = vec![("t".to_string(), v.to_string())];
                ps.push(Path::Steps(vec![key("l"), Step::All(c.clone()), key("t")]));
                ps.push(Path::Steps(vec![key("l"), Step::Idx(vec![1], c.clone()), key("u")]));
                ps.push(Path::Steps(vec![key("m"), key("e"), Step::Key("v".into(), c)]));
            }
            match kind {
                Kind::Find => ps.iter().try_for_each(|p| find_case(d, p, ctx)),
                Kind::Insert => run_ops(d, &insert_ops(&ps), ctx),
                Kind::Rename => run_ops(d, &rename_ops(&ps), ctx),
                Kind::Sub => {
                    for p in ps {
                        let Path::Steps(mut s) = p else { continue };
                        let last = s.pop();
                        if let Some(Step::Key(_, c)) = last {
                            if !c.is_empty() {
                                continue;
                            }
                        }
                        op_case(d, &Op::Sub(Path::Steps(s), "n".into(), vec!["t".into(), "u".into()]), ctx)?;
                    }
                    Ok(())
                }
                Kind::Split => {
                    for keeps in [vec![], vec![a], vec![b], vec![a, b]] {
                        op_case(d, &Op::Split(Path::Root(vec![]), "m".into(), "t".into(), "n".into(), keeps.iter().map(|s| s.to_string()).collect()), ctx)?;
                    }
                    Ok(())
                }
            }
        },
    );
    vec![names, values]
}

/// operations with the values and names that the entries at a path have already, and ones that almost are
pub fn same_ops(d: &Document, p: &Path) -> Vec<Op> {
    let mut y = root(d).clone();
    let mut out = Vec::new();
    let mut seen: Vec<AliasedYaml> = Vec::new();
    for q in entry_places(&y.clone(), p) {
        let v = element_at(&mut y, &q).value.clone();
        if !seen.contains(&v) && seen.len() < 3 {
            seen.push(v);
        }
    }
    for v in seen {
        let mut vs = vec![v.clone()];
        vs.push(AliasedYaml { alias: if v.alias.is_some() { None } else { Some("p".into()) }, value: v.value.clone() });
        if let Yaml::UnquotedString(s) = &v.value {
            vs.push(al(Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(s.clone())])));
        }
        for v in vs {
            for over in [true, false] {
                out.push(Op::Insert(p.clone(), v.clone(), over));
                out.push(Op::InsertCall(p.clone(), v.clone(), over));
            }
        }
    }
    out
}
