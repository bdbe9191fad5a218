//! C15: many edits, edits of large documents, and every name an edit can write
use super::*;

/// the document after the operation is written and read, if it changed
fn edited(d: &Document, op: &Op, ctx: &mut Ctx) -> Res {
    let got = apply_checked(d, op, ctx)?;
    if got == *d {
        ctx.class("unchanged");
        return Ok(());
    }
    if events(&got).iter().any(|x| matches!(x, Ev::Key(k) if !is_key(k))) {
        ctx.class("a value that was made a key isn't a key of the subset");
        return Ok(());
    }
    written_and_read(&got, &|| format!("{}\n{}", show(d), op_text(op)), ctx)
}

fn everything_at(d: &Document, p: &Path, ctx: &mut Ctx) -> Res {
    let plain = al(Yaml::UnquotedString("n".into()));
    let names = |l: &[&str]| -> Vec<String> { l.iter().map(|s| s.to_string()).collect() };
    for op in [
        Op::Insert(p.clone(), plain, true),
        Op::Insert(p.clone(), new_value(), false),
        Op::Remove(p.clone()),
        Op::Rename(p.clone(), "r".into()),
        Op::ToObject(p.clone(), "o".into()),
        Op::Sub(p.clone(), "s".into(), names(&["a", "k1", "b"])),
        Op::Sub(p.clone(), "a".into(), names(&["b", "c", "k0"])),
    ] {
        edited(d, &op, ctx)?;
    }
    Ok(())
}

pub fn big(thorough: bool) -> Space {
    super::big::big_space(thorough, everything_at)
}

/// every name of a few characters, long names, and names that mean something elsewhere
fn names(thorough: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut cur = vec![String::new()];
    for _ in 0..if thorough { 5 } else { 4 } {
        cur = cur.iter().flat_map(|t| "a1_-é ".chars().map(move |c| format!("{t}{c}"))).collect();
        out.extend(cur.iter().cloned());
    }
    for n in (4..=70).chain([79, 80, 81, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025]) {
        for w in ["a", "1", "_", "é", "a ", "a-", "ab  c", "日"] {
            out.push(w.repeat(n).trim().to_string());
        }
        out.push(format!("a{}b", " ".repeat(n)));
        out.push(format!("a{}", "-".repeat(n)));
    }
    for w in ["true", "null", "yes", "no", "on", "Null", "NULL", "1e5", "0x10", "0o7", "1_000", "2020-01-01", "a - b", "- ", "a  ", "key", "type", "k y"] {
        out.push(w.into());
    }
    out.retain(|n| is_key(n) && !n.ends_with(' '));
    out.sort();
    out.dedup();
    out
}

const DOCS: &[&str] = &[
    "---\na: x # at\n# before\nb:\n  a: &p y\n  c:\n    - a: 1\n      b: 2 # two\n    - - a: z\n# end\n",
    "---\n- a: x\n  b:\n    a: |\n      t\n- x\n# end\n",
    "---\nold:\n  one:\n    a: @\n    b: 1 # one\n  # two\n  two:\n    a: &q @\na: x\n",
];

pub fn name_space(thorough: bool) -> Space {
    let ns = Arc::new(names(thorough));
    let n2 = ns.clone();
    Space::new("every name", ns.len() as u64, move |i| n2[i as usize].clone(), move |i, ctx| {
        let n = &ns[i as usize];
        let k = |k: &str| Step::Key(k.into(), vec![]);
        let strs = |l: &[&str]| -> Vec<String> { l.iter().map(|s| s.to_string()).collect() };
        let plain = al(Yaml::UnquotedString("n".into()));
        for t in DOCS {
            let d = must_parse(&t.replace('@', n), ctx)?;
            // a name that is read back as another one isn't a name
            let all = |end: &str| vec![vec![k(end)], vec![k("b"), k(end)], vec![k("b"), k("c"), Step::All(vec![]), k(end)], vec![k("b"), k("c"), Step::Idx(vec![1], vec![]), Step::All(vec![]), k(end)]];
            for p in all(n) {
                for v in [plain.clone(), new_value(), al(Yaml::Hash(vec![HashData::Element(HashElement { key: n.clone(), value: plain.clone() })]))] {
                    edited(&d, &Op::Insert(Path::Steps(p.clone()), v, true), ctx)?;
                }
            }
            for p in all("a") {
                edited(&d, &Op::Rename(Path::Steps(p.clone()), n.clone()), ctx)?;
                edited(&d, &Op::ToObject(Path::Steps(p), n.clone()), ctx)?;
            }
            for p in [Path::Root(vec![]), Path::Steps(vec![k("b")]), Path::Steps(vec![k("b"), k("c"), Step::All(vec![])])] {
                edited(&d, &Op::Sub(p.clone(), n.clone(), strs(&["a", "c"])), ctx)?;
                edited(&d, &Op::Sub(p, n.clone(), strs(&["b"])), ctx)?;
            }
            for (sel, new, keep) in [("a", n.as_str(), ""), ("a", "new", ""), ("a", "new", n.as_str()), ("b", n.as_str(), "")] {
                edited(&d, &Op::Split(Path::Root(vec![]), "old".into(), sel.into(), new.into(), strs(&[keep])), ctx)?;
            }
        }
        Ok(())
    })
}

/// two operations, again and again
pub fn periodic_space(thorough: bool, seeds: Vec<String>) -> Space {
    let ops = Arc::new(c15_ops(false));
    let seeds = Arc::new(seeds);
    let n = ops.len();
    let (o2, s2) = (ops.clone(), seeds.clone());
    let case = move |i: u64| {
        let mut d = Dec(i);
        (d.pick(n), d.pick(n), d.pick(usize::MAX))
    };
    let rounds = if thorough { 24 } else { 8 };
    Space::new(
        format!("two operations, repeated <= {rounds} times"),
        (seeds.len() * n * n) as u64,
        move |i| {
            let (a, b, s) = case(i);
            format!("{}{}\n{}\nrepeatedly", s2[s], op_text(&o2[a]), op_text(&o2[b]))
        },
        move |i, ctx| {
            let (a, b, s) = case(i);
            let mut d = must_parse(&seeds[s], ctx)?;
            for round in 0..rounds {
                let before = d.clone();
                for o in [a, b] {
                    d = apply_checked(&d, &ops[o], ctx)?;
                    if events(&d).iter().any(|x| matches!(x, Ev::Key(k) if !is_key(k))) {
                        ctx.class("a value that was made a key isn't a key of the subset");
                        return Ok(());
                    }
                }
                if d == before {
                    ctx.class("nothing changes any more");
                    return Ok(());
                }
                written_and_read(&d, &|| format!("{}{}\n{}\n{} times", seeds[s], op_text(&ops[a]), op_text(&ops[b]), round + 1), ctx)?;
            }
            Ok(())
        },
    )
}
