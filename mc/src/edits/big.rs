//! Large documents for paths and edits: many entries, deep, many conditions, many fields
use super::*;
use crate::scaled::{chain, LINKS};

fn read(t: &str) -> Document {
    match parse(t) {
        Ok(d) => d,
        // a changed parser may reject this one, which is not what is looked at here
        Err(_) => parse("---\na: x\n").ok().expect("document"),
    }
}

fn counts(thorough: bool) -> &'static [usize] {
    if thorough {
        &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 31, 32, 33, 64, 65, 101]
    } else {
        &[4, 5, 8, 9, 10, 11, 12, 13, 17, 33]
    }
}

/// sequences and mappings of many entries, without and with comments between them
fn wide_docs(thorough: bool) -> Vec<Document> {
    let mut out = Vec::new();
    for &n in counts(thorough) {
        for comments in [false, true] {
            let many = |f: &dyn Fn(usize) -> String| -> String {
                (0..n)
                    .map(|i| {
                        let t = f(i);
                        if comments && i % 3 != 1 {
                            // before the entry, and behind its first line
                            let (a, b) = t.split_once('\n').unwrap();
                            let ind = " ".repeat(t.len() - t.trim_start().len());
                            let inline = if i % 2 == 0 && !a.ends_with(':') { " # at" } else { "" };
                            format!("{ind}# c{i}\n{a}{inline}\n{b}")
                        } else {
                            t
                        }
                    })
                    .collect()
            };
            let maps = many(&|i| format!("  - a: {}\n    b: v{i}\n    c: [w{i}, x]\n", ["x", "y", "x"][i % 3]));
            let odd = |at: usize| {
                many(&|i| if i == at { format!("  - a: x\n    b: v{i}\n") } else { format!("  - v{i}\n") })
            };
            let mut texts = vec![
                format!("---\na:\n{maps}b: z\n"),
                format!("---\na:\n{}", many(&|i| format!("  - v{i}\n"))),
                format!("---\na:\n{}b: z\n", many(&|i| format!("  - - v{i}\n    - w{i}\n"))),
                format!("---\na:\n{}b: z\n", many(&|i| format!("  k{i}: v{i}\n"))),
                format!("---\n{}", many(&|i| format!("k{i}: v{i}\n"))),
                format!("---\n{}", many(&|i| format!("k{i}:\n  a: x\n"))),
                format!("---\n{}", many(&|i| format!("k{i}:\n  - a: {}\n", ["x", "y"][i % 2]))),
            ];
            for at in [0, 1, n / 2, n - 2, n - 1] {
                texts.push(format!("---\na:\n{}", odd(at)));
            }
            if !comments {
                let items = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(", ");
                texts.push(format!("---\na: [{}]\n", items(&|i| format!("v{i}"))));
                texts.push(format!("---\na: [{}]\nb: z\n", items(&|i| format!("[v{i}, [x]]"))));
                texts.push(format!("---\na: [{}]\n", items(&|i| format!("{{a: x, b: v{i}}}"))));
                texts.push(format!("---\na: {{{}}}\n", items(&|i| format!("k{i}: v{i}"))));
                // a key that is there many times
                texts.push(format!("---\n{}", many(&|i| format!("a: v{i}\n"))));
            }
            out.extend(texts.iter().map(|t| read(t)));
        }
    }
    out
}

fn deep_docs(thorough: bool) -> Vec<Document> {
    let depths: &[usize] = if thorough { &[5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 24] } else { &[6, 7, 8, 9, 10, 13] };
    let mut out = Vec::new();
    for &d in depths {
        for a in 0..LINKS {
            for b in 0..LINKS {
                let mut g = G::BMap(vec![(String::new(), ge(chain(&[a, b], d, d / 2, pl("x"))))]);
                rekey(&mut g, &mut 0);
                fill(&mut g);
                let texts = [
                    render(&g, &L0, &no_comments).0,
                    render(&with_anchors(&g, &|n| (n % 3 == 0).then(|| format!("n{n}"))), &L0, &|n| (n % 3 == 0).then(|| format!("c{n}"))).0,
                ];
                out.extend(texts.iter().map(|t| read(t)));
            }
        }
    }
    out
}

/// plain scalars get a text
fn fill(g: &mut G) {
    match g {
        G::BMap(m) => m.iter_mut().for_each(|(_, e)| fill(&mut e.g)),
        G::BSeq(m) => m.iter_mut().for_each(|e| fill(&mut e.g)),
        G::FMap(m) => m.iter_mut().for_each(|(_, g)| fill(g)),
        G::FSeq(m) => m.iter_mut().for_each(fill),
        G::Plain(s) if s.is_empty() => *s = "y".into(),
        _ => {}
    }
}

/// the exact path of every node
fn node_paths(y: &Yaml, from: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    let mut child = |s: Step, y: &Yaml| {
        from.push(s);
        out.push(from.clone());
        node_paths(y, from, out);
        from.pop();
    };
    match y {
        Yaml::Hash(h) => {
            for d in h {
                if let HashData::Element(e) = d {
                    child(Step::Key(e.key.clone(), vec![]), &e.value.value);
                }
            }
        }
        Yaml::InlineHash(h) => h.iter().for_each(|(k, v)| child(Step::Key(k.clone(), vec![]), v)),
        _ => {
            for (n, i) in elements(y).into_iter().enumerate() {
                child(Step::Idx(vec![n], vec![]), at(y, &[i]));
            }
        }
    }
}

/// paths to every node, with some steps replaced by [*], and beyond every node
fn big_paths(d: &Document) -> Vec<Path> {
    let y = root(d);
    let mut exact = Vec::new();
    node_paths(y, &mut Vec::new(), &mut exact);
    let key = |k: &str, c: &[Cond]| Step::Key(k.into(), c.to_vec());
    let mut out: Vec<Vec<Step>> = Vec::new();
    for p in exact {
        let idx: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Step::Idx(..))).collect();
        let with_all = |at: &[usize]| {
            let mut q = p.clone();
            at.iter().for_each(|i| q[*i] = Step::All(vec![]));
            q
        };
        let here = places(y, &Path::Steps(p.clone()));
        let n = here.first().map_or(0, |h| elements(at(y, h)).len());
        let mut ends = vec![key("a", &[]), key("zz", &[]), Step::Idx(vec![n], vec![]), Step::All(vec![])];
        if n > 3 {
            ends.push(Step::Idx(vec![n + 1], vec![]));
            ends.push(Step::Idx(vec![n * 10], vec![]));
            ends.push(Step::Idx(vec![n - 1, 0, n / 2], vec![]));
            ends.push(Step::Idx((0..n).collect(), vec![]));
            ends.push(Step::Idx(vec![n, n - 1], vec![]));
            ends.push(Step::Idx(vec![usize::MAX], vec![]));
            ends.push(Step::All(vec![("a".into(), "x".into())]));
            ends.push(Step::All(vec![("b".into(), format!("v{}", n - 1))]));
            ends.push(Step::Idx(vec![n - 1], vec![("b".into(), format!("v{}", n - 1))]));
        }
        for e in ends {
            let mut q = p.clone();
            q.push(e.clone());
            out.push(q.clone());
            if !matches!(e, Step::Key(..)) {
                q.push(key("b", &[]));
                out.push(q);
            }
        }
        if idx.len() <= 2 {
            idx.iter().for_each(|i| out.push(with_all(&[*i])));
        } else {
            out.push(with_all(&idx[..1]));
            out.push(with_all(&idx[idx.len() - 1..]));
        }
        out.push(with_all(&idx));
        let mut q = with_all(&idx);
        q.push(key("a", &[]));
        out.push(q);
        out.push(p);
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|p| seen.insert(format!("{p:?}")));
    out.into_iter().map(Path::Steps).collect()
}

/// mappings of many fields, with paths of many conditions on them
fn cond_docs() -> Vec<(Document, Vec<Path>)> {
    let mut out = Vec::new();
    for n in 2..=10 {
        let m: String = (0..n).map(|i| format!("f{i}: v{i}\n")).collect();
        let at = |s: &str| -> String { m.lines().map(|l| format!("{s}{l}\n")).collect() };
        let d = read(&format!("---\n{m}m:\n{}l:\n  - x\n  - z: z\n{}  - f0: v0\n", at("  "), at("    ")));
        let mut sets: Vec<Vec<usize>> = (1..1usize << n.min(6)).map(|s| (0..n).filter(|i| s >> i & 1 == 1).collect()).collect();
        sets.push((0..n).collect());
        sets.push((0..n).rev().collect());
        sets.push([0, n - 1].repeat(3));
        let mut paths = Vec::new();
        for s in sets {
            // all of them hold, or one doesn't, because of its value or its field
            for wrong in 0..=2 * s.len() {
                let cs: Vec<Cond> = s
                    .iter()
                    .enumerate()
                    .map(|(at, i)| {
                        let bad = wrong > 0 && (wrong - 1) / 2 == at;
                        match (bad, wrong % 2) {
                            (true, 0) => (format!("f{i}"), format!("v{}", i + 1)),
                            (true, _) => (format!("g{i}"), format!("v{i}")),
                            _ => (format!("f{i}"), format!("v{i}")),
                        }
                    })
                    .collect();
                let k = |k: &str, c: &[Cond]| Step::Key(k.into(), c.to_vec());
                paths.push(Path::Root(cs.clone()));
                paths.push(Path::Steps(vec![k("f0", &cs)]));
                paths.push(Path::Steps(vec![k("m", &cs), k("f1", &cs)]));
                paths.push(Path::Steps(vec![k("l", &[]), Step::All(cs.clone()), k("f0", &[])]));
                paths.push(Path::Steps(vec![k("l", &[]), Step::Idx(vec![1], cs.clone()), k("z", &cs)]));
            }
        }
        out.push((d, paths));
    }
    out
}

fn cases(thorough: bool) -> Vec<(Document, Option<Vec<Path>>)> {
    let mut out: Vec<_> = cond_docs().into_iter().map(|(d, p)| (d, Some(p))).collect();
    out.extend(wide_docs(thorough).into_iter().map(|d| (d, None)));
    out.extend(deep_docs(thorough).into_iter().map(|d| (d, None)));
    out
}

/// every document with all its paths
pub fn big_space(thorough: bool, run: fn(&Document, &Path, &mut Ctx) -> Res) -> Space {
    let cases = Arc::new(cases(thorough));
    let c2 = cases.clone();
    Space::new(
        "large documents x their paths",
        cases.len() as u64,
        move |i| show(&c2[i as usize].0),
        move |i, ctx| {
            let (d, ps) = &cases[i as usize];
            let guess;
            let ps = match ps {
                Some(p) => p,
                None => {
                    guess = big_paths(d);
                    &guess
                }
            };
            ctx.state(&show(d));
            for p in ps {
                run(d, p, ctx)?;
            }
            Ok(())
        },
    )
}

// ------------------------------------------------------------------------------- C09

/// paths of many steps, many conditions and long names
pub fn long_paths(thorough: bool) -> Vec<Path> {
    let steps = [
        Step::Key("a".into(), vec![]),
        Step::Key("b c".into(), vec![]),
        Step::Idx(vec![0], vec![]),
        Step::Idx(vec![10], vec![]),
        Step::All(vec![]),
        Step::Key("a".into(), vec![("b".into(), "c".into())]),
        Step::All(vec![("b".into(), "0".into()), ("d".into(), "e f".into())]),
        Step::Idx(vec![12], vec![("b".into(), "c".into())]),
    ];
    let mut out = Vec::new();
    let max = if thorough { 65 } else { 33 };
    for n in (4..=20).chain([31, 32, 33, 64, 65]).filter(|n| *n <= max) {
        for i in 0..steps.len() {
            for j in 0..steps.len() {
                for k in 0..steps.len() {
                    let kinds = [i, j, k];
                    let mut p = vec![Step::Key("z".into(), vec![])];
                    p.extend((0..n).map(|s| steps[kinds[s % 3]].clone()));
                    out.push(Path::Steps(p));
                }
            }
        }
    }
    for n in (3..=20).chain([32, 33, 64, 65]) {
        let cs: Vec<Cond> = (0..n).map(|i| (format!("f{i}"), format!("v {i}"))).collect();
        let same: Vec<Cond> = (0..n).map(|_| ("f".to_string(), "v".to_string())).collect();
        for cs in [cs, same] {
            out.push(Path::Root(cs.clone()));
            out.push(Path::Steps(vec![Step::Key("a".into(), cs.clone())]));
            out.push(Path::Steps(vec![Step::Key("a".into(), cs.clone()), Step::All(cs.clone()), Step::Key("b".into(), cs.clone())]));
            out.push(Path::Steps(vec![Step::Key("a".into(), vec![]), Step::Idx(vec![7], cs.clone())]));
        }
    }
    for n in (2..=70).chain([127, 128, 129, 255, 256, 257, 1000]) {
        for w in ["a", "é", "a b", "-", "1", "*"] {
            let name = w.repeat(n);
            let c = vec![(name.clone(), name.clone())];
            out.push(Path::Steps(vec![Step::Key(name.clone(), vec![])]));
            out.push(Path::Steps(vec![Step::Key(name.clone(), c.clone()), Step::All(c.clone()), Step::Key(name.clone(), vec![])]));
            out.push(Path::Root(c));
        }
    }
    for k in 0..64 {
        for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            out.push(Path::Steps(vec![Step::Key("a".into(), vec![]), Step::Idx(vec![n], vec![])]));
        }
        for n in (0..20).map(|e| 10usize.pow(e)).flat_map(|p| [p - 1, p, p + 1]) {
            if k == 0 {
                out.push(Path::Steps(vec![Step::Key("a".into(), vec![]), Step::Idx(vec![n], vec![]), Step::Key("b".into(), vec![])]));
            }
        }
    }
    for n in 0..=2000 {
        out.push(Path::Steps(vec![Step::Key("a".into(), vec![]), Step::Idx(vec![n], vec![])]));
    }
    out.push(Path::Steps(vec![Step::Key("a".into(), vec![]), Step::Idx(vec![usize::MAX], vec![])]));
    out
}

// ------------------------------------------------------------------------------- C13

/// many fields moved at once
pub fn sub_space(thorough: bool) -> Space {
    let max = if thorough { 12 } else { 8 };
    let mut cases: Vec<(Document, Vec<Op>)> = Vec::new();
    for n in (3..=max).chain([16, 17, 33]) {
        for sub in ["", "s: {}\n", "s:\n  f1: old\n  z: old # z\n  f0: old\n", "s: &q\n  f2:\n    f0: old\n# end\n"] {
            for at in [0, n / 2, n] {
                if sub.is_empty() && at > 0 {
                    continue;
                }
                let mut body = String::new();
                for i in 0..n {
                    if i == at {
                        body.push_str(sub);
                    }
                    body.push_str(&match i % 4 {
                        0 => format!("f{i}: v{i}\n"),
                        1 => format!("# before f{i}\nf{i}: &n{i} v{i} # at f{i}\n"),
                        2 => format!("f{i}:\n  - v{i} # in f{i}\n  # end f{i}\n"),
                        _ => format!("f{i}: |\n  v{i}\n"),
                    });
                }
                if at == n {
                    body.push_str(sub);
                }
                let deep: String = body.lines().map(|l| format!("    {l}\n")).collect();
                let lists: Vec<Vec<usize>> = {
                    let mut l: Vec<Vec<usize>> = vec![
                        (0..n).collect(),
                        (0..n).rev().collect(),
                        (0..n).step_by(2).collect(),
                        (1..n).step_by(2).rev().collect(),
                        (0..n).chain(0..n).collect(),
                        (0..n).flat_map(|i| [i, i]).collect(),
                        (0..n).flat_map(|i| [i, i + n]).collect(),
                        (n..2 * n).collect(),
                    ];
                    if n <= max {
                        l.extend((0..n).flat_map(|a| (a..n).map(move |b| (a..=b).collect())));
                        l.extend((0..n).map(|skip| (0..n).filter(|i| *i != skip).collect()));
                        l.extend((0..n).map(|first| (0..n).map(|i| (first + i) % n).collect()));
                    }
                    if n <= 8 {
                        l.extend((1..1usize << n).map(|s| (0..n).filter(|i| s >> i & 1 == 1).collect()));
                    }
                    l
                };
                for (text, p) in [
                    (format!("---\n{body}"), Path::Root(vec![])),
                    (format!("---\nm:\n  - x: 1\n{deep}  - f0: other\n"), Path::Steps(vec![Step::Key("m".into(), vec![]), Step::All(vec![])])),
                ] {
                    let ops = lists
                        .iter()
                        .flat_map(|l| {
                            let names: Vec<String> = l.iter().map(|i| format!("f{i}")).collect();
                            let mut with = names.clone();
                            with.insert(with.len() / 2, "s".into());
                            [Op::Sub(p.clone(), "s".into(), names.clone()), Op::Sub(p.clone(), "s".into(), with), Op::Sub(p.clone(), "f2".into(), names)]
                        })
                        .collect();
                    cases.push((read(&text), ops));
                }
            }
        }
    }
    op_space("many fields moved", cases)
}

fn op_space(label: &str, cases: Vec<(Document, Vec<Op>)>) -> Space {
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Space::new(
        label,
        cases.len() as u64,
        move |i| show(&c2[i as usize].0),
        move |i, ctx| {
            let (d, ops) = &cases[i as usize];
            for op in ops {
                op_case(d, op, ctx)?;
            }
            Ok(())
        },
    )
}

// ------------------------------------------------------------------------------- C14

/// maps of many entries, many selectors, many kept ones
pub fn split_space(thorough: bool) -> Space {
    let mut bodies = Vec::new();
    let sizes: &[usize] = if thorough { &[4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33] } else { &[4, 5, 6, 8, 10, 12, 17] };
    let kinds = SPLIT_ENTRIES.len();
    for &n in sizes {
        let mut lists: Vec<Vec<usize>> = Vec::new();
        for a in 0..kinds {
            for b in 0..kinds {
                lists.push((0..n).map(|i| [a, b][i % 2]).collect());
                // one that is different from the others
                for at in [0, 1, n / 2, n - 1] {
                    lists.push((0..n).map(|i| if i == at { b } else { a }).collect());
                }
            }
        }
        for l in lists {
            for (numbered, comments) in [(false, false), (true, true), (false, true)] {
                let mut body = String::new();
                for (i, k) in l.iter().enumerate() {
                    let mut t = SPLIT_ENTRIES[*k].replace('@', &format!("e{i}"));
                    if numbered {
                        // every entry has a selector of its own, or every second one
                        t = t.replace("type: x", &format!("type: x{}", i / 2)).replace("type: y", &format!("type: x{i}"));
                    }
                    if comments && i % 3 != 1 {
                        body.push_str(&format!("# before {i}\n"));
                    }
                    body.push_str(&t);
                }
                bodies.push(body.lines().map(|l| format!("  {l}\n")).collect::<String>());
            }
        }
    }
    let keeps: Vec<Vec<String>> = vec![
        vec![],
        vec!["x".into()],
        vec!["x0".into(), "zz".into(), "x1".into(), "x3".into()],
        (0..20).map(|i| format!("x{i}")).collect(),
        (1..20).rev().map(|i| format!("x{i}")).chain(["y".into(), "keep".into()]).collect(),
    ];
    let ops: Vec<Op> = keeps.into_iter().map(|k| Op::Split(Path::Root(vec![]), "old".into(), "type".into(), "new".into(), k)).collect();
    let data = Arc::new((bodies, ops));
    let d2 = data.clone();
    let text = |b: &str| format!("---\nl: &l x\nold: &o\n{b}tail: t\n");
    Space::new(
        "maps of many entries, many selectors",
        data.0.len() as u64,
        move |i| text(&d2.0[i as usize]),
        move |i, ctx| {
            let d = must_parse(&text(&data.0[i as usize]), ctx)?;
            for op in &data.1 {
                op_case(&d, op, ctx)?;
            }
            Ok(())
        },
    )
}
