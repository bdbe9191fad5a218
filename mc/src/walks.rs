//! C21 mapping and visiting
use crate::engine::*;
use std::sync::Arc;
use yaml_subset::yaml::*;

fn leaves() -> Vec<Yaml> {
    vec![
        Yaml::UnquotedString("p".into()),
        Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String("s".into())]),
        Yaml::DoubleQuotedString(vec![DoubleQuotedStringPart::String("d".into())]),
        Yaml::LiteralString(vec!["l".into()], BlockChomping::Clip),
        Yaml::FoldedString(vec!["f".into()], BlockChomping::Keep),
        Yaml::Anchor("x".into()),
    ]
}

/// all trees of exactly n nodes: every container kind in every other one
fn trees(n: usize, leaves: &[Yaml]) -> Vec<Vec<Yaml>> {
    let mut by_size: Vec<Vec<Yaml>> = vec![vec![]];
    // forests of k trees with m nodes
    for size in 1..=n {
        let mut out = Vec::new();
        if size == 1 {
            out.extend(leaves.iter().cloned());
        }
        for children in forests(size - 1, &by_size) {
            out.push(Yaml::InlineArray(children.clone()));
            out.push(Yaml::InlineHash(children.iter().enumerate().map(|(i, c)| (format!("k{i}"), c.clone())).collect()));
            // decoration: nothing, or comments around and anchors on every entry
            for decorated in [false, true] {
                let alias = |i: usize| (decorated && i % 2 == 0).then(|| format!("a{i}"));
                let mut h = Vec::new();
                let mut a = Vec::new();
                for (i, c) in children.iter().enumerate() {
                    if decorated {
                        h.push(HashData::Comment(format!("c{i}")));
                        a.push(ArrayData::Comment(format!("c{i}")));
                    }
                    let value = AliasedYaml { alias: alias(i), value: c.clone() };
                    h.push(HashData::Element(HashElement { key: format!("k{i}"), value: value.clone() }));
                    a.push(ArrayData::Element(value));
                    if decorated {
                        h.push(HashData::InlineComment(format!("i{i}")));
                        a.push(ArrayData::InlineComment(format!("i{i}")));
                    }
                }
                if decorated && children.is_empty() {
                    h.push(HashData::Comment("only".into()));
                    a.push(ArrayData::Comment("only".into()));
                }
                out.push(Yaml::Hash(h));
                out.push(Yaml::Array(a));
            }
        }
        by_size.push(out);
    }
    by_size
}

fn forests(n: usize, by_size: &[Vec<Yaml>]) -> Vec<Vec<Yaml>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for first in 1..=n {
        if first >= by_size.len() {
            break;
        }
        for rest in forests(n - first, by_size) {
            for t in &by_size[first] {
                let mut v = vec![t.clone()];
                v.extend(rest.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

// ------------------------------------------------------------------ independent traversals

/// what the mapping function of this check does: number the nodes in the order of the calls
fn mark(y: Yaml, n: &mut usize) -> Yaml {
    *n += 1;
    match y {
        Yaml::Hash(mut v) => {
            v.push(HashData::Comment(format!("{n}")));
            Yaml::Hash(v)
        }
        Yaml::Array(mut v) => {
            v.push(ArrayData::Comment(format!("{n}")));
            Yaml::Array(v)
        }
        Yaml::InlineHash(mut v) => {
            v.push((format!("n{n}"), Yaml::Anchor("m".into())));
            Yaml::InlineHash(v)
        }
        Yaml::InlineArray(mut v) => {
            v.push(Yaml::Anchor(format!("m{n}")));
            Yaml::InlineArray(v)
        }
        leaf => Yaml::InlineArray(vec![leaf, Yaml::UnquotedString(format!("{n}"))]),
    }
}

fn expected(y: &Yaml, n: &mut usize) -> Yaml {
    let mut c = y.clone();
    match &mut c {
        Yaml::Hash(v) => {
            for d in v.iter_mut() {
                if let HashData::Element(e) = d {
                    e.value.value = expected(&e.value.value, n);
                }
            }
        }
        Yaml::Array(v) => {
            for d in v.iter_mut() {
                if let ArrayData::Element(e) = d {
                    e.value = expected(&e.value, n);
                }
            }
        }
        Yaml::InlineHash(v) => v.iter_mut().for_each(|(_, x)| *x = expected(x, n)),
        Yaml::InlineArray(v) => v.iter_mut().for_each(|x| *x = expected(x, n)),
        _ => {}
    }
    mark(c, n)
}

fn entries<'a>(y: &'a Yaml, out: &mut Vec<&'a AliasedYaml>) {
    match y {
        Yaml::Hash(v) => {
            for d in v {
                if let HashData::Element(e) = d {
                    out.push(&e.value);
                    entries(&e.value.value, out);
                }
            }
        }
        Yaml::Array(v) => {
            for d in v {
                if let ArrayData::Element(e) = d {
                    out.push(e);
                    entries(&e.value, out);
                }
            }
        }
        Yaml::InlineHash(v) => v.iter().for_each(|(_, x)| entries(x, out)),
        Yaml::InlineArray(v) => v.iter().for_each(|x| entries(x, out)),
        _ => {}
    }
}

fn walk(y: &Yaml, ctx: &mut Ctx) -> Res {
    let same = y.clone().map_yaml(&mut |x| x);
    if same != *y {
        return viol(format!("identity {y:?}"), format!("mapping the identity over\n{y:?}\ngives\n{same:?}"));
    }
    let mut n = 0;
    let got = y.clone().map_yaml(&mut |x| mark(x, &mut n));
    let mut m = 0;
    let want = expected(y, &mut m);
    if got != want || n != m {
        return viol(
            format!("map {y:?}"),
            format!("mapping over\n{y:?}\ncalls the function {n} times instead of {m} and gives\n{got:?}\ninstead of\n{want:?}"),
        );
    }
    let mut want = Vec::new();
    entries(y, &mut want);
    let mut got: Vec<*const AliasedYaml> = Vec::new();
    y.visit_yaml(&mut |a| got.push(a as *const AliasedYaml));
    let want_ptr: Vec<*const AliasedYaml> = want.iter().map(|a| *a as *const AliasedYaml).collect();
    if got != want_ptr {
        let at = got.iter().zip(&want_ptr).take_while(|(a, b)| a == b).count();
        return viol(
            format!("visit {y:?}"),
            format!(
                "visiting\n{y:?}\ncalls the function {} times instead of {}; call {at} should be for {:?}",
                got.len(),
                want.len(),
                want.get(at)
            ),
        );
    }
    ctx.call(3);
    ctx.compared();
    ctx.state(&format!("{y:?}"));
    ctx.class(match y {
        Yaml::Hash(_) => "mapping",
        Yaml::Array(_) => "sequence",
        Yaml::InlineHash(_) => "flow mapping",
        Yaml::InlineArray(_) => "flow sequence",
        _ => "scalar",
    });
    Ok(())
}

fn space(label: &str, n: usize, leaves: &[Yaml]) -> Vec<Space> {
    trees(n, leaves)
        .into_iter()
        .enumerate()
        .skip(1)
        .map(|(size, ts)| {
            let ts = Arc::new(ts);
            let t2 = ts.clone();
            Space::new(
                format!("{label}, {size} nodes"),
                ts.len() as u64,
                move |i| format!("{:?}", t2[i as usize]),
                move |i, ctx| walk(&ts[i as usize], ctx),
            )
        })
        .collect()
}

/// a collection of one of the four kinds; the entries have these keys, anchors and runs of comments between them
fn collection(kind: usize, children: Vec<Yaml>, names: usize, comments: usize) -> Yaml {
    let n = children.len();
    let key = |i: usize| match names {
        0 => format!("k{i}"),
        1 => format!("k{}", n - i),
        2 => "k".to_string(),
        3 => format!("k{}", i % 2),
        _ => "k".repeat((i * 7) % 5 + 1),
    };
    let alias = |i: usize| match comments {
        0 => None,
        1 => (i % 2 == 0).then(|| format!("a{i}")),
        _ => Some("a".into()),
    };
    let before = |i: usize| -> Vec<String> {
        match comments {
            0 => vec![],
            1 => (0..i % 4).map(|c| format!("c{i}-{c}")).collect(),
            _ => vec!["c".into(); i % 3],
        }
    };
    match kind {
        0 => {
            let mut h = Vec::new();
            for (i, value) in children.into_iter().enumerate() {
                h.extend(before(i).into_iter().map(HashData::Comment));
                h.push(HashData::Element(HashElement { key: key(i), value: AliasedYaml { alias: alias(i), value } }));
                if comments > 0 && i % 3 == 0 {
                    h.push(HashData::InlineComment(format!("i{}", i % 2)));
                }
            }
            h.extend(before(n + 2).into_iter().map(HashData::Comment));
            Yaml::Hash(h)
        }
        1 => {
            let mut h = Vec::new();
            for (i, value) in children.into_iter().enumerate() {
                h.extend(before(i).into_iter().map(ArrayData::Comment));
                h.push(ArrayData::Element(AliasedYaml { alias: alias(i), value }));
                if comments > 0 && i % 3 == 0 {
                    h.push(ArrayData::InlineComment(format!("i{}", i % 2)));
                }
            }
            h.extend(before(n + 2).into_iter().map(ArrayData::Comment));
            Yaml::Array(h)
        }
        2 => Yaml::InlineHash(children.into_iter().enumerate().map(|(i, c)| (key(i), c)).collect()),
        _ => Yaml::InlineArray(children),
    }
}

fn small() -> Vec<Yaml> {
    let mut v = leaves();
    for kind in 0..4 {
        v.push(collection(kind, vec![], 0, 0));
        v.push(collection(kind, leaves()[..2].to_vec(), 0, 1));
    }
    v
}

fn wide(thorough: bool) -> Vec<Yaml> {
    let mut out = Vec::new();
    let counts: &[usize] = if thorough {
        &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257]
    } else {
        &[3, 4, 5, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 129]
    };
    for &n in counts {
        for kind in 0..4 {
            for names in 0..if kind % 2 == 0 { 5 } else { 1 } {
                for comments in 0..if kind < 2 { 3 } else { 1 } {
                    let mut lists: Vec<Vec<Yaml>> = small().into_iter().map(|g| vec![g; n]).collect();
                    lists.push(small().into_iter().cycle().take(n).collect());
                    for odd in small().into_iter().skip(6) {
                        for at in [0, 1, n / 2, n - 2, n - 1] {
                            lists.push((0..n).map(|i| if i == at { odd.clone() } else { leaves()[i % 6].clone() }).collect());
                        }
                    }
                    out.extend(lists.into_iter().map(|l| collection(kind, l, names, comments)));
                }
            }
        }
    }
    out
}

fn deep(thorough: bool) -> Vec<Yaml> {
    let mut out = Vec::new();
    for d in (5..=20).chain([32, 33, 64, 65, 100]) {
        for kinds in 0..4 * 4 * 4 {
            if kinds / 16 != kinds % 4 && d > 8 && !thorough {
                continue;
            }
            for shape in 0..4 {
                for leaf in if d <= 8 || thorough { small() } else { small()[4..8].to_vec() } {
                    let mut y = leaf;
                    for i in 0..d {
                        let kind = [kinds % 4, kinds / 4 % 4, kinds / 16][i % 3];
                        let side = || leaves()[i % 6].clone();
                        let children = match shape {
                            0 => vec![y],
                            1 => vec![side(), y],
                            2 => vec![y, side()],
                            _ => vec![side(), y, Yaml::Array(vec![]), side()],
                        };
                        y = collection(kind, children, i % 5, shape % 3);
                    }
                    out.push(y);
                }
            }
        }
    }
    out
}

fn listed(label: &str, ts: Vec<Yaml>) -> Space {
    let ts = Arc::new(ts);
    let t2 = ts.clone();
    Space::new(label, ts.len() as u64, move |i| format!("{:?}", t2[i as usize]), move |i, ctx| walk(&ts[i as usize], ctx))
}

fn c21(thorough: bool) -> Vec<Space> {
    let all = leaves();
    let mut s = space("all leaf kinds", if thorough { 5 } else { 4 }, &all);
    s.extend(space("one leaf kind", if thorough { 6 } else { 5 }, &all[..1]));
    s.push(listed("collections of many entries", wide(true)));
    s.push(listed("deep trees", deep(thorough)));
    s
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C21",
        rule: "a function that numbers its calls is mapped over every tree and a visitor records every entry it is given; both are compared with independent traversals",
        assumptions: &["trees are built directly, so also those that no text denotes (block collections in flow collections) are covered"],
        spaces: c21,
    }]
}
