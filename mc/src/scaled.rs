//! Documents that are large in one way: many entries, deep, long scalars, long names
use crate::engine::*;
use crate::layouts::layouts;
use crate::model::*;
use crate::text::{block_leaves, flow_leaves, tree_space};

/// collections of many entries: all the same, or one of them different from the others
pub fn trees_wide(thorough: bool) -> Vec<G> {
    let counts: &[usize] = if thorough {
        &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24, 32, 33, 64, 65, 100]
    } else {
        &[4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33]
    };
    let nested = |flow: bool| {
        let mut v = vec![G::FMap(vec![(String::new(), plain())]), G::FSeq(vec![plain(), plain()])];
        if !flow {
            v.push(G::BMap(vec![(String::new(), ge(plain()))]));
            v.push(G::BMap(vec![(String::new(), ge(plain())), (String::new(), ge(plain()))]));
            v.push(G::BSeq(vec![ge(plain()), ge(plain())]));
        }
        v
    };
    let mut out = Vec::new();
    for &n in counts {
        for kind in 0..4 {
            let flow = kind >= 2;
            let leaves = if flow { flow_leaves() } else { block_leaves() };
            let mut lists: Vec<Vec<G>> = leaves.iter().map(|l| vec![l.clone(); n]).collect();
            lists.extend(nested(flow).into_iter().map(|g| vec![g; n]));
            for odd in leaves.into_iter().skip(1).chain(nested(flow)) {
                for at in 0..n {
                    if thorough && n <= 20 || at < 3 || at + 3 >= n || at == n / 2 || at == 10 {
                        lists.push((0..n).map(|i| if i == at { odd.clone() } else { plain() }).collect());
                    }
                }
            }
            for l in lists {
                let g = match kind {
                    0 => G::BMap(l.into_iter().map(|g| (String::new(), ge(g))).collect()),
                    1 => G::BSeq(l.into_iter().map(ge).collect()),
                    2 => G::FMap(l.into_iter().map(|g| (String::new(), g)).collect()),
                    _ => G::FSeq(l),
                };
                // on its own and between neighbours
                if !flow {
                    out.push(g.clone());
                }
                out.push(G::BMap(vec![(String::new(), ge(plain())), (String::new(), ge(g)), (String::new(), ge(plain()))]));
            }
        }
    }
    // sequences in sequences: the ones that are short enough are written on one line
    for n in (2..=34).chain(if thorough { 35..=64 } else { 45..=46 }) {
        for w in ["a", "bc", "\u{e9}", "'"] {
            let leaf = || if w == "'" { G::Quoted('"', "x, y".into(), "x, y".into()) } else { pl(w) };
            let seq = || G::BSeq((0..n).map(|_| ge(leaf())).collect());
            let flow = || G::FSeq((0..n).map(|_| leaf()).collect());
            let counted = || G::BSeq((0..n).map(|i| ge(pl(&format!("{i}")))).collect());
            for g in [
                G::BSeq(vec![ge(seq()), ge(seq())]),
                G::BSeq(vec![ge(counted()), ge(pl("z")), ge(flow())]),
                G::BSeq(vec![ge(G::BSeq(vec![ge(seq()), ge(pl("z"))]))]),
                G::BSeq(vec![ge(G::FSeq(vec![flow(), leaf(), flow()]))]),
                G::BSeq(vec![GE { anchor: Some("p".into()), g: counted() }, ge(G::BMap(vec![("k".into(), ge(G::BSeq(vec![ge(counted())])))]))]),
            ] {
                out.push(G::BMap(vec![("k".into(), ge(g))]));
            }
        }
    }
    out.iter_mut().for_each(|g| label(g, &mut 0));
    out
}

/// what a link of a chain puts around the rest of the chain
pub const LINKS: usize = 9;
fn link(kind: usize, g: G) -> G {
    let k = String::new;
    // only flow collections go into flow collections
    let kind = if kind >= 6 && matches!(g, G::BMap(_) | G::BSeq(_) | G::Block(..)) { kind % 6 } else { kind };
    match kind {
        0 => G::BMap(vec![(k(), ge(g))]),
        1 => G::BMap(vec![(k(), ge(plain())), (k(), ge(g))]),
        2 => G::BMap(vec![(k(), ge(g)), (k(), ge(plain()))]),
        3 => G::BSeq(vec![ge(g)]),
        4 => G::BSeq(vec![ge(plain()), ge(g)]),
        5 => G::BSeq(vec![ge(g), ge(plain())]),
        6 => G::FMap(vec![(k(), g)]),
        7 => G::FSeq(vec![g]),
        _ => G::FSeq(vec![g, plain()]),
    }
}

/// a chain of nested collections whose kinds repeat; the inner `flow` ones may be flow collections
pub fn chain(kinds: &[usize], depth: usize, flow: usize, leaf: G) -> G {
    let mut g = leaf;
    for i in (0..depth).rev() {
        let k = kinds[i % kinds.len()];
        g = link(if depth - i > flow && k >= 6 { k % 6 } else { k }, g);
    }
    g
}

pub fn trees_chain(thorough: bool) -> Vec<G> {
    let depths: &[usize] = if thorough {
        &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24, 32]
    } else {
        &[5, 6, 7, 8, 9, 10, 12, 16]
    };
    let mut out = Vec::new();
    for &d in depths {
        for a in 0..LINKS {
            for b in 0..LINKS {
                for (i, leaf) in block_leaves().into_iter().enumerate() {
                    if i == 0 || thorough || a == b || b == 0 || b == 3 {
                        out.push(chain(&[a, b], d, d / 2, leaf));
                    }
                }
            }
        }
        if thorough && d <= 12 {
            for t in 0..6 * 6 * 6 {
                out.push(chain(&[t % 6, t / 6 % 6, t / 36], d, 0, plain()));
            }
        }
    }
    out.sort_by_cached_key(|g| format!("{g:?}"));
    out.dedup();
    out.iter_mut().for_each(|g| label(g, &mut 0));
    out
}

fn pl(s: &str) -> G {
    G::Plain(s.into())
}

/// long scalars and scalars of many lines
pub fn trees_long(thorough: bool) -> Vec<G> {
    let counts: &[usize] = if thorough {
        &[2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 79, 80, 81, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1024]
    } else {
        &[2, 3, 4, 5, 8, 10, 11, 16, 17, 33, 65, 80, 81, 129, 257]
    };
    let mut leaves = Vec::new();
    for &n in counts {
        for word in ["a", "a ", "é", "ab cd", "a: b", "a#", "\u{1f600}"] {
            let mut s = word.repeat(n);
            s.push('z');
            if word != "a: b" {
                leaves.push(G::Plain(s.clone()));
            }
            leaves.push(G::Quoted('"', s.clone(), s.clone()));
            leaves.push(G::Quoted('\'', s.clone(), s.clone()));
            for folded in [false, true] {
                leaves.push(G::Block(folded, Chomp::Clip, false, vec![s.clone()]));
                leaves.push(G::Block(folded, Chomp::Strip, true, vec![s.clone(), s.clone()]));
            }
        }
        for (raw, text) in [("''", "'"), ("\"", "\"")] {
            leaves.push(G::Quoted('\'', raw.repeat(n), text.repeat(n)));
        }
        for (raw, text) in [("\\\"", "\""), ("\\\\", "\\"), ("\\t", "\t"), ("'", "'")] {
            leaves.push(G::Quoted('"', raw.repeat(n), text.repeat(n)));
        }
        let n = n.min(130);
        for lines in [vec!["a"], vec!["a", ""], vec!["# a"], vec!["k: v", "- x"], vec!["a", "", "", "b"]] {
            let all: Vec<String> = (0..n).flat_map(|_| lines.iter().map(|l| l.to_string())).chain(["z".to_string()]).collect();
            for folded in [false, true] {
                for c in [Chomp::Clip, Chomp::Strip] {
                    leaves.push(G::Block(folded, c, false, all.clone()));
                }
            }
        }
        // blank lines in the middle
        let mut gap = vec![String::new(); n];
        gap.insert(0, "a".into());
        gap.push("b".into());
        for folded in [false, true] {
            leaves.push(G::Block(folded, Chomp::Clip, false, gap.clone()));
        }
    }
    let mut out = Vec::new();
    for l in leaves {
        let flow = !matches!(l, G::Block(..));
        out.push(G::BMap(vec![("k".into(), ge(l.clone())), ("l".into(), ge(pl("v")))]));
        out.push(G::BMap(vec![("k".into(), ge(G::BSeq(vec![ge(pl("v")), ge(l.clone())])))]));
        if flow {
            out.push(G::BMap(vec![("k".into(), ge(G::FSeq(vec![l.clone(), pl("v")]))), ("l".into(), ge(G::FMap(vec![("m".into(), l)])))]));
        }
    }
    out
}

/// keys and anchors with long names
pub fn trees_names(thorough: bool) -> Vec<G> {
    let mut out = Vec::new();
    for n in (2..=(if thorough { 300 } else { 70 })).chain([127, 128, 129, 255, 256, 257, 1000]) {
        for word in ["a", "é", "a-", "_", "1", "a b"] {
            let name = word.repeat(n);
            // names of anchors have letters, digits and underscores
            let anchors = !word.contains([' ', '-']);
            let e = |g| GE { anchor: anchors.then(|| name.clone()), g };
            let v = || pl("v");
            out.push(G::BMap(vec![
                (name.clone(), e(v())),
                ("x".into(), ge(G::BMap(vec![(name.clone(), e(G::BSeq(vec![e(v()), ge(v())])))]))),
                ("y".into(), ge(G::FMap(vec![(name.clone(), v()), ("z".into(), G::FSeq(vec![v()]))]))),
            ]));
            if anchors {
                out.push(G::BMap(vec![("k".into(), ge(G::BSeq(vec![ge(G::BSeq(vec![e(v()), ge(v())])), e(G::BSeq(vec![e(v())])), ge(G::BMap(vec![("l".into(), e(v()))]))])))]));
                out.push(G::BMap(vec![("k".into(), ge(G::Alias(name.clone()))), ("l".into(), ge(G::FSeq(vec![G::Alias(name)])))]));
            }
        }
    }
    out
}

/// all of them in all layouts
pub fn scaled(thorough: bool, run: fn(&G, &Layout, &mut Ctx) -> Res) -> Vec<Space> {
    let l1 = layouts(1);
    vec![
        tree_space("collections of many entries x layouts", trees_wide(thorough), l1.clone(), run),
        tree_space("chains of nested collections x layouts", trees_chain(thorough), l1.clone(), run),
        tree_space("long scalars x layouts", trees_long(thorough), l1.clone(), run),
        tree_space("long names x layouts", trees_names(thorough), l1, run),
    ]
}
