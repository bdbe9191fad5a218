//! Values and data that are large in one way, for C16, C18 and C19
use crate::engine::*;
use crate::model::*;
use crate::serdes::{round_trip_val, values};
use crate::tys::*;
use std::sync::Arc;

pub fn counts(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (3..=13).chain([15, 16, 17, 20]).collect();
    v.extend(if thorough { vec![31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257] } else { vec![33, 65] });
    v
}

fn element_types() -> Vec<Ty> {
    let b = |t: Ty| Box::new(t);
    vec![
        Ty::I64,
        Ty::U64,
        Ty::F64,
        Ty::Bool,
        Ty::Str,
        Ty::Char,
        Ty::Unit,
        Ty::Opt(b(Ty::I64)),
        Ty::Opt(b(Ty::Str)),
        Ty::Seq(b(Ty::I64)),
        Ty::Seq(b(Ty::Str)),
        Ty::Map(Key::Str, b(Ty::I64)),
        Ty::Tuple(vec![Ty::I64, Ty::Str]),
        Ty::Struct(vec![Ty::Str, Ty::Opt(b(Ty::I64))]),
        Ty::Newtype(b(Ty::Str)),
        Ty::Enum(vec![Var::Unit, Var::Newtype(Ty::Str), Var::Tuple(vec![Ty::I64, Ty::Str]), Var::Struct(vec![Ty::I64, Ty::Seq(b(Ty::I64))])]),
    ]
}

/// sequences, maps, tuples and structs of many elements
fn wide(thorough: bool) -> Vec<(Ty, Val)> {
    let mut out = Vec::new();
    for n in counts(thorough) {
        for t in element_types() {
            let vs = values(&t, true);
            // all the same, one different from the others, different ones
            let mut lists: Vec<Vec<Val>> = vs.iter().map(|v| vec![v.clone(); n]).collect();
            lists.push((0..n).map(|i| vs[i % vs.len()].clone()).collect());
            for at in [0, 1, 2, n / 2, n - 1] {
                lists.push((0..n).map(|i| if i == at { vs[vs.len() - 1].clone() } else { vs[0].clone() }).collect());
            }
            for l in lists {
                out.push((Ty::Seq(Box::new(t.clone())), Val::Seq(l.clone())));
                let keys = (0..n).map(|i| Val::S(format!("k{i}")));
                out.push((Ty::Map(Key::Str, Box::new(t.clone())), Val::Map(keys.zip(l.iter().cloned()).collect())));
                if n <= 12 {
                    out.push((Ty::Tuple(vec![t.clone(); n]), Val::Seq(l.clone())));
                    out.push((Ty::TupleStruct(vec![t.clone(); n]), Val::Seq(l.clone())));
                }
                if n <= FIELDS.len() {
                    out.push((Ty::Struct(vec![t.clone(); n]), Val::Seq(l.clone())));
                    if n <= 12 {
                        out.push((Ty::Enum(vec![Var::Struct(vec![t.clone(); n])]), Val::Variant(0, Box::new(Val::Seq(l.clone())))));
                        out.push((Ty::Enum(vec![Var::Tuple(vec![t.clone(); n])]), Val::Variant(0, Box::new(Val::Seq(l)))));
                    }
                }
            }
        }
        if n <= VARIANTS.len() {
            for (var, v) in [
                (Var::Unit, Val::Unit),
                (Var::Newtype(Ty::Str), Val::S("a".into())),
                (Var::Tuple(vec![Ty::I64]), Val::Seq(vec![Val::I(1)])),
                (Var::Struct(vec![Ty::I64]), Val::Seq(vec![Val::I(1)])),
            ] {
                for i in 0..n {
                    let t = Ty::Enum((0..n).map(|j| if i == j { var.clone() } else { [Var::Unit, Var::Newtype(Ty::I64)][j % 2].clone() }).collect());
                    let v = Val::Variant(i, Box::new(v.clone()));
                    out.push((Ty::Seq(Box::new(t.clone())), Val::Seq(vec![v.clone(); 2])));
                    out.push((t, v));
                }
            }
        }
        // keys of other types
        out.push((Ty::Map(Key::I64, Box::new(Ty::Str)), Val::Map((0..n).map(|i| (Val::I(i as i64 * 37), Val::S(format!("v{i}")))).collect())));
    }
    out
}

const WRAPS: usize = 12;

fn wrap(kind: usize, (t, v): (Ty, Val)) -> (Ty, Val) {
    let one = Val::I(1);
    match kind {
        0 => (Ty::Seq(Box::new(t)), Val::Seq(vec![v])),
        1 => (Ty::Seq(Box::new(t)), Val::Seq(vec![v.clone(), v])),
        2 => (Ty::Map(Key::Str, Box::new(t)), Val::Map(vec![(Val::S("k".into()), v)])),
        3 => (Ty::Struct(vec![t]), Val::Seq(vec![v])),
        4 => (Ty::Struct(vec![Ty::I64, t, Ty::Str]), Val::Seq(vec![one, v, Val::S("x y".into())])),
        5 => (Ty::Tuple(vec![Ty::I64, t]), Val::Seq(vec![one, v])),
        6 => (Ty::Newtype(Box::new(t)), v),
        7 if !t.nullable() => (Ty::Opt(Box::new(t)), Val::Some(Box::new(v))),
        8 => (Ty::Enum(vec![Var::Unit, Var::Newtype(t)]), Val::Variant(1, Box::new(v))),
        9 => (Ty::Enum(vec![Var::Tuple(vec![Ty::I64, t])]), Val::Variant(0, Box::new(Val::Seq(vec![one, v])))),
        10 => (Ty::Enum(vec![Var::Unit, Var::Struct(vec![t, Ty::I64])]), Val::Variant(1, Box::new(Val::Seq(vec![v, one])))),
        _ => (Ty::TupleStruct(vec![t, Ty::Bool]), Val::Seq(vec![v, Val::Bool(true)])),
    }
}

/// types nested in each other
fn deep(thorough: bool) -> Vec<(Ty, Val)> {
    let mut out = Vec::new();
    let leaves = [
        (Ty::I64, Val::I(-7)),
        (Ty::Str, Val::S("a: b\nc".into())),
        (Ty::Str, Val::S(String::new())),
        (Ty::Opt(Box::new(Ty::I64)), Val::None),
        (Ty::Seq(Box::new(Ty::I64)), Val::Seq(vec![])),
        (Ty::Map(Key::Str, Box::new(Ty::I64)), Val::Map(vec![])),
        (Ty::Char, Val::C('\n')),
        (Ty::Enum(vec![Var::Unit]), Val::Variant(0, Box::new(Val::Unit))),
    ];
    for depth in if thorough { vec![4, 5, 6, 7, 8, 9, 10, 12, 16] } else { vec![4, 5, 6, 8, 10] } {
        for a in 0..WRAPS {
            for b in 0..WRAPS {
                for (i, leaf) in leaves.iter().enumerate() {
                    if i > 1 && depth > 6 && !thorough {
                        continue;
                    }
                    // two elements per level double the size
                    let kinds = if depth > 6 { [a, b].map(|k| if k == 1 { 0 } else { k }) } else { [a, b] };
                    out.push((0..depth).fold(leaf.clone(), |x, i| wrap(kinds[i % 2], x)));
                }
            }
        }
    }
    out
}

fn list_space(label: &str, cases: Vec<(Ty, Val)>) -> Space {
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Space::new(label, cases.len() as u64, move |i| format!("{:?}", c2[i as usize]), move |i, ctx| {
        let (t, v) = &cases[i as usize];
        ctx.class("value");
        round_trip_val(t, v, ctx)
    })
}

pub fn value_spaces(thorough: bool) -> Vec<Space> {
    vec![list_space("values of many elements", wide(thorough)), list_space("values of deep types", deep(thorough))]
}

// --------------------------------------------------------------------------------- C18

/// large trees, and the types to read them as
pub fn trees_and_types(thorough: bool) -> Vec<(V, Arc<Vec<Ty>>)> {
    let p = |s: &str| V::Plain(s.to_string());
    let mut out = Vec::new();
    for n in [2].into_iter().chain(counts(thorough)) {
        let elements: Vec<V> = vec![p("1"), p("a"), p("~"), V::Text("1".into()), p("V1"), V::Seq(vec![e(p("1")), e(p("2"))]), V::Map(vec![("f0".into(), e(p("1")))])];
        let mut tys: Vec<Ty> = Vec::new();
        let leaf = [Ty::I64, Ty::Str, Ty::Unit, Ty::Char, Ty::Bool, Ty::F64, Ty::Opt(Box::new(Ty::I64)), Ty::Seq(Box::new(Ty::I64)), Ty::Struct(vec![Ty::I64])];
        for t in leaf {
            tys.push(Ty::Enum(vec![Var::Newtype(t.clone()), Var::Newtype(t.clone())]));
            tys.push(Ty::Enum(vec![Var::Unit, Var::Newtype(Ty::Seq(Box::new(t.clone())))]));
            tys.push(Ty::Enum(vec![Var::Unit, Var::Newtype(Ty::Map(Key::Str, Box::new(t.clone())))]));
            tys.push(Ty::Opt(Box::new(Ty::Seq(Box::new(t.clone())))));
            tys.push(Ty::Seq(Box::new(t.clone())));
            tys.push(Ty::Map(Key::Str, Box::new(t.clone())));
            for k in [n - 1, n, n + 1] {
                if k <= FIELDS.len() {
                    tys.push(Ty::Tuple(vec![t.clone(); k]));
                    tys.push(Ty::TupleStruct(vec![t.clone(); k]));
                    tys.push(Ty::Struct(vec![t.clone(); k]));
                    tys.push(Ty::Enum(vec![Var::Unit, Var::Tuple(vec![t.clone(); k])]));
                    tys.push(Ty::Enum(vec![Var::Unit, Var::Struct(vec![t.clone(); k])]));
                }
            }
        }
        let tys = Arc::new(tys);
        for a in &elements {
            for b in &elements {
                for at in [0, 1, n / 2, n - 1] {
                    let l: Vec<V> = (0..n).map(|i| if i == at { b.clone() } else { a.clone() }).collect();
                    let inner = |v: V| V::Map(vec![("V1".into(), e(v))]);
                    let seq = V::Seq(l.iter().cloned().map(e).collect());
                    out.push((inner(seq.clone()), tys.clone()));
                    out.push((seq, tys.clone()));
                    if n < VARIANTS.len() {
                        // more than one variant
                        let map = |f: &dyn Fn(usize) -> usize| V::Map(l.iter().enumerate().map(|(i, v)| (VARIANTS[f(i)].to_string(), e(v.clone()))).collect());
                        out.push((map(&|i| i), tys.clone()));
                        out.push((map(&|_| 1), tys.clone()));
                        out.push((V::Map(l.iter().enumerate().map(|(i, v)| (if i == 0 { "V0".to_string() } else { format!("b{i}") }, e(v.clone()))).collect()), tys.clone()));
                    }
                    if n < FIELDS.len() {
                        let map = |f: &dyn Fn(usize) -> usize| V::Map(l.iter().enumerate().map(|(i, v)| (FIELDS[f(i)].to_string(), e(v.clone()))).collect());
                        out.push((inner(map(&|i| i)), tys.clone()));
                        out.push((map(&|i| i), tys.clone()));
                        out.push((map(&|i| n - 1 - i), tys.clone()));
                        out.push((map(&|i| if i == at { n } else { i }), tys.clone()));
                        // a repeated field
                        out.push((map(&|i| if i == at { (at + 1) % n } else { i }), tys.clone()));
                    }
                }
            }
        }
    }
    // deep
    for depth in 4..=if thorough { 24 } else { 12 } {
        for kinds in 0..16 {
            let mut v = p("1");
            let mut ty = Ty::I64;
            let mut ty2 = Ty::Opt(Box::new(Ty::I64));
            for i in 0..depth {
                match (kinds >> (i % 2 * 2)) & 3 {
                    0 => {
                        v = V::Seq(vec![e(v)]);
                        ty = Ty::Seq(Box::new(ty));
                        ty2 = Ty::Tuple(vec![ty2]);
                    }
                    1 => {
                        v = V::Map(vec![("f0".into(), e(v))]);
                        ty = Ty::Struct(vec![ty]);
                        ty2 = Ty::Map(Key::Str, Box::new(ty2));
                    }
                    2 => {
                        v = V::Map(vec![("V1".into(), e(v))]);
                        ty = Ty::Enum(vec![Var::Unit, Var::Newtype(ty)]);
                        ty2 = Ty::Opt(Box::new(Ty::Enum(vec![Var::Unit, Var::Newtype(ty2)])));
                    }
                    _ => {
                        v = V::Seq(vec![e(v), e(p("x"))]);
                        ty = Ty::Tuple(vec![ty, Ty::Str]);
                        ty2 = Ty::Newtype(Box::new(Ty::TupleStruct(vec![ty2, Ty::Str])));
                    }
                }
            }
            let wrong = Ty::Seq(Box::new(ty.clone()));
            out.push((v, Arc::new(vec![ty, ty2, wrong])));
        }
    }
    out
}

// --------------------------------------------------------------------------------- C19

/// many anchors and aliases
pub fn anchored(thorough: bool) -> Vec<G> {
    let alias = |s: String| ge(G::Alias(s));
    let pl = |s: String| G::Plain(s);
    let anchor = |s: String, g: G| GE { anchor: Some(s), g };
    let mut out = Vec::new();
    let mut seqs: Vec<Vec<GE>> = Vec::new();
    for n in counts(thorough).into_iter().chain([2]) {
        let x = |i: usize| format!("x{i}");
        let defs: Vec<GE> = (0..n).map(|i| anchor(x(i), pl(format!("v{i}")))).collect();
        // all of them used, in order, in reverse, interleaved, nested in each other
        let with = |l: Vec<GE>| [defs.clone(), l].concat();
        seqs.push(with((0..n).map(|i| alias(x(i))).collect()));
        seqs.push(with((0..n).rev().map(|i| alias(x(i))).collect()));
        seqs.push(with((0..n).flat_map(|i| [alias(x(i)), alias(x(n - 1 - i))]).collect()));
        seqs.push(with(vec![ge(G::FSeq((0..n).map(|i| G::Alias(x(i))).collect()))]));
        seqs.push((0..n).flat_map(|i| [anchor(x(i), pl(format!("v{i}"))), alias(x(i / 2)), alias(x(i))]).collect());
        // one that isn't defined yet
        for at in [0, n / 2, n - 1] {
            seqs.push((0..n).map(|i| if i == at { alias(x(n - 1)) } else { anchor(x(i), pl(format!("v{i}"))) }).collect());
            seqs.push(with(vec![alias(x(at)), alias(x(n))]));
        }
        // the same name again and again
        seqs.push((0..n).flat_map(|i| [anchor("x".into(), pl(format!("v{i}"))), alias("x".into())]).collect());
        seqs.push((0..n).map(|i| anchor(format!("x{}", i % 3), pl(format!("v{i}")))).chain((0..3).map(|i| alias(x(i)))).collect());
        // every one refers to the one before
        let mut l = vec![anchor(x(0), pl("v".into()))];
        l.extend((1..n).map(|i| anchor(x(i), G::BSeq(vec![alias(x(i - 1))]))));
        l.push(alias(x(n - 1)));
        seqs.push(l);
        let mut l = vec![anchor(x(0), pl("v".into()))];
        l.extend((1..n).map(|i| anchor(x(i), G::Alias(x(i - 1)))));
        l.push(alias(x(n - 1)));
        seqs.push(l);
        // anchors in anchors
        let mut g = pl("v".into());
        for i in 0..n.min(40) {
            g = if i % 2 == 0 { G::BSeq(vec![anchor(x(i), g), ge(pl("w".into()))]) } else { G::BMap(vec![("k".into(), anchor(x(i), g)), ("l".into(), ge(pl("w".into())))]) };
        }
        let m = n.min(40);
        if m <= 16 {
            seqs.push([vec![ge(g)], (0..m).map(|i| alias(x(i))).collect()].concat());
        } else {
            seqs.push(vec![ge(g), alias(x(0)), alias(x(1)), alias(x(m - 1))]);
        }
    }
    // doubled at every level: the billion laughs, while they are few
    for n in 2..=10 {
        let mut l = vec![anchor("x0".into(), pl("v".into()))];
        l.extend((1..n).map(|i| anchor(format!("x{i}"), G::BSeq(vec![alias(format!("x{}", i - 1)), alias(format!("x{}", i - 1))]))));
        seqs.push(l);
    }
    for l in seqs {
        out.push(G::BMap(l.iter().enumerate().map(|(i, e)| (format!("k{i}"), e.clone())).collect()));
        // spread over several collections
        let half = l.len() / 2;
        let (a, b) = l.split_at(half.max(1));
        out.push(G::BMap(vec![("a".into(), ge(G::BSeq(a.to_vec()))), ("b".into(), ge(G::BMap(b.iter().enumerate().map(|(i, e)| (format!("k{i}"), e.clone())).collect())))]));
        out.push(G::BSeq(l));
    }
    // an empty half can't be written
    out.retain(|g| !matches!(g, G::BMap(m) if matches!(&m.last().unwrap().1.g, G::BMap(b) if b.is_empty())));
    out
}
