//! C16 values, C17 strings: serialization and deserialization through every path
use crate::engine::*;
use crate::tys::*;
use crate::util::*;
use serde::de::{DeserializeOwned, DeserializeSeed, Deserialize, Deserializer};
use serde::ser::Serialize;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;
use yaml_subset::yaml::*;

pub use crate::tys::Any;

pub fn document(y: Yaml) -> Document {
    Document { leading_comments: vec![], items: vec![DocumentData::Yaml(y)] }
}

fn is_collection(y: &Yaml) -> bool {
    matches!(y, Yaml::Hash(_) | Yaml::Array(_) | Yaml::InlineHash(_) | Yaml::InlineArray(_))
}

thread_local! {
    static TY: RefCell<Option<Ty>> = const { RefCell::new(None) };
}

/// the type in `TY`
#[derive(Debug, PartialEq)]
pub struct Dyn(pub Val);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        let ty = TY.with(|t| t.borrow().clone()).expect("a type");
        Seed(&ty).deserialize(d).map(Dyn)
    }
}

/// the type in `TY`, read the way fields of untagged and internally tagged enums are: without a
/// type into a buffer, and from there as the type
#[derive(De)]
#[serde(untagged)]
enum Buffered {
    Only(Dyn),
}

/// Is there a key that isn't a string when it is read without a type? Keys have no quotes.
fn typed_key(ty: &Ty, v: &Val) -> bool {
    match (ty, v) {
        (Ty::Map(k, t), Val::Map(es)) => es.iter().any(|(key, v)| {
            let text = match key {
                Val::S(s) => s.clone(),
                Val::C(c) => c.to_string(),
                _ => return typed_key(t, v),
            };
            debug_assert!(matches!(k, Key::Str | Key::Char));
            text.parse::<f64>().is_ok() || ["true", "false", "null", "~"].contains(&&text[..]) || typed_key(t, v)
        }),
        (Ty::Seq(t), Val::Seq(vs)) => vs.iter().any(|v| typed_key(t, v)),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts), Val::Seq(vs)) => ts.iter().zip(vs).any(|(t, v)| typed_key(t, v)),
        (Ty::Opt(t), Val::Some(v)) => typed_key(t, v),
        (Ty::Newtype(t), v) => typed_key(t, v),
        (Ty::Enum(vars), Val::Variant(i, v)) => match &vars[*i] {
            Var::Unit => false,
            Var::Newtype(t) => typed_key(t, v),
            Var::Tuple(ts) | Var::Struct(ts) => typed_key(&Ty::Tuple(ts.clone()), v),
        },
        _ => false,
    }
}

pub fn with_ty<R>(ty: &Ty, f: impl FnOnce() -> R) -> R {
    TY.with(|t| *t.borrow_mut() = Some(ty.clone()));
    f()
}

/// Serializes a value and reads it back in memory and from text, as it is and prettified.
/// Every way has to give a value for which `same` holds.
pub fn round_trip<S: Serialize, T: DeserializeOwned>(
    what: &str,
    value: &S,
    same: impl Fn(&T) -> Result<(), String>,
    ctx: &mut Ctx,
) -> Res {
    let yaml = match value.serialize(YamlSerializer) {
        Ok(y) => y,
        Err(e) => return viol(format!("serialize {what}"), format!("{what}\ncan't be serialized: {e}")),
    };
    ctx.call(1);
    let pretty = yaml.clone().pretty();
    for (how, y) in [("as it is", &yaml), ("prettified", &pretty)] {
        let check = |how2: &str, text: &str, r: Result<T, YamlDeserializeError>| match r {
            Err(e) => viol(
                format!("round trip {what}"),
                format!("{what}\nserialized, {how}, {how2}, can't be deserialized: {e}\n{y:?}\n{text}"),
            ),
            Ok(v) => same(&v).map_err(|got| Violation {
                key: format!("round trip {what}"),
                msg: format!("{what}\nserialized, {how}, {how2}, is read as\n{got}\n{y:?}\n{text}"),
            }),
        };
        check("in memory", "", from_yaml::<T>(y.clone()))?;
        ctx.call(1);
        if is_collection(y) {
            let text = format(&document(y.clone()));
            ctx.call(2);
            check("as text", &text, from_yaml_str::<T>(&text))?;
            ctx.state(&text);
        }
    }
    ctx.compared();
    Ok(())
}

pub fn round_trip_val(ty: &Ty, val: &Val, ctx: &mut Ctx) -> Res {
    with_ty(ty, || {
        round_trip::<_, Dyn>(
            &format!("{val:?} of type {ty:?}"),
            &Typed(ty, val),
            |d| if d.0 == *val { Ok(()) } else { Err(format!("{:?}", d.0)) },
            ctx,
        )?;
        if typed_key(ty, val) {
            return Ok(());
        }
        round_trip::<_, Buffered>(
            &format!("{val:?} of type {ty:?}, read from self-describing data"),
            &Typed(ty, val),
            |Buffered::Only(d)| if d.0 == *val { Ok(()) } else { Err(format!("{:?}", d.0)) },
            ctx,
        )
    })
}

// --------------------------------------------------------------------------------- C16

const LEAVES: [Ty; 9] = [Ty::Bytes, Ty::Bool, Ty::I64, Ty::U64, Ty::F64, Ty::Str, Ty::Char, Ty::Unit, Ty::UnitStruct];

/// all types of exactly n constructors, by n
pub fn types(n: usize, leaves: &[Ty]) -> Vec<Vec<Ty>> {
    let mut by: Vec<Vec<Ty>> = vec![vec![]];
    for size in 1..=n {
        let mut out = Vec::new();
        if size == 1 {
            out.extend(leaves.iter().cloned());
            out.push(Ty::Struct(vec![]));
            out.push(Ty::TupleStruct(vec![]));
            out.push(Ty::Enum(vec![Var::Unit, Var::Unit]));
        } else {
            for t in &by[size - 1] {
                if !t.nullable() {
                    out.push(Ty::Opt(Box::new(t.clone())));
                }
                out.push(Ty::Seq(Box::new(t.clone())));
                out.push(Ty::Map(Key::Str, Box::new(t.clone())));
                out.push(Ty::Newtype(Box::new(t.clone())));
                out.push(Ty::Enum(vec![Var::Unit, Var::Newtype(t.clone())]));
                if size == 2 {
                    for k in [Key::I64, Key::Char, Key::Variant] {
                        out.push(Ty::Map(k, Box::new(t.clone())));
                    }
                }
            }
            for k in 1..size {
                for ts in products(k, size - 1, &by) {
                    out.push(Ty::Tuple(ts.clone()));
                    out.push(Ty::TupleStruct(ts.clone()));
                    out.push(Ty::Struct(ts.clone()));
                    out.push(Ty::Enum(vec![Var::Tuple(ts.clone()), Var::Unit]));
                    out.push(Ty::Enum(vec![Var::Struct(ts)]));
                }
            }
        }
        by.push(out);
    }
    by
}

fn products(k: usize, n: usize, by: &[Vec<Ty>]) -> Vec<Vec<Ty>> {
    if k == 0 {
        return if n == 0 { vec![vec![]] } else { vec![] };
    }
    let mut out = Vec::new();
    for first in 1..=n {
        if n - first < k - 1 {
            break;
        }
        let rest = products(k - 1, n - first, by);
        for t in &by[first] {
            for r in &rest {
                let mut v = vec![t.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

fn strs(xs: &[&str]) -> Vec<Val> {
    xs.iter().map(|s| Val::S(s.to_string())).collect()
}

/// values of a type: every leaf takes its values, with `rich` more of them
pub fn values(ty: &Ty, rich: bool) -> Vec<Val> {
    let some = |v: Vec<Val>, n: usize| if rich { v } else { v.into_iter().take(n).collect() };
    match ty {
        Ty::Bool => vec![Val::Bool(true), Val::Bool(false)],
        Ty::I8 => [0, -128].into_iter().map(Val::I).collect(),
        Ty::I64 => some([-7, 0, 42, i64::MAX, i64::MIN].into_iter().map(Val::I).collect(), 1),
        Ty::U64 => some([u64::MAX, 0].into_iter().map(Val::U).collect(), 1),
        Ty::F64 => some([-0.5, 1.0, -0.0, 1e300, 5e-324, f64::INFINITY, f64::NEG_INFINITY].into_iter().map(Val::F).collect(), 2),
        Ty::Str => some(strs(&["a", "x: y\nz", "1", "", "x, y", " s", "~", "true", "'\"\\", "a #b", "l\n", "\n", "- a", "0.5", "[", "é😀"]), 3),
        Ty::Char => some(['a', '\n', ' ', '1', '~', '\'', '"', '-', '#', '\u{a0}', 'é', '\t'].into_iter().map(Val::C).collect(), 2),
        Ty::Bytes => some(strs(&["", "a1~"]), 2),
        Ty::Unit | Ty::UnitStruct => vec![Val::Unit],
        Ty::Opt(t) => std::iter::once(Val::None).chain(values(t, rich).into_iter().map(|v| Val::Some(Box::new(v)))).collect(),
        Ty::Newtype(t) => values(t, rich),
        Ty::Seq(t) => {
            let vs = values(t, rich);
            let mut out = vec![Val::Seq(vec![])];
            for v in &vs {
                out.push(Val::Seq(vec![v.clone()]));
                out.push(Val::Seq(vec![v.clone(), vs[0].clone()]));
            }
            out.push(Val::Seq(vs.iter().rev().cloned().collect()));
            out
        }
        Ty::Map(k, t) => {
            let vs = values(t, rich);
            let keys = match k {
                Key::Str => strs(&["k", "2", "true", "null", "a b", "x-_1"]),
                Key::I64 => vec![Val::I(0), Val::I(12)],
                Key::Char => vec![Val::C('a'), Val::C('1'), Val::C('_')],
                Key::Variant => vec![Val::Variant(0, Box::new(Val::Unit)), Val::Variant(1, Box::new(Val::Unit))],
            };
            let mut out = vec![Val::Map(vec![])];
            for v in &vs {
                out.push(Val::Map(vec![(keys[0].clone(), v.clone())]));
                out.push(Val::Map(vec![(keys[1].clone(), v.clone()), (keys[0].clone(), vs[0].clone())]));
            }
            out.push(Val::Map(keys.iter().map(|k| (k.clone(), vs[0].clone())).collect()));
            out
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => product(ts, rich),
        Ty::Enum(vars) => {
            let mut out = Vec::new();
            for (i, v) in vars.iter().enumerate() {
                let contents = match v {
                    Var::Unit => vec![Val::Unit],
                    Var::Newtype(t) => values(t, rich),
                    Var::Tuple(ts) | Var::Struct(ts) => product(ts, rich),
                };
                out.extend(contents.into_iter().map(|c| Val::Variant(i, Box::new(c))));
            }
            out
        }
    }
}

fn product(ts: &[Ty], rich: bool) -> Vec<Val> {
    let mut out = vec![vec![]];
    for t in ts {
        let vs = values(t, rich);
        out = out.iter().flat_map(|p| vs.iter().map(move |v| p.iter().cloned().chain([v.clone()]).collect())).collect();
    }
    out.into_iter().map(Val::Seq).collect()
}

/// the places a value is put
fn places(ty: &Ty, val: &Val) -> Vec<(Ty, Val)> {
    let one = Val::I(1);
    vec![
        (ty.clone(), val.clone()),
        (Ty::Struct(vec![ty.clone(), Ty::I64]), Val::Seq(vec![val.clone(), one.clone()])),
        (Ty::Seq(Box::new(ty.clone())), Val::Seq(vec![val.clone(), val.clone()])),
        (Ty::Tuple(vec![ty.clone(), Ty::I64]), Val::Seq(vec![val.clone(), one.clone()])),
        (Ty::Seq(Box::new(Ty::Struct(vec![ty.clone(), Ty::I64]))), Val::Seq(vec![Val::Seq(vec![val.clone(), one])])),
        (Ty::Struct(vec![Ty::Seq(Box::new(ty.clone()))]), Val::Seq(vec![Val::Seq(vec![val.clone()])])),
    ]
}
const PLACES: u64 = 6;

fn value_space(label: String, tys: Vec<Ty>, rich: bool) -> Space {
    let cases: Vec<(Arc<Ty>, Val)> = tys
        .into_iter()
        .flat_map(|t| {
            let vs = values(&t, rich);
            let t = Arc::new(t);
            vs.into_iter().map(move |v| (t.clone(), v))
        })
        .collect();
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    let at = |cs: &[(Arc<Ty>, Val)], i: u64| {
        let (t, v) = &cs[(i / PLACES) as usize];
        places(t, v).swap_remove((i % PLACES) as usize)
    };
    Space::new(
        label,
        cases.len() as u64 * PLACES,
        move |i| format!("{:?}", at(&c2, i)),
        move |i, ctx| {
            let (t, v) = at(&cases, i);
            ctx.class(match &cases[(i / PLACES) as usize].0.as_ref() {
                Ty::Enum(_) => "enum",
                Ty::Opt(_) => "option",
                Ty::Map(..) => "map",
                Ty::Struct(_) => "struct",
                Ty::Seq(_) => "sequence",
                Ty::Tuple(_) | Ty::TupleStruct(_) => "tuple",
                _ => "scalar",
            });
            round_trip_val(&t, &v, ctx)
        },
    )
}

// types of serde_derive that need self-describing data

use serde::{Deserialize as De, Serialize as Ser};

#[derive(Ser, De, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Json {
    Null,
    Bool(bool),
    I(i64),
    U(u64),
    F(f64),
    S(String),
    L(Vec<Json>),
    M(BTreeMap<String, Json>),
}

fn jsons(n: usize) -> Vec<Vec<Json>> {
    let mut by: Vec<Vec<Json>> = vec![vec![]];
    for size in 1..=n {
        let mut out = Vec::new();
        if size == 1 {
            out.extend([Json::Null, Json::Bool(true), Json::I(-3), Json::U(u64::MAX), Json::F(2.0), Json::F(-0.5)]);
            out.extend(["a", "2", "2.0", "true", "~", "", "x: y\n", "nan", "+1", "1e5", "None", ".inf", "18446744073709551615"].map(|s| Json::S(s.into())));
        }
        for children in json_forests(size - 1, &by) {
            out.push(Json::M(children.iter().enumerate().map(|(i, c)| (format!("k{i}"), c.clone())).collect()));
            out.push(Json::L(children));
        }
        by.push(out);
    }
    by
}

fn json_forests(n: usize, by: &[Vec<Json>]) -> Vec<Vec<Json>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for first in 1..=n {
        for rest in json_forests(n - first, by) {
            for t in &by[first] {
                let mut v = vec![t.clone()];
                v.extend(rest.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

#[derive(Ser, De, PartialEq, Debug, Clone)]
struct Inner {
    n: i64,
    o: Option<String>,
}

#[derive(Ser, De, PartialEq, Debug, Clone)]
#[serde(tag = "type", rename_all = "snake_case")]
enum Internal {
    Unit,
    Fields { x: f64, y: Option<bool>, z: Vec<String> },
    Content(Inner),
    Nested { inner: Box<Internal> },
    Small { c: char, num: (i8, u64, f32), u: (), e: Option<Small>, b: Vec<u8> },
}

#[derive(Ser, De, PartialEq, Debug, Clone)]
enum Small {
    A,
    B(char),
    C { x: Option<i64> },
    D(u8, String),
}

#[derive(Ser, De, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    A,
    B(i64, String),
    C { x: Vec<char> },
    D(Option<String>),
    E(Box<Adjacent>),
}

#[derive(Ser, De, PartialEq, Debug, Clone)]
struct Flat {
    a: i64,
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    how: Internal,
}

#[derive(Ser, De, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Choice {
    Tuple(String, Vec<i64>, bool),
    Point { x: i64, y: i64 },
    Inner(Inner),
    Text(String),
}

#[derive(Ser, De, PartialEq, Debug, Clone)]
struct Defaults {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    list: Vec<Option<i64>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    text: Option<String>,
    #[serde(rename = "some key")]
    renamed: char,
    big: i128,
    huge: u128,
    small: (i8, u8, f32),
    nested: Vec<Vec<(String, Option<Choice>)>>,
}

fn derived_space<T>(label: &str, values: Vec<T>) -> Space
where
    T: Ser + DeserializeOwned + PartialEq + std::fmt::Debug + Send + Sync + Clone + 'static,
{
    let values = Arc::new(values);
    let v2 = values.clone();
    Space::new(
        label,
        values.len() as u64,
        move |i| format!("{:?}", v2[i as usize]),
        move |i, ctx| {
            let v = &values[i as usize];
            let what = format!("{v:?}");
            let eq = |w: &T, g: &T| if w == g { Ok(()) } else { Err(format!("{g:?}")) };
            ctx.class("derived");
            round_trip::<_, T>(&what, v, |g| eq(v, g), ctx)?;
            let list = vec![v.clone(), v.clone()];
            round_trip::<_, Vec<T>>(&format!("list of {what}"), &list, |g| if *g == list { Ok(()) } else { Err(format!("{g:?}")) }, ctx)?;
            let pair = (v.clone(), 1);
            round_trip::<_, (T, i32)>(&format!("pair of {what}"), &pair, |g| if *g == pair { Ok(()) } else { Err(format!("{g:?}")) }, ctx)?;
            let map: BTreeMap<String, Option<T>> = [("a".to_string(), Some(v.clone())), ("b".to_string(), Some(v.clone()))].into();
            if what.starts_with("Null") {
                return Ok(()); // the Some of a null is a null
            }
            round_trip::<_, BTreeMap<String, Option<T>>>(&format!("map of {what}"), &map, |g| if *g == map { Ok(()) } else { Err(format!("{g:?}")) }, ctx)
        },
    )
}

const TEXTS: [&str; 7] = ["a", "", "1", "~", "x: y", "l1\nl2\n", "true"];

fn inners() -> Vec<Inner> {
    let mut out = vec![Inner { n: -1, o: None }];
    out.extend(TEXTS.iter().map(|t| Inner { n: 3, o: Some(t.to_string()) }));
    out
}

fn internals() -> Vec<Internal> {
    let mut out = vec![Internal::Unit];
    out.extend(inners().into_iter().map(Internal::Content));
    for x in [1.0, -2.5, f64::INFINITY] {
        for y in [None, Some(true)] {
            out.push(Internal::Fields { x, y, z: vec![] });
            out.extend(TEXTS.iter().map(|t| Internal::Fields { x, y, z: vec![t.to_string(), "b".into()] }));
        }
    }
    for c in ['a', '7', '~', '"', ' ', '\n', '0', '-', ',', '\u{a0}'] {
        for e in [None, Some(Small::A), Some(Small::B(c)), Some(Small::C { x: None }), Some(Small::C { x: Some(0) }), Some(Small::D(255, c.to_string()))] {
            out.push(Internal::Small { c, num: (-128, u64::MAX, 0.1), u: (), e, b: vec![0, 255] });
        }
    }
    let nested: Vec<Internal> = out.iter().map(|i| Internal::Nested { inner: Box::new(i.clone()) }).collect();
    out.extend(nested);
    out
}

fn adjacents() -> Vec<Adjacent> {
    let mut out = vec![Adjacent::A, Adjacent::D(None)];
    for t in TEXTS {
        out.push(Adjacent::B(2, t.to_string()));
        out.push(Adjacent::D(Some(t.to_string())));
        out.push(Adjacent::C { x: t.chars().collect() });
    }
    for _ in 0..2 {
        let nested: Vec<Adjacent> = out.iter().map(|i| Adjacent::E(Box::new(i.clone()))).collect();
        out.extend(nested);
    }
    out
}

fn choices() -> Vec<Choice> {
    let mut out = vec![Choice::Point { x: -1, y: 2 }];
    out.extend(inners().into_iter().map(Choice::Inner));
    for t in TEXTS {
        out.push(Choice::Text(t.to_string()));
        for l in [vec![], vec![6], vec![-1, 2]] {
            out.push(Choice::Tuple(t.to_string(), l.clone(), true));
        }
    }
    out
}

fn flats() -> Vec<Flat> {
    let mut out = Vec::new();
    for inner in inners() {
        for how in internals() {
            if matches!(how, Internal::Content(_)) {
                continue; // the fields of the content are those of `inner`
            }
            out.push(Flat { a: 1, inner: inner.clone(), how: how.clone() });
        }
    }
    out
}

#[derive(Ser, De, PartialEq, Debug, Clone)]
struct Extra {
    a: i64,
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    rest: BTreeMap<String, Json>,
}

fn extras() -> Vec<Extra> {
    let js: Vec<Json> = jsons(3).into_iter().flatten().collect();
    let mut out = Vec::new();
    for inner in inners() {
        for j in &js {
            out.push(Extra { a: -1, inner: inner.clone(), rest: [("r".to_string(), j.clone()), ("s 1".to_string(), Json::Null)].into() });
        }
    }
    out
}

fn defaults() -> Vec<Defaults> {
    let mut out = Vec::new();
    for list in [vec![], vec![None], vec![Some(1), None]] {
        for text in [None, Some("t".to_string()), Some("~".to_string()), Some("x\n\ny\n".to_string())] {
            for renamed in ['c', ':', '\n', '7'] {
                for (big, huge) in [(i128::MIN, 0), (0, u128::MAX)] {
                    for nested in [vec![], vec![vec![]], vec![vec![], vec![("q".into(), None)]], choices().into_iter().map(|c| vec![("n, m".to_string(), Some(c))]).collect()] {
                        out.push(Defaults { list: list.clone(), text: text.clone(), renamed, big, huge, small: (-128, 255, 0.1), nested });
                    }
                }
            }
        }
    }
    out
}

/// strings and characters that may be taken for something else, at the leaf of every nested type
fn words_in_types(thorough: bool) -> Space {
    fn put(v: &Val, from: &Val, to: &Val) -> Val {
        if v == from {
            return to.clone();
        }
        match v {
            Val::Some(v) => Val::Some(Box::new(put(v, from, to))),
            Val::Seq(l) => Val::Seq(l.iter().map(|v| put(v, from, to)).collect()),
            Val::Map(l) => Val::Map(l.iter().map(|(k, v)| (k.clone(), put(v, from, to))).collect()),
            Val::Variant(i, v) => Val::Variant(*i, Box::new(put(v, from, to))),
            v => v.clone(),
        }
    }
    let mut out: Vec<(Ty, Val, Vec<Val>)> = Vec::new();
    let mut add = |leaf: Ty, mark: Val, words: Vec<Val>| {
        for ts in types(if thorough { 4 } else { 3 }, &[leaf]) {
            for t in ts {
                let mut vs = values(&t, false);
                // only those with the word everywhere
                vs.retain(|v| {
                    let a = put(v, &mark, &Val::Unit);
                    a != *v && put(&a, &Val::Unit, &mark) == *v && !format!("{a:?}").contains(if matches!(mark, Val::S(_)) { "S(\"x: y" } else { "C('\\n')" })
                });
                out.extend(vs.into_iter().map(|v| (t.clone(), v, words.clone())));
            }
        }
    };
    let plain = words_alone();
    add(Ty::Str, Val::S("a".into()), plain.iter().map(|w| Val::S(w.to_string())).collect());
    let chars: Vec<char> = (32..127u8).map(char::from).chain("\t\n\r\u{a0}\u{2028}\u{2029}\u{feff}\u{85}éß日😀\u{300}\u{200b}".chars()).collect();
    add(Ty::Char, Val::C('a'), chars.into_iter().map(Val::C).collect());
    let cases: Vec<(Ty, Val)> = out
        .into_iter()
        .flat_map(|(t, v, ws)| {
            let from = if matches!(ws[0], Val::S(_)) { Val::S("a".into()) } else { Val::C('a') };
            ws.into_iter().map(move |w| (t.clone(), put(&v, &from, &w))).collect::<Vec<_>>()
        })
        .collect();
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Space::new("words and characters in types", cases.len() as u64, move |i| format!("{:?}", c2[i as usize]), move |i, ctx| {
        let (t, v) = &cases[i as usize];
        ctx.class("value");
        round_trip_val(t, v, ctx)
    })
}

fn c16(thorough: bool) -> Vec<Space> {
    let mut out = Vec::new();
    for (n, tys) in types(3, &LEAVES).into_iter().enumerate().skip(1) {
        out.push(value_space(format!("types of size {n}, many values"), tys, true));
    }
    out.push(value_space("types of size 4".into(), types(4, &LEAVES).swap_remove(4), false));
    if thorough {
        let tys = types(5, &[Ty::Str]).swap_remove(5);
        for (k, part) in tys.chunks(tys.len() / 8 + 1).enumerate() {
            out.push(value_space(format!("types of size 5 with strings, part {k}"), part.to_vec(), false));
        }
        let tys = types(4, &[Ty::Str, Ty::Opt(Box::new(Ty::Char)), Ty::F64]).swap_remove(4);
        for (k, part) in tys.chunks(tys.len() / 8 + 1).enumerate() {
            out.push(value_space(format!("types of size 4, many values, part {k}"), part.to_vec(), true));
        }
    }
    for (n, js) in jsons(if thorough { 5 } else { 4 }).into_iter().enumerate().skip(1) {
        out.push(derived_space(&format!("untagged trees of {n} nodes"), js));
    }
    out.extend(crate::sizes::value_spaces(thorough));
    out.push(words_in_types(thorough));
    out.push(derived_space("internally tagged", internals()));
    out.push(derived_space("adjacently tagged", adjacents()));
    out.push(derived_space("untagged", choices()));
    out.push(derived_space("flattened", flats()));
    out.push(derived_space("flattened with the rest in a map", extras()));
    out.push(derived_space("defaults", defaults()));
    out
}

// --------------------------------------------------------------------------------- C17

/// a document with the string in every kind of place
fn string_places(s: &str) -> (Ty, Val) {
    let t = || Ty::Str;
    let v = || Val::S(s.to_string());
    let seq = |t: Ty| Ty::Seq(Box::new(t));
    let fields: Vec<(Ty, Val)> = vec![
        (seq(t()), Val::Seq(vec![v(), v()])),
        (t(), v()),
        (Ty::Opt(Box::new(t())), Val::Some(Box::new(v()))),
        (Ty::Tuple(vec![t(), Ty::I64]), Val::Seq(vec![v(), Val::I(1)])),
        (seq(seq(t())), Val::Seq(vec![Val::Seq(vec![v(), v()]), Val::Seq(vec![v()])])),
        (seq(Ty::Struct(vec![t(), t()])), Val::Seq(vec![Val::Seq(vec![v(), v()])])),
        (Ty::Map(Key::Str, Box::new(t())), Val::Map(vec![(Val::S("k".into()), v()), (Val::S("l".into()), v())])),
        (Ty::Tuple(vec![Ty::Struct(vec![t(), t()]), seq(t())]), Val::Seq(vec![Val::Seq(vec![v(), v()]), Val::Seq(vec![v()])])),
        (Ty::Enum(vec![Var::Newtype(t())]), Val::Variant(0, Box::new(v()))),
        (seq(seq(seq(t()))), Val::Seq(vec![Val::Seq(vec![Val::Seq(vec![v()])])])),
        (t(), v()),
    ];
    let (ts, vs) = fields.into_iter().unzip();
    (Ty::Struct(ts), Val::Seq(vs))
}

/// what reading without a type gives
fn as_any(ty: &Ty, v: &Val) -> Any {
    let tuple = |ts: &[Ty], vs: &Val| match vs {
        Val::Seq(vs) => ts.iter().zip(vs).map(|(t, v)| as_any(t, v)).collect::<Vec<_>>(),
        _ => unreachable!(),
    };
    match (ty, v) {
        (Ty::Str, Val::S(s)) => Any::S(s.clone()),
        (Ty::I64, Val::I(i)) => Any::I(*i),
        (Ty::Opt(t), Val::Some(v)) => as_any(t, v),
        (Ty::Seq(t), Val::Seq(vs)) => Any::Seq(vs.iter().map(|v| as_any(t, v)).collect()),
        (Ty::Tuple(ts), v) => Any::Seq(tuple(ts, v)),
        (Ty::Struct(ts), v) => Any::Map(tuple(ts, v).into_iter().enumerate().map(|(i, a)| (FIELDS[i].to_string(), a)).collect()),
        (Ty::Map(_, t), Val::Map(es)) => Any::Map(
            es.iter()
                .map(|(k, v)| match k {
                    Val::S(k) => (k.clone(), as_any(t, v)),
                    _ => unreachable!(),
                })
                .collect(),
        ),
        (Ty::Enum(vs), Val::Variant(i, v)) => match &vs[*i] {
            Var::Newtype(t) => Any::Map(vec![(VARIANTS[*i].to_string(), as_any(t, v))]),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

fn string(s: &str, ctx: &mut Ctx) -> Res {
    let (ty, val) = string_places(s);
    round_trip_val(&ty, &val, ctx)?;
    let want = as_any(&ty, &val);
    round_trip::<_, Any>(
        &format!("{s:?}, read without a type,"),
        &Typed(&ty, &val),
        |got| if *got == want { Ok(()) } else { Err(format!("{got:?}")) },
        ctx,
    )?;
    let list = vec![s.to_string()];
    round_trip::<_, Vec<String>>(&format!("list of {s:?}"), &list, |g| if *g == list { Ok(()) } else { Err(format!("{g:?}")) }, ctx)?;
    ctx.class(if s.contains('\n') { "several lines" } else { "one line" });
    if s.chars().count() == 1 {
        let c = s.chars().next().unwrap();
        let val = (c, vec![c], [Some(c)]);
        round_trip::<_, (char, Vec<char>, [Option<char>; 1])>(&format!("character {s:?}"), &val, |g| if *g == val { Ok(()) } else { Err(format!("{g:?}")) }, ctx)?;
    }
    Ok(())
}

fn key(s: &str, ctx: &mut Ctx) -> Res {
    let inner: BTreeMap<String, i64> = [(s.to_string(), 1)].into();
    let val = (inner.clone(), vec![inner.clone()], [("n".to_string(), inner)].into());
    type Keys = (BTreeMap<String, i64>, Vec<BTreeMap<String, i64>>, BTreeMap<String, BTreeMap<String, i64>>);
    let simple = s.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')
        && s.chars().all(|c| c.is_ascii_alphanumeric() || "_- ".contains(c))
        && !s.ends_with(' ');
    ctx.call(1);
    if val.serialize(YamlSerializer).is_err() {
        ctx.class("not a key");
        return match simple {
            true => viol(format!("key {s:?}"), format!("{s:?} can't be serialized as a key")),
            false => Ok(()),
        };
    }
    ctx.class("key");
    let val: Keys = val;
    round_trip::<_, Keys>(&format!("key {s:?}"), &val, |g| if *g == val { Ok(()) } else { Err(format!("{g:?}")) }, ctx)?;
    let block = [("outer".to_string(), val.1)].into();
    round_trip::<_, BTreeMap<String, Vec<BTreeMap<String, i64>>>>(&format!("key in a block {s:?}"), &block, |g| if *g == block { Ok(()) } else { Err(format!("{g:?}")) }, ctx)
}

const CHARS: &[&str] = &[
    "a", " ", "\n", "1", "\"", "'", "\\", ":", "#", "-", "?", "[", "]", "{", "}", ",", "&", "*", "!", "|", ">", "%", "@", "`", "~", ".", "_", "=", "<", "/",
    "\t", "\r", "é", "\u{a0}", "😀", "\u{2028}", "\u{feff}", "e", "+", "(",
];

/// the characters that matter most, for longer strings
const FEW: &[&str] = &["a", " ", "\n", "\"", "'", "\\", ":", "#", "-", ",", "[", "}", "|", "1", "\t", "*"];
const FEWER: &[&str] = &["a", " ", "\n", "'", "\\", ":", "#", "-", ","];

fn words_alone() -> Vec<&'static str> {
    vec![
        "true", "false", "True", "yes", "No", "on", "off", "null", "Null", "NULL", "~", "None", "1", "-1", "+1", "1.5", ".5", "5.", "1e3", "-1E-3", "0x1F", "0o7", "1_000", "inf", "-inf", "Infinity",
        "nan", "NaN", ".inf", ".nan", "9223372036854775808", "18446744073709551616", "1:30", "2001-01-01", "---", "...", "- a", "-a", "? a", "?", ":", ": a", "a: b", "a:b", "a:", "a #b", "#a", "a#b", "&a",
        "&a b", "*a", "!t", "!!str a", "%YAML", "@a", "`a`", "|", "|-", ">", ">+", "| a", "[a]", "[a", "a]", "{a}", "{a: b}", "}", "a, b", ",", "'a'", "'", "''", "\"a\"", "\"", "\\", "\\n", "a\\", "\\\"",
        "k: [1, 2]", "=", "<<", "a\tb", "\ta", "a\t", "é: ü", "\u{a0}", "a\u{a0}#b", "V0", "f0",
    ]
}

fn words() -> Vec<String> {
    let words = words_alone();
    let contexts: [(&str, &str); 22] = [
        ("", ""), (" ", ""), ("", " "), ("", "\n"), ("\n", ""), ("", "\n\n"), ("x ", ""), ("", " x"), ("x\n", ""), ("", "\nx"), ("x\n ", ""), ("", "\n x"), ("x\n\n  ", "\n"), ("", ":"), ("", ": x"), ("x: ", ""), ("\"", "\""), ("'", "'"), ("- ", ""),
        ("", " # x"), ("", ", x"), ("", "\r\n"),
    ];
    let mut out = Vec::new();
    for w in &words {
        for (a, b) in contexts {
            out.push(format!("{a}{w}{b}"));
        }
    }
    for w in &words {
        for v in &words {
            out.push(format!("{w}\n{v}"));
            out.push(format!("{w} {v}"));
        }
    }
    out
}

fn long() -> Vec<String> {
    let mut out = Vec::new();
    for total in (80..=100).chain([180, 181, 200, 300]) {
        for word in [3, 9, 40, 88, 89, 90, 91, 100] {
            for sep in [" ", "  ", ", ", ": ", " #", "\n", " \n ", "\\ ", "' ", "\" ", "\t", "\u{a0}"] {
                let mut s = String::new();
                while s.chars().count() < total {
                    if !s.is_empty() {
                        s.push_str(sep);
                    }
                    s.push_str(&"w".repeat(word.min(total - s.chars().count().min(total - 1))));
                }
                for (a, b) in [("", ""), ("", "\n"), ("", "\n\n"), ("", " "), (" ", ""), ("\n", ""), ("x: ", ""), ("- ", "\n"), ("'", "'"), ("1 ", ",")] {
                    out.push(format!("{a}{s}{b}"));
                }
            }
        }
    }
    out
}

/// the same character again and again
fn repeated(thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let counts: Vec<usize> = (3..=20).chain(if thorough { vec![31, 32, 33, 40, 63, 64, 65, 79, 80, 81, 100, 119, 120, 121, 127, 128, 129, 255, 256, 257, 1000] } else { vec![33, 65, 80, 129] }).collect();
    for n in counts {
        for c in CHARS {
            let r = c.repeat(n);
            for (a, b) in [("", ""), ("a", ""), ("", "a"), ("a", "b"), ("a ", " b"), ("a\n", "b"), ("a", "\nb"), ("a\n", "\n"), ("'", ""), ("\"", "\"")] {
                out.push(format!("{a}{r}{b}"));
            }
            for d in ["a", " ", "\n", "ab cd "] {
                out.push(format!("{d}{c}").repeat(n));
                out.push(format!("{c}{d}").repeat(n));
            }
        }
    }
    out
}

fn c17(thorough: bool) -> Vec<Space> {
    let mut out = token_spaces("strings", &[""], CHARS, if thorough { 4 } else { 3 }, string);
    out.extend(token_spaces("strings of few characters", &[""], FEW, if thorough { 5 } else { 4 }, string).into_iter().skip(4));
    if thorough {
        out.extend(token_spaces("strings of fewer characters", &[""], FEWER, 6, string).into_iter().skip(6));
    }
    out.push(text_space("words in contexts", words(), string));
    out.push(text_space("long strings", long(), string));
    out.push(text_space("repeated characters", repeated(thorough), string));
    out.extend(token_spaces("keys", &[""], CHARS, if thorough { 4 } else { 3 }, key));
    out.push(text_space("words as keys", words(), key));
    out.push(text_space("repeated characters as keys", repeated(thorough), key));
    out
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C16",
        rule: "every value of every type of the bound is serialized in 6 places, and read back in memory and from text, as it is and prettified; all four have to be equal to the value",
        assumptions: &[
            "options of types that are null themselves are excluded, their Some(null) is written as null",
            "a scalar can't be a document, so at the root it is only read back in memory",
            "the names of the fields and variants can be written as keys (see C17 for those that can't)",
        ],
        spaces: c16,
    },
    Property {
        id: "C17",
        rule: "every string is serialized in 14 places of one value, and read back in memory and from text, as it is and prettified, as its type and without one; as a key it is an error or read back, and simple keys are no error",
        assumptions: &["control characters other than newline, carriage return and tab are excluded"],
        spaces: c17,
    }]
}
