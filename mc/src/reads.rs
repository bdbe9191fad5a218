//! C18 typed reading, C19 aliases, C20 numbers
use crate::engine::*;
use crate::layouts::layouts;
use crate::model::*;
use crate::serdes::*;
use crate::tys::*;
use crate::util::*;
use serde::de::DeserializeOwned;
use serde::ser::Serialize;
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::Arc;
use yaml_subset::yaml::*;

// ---------------------------------------------------------------- what a value denotes

fn is_null(v: &V) -> bool {
    matches!(v, V::Plain(s) if ["~", "null", "Null", "NULL"].contains(&&s[..]))
}

fn text_of(v: &V) -> Option<&str> {
    match v {
        V::Plain(s) | V::Text(s) => Some(s),
        _ => None,
    }
}

/// sign and decimal digits; None if it isn't an integer or too large for any type
fn int(s: &str) -> Option<i128> {
    let (neg, digits) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut n: i128 = 0;
    for b in digits.bytes() {
        n = n.checked_mul(10)?.checked_add((b - b'0') as i128)?;
    }
    Some(if neg { -n } else { n })
}

fn is_float(s: &str) -> bool {
    let s = s.strip_prefix(['-', '+']).unwrap_or(s);
    if ["inf", "infinity", "nan"].contains(&&s.to_ascii_lowercase()[..]) {
        return true;
    }
    let (mantissa, exponent) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let digits = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
    let mantissa_ok = match mantissa.split_once('.') {
        Some((a, b)) => digits(a) && digits(b) && !(a.is_empty() && b.is_empty()),
        None => digits(mantissa) && !mantissa.is_empty(),
    };
    let exponent_ok = exponent.map_or(true, |e| {
        let e = e.strip_prefix(['-', '+']).unwrap_or(e);
        !e.is_empty() && digits(e)
    });
    mantissa_ok && exponent_ok
}

fn float(s: &str) -> Option<f64> {
    is_float(s).then(|| s.parse().expect("a float"))
}

/// what a resolved value is as a value of the type, None if it isn't one
pub fn read(ty: &Ty, v: &V) -> Option<Val> {
    let within = |lo: i128, hi: i128| text_of(v).and_then(int).filter(|i| (lo..=hi).contains(i));
    let seq = || match v {
        V::Seq(es) => Some(es.iter().map(|e| &e.v).collect::<Vec<_>>()),
        _ => None,
    };
    match ty {
        Ty::Bool => match v {
            V::Plain(s) if ["true", "True", "TRUE", "yes", "Yes", "YES", "on", "On", "ON"].contains(&&s[..]) => Some(Val::Bool(true)),
            V::Plain(s) if ["false", "False", "FALSE", "no", "No", "NO", "off", "Off", "OFF"].contains(&&s[..]) => Some(Val::Bool(false)),
            _ => None,
        },
        Ty::I8 => within(-128, 127).map(|i| Val::I(i as i64)),
        Ty::I64 => within(i64::MIN as i128, i64::MAX as i128).map(|i| Val::I(i as i64)),
        Ty::U64 => within(0, u64::MAX as i128).map(|i| Val::U(i as u64)),
        Ty::F64 => text_of(v).and_then(float).map(Val::F),
        Ty::Str => text_of(v).map(|s| Val::S(s.to_string())),
        Ty::Char => {
            let mut cs = text_of(v)?.chars();
            cs.next().filter(|_| cs.next().is_none()).map(Val::C)
        }
        Ty::Bytes => {
            let bytes: Option<Vec<u8>> = seq()?.into_iter().map(|v| text_of(v).and_then(int).and_then(|i| u8::try_from(i).ok())).collect();
            String::from_utf8(bytes?).ok().map(Val::S)
        }
        Ty::Unit | Ty::UnitStruct => is_null(v).then_some(Val::Unit),
        Ty::Opt(_) if is_null(v) => Some(Val::None),
        Ty::Opt(t) => read(t, v).map(|v| Val::Some(Box::new(v))),
        Ty::Newtype(t) => read(t, v),
        Ty::Seq(t) => seq()?.into_iter().map(|v| read(t, v)).collect::<Option<Vec<_>>>().map(Val::Seq),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => read_tuple(ts, v),
        Ty::Struct(ts) => read_fields(ts, v),
        Ty::Map(k, t) => match v {
            V::Map(es) => {
                let kt = Ty::key(*k);
                es.iter().map(|(k, e)| Some((read(&kt, &V::Plain(k.clone()))?, read(t, &e.v)?))).collect::<Option<Vec<_>>>().map(Val::Map)
            }
            _ => None,
        },
        Ty::Enum(vars) => {
            let find = |s: &str| VARIANTS[..vars.len()].iter().position(|n| *n == s);
            match v {
                V::Plain(s) | V::Text(s) => find(s).filter(|i| vars[*i] == Var::Unit).map(|i| Val::Variant(i, Box::new(Val::Unit))),
                V::Map(es) if es.len() == 1 => {
                    let i = find(&es[0].0)?;
                    let c = &es[0].1.v;
                    let c = match &vars[i] {
                        Var::Unit => is_null(c).then_some(Val::Unit),
                        Var::Newtype(t) => read(t, c),
                        Var::Tuple(ts) => read_tuple(ts, c),
                        Var::Struct(ts) => read_fields(ts, c),
                    };
                    c.map(|c| Val::Variant(i, Box::new(c)))
                }
                _ => None,
            }
        }
    }
}

fn read_tuple(ts: &[Ty], v: &V) -> Option<Val> {
    match v {
        V::Seq(es) if es.len() == ts.len() => ts.iter().zip(es).map(|(t, e)| read(t, &e.v)).collect::<Option<Vec<_>>>().map(Val::Seq),
        _ => None,
    }
}

fn read_fields(ts: &[Ty], v: &V) -> Option<Val> {
    let V::Map(es) = v else { return None };
    let mut out = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        if es.iter().filter(|e| e.0 == FIELDS[i]).count() > 1 {
            return None;
        }
        out.push(match es.iter().find(|e| e.0 == FIELDS[i]) {
            Some((_, e)) => read(t, &e.v)?,
            None if matches!(t, Ty::Opt(_)) => Val::None,
            None => return None,
        });
    }
    Some(Val::Seq(out))
}

/// what reading without a type gives, None for an undefined alias
pub fn untyped(v: &V, env: &mut HashMap<String, Any>) -> Option<Any> {
    match v {
        V::Plain(s) => Some(if is_null(v) {
            Any::Unit
        } else if s == "true" || s == "false" {
            Any::Bool(s == "true")
        } else if let Some(i) = int(s).and_then(|i| i64::try_from(i).ok()) {
            Any::I(i)
        } else if let Some(u) = int(s).and_then(|i| u64::try_from(i).ok()) {
            Any::U(u)
        } else if let Some(f) = float(s) {
            Any::F(f)
        } else {
            Any::S(s.clone())
        }),
        V::Text(s) => Some(Any::S(s.clone())),
        V::Alias(a) => env.get(a).cloned(),
        V::Seq(es) => es.iter().map(|e| entry(e, env)).collect::<Option<Vec<_>>>().map(Any::Seq),
        V::Map(es) => es.iter().map(|(k, e)| Some((k.clone(), entry(e, env)?))).collect::<Option<Vec<_>>>().map(Any::Map),
    }
}

fn entry(e: &E, env: &mut HashMap<String, Any>) -> Option<Any> {
    let v = untyped(&e.v, env)?;
    if let Some(a) = &e.anchor {
        env.insert(a.clone(), v.clone());
    }
    Some(v)
}

fn same_val(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
        (Val::Some(x), Val::Some(y)) => same_val(x, y),
        (Val::Seq(x), Val::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_val(x, y)),
        (Val::Variant(i, x), Val::Variant(j, y)) => i == j && same_val(x, y),
        (x, y) => x == y,
    }
}

fn same_any(a: &Any, b: &Any) -> bool {
    match (a, b) {
        (Any::F(x), Any::F(y)) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
        (Any::Seq(x), Any::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_any(x, y)),
        (Any::Map(x), Any::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.0 == y.0 && same_any(&x.1, &y.1)),
        (x, y) => x == y,
    }
}

/// reads the document as the type and compares with what `want` denotes
fn reads_as(text: &str, ty: &Ty, want: &Option<Val>, got: Result<Val, String>, ctx: &mut Ctx) -> Res {
    ctx.call(1);
    let ok = match (&got, want) {
        (Ok(g), Some(w)) => same_val(g, w),
        (Err(_), None) => true,
        _ => false,
    };
    if !ok {
        return viol(
            format!("read {text} as {ty:?}"),
            format!("reading\n{text}\nas {ty:?}\ngives {got:?}\ninstead of {}", want.as_ref().map_or("an error".to_string(), |w| format!("{w:?}"))),
        );
    }
    Ok(())
}

pub fn reads_untyped(text: &str, want: &Option<Any>, got: Result<Any, String>, ctx: &mut Ctx) -> Res {
    ctx.call(1);
    let ok = match (&got, want) {
        (Ok(g), Some(w)) => same_any(g, w),
        (Err(_), None) => true,
        _ => false,
    };
    if !ok {
        return viol(
            format!("read {text}"),
            format!("reading\n{text}\nwithout a type gives {got:?}\ninstead of {}", want.as_ref().map_or("an error".to_string(), |w| format!("{w:?}"))),
        );
    }
    Ok(())
}

fn in_text<T: DeserializeOwned>(text: &str) -> Result<T, String> {
    from_yaml_str::<T>(text).map_err(|e| e.0)
}

fn in_memory<T: DeserializeOwned>(y: &Yaml) -> Result<T, String> {
    from_yaml::<T>(y.clone()).map_err(|e| e.0)
}

// --------------------------------------------------------------------------------- C18

fn scalar_types() -> Vec<Ty> {
    let b = Box::new;
    vec![
        Ty::Bool,
        Ty::I8,
        Ty::I64,
        Ty::U64,
        Ty::F64,
        Ty::Str,
        Ty::Char,
        Ty::Unit,
        Ty::UnitStruct,
        Ty::Bytes,
        Ty::Opt(b(Ty::I64)),
        Ty::Opt(b(Ty::Str)),
        Ty::Opt(b(Ty::Bool)),
        Ty::Newtype(b(Ty::F64)),
        Ty::Newtype(b(Ty::Opt(b(Ty::Char)))),
        Ty::Enum(vec![Var::Unit, Var::Unit]),
        Ty::Enum(vec![Var::Newtype(Ty::Str), Var::Unit]),
        Ty::Opt(b(Ty::Enum(vec![Var::Unit]))),
        Ty::Seq(b(Ty::Str)),
        Ty::Tuple(vec![Ty::Char]),
        Ty::Struct(vec![]),
        Ty::Map(Key::Str, b(Ty::Str)),
    ]
}

#[derive(Clone, Copy, PartialEq)]
enum Style {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}
const STYLES: [Style; 5] = [Style::Plain, Style::Single, Style::Double, Style::Literal, Style::Folded];

/// the text of a scalar and what it denotes; none if the style can't write it
fn styled(s: &str, style: Style) -> Option<(String, V)> {
    let text = V::Text(s.to_string());
    let one_line = !s.contains('\n');
    let trimmed = s.trim() == s;
    match style {
        Style::Plain => (!s.is_empty() && s != "-" && one_line && trimmed).then(|| (s.to_string(), V::Plain(s.to_string()))),
        Style::Single => one_line.then(|| (format!("'{}'", s.replace('\'', "''")), text)),
        Style::Double => Some((format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")), text)),
        Style::Literal => (!s.is_empty() && one_line && trimmed).then(|| (format!("|-\n    {s}"), text)),
        Style::Folded => (!s.is_empty() && one_line && trimmed).then(|| (format!(">-\n    {s}"), text)),
    }
}

/// the document and how the type is wrapped for it
fn placed(scalar: &str, v: &V, place: usize) -> (String, V, fn(Ty) -> Ty) {
    let map = |es: Vec<(&str, V)>| V::Map(es.into_iter().map(|(k, v)| (k.to_string(), e(v))).collect());
    let seq = |es: Vec<V>| V::Seq(es.into_iter().map(e).collect());
    let twice: fn(Ty) -> Ty = |t| Ty::Struct(vec![t.clone(), t]);
    match place {
        0 => (format!("---\nf0: {scalar}\n"), map(vec![("f0", v.clone())]), |t| Ty::Struct(vec![t])),
        1 => (format!("---\n- {scalar}\n"), seq(vec![v.clone()]), |t| Ty::Seq(Box::new(t))),
        2 => (format!("---\nf0: &x {scalar}\nf1: *x\n"), map(vec![("f0", v.clone()), ("f1", v.clone())]), twice),
        3 => (format!("---\nf0: &x {scalar}\nf1: [*x]\n"), map(vec![("f0", v.clone()), ("f1", seq(vec![v.clone()]))]), |t| {
            Ty::Struct(vec![t.clone(), Ty::Tuple(vec![t])])
        }),
        4 => (format!("---\nf0: [{scalar}]\n"), map(vec![("f0", seq(vec![v.clone()]))]), |t| Ty::Struct(vec![Ty::Seq(Box::new(t))])),
        _ => (format!("---\nf0: {{f0: {scalar}}}\n"), map(vec![("f0", map(vec![("f0", v.clone())]))]), |t| Ty::Struct(vec![Ty::Struct(vec![t])])),
    }
}
const SCALAR_PLACES: usize = 6;

fn scalar_reads(s: &str, styles: &[Style], places: &[usize], ctx: &mut Ctx) -> Res {
    for style in styles {
        let Some((scalar, v)) = styled(s, *style) else { continue };
        for place in places {
            if *place >= 4 && matches!(style, Style::Literal | Style::Folded) {
                continue;
            }
            if *place >= 4 && *style == Style::Plain && s.contains(',') {
                continue;
            }
            scalar_read(&scalar, &v, *place, ctx)?;
        }
    }
    Ok(())
}

/// reads the scalar in the place as every type
fn scalar_read(scalar: &str, v: &V, place: usize, ctx: &mut Ctx) -> Res {
    let s = text_of(v).unwrap_or_default();
    let (text, doc, wrap) = placed(scalar, v, place);
    let d = must_parse(&text, ctx)?;
    ctx.state(&text);
    for ty in scalar_types() {
        if ty == Ty::U64 && s.starts_with("-0") && int(s) == Some(0) {
            continue; // zero or an error
        }
        let ty = wrap(ty);
        let want = read(&ty, &doc);
        ctx.class(if want.is_some() { "a value of the type" } else { "not of the type" });
        let got = with_ty(&ty, || in_memory::<Dyn>(root(&d)).map(|d| d.0));
        reads_as(&text, &ty, &want, got, ctx)?;
        if s.len() <= 2 {
            let got = with_ty(&ty, || in_text::<Dyn>(&text).map(|d| d.0));
            reads_as(&text, &ty, &want, got, ctx)?;
        }
    }
    let want = untyped(&doc, &mut HashMap::new());
    reads_untyped(&text, &want, in_text::<Any>(&text), ctx)?;
    ctx.compared();
    Ok(())
}

const BLOCK_LINES: [&str; 6] = ["", "a", "1", " b", "V1", "~"];

/// block scalars of n lines with every header
fn block_reads(n: usize) -> Space {
    let case = move |i: u64| {
        let mut d = Dec(i);
        let place = d.pick(4);
        let fold = d.pick(2) == 1;
        let (mark, chomp) = d.of(&[("", Chomp::Clip), ("-", Chomp::Strip), ("+", Chomp::Keep)]).clone();
        let lines: Vec<String> = (0..n).map(|_| d.of(&BLOCK_LINES).to_string()).collect();
        // the first line decides the indentation
        let ok = lines.iter().find(|l| !l.is_empty()).is_some_and(|l| !l.starts_with(' '));
        let header = if fold { '>' } else { '|' };
        let text: String = lines.iter().map(|l| if l.is_empty() { "\n".to_string() } else { format!("\n    {l}") }).collect();
        (place, format!("{header}{mark}{text}"), V::Text(block_value(fold, &chomp, &lines)), ok)
    };
    Space::new(format!("block scalars of {n} lines"), 24 * 6u64.pow(n as u32), move |i| case(i).1, move |i, ctx| {
        let (place, scalar, v, ok) = case(i);
        if !ok {
            return Ok(());
        }
        scalar_read(&scalar, &v, place, ctx)
    })
}

const NUMBER_TOKS: &[&str] = &["0", "1", "9", "-", "+", ".", "e", "E", "_", "x"];

fn all_reads(s: &str, ctx: &mut Ctx) -> Res {
    scalar_reads(s, &STYLES, &[0, 1, 2, 3, 4, 5], ctx)
}

fn number_reads(s: &str, ctx: &mut Ctx) -> Res {
    scalar_reads(s, &[Style::Plain, Style::Double], &[0], ctx)
}

fn typed_words() -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for w in ["true", "false", "yes", "no", "on", "off", "null", "y", "n", "t", "f", "none", "nil", "inf", "nan", "infinity", "v0", "v1"] {
        let lower = w.to_string();
        let upper = w.to_uppercase();
        let title = upper[..1].to_string() + &lower[1..];
        let mixed = lower[..1].to_string() + &upper[1..];
        for s in [lower, upper, title, mixed] {
            for (a, b) in [("", ""), ("-", ""), ("+", ""), (".", ""), ("", "x"), ("", " x"), ("x ", "")] {
                out.push(format!("{a}{s}{b}"));
            }
        }
    }
    for k in [0, 7, 8, 15, 16, 31, 32, 63, 64, 65] {
        for d in [-2i128, -1, 0, 1, 2] {
            let n = (1i128 << k) + d;
            for t in [n.to_string(), (-n).to_string(), format!("+{n}"), format!("0{n}"), format!("{n}.0"), format!("{n}e0")] {
                if !t.contains("--") && !t.contains("+-") {
                    out.push(t);
                }
            }
        }
    }
    for s in [
        "~", "~~", "V0", "V1", "V2", "v0", "V0 ", "", "f0", "a", "é", "ab", "😀", "\n", "a\n", "1\n", "true\n", " 1", "1 ", " true", "1,5", "1 2", "0x10", "0b1", "0o7", "1_000", "1e400", "-1e400", "1e-400", "0.1", "00", "-0",
        "-0.0", "+0", "1e5", "12e03", "123456789012345678901234567890", "170141183460469231731687303715884105728", "340282366920938463463374607431768211456", "4.9e-324", "2.2250738585072011e-308", "0.30000000000000004",
        "9007199254740993", "179769313486231580793e289", "1:30", "2001-01-01", "١", "½",
    ] {
        out.push(s.to_string());
    }
    out.sort();
    out.dedup();
    out
}

// shapes: every tree read as every type

fn trees(n: usize) -> Vec<Vec<V>> {
    const KEYS: [&str; 5] = ["f0", "f1", "V0", "V1", "zz"];
    let mut by: Vec<Vec<V>> = vec![vec![]];
    for size in 1..=n {
        let mut out = Vec::new();
        if size == 1 {
            out.extend(["1", "a", "~", "true", "V0", "V1"].map(|s| V::Plain(s.into())));
            out.extend(["1", "V0", "~"].map(|s| V::Text(s.into())));
        }
        for cs in tree_forests(size - 1, &by) {
            out.push(V::Seq(cs.iter().cloned().map(e).collect()));
            // every choice of keys, distinct ones if there are more than two
            let mut keys: Vec<Vec<&str>> = vec![vec![]];
            for _ in &cs {
                keys = keys.iter().flat_map(|ks| KEYS.iter().filter(|k| cs.len() == 2 || !ks.contains(k)).map(|k| ks.iter().chain([k]).copied().collect())).collect();
            }
            for ks in keys {
                out.push(V::Map(ks.iter().zip(&cs).map(|(k, c)| (k.to_string(), e(c.clone()))).collect()));
            }
        }
        by.push(out);
    }
    by
}

fn tree_forests(n: usize, by: &[Vec<V>]) -> Vec<Vec<V>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for first in 1..=n {
        for rest in tree_forests(n - first, by) {
            for t in &by[first] {
                let mut v = vec![t.clone()];
                v.extend(rest.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

fn flow(v: &V) -> String {
    match v {
        V::Plain(s) => s.clone(),
        V::Text(s) => format!("'{s}'"),
        V::Alias(a) => format!("*{a}"),
        V::Seq(es) => format!("[{}]", es.iter().map(flow_entry).collect::<Vec<_>>().join(", ")),
        V::Map(es) => format!("{{{}}}", es.iter().map(|(k, e)| format!("{k}: {}", flow_entry(e))).collect::<Vec<_>>().join(", ")),
    }
}

fn flow_entry(e: &E) -> String {
    match &e.anchor {
        Some(a) => format!("&{a} {}", flow(&e.v)),
        None => flow(&e.v),
    }
}

fn block(v: &V, indent: usize, out: &mut String) {
    let pad = " ".repeat(indent);
    match v {
        V::Map(es) if !es.is_empty() => {
            for (k, e) in es {
                out.push_str(&format!("\n{pad}{k}:"));
                if let Some(a) = &e.anchor {
                    out.push_str(&format!(" &{a}"));
                }
                block(&e.v, indent + 2, out);
            }
        }
        V::Seq(es) if !es.is_empty() => {
            for e in es {
                out.push_str(&format!("\n{pad}-"));
                if let Some(a) = &e.anchor {
                    out.push_str(&format!(" &{a}"));
                }
                block(&e.v, indent + 2, out);
            }
        }
        v => out.push_str(&format!(" {}", flow(v))),
    }
}

fn shape_reads(v: &V, tys: &[Ty], ctx: &mut Ctx) -> Res {
    let doc = V::Map(vec![("d".into(), E { anchor: None, v: v.clone() })]);
    let mut blocky = String::from("---");
    block(&doc, 0, &mut blocky);
    blocky.push('\n');
    for text in [format!("---\n{}\n", flow(&doc)), blocky] {
        let d = must_parse(&text, ctx)?;
        let y = match root(&d) {
            Yaml::InlineHash(h) => h[0].1.clone(),
            Yaml::Hash(h) => match &h[0] {
                HashData::Element(e) => e.value.value.clone(),
                o => return viol(format!("read {text}"), format!("{text}\nis read as {o:?}")),
            },
            o => return viol(format!("read {text}"), format!("{text}\nis read as {o:?}")),
        };
        ctx.state(&text);
        for ty in tys {
            let want = read(ty, v);
            ctx.class(if want.is_some() { "a value of the type" } else { "not of the type" });
            let got = with_ty(ty, || in_memory::<Dyn>(&y).map(|d| d.0));
            reads_as(&text, ty, &want, got, ctx)?;
        }
        ctx.compared();
    }
    Ok(())
}

fn shape_space(label: String, trees: Vec<V>, tys: Arc<Vec<Ty>>) -> Space {
    let trees = Arc::new(trees);
    let t2 = trees.clone();
    Space::new(
        label,
        trees.len() as u64,
        move |i| format!("{} as every type", flow(&t2[i as usize])),
        move |i, ctx| shape_reads(&trees[i as usize], &tys, ctx),
    )
}

fn c18(thorough: bool) -> Vec<Space> {
    let mut out = token_spaces("number-like texts, every style and place", &[""], NUMBER_TOKS, if thorough { 4 } else { 3 }, all_reads);
    out.extend(token_spaces("number-like texts", &[""], NUMBER_TOKS, if thorough { 6 } else { 5 }, number_reads).into_iter().skip(if thorough { 5 } else { 4 }));
    out.push(text_space("words", typed_words(), all_reads));
    for n in 1..=if thorough { 5 } else { 4 } {
        out.push(block_reads(n));
    }
    let tys: Arc<Vec<Ty>> = Arc::new(types(3, &[Ty::I64, Ty::Str, Ty::Unit]).into_iter().flatten().collect());
    for (n, ts) in trees(if thorough { 4 } else { 3 }).into_iter().enumerate().skip(1) {
        out.push(shape_space(format!("trees of {n} nodes as types of up to size 3"), ts, tys.clone()));
    }
    let tys: Arc<Vec<Ty>> = Arc::new(types(if thorough { 5 } else { 4 }, &[Ty::I64]).into_iter().flatten().collect());
    for (n, ts) in trees(3).into_iter().enumerate().skip(1) {
        out.push(shape_space(format!("trees of {n} nodes as larger types"), ts, tys.clone()));
    }
    let large = Arc::new(crate::sizes::trees_and_types(thorough));
    let l2 = large.clone();
    out.push(Space::new("large trees", large.len() as u64, move |i| format!("{} as types of its size", flow(&l2[i as usize].0)), move |i, ctx| {
        let (v, tys) = &large[i as usize];
        shape_reads(v, tys, ctx)
    }));
    out
}

// --------------------------------------------------------------------------------- C19

fn aliases(g: &G, l: &Layout, ctx: &mut Ctx) -> Res {
    let (text, _, _) = render(g, l, &no_comments);
    let want = untyped(&g.value(), &mut HashMap::new());
    ctx.class(if want.is_some() { "every alias is defined" } else { "an alias is undefined" });
    must_parse(&text, ctx)?;
    reads_untyped(&text, &want, in_text::<Any>(&text), ctx)?;
    ctx.compared();
    ctx.state(&text);
    Ok(())
}

/// every placement of the anchors
fn anchor_space(label: String, gs: Vec<G>, names: &'static [Option<&'static str>], ls: Vec<Layout>) -> Space {
    let mut offsets = vec![0u64];
    for g in &gs {
        offsets.push(offsets.last().unwrap() + (names.len() as u64).pow(entry_count(g) as u32) * ls.len() as u64);
    }
    let total = *offsets.last().unwrap();
    let case = Arc::new(move |i: u64| {
        let k = offsets.partition_point(|o| *o <= i) - 1;
        let mut d = Dec(i - offsets[k]);
        let l = d.of(&ls).clone();
        let picks: Vec<Option<&str>> = (0..entry_count(&gs[k])).map(|_| *d.of(names)).collect();
        (with_anchors(&gs[k], &|p| picks[p].map(|s| s.to_string())), l)
    });
    let c2 = case.clone();
    Space::new(
        label,
        total,
        move |i| {
            let (g, l) = c2(i);
            render(&g, &l, &no_comments).0
        },
        move |i, ctx| {
            let (g, l) = case(i);
            aliases(&g, &l, ctx)
        },
    )
}

const XY: &[Option<&str>] = &[None, Some("x"), Some("y")];
const X: &[Option<&str>] = &[None, Some("x")];
const XYZ: &[Option<&str>] = &[Some("x"), Some("y"), Some("x1")];

/// the paths of all nodes below the root
fn paths(v: &V, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    let children: Vec<&E> = match v {
        V::Seq(es) => es.iter().collect(),
        V::Map(es) => es.iter().map(|e| &e.1).collect(),
        _ => return,
    };
    for (i, c) in children.into_iter().enumerate() {
        at.push(i);
        out.push(at.clone());
        paths(&c.v, at, out);
        at.pop();
    }
}

fn child_mut(v: &mut V, i: usize) -> &mut V {
    match v {
        V::Seq(es) => &mut es[i].v,
        V::Map(es) => &mut es[i].1.v,
        _ => unreachable!("a path leads through collections"),
    }
}

/// The tree with one or two of its nodes replaced by aliases, read as every type: the anchors are
/// on the nodes themselves, in front of the tree.
fn typed_aliases(v: &V, pairs: bool, tys: &[Ty], ctx: &mut Ctx) -> Res {
    let mut nodes = Vec::new();
    paths(v, &mut Vec::new(), &mut nodes);
    nodes.push(vec![]);
    let mut picks: Vec<Vec<&Vec<usize>>> = nodes.iter().map(|n| vec![n]).collect();
    if pairs {
        for (i, a) in nodes.iter().enumerate() {
            for b in &nodes[i + 1..] {
                if !a.starts_with(b) && !b.starts_with(a) {
                    picks.push(vec![a, b]);
                }
            }
        }
    }
    let wanted: Vec<(&Ty, Option<Val>)> = tys.iter().map(|t| (t, read(t, v))).collect();
    for pick in picks {
        let mut tree = v.clone();
        let mut before = Vec::new();
        for (name, path) in ["x", "y"].iter().zip(&pick) {
            let node = path.iter().fold(&mut tree, |n, i| child_mut(n, *i));
            let old = std::mem::replace(node, V::Alias(name.to_string()));
            before.push((format!("z{name}"), E { anchor: Some(name.to_string()), v: old }));
        }
        let mut es = before.clone();
        es.push(("f0".to_string(), e(tree)));
        // a later anchor of the same name isn't the one that is meant
        es.extend(before.iter().map(|(k, b)| (format!("{k}2"), E { anchor: b.anchor.clone(), v: V::Plain("later".into()) })));
        // anchors aren't supported in flow collections
        let lines: String = es.iter().map(|(k, e)| format!("{k}: {}\n", flow_entry(e))).collect();
        let doc = V::Map(es);
        let mut blocky = String::from("---");
        block(&doc, 0, &mut blocky);
        blocky.push('\n');
        for text in [format!("---\n{lines}"), blocky] {
            let d = must_parse(&text, ctx)?;
            ctx.state(&text);
            for (ty, want) in &wanted {
                let want = want.clone().map(|w| Val::Seq(vec![w]));
                ctx.class(if want.is_some() { "a value of the type" } else { "not of the type" });
                let ty = Ty::Struct(vec![(*ty).clone()]);
                let got = with_ty(&ty, || in_memory::<Dyn>(root(&d)).map(|d| d.0));
                reads_as(&text, &ty, &want, got, ctx)?;
            }
            let want = untyped(&doc, &mut HashMap::new());
            reads_untyped(&text, &want, in_text::<Any>(&text), ctx)?;
            ctx.compared();
        }
    }
    Ok(())
}

fn typed_alias_space(label: String, trees: Vec<V>, pairs: bool, tys: Arc<Vec<Ty>>) -> Space {
    let trees = Arc::new(trees);
    let t2 = trees.clone();
    Space::new(
        label,
        trees.len() as u64,
        move |i| format!("{} with aliases as every type", flow(&t2[i as usize])),
        move |i, ctx| typed_aliases(&trees[i as usize], pairs, &tys, ctx),
    )
}

fn c19(thorough: bool) -> Vec<Space> {
    let alias = |s: &str| G::Alias(s.into());
    let two = || vec![plain(), alias("x"), alias("y")];
    let one = || vec![plain(), alias("x")];
    let mut out = Vec::new();
    let n = if thorough { 6 } else { 5 };
    for k in 2..=n {
        let sized = |s: &Shape| -> Vec<G> {
            let small = roots(s, k - 1).len();
            roots(s, k).split_off(small)
        };
        out.push(anchor_space(format!("two names, {k} nodes"), sized(&shape(two(), two(), 4)), XY, vec![L0]));
    }
    for k in 2..=n + 1 {
        let s = Shape { flow: false, ..shape(one(), vec![], 6) };
        let small = roots(&s, k - 1).len();
        out.push(anchor_space(format!("one name, block collections, {k} nodes"), roots(&s, k).split_off(small), X, vec![L0]));
    }
    out.push(anchor_space("layouts".into(), roots(&shape(one(), one(), 3), 4), X, layouts(if thorough { 3 } else { 1 })));
    out.push(crate::text::tree_space("many anchors", crate::sizes::anchored(thorough), layouts(1), aliases));
    // names that are prefixes of each other
    out.push(anchor_space(
        "similar names".into(),
        roots(&shape(vec![plain(), alias("x"), alias("x1"), alias("x10")], vec![plain(), alias("x")], 4), 5),
        if thorough { XYZ } else { &[Some("x"), Some("x1")] },
        vec![L0],
    ));
    let tys: Arc<Vec<Ty>> = Arc::new(types(3, &[Ty::I64, Ty::Str, Ty::Unit]).into_iter().flatten().collect());
    for (n, ts) in trees(if thorough { 4 } else { 3 }).into_iter().enumerate().skip(1) {
        out.push(typed_alias_space(format!("trees of {n} nodes with aliases as types of up to size 3"), ts, true, tys.clone()));
    }
    if thorough {
        let tys: Arc<Vec<Ty>> = Arc::new(types(4, &[Ty::I64]).into_iter().flatten().collect());
        out.push(typed_alias_space("trees of 3 nodes with aliases as larger types".into(), trees(3).swap_remove(3), false, tys));
    }
    out
}

// --------------------------------------------------------------------------------- C20

trait Num: Serialize + DeserializeOwned + Debug + Copy {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! nums {
    ($($t:ty),*) => { $(impl Num for $t { fn same(&self, o: &$t) -> bool { self == o } })* }
}
nums!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);
impl Num for f32 {
    fn same(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan()
    }
}
impl Num for f64 {
    fn same(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan()
    }
}

fn number<T: Num>(n: T, ctx: &mut Ctx) -> Res {
    // in a sequence, an option, a tuple and a map
    type All<T> = (Vec<T>, Option<T>, (T, T), std::collections::BTreeMap<String, T>);
    let val: All<T> = (vec![n], Some(n), (n, n), [("k".to_string(), n)].into());
    let check = |g: &All<T>| {
        let all = g.0.iter().chain(&g.1).chain([&g.2 .0, &g.2 .1]).chain(g.3.values());
        if all.clone().count() == 5 && all.clone().all(|x| n.same(x)) {
            Ok(())
        } else {
            Err(format!("{g:?}"))
        }
    };
    let what = format!("{n:?} of type {}", std::any::type_name::<T>());
    round_trip::<_, All<T>>(&what, &val, check, ctx)?;
    round_trip::<_, Vec<T>>(&what, &vec![n], |g| if g.len() == 1 && n.same(&g[0]) { Ok(()) } else { Err(format!("{g:?}")) }, ctx)
}

/// an integer, read as every type
fn cross(digits: &str, ctx: &mut Ctx) -> Res {
    let text = format!("---\n- {digits}\n");
    macro_rules! as_type {
        ($($t:ty),*) => { $({
            ctx.call(1);
            let got = from_yaml_str::<Vec<$t>>(&text);
            // the standard library is trusted, the digits are those of an integer
            let want = digits.trim_start_matches('+').parse::<$t>();
            let minus_zero = digits.starts_with("-0") && !digits.contains(|c: char| ('1'..='9').contains(&c));
            match (&got, &want) {
                (Ok(g), Ok(w)) if *g == [*w] => {}
                (Err(_), Err(_)) => {}
                (Ok(g), Err(_)) if minus_zero && *g == [0] => {}
                _ => return viol(
                    format!("read {digits} as {}", stringify!($t)),
                    format!("{digits} read as {} gives {got:?} instead of {want:?}", stringify!($t)),
                ),
            }
            ctx.class(if want.is_ok() { "fits" } else { "doesn't fit" });
        })* };
    }
    as_type!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);
    let f = from_yaml_str::<Vec<f64>>(&text);
    let g = from_yaml_str::<Vec<f32>>(&text);
    let (wf, wg): (f64, f32) = (digits.parse().unwrap(), digits.parse().unwrap());
    if !matches!(&f, Ok(v) if v.len() == 1 && v[0].same(&wf)) || !matches!(&g, Ok(v) if v.len() == 1 && v[0].same(&wg)) {
        return viol(format!("read {digits} as a float"), format!("{digits} read as floats gives {f:?} and {g:?}"));
    }
    let any = from_yaml_str::<Any>(&text).map_err(|e| e.0);
    let want = untyped(&V::Seq(vec![e(V::Plain(digits.to_string()))]), &mut HashMap::new());
    reads_untyped(&text, &want, any, ctx)?;
    ctx.compared();
    ctx.state(digits);
    Ok(())
}

/// numbers around all powers of two
fn around() -> Vec<i128> {
    let mut out = vec![i128::MIN, i128::MAX, 0];
    for k in 0..127 {
        for d in -3i128..=3 {
            out.push((1i128 << k) + d);
            out.push(-(1i128 << k) + d);
        }
    }
    for k in 0..38 {
        for d in -1i128..=1 {
            out.push(10i128.pow(k) + d);
            out.push(-10i128.pow(k) + d);
        }
    }
    out.sort();
    out.dedup();
    out
}

fn list_space<T: Debug + Clone + Send + Sync + 'static>(label: &str, list: Vec<T>, run: fn(&T, &mut Ctx) -> Res) -> Space {
    let list = Arc::new(list);
    let l2 = list.clone();
    Space::new(label, list.len() as u64, move |i| format!("{:?}", l2[i as usize]), move |i, ctx| run(&list[i as usize], ctx))
}

fn wide(n: &i128, ctx: &mut Ctx) -> Res {
    let n = *n;
    macro_rules! fit {
        ($($t:ty),*) => { $(if let Ok(x) = <$t>::try_from(n) { number(x, ctx)?; ctx.class(stringify!($t)); })* };
    }
    fit!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);
    number(!(n as u128), ctx)
}

fn mantissas(bits: u32, few: bool) -> Vec<u64> {
    let all = (1u64 << bits) - 1;
    let mut out = vec![0, 1, 2, 3, all, all - 1, all - 2, all / 3, all / 3 * 2, all / 5, all / 7 * 3, all / 10, all / 2, all / 2 + 1, all / 2 + 2];
    for k in 0..bits {
        out.push(1 << k);
        if !few {
            out.push(all ^ (1 << k));
            out.push((1 << k) - 1);
            out.push(all << k & all);
        }
    }
    out.sort();
    out.dedup();
    out
}

fn floats64(few: bool) -> Space {
    let ms = Arc::new(mantissas(52, few));
    let m2 = ms.clone();
    let value = |ms: &[u64], i: u64| {
        let mut d = Dec(i);
        let m = *d.of(ms);
        let exp = d.pick(2048) as u64;
        let sign = d.pick(2) as u64;
        f64::from_bits(sign << 63 | exp << 52 | m)
    };
    Space::new("f64: all exponents, patterns of the mantissa", ms.len() as u64 * 4096, move |i| format!("{:?}", value(&m2, i)), move |i, ctx| {
        let f = value(&ms, i);
        ctx.class(if f.is_nan() { "nan" } else if f.is_infinite() { "infinite" } else if f.is_normal() { "normal" } else { "zero or subnormal" });
        number(f, ctx)
    })
}

fn floats32(few: bool) -> Space {
    let ms = Arc::new(mantissas(23, few));
    let m2 = ms.clone();
    let value = |ms: &[u64], i: u64| {
        let mut d = Dec(i);
        let m = *d.of(ms) as u32;
        let exp = d.pick(256) as u32;
        let sign = d.pick(2) as u32;
        f32::from_bits(sign << 31 | exp << 23 | m)
    };
    Space::new("f32: all exponents, patterns of the mantissa", ms.len() as u64 * 512, move |i| format!("{:?}", value(&m2, i)), move |i, ctx| number(value(&ms, i), ctx))
}

/// all f32 values, in memory
fn all_floats32() -> Space {
    const PER: u32 = 1 << 16;
    Space::new("f32: all values, in memory", 1 << 16, |i| format!("f32 values with the upper bits {i:#x}"), |i, ctx| {
        for low in 0..PER {
            let f = f32::from_bits((i as u32) << 16 | low);
            let y = f.serialize(YamlSerializer).map_err(|e| Violation { key: format!("{f:?}"), msg: e.0 })?;
            match from_yaml::<f32>(y) {
                Ok(g) if f.same(&g) => {}
                g => return viol(format!("f32 {f:?}"), format!("{f:?} is read as {g:?}")),
            }
        }
        ctx.call(2 * PER as u64);
        ctx.compared();
        ctx.state(&i);
        Ok(())
    })
}

/// Decimal numbers between two neighbouring f32 values: exactly in the middle, and closer to one
/// of them by less than an f64 can tell.
fn between(few: bool) -> Space {
    let ms: Arc<Vec<u64>> = Arc::new(mantissas(23, few).into_iter().filter(|m| *m < (1 << 23) - 1).collect());
    let m2 = ms.clone();
    let case = |ms: &[u64], i: u64| {
        let mut d = Dec(i);
        let m = *d.of(ms) as u32;
        let exp = d.pick(255) as u32;
        let low = f32::from_bits(exp << 23 | m);
        let high = f32::from_bits((exp << 23 | m) + 1);
        let middle = (low as f64 + high as f64) / 2.0;
        // an f32 needs at most 112 digits, the middle one more
        let exact = format!("{middle:.120e}");
        let (digits, e) = exact.split_once('e').unwrap();
        let even = if m % 2 == 0 { low } else { high };
        // the digits end with zeros, so decrementing the last digit that isn't one is enough
        let trimmed = digits.trim_end_matches('0');
        let last = trimmed.chars().last().unwrap();
        let below = format!("{}{}{}", &trimmed[..trimmed.len() - 1], (last as u8 - 1) as char, "9".repeat(130 - trimmed.len()));
        [(format!("{digits}e{e}"), even), (format!("{digits}1e{e}"), high), (format!("{below}e{e}"), low)]
    };
    Space::new("decimals between two f32 values", ms.len() as u64 * 255, move |i| format!("{:?}", case(&m2, i)), move |i, ctx| {
        for (text, want) in case(&ms, i) {
            ctx.call(1);
            let got = from_yaml_str::<Vec<f32>>(&format!("---\n- {text}\n"));
            if !matches!(&got, Ok(v) if v.len() == 1 && v[0].same(&want)) {
                return viol(format!("f32 {text}"), format!("{text} is read as {got:?} instead of {want:?}"));
            }
        }
        ctx.compared();
        ctx.state(&i);
        Ok(())
    })
}

fn c20(thorough: bool) -> Vec<Space> {
    let mut out = vec![
        list_space("all 8 bit integers", (-128i128..=255).collect(), wide),
        list_space("all 16 bit integers", (-32768i128..=65535).collect(), |n, ctx| {
            let n = *n;
            i16::try_from(n).map_or(Ok(()), |x| number(x, ctx))?;
            u16::try_from(n).map_or(Ok(()), |x| number(x, ctx))
        }),
        list_space("integers around powers of 2 and 10", around(), wide),
        list_space(
            "integers read as every type",
            around()
                .into_iter()
                .chain(-70000..70000)
                .flat_map(|n| {
                    let s = n.to_string();
                    match n {
                        n if (-300..300).contains(&n) => vec![s.clone(), format!("+{}", n.abs()), format!("-00{}", n.abs()), format!("0{}", n.abs())],
                        _ => vec![s],
                    }
                })
                .chain([u128::MAX.to_string(), format!("{}0", u128::MAX), "-0".into(), "340282366920938463463374607431768211456".into()])
                .collect(),
            |s, ctx| cross(s, ctx),
        ),
        floats64(!thorough),
        floats32(!thorough),
        between(!thorough),
    ];
    if thorough {
        out.push(all_floats32());
    }
    out
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C18",
            rule: "every scalar text in every style and place is read as 22 types and without a type, every tree as every type of the bound, and compared with an independent reader",
            assumptions: &[
                "the values of floats are those of the parser of the standard library (C20 checks f32 against exact arithmetic)",
                "the words for infinity and NaN are those of Rust; those of YAML (.inf) are errors or strings",
            ],
            spaces: c18,
        },
        Property {
            id: "C19",
            rule: "every tree with every placement of anchors is written and read without a type; the result is compared with an independent resolver that walks the document in order; every tree with one or two of its nodes moved to anchors is read as every type",
            assumptions: &["documents in which aliases are nested so that the result grows exponentially are valid and not bounded"],
            spaces: c19,
        },
        Property {
            id: "C20",
            rule: "every number is serialized at 6 places and read back in memory and from text, as it is and prettified; decimals are read as every numeric type",
            assumptions: &["NaN is read as NaN, its payload isn't kept"],
            spaces: c20,
        },
    ]
}
