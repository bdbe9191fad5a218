//! Descriptions of types and their values: every description is a type that can be serialized
//! and deserialized the way `serde_derive` does it, and that an independent reader understands.
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    I8,
    I64,
    U64,
    F64,
    Str,
    Char,
    Bytes,
    Unit,
    UnitStruct,
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    Map(Key, Box<Ty>),
    Struct(Vec<Ty>),
    Newtype(Box<Ty>),
    TupleStruct(Vec<Ty>),
    /// the variants are called V0, V1 ...
    Enum(Vec<Var>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Key {
    Str,
    I64,
    Char,
    Variant,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Var {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<Ty>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Bool(bool),
    I(i64),
    U(u64),
    F(f64),
    S(String),
    C(char),
    Unit,
    None,
    Some(Box<Val>),
    /// sequences, tuples, fields
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Variant(usize, Box<Val>),
}

pub const FIELDS: [&str; 40] = [
    "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "fa", "fb", "f12", "f13", "f14", "f15", "f16", "f17", "f18", "f19", "f20", "f21", "f22", "f23", "f24", "f25", "f26", "f27", "f28", "f29", "f30", "f31", "f32", "f33", "f34", "f35", "f36", "f37", "f38", "f39",
];
pub const VARIANTS: [&str; 20] = ["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19"];

impl Ty {
    pub fn key(k: Key) -> Ty {
        match k {
            Key::Str => Ty::Str,
            Key::I64 => Ty::I64,
            Key::Char => Ty::Char,
            Key::Variant => Ty::Enum(vec![Var::Unit, Var::Unit]),
        }
    }
    /// does it have a value that is written as null?
    pub fn nullable(&self) -> bool {
        match self {
            Ty::Unit | Ty::UnitStruct | Ty::Opt(_) => true,
            Ty::Newtype(t) => t.nullable(),
            _ => false,
        }
    }
}

/// a value of a type
pub struct Typed<'a>(pub &'a Ty, pub &'a Val);

fn mismatch<E: serde::ser::Error>(t: &Ty, v: &Val) -> E {
    E::custom(format!("harness: {v:?} is not a {t:?}"))
}

impl Serialize for Typed<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::I8, Val::I(i)) => s.serialize_i8(*i as i8),
            (Ty::I64, Val::I(i)) => s.serialize_i64(*i),
            (Ty::U64, Val::U(i)) => s.serialize_u64(*i),
            (Ty::F64, Val::F(i)) => s.serialize_f64(*i),
            (Ty::Str, Val::S(x)) => s.serialize_str(x),
            (Ty::Char, Val::C(c)) => s.serialize_char(*c),
            (Ty::Bytes, Val::S(x)) => s.serialize_bytes(x.as_bytes()),
            (Ty::Unit, Val::Unit) => s.serialize_unit(),
            (Ty::UnitStruct, Val::Unit) => s.serialize_unit_struct("N"),
            (Ty::Opt(_), Val::None) => s.serialize_none(),
            (Ty::Opt(t), Val::Some(v)) => s.serialize_some(&Typed(t, v)),
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("N", &Typed(t, v)),
            (Ty::Seq(t), Val::Seq(vs)) => {
                let mut q = s.serialize_seq(Some(vs.len()))?;
                for v in vs {
                    q.serialize_element(&Typed(t, v))?;
                }
                q.end()
            }
            (Ty::Tuple(ts), Val::Seq(vs)) => {
                let mut q = s.serialize_tuple(ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_element(&Typed(t, v))?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), Val::Seq(vs)) => {
                let mut q = s.serialize_tuple_struct("N", ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_field(&Typed(t, v))?;
                }
                q.end()
            }
            (Ty::Struct(ts), Val::Seq(vs)) => {
                let mut q = s.serialize_struct("N", ts.len())?;
                for (i, (t, v)) in ts.iter().zip(vs).enumerate() {
                    q.serialize_field(FIELDS[i], &Typed(t, v))?;
                }
                q.end()
            }
            (Ty::Map(k, t), Val::Map(es)) => {
                let kt = Ty::key(*k);
                let mut q = s.serialize_map(Some(es.len()))?;
                for (k, v) in es {
                    q.serialize_entry(&Typed(&kt, k), &Typed(t, v))?;
                }
                q.end()
            }
            (Ty::Enum(vars), Val::Variant(i, v)) => {
                let name = VARIANTS[*i];
                let index = *i as u32;
                match (&vars[*i], &**v) {
                    (Var::Unit, _) => s.serialize_unit_variant("N", index, name),
                    (Var::Newtype(t), v) => s.serialize_newtype_variant("N", index, name, &Typed(t, v)),
                    (Var::Tuple(ts), Val::Seq(vs)) => {
                        let mut q = s.serialize_tuple_variant("N", index, name, ts.len())?;
                        for (t, v) in ts.iter().zip(vs) {
                            q.serialize_field(&Typed(t, v))?;
                        }
                        q.end()
                    }
                    (Var::Struct(ts), Val::Seq(vs)) => {
                        let mut q = s.serialize_struct_variant("N", index, name, ts.len())?;
                        for (i, (t, v)) in ts.iter().zip(vs).enumerate() {
                            q.serialize_field(FIELDS[i], &Typed(t, v))?;
                        }
                        q.end()
                    }
                    _ => Err(mismatch(self.0, self.1)),
                }
            }
            _ => Err(mismatch(self.0, self.1)),
        }
    }
}

/// reads a value of the type
#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a Ty);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let v = Vis(self.0);
        match self.0 {
            Ty::Bool => bool::deserialize(d).map(Val::Bool),
            Ty::I8 => i8::deserialize(d).map(|i| Val::I(i as i64)),
            Ty::I64 => i64::deserialize(d).map(Val::I),
            Ty::U64 => u64::deserialize(d).map(Val::U),
            Ty::F64 => f64::deserialize(d).map(Val::F),
            Ty::Str => String::deserialize(d).map(Val::S),
            Ty::Char => char::deserialize(d).map(Val::C),
            Ty::Bytes => d.deserialize_byte_buf(v),
            Ty::Unit => <()>::deserialize(d).map(|_| Val::Unit),
            Ty::UnitStruct => d.deserialize_unit_struct("N", v),
            Ty::Opt(_) => d.deserialize_option(v),
            Ty::Newtype(_) => d.deserialize_newtype_struct("N", v),
            Ty::Seq(_) => d.deserialize_seq(v),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), v),
            Ty::TupleStruct(ts) => d.deserialize_tuple_struct("N", ts.len(), v),
            Ty::Map(..) => d.deserialize_map(v),
            Ty::Struct(ts) => d.deserialize_struct("N", &FIELDS[..ts.len()], v),
            Ty::Enum(vars) => d.deserialize_enum("N", &VARIANTS[..vars.len()], v),
        }
    }
}

struct Vis<'a>(&'a Ty);

fn tuple<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Val, A::Error> {
    let mut out = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(Seed(t))? {
            Some(v) => out.push(v),
            None => return Err(de::Error::invalid_length(i, &"a longer sequence")),
        }
    }
    Ok(Val::Seq(out))
}

fn fields<'de, A: MapAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Val, A::Error> {
    let mut out: Vec<Option<Val>> = vec![None; ts.len()];
    while let Some(i) = a.next_key_seed(Ident(&FIELDS[..ts.len()], false))? {
        match i {
            None => {
                a.next_value::<IgnoredAny>()?;
            }
            Some(i) if out[i].is_some() => return Err(de::Error::duplicate_field(FIELDS[i])),
            Some(i) => out[i] = Some(a.next_value_seed(Seed(&ts[i]))?),
        }
    }
    let mut all = Vec::new();
    for (i, v) in out.into_iter().enumerate() {
        all.push(match v {
            Some(v) => v,
            None if matches!(ts[i], Ty::Opt(_)) => Val::None,
            None => return Err(de::Error::missing_field(FIELDS[i])),
        });
    }
    Ok(Val::Seq(all))
}

/// the index of a name; unknown names are an error if asked
struct Ident(&'static [&'static str], bool);
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|n| *n == s) {
            None if self.1 => Err(E::unknown_variant(s, self.0)),
            r => Ok(r),
        }
    }
}

impl<'de> Visitor<'de> for Vis<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Ty::UnitStruct => Ok(Val::Unit),
            Ty::Opt(_) => Ok(Val::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Val, E> {
        match self.0 {
            Ty::Bytes => std::str::from_utf8(b).map(|s| Val::S(s.to_string())).map_err(|_| E::custom("harness: not a string")),
            _ => Err(E::invalid_type(de::Unexpected::Bytes(b), &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Ty::Opt(_) => Ok(Val::None),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Opt(t) => Seed(t).deserialize(d).map(|v| Val::Some(Box::new(v))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Newtype(t) => Seed(t).deserialize(d),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut out = Vec::new();
                while let Some(v) = a.next_element_seed(Seed(t))? {
                    out.push(v);
                }
                Ok(Val::Seq(out))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => tuple(ts, a),
            Ty::Bytes => {
                let mut out = Vec::new();
                while let Some(b) = a.next_element::<u8>()? {
                    out.push(b);
                }
                String::from_utf8(out).map(Val::S).map_err(|_| de::Error::custom("harness: not a string"))
            }
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Map(k, t) => {
                let kt = Ty::key(*k);
                let mut out = Vec::new();
                while let Some(k) = a.next_key_seed(Seed(&kt))? {
                    out.push((k, a.next_value_seed(Seed(t))?));
                }
                Ok(Val::Map(out))
            }
            Ty::Struct(ts) => fields(ts, a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let Ty::Enum(vars) = self.0 else {
            return Err(de::Error::invalid_type(de::Unexpected::Enum, &self));
        };
        let (i, c) = a.variant_seed(Ident(&VARIANTS[..vars.len()], true))?;
        let i = i.expect("a known variant");
        let v = match &vars[i] {
            Var::Unit => c.unit_variant().map(|_| Val::Unit),
            Var::Newtype(t) => c.newtype_variant_seed(Seed(t)),
            Var::Tuple(ts) => c.tuple_variant(ts.len(), Content(ts, false)),
            Var::Struct(ts) => c.struct_variant(&FIELDS[..ts.len()], Content(ts, true)),
        }?;
        Ok(Val::Variant(i, Box::new(v)))
    }
}

struct Content<'a>(&'a [Ty], bool);
impl<'de> Visitor<'de> for Content<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("the content of a variant")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        match self.1 {
            false => tuple(self.0, a),
            true => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        match self.1 {
            true => fields(self.0, a),
            false => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
}

/// self-describing value
#[derive(Debug, Clone, PartialEq)]
pub enum Any {
    Unit,
    Bool(bool),
    I(i64),
    U(u64),
    F(f64),
    S(String),
    Seq(Vec<Any>),
    Map(Vec<(String, Any)>),
}

struct AnyVisitor;
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = Any;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_unit<E>(self) -> Result<Any, E> {
        Ok(Any::Unit)
    }
    fn visit_none<E>(self) -> Result<Any, E> {
        Ok(Any::Unit)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Any::deserialize(d)
    }
    fn visit_bool<E>(self, v: bool) -> Result<Any, E> {
        Ok(Any::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Any, E> {
        Ok(Any::I(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Any, E> {
        Ok(Any::U(v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Any, E> {
        Ok(Any::F(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Any, E> {
        Ok(Any::S(v.to_string()))
    }
    fn visit_string<E>(self, v: String) -> Result<Any, E> {
        Ok(Any::S(v))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(Any::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_entry()? {
            v.push(x);
        }
        Ok(Any::Map(v))
    }
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        d.deserialize_any(AnyVisitor)
    }
}
