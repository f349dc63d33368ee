//! Dynamic field types and values, with the serde behaviour of derived types.
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{
    Serialize, SerializeMap, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant, Serializer,
};
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::fmt;
use std::sync::Mutex;

pub fn intern(s: &str) -> &'static str {
    static POOL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut guard = POOL.lock().unwrap();
    let pool = guard.get_or_insert_with(HashSet::new);
    if let Some(x) = pool.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_owned().into_boxed_str());
    pool.insert(x);
    x
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Str,
    Bytes,
    Json,
    JsonPretty,
    Const(&'static str),
    New(Box<Ty>),
    Opt(Box<Ty>),
}
impl Ty {
    pub fn parse(s: &str) -> Ty {
        if let Some(r) = s.strip_prefix("opt:") {
            return Ty::Opt(Box::new(Ty::parse(r)));
        }
        if let Some(r) = s.strip_prefix("new:") {
            return Ty::New(Box::new(Ty::parse(r)));
        }
        if let Some(r) = s.strip_prefix("const:") {
            return Ty::Const(intern(r));
        }
        match s {
            "bool" => Ty::Bool,
            "i8" => Ty::I8,
            "i16" => Ty::I16,
            "i32" => Ty::I32,
            "i64" => Ty::I64,
            "u8" => Ty::U8,
            "u16" => Ty::U16,
            "u32" => Ty::U32,
            "u64" => Ty::U64,
            "f32" => Ty::F32,
            "f64" => Ty::F64,
            "str" => Ty::Str,
            "bytes" => Ty::Bytes,
            "json" => Ty::Json,
            "jsonp" => Ty::JsonPretty,
            _ => panic!("unknown type {s}"),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Bool(bool),
    I(i64),
    U(u64),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    Json(Value),
    Unit,
    Nothing,
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn digest(b: &[u8]) -> Value {
    let h = fnv(b);
    json!([-1, b.len(), (h & 0x3fffffff) as u32, ((h >> 30) & 0x3fffffff) as u32])
}
pub const MAX_TEXT: usize = 300;
/// The code points of a text (or a digest if it is long).
pub fn cps(s: &str) -> Value {
    if s.len() > MAX_TEXT {
        return digest(s.as_bytes());
    }
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn bytes_json(b: &[u8]) -> Value {
    if b.len() > MAX_TEXT {
        return digest(b);
    }
    Value::Array(b.iter().map(|c| json!(*c)).collect())
}
pub fn body_json(b: &[u8]) -> Value {
    let h = fnv(b);
    json!({"n": b.len(), "h": format!("{:016x}", h)})
}

impl Val {
    pub fn from_json(ty: &Ty, v: &Value) -> Val {
        match ty {
            Ty::Opt(t) => {
                if v.is_null() {
                    Val::Nothing
                } else {
                    Val::from_json(t, v)
                }
            }
            Ty::New(t) => Val::from_json(t, v),
            Ty::Bool => Val::Bool(v.as_bool().unwrap()),
            Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 => Val::I(v.as_str().unwrap().parse().unwrap()),
            Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 => Val::U(v.as_str().unwrap().parse().unwrap()),
            Ty::F32 => Val::F32(f32::from_bits(
                u32::from_str_radix(v.as_str().unwrap(), 16).unwrap(),
            )),
            Ty::F64 => Val::F64(f64::from_bits(
                u64::from_str_radix(v.as_str().unwrap(), 16).unwrap(),
            )),
            Ty::Str => Val::Str(match v {
                Value::String(s) => s.clone(),
                Value::Object(o) => {
                    // {"rep": text, "n": count}
                    o["rep"].as_str().unwrap().repeat(o["n"].as_u64().unwrap() as usize)
                }
                _ => panic!("bad string {v}"),
            }),
            Ty::Bytes => Val::Bytes(
                v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
            ),
            Ty::Json | Ty::JsonPretty => Val::Json(v.clone()),
            Ty::Const(_) => Val::Unit,
        }
    }
    /// The form used in traces: p = present, x = canonical text as code points.
    pub fn log(&self) -> Value {
        let x = match self {
            Val::Bool(b) => cps(if *b { "true" } else { "false" }),
            Val::I(i) => cps(&i.to_string()),
            Val::U(i) => cps(&i.to_string()),
            Val::F32(f) => cps(&fbits32(*f)),
            Val::F64(f) => cps(&fbits64(*f)),
            Val::Str(s) => cps(s),
            Val::Bytes(b) => bytes_json(b),
            Val::Json(v) => cps(&v.to_string()),
            Val::Unit => json!([]),
            Val::Nothing => return json!({"p": 0, "x": []}),
        };
        json!({"p": 1, "x": x})
    }
}
fn fbits32(f: f32) -> String {
    if f.is_nan() { "f:nan".into() } else { format!("f:{:08x}", f.to_bits()) }
}
fn fbits64(f: f64) -> String {
    if f.is_nan() { "f:nan".into() } else { format!("f:{:016x}", f.to_bits()) }
}

/// Serializes a value as a derived implementation of its type would.
pub struct Ser<'a>(pub &'a Ty, pub &'a Val);
impl<'a> Serialize for Ser<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Opt(_), Val::Nothing) => s.serialize_none(),
            (Ty::Opt(t), v) => s.serialize_some(&Ser(t, v)),
            (Ty::New(t), v) => s.serialize_newtype_struct("New", &Ser(t, v)),
            (Ty::Bool, Val::Bool(b)) => b.serialize(s),
            (Ty::I8, Val::I(i)) => (*i as i8).serialize(s),
            (Ty::I16, Val::I(i)) => (*i as i16).serialize(s),
            (Ty::I32, Val::I(i)) => (*i as i32).serialize(s),
            (Ty::I64, Val::I(i)) => i.serialize(s),
            (Ty::U8, Val::U(i)) => (*i as u8).serialize(s),
            (Ty::U16, Val::U(i)) => (*i as u16).serialize(s),
            (Ty::U32, Val::U(i)) => (*i as u32).serialize(s),
            (Ty::U64, Val::U(i)) => i.serialize(s),
            (Ty::F32, Val::F32(f)) => f.serialize(s),
            (Ty::F64, Val::F64(f)) => f.serialize(s),
            (Ty::Str, Val::Str(x)) => x.serialize(s),
            (Ty::Bytes, Val::Bytes(x)) => s.serialize_bytes(x),
            (Ty::Json, Val::Json(x)) => htrpc::json::serialize(x, s),
            (Ty::JsonPretty, Val::Json(x)) => htrpc::json_pretty::serialize(x, s),
            (Ty::Const(n), _) => s.serialize_unit_struct(n),
            (t, v) => panic!("type mismatch {t:?} {v:?}"),
        }
    }
}

/// Deserializes a value as a derived implementation of its type would.
#[derive(Clone, Copy)]
pub struct De<'a>(pub &'a Ty);
impl<'a, 'de> DeserializeSeed<'de> for De<'a> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(match self.0 {
            Ty::Opt(t) => return d.deserialize_option(OptV(t)),
            Ty::New(t) => return d.deserialize_newtype_struct("New", NewV(t)),
            Ty::Bool => Val::Bool(bool::deserialize(d)?),
            Ty::I8 => Val::I(i8::deserialize(d)? as i64),
            Ty::I16 => Val::I(i16::deserialize(d)? as i64),
            Ty::I32 => Val::I(i32::deserialize(d)? as i64),
            Ty::I64 => Val::I(i64::deserialize(d)?),
            Ty::U8 => Val::U(u8::deserialize(d)? as u64),
            Ty::U16 => Val::U(u16::deserialize(d)? as u64),
            Ty::U32 => Val::U(u32::deserialize(d)? as u64),
            Ty::U64 => Val::U(u64::deserialize(d)?),
            Ty::F32 => Val::F32(f32::deserialize(d)?),
            Ty::F64 => Val::F64(f64::deserialize(d)?),
            Ty::Str => Val::Str(String::deserialize(d)?),
            Ty::Bytes => return d.deserialize_byte_buf(BytesV),
            Ty::Json => Val::Json(htrpc::json::deserialize(d)?),
            Ty::JsonPretty => Val::Json(htrpc::json_pretty::deserialize(d)?),
            Ty::Const(n) => return d.deserialize_unit_struct(n, UnitV),
        })
    }
}
struct OptV<'a>(&'a Ty);
impl<'a, 'de> Visitor<'de> for OptV<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "option")
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Nothing)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Nothing)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        De(self.0).deserialize(d)
    }
}
struct NewV<'a>(&'a Ty);
impl<'a, 'de> Visitor<'de> for NewV<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "newtype")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        De(self.0).deserialize(d)
    }
}
struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "bytes")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::Bytes(v.to_vec()))
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Val, E> {
        Ok(Val::Bytes(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Bytes(v.as_bytes().to_vec()))
    }
}
struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "unit")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
}

#[derive(Debug, Clone)]
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
}
#[derive(Debug, Clone)]
pub struct Fields {
    pub fields: Vec<Field>,
    pub names: &'static [&'static str],
    pub form: Form,
}
/// The kind of type which has the fields.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Form {
    Struct,
    /// A map with text keys.
    Map,
    /// A map with integers as keys.
    IntMap,
    /// A struct variant when serializing, a struct when deserializing.
    Variant,
    /// A newtype of a struct.
    Newtype,
}
impl Fields {
    /// A list of fields, or {"form": .., "fields": [..]}.
    pub fn parse(v: &Value) -> Fields {
        let form = match v["form"].as_str() {
            None => Form::Struct,
            Some("map") => Form::Map,
            Some("intmap") => Form::IntMap,
            Some("variant") => Form::Variant,
            Some("newtype") => Form::Newtype,
            Some(x) => panic!("unknown form {x}"),
        };
        let v = if v.is_array() { v } else { &v["fields"] };
        let fields: Vec<Field> = v
            .as_array()
            .unwrap()
            .iter()
            .map(|f| Field {
                name: intern(f[0].as_str().unwrap()),
                ty: Ty::parse(f[1].as_str().unwrap()),
            })
            .collect();
        let names: Vec<&'static str> = fields.iter().map(|f| f.name).collect();
        Fields {
            fields,
            names: Box::leak(names.into_boxed_slice()),
            form,
        }
    }
    pub fn values(&self, v: &Value) -> Vec<Val> {
        self.fields
            .iter()
            .enumerate()
            .map(|(i, f)| Val::from_json(&f.ty, &v[i]))
            .collect()
    }
}
pub struct SerFields<'a>(pub &'a Fields, pub &'a [Val]);
impl<'a> Serialize for SerFields<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let each = self.0.fields.iter().zip(self.1.iter());
        match self.0.form {
            Form::Struct => {
                let mut st = s.serialize_struct("Fields", self.1.len())?;
                for (f, v) in each {
                    st.serialize_field(f.name, &Ser(&f.ty, v))?;
                }
                st.end()
            }
            Form::Map => {
                let mut st = s.serialize_map(Some(self.1.len()))?;
                for (f, v) in each {
                    st.serialize_entry(f.name, &Ser(&f.ty, v))?;
                }
                st.end()
            }
            Form::IntMap => {
                let mut st = s.serialize_map(None)?;
                for (f, v) in each {
                    st.serialize_key(&f.name.parse::<i32>().unwrap())?;
                    st.serialize_value(&Ser(&f.ty, v))?;
                }
                st.end()
            }
            Form::Variant => {
                let mut st = s.serialize_struct_variant("Fields", 1, "Second", self.1.len())?;
                for (f, v) in each {
                    st.serialize_field(f.name, &Ser(&f.ty, v))?;
                }
                st.end()
            }
            Form::Newtype => {
                let f = Fields { form: Form::Struct, ..self.0.clone() };
                s.serialize_newtype_struct("Wrapped", &SerFields(&f, self.1))
            }
        }
    }
}
#[derive(Clone, Copy)]
pub struct DeFields<'a>(pub &'a Fields);
impl<'a, 'de> DeserializeSeed<'de> for DeFields<'a> {
    type Value = Vec<Val>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Vec<Val>, D::Error> {
        match self.0.form {
            Form::Struct | Form::Variant => d.deserialize_struct("Fields", self.0.names, self),
            Form::Map | Form::IntMap => d.deserialize_map(self),
            Form::Newtype => d.deserialize_newtype_struct("Wrapped", WrappedV(self.0)),
        }
    }
}
struct WrappedV<'a>(&'a Fields);
impl<'a, 'de> Visitor<'de> for WrappedV<'a> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "wrapped struct Fields")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Vec<Val>, D::Error> {
        d.deserialize_struct("Fields", self.0.names, DeFields(self.0))
    }
}
/// The key of a map.
struct MapKey(Form);
impl<'de> DeserializeSeed<'de> for MapKey {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.0 {
            Form::Map => String::deserialize(d),
            Form::IntMap => Ok(i32::deserialize(d)?.to_string()),
            _ => Key.deserialize(d),
        }
    }
}
pub struct Key;
impl<'de> DeserializeSeed<'de> for Key {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Key {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "field identifier")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
        Ok(v.to_owned())
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<String, E> {
        Ok(String::from_utf8_lossy(v).into_owned())
    }
}
impl<'a, 'de> Visitor<'de> for DeFields<'a> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "struct Fields")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Vec<Val>, A::Error> {
        let mut vals: Vec<Option<Val>> = vec![None; self.0.fields.len()];
        while let Some(k) = m.next_key_seed(MapKey(self.0.form))? {
            if let Some(i) = self.0.fields.iter().position(|f| f.name == k) {
                if vals[i].is_some() {
                    return Err(de::Error::duplicate_field(self.0.fields[i].name));
                }
                vals[i] = Some(m.next_value_seed(De(&self.0.fields[i].ty))?);
            } else {
                m.next_value::<de::IgnoredAny>()?;
            }
        }
        vals.into_iter()
            .zip(self.0.fields.iter())
            .map(|(v, f)| match (v, &f.ty) {
                (Some(v), _) => Ok(v),
                (None, Ty::Opt(_)) => Ok(Val::Nothing),
                _ => Err(de::Error::missing_field(f.name)),
            })
            .collect()
    }
}

#[derive(Debug, Clone)]
pub enum PathShape {
    Absent,
    Unit,
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    TupleVariant(Vec<Ty>),
    UnitStruct,
    Newtype(Vec<Ty>),
}
impl PathShape {
    pub fn tys(&self) -> &[Ty] {
        match self {
            PathShape::Tuple(t)
            | PathShape::TupleStruct(t)
            | PathShape::TupleVariant(t)
            | PathShape::Newtype(t) => t,
            _ => &[],
        }
    }
}
pub struct SerPath<'a>(pub &'a PathShape, pub &'a [Val]);
impl<'a> Serialize for SerPath<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            PathShape::Absent => unreachable!(),
            PathShape::Unit => s.serialize_unit(),
            PathShape::Tuple(tys) => {
                let mut t = s.serialize_tuple(tys.len())?;
                for (ty, v) in tys.iter().zip(self.1) {
                    t.serialize_element(&Ser(ty, v))?;
                }
                t.end()
            }
            PathShape::TupleStruct(tys) => {
                let mut t = s.serialize_tuple_struct("Path", tys.len())?;
                for (ty, v) in tys.iter().zip(self.1) {
                    t.serialize_field(&Ser(ty, v))?;
                }
                t.end()
            }
            PathShape::TupleVariant(tys) => {
                let mut t = s.serialize_tuple_variant("Path", 1, "Second", tys.len())?;
                for (ty, v) in tys.iter().zip(self.1) {
                    t.serialize_field(&Ser(ty, v))?;
                }
                t.end()
            }
            PathShape::UnitStruct => s.serialize_unit_struct("Path"),
            PathShape::Newtype(tys) => {
                s.serialize_newtype_struct("Path", &SerPath(&PathShape::Tuple(tys.clone()), self.1))
            }
        }
    }
}
#[derive(Clone, Copy)]
pub struct DePath<'a>(pub &'a PathShape);
impl<'a, 'de> DeserializeSeed<'de> for DePath<'a> {
    type Value = Vec<Val>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Vec<Val>, D::Error> {
        match self.0 {
            PathShape::Absent => unreachable!(),
            PathShape::Unit => {
                <()>::deserialize(d)?;
                Ok(vec![])
            }
            PathShape::Tuple(t) => d.deserialize_tuple(t.len(), PathV(t)),
            PathShape::TupleStruct(t) => d.deserialize_tuple_struct("Path", t.len(), PathV(t)),
            PathShape::TupleVariant(t) => d.deserialize_tuple(t.len(), PathV(t)),
            PathShape::UnitStruct => {
                d.deserialize_unit_struct("Path", UnitV)?;
                Ok(vec![])
            }
            PathShape::Newtype(t) => d.deserialize_newtype_struct("Path", NewPathV(t)),
        }
    }
}
struct NewPathV<'a>(&'a [Ty]);
impl<'a, 'de> Visitor<'de> for NewPathV<'a> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "wrapped path tuple")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Vec<Val>, D::Error> {
        d.deserialize_tuple(self.0.len(), PathV(self.0))
    }
}
struct PathV<'a>(&'a [Ty]);
impl<'a, 'de> Visitor<'de> for PathV<'a> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "path tuple")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<Vec<Val>, A::Error> {
        let mut out = Vec::new();
        for (i, t) in self.0.iter().enumerate() {
            match s.next_element_seed(De(t))? {
                Some(v) => out.push(v),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(out)
    }
}
