//! Values of arbitrary types carried by the field helpers of htrpc.
use crate::val::{body_json, intern};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleVariant, Serializer,
};
use serde::Deserialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::sync::Arc;

#[derive(Debug, Clone)]
pub struct Ty {
    k: String,
    n: String,
    of: Vec<Arc<Ty>>,
    names: &'static [&'static str],
}
impl Ty {
    fn parse(v: &Value) -> Arc<Ty> {
        let names: Vec<&'static str> = v["names"]
            .as_array()
            .unwrap()
            .iter()
            .map(|n| {
                let s: String = n
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| std::char::from_u32(c.as_u64().unwrap() as u32).unwrap())
                    .collect();
                intern(&s)
            })
            .collect();
        Arc::new(Ty {
            k: v["k"].as_str().unwrap().to_owned(),
            n: v["n"].as_str().unwrap().to_owned(),
            of: v["of"].as_array().unwrap().iter().map(Ty::parse).collect(),
            names: Box::leak(names.into_boxed_slice()),
        })
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum D {
    Null,
    Bool(bool),
    Int(i128),
    F64(f64),
    F32(f32),
    Str(String),
    Arr(Vec<D>),
    Obj(Vec<(String, D)>),
    Var(String, Option<Box<D>>),
    Any(Value),
}
fn text(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn node(t: &str, x: Value, e: Vec<Value>) -> Value {
    json!({"t": t, "x": x, "e": e})
}
fn pair(k: &str, v: Value) -> Value {
    node("pair", text(k), vec![v])
}
fn any_tree(v: &Value) -> Value {
    match v {
        Value::Null => node("null", json!([]), vec![]),
        Value::Bool(b) => node("bool", text(&b.to_string()), vec![]),
        Value::Number(n) if n.is_f64() => D::F64(n.as_f64().unwrap()).tree(),
        Value::Number(n) => node("int", text(&n.to_string()), vec![]),
        Value::String(s) => node("str", text(s), vec![]),
        Value::Array(a) => node("arr", json!([]), a.iter().map(any_tree).collect()),
        Value::Object(o) => {
            let sorted: BTreeMap<_, _> = o.iter().collect();
            node("obj", json!([]), sorted.iter().map(|(k, v)| pair(k, any_tree(v))).collect())
        }
    }
}
impl D {
    fn given(ty: &Ty, v: &Value) -> D {
        match ty.k.as_str() {
            "bool" => D::Bool(v.as_bool().unwrap()),
            "int" => D::Int(v.as_str().unwrap().parse().unwrap()),
            "float" if ty.n == "f32" => {
                D::F32(f32::from_bits(u32::from_str_radix(v.as_str().unwrap(), 16).unwrap()))
            }
            "float" => D::F64(f64::from_bits(u64::from_str_radix(v.as_str().unwrap(), 16).unwrap())),
            // (long ones are given as a text and how often it is repeated)
            "str" if v.is_array() => D::Str(v[0].as_str().unwrap().repeat(v[1].as_u64().unwrap() as usize)),
            "str" | "char" => D::Str(v.as_str().unwrap().to_owned()),
            "unit" => D::Null,
            "any" => D::Any(v.clone()),
            "opt" if v.is_null() => D::Null,
            "opt" | "new" | "help" => D::given(&ty.of[0], v),
            "seq" => D::Arr(v.as_array().unwrap().iter().map(|x| D::given(&ty.of[0], x)).collect()),
            "tup" => {
                D::Arr(v.as_array().unwrap().iter().zip(&ty.of).map(|(x, t)| D::given(t, x)).collect())
            }
            "map" => {
                let m: BTreeMap<String, D> = v
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|kv| (kv[0].as_str().unwrap().to_owned(), D::given(&ty.of[0], &kv[1])))
                    .collect();
                D::Obj(m.into_iter().collect())
            }
            "struct" => D::Obj(
                v.as_array()
                    .unwrap()
                    .iter()
                    .enumerate()
                    .map(|(i, x)| (ty.names[i].to_owned(), D::given(&ty.of[i], x)))
                    .collect(),
            ),
            "enum" => {
                let n = v["v"].as_u64().unwrap() as usize;
                let c = &ty.of[n];
                D::Var(
                    ty.names[n].to_owned(),
                    if c.k == "none" { None } else { Some(Box::new(D::given(c, &v["c"]))) },
                )
            }
            k => panic!("unknown type {k}"),
        }
    }
    /// The form used in traces.
    fn tree(&self) -> Value {
        match self {
            D::Null => node("null", json!([]), vec![]),
            D::Bool(b) => node("bool", text(&b.to_string()), vec![]),
            D::Int(i) => node("int", text(&i.to_string()), vec![]),
            D::F64(f) if f.is_nan() => node("float", text("f:nan"), vec![]),
            D::F32(f) if f.is_nan() => node("float", text("f:nan"), vec![]),
            D::F64(f) => node("float", text(&format!("f:{:016x}", f.to_bits())), vec![]),
            D::F32(f) => node("float", text(&format!("f:{:08x}", f.to_bits())), vec![]),
            D::Str(s) => node("str", text(s), vec![]),
            D::Arr(a) => node("arr", json!([]), a.iter().map(|x| x.tree()).collect()),
            D::Obj(o) => node("obj", json!([]), o.iter().map(|(k, v)| pair(k, v.tree())).collect()),
            D::Var(n, None) => node("var", text(n), vec![]),
            D::Var(n, Some(c)) => node("var", text(n), vec![c.tree()]),
            D::Any(v) => any_tree(v),
        }
    }
}

struct Ser<'a>(&'a Ty, &'a D);
impl<'a> Serialize for Ser<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let ty = self.0;
        match (ty.k.as_str(), self.1) {
            ("bool", D::Bool(b)) => b.serialize(s),
            ("int", D::Int(i)) => match ty.n.as_str() {
                "i8" => (*i as i8).serialize(s),
                "i16" => (*i as i16).serialize(s),
                "i32" => (*i as i32).serialize(s),
                "i64" => (*i as i64).serialize(s),
                "u8" => (*i as u8).serialize(s),
                "u16" => (*i as u16).serialize(s),
                "u32" => (*i as u32).serialize(s),
                _ => (*i as u64).serialize(s),
            },
            ("float", D::F64(f)) => f.serialize(s),
            ("float", D::F32(f)) => f.serialize(s),
            ("str", D::Str(x)) => x.serialize(s),
            ("char", D::Str(x)) => x.chars().next().unwrap().serialize(s),
            ("unit", _) => s.serialize_unit(),
            ("any", D::Any(v)) => v.serialize(s),
            ("opt", D::Null) => s.serialize_none(),
            ("opt", v) => s.serialize_some(&Ser(&ty.of[0], v)),
            ("new", v) => s.serialize_newtype_struct("New", &Ser(&ty.of[0], v)),
            ("seq", D::Arr(a)) => {
                let mut q = s.serialize_seq(Some(a.len()))?;
                for x in a {
                    q.serialize_element(&Ser(&ty.of[0], x))?;
                }
                q.end()
            }
            ("tup", D::Arr(a)) => {
                let mut q = s.serialize_tuple(a.len())?;
                for (x, t) in a.iter().zip(&ty.of) {
                    q.serialize_element(&Ser(t, x))?;
                }
                q.end()
            }
            ("map", D::Obj(o)) => {
                let mut q = s.serialize_map(Some(o.len()))?;
                for (k, x) in o {
                    q.serialize_entry(k, &Ser(&ty.of[0], x))?;
                }
                q.end()
            }
            ("struct", D::Obj(o)) => {
                let mut q = s.serialize_struct("S", o.len())?;
                for (i, (_, x)) in o.iter().enumerate() {
                    q.serialize_field(ty.names[i], &Ser(&ty.of[i], x))?;
                }
                q.end()
            }
            ("enum", D::Var(n, c)) => {
                let i = ty.names.iter().position(|x| x == n).unwrap();
                let (name, of) = (ty.names[i], &ty.of[i]);
                match (of.k.as_str(), c.as_deref()) {
                    ("none", _) => s.serialize_unit_variant("E", i as u32, name),
                    ("tup", Some(D::Arr(a))) => {
                        let mut q = s.serialize_tuple_variant("E", i as u32, name, a.len())?;
                        for (x, t) in a.iter().zip(&of.of) {
                            q.serialize_field(&Ser(t, x))?;
                        }
                        q.end()
                    }
                    ("struct", Some(D::Obj(o))) => {
                        let mut q = s.serialize_struct_variant("E", i as u32, name, o.len())?;
                        for (j, (_, x)) in o.iter().enumerate() {
                            q.serialize_field(of.names[j], &Ser(&of.of[j], x))?;
                        }
                        q.end()
                    }
                    (_, Some(x)) => s.serialize_newtype_variant("E", i as u32, name, &Ser(of, x)),
                    _ => unreachable!(),
                }
            }
            ("help", v) => match ty.n.as_str() {
                "json" => htrpc::json::serialize(Ser(&ty.of[0], v), s),
                "jsonp" => htrpc::json_pretty::serialize(Ser(&ty.of[0], v), s),
                _ => htrpc::msgpack::serialize(Ser(&ty.of[0], v), s),
            },
            (k, v) => panic!("type mismatch {k} {v:?}"),
        }
    }
}

thread_local! {
    static TYPES: RefCell<Vec<Arc<Ty>>> = RefCell::new(Vec::new());
}
struct Pushed;
impl Pushed {
    fn new(t: Arc<Ty>) -> Pushed {
        TYPES.with(|x| x.borrow_mut().push(t));
        Pushed
    }
}
impl Drop for Pushed {
    fn drop(&mut self) {
        TYPES.with(|x| x.borrow_mut().pop());
    }
}
/// A value of the type at the top of the stack.
struct Top(D);
impl<'de> Deserialize<'de> for Top {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Self, X::Error> {
        let t = TYPES.with(|x| x.borrow().last().unwrap().clone());
        De(&t).deserialize(d).map(Top)
    }
}

#[derive(Clone, Copy)]
struct De<'a>(&'a Arc<Ty>);
impl<'a, 'de> DeserializeSeed<'de> for De<'a> {
    type Value = D;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        let ty = self.0;
        Ok(match ty.k.as_str() {
            "bool" => D::Bool(bool::deserialize(d)?),
            "int" => D::Int(match ty.n.as_str() {
                "i8" => i8::deserialize(d)? as i128,
                "i16" => i16::deserialize(d)? as i128,
                "i32" => i32::deserialize(d)? as i128,
                "i64" => i64::deserialize(d)? as i128,
                "u8" => u8::deserialize(d)? as i128,
                "u16" => u16::deserialize(d)? as i128,
                "u32" => u32::deserialize(d)? as i128,
                _ => u64::deserialize(d)? as i128,
            }),
            "float" if ty.n == "f32" => D::F32(f32::deserialize(d)?),
            "float" => D::F64(f64::deserialize(d)?),
            "str" => D::Str(String::deserialize(d)?),
            "char" => D::Str(char::deserialize(d)?.to_string()),
            "unit" => {
                <()>::deserialize(d)?;
                D::Null
            }
            "any" => D::Any(Value::deserialize(d)?),
            "opt" => return d.deserialize_option(V(ty)),
            "new" => return d.deserialize_newtype_struct("New", V(ty)),
            "seq" => return d.deserialize_seq(V(ty)),
            "tup" => return d.deserialize_tuple(ty.of.len(), V(ty)),
            "map" => return d.deserialize_map(V(ty)),
            "struct" => return d.deserialize_struct("S", ty.names, V(ty)),
            "enum" => return d.deserialize_enum("E", ty.names, V(ty)),
            "help" => {
                let _p = Pushed::new(ty.of[0].clone());
                let r: Top = match ty.n.as_str() {
                    "json" => htrpc::json::deserialize(d)?,
                    "jsonp" => htrpc::json_pretty::deserialize(d)?,
                    _ => htrpc::msgpack::deserialize(d)?,
                };
                r.0
            }
            k => panic!("unknown type {k}"),
        })
    }
}
struct Name(&'static [&'static str]);
impl<'de> DeserializeSeed<'de> for Name {
    type Value = Option<usize>;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<Option<usize>, X::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Name {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        Ok(if (v as usize) < self.0.len() { Some(v as usize) } else { None })
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|n| *n == v))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|n| n.as_bytes() == v))
    }
}
struct V<'a>(&'a Arc<Ty>);
impl<'a, 'de> Visitor<'de> for V<'a> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0.k)
    }
    fn visit_unit<E: de::Error>(self) -> Result<D, E> {
        if self.0.k == "opt" { Ok(D::Null) } else { Err(E::custom("unexpected unit")) }
    }
    fn visit_none<E: de::Error>(self) -> Result<D, E> {
        self.visit_unit()
    }
    fn visit_some<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        De(&self.0.of[0]).deserialize(d)
    }
    fn visit_newtype_struct<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        De(&self.0.of[0]).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<D, A::Error> {
        let mut out = Vec::new();
        match self.0.k.as_str() {
            "seq" => {
                while let Some(x) = s.next_element_seed(De(&self.0.of[0]))? {
                    out.push(x);
                }
                Ok(D::Arr(out))
            }
            "new" => {
                s.next_element_seed(De(&self.0.of[0]))?.ok_or_else(|| de::Error::invalid_length(0, &self))
            }
            k => {
                for (i, t) in self.0.of.iter().enumerate() {
                    match s.next_element_seed(De(t))? {
                        Some(x) => out.push(x),
                        None => return Err(de::Error::invalid_length(i, &self)),
                    }
                }
                if k == "struct" {
                    Ok(D::Obj(self.0.names.iter().map(|n| n.to_string()).zip(out).collect()))
                } else {
                    Ok(D::Arr(out))
                }
            }
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<D, A::Error> {
        if self.0.k == "map" {
            let mut out = BTreeMap::new();
            while let Some(k) = m.next_key::<String>()? {
                out.insert(k, m.next_value_seed(De(&self.0.of[0]))?);
            }
            return Ok(D::Obj(out.into_iter().collect()));
        }
        if self.0.k != "struct" {
            return Err(de::Error::custom("unexpected map"));
        }
        let mut vals: Vec<Option<D>> = vec![None; self.0.of.len()];
        while let Some(k) = m.next_key_seed(Name(self.0.names))? {
            match k {
                None => {
                    m.next_value::<de::IgnoredAny>()?;
                }
                Some(i) if vals[i].is_some() => return Err(de::Error::duplicate_field(self.0.names[i])),
                Some(i) => vals[i] = Some(m.next_value_seed(De(&self.0.of[i]))?),
            }
        }
        let mut out = Vec::new();
        for (i, v) in vals.into_iter().enumerate() {
            let v = match v {
                Some(v) => v,
                None if self.0.of[i].k == "opt" => D::Null,
                None => return Err(de::Error::missing_field(self.0.names[i])),
            };
            out.push((self.0.names[i].to_owned(), v));
        }
        Ok(D::Obj(out))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        let (i, v) = a.variant_seed(Name(self.0.names))?;
        let i = i.ok_or_else(|| de::Error::custom("unknown variant"))?;
        let of = &self.0.of[i];
        let c = match of.k.as_str() {
            "none" => {
                v.unit_variant()?;
                None
            }
            "tup" => Some(v.tuple_variant(of.of.len(), V(of))?),
            "struct" => Some(v.struct_variant(of.names, V(of))?),
            _ => Some(v.newtype_variant_seed(De(of))?),
        };
        Ok(D::Var(self.0.names[i].to_owned(), c.map(Box::new)))
    }
}

/// A struct with one field `v`, of the type at the top of the stack when reading.
struct Out<'a>(&'a Ty, &'a D);
impl<'a> Serialize for Out<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_struct("Wrapped", 1)?;
        q.serialize_field("v", &Ser(self.0, self.1))?;
        q.end()
    }
}
#[derive(Deserialize)]
struct In {
    v: Top,
}
#[derive(Deserialize)]
struct Probe {
    v: String,
}

fn read(f: &str, doc: &[u8]) -> Option<D> {
    let r = match f {
        "m" => serdeconv::from_msgpack_slice::<In>(doc).ok(),
        "j" => serdeconv::from_json_slice::<In>(doc).ok(),
        _ => serdeconv::from_toml_str::<In>(std::str::from_utf8(doc).unwrap()).ok(),
    };
    r.map(|x| x.v.0)
}
fn got(r: Option<D>) -> (u32, Value) {
    match r {
        Some(d) => (1, json!([d.tree()])),
        None => (0, json!([])),
    }
}
fn doc_json(f: &str, doc: &[u8]) -> Value {
    if f == "m" { json!(doc) } else { text(std::str::from_utf8(doc).unwrap()) }
}

fn one(ty: &Arc<Ty>, op: &Value) -> Value {
    let f = op["f"].as_str().unwrap();
    let _p = Pushed::new(ty.clone());
    if op["op"] == "read" {
        let doc: Vec<u8> = match &op["doc"] {
            Value::String(s) => s.as_bytes().to_vec(),
            a => a.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect(),
        };
        let (ok, got) = got(read(f, &doc));
        return json!({"e": "read", "f": f, "doc": doc_json(f, &doc), "ok": ok, "got": got});
    }
    let given = D::given(ty, &op["value"]);
    let doc = {
        let out = Out(ty, &given);
        match f {
            "m" => serdeconv::to_msgpack_vec(&out).ok(),
            "j" => serdeconv::to_json_string(&out).ok().map(|s| s.into_bytes()),
            _ => serdeconv::to_toml_string(&out).ok().map(|s| s.into_bytes()),
        }
    };
    let doc = match doc {
        Some(d) => d,
        None if op["big"] == json!(true) => return json!({"e": "carrybig", "ok": 0}),
        None => return json!({"e": if f == "t" { "carrytext" } else { "carry" }, "ok": 0}),
    };
    if op["big"] == json!(true) {
        let digest = |d: &D| body_json(d.tree().to_string().as_bytes());
        let back = read(f, &doc);
        return json!({"e": "carrybig", "ok": back.is_some() as u32, "given": digest(&given), "got": back.iter().map(digest).collect::<Vec<_>>()});
    }
    let (ok, got) = got(read(f, &doc));
    if f == "t" {
        let p = serdeconv::from_toml_str::<Probe>(std::str::from_utf8(&doc).unwrap());
        return match p {
            Ok(p) => json!({"e": "carrytext", "ok": ok, "text": text(&p.v), "given": given.tree(), "got": got}),
            Err(_) => json!({"e": "carrytext", "ok": 0}),
        };
    }
    json!({"e": "carry", "f": f, "ok": ok, "doc": doc_json(f, &doc), "given": given.tree(), "got": got})
}

pub fn run(sc: &Value) -> Vec<Value> {
    let ty = Ty::parse(&sc["meta"]["ty"]);
    let mut log = Vec::new();
    for op in sc["ops"].as_array().unwrap() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&ty, op)));
        log.push(r.unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            json!({"e": "panic", "m": m.unwrap_or_default()})
        }));
    }
    log
}
