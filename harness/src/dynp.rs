//! Data-driven procedures: `Dyn<N>` behaves like the N-th procedure of the current scenario.
use crate::val::*;
use crate::world;
use fibers::sync::oneshot;
use futures::{future, Future};
use htrpc::rfc7807::{AboutBlankProblem, Problem, ProblemResponse, TrackableProblem};
use htrpc::types::{EntryPoint, HttpMethod, HttpStatus, NeverFail, PathSegment};
use htrpc::FutureExt;
use htrpc::{
    BodyReader, Error, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse,
};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, VariantAccess, Visitor};
use serde::ser::{Serialize, SerializeStruct, SerializeStructVariant, Serializer};
use serde::Deserialize;
use serde_json::{json, Value};
use std::fmt;
use std::sync::Arc;

#[derive(Debug, Clone)]
pub enum VShape {
    Unit,
    Struct(Option<Fields>),
    Problem,
    Inner(Option<Fields>),
}
#[derive(Debug, Clone)]
pub struct Variant {
    pub name: &'static str,
    pub shape: VShape,
}
#[derive(Debug, Clone)]
pub enum RespSchema {
    Enum(Vec<Variant>, &'static [&'static str]),
    Struct(Option<Fields>),
    Problem,
}
#[derive(Debug, Clone, PartialEq)]
pub enum BodyMode {
    All,
    Ignore,
    Part(usize),
}
#[derive(Debug, Clone)]
pub struct Schema {
    pub method: HttpMethod,
    pub entry: EntryPoint,
    pub path: PathShape,
    pub query: Option<Fields>,
    pub header: Option<Fields>,
    pub body: BodyMode,
    pub resp: RespSchema,
    /// Where the token of a request is ("path"/"query"/"header", index).
    pub tok: Option<(String, usize)>,
}
fn opt_fields(v: &Value) -> Option<Fields> {
    if v.is_null() { None } else { Some(Fields::parse(v)) }
}
impl Schema {
    pub fn parse(v: &Value) -> Schema {
        let segs: Vec<PathSegment> = v["entry"]
            .as_array()
            .unwrap()
            .iter()
            .map(|s| match s {
                Value::String(s) => PathSegment::Val(intern(s)),
                _ => PathSegment::Var,
            })
            .collect();
        let tys = |v: &Value| -> Vec<Ty> {
            v.as_array().unwrap().iter().map(|t| Ty::parse(t.as_str().unwrap())).collect()
        };
        let path = match &v["path"] {
            Value::Null => PathShape::Absent,
            Value::String(s) if s == "unit" => PathShape::Unit,
            Value::String(s) if s == "unitstruct" => PathShape::UnitStruct,
            Value::Object(o) if o.contains_key("tv") => PathShape::TupleVariant(tys(&o["tv"])),
            Value::Object(o) if o.contains_key("new") => PathShape::Newtype(tys(&o["new"])),
            Value::Object(o) => PathShape::TupleStruct(tys(&o["ts"])),
            p => PathShape::Tuple(tys(p)),
        };
        let resp = match &v["resp"] {
            Value::Null => RespSchema::Struct(Some(Fields::parse(&json!([["x-tok", "opt:str"]])))),
            Value::String(s) if s == "problem" => RespSchema::Problem,
            Value::Object(o) if o.contains_key("struct") => RespSchema::Struct(opt_fields(&o["struct"])),
            Value::Object(o) => {
                let vs: Vec<Variant> = o["enum"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|v| Variant {
                        name: intern(v[0].as_str().unwrap()),
                        shape: match v[1].as_str().unwrap() {
                            "unit" => VShape::Unit,
                            "struct" => VShape::Struct(opt_fields(&v[2])),
                            "problem" => VShape::Problem,
                            "inner" => VShape::Inner(opt_fields(&v[2])),
                            x => panic!("bad variant shape {x}"),
                        },
                    })
                    .collect();
                let names: Vec<&'static str> = vs.iter().map(|v| v.name).collect();
                RespSchema::Enum(vs, Box::leak(names.into_boxed_slice()))
            }
            x => panic!("bad resp {x}"),
        };
        Schema {
            method: HttpMethod::try_from_str(v["method"].as_str().unwrap()).expect("method"),
            entry: EntryPoint::new(Box::leak(segs.into_boxed_slice())),
            path,
            query: opt_fields(&v["query"]),
            header: opt_fields(&v["header"]),
            body: match &v["body"] {
                Value::String(s) if s == "ignore" => BodyMode::Ignore,
                Value::Number(n) => BodyMode::Part(n.as_u64().unwrap() as usize),
                _ => BodyMode::All,
            },
            resp,
            tok: v["tok"].as_array().map(|a| {
                (a[0].as_str().unwrap().to_owned(), a[1].as_u64().unwrap() as usize)
            }),
        }
    }
}

pub fn schema(n: usize) -> Arc<Schema> {
    world::schema(n)
}

// ---------------------------------------------------------------- request
#[derive(Debug)]
pub struct Req<const N: usize> {
    pub path: Vec<Val>,
    pub query: Vec<Val>,
    pub header: Vec<Val>,
    pub body: Vec<u8>,
}
impl<const N: usize> Req<N> {
    pub fn from_json(args: &Value) -> Self {
        let s = schema(N);
        Req {
            path: s
                .path
                .tys()
                .iter()
                .enumerate()
                .map(|(i, t)| Val::from_json(t, &args["path"][i]))
                .collect(),
            query: s.query.as_ref().map_or(vec![], |f| f.values(&args["query"])),
            header: s.header.as_ref().map_or(vec![], |f| f.values(&args["header"])),
            body: make_body(&args["body"]),
        }
    }
    pub fn log(&self) -> Value {
        let l = |v: &Vec<Val>| Value::Array(v.iter().map(|x| x.log()).collect());
        json!({"path": l(&self.path), "query": l(&self.query), "header": l(&self.header),
               "body": body_json(&self.body)})
    }
    fn token(&self) -> String {
        let s = schema(N);
        let v = match &s.tok {
            None => return String::new(),
            Some((p, i)) => match p.as_str() {
                "path" => &self.path[*i],
                "query" => &self.query[*i],
                _ => &self.header[*i],
            },
        };
        match v {
            Val::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
}
pub fn make_body(v: &Value) -> Vec<u8> {
    match v {
        Value::Null => vec![],
        Value::String(s) => s.as_bytes().to_vec(),
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        Value::Object(o) => {
            let n = o["len"].as_u64().unwrap() as usize;
            let mut x = o["seed"].as_u64().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1;
            let mut b = Vec::with_capacity(n);
            while b.len() < n {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                b.push((x >> 24) as u8);
            }
            b
        }
        _ => panic!("bad body {v}"),
    }
}
impl<const N: usize> Serialize for Req<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let sc = schema(N);
        let mut st = s.serialize_struct("Req", 3)?;
        if !matches!(sc.path, PathShape::Absent) {
            st.serialize_field("path", &SerPath(&sc.path, &self.path))?;
        }
        if let Some(f) = &sc.query {
            st.serialize_field("query", &SerFields(f, &self.query))?;
        }
        if let Some(f) = &sc.header {
            st.serialize_field("header", &SerFields(f, &self.header))?;
        }
        st.end()
    }
}
impl<'de, const N: usize> Deserialize<'de> for Req<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_struct("Req", &["path", "query", "header"], ReqV::<N>)
    }
}
struct ReqV<const N: usize>;
impl<'de, const N: usize> Visitor<'de> for ReqV<N> {
    type Value = Req<N>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "struct Req")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Req<N>, A::Error> {
        let sc = schema(N);
        let (mut path, mut query, mut header) = (None, None, None);
        while let Some(k) = m.next_key_seed(Key)? {
            match k.as_str() {
                "path" if !matches!(sc.path, PathShape::Absent) => {
                    if path.is_some() {
                        return Err(de::Error::duplicate_field("path"));
                    }
                    path = Some(m.next_value_seed(DePath(&sc.path))?);
                }
                "query" if sc.query.is_some() => {
                    if query.is_some() {
                        return Err(de::Error::duplicate_field("query"));
                    }
                    query = Some(m.next_value_seed(DeFields(sc.query.as_ref().unwrap()))?);
                }
                "header" if sc.header.is_some() => {
                    if header.is_some() {
                        return Err(de::Error::duplicate_field("header"));
                    }
                    header = Some(m.next_value_seed(DeFields(sc.header.as_ref().unwrap()))?);
                }
                _ => {
                    m.next_value::<de::IgnoredAny>()?;
                }
            }
        }
        let need = |v: Option<Vec<Val>>, declared: bool, n: &'static str| match (v, declared) {
            (Some(v), _) => Ok(v),
            (None, false) => Ok(vec![]),
            (None, true) => Err(<A::Error as de::Error>::missing_field(n)),
        };
        Ok(Req {
            path: need(path, !matches!(sc.path, PathShape::Absent), "path")?,
            query: need(query, sc.query.is_some(), "query")?,
            header: need(header, sc.header.is_some(), "header")?,
            body: vec![],
        })
    }
}
impl<const N: usize> RpcRequest for Req<N> {
    fn body(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.body)
    }
    fn read_body(self, body: BodyReader) -> ReadBody<Self> {
        match schema(N).body {
            BodyMode::Ignore => Box::new(future::finished((body, self))),
            BodyMode::All => Box::new(body.read_all_bytes().map_err(Error::from).map(
                move |(reader, bytes)| {
                    let mut req = self;
                    req.body = bytes;
                    (reader, req)
                },
            )),
            BodyMode::Part(n) => Box::new(ReadPart(Some((body, self)), n)),
        }
    }
}
/// Reads (up to) the first n bytes only.
struct ReadPart<const N: usize>(Option<(BodyReader, Req<N>)>, usize);
impl<const N: usize> Future for ReadPart<N> {
    type Item = (BodyReader, Req<N>);
    type Error = Error;
    fn poll(&mut self) -> futures::Poll<Self::Item, Error> {
        use std::io::Read;
        loop {
            let done = {
                let (body, req) = self.0.as_mut().unwrap();
                if req.body.len() >= self.1 {
                    true
                } else {
                    let mut b = [0; 1];
                    match body.read(&mut b) {
                        Ok(0) => true,
                        Ok(_) => {
                            req.body.push(b[0]);
                            false
                        }
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                            return Ok(futures::Async::NotReady)
                        }
                        Err(e) => return Err(Error::from(e)),
                    }
                }
            };
            if done {
                return Ok(futures::Async::Ready(self.0.take().unwrap()));
            }
        }
    }
}

// ---------------------------------------------------------------- response
#[derive(Debug)]
pub struct Resp<const N: usize> {
    pub v: &'static str,
    pub status: u16,
    pub header: Vec<Val>,
    pub body: Vec<u8>,
    pub problem: Option<ProblemResponse>,
}
fn status_by_code(code: u16) -> HttpStatus {
    miasht::status::RawStatus::new(code, "").normalize().expect("known status")
}
/// An error of a handler: with a text, perhaps with a source, perhaps tracked.
#[derive(Debug)]
struct Trouble {
    text: String,
    source: Option<Box<Trouble>>,
    history: Option<trackable::History<Step>>,
}
#[derive(Debug)]
struct Step(String);
impl From<trackable::Location> for Step {
    fn from(f: trackable::Location) -> Self {
        Step(f.to_string())
    }
}
impl std::fmt::Display for Step {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::fmt::Display for Trouble {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.text)
    }
}
impl std::error::Error for Trouble {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|e| &**e as _)
    }
}
impl trackable::Trackable for Trouble {
    type Event = Step;
    fn history(&self) -> Option<&trackable::History<Step>> {
        self.history.as_ref()
    }
    fn history_mut(&mut self) -> Option<&mut trackable::History<Step>> {
        self.history.as_mut()
    }
}
fn trouble(p: &Value) -> Trouble {
    let plain = |s: &str| Trouble { text: s.to_owned(), source: None, history: None };
    Trouble {
        source: p["source"].as_str().map(|s| Box::new(plain(s))),
        history: p["events"].as_array().map(|a| {
            let mut h = trackable::History::new();
            for s in a {
                h.add(Step(s.as_str().unwrap().to_owned()));
            }
            h
        }),
        ..plain(p["text"].as_str().unwrap())
    }
}
pub fn make_problem(p: &Value) -> ProblemResponse {
    let one = |p: &Value| -> Problem {
        let status = p["status"].as_u64().unwrap() as u16;
        if p["kind"] == "about" {
            let mut a = AboutBlankProblem::new(status_by_code(status));
            if let Some(t) = p["title"].as_str() {
                a.title = t.to_owned();
            }
            Problem::from(a)
        } else if p["kind"] == "error" {
            Problem::trackable(status_by_code(status), trouble(p))
        } else {
            use trackable::error::ErrorKindExt;
            let e: Error = htrpc::ErrorKind::Other.cause(p["cause"].as_str().unwrap_or("x")).into();
            let mut t = TrackableProblem::new(status_by_code(status), e);
            if let Some(x) = p["title"].as_str() {
                t.title = x.to_owned();
            }
            t.detail = p["detail"].as_str().map(|s| s.to_owned());
            t.instance = p["instance"].as_str().map(|s| url::Url::parse(s).unwrap());
            t.history = p["history"].as_array().map(|a| {
                a.iter().map(|s| s.as_str().unwrap().to_owned()).collect()
            });
            Problem::from(t)
        }
    };
    let mut r = one(p).into_response();
    if !p["then"].is_null() {
        r.set_problem(one(&p["then"]));
    }
    r
}
/// What a problem made by `make_problem` has to say, written down independently of its serialization.
pub fn given_problem(p: &Value) -> Value {
    if !p["then"].is_null() {
        return given_problem(&p["then"]);
    }
    let status = p["status"].as_u64().unwrap() as u16;
    let mut o = serde_json::Map::new();
    o.insert("status".into(), json!(status));
    if p["kind"] == "about" {
        o.insert("type".into(), json!("about:blank"));
        let t = p["title"].as_str().unwrap_or(status_by_code(status).reason_phrase());
        o.insert("title".into(), json!(t));
    } else if p["kind"] == "error" {
        o.insert("type".into(), json!("https://docs.rs/htrpc/0.0.2/htrpc/rfc7807/struct.TrackableProblem.html"));
        for (k, x) in [("title", "text"), ("detail", "source"), ("history", "events")] {
            if !p[x].is_null() {
                o.insert(k.into(), p[x].clone());
            }
        }
    } else {
        o.insert("type".into(), json!("https://docs.rs/htrpc/0.0.2/htrpc/rfc7807/struct.TrackableProblem.html"));
        use trackable::error::ErrorKindExt;
        let e: Error = htrpc::ErrorKind::Other.cause(p["cause"].as_str().unwrap_or("x")).into();
        o.insert("title".into(), json!(p["title"].as_str().map_or(e.to_string(), |s| s.to_owned())));
        for k in ["detail", "instance", "history"] {
            if !p[k].is_null() {
                o.insert(k.into(), p[k].clone());
            }
        }
    }
    problem_value(&Value::Object(o))
}
pub fn log_problem(p: &ProblemResponse) -> Value {
    problem_value(&serde_json::to_value(p.problem()).unwrap())
}
/// Projects a problem document (as JSON) into the form used in traces.
pub fn problem_value(v: &Value) -> Value {
    let o = match v {
        Value::Object(o) => o,
        _ => return json!({"ok": 0, "type": "", "title": [], "status": 0, "rest": []}),
    };
    let mut rest: Vec<Value> = Vec::new();
    for (k, v) in o {
        if k != "type" && k != "title" && k != "status" {
            rest.push(cps(&format!("{}={}", k, v)));
        }
    }
    json!({"ok": 1,
        "type": o.get("type").and_then(|x| x.as_str()).unwrap_or("?"),
        "title": o.get("title").and_then(|x| x.as_str()).map_or(json!([-2]), cps),
        "status": o.get("status").and_then(|x| x.as_u64()).unwrap_or(0),
        "rest": rest})
}
impl<const N: usize> Resp<N> {
    fn shape_fields(v: &str) -> Option<Fields> {
        match &schema(N).resp {
            RespSchema::Struct(f) => f.clone(),
            RespSchema::Problem => None,
            RespSchema::Enum(vs, _) => {
                match &vs.iter().find(|x| x.name == v).expect("variant").shape {
                    VShape::Unit | VShape::Problem => None,
                    VShape::Struct(f) | VShape::Inner(f) => f.clone(),
                }
            }
        }
    }
    pub fn from_json(p: &Value, req: &Req<N>) -> Self {
        let v = intern(p["v"].as_str().unwrap_or(""));
        let problem = if p["problem"].is_null() { None } else { Some(make_problem(&p["problem"])) };
        let fields = Self::shape_fields(v);
        let header = if p["header"] == "tok" {
            vec![Val::Str(req.token())]
        } else {
            fields.map_or(vec![], |f| f.values(&p["header"]))
        };
        let body = if p["body"] == "echo" {
            req.body.clone()
        } else if p["body"] == "tok" {
            req.token().into_bytes()
        } else {
            make_body(&p["body"])
        };
        Resp {
            v,
            status: p["status"].as_u64().unwrap_or(200) as u16,
            header,
            body,
            problem,
        }
    }
    pub fn log(&self) -> Value {
        let header: Vec<Value> = self.header.iter().map(|x| x.log()).collect();
        json!({"v": self.v, "status": self.status, "header": header,
            "body": body_json(&self.body),
            "problem": self.problem.as_ref().map_or(json!([]), |p| json!([log_problem(p)]))})
    }
    fn fields(&self) -> Option<Fields> {
        Self::shape_fields(self.v)
    }
}
struct InnerSer<'a>(u16, Option<&'a Fields>, &'a [Val]);
impl<'a> Serialize for InnerSer<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut st = s.serialize_struct("Inner", 2)?;
        st.serialize_field("status", &self.0)?;
        if let Some(f) = self.1 {
            st.serialize_field("header", &SerFields(f, self.2))?;
        }
        st.end()
    }
}
impl<const N: usize> Serialize for Resp<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let sc = schema(N);
        match &sc.resp {
            RespSchema::Problem => self.problem.as_ref().unwrap().serialize(s),
            RespSchema::Struct(f) => InnerSer(self.status, f.as_ref(), &self.header).serialize(s),
            RespSchema::Enum(vs, _) => {
                let i = vs.iter().position(|v| v.name == self.v).expect("variant");
                match &vs[i].shape {
                    VShape::Unit => s.serialize_unit_variant("Resp", i as u32, self.v),
                    VShape::Struct(f) => {
                        let mut st = s.serialize_struct_variant("Resp", i as u32, self.v, 1)?;
                        if let Some(f) = f {
                            st.serialize_field("header", &SerFields(f, &self.header))?;
                        }
                        st.end()
                    }
                    VShape::Problem => s.serialize_newtype_variant(
                        "Resp",
                        i as u32,
                        self.v,
                        self.problem.as_ref().unwrap(),
                    ),
                    VShape::Inner(f) => s.serialize_newtype_variant(
                        "Resp",
                        i as u32,
                        self.v,
                        &InnerSer(self.status, f.as_ref(), &self.header),
                    ),
                }
            }
        }
    }
}
struct InnerDe<'a>(Option<&'a Fields>);
impl<'a, 'de> DeserializeSeed<'de> for InnerDe<'a> {
    type Value = (u16, Vec<Val>);
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_struct("Inner", &["status", "header"], InnerV(self.0, true))
    }
}
struct InnerV<'a>(Option<&'a Fields>, bool);
impl<'a, 'de> Visitor<'de> for InnerV<'a> {
    type Value = (u16, Vec<Val>);
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "response struct")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Self::Value, A::Error> {
        let (mut status, mut header) = (None, None);
        while let Some(k) = m.next_key_seed(Key)? {
            match k.as_str() {
                "status" if self.1 => status = Some(m.next_value::<u16>()?),
                "header" if self.0.is_some() => {
                    header = Some(m.next_value_seed(DeFields(self.0.unwrap()))?)
                }
                _ => {
                    m.next_value::<de::IgnoredAny>()?;
                }
            }
        }
        if self.1 && status.is_none() {
            // In newtype variants the status has been consumed as the variant name.
            status = Some(0);
        }
        if self.0.is_some() && header.is_none() {
            return Err(de::Error::missing_field("header"));
        }
        Ok((status.unwrap_or(0), header.unwrap_or_default()))
    }
}
impl<'de, const N: usize> Deserialize<'de> for Resp<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let sc = schema(N);
        match &sc.resp {
            RespSchema::Problem => {
                let p = ProblemResponse::deserialize(d)?;
                Ok(Resp { v: "", status: 0, header: vec![], body: vec![], problem: Some(p) })
            }
            RespSchema::Struct(f) => {
                let (status, header) = InnerDe(f.as_ref()).deserialize(d)?;
                Ok(Resp { v: "", status, header, body: vec![], problem: None })
            }
            RespSchema::Enum(_, names) => d.deserialize_enum("Resp", names, RespV::<N>),
        }
    }
}
struct VariantKey(&'static [&'static str]);
impl<'de> DeserializeSeed<'de> for VariantKey {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for VariantKey {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant identifier")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        self.0
            .iter()
            .position(|n| *n == v)
            .ok_or_else(|| E::unknown_variant(v, self.0))
    }
}
struct RespV<const N: usize>;
impl<'de, const N: usize> Visitor<'de> for RespV<N> {
    type Value = Resp<N>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "enum Resp")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Resp<N>, A::Error> {
        let sc = schema(N);
        let (vs, names) = match &sc.resp {
            RespSchema::Enum(v, n) => (v, *n),
            _ => unreachable!(),
        };
        let (i, acc) = a.variant_seed(VariantKey(names))?;
        let mut r = Resp { v: vs[i].name, status: 0, header: vec![], body: vec![], problem: None };
        match &vs[i].shape {
            VShape::Unit => acc.unit_variant()?,
            VShape::Struct(f) => {
                r.header = acc.struct_variant(&["header"], InnerV(f.as_ref(), false))?.1;
            }
            VShape::Problem => {
                r.problem = Some(acc.newtype_variant::<ProblemResponse>()?);
            }
            VShape::Inner(f) => {
                let (s, h) = acc.newtype_variant_seed(InnerDe(f.as_ref()))?;
                r.status = s;
                r.header = h;
            }
        }
        Ok(r)
    }
}
impl<const N: usize> RpcResponse for Resp<N> {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        match self.problem {
            Some(ref mut p) => p.body(),
            None => Box::new(std::mem::take(&mut self.body)),
        }
    }
    fn set_body(&mut self, body: Vec<u8>) {
        match self.problem {
            Some(ref mut p) => p.set_body(body),
            None => self.body = body,
        }
    }
}

// ---------------------------------------------------------------- procedure and handler
pub struct Dyn<const N: usize>;
impl<const N: usize> Procedure for Dyn<N> {
    type Request = Req<N>;
    type Response = Resp<N>;
    fn method() -> HttpMethod {
        schema(N).method
    }
    fn entry_point() -> EntryPoint {
        schema(N).entry
    }
}
/// `owner` tells apart several registrations of the same procedure.
#[derive(Clone)]
pub struct Handler<const N: usize>(pub usize);
impl<const N: usize> HandleRpc<Dyn<N>> for Handler<N> {
    type Future = Box<dyn Future<Item = Resp<N>, Error = NeverFail> + Send + 'static>;
    fn handle_rpc(self, req: Req<N>) -> Self::Future {
        let token = req.token();
        let plan = world::plan(N, &token);
        let mut ev = req.log();
        ev["e"] = json!("invoke");
        ev["proc"] = json!(N);
        ev["owner"] = json!(self.0);
        ev["tok"] = json!(token);
        world::log(ev);
        let finish = move |req: Req<N>| {
            let r = Resp::<N>::from_json(&plan, &req);
            let mut ev = r.log();
            ev["e"] = json!("answer");
            if !plan["problem"].is_null() {
                ev["problem"] = json!([given_problem(&plan["problem"])]);
            }
            ev["proc"] = json!(N);
            ev["tok"] = json!(req.token());
            world::log(ev);
            debug_assert!(r.fields().is_some() || true);
            r
        };
        if world::is_held(N, &token) {
            let (tx, rx) = oneshot::channel::<()>();
            world::hold(token, tx);
            // A dropped sender (end of the scenario) leaves the handler pending for ever.
            Box::new(
                rx.then(|r| -> Box<dyn Future<Item = (), Error = NeverFail> + Send> {
                    match r {
                        Ok(()) => Box::new(future::finished(())),
                        Err(_) => Box::new(future::empty()),
                    }
                })
                .map(move |_| finish(req)),
            )
        } else {
            Box::new(future::finished(finish(req)))
        }
    }
}
