//! Run-time half of the pyo3 stand-in: values travel as JSON over a C ABI
//! (see harness/bridge.py for the Python half).
pub use pyo3macros::{pyclass, pyfunction, pymethods, pymodule};

use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Debug)]
pub enum Value {
    Missing,
    None,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Tuple(Vec<Value>),
    List(Vec<Value>),
    Dict(Vec<(Value, Value)>),
    Obj(String, u64),
    Enum(String, String),
}

#[derive(Debug)]
pub struct PyErr {
    kind: &'static str,
    msg: String,
}

pub type PyResult<T> = Result<T, PyErr>;

impl PyErr {
    pub fn new(kind: &'static str, msg: String) -> Self {
        Self { kind, msg }
    }
}

pub struct FnDef {
    pub name: &'static str,
    pub kind: &'static str,
    pub params: Vec<(&'static str, bool)>,
    pub call: fn(&[Value]) -> Result<Value, PyErr>,
}

pub enum Item {
    Func(FnDef),
    Class(&'static str, Vec<FnDef>),
    Enum(&'static str, Vec<&'static str>),
}

pub trait DefaultMethods {
    fn __pyo3mini_methods() -> Vec<FnDef> {
        vec![]
    }
}
impl<T> DefaultMethods for T {}

pub trait FromVal: Sized {
    fn from_val(v: &Value) -> Result<Self, PyErr>;
}
pub trait IntoVal {
    fn into_val(self) -> Value;
}
pub trait IntoRet {
    fn into_ret(self) -> Result<Value, PyErr>;
}
impl<T: IntoVal> IntoRet for T {
    fn into_ret(self) -> Result<Value, PyErr> {
        Ok(self.into_val())
    }
}

fn ty_err<T>(want: &str, v: &Value) -> Result<T, PyErr> {
    Err(PyErr::new("TypeError", format!("expected {want}, got {v:?}")))
}

macro_rules! ints {
    ($($t:ty),*) => { $(
        impl FromVal for $t {
            fn from_val(v: &Value) -> Result<Self, PyErr> {
                match v {
                    Value::Int(i) => <$t>::try_from(*i).map_err(|_| {
                        PyErr::new("OverflowError", format!("int {} does not fit {}", i, stringify!($t)))
                    }),
                    Value::Bool(b) => Ok(<$t>::from(*b)),
                    _ => ty_err(stringify!($t), v),
                }
            }
        }
        impl IntoVal for $t {
            fn into_val(self) -> Value { Value::Int(self as i128) }
        }
    )* };
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, i128);

impl FromVal for bool {
    fn from_val(v: &Value) -> Result<Self, PyErr> {
        match v {
            Value::Bool(b) => Ok(*b),
            _ => ty_err("bool", v),
        }
    }
}
impl IntoVal for bool {
    fn into_val(self) -> Value {
        Value::Bool(self)
    }
}
impl IntoVal for f64 {
    fn into_val(self) -> Value {
        Value::Float(self)
    }
}
impl FromVal for String {
    fn from_val(v: &Value) -> Result<Self, PyErr> {
        match v {
            Value::Str(s) => Ok(s.clone()),
            _ => ty_err("str", v),
        }
    }
}
impl IntoVal for String {
    fn into_val(self) -> Value {
        Value::Str(self)
    }
}
impl IntoVal for &str {
    fn into_val(self) -> Value {
        Value::Str(self.to_string())
    }
}
impl IntoVal for char {
    fn into_val(self) -> Value {
        Value::Str(self.to_string())
    }
}
impl FromVal for char {
    fn from_val(v: &Value) -> Result<Self, PyErr> {
        match v {
            Value::Str(s) if s.chars().count() == 1 => Ok(s.chars().next().unwrap()),
            _ => ty_err("char", v),
        }
    }
}
impl IntoVal for () {
    fn into_val(self) -> Value {
        Value::None
    }
}
impl<T: FromVal> FromVal for Option<T> {
    fn from_val(v: &Value) -> Result<Self, PyErr> {
        match v {
            Value::None => Ok(None),
            v => T::from_val(v).map(Some),
        }
    }
}
impl<T: IntoVal> IntoVal for Option<T> {
    fn into_val(self) -> Value {
        self.map_or(Value::None, T::into_val)
    }
}
impl<T: FromVal> FromVal for Vec<T> {
    fn from_val(v: &Value) -> Result<Self, PyErr> {
        match v {
            Value::List(l) | Value::Tuple(l) => l.iter().map(T::from_val).collect(),
            _ => ty_err("list", v),
        }
    }
}
impl<T: IntoVal> IntoVal for Vec<T> {
    fn into_val(self) -> Value {
        Value::List(self.into_iter().map(T::into_val).collect())
    }
}
impl<T: IntoVal> IntoVal for BTreeSet<T> {
    fn into_val(self) -> Value {
        Value::List(self.into_iter().map(T::into_val).collect())
    }
}
impl<T: IntoVal> IntoVal for HashSet<T> {
    fn into_val(self) -> Value {
        Value::List(self.into_iter().map(T::into_val).collect())
    }
}
impl<K: FromVal + Ord, V: FromVal> FromVal for BTreeMap<K, V> {
    fn from_val(v: &Value) -> Result<Self, PyErr> {
        match v {
            Value::Dict(d) => d.iter().map(|(k, v)| Ok((K::from_val(k)?, V::from_val(v)?))).collect(),
            _ => ty_err("dict", v),
        }
    }
}
impl<K: IntoVal, V: IntoVal> IntoVal for BTreeMap<K, V> {
    fn into_val(self) -> Value {
        Value::Dict(self.into_iter().map(|(k, v)| (k.into_val(), v.into_val())).collect())
    }
}
impl<K: FromVal + Eq + Hash, V: FromVal> FromVal for HashMap<K, V> {
    fn from_val(v: &Value) -> Result<Self, PyErr> {
        match v {
            Value::Dict(d) => d.iter().map(|(k, v)| Ok((K::from_val(k)?, V::from_val(v)?))).collect(),
            _ => ty_err("dict", v),
        }
    }
}
impl<K: IntoVal, V: IntoVal> IntoVal for HashMap<K, V> {
    fn into_val(self) -> Value {
        Value::Dict(self.into_iter().map(|(k, v)| (k.into_val(), v.into_val())).collect())
    }
}
macro_rules! tuples {
    ($(($n:expr; $($t:ident $i:tt),*)),*) => { $(
        impl<$($t: FromVal),*> FromVal for ($($t,)*) {
            fn from_val(v: &Value) -> Result<Self, PyErr> {
                match v {
                    Value::Tuple(l) if l.len() == $n => Ok(($($t::from_val(&l[$i])?,)*)),
                    _ => ty_err("tuple", v),
                }
            }
        }
        impl<$($t: IntoVal),*> IntoVal for ($($t,)*) {
            fn into_val(self) -> Value { Value::Tuple(vec![$(self.$i.into_val()),*]) }
        }
    )* };
}
tuples!((1; A 0), (2; A 0, B 1), (3; A 0, B 1, C 2), (4; A 0, B 1, C 2, D 3),
    (5; A 0, B 1, C 2, D 3, E 4), (6; A 0, B 1, C 2, D 3, E 4, F 5));

// objects ----------------------------------------------------------------

type Store = Mutex<(u64, HashMap<u64, Box<dyn Any + Send>>)>;

fn objs() -> &'static Store {
    static S: OnceLock<Store> = OnceLock::new();
    S.get_or_init(|| Mutex::new((0, HashMap::new())))
}

pub fn store(class: &str, b: Box<dyn Any + Send>) -> Value {
    let mut g = objs().lock().unwrap_or_else(|e| e.into_inner());
    g.0 += 1;
    let id = g.0;
    g.1.insert(id, b);
    Value::Obj(class.to_string(), id)
}

pub fn split_self(args: &[Value]) -> Result<(u64, &[Value]), PyErr> {
    match args.first() {
        Some(Value::Obj(_, id)) => Ok((*id, &args[1..])),
        _ => Err(PyErr::new("TypeError", "no self".into())),
    }
}

pub fn with_obj<T: 'static, R>(
    id: u64,
    f: impl FnOnce(&mut T) -> Result<R, PyErr>,
) -> Result<R, PyErr> {
    let taken = objs().lock().unwrap_or_else(|e| e.into_inner()).1.remove(&id);
    let Some(mut b) = taken else {
        return Err(PyErr::new("RuntimeError", "dead object".into()));
    };
    let r = catch_unwind(AssertUnwindSafe(|| match b.downcast_mut::<T>() {
        Some(t) => f(t),
        None => Err(PyErr::new("TypeError", "wrong class".into())),
    }));
    objs().lock().unwrap_or_else(|e| e.into_inner()).1.insert(id, b);
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}

// JSON --------------------------------------------------------------------

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{u:04x}");
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn seq(l: &[Value], o: &mut String) {
    o.push('[');
    for (i, v) in l.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        dump(v, o);
    }
    o.push(']');
}

fn dump(v: &Value, o: &mut String) {
    match v {
        Value::Missing | Value::None => o.push_str("null"),
        Value::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Value::Int(i) => {
            let _ = write!(o, "{i}");
        }
        Value::Float(f) => {
            let _ = write!(o, "{f:?}");
        }
        Value::Str(s) => esc(s, o),
        Value::List(l) => seq(l, o),
        Value::Tuple(l) => {
            o.push_str("{\"t\":");
            seq(l, o);
            o.push('}');
        }
        Value::Dict(d) => {
            o.push_str("{\"d\":[");
            for (i, (k, v)) in d.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('[');
                dump(k, o);
                o.push(',');
                dump(v, o);
                o.push(']');
            }
            o.push_str("]}");
        }
        Value::Obj(c, id) => {
            let _ = write!(o, "{{\"o\":[\"{c}\",{id}]}}");
        }
        Value::Enum(c, n) => {
            let _ = write!(o, "{{\"e\":[\"{c}\",\"{n}\"]}}");
        }
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

enum Raw {
    Val(Value),
    Tagged(String, Value),
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn list(&mut self) -> Vec<Value> {
        let mut out = vec![];
        if self.eat(b']') {
            return out;
        }
        loop {
            out.push(self.value());
            if !self.eat(b',') {
                assert!(self.eat(b']'));
                return out;
            }
        }
    }
    fn string(&mut self) -> String {
        let mut u: Vec<u16> = vec![];
        loop {
            let c = self.b[self.i];
            self.i += 1;
            match c {
                b'"' => return String::from_utf16_lossy(&u),
                b'\\' => {
                    let e = self.b[self.i];
                    self.i += 1;
                    match e {
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
                            u.push(u16::from_str_radix(h, 16).unwrap());
                            self.i += 4;
                        }
                        b'n' => u.push(10),
                        b't' => u.push(9),
                        b'r' => u.push(13),
                        b'b' => u.push(8),
                        b'f' => u.push(12),
                        c => u.push(c.into()),
                    }
                }
                c => u.push(c.into()), // the sender escapes non-ASCII
            }
        }
    }
    fn value(&mut self) -> Value {
        match self.raw() {
            Raw::Val(v) => v,
            Raw::Tagged(t, v) => {
                let Value::List(l) = v else { panic!("bad tag body") };
                match t.as_str() {
                    "t" => Value::Tuple(l),
                    "m" => Value::Missing,
                    "d" => Value::Dict(
                        l.into_iter()
                            .map(|kv| match kv {
                                Value::List(kv) => (kv[0].clone(), kv[1].clone()),
                                _ => panic!("bad dict"),
                            })
                            .collect(),
                    ),
                    "o" => match (&l[0], &l[1]) {
                        (Value::Str(c), Value::Int(i)) => Value::Obj(c.clone(), *i as u64),
                        _ => panic!("bad obj"),
                    },
                    "e" => match (&l[0], &l[1]) {
                        (Value::Str(c), Value::Str(n)) => Value::Enum(c.clone(), n.clone()),
                        _ => panic!("bad enum"),
                    },
                    _ => panic!("bad tag"),
                }
            }
        }
    }
    fn raw(&mut self) -> Raw {
        self.ws();
        let c = self.b[self.i];
        self.i += 1;
        Raw::Val(match c {
            b'n' => {
                self.i += 3;
                Value::None
            }
            b't' => {
                self.i += 3;
                Value::Bool(true)
            }
            b'f' => {
                self.i += 4;
                Value::Bool(false)
            }
            b'"' => Value::Str(self.string()),
            b'[' => Value::List(self.list()),
            b'{' => {
                assert!(self.eat(b'"'));
                let tag = self.string();
                assert!(self.eat(b':'));
                let v = self.value();
                assert!(self.eat(b'}'));
                return Raw::Tagged(tag, v);
            }
            _ => {
                let st = self.i - 1;
                while self.i < self.b.len() && (self.b[self.i].is_ascii_digit() || self.b[self.i] == b'-') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
                match t.parse::<i128>() {
                    Ok(i) => Value::Int(i),
                    // wider than anything on the Rust side: refused by every
                    // integer conversion, as pyo3 would
                    Err(_) => Value::Int(if t.starts_with('-') { i128::MIN } else { i128::MAX }),
                }
            }
        })
    }
}

// calls -------------------------------------------------------------------

struct Tables {
    funcs: HashMap<String, FnDef>,
    desc: String,
}

static TABLES: OnceLock<Tables> = OnceLock::new();
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn desc_fn(d: &FnDef, o: &mut String) {
    let _ = write!(o, "{{\"name\":\"{}\",\"kind\":\"{}\",\"params\":[", d.name, d.kind);
    for (i, (n, has)) in d.params.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "[\"{n}\",{has}]");
    }
    o.push_str("]}");
}

pub fn register(items: Vec<Item>) {
    std::panic::set_hook(Box::new(|info| {
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        *g = format!("{info}");
    }));
    let mut funcs = HashMap::new();
    let mut desc = String::from("[");
    for (n, item) in items.into_iter().enumerate() {
        if n > 0 {
            desc.push(',');
        }
        match item {
            Item::Func(d) => {
                desc.push_str("{\"func\":");
                desc_fn(&d, &mut desc);
                desc.push('}');
                funcs.insert(d.name.to_string(), d);
            }
            Item::Class(name, defs) => {
                let _ = write!(desc, "{{\"class\":\"{name}\",\"defs\":[");
                for (i, d) in defs.into_iter().enumerate() {
                    if i > 0 {
                        desc.push(',');
                    }
                    desc_fn(&d, &mut desc);
                    funcs.insert(format!("{name}.{}", d.name), d);
                }
                desc.push_str("]}");
            }
            Item::Enum(name, vars) => {
                let _ = write!(desc, "{{\"enum\":\"{name}\",\"variants\":[");
                for (i, v) in vars.into_iter().enumerate() {
                    if i > 0 {
                        desc.push(',');
                    }
                    let _ = write!(desc, "\"{v}\"");
                }
                desc.push_str("]}");
            }
        }
    }
    desc.push(']');
    let _ = TABLES.set(Tables { funcs, desc });
}

fn give(s: String, n: *mut usize) -> *mut u8 {
    let b = s.into_bytes().into_boxed_slice();
    unsafe {
        *n = b.len();
    }
    Box::into_raw(b).cast::<u8>()
}

/// # Safety
/// C ABI.
pub unsafe fn describe(n: *mut usize) -> *mut u8 {
    give(TABLES.get().unwrap().desc.clone(), n)
}

/// # Safety
/// C ABI.
pub unsafe fn free(p: *mut u8, l: usize) {
    drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, l)) });
}

/// # Safety
/// C ABI.
pub unsafe fn call(p: *const u8, l: usize, n: *mut usize) -> *mut u8 {
    let bytes = unsafe { std::slice::from_raw_parts(p, l) };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let Value::List(mut l) = (P { b: bytes, i: 0 }).value() else {
            panic!("bad request")
        };
        let args = l.split_off(1);
        let Value::Str(name) = &l[0] else { panic!("bad request") };
        if name == "__drop__" {
            if let Value::Obj(_, id) = &args[0] {
                objs().lock().unwrap_or_else(|e| e.into_inner()).1.remove(id);
            }
            return Ok(Value::None);
        }
        match TABLES.get().unwrap().funcs.get(name) {
            Some(d) => (d.call)(&args),
            None => Err(PyErr::new("AttributeError", name.clone())),
        }
    }));
    let mut o = String::new();
    match r {
        Ok(Ok(v)) => {
            o.push_str("{\"ok\":");
            dump(&v, &mut o);
            o.push('}');
        }
        Ok(Err(e)) => {
            let _ = write!(o, "{{\"err\":\"{}\",\"msg\":", e.kind);
            esc(&e.msg, &mut o);
            o.push('}');
        }
        Err(_) => {
            let g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            o.push_str("{\"err\":\"panic\",\"msg\":");
            esc(&g, &mut o);
            o.push('}');
        }
    }
    give(o, n)
}
