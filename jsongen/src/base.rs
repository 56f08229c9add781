//! Value, the conversion traits the derives expect, and random values of the field types.
use crate::{FromJSON, ToJSON, Value};
use std::collections::HashMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

/// Random values of a type, and JSON values of a kind the type does not accept.
pub trait Gen: Sized {
    fn gen(r: &mut Rng) -> Self;
    fn wrong(r: &mut Rng) -> Value;
}

impl FromJSON for i64 {
    fn from_json(v: Value) -> Option<Self> {
        match v {
            Value::Int(i) => Some(i),
            _ => None,
        }
    }
}
impl ToJSON for i64 {
    fn to_json(self) -> Option<Value> {
        Some(Value::Int(self))
    }
}
impl Gen for i64 {
    fn gen(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => i64::MAX,
            1 => i64::MIN,
            2 => r.below(10) as i64,
            _ => r.next() as i64,
        }
    }
    fn wrong(r: &mut Rng) -> Value {
        [Value::Null, Value::Str("1".into()), Value::Bool(true), Value::Array(vec![Value::Int(1)])][r.below(4) as usize].clone()
    }
}
impl FromJSON for bool {
    fn from_json(v: Value) -> Option<Self> {
        match v {
            Value::Bool(i) => Some(i),
            _ => None,
        }
    }
}
impl ToJSON for bool {
    fn to_json(self) -> Option<Value> {
        Some(Value::Bool(self))
    }
}
impl Gen for bool {
    fn gen(r: &mut Rng) -> Self {
        r.below(2) == 0
    }
    fn wrong(r: &mut Rng) -> Value {
        [Value::Null, Value::Str("true".into()), Value::Int(1), Value::Object(HashMap::new())][r.below(4) as usize].clone()
    }
}
impl FromJSON for String {
    fn from_json(v: Value) -> Option<Self> {
        match v {
            Value::Str(i) => Some(i),
            _ => None,
        }
    }
}
impl ToJSON for String {
    fn to_json(self) -> Option<Value> {
        Some(Value::Str(self))
    }
}
impl Gen for String {
    fn gen(r: &mut Rng) -> Self {
        ["", "a", "é\"\\", "x\0y", "long long long text"][r.below(5) as usize].to_owned()
    }
    fn wrong(r: &mut Rng) -> Value {
        [Value::Null, Value::Int(1), Value::Bool(false), Value::Array(vec![])][r.below(4) as usize].clone()
    }
}
impl<T: FromJSON> FromJSON for Vec<T> {
    fn from_json(v: Value) -> Option<Self> {
        match v {
            Value::Array(a) => a.into_iter().map(T::from_json).collect(),
            _ => None,
        }
    }
}
impl<T: ToJSON> ToJSON for Vec<T> {
    fn to_json(self) -> Option<Value> {
        Some(Value::Array(self.into_iter().map(T::to_json).collect::<Option<_>>()?))
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        (0..r.below(4)).map(|_| T::gen(r)).collect()
    }
    fn wrong(r: &mut Rng) -> Value {
        match r.below(3) {
            0 => Value::Null,
            1 => Value::Object(HashMap::new()),
            _ => Value::Array(vec![T::wrong(r)]),
        }
    }
}
impl<T: FromJSON> FromJSON for Option<T> {
    fn from_json(v: Value) -> Option<Self> {
        match v {
            Value::Null => Some(None),
            x => T::from_json(x).map(Some),
        }
    }
}
impl<T: ToJSON> ToJSON for Option<T> {
    fn to_json(self) -> Option<Value> {
        match self {
            None => Some(Value::Null),
            Some(x) => x.to_json(),
        }
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng) -> Self {
        if r.below(3) == 0 {
            None
        } else {
            Some(T::gen(r))
        }
    }
    fn wrong(r: &mut Rng) -> Value {
        loop {
            match T::wrong(r) {
                Value::Null => {}
                v => return v,
            }
        }
    }
}
impl<T: FromJSON> FromJSON for Box<T> {
    fn from_json(v: Value) -> Option<Self> {
        T::from_json(v).map(Box::new)
    }
}
impl<T: ToJSON> ToJSON for Box<T> {
    fn to_json(self) -> Option<Value> {
        (*self).to_json()
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(r: &mut Rng) -> Self {
        Box::new(T::gen(r))
    }
    fn wrong(r: &mut Rng) -> Value {
        T::wrong(r)
    }
}
impl<A: FromJSON, B: FromJSON> FromJSON for (A, B) {
    fn from_json(v: Value) -> Option<Self> {
        match v {
            Value::Array(mut a) if a.len() == 2 => {
                let b = a.pop()?;
                Some((A::from_json(a.pop()?)?, B::from_json(b)?))
            }
            _ => None,
        }
    }
}
impl<A: ToJSON, B: ToJSON> ToJSON for (A, B) {
    fn to_json(self) -> Option<Value> {
        Some(Value::Array(vec![self.0.to_json()?, self.1.to_json()?]))
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r))
    }
    fn wrong(_: &mut Rng) -> Value {
        Value::Int(3)
    }
}

/// What one derived type has to satisfy. `fields`: the JSON of the fields, in order, with a wrong value for each.
pub struct Log {
    pub evals: u64,
    pub types: u64,
    pub bad: Vec<String>,
}
pub fn drive<S: FromJSON + ToJSON + Gen + Clone + PartialEq + std::fmt::Debug>(
    name: &str,
    names: Option<&[&str]>,
    parts: impl Fn(&S) -> Vec<Value>,
    wrongs: impl Fn(&mut Rng) -> Vec<Value>,
    r: &mut Rng,
    log: &mut Log,
    n: u64,
) {
    log.types += 1;
    let mut err = |what: String| {
        if log.bad.len() < 5 {
            log.bad.push(format!("{}: {}", name, what))
        }
    };
    let mut evals = 0;
    for _ in 0..n {
        let v = S::gen(r);
        let ps = parts(&v);
        let want = match names {
            Some(ns) => Value::Object(ns.iter().map(|s| s.to_string()).zip(ps.iter().cloned()).collect()),
            None => Value::Array(ps.clone()),
        };
        let got = v.clone().to_json();
        evals += 1;
        if got.as_ref() != Some(&want) {
            err(format!("{:?} converts to {:?}, expected {:?}", v, got, want));
        }
        let back = S::from_json(want.clone());
        evals += 1;
        if back.as_ref() != Some(&v) {
            err(format!("{:?} reads back as {:?}", want, back));
        }
        if let Some(g) = got {
            evals += 1;
            if S::from_json(g.clone()) != Some(v.clone()) {
                err(format!("round trip of {:?} through {:?} is not equal", v, g));
            }
        }
        let mut reject = |w: Value, why: &str| {
            evals += 1;
            if let Some(x) = S::from_json(w.clone()) {
                err(format!("{} accepted: {:?} reads as {:?}", why, w, x));
            }
        };
        for w in [Value::Null, Value::Bool(true), Value::Int(0), Value::Str(String::new())] {
            reject(w, "another kind");
        }
        let wr = wrongs(r);
        match names {
            Some(ns) => {
                reject(Value::Array(ps.clone()), "array for an object");
                let obj: HashMap<String, Value> = ns.iter().map(|s| s.to_string()).zip(ps.iter().cloned()).collect();
                for (i, f) in ns.iter().enumerate() {
                    let mut o = obj.clone();
                    let x = o.remove(*f).unwrap();
                    reject(Value::Object(o.clone()), "missing field");
                    o.insert(f.to_uppercase() + "_", x.clone());
                    reject(Value::Object(o), "renamed field");
                    let mut o = obj.clone();
                    o.insert(f.to_string(), wr[i].clone());
                    reject(Value::Object(o), "field of the wrong type");
                    let mut o = obj.clone();
                    o.insert(format!(" {}", f), x);
                    reject(Value::Object(o), "surplus field");
                }
                for k in ["", "extra", "0", "r#x", "type"] {
                    if !ns.contains(&k) {
                        let mut o = obj.clone();
                        o.insert(k.to_string(), [Value::Null, Value::Int(1)][r.below(2) as usize].clone());
                        reject(Value::Object(o), "surplus field");
                    }
                }
            }
            None => {
                let o: HashMap<String, Value> = ps.iter().enumerate().map(|(i, v)| (i.to_string(), v.clone())).collect();
                reject(Value::Object(o), "object for an array");
                for i in 0..ps.len() {
                    let mut a = ps.clone();
                    a.remove(i);
                    reject(Value::Array(a), "missing element");
                    let mut a = ps.clone();
                    a[i] = wr[i].clone();
                    reject(Value::Array(a), "element of the wrong type");
                }
                for i in 0..=ps.len() {
                    let mut a = ps.clone();
                    a.insert(i, Value::Null);
                    if i == ps.len() {
                        reject(Value::Array(a.clone()), "surplus element");
                    }
                    a.push(Value::Int(1));
                    reject(Value::Array(a), "surplus elements");
                }
            }
        }
    }
    log.evals += evals;
}
