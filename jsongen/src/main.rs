//! Runs the round-trip and rejection monitors on the derived types of shapes.rs (generated).
#![allow(non_snake_case, non_camel_case_types, uncommon_codepoints, dead_code, unused)]
mod base;
#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Array(Vec<Value>),
    Object(std::collections::HashMap<String, Value>),
}
pub trait FromJSON: Sized {
    fn from_json(val: Value) -> Option<Self>;
}
pub trait ToJSON {
    fn to_json(self) -> Option<Value>;
}
mod shapes {
    include!(concat!(env!("SHAPES"), "/shapes.rs"));
}
fn main() {
    let mut a = std::env::args().skip(1);
    let n = a.next().unwrap().parse().unwrap();
    let mut r = base::Rng(a.next().unwrap().parse::<u64>().unwrap() | 1);
    let mut log = base::Log { evals: 0, types: 0, bad: vec![] };
    shapes::run(&mut r, &mut log, n);
    println!("{} {}", log.evals, log.types);
    for b in log.bad {
        println!("BAD {}", b.replace('\n', " "));
    }
}
