//! Uses of `upon::value!`, one per rule of the macro and per way of nesting
//! one rule in another. Never run: their MIR is compared with the reference's.
#![allow(clippy::all)]
use serde::Serialize;
use upon::{value, Value};

pub fn empty() -> Value {
    value! {}
}
pub fn one(a: &str) -> Value {
    value! { first: a }
}
pub fn one_comma(a: &str) -> Value {
    value! { first: a, }
}
pub fn generic<T: Serialize, U: Serialize>(a: T, b: U) -> Value {
    value! { first: a, second: b }
}
pub fn generic_comma<T: Serialize, U: Serialize>(a: T, b: U) -> Value {
    value! { first: a, second: b, }
}
pub fn literals() -> Value {
    value! { t: true, f: false, i: 36, neg: -7, fl: 1.5, s: "text", n: None }
}
pub fn none_first(a: i64) -> Value {
    value! { n: None, a: a }
}
pub fn none_last(a: i64) -> Value {
    value! { a: a, n: None, }
}
pub fn repeated(a: i64, b: i64) -> Value {
    value! { same: a, same: b }
}
pub fn empty_list() -> Value {
    value! { list: [] }
}
pub fn list_exprs<T: Serialize>(a: T, b: T, c: T) -> Value {
    value! { list: [a, b, c] }
}
pub fn list_exprs_comma<T: Serialize>(a: T, b: T, c: T) -> Value {
    value! { list: [a, b, c,], after: None }
}
pub fn list_literals() -> Value {
    value! { list: [true, false, 1, 2.5, "x", None] }
}
pub fn list_none(a: i64) -> Value {
    value! { list: [None, a, None], other: [None] }
}
pub fn list_lists(a: i64, b: i64) -> Value {
    value! { list: [[], [a], [a, b], [[b], a]] }
}
pub fn list_maps(a: i64, b: &str) -> Value {
    value! { list: [{}, { x: a }, { x: a, y: b }, a, { z: [b] }] }
}
pub fn empty_map() -> Value {
    value! { map: {} }
}
pub fn maps(a: i64, b: &str) -> Value {
    value! { map: { x: a, y: b }, after: a }
}
pub fn maps_comma(a: i64, b: &str) -> Value {
    value! { before: b, map: { x: { y: { z: a, }, }, }, }
}
pub fn map_kinds(a: i64) -> Value {
    value! { map: { n: None, l: [a, None], m: { t: true }, e: {}, el: [], v: a } }
}
pub fn exprs(a: i64, b: Option<&str>, c: &[u8]) -> Value {
    value! { sum: a + 1, opt: b, neg: !(a == 2), part: c[0], call: c.len(), block: { inner: a } }
}
pub fn deep(users: Vec<String>, flag: bool) -> Value {
    value! {
        users: [
            { name: "John Smith", age: 36, is_enabled: flag, address: None, },
            { name: users, tags: [["a", "b"], []], is_enabled: !flag },
        ],
        count: 2,
    }
}
