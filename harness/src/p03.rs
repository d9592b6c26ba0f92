//! P03: dotted paths reach embedded fields and nothing else.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::CollectionT;

harness! { TABLE; h_p03_path => path; h_p03_in => member; }

/// Documents shaped around the path; (document, value at the end of `p`).
fn docs(p: usize, v: i32, w: i32) -> Vec<(Document, Option<i32>)> {
    if p == 0 {
        vec![
            (doc! {"_id": 1, "a": {"b": v}, "b": w}, Some(v)),
            (doc! {"_id": 2, "b": v, "a": {"c": v}}, None),
            (doc! {"_id": 3, "a": v}, None),
            (doc! {"_id": 4, "a": {"z": {"b": v}, "b": w, "bb": v}}, Some(w)),
            (doc! {"_id": 5, "c": {"b": v}}, None),
            (doc! {"_id": 6, "a": {}}, None),
            (doc! {"_id": 7, "a": Bson::Null, "a_b": v, "ab": {"b": v}}, None),
            (doc! {"_id": 8, "a": [v]}, None),
            (doc! {"_id": 9, "z": 0, "a": {"z": 1, "b": w}}, Some(w)),
        ]
    } else {
        vec![
            (doc! {"_id": 1, "a": {"b": {"c": v}, "c": w}}, Some(v)),
            (doc! {"_id": 2, "a": {"b": v}, "c": v}, None),
            (doc! {"_id": 3, "a": {"c": {"b": v}}, "b": {"c": v}}, None),
            (doc! {"_id": 4, "a": {"x": 1, "b": {"x": 2, "c": w}}}, Some(w)),
            (doc! {"_id": 5, "a": {"b": {"a": {"b": {"c": v}}}}}, None),
            (doc! {"_id": 6, "a": {"b": {"b": v, "c": w}}}, Some(w)),
            (doc! {"_id": 7, "a": {"b": [{"c": v}]}}, None),
            (doc! {"_id": 8, "a": {"b": {}}}, None),
        ]
    }
}
const PATHS: [&str; 2] = ["a.b", "a.b.c"];

fn path(_tier: u64) {
    let p = vf::pick(2, "path");
    let op = OPS[vf::pick(OPS.len(), "op")];
    let (v, w, q) = (vf::any_i32("v"), vf::any_i32("w"), vf::any_i32("q"));
    let ds = docs(p, v, w);
    // alone or together with an ordinary condition, or negated
    let form = vf::pick(3, "form");
    let db = open();
    let c = coll(&db, "c");
    for (d, _) in &ds { c.insert_one(d.clone()).unwrap(); }
    let co = cond(op, Bson::Int32(q));
    let f = match form {
        0 => doc! {PATHS[p]: co},
        1 => doc! {"_id": {"$lt": 5}, PATHS[p]: co},
        _ => { if op == Op::Plain { return } doc! {PATHS[p]: {"$not": co}} }
    };
    let mut want = vec![];
    for (d, x) in &ds {
        let id = d.get_i32("_id").unwrap();
        let Some(x) = x else { continue };
        let h = holds(op, if *x < q { std::cmp::Ordering::Less } else if *x > q { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal });
        if (form == 2) == h { continue }
        if form == 1 && id >= 5 { continue }
        want.push(id);
    }
    if want.is_empty() { vf::cover("none") } else { vf::cover("some") }
    match find(&c, f) {
        Ok(r) => vf::check(ids(&r) == want, "a dotted path is decided by the value at its end only"),
        Err(_) => vf::check(false, "a condition on a dotted path is accepted"),
    }
}

fn member(_tier: u64) {
    let p = vf::pick(2, "path");
    let neg = vf::pick(2, "nin");
    let (v, w, q) = (vf::any_i32("v"), vf::any_i32("w"), vf::any_i32("q"));
    let ds = docs(p, v, w);
    let db = open();
    let c = coll(&db, "c");
    for (d, _) in &ds { c.insert_one(d.clone()).unwrap(); }
    let r = find(&c, if neg == 0 { doc! {PATHS[p]: {"$in": [q]}} } else { doc! {PATHS[p]: {"$nin": [q]}} });
    let mut want = vec![];
    for (d, x) in &ds {
        let m = match x { Some(x) => *x == q, None => false };
        if m == (neg == 0) { want.push(d.get_i32("_id").unwrap()) }
    }
    if want.len() == ds.len() { vf::cover("all") } else { vf::cover("member") }
    match r {
        Ok(r) => vf::check(ids(&r) == want, "membership on a dotted path is decided by the value at its end only"),
        Err(_) => vf::check(false, "membership on a dotted path is accepted"),
    }
}
