//! P04: $in, $nin, $all and $size.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::CollectionT;
use std::cmp::Ordering;

harness! { TABLE; h_p04_scalar => scalar; h_p04_array => array; h_p04_size => size; h_p04_mixed => mixed; }

const OPN: [&str; 4] = ["$in", "$nin", "$all", "$size"];
fn eq(a: &Bson, b: &Bson) -> bool {
    if let (Bson::Double(x), Bson::Double(y)) = (a, b) { if x != x && y != y { return true } }
    ref_cmp(a, b) == Some(Ordering::Equal)
}
fn one(v: &Bson, c: &Bson) -> bool {
    if eq(v, c) { return true }
    if let Bson::Array(l) = v { return l.iter().any(|x| eq(x, c)) }
    false
}
fn want(op: usize, v: Option<&Bson>, cand: &[Bson]) -> bool {
    let is = |c: &Bson| match v { Some(v) => one(v, c), None => false };
    match op {
        0 => cand.iter().any(|c| is(c)),
        1 => !cand.iter().any(|c| is(c)),
        _ => !cand.is_empty() && cand.iter().all(|c| is(c)),
    }
}
fn run(op: usize, vals: Vec<Option<Bson>>, cand: Vec<Bson>) {
    let db = open();
    let c = coll(&db, "c");
    let mut w = vec![];
    for (i, v) in vals.iter().enumerate() {
        let mut d: Document = doc! {"_id": i as i32};
        if let Some(v) = v { d.insert("x", v.clone()); }
        c.insert_one(d).unwrap();
        if want(op, v.as_ref(), &cand) { w.push(i as i32) }
    }
    match w.len() { 0 => vf::cover("none"), n if n == vals.len() => vf::cover("all"), _ => vf::cover("some") }
    match find(&c, doc! {"x": {OPN[op]: cand}}) {
        Ok(r) => vf::check(ids(&r) == w, "membership operators select exactly the documents that qualify"),
        Err(_) => vf::check(false, "a membership filter is accepted"),
    }
}

const T: &[(Ty, Ty)] = &[
    (Ty::Bool, Ty::Bool), (Ty::I32, Ty::I32), (Ty::I32, Ty::I64), (Ty::I64, Ty::I32), (Ty::I64, Ty::I64), (Ty::F64, Ty::F64),
    (Ty::I64, Ty::F64S), (Ty::F64S, Ty::I32), (Ty::Str0, Ty::Str1), (Ty::Str1, Ty::Str1), (Ty::Str2, Ty::Str1), (Ty::Str2, Ty::Str2), (Ty::Oid, Ty::Oid), (Ty::Date, Ty::Date),
    (Ty::Bin1, Ty::Bin1), (Ty::I32, Ty::Str1), (Ty::Bool, Ty::I32), (Ty::Null, Ty::I32),
];
/// a scalar field, one or two candidates, a document without the field
fn scalar(tier: u64) {
    let (tv, tc) = T[vf::pick(T.len(), "types")];
    let op = vf::pick(3, "op");
    let n = vf::pick(3, "candidates");
    let slow = (tv == Ty::F64S) != (tc == Ty::F64S);
    if slow && tier == 0 && n > 1 { return }
    let v = value(tv, "v");
    let mut cand = vec![];
    if n > 0 { cand.push(value(tc, "c0")); }
    if n > 1 { cand.push(Bson::Boolean(true)); cand.push(value(tc, "c1")); }
    run(op, vec![Some(v), None, Some(Bson::String("~".into()))], cand);
}
/// an array field of 0..3 elements
fn array(_tier: u64) {
    let op = vf::pick(3, "op");
    let n = vf::pick(4, "elements");
    let m = vf::pick(3, "candidates");
    let e: Vec<Bson> = (0..n).map(|i| if i == 1 { Bson::Int64(vf::any_i64("e1")) } else { Bson::Int32(vf::any_i32("e")) }).collect();
    let cand: Vec<Bson> = (0..m).map(|i| if i == 0 { Bson::Int32(vf::any_i32("c0")) } else { Bson::Int64(vf::any_i64("c1")) }).collect();
    run(op, vec![Some(Bson::Array(e)), Some(Bson::Int32(7))], cand);
}
/// the array itself as a candidate; several conditions on the field
fn mixed(_tier: u64) {
    let op = vf::pick(4, "op");
    let (a, b) = (vf::any_i32("a"), vf::any_i32("b"));
    let (p, q) = (vf::any_i32("p"), vf::any_i32("q"));
    let db = open();
    let c = coll(&db, "c");
    c.insert_one(doc! {"_id": 0, "x": [a, b]}).unwrap();
    c.insert_one(doc! {"_id": 1, "x": a}).unwrap();
    c.insert_one(doc! {"_id": 2, "x": [[a, b]]}).unwrap();
    let whole = a == p && b == q;
    let (f, w) = match op {
        // a whole array as candidate
        0 => (doc! {"x": {"$in": [[p, q]]}}, [whole, false, whole]),
        1 => (doc! {"x": {"$nin": [[p, q]]}}, [!whole, true, !whole]),
        // negated membership
        2 => (doc! {"x": {"$not": {"$in": [p]}}}, [!(a == p || b == p), a != p, true]),
        _ => (doc! {"x": {"$in": [p, q], "$nin": [q]}}, [(a == p || b == p) && a != q && b != q, a == p && a != q, false]),
    };
    let want: Vec<i32> = (0..3).filter(|i| w[*i as usize]).collect();
    vf::cover("combined");
    match find(&c, f) {
        Ok(r) => vf::check(ids(&r) == want, "membership operators select exactly the documents that qualify"),
        Err(_) => vf::check(false, "a membership filter is accepted"),
    }
}
/// $size for every length and every number
fn size(_tier: u64) {
    let n = vf::any_i64("n");
    let neg = vf::pick(2, "not") == 1;
    let db = open();
    let c = coll(&db, "c");
    for i in 0..4i32 {
        let e: Vec<Bson> = (0..i).map(|k| Bson::Int32(k)).collect();
        c.insert_one(doc! {"_id": i, "x": e, "k": i}).unwrap();
    }
    c.insert_one(doc! {"_id": 9}).unwrap();
    let s = doc! {"$size": n};
    let f = if neg { doc! {"x": {"$not": s}} } else { doc! {"x": s, "k": {"$gte": 0}} };
    let want: Vec<i32> = (0..4).filter(|i| (*i as i64 == n) != neg).collect();
    if want.is_empty() { vf::cover("no such size") } else { vf::cover("size") }
    match find(&c, f) {
        Ok(r) => vf::check(ids(&r) == want, "$size selects exactly the arrays of that length"),
        Err(_) => vf::check(false, "a $size filter is accepted"),
    }
}
