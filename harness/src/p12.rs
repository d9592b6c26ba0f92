//! P12: update operators change exactly what they say.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::CollectionT;
use std::cmp::Ordering;

harness! {
    TABLE; h_p12_arith => arith; h_p12_fields => fields; h_p12_array => array; h_p12_minmax => minmax; h_p12_pairs => pairs; h_p12_key => key; h_p12_several => several;
}

/// the result of `x op y`, None: refused
fn calc(mul: bool, x: &Bson, y: &Bson) -> Option<Bson> {
    let wide = |a: i64, b: i64| if mul { a.checked_mul(b) } else { a.checked_add(b) };
    let fl = |a: f64, b: f64| Bson::Double(if mul { a * b } else { a + b });
    Some(match (x, y) {
        (Bson::Int32(a), Bson::Int32(b)) => {
            let r = if mul { *a as i64 * *b as i64 } else { *a as i64 + *b as i64 };
            if r >= i32::MIN as i64 && r <= i32::MAX as i64 { Bson::Int32(r as i32) } else { Bson::Int64(r) }
        }
        (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(wide(*a as i64, *b)?),
        (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(wide(*a, *b as i64)?),
        (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(wide(*a, *b)?),
        (Bson::Double(a), Bson::Double(b)) => fl(*a, *b),
        (Bson::Double(a), Bson::Int32(b)) => fl(*a, *b as f64),
        (Bson::Double(a), Bson::Int64(b)) => fl(*a, *b as f64),
        (Bson::Int32(a), Bson::Double(b)) => fl(*a as f64, *b),
        (Bson::Int64(a), Bson::Double(b)) => fl(*a as f64, *b),
        _ => return None,
    })
}

/// one operator on one field; None: refused
pub fn apply(op: &str, f: &str, v: &Bson, d: &mut Document) -> Option<()> {
    match op {
        "$set" => { d.insert(f, v.clone()); }
        "$unset" => { *d = d.iter().filter(|(k, _)| *k != f).map(|(k, v)| (k.clone(), v.clone())).collect(); }
        "$inc" | "$mul" => {
            let r = match d.get(f) { None => v.clone(), Some(x) => calc(op == "$mul", x, v)? };
            d.insert(f, r);
        }
        "$min" | "$max" => {
            let x = d.get(f)?;
            let c = ref_cmp(v, x)?;
            if c == (if op == "$min" { Ordering::Less } else { Ordering::Greater }) { d.insert(f, v.clone()); }
        }
        "$rename" => {
            let to = v.as_str().unwrap();
            if let Some(x) = d.get(f).cloned() {
                *d = d.iter().filter(|(k, _)| *k != f).map(|(k, v)| (k.clone(), v.clone())).collect();
                d.insert(to, x);
            }
        }
        "$push" => {
            let mut a = match d.get(f) { None | Some(Bson::Null) => vec![], Some(Bson::Array(a)) => a.clone(), _ => return None };
            a.push(v.clone());
            d.insert(f, a);
        }
        "$pop" => {
            let a = match d.get(f) { None | Some(Bson::Null) => vec![], Some(Bson::Array(a)) => a.clone(), _ => return None };
            let n = a.len();
            let first = matches!(v, Bson::Int32(1) | Bson::Int64(1));
            let a: Vec<Bson> = a.into_iter().enumerate().filter(|(i, _)| *i != if first { 0 } else { n - 1 }).map(|x| x.1).collect();
            d.insert(f, a);
        }
        _ => unreachable!(),
    }
    Some(())
}

/// Stores `docs`, runs the update over all of them and compares.
fn run(docs: &[Document], upd: Document, want: Option<Vec<Document>>, one: bool) {
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(docs.to_vec()).unwrap();
    let r = if one { c.update_one(doc! {}, upd) } else { c.update_many(doc! {}, upd) };
    let got = all(&c);
    match want {
        Some(w) => {
            vf::check(r.is_ok(), "an applicable update is accepted");
            vf::check(same_docs(&got, &w), "the update changes exactly what its operators say");
        }
        None => {
            vf::check(r.is_err(), "an update that does not apply is refused");
            vf::check(same_docs(&got, docs), "a refused update changes nothing");
        }
    }
}

const NUM: [Ty; 3] = [Ty::I32, Ty::I64, Ty::F64S];
fn arith(_tier: u64) {
    let mul = vf::pick(2, "op") == 1;
    let op = if mul { "$mul" } else { "$inc" };
    let (k, l) = (vf::pick(8, "stored"), vf::pick(4, "operand"));
    let stored = match k {
        0..=2 => Some(value(NUM[k], "x")),
        3 => None,
        4 => Some(Bson::Null),
        5 => Some(Bson::String("1".into())),
        6 => Some(Bson::Boolean(true)),
        _ => Some(Bson::Array(vec![Bson::Int32(1)])),
    };
    // a product of two arbitrary 64-bit numbers is beyond the solver: one
    // factor comes from a list
    let y = match l {
        1 if mul => Bson::Int64([0, 1, -1, 2, -3, 1 << 33, i64::MAX, i64::MIN][vf::pick(8, "factor")]),
        0 if mul && k == 1 => Bson::Int32([0, 1, -1, 7, i32::MAX, i32::MIN][vf::pick(6, "factor")]),
        0..=2 => value(NUM[l], "y"),
        _ => Bson::String("1".into()),
    };
    if l == 3 && (k == 3 || k > 5) { return }
    if mul && k == 3 { return }
    let mut d = doc! {"_id": 1, "a": 0};
    if let Some(s) = stored { d.insert("x", s); }
    d.insert("z", 9);
    let mut w = d.clone();
    let ok = apply(op, "x", &y, &mut w).is_some();
    if ok { vf::cover("arithmetic") } else { vf::cover("refused") }
    run(&[d], doc! {op: {"x": y}}, if ok { Some(vec![w]) } else { None }, true);
}

/// $set, $unset, $rename on present and absent fields
fn fields(_tier: u64) {
    let (a, v) = (vf::any_i32("a"), vf::any_i64("v"));
    let d = doc! {"_id": 1, "a": a, "b": {"c": a, "d": 1}, "e": [1, a], "f": "x"};
    let f = ["a", "b", "e", "f", "n"][vf::pick(5, "field")];
    let (op, y) = match vf::pick(8, "op") {
        0 => ("$set", Bson::Int64(v)),
        1 => ("$set", Bson::Null),
        2 => ("$set", Bson::Document(doc! {"c": v, "$x": 1})),
        3 => ("$set", Bson::Array(vec![Bson::Int64(v)])),
        4 => ("$unset", Bson::String("".into())),
        5 => ("$unset", Bson::Int32(1)),
        6 => ("$rename", Bson::String("g".into())),
        _ => ("$rename", Bson::String("f".into())),
    };
    if op == "$rename" && f == "f" && y.as_str() == Some("f") { return }
    let mut w = d.clone();
    apply(op, f, &y, &mut w).unwrap();
    vf::cover(op);
    run(&[d], doc! {op: {f: y}}, Some(vec![w]), vf::pick(2, "one") == 1);
}

/// $push and $pop
fn array(_tier: u64) {
    let x = vf::any_i32("x");
    let stored = match vf::pick(8, "stored") {
        0 => Some(Bson::Array(vec![])),
        1 => Some(Bson::Array(vec![x.into()])),
        2 => Some(Bson::Array(vec![1.into(), x.into()])),
        3 => Some(Bson::Array(vec![x.into(), Bson::Null, doc! {"q": x}.into(), "s".into()])),
        4 => None,
        5 => Some(Bson::Null),
        6 => Some(Bson::Int32(x)),
        _ => Some(Bson::Document(doc! {"0": 1})),
    };
    let mut d = doc! {"_id": 1, "a": 0};
    if let Some(s) = stored { d.insert("l", s); }
    d.insert("z", 9);
    let (op, y) = match vf::pick(7, "op") {
        0 => ("$push", Bson::Int32(vf::any_i32("v"))),
        1 => ("$push", Bson::Array(vec![1.into(), vf::any_i32("v").into()])),
        2 => ("$push", Bson::Null),
        3 => ("$pop", Bson::Int32(1)),
        4 => ("$pop", Bson::Int32(-1)),
        5 => ("$pop", Bson::Int64(1)),
        _ => ("$pop", Bson::Int64(-1)),
    };
    let mut w = d.clone();
    let ok = apply(op, "l", &y, &mut w).is_some();
    vf::cover(if op == "$push" { "push" } else { "pop" });
    run(&[d], doc! {op: {"l": y}}, if ok { Some(vec![w]) } else { None }, true);
}

/// $min and $max on comparable values
fn minmax(_tier: u64) {
    const P: [(Ty, Ty); 14] = [
        (Ty::I32, Ty::I32), (Ty::I64, Ty::I64), (Ty::F64, Ty::F64), (Ty::I32, Ty::I64), (Ty::I64, Ty::I32), (Ty::I32, Ty::F64S), (Ty::F64S, Ty::I64), (Ty::I64, Ty::F64S),
        (Ty::Str1, Ty::Str2), (Ty::Str2, Ty::Str1), (Ty::Str1, Ty::Str1), (Ty::Bool, Ty::Bool), (Ty::Oid, Ty::Oid), (Ty::Date, Ty::Date),
    ];
    let (t, u) = P[vf::pick(P.len(), "types")];
    let (x, y) = (value(t, "x"), value(u, "y"));
    for v in [&x, &y] { if let Bson::Double(d) = v { vf::assume(d == d) } }
    let op = if vf::pick(2, "op") == 0 { "$min" } else { "$max" };
    let d = doc! {"_id": 1, "x": x, "z": 9};
    let mut w = d.clone();
    apply(op, "x", &y, &mut w).unwrap();
    if same_doc(&w, &d) { vf::cover("kept") } else { vf::cover("replaced") }
    run(&[d], doc! {op: {"x": y}}, Some(vec![w]), true);
}

const N: usize = 9;
fn operator(k: usize, g: bool) -> (&'static str, &'static str, Bson) {
    let v = vf::any_i32("v");
    match k {
        0 => ("$set", if g { "x" } else { "n" }, Bson::Int32(v)),
        1 => ("$unset", if g { "x" } else { "y" }, Bson::String("".into())),
        2 => ("$inc", if g { "x" } else { "y" }, Bson::Int32(v)),
        3 => ("$mul", if g { "x" } else { "y" }, Bson::Int64(3)),
        4 => ("$min", if g { "x" } else { "y" }, Bson::Int32(v)),
        5 => ("$max", if g { "x" } else { "y" }, Bson::Int32(v)),
        6 => ("$rename", if g { "x" } else { "y" }, Bson::String("r".into())),
        7 => ("$push", if g { "l" } else { "m" }, Bson::Int32(v)),
        _ => ("$pop", if g { "l" } else { "m" }, Bson::Int32(1)),
    }
}
/// two operators in one update, on different fields or on the same
fn pairs(_tier: u64) {
    let (i, j) = (vf::pick(N, "first"), vf::pick(N, "second"));
    if i == j { return }
    let clash = vf::pick(2, "same field") == 1;
    let (x, y) = (vf::any_i32("x"), vf::any_i32("y"));
    let d = doc! {"_id": 1, "x": x, "l": [x, 1], "y": y, "m": [], "z": 9};
    let (a, b) = (operator(i, true), operator(j, clash));
    if clash && (a.1 == b.1) {
        // the outcome of conflicting operators depends on their order, which is the update's
        if !matches!((a.0, b.0), ("$set" | "$inc" | "$mul" | "$min" | "$max", _)) || matches!(a.0, "$mul") && matches!(b.0, "$mul") { return }
        vf::cover("same field");
    }
    let mut w = d.clone();
    let ok = apply(a.0, a.1, &a.2, &mut w).is_some() && apply(b.0, b.1, &b.2, &mut w).is_some();
    vf::cover("two operators");
    run(&[d], doc! {a.0: {a.1: a.2}, b.0: {b.1: b.2}}, if ok { Some(vec![w]) } else { None }, true);
}

/// the primary key never changes; unknown operators are refused
fn key(_tier: u64) {
    let v = vf::any_i32("v");
    let d = doc! {"_id": 1, "x": 1, "y": 2};
    let u = match vf::pick(14, "update") {
        0 => doc! {"$set": {"_id": v}},
        1 => doc! {"$set": {"x": v, "_id": v}},
        2 => doc! {"$unset": {"_id": ""}},
        3 => doc! {"$inc": {"_id": v}},
        4 => doc! {"$mul": {"_id": v}},
        5 => doc! {"$min": {"_id": v}},
        6 => doc! {"$max": {"_id": v}},
        7 => doc! {"$rename": {"_id": "n"}},
        8 => doc! {"$rename": {"x": "_id"}},
        9 => doc! {"$push": {"_id": v}},
        10 => doc! {"$pop": {"_id": 1}},
        11 => doc! {"$set": {"x": v}, "$inc": {"_id": v}},
        12 => doc! {"$nosuch": {"x": v}},
        _ => doc! {"x": v},
    };
    vf::cover("key");
    run(&[d], u, None, vf::pick(2, "one") == 1);
}

/// several fields in one operator and several documents, one of them unfit
fn several(_tier: u64) {
    let (a, b, v) = (vf::any_i32("a"), vf::any_i64("b"), vf::any_i64("v"));
    let docs = [
        doc! {"_id": 1, "x": a, "y": 1, "l": [], "m": [a, 1], "k": b, "j": a},
        doc! {"_id": 2, "x": b, "w": 2.5, "l": [b], "k": 5, "j": 7},
        doc! {"_id": 3, "y": a, "l": [1, 2, a], "m": [], "k": a, "j": b},
    ];
    let u = match vf::pick(12, "update") {
        0 => doc! {"$inc": {"x": v, "y": 1}},
        1 => doc! {"$set": {"x": v, "q": "s"}},
        2 => doc! {"$unset": {"x": "", "y": ""}},
        3 => doc! {"$inc": {"w": 1, "x": v}},
        4 => doc! {"$pop": {"l": 1, "m": -1}},
        5 => doc! {"$pop": {"m": 1, "l": -1, "n": 1}},
        6 => doc! {"$push": {"l": v, "m": "s", "n": 1}},
        7 => doc! {"$push": {"m": v, "x": 1}},
        8 => doc! {"$rename": {"x": "p", "y": "q", "l": "r"}},
        9 => doc! {"$mul": {"y": 2, "x": 3}},
        10 => doc! {"$max": {"k": 6, "j": v}},
        _ => doc! {"$min": {"j": 0, "k": v}},
    };
    let (op, f) = u.iter().next().unwrap();
    let mut want = vec![];
    let mut ok = true;
    for d in docs.iter() {
        let mut w = d.clone();
        for (k, y) in f.as_document().unwrap() { ok = ok && apply(op, k, y, &mut w).is_some(); }
        want.push(w);
    }
    if ok { vf::cover("several documents") } else { vf::cover("one document unfit") }
    run(&docs, u.clone(), if ok { Some(want) } else { None }, false);
}
