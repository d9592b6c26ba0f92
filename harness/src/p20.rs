//! P20: sort, skip and limit.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::{Collection, CollectionT};
use std::cmp::Ordering;

harness! { TABLE; h_p20_slice => slice; h_p20_one => one_key; h_p20_two => two_keys; h_p20_types => types; h_p20_missing => missing; h_p20_order => order; h_p20_pipeline => pipeline; h_p20_txn => txn; h_p20_invalid => invalid; h_p20_large => large; }

fn dir(k: usize) -> (Bson, bool) {
    match k { 0 => (Bson::Int32(1), true), 1 => (Bson::Int32(-1), false), 2 => (Bson::Int64(1), true), _ => (Bson::Int64(-1), false) }
}
/// stable insertion sort by an order on documents
fn sorted(docs: &[Document], cmp: impl Fn(&Document, &Document) -> Ordering) -> Vec<Document> {
    let mut out: Vec<Document> = vec![];
    for d in docs {
        let mut at = out.len();
        while at > 0 && vf::decide(cmp(d, &out[at - 1]) == Ordering::Less) { at -= 1 }
        out.insert(at, d.clone());
    }
    out
}
fn by(f: &'static str, up: bool) -> impl Fn(&Document, &Document) -> Ordering {
    move |a, b| {
        let o = match (a.get(f), b.get(f)) {
            (Some(x), Some(y)) => ref_cmp(x, y).unwrap(),
            (Some(_), None) => Ordering::Less,
            (None, Some(_)) => Ordering::Greater,
            (None, None) => Ordering::Equal,
        };
        if up { o } else { o.reverse() }
    }
}
fn cut(v: &[Document], skip: Option<u64>, limit: Option<u64>) -> Vec<Document> {
    let mut out = vec![];
    let (s, l) = (skip.unwrap_or(0), limit.unwrap_or(u64::MAX));
    for (i, d) in v.iter().enumerate() {
        let i = i as u64;
        if vf::decide(i >= s && i - s < l) { out.push(d.clone()) }
    }
    out
}
fn get(c: &Collection<Document>, f: Document, sort: Option<Document>, skip: Option<u64>, limit: Option<u64>) -> Vec<Document> {
    let mut q = c.find(f);
    // the order in which the options are given does not matter
    if let Some(n) = limit { q = q.limit(n) }
    if let Some(s) = sort { q = q.sort(s) }
    if let Some(n) = skip { q = q.skip(n) }
    q.run().unwrap().map(|d| d.unwrap()).collect()
}
fn fill(docs: &[Document]) -> Collection<Document> {
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(docs.to_vec()).unwrap();
    std::mem::forget(db);
    c
}
/// every number of documents skipped and asked for
fn slice(_tier: u64) {
    let k = vf::pick(3, "options");
    let skip = if k != 1 { Some(vf::any_u64("skip")) } else { None };
    let limit = if k != 0 { Some(vf::any_u64("limit")) } else { None };
    let how = vf::pick(3, "filter");
    let docs: Vec<Document> = (0..4).map(|i| doc! {"_id": i, "x": if how == 1 { vf::any_i32("x") } else { 9 }}).collect();
    let db = open();
    let c = coll(&db, "c");
    if how == 2 { c.create_index(index("x", false)).unwrap() }
    c.insert_many(docs.clone()).unwrap();
    let (f, m): (Document, Vec<Document>) = match how {
        0 => (doc! {}, docs),
        1 => (doc! {"x": {"$gte": 5}}, docs.into_iter().filter(|d| vf::decide(d.get_i32("x").unwrap() >= 5)).collect()),
        _ => (doc! {"x": 9}, docs),
    };
    let want = cut(&m, skip, limit);
    if want.is_empty() { vf::cover("empty slice") } else if want.len() < m.len() { vf::cover("part") } else { vf::cover("everything") }
    vf::check(same_docs(&get(&c, f, None, skip, limit), &want), "skip and limit take the requested slice of the matching documents");
}
fn one_key(_tier: u64) {
    let (o, up) = dir(vf::pick(4, "direction"));
    let docs: Vec<Document> = (0..4).map(|i| doc! {"_id": i, "x": vf::any_i32("x")}).collect();
    let c = fill(&docs);
    let got = get(&c, doc! {}, Some(doc! {"x": o}), None, None);
    vf::check(same_docs(&got, &sorted(&docs, by("x", up))), "the documents come in the order of the key, equal ones in their stored order");
    vf::cover("one key");
}
fn two_keys(tier: u64) {
    let (k, l) = (vf::pick(2, "direction"), vf::pick(2, "direction"));
    let (p, up) = dir(k);
    let (q, vp) = dir(l);
    let n = if tier == 0 { 3 } else { 4 };
    let docs: Vec<Document> = (0..n).map(|i| doc! {"_id": i, "x": vf::any_i32("x"), "y": vf::any_i32("y")}).collect();
    let swap = vf::pick(2, "key order") == 1;
    let s = if swap { doc! {"y": q, "x": p} } else { doc! {"x": p, "y": q} };
    let cmp = |a: &Document, b: &Document| {
        let (x, y) = (by("x", up)(a, b), by("y", vp)(a, b));
        if swap { y.then(x) } else { x.then(y) }
    };
    let cutk = vf::pick(2, "slice");
    let (skip, limit) = if cutk == 1 { (Some(1), Some(1)) } else { (None, None) };
    let c = fill(&docs);
    let want = cut(&sorted(&docs, cmp), skip, limit);
    vf::check(same_docs(&get(&c, doc! {}, Some(s), skip, limit), &want), "the first key decides, the next ones break ties");
    vf::cover("two keys");
}
/// values of one class: numbers, strings, dates and the rest
fn types(_tier: u64) {
    const T: [[Ty; 3]; 10] = [
        [Ty::I32, Ty::I32, Ty::F64S], [Ty::I64, Ty::F64S, Ty::I32], [Ty::I64, Ty::I32, Ty::I64], [Ty::F64, Ty::F64, Ty::F64],
        [Ty::Str0, Ty::Str1, Ty::Str2], [Ty::Str2, Ty::Str2, Ty::Str1], [Ty::Oid, Ty::Oid, Ty::Oid], [Ty::Date, Ty::Date, Ty::Date],
        [Ty::Bool, Ty::Bool, Ty::Bool], [Ty::Null, Ty::Null, Ty::Null],
    ];
    let t = T[vf::pick(T.len(), "types")];
    let docs: Vec<Document> = t.iter().enumerate().map(|(i, t)| doc! {"_id": i as i32, "x": value(*t, "x")}).collect();
    for d in &docs { if let Some(Bson::Double(f)) = d.get("x") { vf::assume(*f == *f) } }
    let (o, up) = dir(vf::pick(2, "direction"));
    let c = fill(&docs);
    let got = get(&c, doc! {}, Some(doc! {"x": o}), None, None);
    vf::check(same_docs(&got, &sorted(&docs, by("x", up))), "values are sorted by the order of their type, numbers by their value");
    vf::cover("types");
}
/// documents without the key, and slices of the sorted sequence
fn missing(_tier: u64) {
    let has = [vf::pick(2, "has") == 1, vf::pick(2, "has") == 1, vf::pick(2, "has") == 1];
    let docs: Vec<Document> = has.iter().enumerate().map(|(i, h)| {
        let mut d = doc! {"_id": i as i32};
        if *h { d.insert("x", vf::any_i32("x")); }
        d
    }).collect();
    let (o, up) = dir(vf::pick(2, "direction"));
    let (skip, limit) = (Some(vf::any_u64("skip")), Some(vf::any_u64("limit")));
    let c = fill(&docs);
    let got = get(&c, doc! {}, Some(doc! {"x": o}), skip, limit);
    vf::check(same_docs(&got, &cut(&sorted(&docs, by("x", up)), skip, limit)), "the slice is taken of the sorted sequence");
    vf::cover("missing key");
}
/// values of different classes have one total order
fn order(_tier: u64) {
    const M: [Ty; 9] = [Ty::Null, Ty::I32, Ty::F64S, Ty::Str1, Ty::Oid, Ty::Bool, Ty::Date, Ty::Bin1, Ty::Str0];
    let i = vf::pick(M.len(), "first");
    let j = vf::pick(M.len(), "second");
    if j < i { vf::assume(false) }
    let (a, b) = (value(M[i], "a"), value(M[j], "b"));
    for v in [&a, &b] { if let Bson::Double(f) = v { vf::assume(*f == *f) } }
    // the same three values in two stored orders: the sorted values agree
    let third = Bson::Int32(3);
    let x = vec![doc! {"_id": 1, "x": a.clone()}, doc! {"_id": 2, "x": b.clone()}, doc! {"_id": 3, "x": third.clone()}];
    let y = vec![doc! {"_id": 1, "x": third}, doc! {"_id": 2, "x": b.clone()}, doc! {"_id": 3, "x": a.clone()}];
    let db = open();
    let (c, e) = (coll(&db, "c"), coll(&db, "e"));
    c.insert_many(x).unwrap();
    e.insert_many(y).unwrap();
    let (o, _) = dir(vf::pick(2, "direction"));
    let vals = |v: Vec<Document>| v.iter().map(|d| d.get("x").unwrap().clone()).collect::<Vec<Bson>>();
    let (g, h) = (vals(get(&c, doc! {}, Some(doc! {"x": o.clone()}), None, None)), vals(get(&e, doc! {}, Some(doc! {"x": o}), None, None)));
    vf::check(g.len() == 3 && h.len() == 3, "a sort returns every document once");
    let eq = |p: &Bson, q: &Bson| same(p, q) || ref_cmp(p, q) == Some(Ordering::Equal);
    vf::check(g.iter().zip(h.iter()).all(|(p, q)| eq(p, q)), "the sorted order of values does not depend on their stored order");
    vf::cover("mixed classes");
}
/// the stages of a pipeline and the options of a find are the same thing
fn pipeline(_tier: u64) {
    let docs: Vec<Document> = (0..3).map(|i| doc! {"_id": i, "x": vf::any_i32("x"), "y": vf::any_i32("y")}).collect();
    let v = vf::any_i32("v");
    let (o, up) = dir(vf::pick(2, "direction"));
    let (s, l) = (vf::int_in(0, i64::MAX, "skip"), vf::int_in(0, i64::MAX, "limit"));
    let ty = vf::pick(2, "number type");
    if ty == 0 { vf::assume(s <= i32::MAX as i64 && l <= i32::MAX as i64) }
    let num = |n: i64| if ty == 0 { Bson::Int32(n as i32) } else { Bson::Int64(n) };
    let idx = vf::pick(2, "index") == 1;
    let db = open();
    let c = coll(&db, "c");
    if idx { c.create_index(index("y", false)).unwrap() }
    c.insert_many(docs.clone()).unwrap();
    let mut m: Vec<Document> = docs.into_iter().filter(|d| vf::decide(d.get_i32("y").unwrap() == v)).collect();
    let mut p = vec![doc! {"$match": {"y": v}}];
    let k = vf::pick(4, "stages");
    match k {
        0 => { p.push(doc! {"$sort": {"x": o}}); p.push(doc! {"$skip": num(s)}); p.push(doc! {"$limit": num(l)}); m = cut(&sorted(&m, by("x", up)), Some(s as u64), Some(l as u64)) }
        1 => { p.push(doc! {"$skip": num(s)}); p.push(doc! {"$sort": {"x": o}}); m = sorted(&cut(&m, Some(s as u64), None), by("x", up)) }
        2 => { p.push(doc! {"$limit": num(l)}); p.push(doc! {"$sort": {"x": o}}); p.push(doc! {"$limit": num(s)}); m = cut(&sorted(&cut(&m, None, Some(l as u64)), by("x", up)), None, Some(s as u64)) }
        _ => { p.push(doc! {"$limit": num(l)}); p.push(doc! {"$skip": num(s)}); m = cut(&cut(&m, None, Some(l as u64)), Some(s as u64), None) }
    }
    let got: Vec<Document> = c.aggregate(p).run().unwrap().map(|d| d.unwrap()).collect();
    vf::check(same_docs(&got, &m), "sort, skip and limit stages apply in the order they are given");
    vf::cover("pipeline");
}
/// the same inside a transaction that has written
fn txn(_tier: u64) {
    let (a, b) = (vf::any_i32("a"), vf::any_i32("b"));
    let (o, up) = dir(vf::pick(2, "direction"));
    let db = open();
    let c = coll(&db, "c");
    c.insert_one(doc! {"_id": 1, "x": a}).unwrap();
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    tc.insert_one(doc! {"_id": 2, "x": b}).unwrap();
    tc.insert_one(doc! {"_id": 3, "x": a}).unwrap();
    let docs = [doc! {"_id": 1, "x": a}, doc! {"_id": 2, "x": b}, doc! {"_id": 3, "x": a}];
    let l = vf::any_u64("limit");
    let got: Vec<Document> = tc.find(doc! {}).sort(doc! {"x": o}).limit(l).run().unwrap().map(|d| d.unwrap()).collect();
    vf::check(same_docs(&got, &cut(&sorted(&docs, by("x", up)), None, Some(l))), "sort and limit see the documents of the transaction");
    vf::cover("transaction");
}
/// a direction that is none is an error, not some order
fn invalid(_tier: u64) {
    let c = fill(&[doc! {"_id": 1, "x": 1}, doc! {"_id": 2, "x": 0}]);
    let n = vf::any_i32("n");
    let w = vf::any_i64("w");
    let k = vf::pick(6, "case");
    vf::assume(n != 1 && n != -1 && w != 1 && w != -1);
    let o = match k { 0 => Bson::Int32(n), 1 => Bson::Int64(w), 2 => Bson::String("asc".into()), 3 => Bson::Null, 4 => Bson::Document(doc! {}), _ => Bson::Array(vec![]) };
    vf::check(c.find(doc! {}).sort(doc! {"x": o}).run().is_err(), "a sort order other than 1 and -1 is refused");
    vf::check(all(&c).len() == 2, "the collection is as it was");
    vf::cover("invalid order");
}

/// many documents
fn large(tier: u64) {
    let v = vf::any_i64("v");
    // a sort is repeated for every document it returns
    let n = if tier == 0 { 60 } else { 140 };
    let db = open();
    let c = coll(&db, "c");
    let mut docs = crowd(n, v);
    c.insert_many(docs.clone()).unwrap();
    let up = vf::pick(2, "direction") == 0;
    let (skip, limit) = [(0usize, 0usize), (50, 0), (0, 53), (19, 30), (58, 5), (20, 20)][vf::pick(6, "slice")];
    let o = if up { 1 } else { -1 };
    let two = vf::pick(2, "keys") == 1;
    let sort = if two { doc! {"s": 1, "u": o} } else { doc! {"x": o, "u": 1} };
    let by = |d: &Document, k: &str| d.get_i32(k).unwrap();
    docs.sort_by(|a, b| if two {
        let c = a.get_str("s").unwrap().cmp(b.get_str("s").unwrap());
        if c != Ordering::Equal { c } else if up { by(a, "u").cmp(&by(b, "u")) } else { by(b, "u").cmp(&by(a, "u")) }
    } else {
        let c = by(a, "x").cmp(&by(b, "x"));
        if c != Ordering::Equal { if up { c } else { c.reverse() } } else { by(a, "u").cmp(&by(b, "u")) }
    });
    let m = if limit == 0 { docs.len() } else { limit };
    let w: Vec<Document> = docs.into_iter().skip(skip).take(m).collect();
    let got: Vec<Document> = if vf::pick(2, "how") == 0 {
        let mut f = c.find(doc! {}).sort(sort).skip(skip as u64);
        if limit != 0 { f = f.limit(limit as u64); }
        f.run().unwrap().map(|d| d.unwrap()).collect()
    } else {
        let mut p = vec![doc! {"$sort": sort}, doc! {"$skip": skip as i64}];
        if limit != 0 { p.push(doc! {"$limit": limit as i64}); }
        c.aggregate(p).run().unwrap().map(|d| d.unwrap()).collect()
    };
    vf::check(same_docs(&got, &w), "sorting, skipping and limiting many documents returns the right slice");
    vf::cover("large");
}
