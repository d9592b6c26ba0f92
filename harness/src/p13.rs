//! P13: updates reach exactly the matching documents and report them.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::options::UpdateOptions;
use polodb_core::CollectionT;

harness! { TABLE; h_p13_many => many; h_p13_one => one; h_p13_index => indexed; h_p13_upsert => upsert; h_p13_missing => missing; h_p13_typed => typed; h_p13_large => large; }

const FILTERS: usize = 9;
fn filter(k: usize, v: i32) -> Q {
    let x = |o| Q::C("x", o, Bson::Int32(v));
    match k {
        0 => Q::And(vec![]),
        1 => x(Op::Plain),
        2 => x(Op::Gt),
        3 => x(Op::Ne),
        4 => Q::D(vec![x(Op::Lte), Q::C("y", Op::Plain, Bson::Int32(5))]),
        5 => Q::Or(vec![x(Op::Eq), Q::C("y", Op::Plain, Bson::Int32(6))]),
        6 => Q::C("_id", Op::Plain, Bson::Int32(2)),
        7 => Q::C("_id", Op::Gte, Bson::Int32(v)),
        _ => Q::D(vec![Q::C("_id", Op::Plain, Bson::Int32(3)), x(Op::Lt)]),
    }
}
const UPDATES: usize = 7;
fn update(k: usize, w: i32) -> (&'static str, &'static str, Bson) {
    match k {
        0 => ("$set", "x", Bson::Int32(w)),
        1 => ("$inc", "x", Bson::Int32(1)),
        2 => ("$unset", "x", Bson::String("".into())),
        3 => ("$max", "x", Bson::Int32(w)),
        4 => ("$rename", "x", Bson::String("r".into())),
        5 => ("$set", "n", Bson::Int32(w)),
        _ => ("$push", "l", Bson::Int32(w)),
    }
}
fn qdoc(k: usize, q: &Q) -> Document { if k == 0 { doc! {} } else { q.doc() } }
/// the document after the update, and whether the operator changed it
fn after(d: &Document, op: &(&str, &str, Bson)) -> (Document, bool) {
    let mut w = d.clone();
    crate::p12::apply(op.0, op.1, &op.2, &mut w).unwrap();
    // $max counts as modification only when it replaces the value
    let hit = match op.0 { "$max" => !same_doc(&w, d), "$rename" => d.contains_key(op.1), _ => true };
    (w, hit)
}
fn docs(n: usize) -> Vec<Document> {
    let v: Vec<Document> = (0..n).map(|i| doc! {"_id": i as i32 + 1, "x": vf::any_i32("x"), "y": 5 + (i as i32 % 2)}).collect();
    // no overflow of the $inc (P12)
    for d in &v { vf::assume(d.get_i32("x").unwrap() != i32::MAX) }
    v
}

fn many(tier: u64) {
    let (k, u) = (vf::pick(FILTERS, "filter"), vf::pick(UPDATES, "update"));
    let before = docs(if tier == 0 { 2 } else { 3 });
    let (q, op) = (filter(k, vf::any_i32("v")), update(u, vf::any_i32("w")));
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(before.clone()).unwrap();
    let r = c.update_many(qdoc(k, &q), doc! {op.0: {op.1: op.2.clone()}}).unwrap();
    let (mut want, mut matched, mut modified) = (vec![], 0, 0);
    for d in &before {
        if q.eval(d) {
            let (w, hit) = after(d, &op);
            matched += 1;
            if hit { modified += 1 }
            want.push(w);
        } else { want.push(d.clone()) }
    }
    if matched == 0 { vf::cover("none matched") }
    if matched > 1 { vf::cover("several matched") }
    vf::check(same_docs(&all(&c), &want), "update_many changes every matching document and no other");
    vf::check(r.matched_count == matched, "the matched count is the number of documents selected");
    vf::check(r.modified_count == modified, "the modified count is the number of documents changed");
}

fn one(tier: u64) {
    let (k, u) = (vf::pick(FILTERS, "filter"), vf::pick(UPDATES, "update"));
    let before = docs(if tier == 0 { 2 } else { 3 });
    let (q, op) = (filter(k, vf::any_i32("v")), update(u, vf::any_i32("w")));
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(before.clone()).unwrap();
    let r = c.update_one(qdoc(k, &q), doc! {op.0: {op.1: op.2.clone()}}).unwrap();
    let now = all(&c);
    let any = before.iter().any(|d| q.eval(d));
    vf::check(now.len() == before.len(), "update_one adds and removes no document");
    let (mut changed, mut hits, mut ok) = (0, 0, true);
    for (d, n) in before.iter().zip(now.iter()) {
        if !same_doc(d, n) {
            changed += 1;
            ok = ok && q.eval(d) && same_doc(n, &after(d, &op).0);
        }
        if q.eval(d) && after(d, &op).1 { hits += 1 }
    }
    vf::check(ok && changed <= 1, "update_one changes one matching document");
    if any { vf::cover("one matched") }
    vf::check(r.matched_count == any as u64, "the matched count is the number of documents selected");
    // the first matching document in stored order is the one updated
    if let Some(d) = before.iter().find(|d| q.eval(d)) {
        let (w, hit) = after(d, &op);
        vf::check(r.modified_count == hit as u64, "the modified count is the number of documents changed");
        let i = d.get_i32("_id").unwrap() as usize - 1;
        vf::check(same_doc(&now[i], &w), "update_one changes the first matching document");
    } else { vf::check(r.modified_count == 0, "the modified count is the number of documents changed") }
    let _ = hits;
}

/// through an index on the updated field
fn indexed(_tier: u64) {
    let before = docs(3);
    let (v, w) = (vf::any_i32("v"), vf::any_i32("w"));
    let u = vf::pick(3, "update");
    let op = [("$set", "x", Bson::Int32(w)), ("$inc", "x", Bson::Int32(1)), ("$set", "n", Bson::Int32(w))][u].clone();
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", false)).unwrap();
    c.insert_many(before.clone()).unwrap();
    let many = vf::pick(2, "many") == 1;
    let up = doc! {op.0: {op.1: op.2.clone()}};
    let r = if many { c.update_many(doc! {"x": v}, up) } else { c.update_one(doc! {"x": v}, up) }.unwrap();
    let (mut want, mut n) = (vec![], 0);
    for d in &before {
        if d.get_i32("x") == Ok(v) && (many || n == 0) { n += 1; want.push(after(d, &op).0) } else { want.push(d.clone()) }
    }
    if n > 1 { vf::cover("several through the index") }
    vf::check(same_docs(&all(&c), &want), "an update through an index changes every matching document once");
    vf::check(r.matched_count == n && r.modified_count == n, "the counts are those of the documents selected");
}

fn upsert(_tier: u64) {
    let (a, v, w) = (vf::any_i32("a"), vf::any_i32("v"), vf::any_i32("w"));
    let opt = UpdateOptions::builder().upsert(true).build();
    let db = open();
    let c = coll(&db, "c");
    let exists = vf::pick(3, "before");
    let before = match exists { 0 => vec![], 1 => vec![doc! {"_id": 1, "x": a}], _ => vec![doc! {"_id": 1, "x": a}, doc! {"_id": 2, "x": v, "y": 1}] };
    if exists > 0 { c.insert_many(before.clone()).unwrap(); }
    let many = vf::pick(2, "many") == 1;
    let q = match vf::pick(3, "query") { 0 => doc! {"x": v}, 1 => doc! {"_id": v}, _ => doc! {"x": v, "_id": 7} };
    let u = if vf::pick(2, "set") == 0 { doc! {"$set": {"n": w}} } else { doc! {"$set": {"x": w, "n": 1}} };
    let hit = |d: &Document| q.iter().all(|(k, y)| d.get(k) == Some(y));
    let r = if many { c.update_many_with_options(q.clone(), u.clone(), opt) } else { c.update_one_with_options(q.clone(), u.clone(), opt) }.unwrap();
    let matched = before.iter().filter(|d| hit(d)).count();
    let mut want = vec![];
    let mut n = 0;
    for d in &before {
        let mut d = d.clone();
        if hit(&d) && (many || n == 0) { n += 1; for (k, y) in u.get_document("$set").unwrap() { d.insert(k.clone(), y.clone()); } }
        want.push(d);
    }
    let now = all(&c);
    vf::check(r.matched_count == n, "the matched count is the number of documents selected");
    if matched == 0 {
        vf::cover("upserted");
        let mut d = q.clone();
        for (k, y) in u.get_document("$set").unwrap() { d.insert(k.clone(), y.clone()); }
        let fresh: Vec<&Document> = now.iter().filter(|n| !before.iter().any(|b| same_doc(b, n))).collect();
        vf::check(now.len() == before.len() + 1 && fresh.len() == 1, "an upsert without match inserts one document");
        let mut f = fresh[0].clone();
        if !d.contains_key("_id") { f = f.into_iter().filter(|(k, _)| k != "_id").collect(); vf::check(matches!(fresh[0].get("_id"), Some(Bson::ObjectId(_))), "an upserted document has a key"); }
        vf::check(same_doc(&f, &d), "the upserted document holds the query's equalities and the set fields");
    } else {
        vf::cover("upsert matched");
        vf::check(same_docs(&now, &want), "an upsert with a match inserts nothing");
    }
}

/// collections and fields that do not exist
fn missing(_tier: u64) {
    let v = vf::any_i32("v");
    let db = open();
    let c = coll(&db, "c");
    let r = c.update_many(doc! {"x": v}, doc! {"$set": {"x": 1}}).unwrap();
    vf::check(r.matched_count == 0 && r.modified_count == 0, "an update of an absent collection matches nothing");
    vf::check(names(&db).is_empty(), "an update creates no collection");
    let before = vec![doc! {"_id": 1}, doc! {"_id": 2, "x": v}, doc! {"_id": 3, "x": "s"}];
    c.insert_many(before.clone()).unwrap();
    let k = vf::pick(3, "filter");
    let q = match k { 0 => doc! {"x": {"$gte": v}}, 1 => doc! {"x": v}, _ => doc! {"x": {"$in": [v, "t"]}} };
    let r = c.update_many(q, doc! {"$set": {"y": 1}}).unwrap();
    let mut want = before.clone();
    want[1].insert("y", 1);
    vf::cover("missing");
    vf::check(same_docs(&all(&c), &want) && r.matched_count == 1 && r.modified_count == 1, "documents without the field are not selected");
}

/// updates through typed values and several operators in one go
fn typed(_tier: u64) {
    let (a, b, v) = (vf::any_i64("a"), vf::any_i64("b"), vf::any_i64("v"));
    vf::assume(a < i64::MAX && b < i64::MAX);
    let before = vec![doc! {"_id": 1, "x": a, "l": []}, doc! {"_id": 2, "x": b, "l": [1]}];
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(before.clone()).unwrap();
    let r = c.update_many(doc! {"x": {"$lt": v}}, doc! {"$inc": {"x": 1_i64}, "$push": {"l": v}, "$set": {"s": "t"}}).unwrap();
    let mut n = 0;
    let want: Vec<Document> = before.into_iter().map(|mut d| {
        let x = d.get_i64("x").unwrap();
        if x < v {
            n += 1;
            d.insert("x", x + 1);
            let mut l = d.get_array("l").unwrap().clone();
            l.push(v.into());
            d.insert("l", l);
            d.insert("s", "t");
        }
        d
    }).collect();
    vf::cover("several operators");
    vf::check(same_docs(&all(&c), &want) && r.matched_count == n && r.modified_count == n, "every matching document gets every operator once");
}

/// many documents
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let n = if tier == 0 { 300 } else { 1050 };
    let db = open();
    let c = coll(&db, "c");
    if vf::pick(2, "index") == 1 { c.create_index(index("x", false)).unwrap(); }
    let mut docs = crowd(n, v);
    c.insert_many(docs.clone()).unwrap();
    let k = vf::pick(4, "filter");
    let q = match k { 0 => doc! {}, 1 => doc! {"x": {"$gte": 0}}, 2 => doc! {"x": 5}, _ => doc! {"u": {"$lte": n - 2}, "s": {"$ne": "0s"}} };
    let w = |d: &Document| match k { 0 | 1 => true, 2 => d.get_i32("x").unwrap() == 5, _ => d.get_i32("u").unwrap() <= n - 2 && d.get_str("s").unwrap() != "0s" };
    let m = docs.iter().filter(|d| w(d)).count() as u64;
    let r = c.update_many(q, doc! {"$set": {"v": "w"}, "$inc": {"x": 1000}}).unwrap();
    for d in docs.iter_mut() {
        if w(d) { let x = d.get_i32("x").unwrap(); d.insert("x", x + 1000); d.insert("v", "w"); }
    }
    vf::check(r.matched_count == m && r.modified_count == m, "an update reports how many documents it matched and modified");
    vf::check(same_docs(&all(&c), &docs), "an update reaches exactly the matching documents");
    vf::cover("large");
}
