//! P19: deletes remove exactly the matching documents and report them.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::{Collection, CollectionT, Database};
use serde::{Deserialize, Serialize};

harness! { TABLE; h_p19_many => many; h_p19_one => one; h_p19_positions => positions; h_p19_history => history; h_p19_nested => nested; h_p19_txn => txn; h_p19_typed => typed; h_p19_large => large; }

const FILTERS: usize = 12;
fn filter(k: usize, v: i32) -> Q {
    let x = |o| Q::C("x", o, Bson::Int32(v));
    let y = |n: i32| Q::C("y", Op::Plain, Bson::Int32(n));
    match k {
        0 => Q::D(vec![]),
        1 => x(Op::Plain),
        2 => x(Op::Gt),
        3 => x(Op::Ne),
        4 => Q::D(vec![x(Op::Lte), y(5)]),
        5 => Q::Or(vec![x(Op::Eq), y(6)]),
        6 => Q::C("_id", Op::Plain, Bson::Int32(2)),
        7 => Q::C("_id", Op::Gte, Bson::Int32(v)),
        8 => Q::D(vec![Q::C("_id", Op::Plain, Bson::Int32(3)), x(Op::Lt)]),
        9 => Q::N("x", vec![(Op::Gt, Bson::Int32(v))]),
        10 => Q::M("x", vec![(Op::Gt, Bson::Int32(v)), (Op::Ne, Bson::Int32(7))]),
        _ => Q::C("none", Op::Plain, Bson::Int32(v)),
    }
}
fn docs(n: usize) -> Vec<Document> { (0..n).map(|i| doc! {"_id": i as i32 + 1, "x": vf::any_i32("x"), "y": 5 + (i as i32 % 2)}).collect() }
/// the collection holds exactly `want`, whichever way one looks
fn holds(c: &Collection<Document>, want: &[Document], msg: &str) {
    let got = all(c);
    vf::check(same_docs(&got, want), msg);
    vf::check(c.count_documents().unwrap() == got.len() as u64, "the count is the number of documents found");
}
fn setup(db: &Database, idx: usize, before: &[Document]) -> Collection<Document> {
    let c = coll(db, "c");
    let o = coll(db, "other");
    o.insert_one(doc! {"_id": 1, "x": 1}).unwrap();
    match idx {
        1 => c.create_index(index("x", false)).unwrap(),
        2 => c.create_index(index("y", false)).unwrap(),
        _ => {}
    }
    c.insert_many(before.to_vec()).unwrap();
    c
}
fn many(_tier: u64) {
    let (k, idx) = (vf::pick(FILTERS, "filter"), vf::pick(3, "index"));
    let before = docs(3);
    let v = vf::any_i32("v");
    let q = filter(k, v);
    let db = open();
    let c = setup(&db, idx, &before);
    let r = c.delete_many(q.doc()).unwrap();
    let want: Vec<Document> = before.iter().filter(|d| !q.eval(d)).cloned().collect();
    let n = before.len() - want.len();
    vf::cover(["none deleted", "one deleted", "two deleted", "all deleted"][n]);
    vf::check(r.deleted_count == n as u64, "delete_many reports how many documents it removed");
    holds(&c, &want, "delete_many removes every matching document and no other");
    if idx == 1 {
        for d in &before {
            let x = d.get_i32("x").unwrap();
            let w: Vec<Document> = want.iter().filter(|d| d.get_i32("x").unwrap() == x).cloned().collect();
            vf::check(same_docs(&find(&c, doc! {"x": x}).unwrap(), &w), "deleted documents are not found through the index either");
        }
    }
    vf::check(all(&coll(&db, "other")).len() == 1, "other collections keep their documents");
    vf::check(c.delete_many(q.doc()).unwrap().deleted_count == 0, "a second delete finds nothing");
    if idx == 1 && n > 0 {
        // the key of a deleted document is used again
        let d = before.iter().find(|d| q.eval(d)).unwrap();
        let (x, z) = (d.get_i32("x").unwrap(), vf::any_i32("z"));
        vf::assume(x != z);
        c.insert_one(doc! {"_id": d.get_i32("_id").unwrap(), "x": z, "y": 0}).unwrap();
        let w: Vec<Document> = want.iter().filter(|d| d.get_i32("x").unwrap() == x).cloned().collect();
        vf::check(same_docs(&find(&c, doc! {"x": x}).unwrap(), &w), "a deleted document's value finds nothing once its key is used again");
    }
}
fn one(_tier: u64) {
    let (k, idx) = (vf::pick(FILTERS, "filter"), vf::pick(3, "index"));
    let before = docs(3);
    let q = filter(k, vf::any_i32("v"));
    let db = open();
    let c = setup(&db, idx, &before);
    let r = c.delete_one(q.doc()).unwrap();
    let m = before.iter().filter(|d| q.eval(d)).count();
    let got = all(&c);
    let n = if m == 0 { 0 } else { 1 };
    vf::cover(if n == 0 { "none matches" } else { "one of the matching" });
    vf::check(r.deleted_count == n, "delete_one reports whether it removed a document");
    vf::check(got.len() as u64 == 3 - n, "delete_one removes one matching document if there is any");
    let mut gone = vec![];
    for d in &before { if !got.iter().any(|g| same_doc(g, d)) { gone.push(d) } }
    vf::check(gone.len() as u64 == n && gone.iter().all(|d| q.eval(d)), "delete_one removes a document that matches");
    vf::check(c.count_documents().unwrap() == got.len() as u64, "the count is the number of documents found");
}
/// every pattern of matches over more documents
fn positions(tier: u64) {
    let n = if tier == 0 { 6 } else { 8 };
    let idx = vf::pick(2, "index");
    let db = open();
    let c = coll(&db, "c");
    if idx == 1 { c.create_index(index("m", false)).unwrap() }
    let before: Vec<Document> = (0..n).map(|i| doc! {"_id": i, "m": vf::any_u8("m") as i32 & 1}).collect();
    for d in &before { c.insert_one(d.clone()).unwrap(); }
    let one = vf::pick(2, "one") == 1;
    let mut want: Vec<Document> = before.iter().filter(|d| d.get_i32("m").unwrap() != 1).cloned().collect();
    let m = before.len() - want.len();
    let r = if one { c.delete_one(doc! {"m": 1}) } else { c.delete_many(doc! {"m": 1}) }.unwrap();
    if one && m > 0 {
        let got = all(&c);
        vf::check(r.deleted_count == 1 && got.len() == before.len() - 1, "delete_one removes one matching document if there is any");
        vf::check(want.iter().all(|d| got.iter().any(|g| same_doc(g, d))), "delete_one removes a document that matches");
    } else {
        if m == before.len() { want.clear() }
        vf::check(r.deleted_count == m as u64, "delete_many reports how many documents it removed");
        holds(&c, &want, "delete_many removes every matching document and no other");
        if m > 2 { vf::cover("several deleted") }
    }
}
/// deletes between inserts and updates
fn history(tier: u64) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    let db = open();
    let idx = vf::pick(2, "index");
    let c = coll(&db, "c");
    if idx == 1 { c.create_index(index("x", false)).unwrap() }
    let mut m = vec![doc! {"_id": 1, "x": a}, doc! {"_id": 2, "x": 7}];
    c.insert_many(m.clone()).unwrap();
    for step in 0..if tier == 0 { 3 } else { 4 } {
        let keep = m.len();
        let n = match vf::pick(7, "step") {
            0 => { m.retain(|d| d.get_i32("x").unwrap() != q); Some(c.delete_many(doc! {"x": q})) }
            1 => { m.retain(|d| d.get_i32("x").unwrap() > 7); Some(c.delete_many(doc! {"x": {"$lte": 7}})) }
            2 => { m.retain(|d| d.get_i32("_id").unwrap() != 1); Some(c.delete_one(doc! {"_id": 1})) }
            3 => { m.clear(); Some(c.delete_many(doc! {})) }
            4 => {
                let i = 10 + step as i32;
                c.insert_one(doc! {"_id": i, "x": q}).unwrap();
                m.push(doc! {"_id": i, "x": q});
                None
            }
            5 => { c.update_many(doc! {"x": a}, doc! {"$set": {"x": 7}}).unwrap(); for d in m.iter_mut() { if d.get_i32("x").unwrap() == a { d.insert("x", 7); } } None }
            _ => {
                let r = c.insert_one(doc! {"_id": 1, "x": 7}).is_ok();
                let free = !m.iter().any(|d| d.get_i32("_id").unwrap() == 1);
                vf::check(r == free, "the key of a deleted document is free, that of another taken");
                if free { m.insert(0, doc! {"_id": 1, "x": 7}); }
                None
            }
        };
        if let Some(r) = n {
            vf::check(r.unwrap().deleted_count == (keep - m.len()) as u64, "a delete reports how many documents it removed");
            if m.is_empty() { vf::cover("emptied") }
        }
        holds(&c, &m, "the documents are those inserted and not deleted");
    }
}
/// conditions on embedded fields, lists and other types
fn nested(_tier: u64) {
    let (a, v) = (vf::any_i32("a"), vf::any_i32("v"));
    let before = vec![
        doc! {"_id": 1, "e": {"x": a}, "l": [a, 5]},
        doc! {"_id": 2, "e": {"x": 5}, "l": [5]},
        doc! {"_id": 3, "e": 4},
        doc! {"_id": 4, "s": "t"},
    ];
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(before.clone()).unwrap();
    let k = vf::pick(7, "filter");
    let (f, w): (Document, [bool; 4]) = match k {
        0 => (doc! {"e.x": v}, [a == v, 5 == v, false, false]),
        1 => (doc! {"e.x": {"$gt": v}}, [a > v, 5 > v, false, false]),
        2 => (doc! {"e.x": {"$in": [v, 5]}}, [a == v || a == 5, true, false, false]),
        3 => (doc! {"l": {"$size": 2i64}}, [true, false, false, false]),
        4 => (doc! {"l": {"$all": [v]}}, [a == v || v == 5, v == 5, false, false]),
        5 => (doc! {"s": "t"}, [false, false, false, true]),
        _ => (doc! {"$or": [{"e.x": v}, {"s": "t"}], "_id": {"$gte": 1}}, [a == v, 5 == v, false, true]),
    };
    let r = c.delete_many(f).unwrap();
    let want: Vec<Document> = before.iter().zip(w).filter(|(_, w)| !*w).map(|(d, _)| d.clone()).collect();
    vf::cover("embedded");
    vf::check(r.deleted_count == (4 - want.len()) as u64, "delete_many reports how many documents it removed");
    holds(&c, &want, "delete_many removes every matching document and no other");
}
/// deletes inside a transaction, committed or not
fn txn(_tier: u64) {
    let (a, v) = (vf::any_i32("a"), vf::any_i32("v"));
    let before = vec![doc! {"_id": 1, "x": a}, doc! {"_id": 2, "x": 7}];
    let db = open();
    let c = setup(&db, vf::pick(2, "index"), &before);
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    tc.insert_one(doc! {"_id": 3, "x": a}).unwrap();
    let mut m = before.clone();
    m.push(doc! {"_id": 3, "x": a});
    let k = vf::pick(3, "filter");
    let r = match k {
        0 => { m.retain(|d| d.get_i32("x").unwrap() != v); tc.delete_many(doc! {"x": v}) }
        1 => { m.retain(|d| d.get_i32("_id").unwrap() != 3); tc.delete_one(doc! {"_id": 3}) }
        _ => { m.clear(); tc.delete_many(doc! {}) }
    }.unwrap();
    vf::check(r.deleted_count == (3 - m.len()) as u64, "a delete reports how many documents it removed");
    vf::check(tc.count_documents().unwrap() == m.len() as u64, "the count is the number of documents found");
    vf::check(c.count_documents().unwrap() == 2, "a delete in a transaction is not seen outside");
    let commit = vf::pick(2, "commit") == 1;
    if commit { t.commit().unwrap(); vf::cover("committed") } else { t.rollback().unwrap(); vf::cover("rolled back") }
    drop(tc);
    drop(t);
    holds(&c, if commit { &m } else { &before }, "the documents are those inserted and not deleted");
}
#[derive(Serialize, Deserialize)]
struct Rec { _id: i32, x: i32 }
fn typed(_tier: u64) {
    let (a, v) = (vf::any_i32("a"), vf::any_i32("v"));
    let db = open();
    let c = db.collection::<Rec>("c");
    vf::check(c.delete_many(doc! {"x": 1}).unwrap().deleted_count == 0 && c.delete_one(doc! {}).unwrap().deleted_count == 0 && c.count_documents().unwrap() == 0, "nothing is deleted of a collection that does not exist");
    vf::check(names(&db).is_empty(), "a delete creates no collection");
    c.insert_many(vec![Rec { _id: 1, x: a }, Rec { _id: 2, x: 5 }]).unwrap();
    let n = (a < v) as u64 + (5 < v) as u64;
    vf::check(c.delete_many(doc! {"x": {"$lt": v}}).unwrap().deleted_count == n, "delete_many reports how many documents it removed");
    vf::check(c.count_documents().unwrap() == 2 - n, "the count is the number of documents found");
    vf::check(c.find(doc! {}).run().unwrap().all(|r| r.unwrap().x >= v), "delete_many removes every matching document and no other");
    vf::cover("typed");
}

/// many documents
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let n = if tier == 0 { 300 } else { 1050 };
    let db = open();
    let c = coll(&db, "c");
    if vf::pick(2, "index") == 1 { c.create_index(index("x", false)).unwrap(); }
    let mut docs = crowd(n, v);
    c.insert_many(docs.clone()).unwrap();
    let k = vf::pick(4, "filter");
    let q = match k { 0 => doc! {}, 1 => doc! {"x": {"$gt": 3}}, 2 => doc! {"x": 5}, _ => doc! {"u": {"$lte": n - 2}, "s": {"$ne": "0s"}} };
    docs.retain(|d| !match k { 0 => true, 1 => d.get_i32("x").unwrap() > 3, 2 => d.get_i32("x").unwrap() == 5, _ => d.get_i32("u").unwrap() <= n - 2 && d.get_str("s").unwrap() != "0s" });
    let r = c.delete_many(q).unwrap();
    vf::check(r.deleted_count == (n as usize - docs.len()) as u64, "delete_many reports how many documents it removed");
    holds(&c, &docs, "delete_many removes every matching document and no other");
    vf::cover("large");
}
