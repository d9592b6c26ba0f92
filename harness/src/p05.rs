//! P05: an equality on _id gives what a full scan would give.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::CollectionT;
use std::cmp::Ordering;

harness! { TABLE; h_p05_filter => filter; h_p05_types => types; }

const OP: [&str; 4] = ["find", "update", "delete", "aggregate"];
/// what the operation did to, or returned of, the three documents
fn act(op: usize, one: bool, f: Document, docs: &[Document], want: &[bool]) {
    let db = open();
    let c = coll(&db, "c");
    for d in docs { c.insert_one(d.clone()).unwrap(); }
    let n = want.iter().filter(|x| **x).count() as u64;
    if n == 0 { vf::cover("no match") } else { vf::cover("match") }
    let (mut exp, mut got): (Vec<Document>, Vec<Document>);
    match op {
        0 | 3 => {
            exp = docs.iter().zip(want).filter(|(_, w)| **w).map(|(d, _)| d.clone()).collect();
            got = if op == 0 { find(&c, f).unwrap() } else { c.aggregate(vec![doc! {"$match": f}]).run().unwrap().map(|d| d.unwrap()).collect() };
            if one { got.truncate(1); exp.truncate(1) }
        }
        1 => {
            exp = docs.to_vec();
            for (d, w) in exp.iter_mut().zip(want) { if *w { d.insert("z", 77); } }
            let r = if one { c.update_one(f, doc! {"$set": {"z": 77}}) } else { c.update_many(f, doc! {"$set": {"z": 77}}) }.unwrap();
            vf::check(r.matched_count == n, "the update reports the matching documents");
            got = all(&c);
        }
        _ => {
            exp = docs.iter().zip(want).filter(|(_, w)| !**w).map(|(d, _)| d.clone()).collect();
            let r = if one { c.delete_one(f) } else { c.delete_many(f) }.unwrap();
            vf::check(r.deleted_count == n, "the delete reports the matching documents");
            got = all(&c);
        }
    }
    let _ = OP[op];
    vf::check(same_docs(&got, &exp), "an equality on _id selects what the scan of all documents selects");
}

/// _id together with other conditions, in every position, beside fields whose
/// names resemble it, and under operators
fn filter(_tier: u64) {
    let op = vf::pick(4, "op");
    let id = vf::any_i32("id");
    let (a, b) = (vf::any_i32("a"), vf::any_i32("b"));
    let (x, y) = (vf::any_i32("x"), vf::any_i32("y"));
    let docs = [doc! {"_id": 1, "_idx": 5, "y_id": 5}, doc! {"_id": 2, "_idx": x, "y_id": y}, doc! {"_id": 3, "_idx": x}];
    let form = vf::pick(16, "form");
    let f = match form {
        0 => doc! {"_id": id},
        1 => doc! {"_id": id, "_idx": a},
        2 => doc! {"_idx": {"$gt": a}, "_id": id},
        3 => doc! {"_idx": {"$gt": a}, "_id": id, "y_id": b},
        4 => doc! {"_id": id, "$or": [{"_idx": a}, {"y_id": b}]},
        5 => doc! {"$or": [{"_idx": a}, {"y_id": b}], "_id": id},
        6 => doc! {"_id": {"$eq": id}, "_idx": a},
        7 => doc! {"_id": id, "$and": [{"_idx": {"$gte": a}}, {"_id": {"$lt": b}}]},
        8 => doc! {"_id": {"$eq": id, "$lt": b}},
        9 => doc! {"_id": {"$lt": b, "$eq": id}, "y_id": a},
        10 => doc! {"_id": {"$gte": id}},
        11 => doc! {"_id": {"$in": [id, b]}},
        12 => doc! {"_id": {"$ne": id}, "_idx": a},
        13 => doc! {"_id": {"$not": {"$eq": id}}},
        14 => doc! {"$and": [{"_id": id}, {"y_id": b}]},
        _ => doc! {"$or": [{"_id": id}, {"_id": b}]},
    };
    let w = |i: i32, x: i32, y: Option<i32>| match form {
        0 => i == id,
        1 | 6 => i == id && x == a,
        2 => i == id && x > a,
        3 => i == id && x > a && y == Some(b),
        4 | 5 => i == id && (x == a || y == Some(b)),
        7 => i == id && x >= a && i < b,
        8 => i == id && i < b,
        9 => i == id && i < b && y == Some(a),
        10 => i >= id,
        11 | 15 => i == id || i == b,
        12 => i != id && x == a,
        13 => i != id,
        _ => i == id && y == Some(b),
    };
    let one = vf::pick(2, "one") == 1;
    let mut want = [w(1, 5, Some(5)), w(2, x, Some(y)), w(3, x, None)];
    if one {
        if want[0] { want[1] = false; want[2] = false }
        if want[1] { want[2] = false }
    }
    act(op, one, f, &docs, &want);
}

/// every kind of _id, with and without a second condition
fn types(_tier: u64) {
    const T: [Ty; 10] = [Ty::I32, Ty::I64, Ty::F64, Ty::Str0, Ty::Str1, Ty::Str2, Ty::Oid, Ty::Date, Ty::Bool, Ty::Ts];
    let t = T[vf::pick(T.len(), "type")];
    let k = value(t, "k");
    let q = value(t, "q");
    if let (Bson::Double(a), Bson::Double(b)) = (&k, &q) { vf::assume(a.is_normal() && b.is_normal()); }
    let same = match (&k, &q) { (Bson::Timestamp(a), Bson::Timestamp(b)) => a.time == b.time && a.increment == b.increment, _ => ref_cmp(&k, &q) == Some(Ordering::Equal) };
    let docs = vec![doc! {"_id": k, "x": 1}];
    let cnd = vf::pick(2, "second condition") == 1;
    let v = vf::any_i32("v");
    let f = if cnd { doc! {"_id": q, "x": {"$lt": v}} } else { doc! {"_id": q} };
    act(vf::pick(4, "op"), false, f, &docs, &[same && (!cnd || 1 < v)]);
}
