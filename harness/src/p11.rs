//! P11: a unique index is never violated and never refuses a free value.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::{CollectionT, Collection, Error};

harness! { TABLE; h_p11_history => history; h_p11_kinds => kinds; h_p11_build => build; h_p11_many => many; h_p11_txn => txn; h_p11_path => path; h_p11_large => large; }

struct M { docs: Vec<(i32, Option<i32>)> }
impl M {
    fn holder(&self, v: i32, but: i32) -> bool { self.docs.iter().any(|(i, x)| *i != but && *x == Some(v)) }
    fn want(&self) -> Vec<(i32, Option<i32>)> { let mut v = self.docs.clone(); v.sort(); v }
}
fn state(c: &Collection<Document>) -> Vec<(i32, Option<i32>)> {
    all(c).iter().map(|d| (d.get_i32("_id").unwrap(), d.get("x").and_then(|x| x.as_i32()))).collect()
}
fn dup<T>(r: Result<T, Error>) -> bool { match r { Ok(_) => false, Err(Error::DuplicateKey(_)) => true, Err(_) => { vf::check(false, "the refusal of a taken value is a duplicate key error"); true } } }

const STEPS: usize = 9;
fn step(k: usize, c: &Collection<Document>, m: &mut M, next: &mut i32, base: i32, v: &dyn Fn() -> i32) {
    match k {
        0 => {
            let v = v();
            let no = m.holder(v, -1);
            vf::check(dup(c.insert_one(doc! {"_id": *next, "x": v})) == no, "an insert is refused exactly when its value is taken");
            if no { vf::cover("insert refused") } else { m.docs.push((*next, Some(v))); }
            *next += 1;
        }
        1 => {
            // first document gets a value, by _id
            let v = v();
            let no = m.holder(v, base) && m.docs.iter().any(|d| d.0 == base);
            vf::check(dup(c.update_one(doc! {"_id": base}, doc! {"$set": {"x": v}})) == no, "an update is refused exactly when its value is taken by another document");
            if no { vf::cover("update refused") } else { for d in m.docs.iter_mut() { if d.0 == base { if d.1 == Some(v) { vf::cover("own value kept") } d.1 = Some(v) } } }
        }
        2 => {
            let v = v();
            c.delete_many(doc! {"x": v}).unwrap();
            m.docs.retain(|d| d.1 != Some(v));
        }
        3 => { c.delete_one(doc! {"_id": base}).unwrap(); m.docs.retain(|d| d.0 != base); }
        4 => { c.update_one(doc! {"_id": base}, doc! {"$unset": {"x": ""}}).unwrap(); for d in m.docs.iter_mut() { if d.0 == base { d.1 = None } } }
        5 => {
            // a field that is not indexed
            c.update_many(doc! {}, doc! {"$set": {"z": 1}}).unwrap();
        }
        6 => {
            // $inc by a symbolic amount of the value, selected by value
            let v = v();
            let w = v.wrapping_add(1);
            let no = m.docs.iter().any(|d| d.1 == Some(v)) && (m.holder(w, -1));
            if m.docs.iter().any(|d| d.1 == Some(v)) && v == i32::MAX { vf::assume(false) }
            vf::check(dup(c.update_many(doc! {"x": v}, doc! {"$inc": {"x": 1}})) == no, "an update is refused exactly when its value is taken by another document");
            if !no { for d in m.docs.iter_mut() { if d.1 == Some(v) { d.1 = Some(w) } } }
        }
        7 => { c.drop_index("x_1").unwrap(); c.create_index(index("x", true)).unwrap(); }
        _ => {
            let (v, w) = (v(), v());
            let no = m.holder(v, -1) || m.holder(w, -1) || v == w;
            vf::check(dup(c.insert_many(vec![doc! {"_id": *next, "x": v}, doc! {"_id": *next + 1, "x": w}])) == no, "a batch is refused exactly when a value is taken");
            if no { vf::cover("batch refused") } else { m.docs.push((*next, Some(v))); m.docs.push((*next + 1, Some(w))); }
            *next += 2;
        }
    }
    vf::check(state(c) == m.want(), "a refused write changes nothing, an accepted one what it says");
}

fn history(tier: u64) {
    let db = open();
    let c = coll(&db, "c");
    let base = 1;
    let mut next = 1;
    let mut m = M { docs: vec![] };
    c.create_index(index("x", true)).unwrap();
    // two arbitrary values, equal or not
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    let val = || if vf::pick(2, "which") == 0 { a } else { q };
    step(0, &c, &mut m, &mut next, base, &|| a);
    let n = if tier == 0 { 2 } else { 3 };
    for _ in 0..n { step(vf::pick(STEPS, "step"), &c, &mut m, &mut next, base, &val); }
    // taken or free, as the documents say
    let no = m.holder(q, -1);
    vf::check(dup(c.insert_one(doc! {"_id": 99, "x": q})) == no, "a value is taken exactly while a document has it");
}

fn kinds(_tier: u64) {
    const T: [Ty; 11] = [Ty::I32, Ty::I64, Ty::F64, Ty::Str0, Ty::Str1, Ty::Str2, Ty::Oid, Ty::Date, Ty::Bool, Ty::Ts, Ty::Null];
    let (t, u) = (T[vf::pick(T.len(), "type")], T[vf::pick(T.len(), "second type")]);
    let (a, b) = (value(t, "a"), value(u, "b"));
    for v in [&a, &b] { if let Bson::Double(x) = v { vf::assume(x.is_normal()) } }
    let num = |t: Ty| matches!(t, Ty::I32 | Ty::I64 | Ty::F64);
    if t != u && num(t) && num(u) { return }
    let same = match (&a, &b) {
        (Bson::Timestamp(x), Bson::Timestamp(y)) => x.time == y.time && x.increment == y.increment,
        _ => same(&a, &b),
    };
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", true)).unwrap();
    c.insert_one(doc! {"_id": 1, "x": a}).unwrap();
    c.insert_one(doc! {"_id": 2}).unwrap();
    c.insert_one(doc! {"_id": 3, "y": b.clone()}).unwrap();
    let how = vf::pick(2, "how");
    let r = if how == 0 { dup(c.insert_one(doc! {"_id": 4, "x": b})) } else { dup(c.update_one(doc! {"_id": 2}, doc! {"$set": {"x": b}})) };
    if same { vf::cover("same value") } else { vf::cover("other value") }
    vf::check(r == same, "a value is refused exactly when a document has it");
}

/// a unique index over existing documents
fn build(_tier: u64) {
    let (a, b, d) = (vf::any_i32("a"), vf::any_i32("b"), vf::any_i32("d"));
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(vec![doc! {"_id": 1, "x": a}, doc! {"_id": 2, "x": b}, doc! {"_id": 3}, doc! {"_id": 4, "x": d}]).unwrap();
    let no = a == b || a == d || b == d;
    vf::check(dup(c.create_index(index("x", true))) == no, "a unique index is refused exactly when documents share a value");
    if no {
        vf::cover("index refused");
        vf::check(c.insert_one(doc! {"_id": 9, "x": a}).is_ok(), "a refused index has no effect");
        vf::check(ids(&find(&c, doc! {"x": a}).unwrap()).len() == 2 + (a == b) as usize + (a == d) as usize, "a refused index has no effect");
    } else {
        vf::cover("index built");
        let q = vf::any_i32("q");
        vf::check(dup(c.insert_one(doc! {"_id": 9, "x": q})) == (q == a || q == b || q == d), "a value is taken exactly while a document has it");
    }
}

/// one update giving several documents values
fn many(_tier: u64) {
    let (a, b, k) = (vf::any_i32("a"), vf::any_i32("b"), vf::any_i32("k"));
    vf::assume(a != b);
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", true)).unwrap();
    let docs = [doc! {"_id": 1, "x": a}, doc! {"_id": 2, "x": b}];
    c.insert_many(docs.to_vec()).unwrap();
    match vf::pick(3, "form") {
        0 => {
            vf::check(dup(c.update_many(doc! {}, doc! {"$set": {"x": k}})), "giving two documents one value is refused");
            vf::check(same_docs(&all(&c), &docs), "a refused write changes nothing");
        }
        1 => {
            let r = dup(c.update_one(doc! {"x": {"$gt": k}}, doc! {"$set": {"x": b}}));
            let first = a > k;
            // the first match is document 1 (taken by 2), or document 2 itself
            vf::check(r == first, "an update is refused exactly when its value is taken by another document");
            vf::check(same_docs(&all(&c), &docs), "a refused write changes nothing, an accepted one what it says");
        }
        _ => {
            let o = polodb_core::options::UpdateOptions::builder().upsert(true).build();
            let r = dup(c.update_one_with_options(doc! {"_id": k}, doc! {"$set": {"x": b}}, o));
            vf::check(r == (k != 2), "an upsert is refused exactly when its value is taken by another document");
            vf::check(same_docs(&all(&c), &docs), "a refused write changes nothing, an accepted one what it says");
        }
    }
    vf::cover("update of several");
}

/// values written or freed in a transaction
fn txn(_tier: u64) {
    let (a, v, w) = (vf::any_i32("a"), vf::any_i32("v"), vf::any_i32("w"));
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", true)).unwrap();
    c.insert_one(doc! {"_id": 1, "x": a}).unwrap();
    let mut vals = vec![a];
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    let mut failed = false;
    match vf::pick(3, "op") {
        0 => { failed = dup(tc.insert_one(doc! {"_id": 2, "x": v})); vf::check(failed == (v == a), "inside a transaction a value is taken exactly while a document has it"); if !failed { vals.push(v) } }
        1 => { tc.delete_one(doc! {"_id": 1}).unwrap(); vals.clear(); vf::check(!dup(tc.insert_one(doc! {"_id": 2, "x": v})), "a value freed in the transaction is free in it"); vals.push(v) }
        _ => { tc.update_one(doc! {"_id": 1}, doc! {"$set": {"x": v}}).unwrap(); vals = vec![v]; let n = dup(tc.insert_one(doc! {"_id": 2, "x": a})); vf::check(n == (v == a), "a value freed in the transaction is free in it"); failed = n; if !n { vals.push(a) } }
    }
    if failed || vf::pick(2, "end") == 1 { t.rollback().unwrap(); vals = vec![a]; vf::cover("rolled back") } else { t.commit().unwrap(); vf::cover("committed") }
    drop((tc, t));
    vf::check(dup(c.insert_one(doc! {"_id": 3, "x": w})) == vals.contains(&w), "after the transaction a value is taken exactly while a document has it");
}

/// unique values at an embedded path
fn path(_tier: u64) {
    let (a, b, k) = (vf::any_i32("a"), vf::any_i32("b"), vf::any_i32("k"));
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("p.q", true)).unwrap();
    c.insert_one(doc! {"_id": 1, "p": {"q": a}, "q": k}).unwrap();
    c.insert_one(doc! {"_id": 2, "p": {"r": a}, "q": k}).unwrap();
    c.insert_one(doc! {"_id": 3, "p": a}).unwrap();
    vf::check(dup(c.insert_one(doc! {"_id": 4, "p": {"r": 1, "q": b}})) == (a == b), "a value at the path is refused exactly when a document has it");
    vf::check(dup(c.update_one(doc! {"_id": 2}, doc! {"$set": {"p": {"q": k}}})) == (k == a || (a != b && k == b)), "a value at the path is refused exactly when a document has it");
    vf::cover("path");
}

/// many values, the clash at any distance
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let n = if tier == 0 { 300 } else { 1050 };
    let db = open();
    let c = coll(&db, "c");
    let mut docs = crowd(n, v);
    let clash = vf::pick(2, "clash") == 1;
    if clash { docs[n as usize - 1].insert("u", n); }
    let late = vf::pick(2, "late") == 1;
    if late {
        c.insert_many(docs).unwrap();
        vf::check(c.create_index(index("u", true)).is_ok() == !clash, "a unique index is made exactly when the values differ");
        if clash { vf::check(c.insert_one(doc! {"u": 5}).is_ok(), "a refused unique index is not in force"); }
    } else {
        c.create_index(index("u", true)).unwrap();
        vf::check(c.insert_many(docs).is_ok() == !clash, "a batch is refused exactly when two values are the same");
        vf::check(c.count_documents().unwrap() == if clash { 0 } else { n as u64 }, "a batch is refused exactly when two values are the same");
    }
    if !clash {
        for u in [1, n / 2, n] { vf::check(c.insert_one(doc! {"u": u}).is_err(), "a taken value is refused"); }
        vf::check(c.update_one(doc! {"_id": 0}, doc! {"$set": {"u": 1}}).is_err(), "a taken value is refused");
        c.delete_many(doc! {"u": {"$lte": n / 2}}).unwrap();
        vf::check(c.insert_one(doc! {"u": 1}).is_ok() && c.insert_one(doc! {"u": n / 2}).is_ok() && c.insert_one(doc! {"u": n}).is_err(), "values of deleted documents are free");
    }
    vf::cover("large");
}
