//! P16: a transaction is all or nothing and sees its own writes.
use crate::vf;
use crate::gen::*;
use crate::p17::{run, run_on, rows, collect, A, Idx, R, St};
use polodb_core::bson::{doc, Document};
use polodb_core::{Collection, CollectionT, Database};

harness! { TABLE;
    h_p16_history => history; h_p16_schema => schema; h_p16_unique => unique; h_p16_new => new;
    h_p16_two => two; h_p16_reads => reads; h_p16_mixed => mixed; h_p16_failed => failed; h_p16_large => large; }

fn setup(db: &Database, st: &St) {
    let c: Collection<Document> = db.collection("c");
    if st.exists { db.create_collection("c").unwrap(); }
    if st.idx != Idx::No { c.create_index(index("x", st.idx == Idx::Unique)).unwrap(); }
    for (i, x, _) in &st.docs { c.insert_one(doc! {"_id": *i, "x": *x}).unwrap(); }
}
fn sees<C: CollectionT<Document>>(c: &C, st: &St, values: &[i32], what: &str) {
    vf::check(rows(collect(c.find(doc! {}).run().unwrap()).unwrap()) == st.docs, what);
    vf::check(c.count_documents().unwrap() == st.docs.len() as u64, what);
    for v in values {
        let want: Vec<_> = st.docs.iter().filter(|d| d.1 == *v).cloned().collect();
        vf::check(rows(collect(c.find(doc! {"x": *v}).run().unwrap()).unwrap()) == want, what);
    }
}
fn outside(db: &Database, st: &St, values: &[i32], what: &str) {
    sees(&db.collection::<Document>("c"), st, values, what);
    vf::check(names(db).len() == st.exists as usize, what);
}
const OUT: &str = "nothing of an open transaction is seen outside of it";
const IN: &str = "a transaction sees its own writes";

/// `n` operations inside, looked at from both sides, then one of the endings
fn story(st: &St, ops: &[A], n: usize, values: &[i32]) {
    let db = open();
    setup(&db, st);
    let mut m = st.clone();
    let t = db.start_transaction().unwrap();
    {
        let tc = t.collection::<Document>("c");
        for _ in 0..n {
            let a = ops[vf::pick(ops.len(), "op")];
            let want = m.clone().step(a);
            // refused operations are the subject of `failed`
            if want.is_none() { vf::assume(false) }
            let r = run_on(&tc, a).ok();
            m.step(a);
            vf::check(r == want, "an operation inside a transaction works on the state the transaction sees");
            sees(&tc, &m, values, IN);
            outside(&db, st, values, OUT);
        }
    }
    match vf::pick(3, "ending") {
        0 => {
            vf::check(t.commit().is_ok(), "a transaction nobody interferes with can be committed");
            vf::cover("committed");
            outside(&db, &m, values, "a committed transaction is seen by everybody, all of it");
            drop(t);
        }
        1 => {
            vf::check(t.rollback().is_ok(), "a transaction can be rolled back");
            vf::cover("rolled back");
            outside(&db, st, values, "a rolled back transaction never happened");
            drop(t);
            m = st.clone();
        }
        _ => {
            drop(t);
            vf::cover("dropped");
            outside(&db, st, values, "a dropped transaction never happened");
            m = st.clone();
        }
    }
    // and life goes on
    let c: Collection<Document> = db.collection("c");
    for v in values {
        let free = m.idx != Idx::Unique || !m.docs.iter().any(|d| d.1 == *v);
        let r = run(&db, A::Ins(90, *v)).is_ok();
        vf::check(r == free, "after the transaction values are taken or free as the documents say");
        if r { c.delete_one(doc! {"_id": 90}).unwrap(); }
    }
}
fn arg() -> (i32, i32) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    vf::assume(a < 1 << 30 && a > -(1 << 30) && q < 1 << 30 && q > -(1 << 30));
    (a, q)
}
fn depth(tier: u64) -> usize { if tier == 0 { 2 } else { 3 } }

fn history(tier: u64) {
    let (a, q) = arg();
    let st = St { exists: true, idx: Idx::Plain, docs: vec![(1, a, 0), (2, 7, 0)] };
    let ops = [A::Ins(3, q), A::Set(1, q), A::Mark(q, 1), A::DelBy(q), A::Del(1), A::IncAll(1), A::DelAll];
    story(&st, if tier == 0 { &ops[..4] } else { &ops }, depth(tier), &[a, q]);
}
fn schema(tier: u64) {
    let (a, q) = arg();
    let idx = [Idx::No, Idx::Plain][vf::pick(2, "index")];
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, 7, 0)] };
    let ops = [A::Index(false), A::DropIndex, A::Drop, A::Set(1, q), A::Ins(3, q), A::Index(true)];
    story(&st, if tier == 0 { &ops[..4] } else { &ops }, depth(tier), &[a, q]);
}
fn unique(tier: u64) {
    let (a, q) = arg();
    vf::assume(a != 7);
    let st = St { exists: true, idx: Idx::Unique, docs: vec![(1, a, 0), (2, 7, 0)] };
    story(&st, &[A::Ins(3, q), A::Set(1, q), A::Set(2, q), A::Del(1), A::Ins(4, 7), A::Del(2)], depth(tier), &[a, q]);
}
fn new(tier: u64) {
    let (_, q) = arg();
    let st = St { exists: false, idx: Idx::No, docs: vec![] };
    story(&st, &[A::Ins(1, q), A::Ins(2, 5), A::Index(false), A::Index(true), A::Drop, A::Set(1, 5), A::Del(1)], depth(tier), &[q, 5]);
}
/// two transactions, and writes outside
fn two(_tier: u64) {
    let (a, q) = arg();
    let st = St { exists: true, idx: Idx::No, docs: vec![(1, a, 0), (2, 7, 0)] };
    let db = open();
    setup(&db, &st);
    let (t1, t2) = (db.start_transaction().unwrap(), db.start_transaction().unwrap());
    let ops = [A::Inc(1, 3), A::Inc(2, 5), A::Ins(3, q), A::Del(2)];
    let (a1, a2) = (ops[vf::pick(4, "first")], ops[vf::pick(4, "second")]);
    let r1 = run_on(&t1.collection::<Document>("c"), a1).ok();
    let r2 = run_on(&t2.collection::<Document>("c"), a2).ok();
    vf::check(r1.is_some(), "the first writer is not hindered");
    outside(&db, &st, &[], OUT);
    let first = vf::pick(2, "order") == 0;
    let c1 = vf::pick(2, "first ends") == 0;
    let mut done: Vec<A> = vec![];
    for k in 0..2 {
        if (k == 0) == first {
            if c1 { vf::check(t1.commit().is_ok(), "a transaction that holds what it wrote can be committed"); done.push(a1) } else { t1.rollback().unwrap() }
        } else if r2.is_some() {
            vf::check(t2.commit().is_ok(), "a transaction that holds what it wrote can be committed");
            done.push(a2);
            vf::cover("both transactions");
        } else {
            vf::cover("conflict");
            t2.rollback().unwrap();
        }
        let mut m = st.clone();
        for x in &done { vf::check(m.step(*x).is_some(), "transactions that both succeed could have run one after the other"); }
        outside(&db, &m, &[], "the outcome is that of the committed transactions");
    }
}
/// every way of reading sees the transaction's own writes
fn reads(_tier: u64) {
    let (a, q) = arg();
    let idx = [Idx::No, Idx::Plain][vf::pick(2, "index")];
    let db = open();
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, 7, 0)] };
    setup(&db, &st);
    let t = db.start_transaction().unwrap();
    let (tc, c) = (t.collection::<Document>("c"), coll(&db, "c"));
    tc.insert_one(doc! {"_id": 3, "x": q}).unwrap();
    tc.update_one(doc! {"_id": 2}, doc! {"$set": {"x": q}}).unwrap();
    tc.delete_one(doc! {"_id": 1}).unwrap();
    vf::check(ids(&collect(tc.find(doc! {}).sort(doc! {"_id": -1}).run().unwrap()).unwrap()) == vec![3, 2], IN);
    vf::check(tc.find_one(doc! {"_id": 1}).unwrap().is_none() && tc.find_one(doc! {"_id": 3}).unwrap().is_some(), IN);
    vf::check(ids(&collect(tc.find(doc! {"x": {"$gte": q}}).run().unwrap()).unwrap()) == vec![2, 3], IN);
    vf::check(ids(&collect(tc.find(doc! {"x": q}).skip(1).limit(5).run().unwrap()).unwrap()) == vec![3], IN);
    let n = collect(tc.aggregate(vec![doc! {"$match": {"x": q}}, doc! {"$count": "n"}]).run().unwrap()).unwrap();
    vf::check(n.len() == 1 && n[0].get_i64("n").ok() == Some(2), IN);
    let n = collect(c.aggregate(vec![doc! {"$match": {"x": a}}, doc! {"$count": "n"}]).run().unwrap()).unwrap();
    vf::check(n.len() == 1 && n[0].get_i64("n").ok() == Some(if a == 7 { 2 } else { 1 }), OUT);
    vf::check(c.find_one(doc! {"_id": 3}).unwrap().is_none() && c.find_one(doc! {"_id": 1}).unwrap().is_some(), OUT);
    vf::check(ids(&collect(c.find(doc! {}).sort(doc! {"_id": -1}).run().unwrap()).unwrap()) == vec![2, 1], OUT);
    vf::cover("every way of reading");
    t.rollback().unwrap();
    vf::check(ids(&all(&c)) == vec![1, 2], "a rolled back transaction never happened");
}
/// several collections in one transaction
fn mixed(_tier: u64) {
    let (a, q) = arg();
    let db = open();
    let (c, d) = (coll(&db, "c"), coll(&db, "d"));
    c.insert_one(doc! {"_id": 1, "x": a}).unwrap();
    let t = db.start_transaction().unwrap();
    let (tc, td) = (t.collection::<Document>("c"), t.collection::<Document>("d"));
    tc.update_one(doc! {"_id": 1}, doc! {"$inc": {"x": 1}}).unwrap();
    td.insert_one(doc! {"_id": 1, "x": q}).unwrap();
    // a second handle of the same transaction
    vf::check(t.clone().collection::<Document>("d").find_one(doc! {"x": q}).unwrap().is_some(), IN);
    vf::check(names(&db).len() == 1 && d.count_documents().unwrap() == 0, OUT);
    vf::check(c.find_one(doc! {"x": a}).unwrap().is_some(), OUT);
    let done = vf::pick(2, "ending") == 0;
    if done { t.commit().unwrap() } else { t.rollback().unwrap() }
    vf::check(names(&db).len() == 1 + done as usize, "a transaction is all or nothing");
    vf::check(d.find_one(doc! {"x": q}).unwrap().is_some() == done, "a transaction is all or nothing");
    vf::check(c.find_one(doc! {"x": a + 1}).unwrap().is_some() == done, "a transaction is all or nothing");
    vf::cover("two collections");
}
/// an operation that fails inside a transaction which is then committed
fn failed(_tier: u64) {
    let (a, q) = arg();
    vf::assume(a != q && a != 50 && q != 50);
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", true)).unwrap();
    c.insert_many(vec![doc! {"_id": 1, "x": a}, doc! {"_id": 2, "x": q}]).unwrap();
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    tc.insert_one(doc! {"_id": 3, "x": 50}).unwrap();
    let k = vf::pick(6, "failing");
    let r = match k {
        // refused before anything is written
        0 => tc.insert_one(doc! {"_id": 1, "x": 60}).is_err(),
        1 => tc.update_many(doc! {}, doc! {"$inc": {"_id": 1}}).is_err(),
        2 => tc.create_index(polodb_core::IndexModel { keys: doc! {"x": -1}, options: None }).is_err(),
        // refused after a part was written
        3 => tc.insert_one(doc! {"_id": 4, "x": a}).is_err(),
        4 => tc.insert_many(vec![doc! {"_id": 4, "x": 61}, doc! {"_id": 1, "x": 62}]).is_err(),
        _ => tc.update_one(doc! {"_id": 1}, doc! {"$set": {"x": q}}).is_err(),
    };
    vf::check(r, "a refused operation reports an error inside a transaction");
    t.commit().unwrap();
    let want = vec![(1, a, 0), (2, q, 0), (3, 50, 0)];
    let got = rows(all(&c));
    let same = got == want && [a, q, 50].iter().all(|v| find(&c, doc! {"x": *v}).unwrap().len() == 1);
    if k < 3 {
        vf::cover("refused inside");
        vf::check(same, "an operation refused inside a transaction leaves nothing in it");
    } else {
        vf::check(same, "[K:TXNPART] an operation that fails inside a transaction leaves nothing in it");
    }
    let _ = R::Unit;
}

/// many operations in one transaction
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let n = if tier == 0 { 300 } else { 1050 };
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", false)).unwrap();
    c.insert_many(crowd(20, v)).unwrap();
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    tc.delete_many(doc! {}).unwrap();
    if vf::pick(2, "how") == 0 { tc.insert_many(crowd(n, v)).unwrap(); } else { for d in crowd(n, v) { tc.insert_one(d).unwrap(); } }
    tc.update_many(doc! {"x": 5}, doc! {"$set": {"x": 5000}}).unwrap();
    let mut after = crowd(n, v);
    for d in after.iter_mut() { if d.get_i32("x").unwrap() == 5 { d.insert("x", 5000); } }
    let got = collect(tc.find(doc! {}).run().unwrap()).unwrap();
    vf::check(same_docs(&got, &after), "a transaction sees its own writes");
    vf::check(same_docs(&all(&c), &crowd(20, v)), "nobody sees the writes of an open transaction");
    let commit = vf::pick(2, "ending") == 1;
    if commit { t.commit().unwrap() } else { t.rollback().unwrap() }
    let w = if commit { after } else { crowd(20, v) };
    vf::check(same_docs(&all(&c), &w), "a transaction is all or nothing");
    for x in [0, 5, 5000] {
        let y: Vec<Document> = w.iter().filter(|d| d.get_i32("x").unwrap() == x).cloned().collect();
        vf::check(same_set(&find(&c, doc! {"x": x}).unwrap(), &y), "a transaction is all or nothing");
    }
    vf::cover("large");
}
