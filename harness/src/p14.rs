//! P14: a failed operation leaves no trace.
use crate::vf;
use crate::gen::*;
use crate::env::{env, Call};
use crate::p17::{run, rows, collect, A, Idx, St};
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::{Collection, CollectionT, Database, IndexModel, IndexOptions};
use polodb_core::options::UpdateOptions;

harness! { TABLE;
    h_p14_writes => writes; h_p14_ddl => ddl; h_p14_reads => reads; h_p14_upsert => upsert;
    h_p14_batch => batch; h_p14_update => update; h_p14_index => index_; h_p14_refused => refused; h_p14_large => large;
}

const EVERY: &[Call] = &[Call::Put, Call::Delete, Call::Commit, Call::Get, Call::Seek, Call::Next, Call::Rollback];

/// what clients can see of a collection
#[derive(PartialEq)]
struct View { names: Vec<String>, docs: Vec<(i32, i32, i32)>, by: Vec<Vec<(i32, i32, i32)>> }
fn view(db: &Database, values: &[i32]) -> View {
    let c: Collection<Document> = db.collection("c");
    View {
        names: names(db),
        docs: rows(all(&c)),
        by: values.iter().map(|v| rows(find(&c, doc! {"x": *v}).unwrap())).collect(),
    }
}
fn expect(st: &St, values: &[i32]) -> View {
    View {
        names: if st.exists { vec!["c".to_string()] } else { vec![] },
        docs: st.docs.clone(),
        by: values.iter().map(|v| st.docs.iter().filter(|d| d.1 == *v).cloned().collect()).collect(),
    }
}
/// whether the index is there and of its kind, tried out with its name
fn index_is(db: &Database, k: Idx, values: &[i32]) {
    let c: Collection<Document> = db.collection("c");
    match k {
        Idx::No => vf::check(c.create_index(index("x", false)).is_ok(), "the index is as before the failed operation"),
        Idx::Plain => vf::check(c.create_index(index("x", false)).is_ok() && c.create_index(index("x", true)).is_err(), "the index is as before the failed operation"),
        Idx::Unique => vf::check(c.create_index(index("x", true)).is_ok() && c.create_index(index("x", false)).is_err(), "the index is as before the failed operation"),
    }
    let _ = values;
}
fn setup(db: &Database, st: &St) {
    let c: Collection<Document> = db.collection("c");
    if st.exists { db.create_collection("c").unwrap(); }
    if st.idx != Idx::No { c.create_index(index("x", st.idx == Idx::Unique)).unwrap(); }
    for (i, x, _) in &st.docs { c.insert_one(doc! {"_id": *i, "x": *x}).unwrap(); }
}
/// one storage call of `a` fails; then the same operation is repeated
fn faulty(st: &St, a: A, values: &[i32]) {
    let db = open();
    setup(&db, st);
    let mut after = st.clone();
    let want = after.step(a);
    env().fault = true;
    env().fault_on = EVERY;
    env().failed = false;
    let r = run(&db, a);
    env().fault = false;
    let hit = env().failed;
    match &r {
        Ok(r) => {
            if hit { vf::cover("failure made up for") } else { vf::cover("no failure") }
            vf::check(want.as_ref() == Some(r), "a reported success has the right result");
            vf::check(view(&db, values) == expect(&after, values), "a reported success has its complete effect");
        }
        Err(_) => {
            if hit { vf::cover("failure reported") } else { vf::cover("refused") }
            vf::check(hit || want.is_none(), "an operation fails for a reason");
            vf::check(view(&db, values) == expect(st, values), "a failed operation has no effect on documents, indexes and collections");
            if vf::pick(2, "then") == 0 {
                index_is(&db, st.idx, values);
            } else {
                let again = run(&db, a).ok();
                vf::check(again == want, "the operation can be repeated after a failure");
                vf::check(view(&db, values) == expect(&after, values), "the repeated operation has its complete effect");
            }
        }
    }
}
fn arg() -> (i32, i32) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    vf::assume(a < 1 << 30 && a > -(1 << 30) && q < 1 << 30 && q > -(1 << 30));
    (a, q)
}
fn writes(tier: u64) {
    let (a, q) = arg();
    let idx = [Idx::Plain, Idx::Unique, Idx::No][vf::pick(if tier == 0 { 2 } else { 3 }, "index")];
    vf::assume(idx != Idx::Unique || a != 7);
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, 7, 0)] };
    let ops = [A::Ins(3, q), A::Set(1, q), A::Mark(q, 1), A::Del(1), A::DelBy(q), A::DelAll, A::Inc(1, 1), A::Ins(1, q)];
    faulty(&st, ops[vf::pick(if tier == 0 { 6 } else { 8 }, "op")], &[a, q]);
}
fn ddl(_tier: u64) {
    let (a, q) = arg();
    let k = vf::pick(9, "case");
    let idx = [Idx::No, Idx::No, Idx::Plain, Idx::Unique, Idx::Plain, Idx::No, Idx::No, Idx::No, Idx::No][k];
    vf::assume(idx != Idx::Unique || a != q);
    let exists = k < 6;
    let st = St { exists, idx, docs: if exists { vec![(1, a, 0), (2, q, 0)] } else { vec![] } };
    let op = [A::Index(false), A::Index(true), A::DropIndex, A::DropIndex, A::Drop, A::Create, A::Create, A::Ins(1, q), A::Index(true)][k];
    faulty(&st, op, &[a, q]);
}
/// a read that meets a failure reports it or is complete
fn reads(_tier: u64) {
    let (a, q) = arg();
    let idx = [Idx::No, Idx::Plain][vf::pick(2, "index")];
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, 7, 0), (3, a, 0)] };
    if vf::pick(2, "sorted") == 0 {
        return faulty(&st, [A::Find(a), A::Find(q), A::All, A::Count][vf::pick(4, "op")], &[]);
    }
    let db = open();
    setup(&db, &st);
    let c = coll(&db, "c");
    env().fault = true;
    env().fault_on = EVERY;
    let how = vf::pick(3, "how");
    let r: Result<Vec<Document>, _> = match how {
        0 => c.find(doc! {}).sort(doc! {"x": 1}).run().and_then(collect),
        1 => c.find(doc! {"x": a}).skip(1).run().and_then(collect),
        _ => c.aggregate(vec![doc! {"$count": "n"}]).run().and_then(collect),
    };
    env().fault = false;
    if let Ok(v) = r {
        vf::cover("complete read");
        match how {
            0 => vf::check(v.len() == 3, "a read that meets a failure is complete or reports it"),
            1 => vf::check(v.len() == if a == 7 { 2 } else { 1 }, "a read that meets a failure is complete or reports it"),
            _ => vf::check(v.len() == 1 && v[0].get_i64("n").ok() == Some(3), "a read that meets a failure is complete or reports it"),
        }
    } else {
        vf::check(env().failed, "an operation fails for a reason");
        vf::cover("failed read");
    }
    vf::check(all(&c).len() == 3, "reading works again after the failure");
}
fn upsert(_tier: u64) {
    let (a, q) = arg();
    let idx = [Idx::Plain, Idx::Unique][vf::pick(2, "index")];
    let st = St { exists: true, idx, docs: vec![(1, a, 0)] };
    let db = open();
    setup(&db, &st);
    let c = coll(&db, "c");
    env().fault = true;
    env().fault_on = EVERY;
    let up = || c.update_one_with_options(doc! {"_id": 5}, doc! {"$set": {"x": q}}, UpdateOptions::builder().upsert(true).build());
    let no = idx == Idx::Unique && a == q;
    let r = up().is_ok();
    env().fault = false;
    let mut after = st.clone();
    after.docs.push((5, q, 0));
    if r {
        vf::check(!no, "a taken unique value is refused");
        vf::check(view(&db, &[a, q]) == expect(&after, &[a, q]), "a reported success has its complete effect");
    } else {
        vf::check(no || env().failed, "an operation fails for a reason");
        vf::check(view(&db, &[a, q]) == expect(&st, &[a, q]), "a failed operation has no effect on documents, indexes and collections");
        vf::check(up().is_ok() == !no, "the operation can be repeated after a failure");
    }
}

/// a batch in which one document cannot be stored
fn batch(tier: u64) {
    let (a, q) = arg();
    let exists = vf::pick(2, "exists") == 1;
    let idx = if exists { [Idx::Plain, Idx::Unique][vf::pick(2, "index")] } else { Idx::No };
    let st = St { exists, idx, docs: if exists { vec![(1, a, 0)] } else { vec![] } };
    let db = open();
    setup(&db, &st);
    let c = coll(&db, "c");
    let n = if tier == 0 { 3 } else { 4 };
    let mut docs: Vec<Document> = (0..n).map(|i| doc! {"_id": 10 + i as i32, "x": 100 + i as i32}).collect();
    let at = vf::pick(n, "position");
    vf::assume(a < 90 || a > 110);
    let why = vf::pick(6, "why");
    let mut one = false;
    match why {
        // taken key, in the collection or in the batch
        0 => { if exists { docs[at].insert("_id", 1); } else { docs[at].insert("_id", 10 + (at as i32 + 1) % n as i32); } }
        1 => { docs[at].insert("_id", 10 + (at as i32 + 1) % n as i32); }
        // no key type
        2 => { docs[at].insert("_id", vec![1, 2]); }
        3 => { docs[at].insert("_id", doc! {"a": 1}); }
        // taken or free unique value
        4 => { docs[at].insert("x", q); }
        // no index key type
        _ => { docs[at].insert("x", vec![1, 2]); one = true; }
    }
    let bad = match why {
        4 => idx == Idx::Unique && (a == q || (0..n).any(|i| i != at && 100 + i as i32 == q)),
        5 => idx != Idx::No,
        _ => true,
    };
    let r = if one || n == 1 || vf::pick(2, "single") == 0 { c.insert_many(docs.clone()).is_ok() } else {
        // the same document alone
        if why == 1 || (why == 0 && !exists) { return }
        let b = match why { 4 => idx == Idx::Unique && a == q, _ => bad };
        let r = c.insert_one(docs[at].clone()).is_ok();
        vf::check(r == !b, "a document is refused exactly when it cannot be stored");
        if r { return }
        r
    };
    vf::check(r == !bad, "a batch is refused exactly when one of its documents cannot be stored");
    if r { vf::cover("batch stored"); return }
    vf::cover("batch refused");
    vf::check(view(&db, &[a, q, 100]) == expect(&st, &[a, q, 100]), "a failed operation has no effect on documents, indexes and collections");
    vf::check(c.insert_many((0..2).map(|i| doc! {"_id": 10 + i, "x": 1000 + i}).collect::<Vec<_>>()).is_ok() || a == 1000 || a == 1001, "the operation can be repeated after a failure");
}

/// an update that fails at one of several documents
fn update(tier: u64) {
    let n = if tier == 0 { 2 } else { 3 };
    let (a, q) = arg();
    vf::assume(a != q && (a < 90 || a > 110) && (q < 90 || q > 110));
    let at = vf::pick(n, "position");
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", true)).unwrap();
    c.create_index(index("n", false)).unwrap();
    let mut docs: Vec<Document> = (0..n).map(|i| doc! {"_id": i as i32, "x": 100 + i as i32, "n": a, "l": [1], "s": 1}).collect();
    let why = vf::pick(6, "why");
    match why {
        0 => { docs[at].insert("n", i64::MAX); }
        1 => { docs[at].insert("l", "no array"); }
        2 => { docs[at].insert("s", "text"); }
        _ => {}
    }
    c.insert_many(docs.clone()).unwrap();
    c.insert_one(doc! {"_id": 50, "x": q}).unwrap();
    let before = all(&c);
    let opt = vf::pick(3, "options");
    let upd = |q: Document, d: Document| match opt {
        0 => c.update_many(q, d).is_ok(),
        1 => c.update_many_with_options(q, d, UpdateOptions::default()).is_ok(),
        _ => c.update_many_with_options(q, d, UpdateOptions::builder().upsert(true).build()).is_ok(),
    };
    let one = |d: Document| upd(doc! {"n": {"$gte": i32::MIN}}, d);
    let (r, bad) = match why {
        0 => (one(doc! {"$inc": {"n": 1}}), true),
        1 => (one(doc! {"$set": {"n": 5}, "$push": {"l": 2}}), true),
        2 => (one(doc! {"$set": {"n": q}, "$mul": {"s": 2}}), true),
        // the first gets the value, the second is refused
        3 => (one(doc! {"$set": {"x": 100}}), true),
        4 => (upd(doc! {"n": a}, doc! {"$inc": {"n": 1}, "$set": {"x": q}}), true),
        _ => (one(doc! {"$set": {"n": q}}), false),
    };
    vf::check(r == !bad, "an update fails exactly when one document cannot be changed");
    if r { vf::cover("update done"); return }
    vf::cover("update refused");
    vf::check(same_docs(&all(&c), &before), "a failed operation has no effect on documents, indexes and collections");
    let by: Vec<Document> = before.iter().filter(|d| d.get("n").and_then(|x| x.as_i32()) == Some(a)).cloned().collect();
    vf::check(same_set(&find(&c, doc! {"n": a}).unwrap(), &by), "a failed operation has no effect on documents, indexes and collections");
    vf::check(find(&c, doc! {"n": 5}).unwrap().len() == if a == 5 { by.len() } else { 0 }, "a failed operation has no effect on documents, indexes and collections");
    for i in 0..n { vf::check(find(&c, doc! {"x": 100 + i as i32}).unwrap().len() == 1, "a failed operation has no effect on documents, indexes and collections"); }
}

/// indexes that cannot be made
fn index_(_tier: u64) {
    let (a, q) = arg();
    let db = open();
    let c = coll(&db, "c");
    let exists = vf::pick(2, "exists") == 1;
    if exists { c.insert_many(vec![doc! {"_id": 1, "x": a}, doc! {"_id": 2, "x": q}, doc! {"_id": 3, "y": [1]}]).unwrap(); }
    let before = all(&c);
    let why = vf::pick(6, "why");
    let named = |n: &str| Some(IndexOptions { name: Some(n.to_string()), unique: None });
    let (m, bad) = match why {
        0 => (index("x", true), exists && a == q),
        1 => (IndexModel { keys: doc! {"x": 1, "y": 1}, options: None }, true),
        2 => (IndexModel { keys: doc! {"x": -1}, options: None }, true),
        3 => (IndexModel { keys: doc! {}, options: None }, true),
        4 => (IndexModel { keys: doc! {"x": 1}, options: named("a$b") }, true),
        // a document's value is no index key
        _ => (index("y", false), exists),
    };
    let r = c.create_index(m).is_ok();
    vf::check(r == !bad, "an index is refused exactly when it cannot be made");
    if r { vf::cover("index made"); return }
    vf::cover("index refused");
    vf::check(names(&db).len() == exists as usize, "a failed operation has no effect on documents, indexes and collections");
    vf::check(same_docs(&all(&c), &before), "a failed operation has no effect on documents, indexes and collections");
    // no index on x or y is in force
    c.insert_many(vec![doc! {"_id": 8, "x": a, "y": [2]}, doc! {"_id": 9, "x": a, "y": 3}]).unwrap();
    vf::check(find(&c, doc! {"x": a}).unwrap().len() == 2 + if exists { 1 + (a == q) as usize } else { 0 }, "a failed operation has no effect on documents, indexes and collections");
    vf::check(find(&c, doc! {"y": 3}).unwrap().len() == 1, "a failed operation has no effect on documents, indexes and collections");
}

/// requests that are refused before anything is written
fn refused(_tier: u64) {
    let a = vf::any_i32("a");
    let db = open();
    let c = coll(&db, "c");
    let exists = vf::pick(2, "exists") == 1;
    if exists { c.insert_one(doc! {"_id": 1, "x": a}).unwrap(); }
    let before = all(&c);
    let bad = coll(&db, ["a.b", "$x", "", "a\0b"][vf::pick(4, "name")]);
    let r = match vf::pick(9, "why") {
        0 => bad.insert_one(doc! {"_id": 1}).is_err(),
        1 => bad.insert_many(vec![doc! {"_id": 1}, doc! {"_id": 2}]).is_err(),
        2 => db.create_collection(bad.name()).is_err(),
        3 => bad.create_index(index("x", true)).is_err(),
        4 => c.insert_one(doc! {"_id": Bson::Array(vec![])}).is_err(),
        5 => c.update_many(doc! {}, doc! {"$nope": {"x": 1}}).is_err() || !exists,
        6 => c.delete_many(doc! {"x": {"$nope": 1}}).is_err() || !exists,
        7 => c.update_many(doc! {"$nope": 1}, doc! {"$set": {"x": 1}}).is_err() || !exists,
        _ => c.update_many(doc! {}, doc! {"$set": {"_id": 9}}).is_err() || !exists,
    };
    vf::check(r, "an illegal request is refused");
    vf::cover("illegal request");
    vf::check(names(&db).len() == exists as usize && same_docs(&all(&c), &before), "a failed operation has no effect on documents, indexes and collections");
}

/// many documents, of which the last or one in the middle fails
fn large(tier: u64) {
    let n = if tier == 0 { 1050 } else { 2100 };
    let at = [n - 1, n / 2][vf::pick(2, "position")];
    let v = vf::any_i32("v");
    vf::assume(v != 0);
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("u", true)).unwrap();
    c.insert_one(doc! {"_id": -1, "u": -1, "x": v}).unwrap();
    let mut docs: Vec<Document> = (0..n).map(|i| doc! {"_id": i, "u": i, "x": v}).collect();
    let kind = vf::pick(4, "kind");
    let r = match kind {
        0 => { docs[at as usize].insert("u", -1); c.insert_many(docs).is_ok() }
        1 => { docs[at as usize].insert("_id", -1); c.insert_many(docs).is_ok() }
        2 => {
            docs[at as usize].insert("x", "text");
            c.insert_many(docs).unwrap();
            c.update_many(doc! {"_id": {"$gte": 0}}, doc! {"$inc": {"x": 1}}).is_ok()
        }
        _ => {
            c.insert_many(docs).unwrap();
            // the deletion of the last document fails
            env().fault = true;
            env().fault_on = &[Call::Commit];
            let r = c.delete_many(doc! {}).is_ok();
            env().fault = false;
            vf::check(r != env().failed, "an operation fails for a reason");
            r
        }
    };
    if r {
        vf::check(kind == 3 && all(&c).is_empty(), "a batch is refused exactly when one of its documents cannot be stored");
        return
    }
    vf::cover("large batch refused");
    let want = if kind < 2 { 1 } else { n as usize + 1 };
    let now = all(&c);
    vf::check(now.len() == want && c.count_documents().unwrap() == want as u64, "a failed operation has no effect on documents, indexes and collections");
    vf::check(now.iter().all(|d| d.get("x").unwrap().as_i32().map(|x| x == v).unwrap_or(true)), "a failed operation has no effect on documents, indexes and collections");
    vf::check(find(&c, doc! {"u": 3}).unwrap().len() == (kind > 1) as usize, "a failed operation has no effect on documents, indexes and collections");
}
