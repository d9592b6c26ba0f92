//! P18: committed data survives a crash, uncommitted data never appears.
use crate::vf;
use crate::gen::*;
use crate::env::env;
use crate::p17::{run, run_on, rows, A, Idx, St};
use polodb_core::bson::{doc, Document};
use polodb_core::{Collection, CollectionT, Database};

harness! { TABLE; h_p18_history => history; h_p18_schema => schema; h_p18_new => new; h_p18_txn => txn; h_p18_failed => failed; h_p18_twice => twice; h_p18_many => many; h_p18_large => large; }

fn setup(db: &Database, st: &St) {
    let c: Collection<Document> = db.collection("c");
    if st.exists { db.create_collection("c").unwrap(); }
    if st.idx != Idx::No { c.create_index(index("x", st.idx == Idx::Unique)).unwrap(); }
    for (i, x, _) in &st.docs { c.insert_one(doc! {"_id": *i, "x": *x}).unwrap(); }
}
/// the database found after the crash is in one of the states
fn recovered(states: &[&St], values: &[i32]) -> Database {
    env().crash = false;
    let db = match Database::open_path(crate::store::dir(1)) { Ok(d) => d, Err(_) => { vf::check(false, "the database opens after a crash"); unreachable!() } };
    let c: Collection<Document> = db.collection("c");
    let docs = rows(all(&c));
    let exists = names(&db).len() == 1;
    let hit = states.iter().find(|s| s.exists == exists && vf::decide(s.docs == docs));
    let st = match hit { Some(s) => s, None => { vf::check(false, "after a crash everything reported is there, of what was going on all or nothing"); unreachable!() } };
    vf::check(c.count_documents().unwrap() == docs.len() as u64, "the recovered database works");
    for v in values {
        let want: Vec<_> = docs.iter().filter(|d| d.1 == *v).cloned().collect();
        vf::check(rows(find(&c, doc! {"x": *v}).unwrap()) == want, "after a crash the index agrees with the documents");
        let free = st.idx != Idx::Unique || want.is_empty();
        // when both states have the same documents the index may be either one
        if states.iter().all(|s| s.idx == st.idx) || vf::decide(want.is_empty()) {
            let r = c.insert_one(doc! {"_id": 90, "x": *v}).is_ok();
            vf::check(r == free, "after a crash a value is taken or free as the documents say");
            if r { vf::check(c.delete_one(doc! {"_id": 90}).unwrap().deleted_count == 1, "the recovered database works"); }
        }
    }
    db
}
/// `n` operations; the crash falls on one storage call, or after the last one
fn story(st: &St, ops: &[A], n: usize, values: &[i32]) {
    let db = open();
    env().crash = true;
    env().crashed = true;
    setup(&db, st);
    env().crashed = false;
    let mut m = st.clone();
    let mut last = st.clone();
    for _ in 0..n {
        last = m.clone();
        let a = ops[vf::pick(ops.len(), "op")];
        let r = run(&db, a).is_ok();
        if r { vf::check(m.step(a).is_some(), "an operation succeeds when it should"); }
        if env().crashed { break }
    }
    if env().crashed {
        vf::cover("crash during an operation");
        recovered(&[&last, &m], values);
    } else {
        env().crashed = true;
        crate::store::crash_image();
        vf::cover("crash after the operations");
        recovered(&[&m], values);
    }
}
fn arg() -> (i32, i32) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    vf::assume(a < 1 << 30 && a > -(1 << 30) && q < 1 << 30 && q > -(1 << 30));
    (a, q)
}
fn depth(tier: u64) -> usize { if tier == 0 { 2 } else { 3 } }
fn history(tier: u64) {
    let (a, q) = arg();
    let idx = [Idx::Plain, Idx::Unique][vf::pick(2, "index")];
    vf::assume(a != 7);
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, 7, 0)] };
    let ops = [A::Ins(3, q), A::Set(1, q), A::Del(1), A::Mark(q, 1), A::DelBy(q), A::DelAll];
    story(&st, if tier == 0 { &ops[..4] } else { &ops }, if tier == 0 && idx == Idx::Unique { 1 } else { 2 }, &[a, q]);
}
fn schema(_tier: u64) {
    let (a, q) = arg();
    let k = vf::pick(4, "case");
    let idx = [Idx::No, Idx::No, Idx::Plain, Idx::Unique][k];
    vf::assume(k == 0 || a != 7);
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, 7, 0)] };
    story(&st, &[[A::Index(false), A::Index(true), A::DropIndex, A::Drop][k], A::Set(1, q)], depth(0), &[a, q]);
}
fn new(tier: u64) {
    let (_, q) = arg();
    let st = St { exists: false, idx: Idx::No, docs: vec![] };
    story(&st, &[A::Ins(1, q), A::Ins(2, 5), A::Create, A::Index(true), A::Drop], depth(tier), &[q, 5]);
}
/// an explicit transaction is there with all or none of its operations
fn txn(_tier: u64) {
    let (a, q) = arg();
    let idx = [Idx::No, Idx::Plain][vf::pick(2, "index")];
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, 7, 0)] };
    let db = open();
    setup(&db, &st);
    let mut m = st.clone();
    env().crash = true;
    let t = db.start_transaction().unwrap();
    {
        let tc = t.collection::<Document>("c");
        for x in [A::Inc(1, -1), A::Ins(3, q), A::Inc(2, 1), A::Del(1)] {
            vf::check(run_on(&tc, x).is_ok(), "an operation succeeds when it should");
            m.step(x);
        }
    }
    let inside = env().crashed;
    let ok = match vf::pick(3, "ending") { 0 => { t.commit().unwrap(); true } 1 => { t.rollback().unwrap(); false } _ => false };
    drop(t);
    let by_end = env().crashed;
    if !env().crashed { env().crashed = true; crate::store::crash_image(); }
    if inside || !ok {
        vf::cover("no trace of the open transaction");
        recovered(&[&st], &[a, q]);
    } else if by_end {
        vf::cover("crash at the commit");
        recovered(&[&st, &m], &[a, q]);
    } else {
        recovered(&[&m], &[a, q]);
    }
}
/// what failed before the crash is not there after it
fn failed(_tier: u64) {
    let (a, q) = arg();
    vf::assume(a != q);
    let st = St { exists: true, idx: Idx::Unique, docs: vec![(1, a, 0), (2, q, 0)] };
    let db = open();
    setup(&db, &st);
    let c = coll(&db, "c");
    env().crash = true;
    let k = vf::pick(3, "failing");
    let r = match k {
        0 => c.insert_many(vec![doc! {"_id": 3, "x": 5000000}, doc! {"_id": 4, "x": a}]).is_err(),
        1 => c.update_one(doc! {"_id": 1}, doc! {"$set": {"x": q}}).is_err(),
        _ => c.update_many(doc! {}, doc! {"$set": {"x": 5000001}}).is_err(),
    };
    vf::check(r, "a taken unique value is refused");
    if !env().crashed { env().crashed = true; crate::store::crash_image(); }
    vf::cover("failed before the crash");
    recovered(&[&st], &[a, q]);
}
/// a database that recovered from a crash keeps what is written afterwards
fn twice(_tier: u64) {
    let (a, q) = arg();
    let st = St { exists: true, idx: Idx::Plain, docs: vec![(1, a, 0)] };
    let db = open();
    setup(&db, &st);
    env().crashed = true;
    crate::store::crash_image();
    let db = recovered(&[&st], &[a, q]);
    let c = coll(&db, "c");
    c.insert_one(doc! {"_id": 2, "x": q}).unwrap();
    c.update_one(doc! {"_id": 1}, doc! {"$set": {"x": q}}).unwrap();
    drop(db);
    let db = Database::open_path(crate::store::dir(1)).unwrap();
    let c = coll(&db, "c");
    vf::check(rows(find(&c, doc! {"x": q}).unwrap()) == vec![(1, q, 0), (2, q, 0)] && rows(all(&c)).len() == 2, "the recovered database works");
    vf::cover("written after recovery");
}

/// one operation over `n` documents; the crash falls on calls of `on`
fn bulk(n: i32, on: &'static [crate::env::Call], op: usize) {
    let v = vf::any_i32("v");
    vf::assume(v != 7 && v < 1 << 30 && v > -(1 << 30));
    let db = open();
    let c = coll(&db, "c");
    let rec = |x: i32| (0..n).map(|i| doc! {"_id": i, "x": x, "u": i}).collect::<Vec<Document>>();
    if op < 2 { c.create_index(index("u", true)).unwrap(); } else { c.create_index(index("x", false)).unwrap(); }
    if op == 1 || op > 2 { c.insert_many(rec(v)).unwrap(); }
    let (before, after): (Vec<Document>, Vec<Document>) = match op {
        0 | 2 => (vec![], rec(v)),
        1 | 3 => (rec(v), rec(7)),
        4 => (rec(v), vec![]),
        _ => (rec(v), rec(v)),
    };
    env().crash_on = on;
    env().crash = true;
    match op {
        0 | 2 => { c.insert_many(rec(v)).unwrap(); }
        1 | 3 => { c.update_many(doc! {"x": v}, doc! {"$set": {"x": 7}}).unwrap(); }
        4 => { c.delete_many(doc! {"x": v}).unwrap(); }
        _ => { c.create_index(index("u", true)).unwrap(); }
    }
    let inside = env().crashed;
    if !inside { env().crashed = true; crate::store::crash_image(); }
    env().crash = false;
    let db = Database::open_path(crate::store::dir(1)).unwrap();
    let c = coll(&db, "c");
    let got = all(&c);
    if inside { vf::cover("crash within many") } else { vf::cover("crash after many") }
    let done = got.len() == after.len() && vf::decide(same_docs(&got, &after));
    vf::check(done || (inside && same_docs(&got, &before)), "after a crash everything reported is there, of what was going on all or nothing");
    let now = if done { &after } else { &before };
    vf::check(c.count_documents().unwrap() == now.len() as u64, "the recovered database works");
    for k in [0, n - 1] {
        let w: Vec<Document> = now.iter().filter(|d| d.get_i32("u").unwrap() == k).cloned().collect();
        vf::check(same_docs(&find(&c, doc! {"u": k}).unwrap(), &w), "after a crash the index agrees with the documents");
    }
    if op != 5 { vf::check(find(&c, doc! {"x": 7}).unwrap().len() == if done && (op == 1 || op == 3) { n as usize } else { 0 }, "after a crash the index agrees with the documents"); }
}
/// several documents in one operation, a crash at every storage call
fn many(tier: u64) { bulk(if tier == 0 { 4 } else { 6 }, &[], vf::pick(6, "op")) }
/// many documents in one operation, a crash at every commit
fn large(_tier: u64) { bulk(1050, &[crate::env::Call::Commit], vf::pick(6, "op")) }
