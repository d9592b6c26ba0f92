//! P22: collections and indexes are created, listed and dropped consistently.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Document};
use polodb_core::{Collection, CollectionT, Database, IndexModel, IndexOptions, Error};

harness! { TABLE; h_p22_history => history; h_p22_two => two; h_p22_names => legal; h_p22_illegal => illegal; h_p22_again => again; h_p22_index => drop_one; h_p22_redefine => redefine; h_p22_reopen => reopen; h_p22_implicit => implicit; h_p22_txn => txn; h_p22_indexnames => indexnames; h_p22_large => large; }

#[derive(Clone, Default)]
struct Co { docs: Vec<(i32, i32)>, idx: Option<bool> }
#[derive(Clone, Default)]
struct M { c: Vec<(&'static str, Co)> }
impl M {
    fn has(&self, n: &str) -> bool { self.c.iter().any(|x| x.0 == n) }
    fn get(&mut self, n: &'static str) -> &mut Co {
        if !self.has(n) { self.c.push((n, Co::default())); self.c.sort_by(|a, b| a.0.cmp(b.0)) }
        &mut self.c.iter_mut().find(|x| x.0 == n).unwrap().1
    }
}
/// the database is what the model says, whichever way one looks
fn verify(db: &Database, m: &M, all_names: &[&'static str], values: &[i32]) {
    let l: Vec<&str> = m.c.iter().map(|x| x.0).collect();
    vf::check(names(db) == l, "the list names each existing collection once");
    for n in all_names {
        let c = coll(db, n);
        let e = m.c.iter().find(|x| x.0 == *n).map(|x| x.1.clone()).unwrap_or_default();
        let docs: Vec<Document> = e.docs.iter().map(|d| doc! {"_id": d.0, "x": d.1}).collect();
        vf::check(same_docs(&all(&c), &docs), "a collection holds what was inserted since it was created");
        vf::check(c.count_documents().unwrap() == docs.len() as u64, "the count is the number of documents found");
        for v in values {
            let w: Vec<Document> = docs.iter().filter(|d| d.get_i32("x").unwrap() == *v).cloned().collect();
            vf::check(same_docs(&find(&c, doc! {"x": *v}).unwrap(), &w), "nothing of an earlier incarnation is found");
        }
    }
    vf::check(names(db) == l, "reading creates no collection");
}
/// one step; the outcome has to be the model's
fn step(db: &Database, m: &mut M, n: &'static str, k: usize, id: i32, v: i32) {
    let c = coll(db, n);
    let (ok, want) = match k {
        0 => { let w = !m.has(n); if w { m.get(n); } (db.create_collection(n).is_ok(), w) }
        1 => {
            let e = m.get(n);
            let w = !(e.docs.iter().any(|d| d.0 == id) || (e.idx == Some(true) && e.docs.iter().any(|d| d.1 == v)));
            if w { e.docs.push((id, v)); e.docs.sort() }
            (c.insert_one(doc! {"_id": id, "x": v}).is_ok(), w)
        }
        2 => { *m = M { c: m.c.iter().filter(|x| x.0 != n).cloned().collect() }; (c.drop().is_ok(), true) }
        3 | 4 => {
            let u = k == 4;
            let e0 = m.c.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or_default();
            let dup = (0..e0.docs.len()).any(|i| (0..i).any(|j| e0.docs[i].1 == e0.docs[j].1));
            let w = match e0.idx { Some(x) => x == u, None => !(u && dup) };
            if w { m.get(n).idx = Some(u) }
            (c.create_index(index("x", u)).is_ok(), w)
        }
        5 => { if m.has(n) { m.get(n).idx = None } (c.drop_index("x_1").is_ok(), true) }
        _ => { if m.has(n) { m.get(n).docs.clear() } (c.delete_many(doc! {}).is_ok(), true) }
    };
    vf::check(ok == want, "creating, inserting and dropping succeed exactly when they should");
    if k == 0 && !want { vf::cover("exists already") }
    if k == 2 { vf::cover("dropped") }
    if k == 4 && !want { vf::cover("unique index refused") }
}
fn arg() -> (i32, i32) { (vf::any_i32("a"), vf::any_i32("q")) }
/// histories on one collection
fn history(tier: u64) {
    let (a, q) = arg();
    let db = open();
    let mut m = M::default();
    for i in 0..if tier == 0 { 4 } else { 5 } {
        let k = vf::pick(7, "step");
        step(&db, &mut m, "c", k, if i >= 2 { i - 2 } else { i }, if i % 2 == 0 { a } else { q });
    }
    verify(&db, &m, &["c"], &[a, q]);
    vf::cover("history");
}
/// two collections with related names
fn two(tier: u64) {
    let (a, q) = arg();
    let ns: [&'static str; 2] = [["c", "cc"], ["c", "C"], ["a b", "a"]][if tier == 0 { 0 } else { vf::pick(3, "names") }];
    let db = open();
    let mut m = M::default();
    step(&db, &mut m, ns[0], 1, 1, a);
    step(&db, &mut m, ns[1], 1, 1, q);
    step(&db, &mut m, ns[1], 3, 0, 0);
    for i in 0..2 {
        let n = ns[vf::pick(2, "which")];
        step(&db, &mut m, n, [0, 1, 2, 4, 5][vf::pick(5, "step")], 2 + i, a);
    }
    verify(&db, &m, &ns, &[a, q]);
    vf::cover("two collections");
}
const BAD: [u8; 6] = [0, b'$', b'\n', b'\t', b'\r', b'.'];
/// every legal name works
fn legal(_tier: u64) {
    let k = vf::pick(2, "length");
    let s = vf::ascii(k + 1, 0, 0x7f, "n");
    for b in s.as_bytes() { for x in BAD { vf::assume(*b != x) } }
    let v = vf::any_i32("v");
    let db = open();
    let how = vf::pick(3, "how");
    match how {
        0 => { db.create_collection(&s).unwrap(); }
        1 => { coll(&db, &s).insert_one(doc! {"_id": 1, "x": v}).unwrap(); }
        _ => coll(&db, &s).create_index(index("x", false)).unwrap(),
    }
    vf::check(db.list_collection_names().unwrap() == [s.clone()], "the list names each existing collection once");
    vf::check(matches!(db.create_collection(&s), Err(Error::CollectionAlreadyExits(_))), "creating an existing collection fails");
    vf::check(all(&coll(&db, &s)).len() == (how == 1) as usize, "a collection holds what was inserted since it was created");
    if how == 2 { coll(&db, &s).insert_one(doc! {"_id": 1, "x": v}).unwrap(); }
    coll(&db, &s).drop().unwrap();
    vf::check(names(&db).is_empty(), "a dropped collection is not listed");
    db.create_collection(&s).unwrap();
    vf::check(all(&coll(&db, &s)).is_empty() && find(&coll(&db, &s), doc! {"x": v}).unwrap().is_empty(), "a collection created again starts empty");
    vf::cover("legal name");
}
/// an illegal name is refused everywhere
fn illegal(_tier: u64) {
    let b = BAD[vf::pick(BAD.len(), "character")];
    let mut s = vf::ascii(2, 1, 0x7f, "n").into_bytes();
    s.insert(vf::pick(3, "position"), b);
    let s = String::from_utf8(s).unwrap();
    let empty = vf::pick(2, "empty") == 1;
    let n: &str = if empty { "" } else { &s };
    let db = open();
    let keep = coll(&db, "c");
    keep.insert_one(doc! {"_id": 1, "x": 5}).unwrap();
    let c = coll(&db, n);
    let k = vf::pick(if empty { 4 } else { 10 }, "request");
    let r = match k {
        0 => db.create_collection(n).is_err(),
        1 => c.insert_one(doc! {"_id": 1}).is_err(),
        2 => c.insert_many(vec![doc! {"_id": 1}]).is_err(),
        3 => c.create_index(index("x", false)).is_err(),
        4 => c.drop().is_err(),
        5 => c.count_documents().is_err(),
        6 => c.update_many(doc! {}, doc! {"$set": {"x": 1}}).is_err(),
        7 => c.delete_one(doc! {"x": 1}).is_err(),
        8 => c.find(doc! {}).run().is_err(),
        _ => c.drop_index("x_1").is_err(),
    };
    vf::check(r, "an illegal name is refused");
    vf::check(names(&db) == ["c"] && all(&keep).len() == 1, "a refused name changes nothing");
    vf::cover("illegal name");
}
/// a collection dropped and made again has nothing of the earlier one
fn again(_tier: u64) {
    let (a, q) = arg();
    let db = open();
    let c = coll(&db, "c");
    let mut m = M::default();
    let idx = vf::pick(3, "index");
    if idx > 0 { step(&db, &mut m, "c", 2 + idx, 0, 0); }
    step(&db, &mut m, "c", 1, 1, a);
    step(&db, &mut m, "c", 1, 2, q);
    if vf::pick(2, "change") == 1 {
        let r = c.update_one(doc! {"_id": 1}, doc! {"$set": {"x": q}}).is_ok();
        if r { if let Some(e) = m.c.iter_mut().next() { for d in e.1.docs.iter_mut() { if d.0 == 1 { d.1 = q } } } }
    }
    step(&db, &mut m, "c", 2, 0, 0);
    verify(&db, &m, &["c"], &[a, q]);
    // made again in each way, with another index than before
    match vf::pick(3, "again") {
        0 => step(&db, &mut m, "c", 0, 0, 0),
        1 => step(&db, &mut m, "c", 1, 1, q),
        _ => step(&db, &mut m, "c", 4, 0, 0),
    }
    verify(&db, &m, &["c"], &[a, q]);
    step(&db, &mut m, "c", 3 + vf::pick(2, "new index"), 0, 0);
    step(&db, &mut m, "c", 1, 2, a);
    step(&db, &mut m, "c", 1, 3, a);
    verify(&db, &m, &["c"], &[a, q]);
    vf::cover("made again");
}
/// dropping one of two indexes only ends its effects
fn drop_one(_tier: u64) {
    let (a, q) = arg();
    let b = vf::any_i32("b");
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", true)).unwrap();
    c.create_index(index("y", true)).unwrap();
    c.insert_one(doc! {"_id": 1, "x": a, "y": b}).unwrap();
    let y = vf::pick(2, "which") == 1;
    c.drop_index(if y { "y_1" } else { "x_1" }).unwrap();
    vf::check(names(&db) == ["c"] && c.count_documents().unwrap() == 1, "dropping an index leaves collection and documents");
    let r = c.insert_one(doc! {"_id": 2, "x": q, "y": 7}).is_ok();
    let want = if y { a != q } else { b != 7 };
    vf::check(r == want, "the other index stays, the dropped one has no effect");
    if vf::decide(r) { vf::cover("value taken under the dropped index") } else { vf::cover("other index refuses") }
    for v in [a, q] {
        let n = (a == v) as usize + (r && q == v) as usize;
        vf::check(find(&c, doc! {"x": v}).unwrap().len() == n, "queries answer as before");
    }
    for v in [b, 7] {
        let n = (b == v) as usize + (r && v == 7) as usize;
        vf::check(find(&c, doc! {"y": v}).unwrap().len() == n, "queries answer as before");
    }
    vf::check(c.drop_index("none").is_ok(), "dropping an index that is not there does nothing");
}
/// an index dropped and made again, of the other kind
fn redefine(_tier: u64) {
    let (a, q) = arg();
    let db = open();
    let mut m = M::default();
    step(&db, &mut m, "c", 3 + vf::pick(2, "first"), 0, 0);
    step(&db, &mut m, "c", 1, 1, a);
    step(&db, &mut m, "c", 5, 0, 0);
    step(&db, &mut m, "c", 1, 2, q);
    if vf::pick(2, "delete") == 1 { coll(&db, "c").delete_one(doc! {"_id": 1}).unwrap(); m.get("c").docs.retain(|d| d.0 != 1); }
    step(&db, &mut m, "c", 3 + vf::pick(2, "second"), 0, 0);
    step(&db, &mut m, "c", 1, 3, a);
    verify(&db, &m, &["c"], &[a, q]);
    vf::cover("index made again");
}
/// all of it is kept over a close and reopen
fn reopen(_tier: u64) {
    let (a, q) = arg();
    let mut m = M::default();
    {
        let db = open();
        step(&db, &mut m, "c", 1, 1, a);
        step(&db, &mut m, "d", 0, 0, 0);
        step(&db, &mut m, "c", 3 + vf::pick(2, "kind"), 0, 0);
        step(&db, &mut m, "e", 1, 1, q);
        step(&db, &mut m, "e", 2, 0, 0);
    }
    let db = open();
    verify(&db, &m, &["c", "d", "e"], &[a, q]);
    step(&db, &mut m, "c", 1, 2, q);
    step(&db, &mut m, "d", 0, 0, 0);
    step(&db, &mut m, "e", 0, 0, 0);
    step(&db, &mut m, "c", [2, 5][vf::pick(2, "drop")], 0, 0);
    drop(db);
    let db = open();
    verify(&db, &m, &["c", "d", "e"], &[a, q]);
    vf::cover("reopened");
}
/// what makes a collection and what does not
fn implicit(_tier: u64) {
    let v = vf::any_i32("v");
    let db = open();
    let c = coll(&db, "c");
    let k = vf::pick(12, "request");
    let made = match k {
        0 => { find(&c, doc! {"x": v}).unwrap(); false }
        1 => { c.count_documents().unwrap(); false }
        2 => { c.update_many(doc! {"x": v}, doc! {"$set": {"x": 1}}).unwrap(); false }
        3 => { c.delete_many(doc! {"x": v}).unwrap(); false }
        4 => { c.delete_many(doc! {}).unwrap(); false }
        5 => { c.drop().unwrap(); false }
        6 => { c.drop_index("x_1").unwrap(); false }
        7 => { let _ = c.aggregate(vec![doc! {"$match": {"x": v}}]).run().unwrap().count(); false }
        8 => { c.insert_one(doc! {"x": v}).unwrap(); true }
        9 => { c.insert_many(vec![doc! {"x": v}, doc! {"x": v}]).unwrap(); true }
        10 => { c.create_index(index("x", true)).unwrap(); true }
        _ => { vf::check(c.insert_many(vec![doc! {"_id": v}, doc! {"_id": v}]).is_err(), "a refused insert"); false }
    };
    vf::check(names(&db) == if made { vec!["c".to_string()] } else { vec![] }, "only inserts, indexes and creation make a collection");
    vf::check(db.create_collection("c").is_ok() != made, "creating an existing collection fails");
    vf::cover("made or not");
}
/// created in a transaction
fn txn(_tier: u64) {
    let (a, q) = arg();
    let db = open();
    let mut m = M::default();
    step(&db, &mut m, "d", 1, 1, a);
    let t = db.start_transaction().unwrap();
    {
        let c = t.collection::<Document>("c");
        c.insert_one(doc! {"_id": 1, "x": q}).unwrap();
        if vf::pick(2, "index") == 1 { c.create_index(index("x", true)).unwrap() }
        if vf::pick(2, "drop") == 1 { t.collection::<Document>("d").drop().unwrap() }
    }
    vf::check(names(&db) == ["d"], "a transaction's collections are not listed before it commits");
    t.rollback().unwrap();
    drop(t);
    verify(&db, &m, &["c", "d"], &[a, q]);
    step(&db, &mut m, "c", 0, 0, 0);
    step(&db, &mut m, "c", 1, 1, a);
    step(&db, &mut m, "c", 1, 2, a);
    verify(&db, &m, &["c", "d"], &[a, q]);
    vf::cover("rolled back");
}
/// names given to indexes
fn indexnames(_tier: u64) {
    let (a, q) = arg();
    let db = open();
    let c = coll(&db, "c");
    let mk = |f: &str, n: &str, u: bool| c.create_index(IndexModel { keys: doc! {f: 1}, options: Some(IndexOptions { name: Some(n.into()), unique: Some(u) }) });
    mk("x", "i1", true).unwrap();
    mk("y", "i2", false).unwrap();
    c.insert_one(doc! {"_id": 1, "x": a, "y": q}).unwrap();
    vf::check(mk("x", "i1", true).is_ok(), "making the same index again does nothing");
    vf::check(mk("y", "i1", true).is_err(), "a name taken by another index is refused");
    c.drop_index("x_1").unwrap();
    vf::check(c.insert_one(doc! {"_id": 2, "x": a, "y": q}).is_err(), "an index goes by its own name");
    c.drop_index("i1").unwrap();
    vf::check(c.insert_one(doc! {"_id": 2, "x": a, "y": q}).is_ok(), "a dropped index has no effect");
    vf::check(find(&c, doc! {"y": q}).unwrap().len() == 2 && find(&c, doc! {"x": a}).unwrap().len() == 2, "queries answer as before");
    vf::cover("named index");
}

/// many collections and indexes
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let n = if tier == 0 { 60 } else { 300 };
    let db = open();
    for i in 0..n { coll(&db, &format!("c{}", i)).insert_one(doc! {"_id": 1, "v": v, "i": i}).unwrap(); }
    let c = coll(&db, "c7");
    for i in 0..20 { c.create_index(index(&format!("f{}", i), false)).unwrap(); }
    c.create_index(index("i", true)).unwrap();
    vf::check(names(&db).len() == n as usize, "many collections are listed");
    for i in 0..n { if i % 3 == 0 { coll(&db, &format!("c{}", i)).drop().unwrap(); } }
    let mut w: Vec<String> = (0..n).filter(|i| i % 3 != 0).map(|i| format!("c{}", i)).collect();
    w.sort();
    vf::check(names(&db) == w, "exactly the collections not dropped are listed");
    for i in 0..20 { if i != 4 { c.drop_index(format!("f{}_1", i)).unwrap(); } }
    vf::check(c.insert_one(doc! {"i": 7}).is_err() && c.insert_one(doc! {"i": 8, "f4": 5}).is_ok(), "the indexes not dropped stay in force");
    vf::check(find(&c, doc! {"f4": 5}).unwrap().len() == 1, "the indexes not dropped stay in force");
    vf::check(find(&coll(&db, "c8"), doc! {}).unwrap().len() == 1, "many collections keep their documents");
    vf::cover("large");
}
