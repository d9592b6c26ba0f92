//! P09: an index never changes the answer to a query.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::{CollectionT, Collection, Database};

harness! {
    TABLE; h_p09_history => history; h_p09_kinds => kinds; h_p09_path => path; h_p09_bulk => bulk;
    h_p09_and => extra; h_p09_numeric => numeric; h_p09_large => large; }

const STEPS: usize = 12;
/// The model: documents in key order.
struct M { docs: Vec<Document> }
impl M {
    fn has(&self, id: i32) -> bool { self.docs.iter().any(|d| d.get_i32("_id").unwrap() == id) }
    fn upd(&mut self, f: impl Fn(&Document) -> bool, g: impl Fn(&mut Document)) { for d in self.docs.iter_mut() { if f(d) { g(d) } } }
    fn sort(&mut self) { self.docs.sort_by_key(|d| d.get_i32("_id").unwrap()); }
}
fn xval(d: &Document) -> Option<i32> { d.get("x").and_then(|b| b.as_i32()) }

/// one step on the real collection and on the model; `next` numbers documents
fn step(k: usize, c: &Collection<Document>, m: &mut M, next: &mut i32, val: &dyn Fn() -> i32) {
    match k {
        0 => { let v = val(); c.insert_one(doc! {"_id": *next, "x": v}).unwrap(); m.docs.push(doc! {"_id": *next, "x": v}); *next += 1; }
        1 => { c.insert_one(doc! {"_id": *next, "y": 1}).unwrap(); m.docs.push(doc! {"_id": *next, "y": 1}); *next += 1; }
        2 => {
            let v = val();
            c.insert_many(vec![doc! {"_id": *next, "x": v}, doc! {"_id": *next + 1, "x": v}]).unwrap();
            m.docs.push(doc! {"_id": *next, "x": v}); m.docs.push(doc! {"_id": *next + 1, "x": v}); *next += 2;
        }
        3 => {
            let (v, w) = (val(), val());
            c.update_many(doc! {"x": v}, doc! {"$set": {"x": w}}).unwrap();
            m.upd(|d| xval(d) == Some(v), |d| { d.insert("x", w); });
        }
        4 => {
            let w = val();
            c.update_one(doc! {"_id": 1}, doc! {"$set": {"x": w, "z": 1}}).unwrap();
            m.upd(|d| d.get_i32("_id") == Ok(1), |d| { d.insert("x", w); d.insert("z", 1); });
        }
        5 => {
            c.update_many(doc! {}, doc! {"$unset": {"x": ""}}).unwrap();
            m.upd(|_| true, |d| { d.remove("x"); });
        }
        6 => {
            c.update_one(doc! {"_id": 2}, doc! {"$rename": {"x": "w"}}).unwrap();
            m.upd(|d| d.get_i32("_id") == Ok(2), |d| { if let Some(v) = d.remove("x") { d.insert("w", v); } });
        }
        7 => { let v = val(); c.delete_many(doc! {"x": v}).unwrap(); m.docs.retain(|d| xval(d) != Some(v)); }
        8 => { c.delete_one(doc! {"_id": 1}).unwrap(); m.docs.retain(|d| d.get_i32("_id") != Ok(1)); }
        9 => { c.create_index(index("x", false)).unwrap(); }
        10 => { c.drop_index("x_1").unwrap(); }
        _ => { c.delete_many(doc! {}).unwrap(); m.docs.clear(); }
    }
    let _ = m.has(0);
}

fn compare(c: &Collection<Document>, m: &mut M, q: i32) {
    m.sort();
    let want: Vec<Document> = m.docs.iter().filter(|d| xval(d) == Some(q)).cloned().collect();
    if want.len() > 1 { vf::cover("several found") }
    if want.len() == 1 { vf::cover("one found") }
    if want.is_empty() { vf::cover("none found") }
    match find(c, doc! {"x": q}) {
        Ok(r) => vf::check(same_set(&r, &want), "a query on the indexed field returns the documents a scan selects"),
        Err(_) => vf::check(false, "a query on the indexed field is answered"),
    }
    vf::check(same_docs(&all(c), &m.docs), "the documents are those the history leaves");
}

/// Start: index and two documents (one with, one without the field); then
/// steps of every kind; then the indexed query for every value.
fn history(tier: u64) {
    let db = open();
    let c = coll(&db, "c");
    let mut m = M { docs: vec![] };
    let mut next = 1;
    // two arbitrary values, equal or not; the query is for the second
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    let val = || if vf::pick(2, "which") == 0 { a } else { q };
    let start = vf::pick(2, "start");
    if start == 0 { c.create_index(index("x", false)).unwrap(); }
    step(0, &c, &mut m, &mut next, &|| a);
    step(if start == 0 { 0 } else { 1 }, &c, &mut m, &mut next, &val);
    if start == 1 { c.create_index(index("x", false)).unwrap(); }
    let n = if tier == 0 { 2 } else { 3 };
    for _ in 0..n {
        let k = vf::pick(STEPS, "step");
        step(k, &c, &mut m, &mut next, &val);
    }
    // an index created now over whatever is there
    if tier != 0 && vf::pick(2, "recreate") == 1 { c.create_index(index("x", false)).unwrap(); }
    compare(&c, &mut m, q);
}

/// every indexable kind of value
fn kinds(_tier: u64) {
    const T: [Ty; 11] = [Ty::I32, Ty::I64, Ty::F64, Ty::Str0, Ty::Str1, Ty::Str2, Ty::Oid, Ty::Date, Ty::Bool, Ty::Ts, Ty::Null];
    let t = T[vf::pick(T.len(), "type")];
    let (a, b, q) = (value(t, "a"), value(t, "b"), value(t, "q"));
    for v in [&a, &b, &q] { if let Bson::Double(x) = v { vf::assume(x.is_normal()) } }
    let db = open();
    let c = coll(&db, "c");
    let late = vf::pick(2, "late") == 1;
    if !late { c.create_index(index("x", false)).unwrap(); }
    c.insert_one(doc! {"_id": 1, "x": a.clone()}).unwrap();
    c.insert_one(doc! {"_id": 2, "x": b.clone(), "y": 1}).unwrap();
    c.insert_one(doc! {"_id": 3, "x": "other"}).unwrap();
    if late { c.create_index(index("x", false)).unwrap(); }
    let eq = |x: &Bson| match (x, &q) {
        (Bson::Timestamp(x), Bson::Timestamp(y)) => x.time == y.time && x.increment == y.increment,
        _ => ref_cmp(x, &q) == Some(std::cmp::Ordering::Equal),
    };
    let mut want = vec![];
    if eq(&a) { want.push(1) }
    if eq(&b) { want.push(2) }
    if want.len() == 2 { vf::cover("both found") }
    let mut got = ids(&find(&c, doc! {"x": q.clone()}).unwrap());
    got.sort();
    vf::check(got == want, "a query on the indexed field returns the documents a scan selects");
    // the same through the pipeline
    let mut got: Vec<i32> = c.aggregate(vec![doc! {"$match": {"x": q}}]).run().unwrap().map(|d| d.unwrap().get_i32("_id").unwrap()).collect();
    got.sort();
    vf::check(got == want, "a pipeline on the indexed field gets the documents a scan selects");
}

/// an index on an embedded field
fn path(_tier: u64) {
    let (a, b, q, w) = (vf::any_i32("a"), vf::any_i32("b"), vf::any_i32("q"), vf::any_i32("w"));
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("p.x", false)).unwrap();
    let mut docs = vec![doc! {"_id": 1, "p": {"x": a}, "x": b}, doc! {"_id": 2, "p": {"y": b}}, doc! {"_id": 3, "p": b}, doc! {"_id": 4, "p": {"z": 0, "x": b}}];
    c.insert_many(docs.clone()).unwrap();
    match vf::pick(3, "step") {
        0 => {}
        1 => { c.update_one(doc! {"_id": 1}, doc! {"$set": {"p": {"x": w}}}).unwrap(); docs[0].insert("p", doc! {"x": w}); }
        _ => { c.delete_many(doc! {"p.x": w}).unwrap(); docs.retain(|d| d.get("p").and_then(|p| p.as_document()).and_then(|p| p.get_i32("x").ok()) != Some(w)); }
    }
    let want: Vec<Document> = docs.iter().filter(|d| d.get("p").and_then(|p| p.as_document()).and_then(|p| p.get_i32("x").ok()) == Some(q)).cloned().collect();
    vf::cover("embedded");
    vf::check(same_set(&find(&c, doc! {"p.x": q}).unwrap(), &want), "a query on the indexed path returns the documents a scan selects");
    vf::check(same_docs(&all(&c), &docs), "the documents are those the history leaves");
}

/// many documents with few values; two indexes
fn bulk(_tier: u64) {
    let n = 9;
    let db = open();
    let c = coll(&db, "c");
    let late = vf::pick(2, "late") == 1;
    if !late { c.create_index(index("x", false)).unwrap(); c.create_index(index("y", false)).unwrap(); }
    let v = vf::any_i32("v");
    let docs: Vec<Document> = (0..n).map(|i| doc! {"_id": i, "x": if i % 3 == 1 { v } else { i % 3 }, "y": i / 3}).collect();
    c.insert_many(docs.clone()).unwrap();
    if late { c.create_index(index("x", false)).unwrap(); c.create_index(index("y", false)).unwrap(); }
    let q = vf::any_i32("q");
    let f = ["x", "y"][vf::pick(2, "field")];
    if vf::pick(2, "drop") == 1 { c.drop_index("x_1").unwrap(); vf::cover("other index dropped"); }
    let want: Vec<Document> = docs.iter().filter(|d| d.get_i32(f) == Ok(q)).cloned().collect();
    vf::check(same_set(&find(&c, doc! {f: q}).unwrap(), &want), "a query on the indexed field returns the documents a scan selects");
    // with conditions that keep the query off the index
    let want: Vec<Document> = docs.iter().filter(|d| d.get_i32(f) == Ok(q) && d.get_i32("_id").unwrap() > 3).cloned().collect();
    vf::check(same_set(&find(&c, doc! {f: q, "_id": {"$gt": 3}}).unwrap(), &want), "further conditions are honoured beside the indexed field");
    vf::check(same_set(&find(&c, doc! {"$or": [{f: q, "_id": {"$gt": 3}}]}).unwrap(), &want), "further conditions are honoured beside the indexed field");
}

/// further plain equalities beside the indexed one
fn extra(_tier: u64) {
    let (y1, y2, y3, q) = (vf::any_i32("y1"), vf::any_i32("y2"), vf::any_i32("y3"), vf::any_i32("q"));
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", false)).unwrap();
    let docs = [doc! {"_id": 1, "x": 7, "y": y1}, doc! {"_id": 2, "x": 7, "y": y2}, doc! {"_id": 3, "x": 7, "y": y3}, doc! {"_id": 4, "x": 8, "y": q}];
    c.insert_many(docs.to_vec()).unwrap();
    let want: Vec<i32> = docs.iter().filter(|d| d.get_i32("x") == Ok(7) && d.get_i32("y") == Ok(q)).map(|d| d.get_i32("_id").unwrap()).collect();
    // the finding: the walk over the index entries ends at the first document
    // another equality excludes
    let cut: Vec<i32> = docs.iter().take_while(|d| d.get_i32("x") == Ok(7) && d.get_i32("y") == Ok(q)).map(|d| d.get_i32("_id").unwrap()).collect();
    let got = ids(&find(&c, if vf::pick(2, "order") == 0 { doc! {"x": 7, "y": q} } else { doc! {"y": q, "x": 7} }).unwrap());
    if got != want {
        vf::check(got != cut, "[K:IDXAND] further plain equalities beside an indexed one: the search ends at the first document they exclude");
        vf::check(false, "further plain equalities beside the indexed field are honoured");
    }
    vf::cover("further equalities");
}

/// numerically equal values of different number types
fn numeric(_tier: u64) {
    let i = vf::any_i32("i");
    let (a, b) = (vf::pick(3, "stored"), vf::pick(3, "queried"));
    let num = |k: usize| match k { 0 => Bson::Int32(i), 1 => Bson::Int64(i as i64), _ => Bson::Double(i as f64) };
    let db = open();
    let c = coll(&db, "c");
    c.create_index(index("x", false)).unwrap();
    c.insert_one(doc! {"_id": 1, "x": num(a)}).unwrap();
    let got = find(&c, doc! {"x": num(b)}).unwrap().len();
    if got != 1 {
        vf::check(a == b, "[K:IDXNUM] a query on an indexed field misses a numerically equal value stored as another number type");
        vf::check(false, "a query on the indexed field returns the documents a scan selects");
    }
    vf::cover("number types");
}
#[allow(dead_code)]
fn unused(_: &Database) {}

/// many documents, many with the same value
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let n = if tier == 0 { 300 } else { 1050 };
    let db = open();
    let c = coll(&db, "c");
    let f = ["x", "s"][vf::pick(2, "field")];
    let late = vf::pick(2, "late") == 1;
    if !late { c.create_index(index(f, false)).unwrap(); }
    let mut docs = crowd(n, v);
    c.insert_many(docs.clone()).unwrap();
    if late { c.create_index(index(f, false)).unwrap(); }
    let is = |d: &Document, q: &Bson| d.get(f) == Some(q);
    let q: [Bson; 2] = if f == "x" { [Bson::Int32(5), Bson::Int32(74)] } else { [Bson::String("0s".into()), Bson::String("12s".into())] };
    match vf::pick(3, "then") {
        0 => {}
        1 => {
            c.update_many(doc! {f: q[0].clone()}, doc! {"$set": {f: q[1].clone()}}).unwrap();
            for d in docs.iter_mut() { if is(d, &q[0]) { d.insert(f, q[1].clone()); } }
        }
        _ => {
            c.delete_many(doc! {"u": {"$gt": 40}}).unwrap();
            docs.retain(|d| d.get_i32("u").unwrap() <= 40);
        }
    }
    for b in &q {
        let w: Vec<Document> = docs.iter().filter(|d| is(d, b)).cloned().collect();
        vf::check(same_set(&find(&c, doc! {f: b.clone()}).unwrap(), &w), "an index never changes the answer of a query");
    }
    vf::cover("large");
}
