//! P21: an aggregation pipeline is the composition of its stages.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::{Collection, CollectionT};
use std::cmp::Ordering;

harness! { TABLE; h_p21_compose => compose; h_p21_three => three; h_p21_fields => fields; h_p21_unset => unset; h_p21_abs => abs; h_p21_count => count; h_p21_matched => matched; h_p21_group => group; h_p21_key => key; h_p21_sum => sum; h_p21_txn => txn; h_p21_order => order; h_p21_large => large; }

#[derive(Clone)]
pub enum S { Match(Q), Skip(i64), Limit(i64), Sort(&'static str, bool), Count(&'static str), Add(Vec<(&'static str, Bson)>), Unset(Vec<&'static str>), Group(&'static str) }

pub fn sorted(docs: &[Document], f: &str, up: bool) -> Vec<Document> {
    let less = |a: &Document, b: &Document| {
        let o = match (a.get(f), b.get(f)) {
            (Some(x), Some(y)) => ref_cmp(x, y).unwrap(),
            (Some(_), None) => Ordering::Less,
            (None, Some(_)) => Ordering::Greater,
            (None, None) => Ordering::Equal,
        };
        (if up { o } else { o.reverse() }) == Ordering::Less
    };
    let mut out: Vec<Document> = vec![];
    for d in docs {
        let mut at = out.len();
        while at > 0 && vf::decide(less(d, &out[at - 1])) { at -= 1 }
        out.insert(at, d.clone());
    }
    out
}
impl S {
    fn doc(&self) -> Document {
        match self {
            S::Match(q) => doc! {"$match": q.doc()},
            S::Skip(n) => doc! {"$skip": *n},
            S::Limit(n) => doc! {"$limit": *n},
            S::Sort(f, up) => doc! {"$sort": {*f: if *up { 1 } else { -1 }}},
            S::Count(n) => doc! {"$count": *n},
            S::Add(v) => { let mut d = Document::new(); for (k, b) in v { d.insert(*k, b.clone()); } doc! {"$addFields": d} }
            S::Unset(v) => if v.len() == 1 { doc! {"$unset": v[0]} } else { doc! {"$unset": v.iter().map(|s| Bson::String(s.to_string())).collect::<Vec<_>>()} },
            S::Group(n) => doc! {"$group": {"_id": null_(), *n: {"$sum": 1}}},
        }
    }
    fn run(&self, v: Vec<Document>) -> Vec<Document> {
        match self {
            S::Match(q) => v.into_iter().filter(|d| vf::decide(q.eval(d))).collect(),
            S::Skip(n) => { let mut o = vec![]; for (i, d) in v.into_iter().enumerate() { if vf::decide(i as i64 >= *n) { o.push(d) } } o }
            S::Limit(n) => { let mut o = vec![]; for (i, d) in v.into_iter().enumerate() { if vf::decide((i as i64) < *n) { o.push(d) } } o }
            S::Sort(f, up) => sorted(&v, f, *up),
            S::Count(n) => vec![doc! {*n: v.len() as i64}],
            S::Add(l) => v.into_iter().map(|d| {
                let mut w = d.clone();
                for (k, b) in l {
                    let b = match b { Bson::String(s) if s.starts_with('$') => d.get(&s[1..]).cloned().unwrap_or(Bson::Null), b => b.clone() };
                    w.insert(*k, b);
                }
                w
            }).collect(),
            S::Unset(l) => v.into_iter().map(|d| d.into_iter().filter(|(k, _)| !l.contains(&k.as_str())).collect()).collect(),
            S::Group(n) => vec![doc! {"_id": null_(), *n: v.len() as i64}],
        }
    }
}
fn null_() -> Bson { Bson::Null }
/// number values may come in any integer type
fn norm(d: &Document, f: &str) -> Option<i64> { match d.get(f) { Some(Bson::Int32(n)) => Some(*n as i64), Some(Bson::Int64(n)) => Some(*n), Some(Bson::Double(n)) => Some(*n as i64), _ => None } }
fn agree(got: &[Document], want: &[Document]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.len() == w.len() && g.iter().zip(w.iter()).all(|((k, a), (l, b))| k == l && (same(a, b) || (norm(g, k).is_some() && norm(g, k) == norm(w, l)))))
}
pub fn run<C: CollectionT<Document>>(c: &C, p: Vec<Document>) -> Vec<Document> { c.aggregate(p).run().unwrap().map(|d| d.unwrap()).collect() }

/// a result over no documents may lack the single counting document
fn verify(c: &Collection<Document>, docs: &[Document], p: &[S]) {
    let mut v = docs.to_vec();
    let mut empty = false;
    for s in p {
        if v.is_empty() && matches!(s, S::Count(_) | S::Group(_)) { empty = true }
        v = s.run(v);
    }
    let got = run(c, p.iter().map(|s| s.doc()).collect());
    // counting nothing gives nothing or zero; what follows depends on it
    if empty { vf::cover("counted nothing"); vf::check(got.len() <= 1, "a pipeline returns what its stages, one after the other, give"); }
    else { vf::check(agree(&got, &v), "a pipeline returns what its stages, one after the other, give"); }
    vf::check(same_docs(&all(c), docs), "an aggregation does not change stored documents");
}
fn stage(k: usize, first: bool) -> S {
    match k {
        0 => S::Skip(vf::int_in(0, i64::MAX, "skip")),
        1 => S::Limit(vf::int_in(0, i64::MAX, "limit")),
        2 => S::Sort("x", true),
        3 => S::Sort("x", false),
        4 => S::Count("n"),
        5 => S::Add(vec![("x", Bson::String("$y".into())), ("z", Bson::Int32(3))]),
        6 => S::Unset(vec!["y"]),
        7 => S::Group("n"),
        _ => if first { S::Match(Q::C("x", Op::Gt, Bson::Int32(vf::any_i32("v")))) } else { S::Skip(1) },
    }
}
fn data(n: i32) -> (Collection<Document>, Vec<Document>) {
    let docs: Vec<Document> = (0..n).map(|i| doc! {"_id": i, "x": vf::any_i32("x"), "y": 10 - i}).collect();
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(docs.clone()).unwrap();
    std::mem::forget(db);
    (c, docs)
}
fn compose(tier: u64) {
    let (i, j) = (vf::pick(9, "stage"), vf::pick(9, "stage"));
    let (c, docs) = data(if tier == 0 { 3 } else { 4 });
    verify(&c, &docs, &[stage(i, true), stage(j, false)]);
    vf::cover("two stages");
}
fn three(tier: u64) {
    let n = if tier == 0 { 5 } else { 9 };
    const K: [usize; 9] = [0, 1, 3, 4, 5, 2, 6, 7, 8];
    let (i, j, k) = (vf::pick(n, "stage"), vf::pick(n, "stage"), vf::pick(n, "stage"));
    let (c, docs) = data(if tier == 0 { 2 } else { 3 });
    verify(&c, &docs, &[stage(K[i], true), stage(K[j], false), stage(K[k], false)]);
    vf::cover("three stages");
}
/// constants of every type, other fields, fields that are not there
fn fields(_tier: u64) {
    const T: [Ty; 10] = [Ty::Null, Ty::Bool, Ty::I32, Ty::I64, Ty::F64, Ty::Str0, Ty::Str2, Ty::Oid, Ty::Date, Ty::Bin1];
    let k = vf::pick(T.len() + 3, "value");
    let v = if k < T.len() { value(T[k], "v") } else { Bson::String(["$x", "$y", "$s"][k - T.len()].into()) };
    if let Bson::String(s) = &v { vf::assume(k >= T.len() || s.is_empty() || s.as_bytes()[0] != b'$') }
    let docs = vec![doc! {"_id": 1, "x": vf::any_i32("x"), "y": 7, "s": "t"}, doc! {"_id": 2, "y": vf::any_i64("y"), "x": 8, "s": ["u"]}];
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(docs.clone()).unwrap();
    let f = ["x", "y", "new"][vf::pick(3, "field")];
    let two = vf::pick(2, "second") == 1;
    let mut l = vec![(f, v)];
    // every value is taken from the incoming document
    if two { l.push(("z", Bson::String(["$x", "$y", "$s"][vf::pick(3, "alias")].into()))) }
    verify(&c, &docs, &[S::Add(l)]);
    vf::cover("fields added");
}
fn unset(_tier: u64) {
    let x = vf::any_i32("x");
    let docs = vec![doc! {"_id": 1, "x": x, "y": 7, "z": 1}, doc! {"_id": 2, "y": 3}, doc! {"_id": 3, "z": x, "x": 1}];
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(docs.clone()).unwrap();
    let l: Vec<&'static str> = match vf::pick(6, "fields") { 0 => vec!["x"], 1 => vec!["y", "x"], 2 => vec!["z"], 3 => vec!["nope"], 4 => vec!["_id"], _ => vec!["x", "y", "z", "_id"] };
    verify(&c, &docs, &[S::Unset(l)]);
    vf::cover("fields removed");
}
fn abs(_tier: u64) {
    let t = [Ty::I32, Ty::I64, Ty::F64][vf::pick(3, "type")];
    let x = value(t, "x");
    let how = vf::pick(3, "form");
    let e = match how { 0 => doc! {"$abs": "$x"}, 1 => doc! {"$abs": {"$abs": "$x"}}, _ => doc! {"$abs": x.clone()} };
    let db = open();
    let c = coll(&db, "c");
    let d = doc! {"_id": 1, "x": x.clone(), "y": 7};
    c.insert_one(d.clone()).unwrap();
    let got = run(&c, vec![doc! {"$addFields": {"a": e}}]);
    vf::check(got.len() == 1, "every document comes out once");
    let mut rest = got[0].clone();
    let a = rest.remove("a");
    vf::check(same_doc(&rest, &d), "$addFields changes only the named fields");
    let ok = match (&x, &a) {
        (Bson::Int32(n), Some(Bson::Int32(m))) => *m >= 0 && (*m == *n || *m == n.wrapping_neg()),
        (Bson::Int32(n), Some(Bson::Int64(m))) => *m == (*n as i64).abs(),
        (Bson::Int64(n), Some(Bson::Int64(m))) => *m >= 0 && (*m == *n || *m == n.wrapping_neg()),
        (Bson::Int64(n), Some(Bson::Double(m))) => *n == i64::MIN && *m == 9223372036854775808.0,
        (Bson::Double(n), Some(Bson::Double(m))) => m.to_bits() == n.to_bits() & !(1 << 63) || *n != *n,
        _ => false,
    };
    vf::check(ok, "$abs gives the magnitude");
    vf::cover("magnitude");
}
/// counts after conditions, and of several documents
fn count(_tier: u64) {
    let (c, docs) = data(4);
    let v = vf::any_i32("v");
    let k = vf::pick(4, "filter");
    let q = match k { 0 => Q::C("x", Op::Plain, Bson::Int32(v)), 1 => Q::C("x", Op::Lt, Bson::Int32(v)), 2 => Q::C("_id", Op::Plain, Bson::Int32(2)), _ => Q::Or(vec![Q::C("x", Op::Gt, Bson::Int32(v)), Q::C("y", Op::Plain, Bson::Int32(9))]) };
    let s = [S::Count("total"), S::Group("n")][vf::pick(2, "how")].clone();
    verify(&c, &docs, &[S::Match(q), s]);
    vf::cover("counted");
}
/// conditions of every form, answered by a scan, the key or an index
fn matched(_tier: u64) {
    let idx = vf::pick(2, "index") == 1;
    let v = vf::any_i32("v");
    let docs: Vec<Document> = (0..3).map(|i| doc! {"_id": i, "x": vf::any_i32("x"), "y": 10 - i}).collect();
    let db = open();
    let c = coll(&db, "c");
    if idx { c.create_index(index("x", false)).unwrap() }
    c.insert_many(docs.clone()).unwrap();
    let x = |o| Q::C("x", o, Bson::Int32(v));
    let q = match vf::pick(8, "filter") {
        0 => x(Op::Plain),
        1 => x(Op::Gte),
        2 => Q::D(vec![]),
        3 => Q::C("_id", Op::Plain, Bson::Int32(1)),
        4 => Q::D(vec![Q::C("_id", Op::Plain, Bson::Int32(1)), x(Op::Lt)]),
        5 => Q::Or(vec![x(Op::Eq), Q::C("y", Op::Eq, Bson::Int32(8))]),
        6 => Q::N("x", vec![(Op::Gt, Bson::Int32(v))]),
        _ => Q::C("none", Op::Plain, Bson::Int32(v)),
    };
    let mut p = vec![S::Match(q)];
    match vf::pick(4, "then") {
        0 => {}
        1 => p.push(S::Add(vec![("a", Bson::String("$x".into()))])),
        2 => { p.push(S::Sort("y", true)); p.push(S::Limit(1)) }
        _ => { p.push(S::Skip(1)); p.push(S::Unset(vec!["y"])) }
    }
    verify(&c, &docs, &p);
    vf::cover("matched");
}
/// one group of all, whatever constant it is named by, with several counts
fn group(_tier: u64) {
    let (c, docs) = data(3);
    let v = vf::any_i32("v");
    let p = vec![doc! {"$match": {"x": {"$gte": v}}}, doc! {"$group": {"_id": null_(), "a": {"$sum": 1}, "b": {"$sum": 1}}}];
    let n = docs.iter().filter(|d| vf::decide(d.get_i32("x").unwrap() >= v)).count() as i64;
    let got = run(&c, p);
    if n == 0 { vf::check(got.len() <= 1, "no documents form no group"); }
    else { vf::check(agree(&got, &[doc! {"_id": null_(), "a": n, "b": n}]), "a group counts its documents"); }
    vf::check(c.aggregate(vec![doc! {"$group": {"a": {"$sum": 1}}}]).run().is_err(), "a group without _id is refused");
    vf::check(c.aggregate(vec![doc! {"$group": {"_id": null_(), "a": {"$none": 1}}}]).run().is_err(), "an unknown operator is refused");
    vf::cover("grouped");
}
/// known finding GROUPKEY: a field as the group key
fn key(_tier: u64) {
    let docs: Vec<Document> = (0..2).map(|i| doc! {"_id": i, "x": vf::any_i32("x")}).collect();
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(docs.clone()).unwrap();
    let got = run(&c, vec![doc! {"$group": {"_id": "$x", "n": {"$sum": 1}}}]);
    let (a, b) = (docs[0].get_i32("x").unwrap(), docs[1].get_i32("x").unwrap());
    let want = if vf::decide(a == b) { vec![doc! {"_id": a, "n": 2i64}] } else { vec![doc! {"_id": a, "n": 1i64}, doc! {"_id": b, "n": 1i64}] };
    vf::cover("by field");
    vf::check(agree(&got, &want) || (want.len() == 2 && agree(&got, &[want[1].clone(), want[0].clone()])), "[K:GROUPKEY] $group forms one group per distinct value of the key field");
}
/// known finding SUMOPERAND: the sum of a field
fn sum(_tier: u64) {
    let docs: Vec<Document> = (0..2).map(|i| doc! {"_id": i, "x": vf::any_i32("x")}).collect();
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(docs.clone()).unwrap();
    let got = run(&c, vec![doc! {"$group": {"_id": null_(), "s": {"$sum": "$x"}}}]);
    let s = docs[0].get_i32("x").unwrap() as i64 + docs[1].get_i32("x").unwrap() as i64;
    vf::cover("sum of a field");
    vf::check(agree(&got, &[doc! {"_id": null_(), "s": s}]), "[K:SUMOPERAND] $sum adds up the values of its operand");
}
/// a pipeline inside a transaction sees its writes
fn txn(_tier: u64) {
    let (a, b) = (vf::any_i32("a"), vf::any_i32("b"));
    let db = open();
    let c = coll(&db, "c");
    c.insert_one(doc! {"_id": 1, "x": a}).unwrap();
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    tc.insert_one(doc! {"_id": 2, "x": b}).unwrap();
    let docs = vec![doc! {"_id": 1, "x": a}, doc! {"_id": 2, "x": b}];
    let p = [S::Match(Q::C("x", Op::Gt, Bson::Int32(5))), S::Count("n")];
    let n = docs.iter().filter(|d| vf::decide(d.get_i32("x").unwrap() > 5)).count() as i64;
    let got = run(&tc, p.iter().map(|s| s.doc()).collect());
    vf::check(if n == 0 { got.len() <= 1 } else { agree(&got, &[doc! {"n": n}]) }, "a pipeline sees the documents of the transaction");
    let out = run(&c, vec![doc! {"$sort": {"x": 1}}]);
    vf::check(same_docs(&out, &docs[..1]), "a pipeline outside sees none of them");
    vf::cover("transaction");
}
/// every document exactly once through a chain of stages that keep state
fn order(_tier: u64) {
    let (c, docs) = data(3);
    let up = vf::pick(2, "direction") == 1;
    let k = vf::pick(5, "chain");
    let p = match k {
        0 => vec![S::Sort("x", up), S::Sort("y", true)],
        1 => vec![S::Sort("x", up), S::Skip(1), S::Sort("y", true), S::Limit(1)],
        2 => vec![S::Limit(2), S::Sort("x", up), S::Add(vec![("t", Bson::Int32(1))]), S::Unset(vec!["x"])],
        3 => vec![S::Sort("x", up), S::Limit(2), S::Count("n")],
        _ => vec![S::Add(vec![("x", Bson::String("$_id".into()))]), S::Sort("x", up), S::Skip(1), S::Unset(vec!["y"])],
    };
    verify(&c, &docs, &p);
    vf::cover("chain");
}

/// many documents through every stage
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let n = if tier == 0 { 300 } else { 1050 };
    let db = open();
    let c = coll(&db, "c");
    let docs = crowd(n, v);
    c.insert_many(docs.clone()).unwrap();
    let run = |p: Vec<Document>| -> Vec<Document> { c.aggregate(p).run().unwrap().map(|d| d.unwrap()).collect() };
    match vf::pick(4, "pipeline") {
        0 => {
            let r = run(vec![doc! {"$count": "n"}]);
            vf::check(r.len() == 1 && r[0].get_i64("n").ok() == Some(n as i64), "many documents are counted");
        }
        1 => {
            let r = run(vec![doc! {"$group": {"_id": Bson::Null, "n": {"$sum": 1}}}]);
            vf::check(r.len() == 1 && r[0].get_i64("n").ok() == Some(n as i64), "many documents are grouped");
        }
        2 => {
            let r = run(vec![doc! {"$match": {"x": {"$lt": 50}}}, doc! {"$skip": 20}, doc! {"$addFields": {"w": 5}}, doc! {"$unset": "s"}]);
            let w: Vec<Document> = docs.iter().filter(|d| d.get_i32("x").unwrap() < 50).skip(20).map(|d| {
                let mut e: Document = d.iter().filter(|(k, _)| *k != "s").map(|(k, v)| (k.clone(), v.clone())).collect();
                e.insert("w", 5);
                e
            }).collect();
            vf::check(same_docs(&r, &w), "many documents pass all stages");
        }
        _ => {
            let r = run(vec![doc! {"$limit": 40}, doc! {"$sort": {"u": 1}}, doc! {"$limit": 30}, doc! {"$count": "n"}]);
            vf::check(r.len() == 1 && r[0].get_i64("n").ok() == Some(30), "many documents are counted");
        }
    }
    vf::cover("large");
}
