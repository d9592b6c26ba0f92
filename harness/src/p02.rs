//! P02: logical operators compose conditions as boolean algebra.
use crate::vf;
use crate::gen::*;
use crate::gen::Q::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::CollectionT;

harness! { TABLE; h_p02_shapes => shapes; h_p02_missing => missing; h_p02_operators => operators; }

const NSHAPES: usize = 26;
/// the filter shapes over symbolic operands
fn shape(i: usize) -> Q {
    let a = || Bson::Int32(vf::any_i32("a"));
    let b = || Bson::Int32(vf::any_i32("b"));
    let c = || Bson::Int32(vf::any_i32("c"));
    let e = || Bson::Int32(vf::any_i32("e"));
    let x = |o, v| C("x", o, v);
    let y = |o, v| C("y", o, v);
    let z = |o, v| C("z", o, v);
    let id = || C("_id", Op::Plain, Bson::Int32(vf::any_i32("id")));
    use Op::*;
    match i {
        0 => D(vec![x(Plain, a()), y(Gt, b())]),
        1 => M("x", vec![(Gt, a()), (Lt, b())]),
        2 => And(vec![x(Plain, a()), y(Gt, b())]),
        3 => Or(vec![x(Plain, a()), y(Gt, b())]),
        4 => D(vec![z(Gte, c()), Or(vec![x(Plain, a()), y(Plain, b())])]),
        5 => D(vec![Or(vec![x(Plain, a()), y(Plain, b())]), z(Gte, c())]),
        6 => D(vec![Or(vec![x(Plain, a()), y(Lt, b())]), And(vec![z(Ne, c()), y(Gte, e())])]),
        7 => N("x", vec![(Gt, a())]),
        8 => N("x", vec![(Gt, a()), (Lt, b())]),
        9 => D(vec![NN("x", Gt, a()), y(Plain, b())]),
        10 => And(vec![Or(vec![x(Gt, a()), y(Gt, b())]), Or(vec![z(Gt, c()), x(Lt, e())])]),
        11 => Or(vec![And(vec![x(Gt, a()), y(Gt, b())]), And(vec![z(Gt, c()), x(Lt, e())])]),
        12 => Or(vec![D(vec![x(Gt, a()), y(Lte, b())]), z(Plain, c())]),
        13 => And(vec![]),
        14 => Or(vec![]),
        15 => D(vec![x(Gt, a()), Or(vec![])]),
        16 => D(vec![id(), x(Gt, a())]),
        17 => D(vec![x(Gt, a()), id()]),
        18 => Or(vec![id(), x(Gt, a())]),
        19 => D(vec![id(), Or(vec![x(Gt, a()), y(Gt, b())])]),
        20 => And(vec![id(), x(Gt, a())]),
        21 => Or(vec![Or(vec![x(Gt, a()), y(Gt, b())]), z(Plain, c())]),
        22 => D(vec![x(Gt, a()), N("y", vec![(Lt, b())]), z(Ne, c())]),
        23 => D(vec![Or(vec![N("x", vec![(Gt, a()), (Lt, b())]), y(Plain, e())]), z(Gt, c())]),
        24 => Or(vec![And(vec![Or(vec![x(Gt, a()), y(Lt, b())]), z(Gt, c())]), x(Plain, e())]),
        _ => D(vec![M("x", vec![(Gte, a()), (Ne, b())]), And(vec![Or(vec![y(Lte, c()), N("z", vec![(Eq, e())])])])]),
    }
}

fn run(q: &Q, docs: &[Document]) {
    let db = open();
    let c = coll(&db, "c");
    for d in docs { c.insert_one(d.clone()).unwrap(); }
    let want = select(q, docs);
    match want.len() { 0 => vf::cover("none"), n if n == docs.len() => vf::cover("all"), _ => vf::cover("some") }
    match find(&c, q.doc()) {
        Ok(r) => vf::check(same_docs(&r, &want), "find returns exactly the documents for which the combination of conditions is true, once each"),
        Err(_) => vf::check(false, "a filter of logical operators is accepted"),
    }
    // the same filter decides which documents the pipeline gets
}

/// Two documents with symbolic fields between two fixed ones.
fn shapes(tier: u64) {
    let q = shape(vf::pick(NSHAPES, "shape"));
    let mut docs = vec![doc! {"_id": 1, "x": vf::any_i32("x1"), "y": vf::any_i32("y1"), "z": vf::any_i32("z1")}];
    if tier > 0 {
        docs.push(doc! {"_id": 2, "z": vf::any_i32("z2"), "y": vf::any_i32("y2"), "x": vf::any_i32("x2")});
    }
    docs.push(doc! {"_id": 3, "x": 0, "y": 0, "z": 0});
    run(&q, &docs);
}

/// One of the fields is absent: conditions on it are false, the others decide.
fn missing(_tier: u64) {
    // shapes without negation
    const S: [usize; 14] = [0, 1, 2, 3, 4, 5, 10, 11, 12, 15, 18, 19, 21, 24];
    let q = shape(S[vf::pick(S.len(), "shape")]);
    let mut d = doc! {"_id": 1, "x": vf::any_i32("x1"), "y": vf::any_i32("y1"), "z": vf::any_i32("z1")};
    let f = ["x", "y", "z"][vf::pick(3, "absent")];
    d.remove(f);
    run(&q, &[d, doc! {"_id": 2, "x": 5, "y": 5, "z": 5}]);
}

/// a condition with the operator on one of the fields, and whether the document satisfies it
fn cond(k: usize, field: usize, d: &Document, v: i32) -> (&'static str, Document, bool) {
    let (name, host) = [("x", d), ("e.f", d.get_document("e").unwrap())][field];
    let x = host.get_i32(["x", "f"][field]).unwrap();
    let (ln, host) = [("l", d), ("e.l", d.get_document("e").unwrap())][field];
    let l = host.get_array("l").unwrap();
    let l: Vec<i32> = l.iter().map(|x| x.as_i32().unwrap()).collect();
    let (sn, host) = [("s", d), ("e.s", d.get_document("e").unwrap())][field];
    let s = host.get_str("s").unwrap().as_bytes()[0];
    match k {
        0 => (name, doc! { "$eq": v }, x == v),
        1 => (name, doc! { "$ne": v }, x != v),
        2 => (name, doc! { "$gt": v }, x > v),
        3 => (name, doc! { "$gte": v }, x >= v),
        4 => (name, doc! { "$lt": v }, x < v),
        5 => (name, doc! { "$lte": v }, x <= v),
        6 => (name, doc! { "$in": [v, 3] }, x == v || x == 3),
        7 => (name, doc! { "$nin": [v, 3] }, x != v && x != 3),
        8 => (ln, doc! { "$all": [v] }, l.contains(&v)),
        9 => (ln, doc! { "$size": 2i64 }, l.len() == 2),
        10 => (ln, doc! { "$in": [v] }, l.contains(&v)),
        _ => (sn, doc! { "$regex": Bson::RegularExpression(polodb_core::bson::Regex { pattern: "^m".into(), options: "".into() }) }, s == b'm'),
    }
}
/// every operator before and after another one, on a field or an embedded one
fn operators(tier: u64) {
    let free = |n: i32| -> Document {
        let l = |k: usize| -> Vec<Bson> { (0..k).map(|_| Bson::Int32(vf::any_i32("l"))).collect() };
        let (x, f) = (vf::any_i32("x"), vf::any_i32("f"));
        doc! { "_id": n, "x": x, "l": l(2), "s": vf::ascii(1, 0x21, 0x7e, "s"), "e": { "l": l(1), "s": vf::ascii(1, 0x21, 0x7e, "s"), "f": f } }
    };
    let docs = vec![free(1), doc! { "_id": 2, "x": 3, "l": [0, 5], "s": "m", "e": { "f": 3, "l": [7], "s": "n" } }];
    let (v, w) = (vf::any_i32("v"), vf::any_i32("w"));
    let one = vf::pick(12, "first");
    let two = if tier > 0 { vf::pick(12, "second") } else { [0, 4, 8, 9][vf::pick(4, "second")] };
    let (f1, f2) = [(0, 1), (1, 0), (1, 1)][vf::pick(if tier > 0 { 3 } else { 2 }, "fields")];
    let neg = vf::pick(2, "not") == 1;
    let form = vf::pick(4, "form");
    let mut want = vec![];
    let mut f = Document::new();
    for d in &docs {
        let (n1, mut c1, mut t1) = cond(one, f1, d, v);
        let (n2, c2, t2) = cond(two, f2, d, w);
        if neg { c1 = doc! { "$not": c1 }; t1 = !t1 }
        if n1 == n2 { vf::assume(form != 0 && form != 1) }
        let both;
        (f, both) = match form {
            0 => { let mut f = Document::new(); f.insert(n1, c1); f.insert(n2, c2); (f, t1 & t2) }
            1 => { let mut f = Document::new(); f.insert(n2, c2); f.insert(n1, c1); (f, t1 & t2) }
            2 => { let (mut a, mut b) = (Document::new(), Document::new()); a.insert(n1, c1); b.insert(n2, c2); (doc! { "$and": [a, b] }, t1 & t2) }
            _ => { let (mut a, mut b) = (Document::new(), Document::new()); a.insert(n1, c1); b.insert(n2, c2); (doc! { "$or": [a, b], "_id": { "$gte": 0 } }, t1 | t2) }
        };
        if vf::decide(both) { want.push(d.clone()) }
    }
    let db = open();
    let c = coll(&db, "c");
    for d in &docs { c.insert_one(d.clone()).unwrap(); }
    vf::cover("operators");
    match find(&c, f) {
        Ok(r) => vf::check(same_docs(&r, &want), "every operator combines with the conditions beside it"),
        Err(_) => vf::check(false, "a filter of two operators is accepted"),
    }
}
