//! P07: the primary key identifies exactly one document.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::{CollectionT, Error};

harness! { TABLE; h_p07_pair => pair; h_p07_many => many; h_p07_auto => auto; h_p07_illegal => illegal; h_p07_large => large; }

const T: [Ty; 12] = [Ty::I32, Ty::I64, Ty::F64, Ty::Str0, Ty::Str1, Ty::Str2, Ty::Oid, Ty::Date, Ty::Bool, Ty::Ts, Ty::Sym1, Ty::Null];

fn is_dup<X>(r: &Result<X, Error>) -> bool { matches!(r, Err(Error::DuplicateKey(_))) }

/// the same key: same type and same bits
fn ident(a: &Bson, b: &Bson) -> bool {
    match (a, b) {
        (Bson::Timestamp(x), Bson::Timestamp(y)) => x.time == y.time && x.increment == y.increment,
        _ => same(a, b),
    }
}

/// two inserts with keys of any two types
fn pair(_tier: u64) {
    let (ta, tb) = (T[vf::pick(T.len() - 1, "a type")], T[vf::pick(T.len() - 1, "b type")]);
    let (a, b) = (value(ta, "a"), value(tb, "b"));
    let (da, db_) = (doc! {"_id": a.clone(), "n": 1}, doc! {"_id": b.clone(), "n": 2});
    let eq = ident(&a, &b);
    let db = open();
    let c = coll(&db, "c");
    let r = c.insert_one(da.clone()).unwrap();
    vf::check(ident(&r.inserted_id, &a), "the insert reports the document's key");
    let r = c.insert_one(db_.clone());
    if eq {
        vf::cover("duplicate");
        vf::check(is_dup(&r), "a second document with the same key is refused as a duplicate");
        vf::check(same_docs(&all(&c), &[da]), "a refused insert changes nothing");
        vf::check(c.count_documents().unwrap() == 1, "a refused insert changes nothing");
    } else {
        vf::cover("distinct");
        vf::check(r.is_ok(), "a document with a new key is accepted");
        vf::check(same_set(&all(&c), &[da.clone(), db_.clone()]), "documents with distinct keys are both there");
        vf::check(c.count_documents().unwrap() == 2, "documents with distinct keys are both there");
        // NaN keys are not looked up
        if let Bson::Double(x) = a { vf::assume(x == x && x != 0.0) }
        if let Bson::Double(x) = b { vf::assume(x == x && x != 0.0) }
        vf::check(same_docs(&find(&c, doc! {"_id": a}).unwrap(), &[da]), "each key finds its document");
        vf::check(same_docs(&find(&c, doc! {"_id": b}).unwrap(), &[db_]), "each key finds its document");
    }
}

/// duplicates within one insert_many, against stored documents, after a delete
/// and through an upsert
fn many(_tier: u64) {
    let s = vf::any_i32("stored");
    let (a, b, c3) = (vf::any_i32("a"), vf::any_i32("b"), vf::any_i32("c"));
    let db = open();
    let c = coll(&db, "c");
    c.insert_one(doc! {"_id": s, "n": 0}).unwrap();
    match vf::pick(3, "how") {
        0 => {
            let l = [doc! {"_id": a, "n": 1}, doc! {"_id": b, "n": 2}, doc! {"_id": c3, "n": 3}];
            let dup = a == s || b == s || c3 == s || a == b || a == c3 || b == c3;
            let r = c.insert_many(l.to_vec());
            vf::check(r.is_err() == dup, "insert_many fails exactly when a key is taken");
            let mut want = vec![doc! {"_id": s, "n": 0}];
            if !dup {
                want.extend(l.iter().cloned());
                let r = r.unwrap();
                vf::check(r.inserted_ids.len() == 3 && (0..3).all(|i| r.inserted_ids.get(&i) == l[i].get("_id")), "insert_many reports the keys");
            } else { vf::cover("batch duplicate") }
            vf::check(same_set(&all(&c), &want), "insert_many inserts all documents or none");
        }
        1 => {
            c.delete_one(doc! {"_id": a}).unwrap();
            let r = c.insert_one(doc! {"_id": b, "n": 2});
            let taken = b == s && a != s;
            vf::check(r.is_err() == taken, "a key is free again once its document is deleted");
            if b == s && a == s { vf::cover("reused") }
        }
        _ => {
            let o = polodb_core::options::UpdateOptions::builder().upsert(true).build();
            let r = c.update_one_with_options(doc! {"_id": a, "n": b}, doc! {"$set": {"m": 5}}, o);
            let found = a == s && b == 0;
            if a == s && !found {
                vf::cover("upsert duplicate");
                vf::check(is_dup(&r), "an upsert with a taken key is refused");
                vf::check(same_docs(&all(&c), &[doc! {"_id": s, "n": 0}]), "a refused upsert changes nothing");
            } else {
                vf::check(r.is_ok(), "an upsert with a free key is accepted");
                vf::check(c.count_documents().unwrap() == if found { 1 } else { 2 }, "an upsert inserts one document or none");
            }
        }
    }
}

/// no key or a null key: a fresh one is made and reported
fn auto(_tier: u64) {
    let null = |k: usize, n: i32| if k == 0 { doc! {"n": n} } else if k == 1 { doc! {"_id": Bson::Null, "n": n} } else { doc! {"n": n, "_id": Bson::Null} };
    let (k1, k2) = (vf::pick(3, "first"), vf::pick(3, "second"));
    let v = vf::any_i32("v");
    let db = open();
    let c = coll(&db, "c");
    let (i1, i2) = if vf::pick(2, "many") == 0 {
        (c.insert_one(null(k1, v)).unwrap().inserted_id, c.insert_one(null(k2, v)).unwrap().inserted_id)
    } else {
        let r = c.insert_many(vec![null(k1, v), null(k2, v)]).unwrap();
        (r.inserted_ids[&0].clone(), r.inserted_ids[&1].clone())
    };
    vf::check(i1 != i2 && i1 != Bson::Null && i2 != Bson::Null, "documents without a key get different fresh keys");
    let r = all(&c);
    vf::check(r.len() == 2, "documents without a key are both stored");
    for i in [&i1, &i2] {
        let f = find(&c, doc! {"_id": i.clone()}).unwrap();
        vf::check(f.len() == 1 && f[0].get("_id") == Some(i) && f[0].get("n") == Some(&Bson::Int32(v)) && f[0].len() == 2, "the reported key finds the document");
    }
    vf::check(is_dup(&c.insert_one(doc! {"_id": i1, "n": 3})), "the fresh key is taken");
    vf::cover("fresh keys");
}

/// kinds of values that cannot be keys are refused and leave nothing behind
fn illegal(_tier: u64) {
    let v = vf::any_i32("v");
    let k: Bson = match vf::pick(6, "kind") {
        0 => doc! {"a": v}.into(),
        1 => vec![Bson::Int32(v)].into(),
        2 => value(Ty::Bin1, "b"),
        3 => Bson::JavaScriptCode("x".into()),
        4 => Bson::MaxKey,
        _ => Bson::RegularExpression(polodb_core::bson::Regex { pattern: "a".into(), options: "".into() }),
    };
    let db = open();
    let c = coll(&db, "c");
    let many = vf::pick(2, "many") == 1;
    let d: Document = doc! {"_id": k, "n": v};
    let r = if many { c.insert_many(vec![doc! {"_id": 1}, d]).map(|_| ()) } else { c.insert_one(d).map(|_| ()) };
    vf::check(r.is_err(), "a value that cannot be a key is refused");
    vf::check(all(&c).is_empty() && db.list_collection_names().unwrap().is_empty(), "a refused insert changes nothing");
    vf::cover("illegal key");
}

/// many keys, long keys
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let n = if tier == 0 { 300 } else { 1050 };
    let db = open();
    let c = coll(&db, "c");
    let kind = vf::pick(4, "kind");
    let key = |i: i32| -> Bson { match kind {
        0 => Bson::Int32((i * 7919) % 4096 - 2048),
        1 => Bson::Int64((i as i64 * 7919) % 4096 * 0x1_0000_0001 - (1i64 << 43)),
        2 => Bson::String(format!("{}{}", "k".repeat(260), (i * 7919) % 4096)),
        _ => Bson::Double(((i * 7919) % 4096) as f64 / 8.0 - 100.0),
    } };
    c.insert_many((0..n).map(|i| doc! {"_id": key(i), "v": v, "i": i}).collect::<Vec<_>>()).unwrap();
    vf::check(c.count_documents().unwrap() == n as u64 && all(&c).len() == n as usize, "all documents with distinct keys are kept");
    for i in [0, 1, n / 2, n - 1] {
        let r = find(&c, doc! {"_id": key(i)}).unwrap();
        vf::check(r.len() == 1 && same_doc(&r[0], &doc! {"_id": key(i), "v": v, "i": i}), "a key finds its document");
        vf::check(is_dup(&c.insert_one(doc! {"_id": key(i)})), "a taken key is refused");
        c.delete_one(doc! {"_id": key(i)}).unwrap();
        vf::check(find(&c, doc! {"_id": key(i)}).unwrap().is_empty(), "a deleted key finds nothing");
    }
    vf::check(c.count_documents().unwrap() == n as u64 - 4, "all documents with distinct keys are kept");
    vf::cover("large");
}
