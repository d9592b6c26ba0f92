//! P23: no request makes the database panic, and a rejected one changes nothing.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document, Regex, JavaScriptCodeWithScope};
use polodb_core::{Collection, CollectionT, Database, IndexModel, IndexOptions};
use polodb_core::options::UpdateOptions;
use serde::{Deserialize, Serialize};

harness! { TABLE; h_p23_filter => filter; h_p23_logic => logic; h_p23_keys => keys; h_p23_update => update; h_p23_shape => shape; h_p23_stage => stage; h_p23_stages => stages; h_p23_sort => sort; h_p23_insert => insert; h_p23_index => indexes; h_p23_names => badnames; h_p23_typed => typed; h_p23_ended => ended; }

const KINDS: usize = 28;
fn kind(k: usize) -> Bson {
    match k {
        0 => Bson::Null,
        1 => Bson::Boolean(vf::any_bool("v")),
        2 => Bson::Int32(vf::any_i32("v")),
        3 => Bson::Int64(vf::any_i64("v")),
        4 => Bson::Double(f64_short("v")),
        5 => Bson::Double(f64::NAN),
        6 => Bson::String(["a", "\0"][vf::pick(2, "v")].into()),
        7 => Bson::String("$x".into()),
        8 => Bson::String(String::new()),
        9 => Bson::Document(doc! {}),
        10 => Bson::Document(doc! {"a": vf::any_i32("v")}),
        11 => Bson::Document(doc! {"$gt": vf::any_i32("v")}),
        12 => Bson::Document(doc! {"$no": 1, "a": 2}),
        13 => Bson::Array(vec![]),
        14 => Bson::Array(vec![Bson::Int32(vf::any_i32("v")), Bson::String("t".into())]),
        15 => Bson::Array(vec![Bson::Document(doc! {"x": vf::any_i32("v")}), Bson::Document(doc! {})]),
        16 => Bson::Array(vec![Bson::Array(vec![Bson::Null]), Bson::Document(doc! {"$in": 1})]),
        17 => Bson::ObjectId(oid("v")),
        18 => value(Ty::Date, "v"),
        19 => value(Ty::Bin1, "v"),
        20 => value(Ty::Ts, "v"),
        21 => Bson::MinKey,
        22 => Bson::MaxKey,
        23 => Bson::Undefined,
        24 => Bson::JavaScriptCode("f".into()),
        25 => Bson::JavaScriptCodeWithScope(JavaScriptCodeWithScope { code: "f".into(), scope: doc! {"a": 1} }),
        26 => {
            let (p, o) = [("t+", ""), ("", "m"), ("(", ""), ("", "z")][vf::pick(4, "v")];
            Bson::RegularExpression(Regex { pattern: p.into(), options: o.into() })
        }
        _ => Bson::Symbol("s".into()),
    }
}
fn data() -> Vec<Document> {
    vec![
        doc! {"_id": 1, "x": 5, "y": 1},
        doc! {"_id": 2, "x": "t", "y": {"z": 1}},
        doc! {"_id": 3, "x": [1, "t"]},
        doc! {"_id": 4, "x": {"z": 2.5}, "y": [1]},
        doc! {"_id": 5, "x": null_()},
        doc! {"_id": 6, "x": 3000000000i64},
        doc! {"_id": 7, "y": true},
        doc! {"_id": 9, "x": [], "y": ""},
    ]
}
fn null_() -> Bson { Bson::Null }
fn setup(idx: bool) -> (Database, Collection<Document>, Vec<Document>) {
    let db = open();
    let c = coll(&db, "c");
    let mut docs = data();
    if idx {
        // values an index takes
        docs.retain(|d| !matches!(d.get("x"), Some(Bson::Array(_)) | Some(Bson::Document(_))));
        c.create_index(index("x", false)).unwrap();
    }
    c.insert_many(docs.clone()).unwrap();
    (db, c, docs)
}
/// the database works, and holds `docs` if the request was rejected
fn alive(c: &Collection<Document>, docs: &[Document], rejected: bool) {
    if rejected { vf::check(same_docs(&all(c), docs), "a rejected request changes nothing"); vf::cover("rejected") } else { vf::cover("accepted") }
    c.insert_one(doc! {"_id": "probe", "x": 1}).unwrap();
    vf::check(c.find_one(doc! {"_id": "probe"}).unwrap().is_some(), "the database works after every request");
}
/// every way of using a filter
fn used(c: &Collection<Document>, f: Document, how: usize) -> bool {
    match how {
        0 => match c.find(f).run() { Err(_) => true, Ok(r) => walk(r) },
        1 => c.update_many(f, doc! {"$set": {"w": 1}}).is_err(),
        2 => c.delete_many(f).is_err(),
        _ => match c.aggregate(vec![doc! {"$match": f}, doc! {"$count": "n"}]).run() { Err(_) => true, Ok(r) => walk(r) },
    }
}
/// reads a cursor to its end, which it has also after a failure
fn walk<T: serde::de::DeserializeOwned + Unpin + Send + Sync>(r: polodb_core::ClientCursor<T>) -> bool {
    let (mut n, mut bad) = (0, false);
    for d in r {
        if d.is_err() { bad = true }
        n += 1;
        vf::check(n < 40, "a cursor ends");
    }
    bad
}
const FOPS: [&str; 15] = ["$eq", "$ne", "$gt", "$gte", "$lt", "$lte", "$in", "$nin", "$all", "$size", "$regex", "$not", "$and", "$or", "$nope"];
fn filter(tier: u64) {
    let op = FOPS[vf::pick(FOPS.len(), "operator")];
    let v = kind(vf::pick(KINDS, "operand"));
    let pos = vf::pick(6, "position");
    let f = match pos {
        0 => doc! {"x": {op: v}},
        1 => doc! {"x.z": {op: v}},
        2 => doc! {"_id": {op: v}},
        3 => doc! {"x": {"$not": {op: v}}},
        4 => doc! {op: v},
        _ => doc! {"$or": [{"x": {op: v}}, {"y": 1}]},
    };
    let how = if tier == 0 { (pos + op.len()) % 4 } else { vf::pick(4, "how") };
    let (_db, c, docs) = setup(tier != 0 && vf::pick(2, "index") == 1);
    let r = used(&c, f, how);
    alive(&c, &docs, r);
}
/// operands of the logical operators, several operators, and their nesting
fn logic(_tier: u64) {
    let v = kind(vf::pick(KINDS, "operand"));
    let f = match vf::pick(12, "form") {
        0 => doc! {"$and": [v]},
        1 => doc! {"$or": [{"x": 5}, v]},
        2 => doc! {"$and": [{"$or": [{"x": v}]}]},
        3 => doc! {"x": {"$gt": 1, "$lt": v}},
        4 => doc! {"x": {"$not": {"$not": v}}},
        5 => doc! {"x": {"$not": {"$gt": 1, "$eq": v}}},
        6 => doc! {"x": {"$gt": 1, "z": v}},
        7 => doc! {"x": {"$in": [v]}},
        8 => doc! {"x": {"$all": [v, 1]}},
        9 => doc! {"x": v.clone(), "y": v},
        10 => doc! {"_id": 1, "x": v},
        _ => doc! {"x": v, "_id": {"$eq": 2}},
    };
    let (_db, c, docs) = setup(vf::pick(2, "index") == 1);
    let r = used(&c, f, 0);
    alive(&c, &docs, r);
}
/// field names of every form
fn keys(_tier: u64) {
    // names are hashed, so they are concrete
    const N: [&str; 16] = ["", ".", "x.", ".x", "x..z", "$", "$x", "a$", "\0", "a\0b", "x.0", "x.$", "_id", "_id.a", "ü", "$set"];
    let k = N[vf::pick(N.len(), "name")];
    let (_db, c, docs) = setup(false);
    let r = match vf::pick(7, "request") {
        0 => find(&c, doc! {k: 1}).is_err(),
        1 => find(&c, doc! {k: {"$gt": 1}}).is_err(),
        2 => c.update_many(doc! {}, doc! {"$set": {k: 1}}).is_err(),
        3 => c.update_many(doc! {}, doc! {k: {"x": 1}}).is_err(),
        4 => c.find(doc! {}).sort(doc! {k: 1}).run().is_err(),
        5 => c.aggregate(vec![doc! {k: 1}]).run().is_err(),
        _ => c.create_index(IndexModel { keys: doc! {k: 1}, options: None }).is_err(),
    };
    alive(&c, &docs, r);
}
const UOPS: [&str; 12] = ["$set", "$unset", "$inc", "$mul", "$min", "$max", "$rename", "$push", "$pop", "$nope", "", "x"];
fn update(tier: u64) {
    let op = UOPS[vf::pick(UOPS.len(), "operator")];
    let v = kind(vf::pick(KINDS, "operand"));
    let pos = vf::pick(3, "position");
    let f = match pos { 0 => doc! {op: {"x": v}}, 1 => doc! {op: v}, _ => doc! {op: {"none": v}} };
    let (_db, c, docs) = setup(tier != 0 && vf::pick(2, "index") == 1);
    // one document of every type, each on its own
    let id = [0, 1, 2, 3, 4, 5, 6, 9, 7][vf::pick(if pos == 0 || tier != 0 { 9 } else { 2 }, "which")];
    let q = if id == 0 { doc! {} } else { doc! {"_id": id} };
    let before = all(&c);
    let r = c.update_many(q, f);
    if let Ok(r) = &r { vf::check(r.matched_count <= docs.len() as u64 && r.modified_count <= r.matched_count, "the counts are possible") }
    let now = all(&c);
    vf::check(ids(&now) == ids(&before), "no update changes which documents there are");
    alive(&c, &docs, r.is_err());
}
/// malformed updates and options
fn shape(_tier: u64) {
    let v = kind(vf::pick(KINDS, "operand"));
    let (_db, c, docs) = setup(false);
    let mut ins = false;
    let r = match vf::pick(7, "form") {
        0 => c.update_one(doc! {"x": v}, doc! {}).is_err(),
        1 => c.update_one(doc! {}, doc! {"$set": {"a": v.clone()}, "$inc": {"b": v}}).is_err(),
        2 => c.update_one(doc! {"_id": 1}, doc! {"$set": {"_id": v}}).is_err(),
        3 => { ins = true; c.update_one_with_options(doc! {"x": v}, doc! {"$set": {"n": 1}}, UpdateOptions::builder().upsert(true).build()).is_err() }
        4 => { ins = true; c.update_one_with_options(doc! {"x": {"$gt": v}}, doc! {"$inc": {"n": 1}}, UpdateOptions::builder().upsert(true).build()).is_err() }
        5 => { ins = true; c.update_many_with_options(doc! {"_id": v}, doc! {"$set": {"n": 1}}, UpdateOptions::builder().upsert(true).build()).is_err() }
        _ => c.update_many(doc! {"$or": v}, doc! {"$set": {"a": 1}}).is_err(),
    };
    let _ = ins;
    alive(&c, &docs, r);
}
const STAGES: [&str; 11] = ["$match", "$skip", "$limit", "$sort", "$count", "$addFields", "$unset", "$group", "$nope", "", "x"];
fn drain(c: &Collection<Document>, p: Vec<Document>) -> bool {
    match c.aggregate(p).run() { Err(_) => true, Ok(r) => walk(r) }
}
fn stage(_tier: u64) {
    let st = STAGES[vf::pick(STAGES.len(), "stage")];
    let v = kind(vf::pick(KINDS, "operand"));
    let p = match vf::pick(4, "position") {
        0 => vec![doc! {st: v}],
        1 => vec![doc! {"$match": {"x": {"$gt": 1}}}, doc! {st: v}, doc! {"$limit": 2}],
        2 => vec![doc! {"$sort": {"_id": 1}}, doc! {st: v}],
        _ => vec![doc! {st: {"x": v.clone(), "_id": v}}],
    };
    let (_db, c, docs) = setup(false);
    let r = drain(&c, p);
    vf::check(same_docs(&all(&c), &docs), "an aggregation changes nothing");
    alive(&c, &docs, r);
}
/// empty stages, stages of several keys, operators within expressions
fn stages(_tier: u64) {
    let v = kind(vf::pick(KINDS, "operand"));
    let p = match vf::pick(12, "form") {
        0 => vec![doc! {}],
        1 => vec![doc! {"$limit": 1}, doc! {}],
        2 => vec![doc! {}, doc! {"$limit": 1}],
        3 => vec![doc! {"$limit": 3}, doc! {}, doc! {"$skip": 1}],
        4 => vec![doc! {"$match": {}}, doc! {}, doc! {"$skip": 1}],
        5 => vec![doc! {"$limit": 1, "$skip": v}],
        6 => vec![doc! {"$group": {"_id": null_(), "n": {"$sum": v}}}],
        7 => vec![doc! {"$group": {"_id": v, "n": {"$abs": 1}}}],
        8 => vec![doc! {"$addFields": {"a": {"$abs": v}}}],
        9 => vec![doc! {"$addFields": {"a": {"$sum": v}}}],
        10 => vec![doc! {"$addFields": {"a": {"$abs": {"$abs": v}}}}],
        _ => vec![doc! {"$unset": [v]}, doc! {"$count": "n"}],
    };
    let (_db, c, docs) = setup(false);
    let r = drain(&c, p);
    vf::check(same_docs(&all(&c), &docs), "an aggregation changes nothing");
    alive(&c, &docs, r);
}
/// sorting values of every type among the others
fn sort(_tier: u64) {
    let v = kind(vf::pick(KINDS, "value"));
    let (_db, c, mut docs) = setup(false);
    c.insert_one(doc! {"_id": 10, "x": v.clone()}).unwrap();
    docs.push(doc! {"_id": 10, "x": v});
    let o = [1, -1][vf::pick(2, "direction")];
    let r = match c.find(doc! {}).sort(doc! {"x": o}).run() {
        Err(_) => true,
        Ok(cur) => {
            let mut n = 0;
            let mut bad = false;
            for d in cur { if d.is_err() { bad = true; break } n += 1 }
            vf::check(bad || n == 9, "a sort returns every document once");
            bad
        }
    };
    alive(&c, &docs, r);
}
/// documents with values of every type in every place
fn insert(_tier: u64) {
    let v = kind(vf::pick(KINDS, "value"));
    let d = match vf::pick(5, "place") { 0 => doc! {"_id": v}, 1 => doc! {"x": v}, 2 => doc! {"_id": 8, "": v}, 3 => doc! {"_id": 8, "a.b": [v]}, _ => doc! {"_id": 8, "$a": {"$b": v}} };
    let (_db, c, docs) = setup(vf::pick(2, "index") == 1);
    let r = c.insert_one(d);
    let r = match r { Ok(_) => { vf::check(c.count_documents().unwrap() == docs.len() as u64 + 1, "a document is inserted or not"); false } Err(_) => true };
    alive(&c, &docs, r);
}
fn indexes(_tier: u64) {
    let v = kind(vf::pick(KINDS, "direction"));
    let (db, c, docs) = setup(false);
    let uniq = Some(IndexOptions { name: None, unique: Some(vf::pick(2, "unique") == 1) });
    let r = match vf::pick(6, "form") {
        0 => c.create_index(IndexModel { keys: doc! {"n": v}, options: uniq }),
        1 => c.create_index(IndexModel { keys: doc! {"n": 1, "m": v}, options: uniq }),
        2 => c.create_index(IndexModel { keys: doc! {}, options: uniq }),
        3 => c.create_index(IndexModel { keys: doc! {"x.z": 1}, options: uniq }),
        4 => c.create_index(IndexModel { keys: doc! {"y": 1}, options: Some(IndexOptions { name: Some(["", "\0", "y_1", "x"][vf::pick(4, "name")].into()), unique: None }) }),
        _ => c.drop_index(["", "x_1", "\0", "none"][vf::pick(4, "name")]),
    }.is_err();
    vf::check(names(&db) == ["c"], "the collections are as they were");
    alive(&c, &docs, r);
}
fn badnames(_tier: u64) {
    let (s, one) = (vf::ascii(2, 0, 0x7f, "c"), vf::ascii(1, 0, 0x7f, "c"));
    let long = "n".repeat(300);
    let n: &str = match vf::pick(8, "name") { 0 => "", 1 => "\0", 2 => "a\0b", 3 => "$", 4 => "ü", 5 => &long, 6 => &one, _ => &s };
    vf::assume(n != "c");
    let (db, c, docs) = setup(false);
    let o = coll(&db, n);
    let r = match vf::pick(9, "request") {
        0 => db.create_collection(n).is_err(),
        1 => o.insert_one(doc! {"_id": 1}).is_err(),
        2 => find(&o, doc! {}).is_err(),
        3 => o.count_documents().is_err(),
        4 => o.update_many(doc! {}, doc! {"$set": {"x": 1}}).is_err(),
        5 => o.delete_many(doc! {}).is_err(),
        6 => o.drop().is_err(),
        7 => o.create_index(index("x", false)).is_err(),
        _ => drain(&o, vec![doc! {"$count": "n"}]),
    };
    if r { vf::check(names(&db) == ["c"], "the collections are as they were") }
    vf::check(same_docs(&all(&c), &docs), "other collections are as they were");
    alive(&c, &docs, r);
}
#[derive(Serialize, Deserialize, Debug)]
struct Rec { _id: i32, x: i32 }
/// reading what does not have the asked type is an error
fn typed(_tier: u64) {
    let v = kind(vf::pick(KINDS, "value"));
    let db = open();
    let c = coll(&db, "c");
    let fits = matches!(&v, Bson::Int32(_));
    let d = doc! {"_id": 1, "x": v};
    c.insert_one(d.clone()).unwrap();
    let t: Collection<Rec> = db.collection("c");
    let r = match vf::pick(3, "how") {
        0 => t.find_one(doc! {}).is_err(),
        1 => t.find(doc! {}).run().map(walk).unwrap(),
        _ => t.aggregate(vec![doc! {"$skip": 0}]).with_type::<Rec>().run().map(walk).unwrap(),
    };
    if fits { vf::check(!r, "what fits is read") }
    vf::check(c.count_documents().unwrap() == 1, "the collection is as it was");
    c.insert_one(doc! {"_id": 100, "x": 1}).unwrap();
    vf::cover("typed");
}
/// use of a transaction after its end
fn ended(_tier: u64) {
    let (db, c, docs) = setup(false);
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    let commit = vf::pick(2, "ending") == 1;
    if commit { t.commit().unwrap() } else { t.rollback().unwrap() }
    match vf::pick(5, "request") {
        0 => { let _ = tc.insert_one(doc! {"_id": 50}); }
        1 => { let _ = tc.count_documents(); }
        2 => { let _ = tc.update_many(doc! {}, doc! {"$set": {"q": 1}}); }
        3 => { let _ = t.commit(); }
        _ => { let _ = t.rollback(); }
    }
    drop(tc);
    drop(t);
    vf::check(all(&c).len() >= docs.len(), "the committed documents stay");
    c.insert_one(doc! {"_id": "probe", "x": 1}).unwrap();
    vf::check(c.find_one(doc! {"_id": "probe"}).unwrap().is_some(), "the database works after every request");
    vf::cover("ended");
}
