//! P01: a find returns exactly the documents whose field satisfies the comparison.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::CollectionT;

harness! { TABLE; h_p01_cmp => cmp; h_p01_missing => missing; }

const PAIRS: &[(Ty, Ty)] = &[
    (Ty::Null, Ty::Null), (Ty::Bool, Ty::Bool), (Ty::I32, Ty::I32), (Ty::I32, Ty::I64), (Ty::I64, Ty::I32),
    (Ty::I64, Ty::I64), (Ty::F64, Ty::F64), (Ty::I32, Ty::F64S), (Ty::F64S, Ty::I32), (Ty::I64, Ty::F64S), (Ty::F64S, Ty::I64),
    (Ty::Str0, Ty::Str1), (Ty::Str1, Ty::Str1), (Ty::Str2, Ty::Str1), (Ty::Str1, Ty::Str2), (Ty::Str2, Ty::Str2),
    (Ty::Oid, Ty::Oid), (Ty::Date, Ty::Date), (Ty::Bin1, Ty::Bin1),
];

/// Two documents with values of the picked type, a filter with a value of a
/// comparable type: every document is returned iff its value satisfies it.
fn cmp(_tier: u64) {
    let (td, tq) = PAIRS[vf::pick(PAIRS.len(), "types")];
    let op = OPS[vf::pick(OPS.len(), "op")];
    let a = value(td, "a");
    // int/double comparisons are costly for the solver: the second document
    // is fixed there
    let b = if (td == Ty::F64S) != (tq == Ty::F64S) { Bson::Int32(i32::MIN) } else { value(td, "b") };
    let q = value(tq, "q");
    let (oa, ob) = (ref_cmp(&a, &q), ref_cmp(&b, &q));
    // NaN has no documented order: out of bounds
    vf::assume(oa.is_some() && ob.is_some());
    let db = open();
    let c = coll(&db, "c");
    c.insert_one(doc! {"_id": 1, "x": a}).unwrap();
    c.insert_one(doc! {"_id": 2, "y": 0, "x": b}).unwrap();
    let r = find(&c, doc! {"x": cond(op, q)});
    let r = match r { Ok(r) => ids(&r), Err(_) => { vf::check(false, "a comparison filter is accepted"); return } };
    let wa = holds(op, oa.unwrap());
    let wb = holds(op, ob.unwrap());
    let mut want = vec![];
    if wa { want.push(1) }
    if wb { want.push(2) }
    if want.len() == 0 { vf::cover("none match") }
    if want.len() == 1 { vf::cover("one matches") }
    if want.len() == 2 { vf::cover("both match") }
    vf::check(r == want, "find returns exactly the documents whose value satisfies the comparison");
}

/// A document without the field, or with another kind of value, is never equal.
fn missing(_tier: u64) {
    let kinds = [Ty::Bool, Ty::I32, Ty::F64, Ty::Str1, Ty::Oid, Ty::Date];
    let i = vf::pick(kinds.len(), "query type");
    let j = vf::pick(kinds.len() + 1, "stored type");
    let op = [Op::Plain, Op::Eq][vf::pick(2, "op")];
    let q = value(kinds[i], "q");
    let numeric = |t: Ty| t == Ty::I32 || t == Ty::F64;
    let db = open();
    let c = coll(&db, "c");
    let mut d: Document = doc! {"_id": 1, "z": 3};
    if j < kinds.len() {
        if i == j || (numeric(kinds[i]) && numeric(kinds[j])) { return }
        d.insert("x", value(kinds[j], "v"));
        vf::cover("other type");
    } else {
        vf::cover("missing field");
    }
    c.insert_one(d).unwrap();
    let r = find(&c, doc! {"x": cond(op, q)});
    vf::check(r.is_ok() && r.unwrap().len() == 0, "an equality filter never matches a missing field or another type");
}
