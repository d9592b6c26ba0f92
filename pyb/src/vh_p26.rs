//! P26: values and results cross between Python and the database unchanged.
use super::*;
use crate::vf;
use polodb_core::bson::{self, doc, oid::ObjectId, spec::BinarySubtype, Binary, Bson, DateTime, JavaScriptCodeWithScope, Regex, Timestamp};
use polodb_core::CollectionT;
use pyo3::exceptions::{PyOSError, PyRuntimeError, PyTypeError};
use pyo3::types::*;

fn open() -> PyDatabase { PyDatabase::new(&crate::store::dir(0)).unwrap() }
fn rust(db: &PyDatabase) -> Collection<Document> { db.inner.lock().unwrap().collection("a") }
fn stored(db: &PyDatabase) -> Vec<Document> { rust(db).find(doc! {}).run().unwrap().map(|d| d.unwrap()).collect() }

#[cfg(feature = "model")]
fn moment(o: &Bound<'_, PyAny>) -> Option<(i128, bool)> { unsafe { crate::vh_cpy::datetime_parts(o.as_ptr()) } }
#[cfg(feature = "native")]
fn moment(o: &Bound<'_, PyAny>) -> Option<(i128, bool)> {
    let py = o.py();
    let m = py.import("datetime").unwrap();
    if !o.is_instance(&m.getattr("datetime").unwrap()).unwrap() {
        return None;
    }
    let l = pyo3::types::PyDict::new(py);
    l.set_item("o", o).unwrap();
    l.set_item("d", m).unwrap();
    let us = py.eval(c"(o.replace(tzinfo=None) - d.datetime(1970, 1, 1)) // d.timedelta(microseconds=1)", None, Some(&l)).unwrap();
    let aware = py.eval(c"o.tzinfo is not None and o.utcoffset() == d.timedelta(0)", None, Some(&l)).unwrap();
    Some((us.extract::<i64>().unwrap() as i128, aware.extract().unwrap()))
}
#[cfg(feature = "model")]
fn pattern(o: &Bound<'_, PyAny>) -> Option<(Vec<u8>, i128)> { unsafe { crate::vh_cpy::pattern_parts(o.as_ptr()) } }
#[cfg(feature = "native")]
fn pattern(o: &Bound<'_, PyAny>) -> Option<(Vec<u8>, i128)> {
    let p: String = o.getattr("pattern").ok()?.extract().ok()?;
    Some((p.into_bytes(), o.getattr("flags").ok()?.extract::<i64>().ok()? as i128 & !32))
}
#[cfg(feature = "model")]
fn big<'py>(py: Python<'py>, high: i64, low: u64) -> Bound<'py, PyAny> {
    unsafe { Bound::from_owned_ptr(py, crate::vh_cpy::big(((high as i128) << 64) | low as i128)) }
}
#[cfg(feature = "native")]
fn big<'py>(py: Python<'py>, high: i64, low: u64) -> Bound<'py, PyAny> {
    let l = pyo3::types::PyDict::new(py);
    l.set_item("h", high).unwrap();
    l.set_item("l", low).unwrap();
    py.eval(c"(h << 64) | l", None, Some(&l)).unwrap()
}
#[cfg(feature = "model")]
fn object<'py>(py: Python<'py>) -> Bound<'py, PyAny> { unsafe { Bound::from_owned_ptr(py, crate::vh_cpy::none_like()) } }
#[cfg(feature = "native")]
fn object<'py>(py: Python<'py>) -> Bound<'py, PyAny> { py.eval(c"object()", None, None).unwrap() }

fn int<'py>(py: Python<'py>, v: i64) -> Bound<'py, PyAny> { v.into_pyobject(py).unwrap().into_any() }
fn text<'py>(py: Python<'py>, v: &str) -> Bound<'py, PyAny> { PyString::new(py, v).into_any() }
fn dict<'py>(py: Python<'py>, l: &[(&str, Bound<'py, PyAny>)]) -> Bound<'py, PyDict> {
    let d = PyDict::new(py);
    for (k, v) in l {
        d.set_item(k, v).unwrap();
    }
    d
}
fn list<'py>(py: Python<'py>, l: &[Bound<'py, PyAny>]) -> Bound<'py, PyList> {
    let d = PyList::empty(py);
    for v in l {
        d.append(v).unwrap();
    }
    d
}
fn to_py<'py>(py: Python<'py>, b: &Bson) -> Bound<'py, PyAny> {
    match b {
        Bson::Int64(v) => int(py, *v),
        Bson::Int32(v) => int(py, *v as i64),
        Bson::String(s) => text(py, s),
        Bson::Boolean(v) => PyBool::new(py, *v).to_owned().into_any(),
        Bson::Double(v) => PyFloat::new(py, *v).into_any(),
        Bson::Document(d) => of_doc(py, d).into_any(),
        Bson::Array(l) => {
            let v: Vec<_> = l.iter().map(|x| to_py(py, x)).collect();
            list(py, &v).into_any()
        }
        _ => panic!(),
    }
}
fn of_doc<'py>(py: Python<'py>, d: &Document) -> Bound<'py, PyDict> {
    let p = PyDict::new(py);
    for (k, v) in d {
        p.set_item(k, to_py(py, v)).unwrap();
    }
    p
}
/// the Python object that stands for the value
fn same(o: &Bound<'_, PyAny>, b: &Bson) -> bool {
    match b {
        Bson::Int64(v) => o.is_exact_instance_of::<PyInt>() && o.extract::<i64>().ok() == Some(*v),
        Bson::Int32(v) => o.is_exact_instance_of::<PyInt>() && o.extract::<i64>().ok() == Some(*v as i64),
        Bson::String(s) | Bson::Symbol(s) | Bson::JavaScriptCode(s) => match o.cast::<PyString>() {
            Ok(x) => x.to_str().unwrap().as_bytes() == s.as_bytes(),
            Err(_) => false,
        },
        Bson::ObjectId(i) => match o.cast::<PyString>() {
            Ok(x) => x.to_str().unwrap() == i.to_hex(),
            Err(_) => false,
        },
        Bson::Boolean(v) => match o.cast::<PyBool>() {
            Ok(x) => x.is_true() == *v,
            Err(_) => false,
        },
        Bson::Double(v) => match o.cast::<PyFloat>() {
            Ok(x) => x.value().to_bits() == v.to_bits(),
            Err(_) => false,
        },
        Bson::Document(d) => match o.cast::<PyDict>() {
            Ok(x) => x.len() == d.len() && x.iter().zip(d.iter()).all(|((k, v), (n, w))| same(&k, &Bson::String(n.clone())) && same(&v, w)),
            Err(_) => false,
        },
        Bson::Array(d) => match o.cast::<PyList>() {
            Ok(x) => x.len() == d.len() && x.iter().zip(d.iter()).all(|(v, w)| same(&v, w)),
            Err(_) => false,
        },
        Bson::Binary(d) => match o.cast::<PyBytes>() {
            Ok(x) => x.as_bytes() == &d.bytes[..],
            Err(_) => false,
        },
        Bson::Timestamp(t) => match o.cast::<PyTuple>() {
            Ok(x) => x.len() == 2 && x.get_item(0).unwrap().extract::<i64>().unwrap() == t.time as i64 && x.get_item(1).unwrap().extract::<i64>().unwrap() == t.increment as i64,
            Err(_) => false,
        },
        Bson::DateTime(d) => moment(o) == Some((d.timestamp_millis() as i128 * 1000, true)),
        Bson::RegularExpression(r) => {
            let f: i128 = r.options.bytes().map(|c| match c { b'i' => 2, b'm' => 8, b's' => 16, b'x' => 64, _ => 0 }).sum();
            pattern(o) == Some((r.pattern.clone().into_bytes(), f))
        }
        _ => o.is_none(),
    }
}
/// equal with type and order; doubles by bits
fn equal(a: &Bson, b: &Bson) -> bool {
    match (a, b) {
        (Bson::Double(x), Bson::Double(y)) => x.to_bits() == y.to_bits(),
        (Bson::Document(x), Bson::Document(y)) => equal_docs(x, y),
        (Bson::Array(x), Bson::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| equal(p, q)),
        _ => a == b,
    }
}
fn equal_docs(x: &Document, y: &Document) -> bool { x.len() == y.len() && x.iter().zip(y).all(|((k, v), (m, w))| k == m && equal(v, w)) }
fn items<'py>(py: Python<'py>, r: PyResult<Option<Py<PyAny>>>) -> Vec<Bound<'py, PyAny>> {
    let r = r.unwrap().unwrap().into_bound(py);
    r.cast_into::<PyList>().unwrap().iter().collect()
}

const KINDS: usize = 14;
/// a value both sides have
fn value(k: usize, n: &str) -> Bson {
    match k {
        0 => Bson::Int64(vf::any_i64(n)),
        1 => Bson::Double(vf::any_f64(n)),
        2 => Bson::Boolean(vf::any_bool(n)),
        3 => Bson::String(vf::ascii(0, 0, 127, n)),
        4 => Bson::String(vf::ascii(2, 0, 127, n)),
        5 => Bson::String("é€😀".to_string()),
        6 => Bson::Document(doc! {}),
        7 => Bson::Array(vec![]),
        8 => Bson::Document(doc! { "b": vf::any_i64(n), "a": Bson::Boolean(vf::any_bool(n)) }),
        9 => Bson::Array(vec![Bson::Int64(vf::any_i64(n)), Bson::String(vf::ascii(1, 32, 126, n)), Bson::Double(1.5)]),
        10 => Bson::Array(vec![Bson::Document(doc! { "p": [vf::any_i64(n)] }), Bson::Array(vec![Bson::Boolean(true)])]),
        11 => Bson::Document(doc! { "z": { "y": { "x": vf::any_i64(n) } } }),
        12 => Bson::Double([0.0, -0.0, 5.0, 1e300][vf::pick(4, "double")]),
        _ => Bson::Int64([0, 1, -1, 5][vf::pick(4, "integer")]),
    }
}
/// a document from Python is the document a Rust client sees, and the other way round
fn h_values(_t: u64) {
    let k = vf::pick(KINDS, "kind");
    let v = value(k, "v");
    let d = doc! { "_id": 7i64, "m": "first", "x": v, "a": 1i64 };
    Python::attach(|py| {
        let db = open();
        let c = db.collection("a").unwrap();
        let p = of_doc(py, &d);
        if vf::pick(2, "many") == 0 {
            let r = c.insert_one(py, p.unbind()).unwrap().into_bound(py);
            vf::check(same(&r, &Bson::Document(doc! { "inserted_id": 7i64 })), "the key is reported");
        } else {
            let more = |i| dict(py, &[("_id", int(py, i))]).into_any();
            let r = c.insert_many(py, list(py, &[p.into_any(), more(8), more(9), more(10), more(11)]).unbind()).unwrap().into_bound(py);
            let r = r.cast::<PyDict>().unwrap().clone();
            vf::check(r.len() == 5, "five keys are reported");
            for (i, id) in r.iter() {
                vf::check(id.extract::<i64>().unwrap() == i.extract::<i64>().unwrap() + 7, "the keys are reported by place");
            }
        }
        vf::check(equal_docs(&stored(&db)[0], &d), "the document stored is the one given");
        let back = c.find_one(py, dict(py, &[("_id", int(py, 7))]).unbind()).unwrap().unwrap().into_bound(py);
        vf::check(same(&back, &Bson::Document(d.clone())), "the document read is the one given");
        let all = items(py, c.find(py, dict(py, &[]).unbind()));
        vf::check(same(&all[0], &Bson::Document(d.clone())), "the document found is the one given");
        vf::cover("stored");
    })
}
/// values the database has no place for are refused, wherever they are
fn h_refused(_t: u64) {
    Python::attach(|py| {
        let db = open();
        let c = db.collection("a").unwrap();
        rust(&db).insert_one(doc! { "_id": 1i64, "x": 5i64 }).unwrap();
        let k = vf::pick(9, "kind");
        let v = match k {
            // either it has no counterpart or it is stored as null
            8 => py.None().into_bound(py),
            6 => {
                // a list that contains itself
                let l = list(py, &[]);
                l.append(&l).unwrap();
                l.into_any()
            }
            7 => {
                let d = dict(py, &[]);
                d.set_item("d", list(py, &[d.clone().into_any()])).unwrap();
                d.into_any()
            }
            0 => big(py, 0, vf::any_u64("low") | 1 << 63),
            1 => big(py, -1, vf::any_u64("low") & !(1 << 63)),
            2 => PyBytes::new(py, b"ab").into_any(),
            3 => (1i64, 2i64).into_pyobject(py).unwrap().into_any(),
            4 => object(py),
            _ => {
                let d = PyDict::new(py);
                d.set_item(3i64, 4i64).unwrap();
                d.into_any()
            }
        };
        let place = vf::pick(3, "place");
        let v = match place {
            0 => v,
            1 => list(py, &[int(py, 1), v]).into_any(),
            _ => dict(py, &[("n", int(py, 1)), ("o", v)]).into_any(),
        };
        let d = dict(py, &[("x", v.clone())]);
        let was = doc! { "_id": 1i64, "x": 5i64 };
        let method = vf::pick(8, "method");
        let bad = match method {
            0 => c.insert_one(py, d.unbind()).is_err(),
            1 => c.insert_many(py, list(py, &[dict(py, &[("_id", int(py, 2))]).into_any(), d.into_any()]).unbind()).is_err(),
            2 => c.find(py, d.unbind()).is_err(),
            3 => c.find_one(py, d.unbind()).is_err(),
            4 => c.delete_many(py, d.unbind()).is_err(),
            5 => c.delete_one(py, d.unbind()).is_err(),
            6 => c.update_one(py, dict(py, &[]).unbind(), dict(py, &[("$set", d.into_any())]).unbind()).is_err(),
            _ => c.aggregate(py, list(py, &[dict(py, &[("$match", d.into_any())]).into_any()]).unbind()).is_err(),
        };
        if k == 8 && !bad {
            let null = match place {
                0 => Bson::Null,
                1 => bson::bson!([1i64, null]),
                _ => bson::bson!({ "n": 1i64, "o": null }),
            };
            let now = stored(&db);
            match method {
                0 | 1 => {
                    vf::check(now[0] == was && now.len() == 2 + method, "what is stored");
                    vf::check(now[1..].iter().any(|d| d.get("x") == Some(&null)), "None is stored as null");
                }
                6 => vf::check(now == vec![doc! { "_id": 1i64, "x": null }], "None is stored as null"),
                _ => vf::check(now == vec![was], "a filter for None selects no other value"),
            }
            return;
        }
        vf::check(bad, "a value without a counterpart is refused");
        vf::check(stored(&db) == vec![was], "what is refused changes nothing");
        vf::cover("value refused");
    })
}
/// every stored value is handed to Python, or an error is raised
fn h_read(_t: u64) {
    let k = vf::pick(19, "kind");
    let mut any = false;
    let v = match k {
        0 => Bson::Int32(vf::any_i32("v")),
        1 => Bson::Null,
        2 => Bson::Binary(Binary { subtype: BinarySubtype::Generic, bytes: vec![vf::any_u8("v"), vf::any_u8("v")] }),
        3 => Bson::ObjectId(ObjectId::from_bytes([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 255])),
        4 => Bson::Symbol(vf::ascii(1, 32, 126, "v")),
        5 => Bson::JavaScriptCode(vf::ascii(1, 32, 126, "v")),
        6 => Bson::Timestamp(Timestamp { time: vf::any_u32("v"), increment: vf::any_u32("v") }),
        7 => {
            // within what a datetime can name; numbers of its own, since a
            // date is read back from its decimal text
            let v = [-62_135_596_800_000, -62_135_596_799_999, -86_400_001, -1001, -1000, -999, -1, 0, 1, 999, 1000, 1001, 1_700_000_000_123, 253_402_300_799_999];
            Bson::DateTime(DateTime::from_millis(v[vf::pick(v.len(), "v")]))
        }
        8 => {
            any = true;
            let v = [-62_135_596_800_001, 253_402_300_800_000, i64::MIN, i64::MAX];
            Bson::DateTime(DateTime::from_millis(v[vf::pick(v.len(), "v")]))
        }
        9 => Bson::RegularExpression(Regex { pattern: vf::ascii(1, b'a', b'z', "v"), options: ["", "i", "ms", "x"][vf::pick(4, "options")].to_string() }),
        10 => {
            any = true;
            Bson::RegularExpression(Regex { pattern: ["(", "*", "a(" ][vf::pick(3, "pattern")].to_string(), options: String::new() })
        }
        11 => Bson::MinKey,
        12 => Bson::MaxKey,
        13 => Bson::Undefined,
        14 => {
            any = true;
            Bson::JavaScriptCodeWithScope(JavaScriptCodeWithScope { code: "c".to_string(), scope: doc! { "s": 1 } })
        }
        15 => {
            // stored, but not readable (finding EXTJSON)
            any = true;
            Bson::Document(doc! { "$oid": 5 })
        }
        16 => {
            any = true;
            Bson::Document(doc! { "$numberLong": "x" })
        }
        17 => Bson::Double(vf::any_f64("v")),
        _ => Bson::Int64(vf::any_i64("v")),
    };
    let place = vf::pick(3, "place");
    let v = match place {
        0 => v,
        1 => Bson::Array(vec![Bson::Int32(1), v]),
        _ => Bson::Document(doc! { "n": "q", "o": v }),
    };
    let d = doc! { "_id": 1i64, "x": v };
    Python::attach(|py| {
        let db = open();
        rust(&db).insert_one(d.clone()).unwrap();
        let c = db.collection("a").unwrap();
        let f = dict(py, &[("_id", int(py, 1))]).unbind();
        let r = match vf::pick(3, "method") {
            0 => c.find_one(py, f).map(|x| x.unwrap().into_bound(py)),
            1 => c.find(py, f).map(|x| x.unwrap().into_bound(py).cast_into::<PyList>().unwrap().get_item(0).unwrap()),
            _ => c.aggregate(py, list(py, &[dict(py, &[("$match", f.into_bound(py).into_any())]).into_any()]).unbind()).map(|x| x.into_bound(py).cast_into::<PyList>().unwrap().get_item(0).unwrap()),
        };
        if any {
            let _ = r.is_ok();
            vf::cover("no counterpart");
        } else {
            vf::check(r.is_ok(), "a stored value can be read");
            vf::check(same(&r.unwrap(), &Bson::Document(d.clone())), "the value read is the one stored");
            vf::cover("read");
        }
        drop(c);
        vf::check(rust(&db).insert_one(doc! { "_id": 2i64 }).is_ok(), "the database goes on");
    })
}
/// the effect and the report of every method
fn h_methods(_t: u64) {
    let (a, b, x, y) = (vf::any_i64("a"), vf::any_i64("b"), vf::any_i64("x"), vf::any_i64("y"));
    let mut model = vec![(1i64, a), (2, b)];
    Python::attach(|py| {
        let db = open();
        for (i, k) in &model {
            rust(&db).insert_one(doc! { "_id": *i, "k": *k }).unwrap();
        }
        let c = db.collection("a").unwrap();
        let f = dict(py, &[("k", int(py, x))]);
        let hits = model.iter().filter(|d| vf::decide(d.1 == x)).count() as i64;
        let op = vf::pick(9, "method");
        let up = |py| dict(py, &[("$set", dict(py, &[("k", int(py, y))]).into_any())]);
        match op {
            0 | 1 => {
                let r = if op == 0 { c.update_one(py, f.unbind(), up(py).unbind()) } else { c.update_many(py, f.unbind(), up(py).unbind()) };
                let r = r.unwrap().unwrap().into_bound(py);
                let n = if op == 0 { hits.min(1) } else { hits };
                vf::check(same(&r, &Bson::Document(doc! { "matched_count": n, "modified_count": n })), "the counts of an update are reported");
                let mut left = n;
                for d in model.iter_mut() {
                    if d.1 == x && left > 0 {
                        d.1 = y;
                        left -= 1;
                    }
                }
            }
            2 | 3 => {
                let r = if op == 2 { c.delete_one(py, f.unbind()) } else { c.delete_many(py, f.unbind()) };
                let r = r.unwrap().into_bound(py);
                let n = if op == 2 { hits.min(1) } else { hits };
                vf::check(same(&r, &Bson::Document(doc! { "deleted_count": n })), "the count of a delete is reported");
                let mut left = n;
                model.retain(|d| if d.1 == x && left > 0 { left -= 1; false } else { true });
            }
            4 => {
                let r = items(py, c.find(py, f.unbind()));
                let w: Vec<_> = model.iter().filter(|d| d.1 == x).collect();
                vf::check(r.len() == w.len(), "as many documents as match are found");
                for (p, q) in r.iter().zip(w) {
                    vf::check(same(p, &Bson::Document(doc! { "_id": q.0, "k": q.1 })), "the matching documents are found");
                }
            }
            5 => {
                let r = c.find_one(py, f.unbind()).unwrap();
                match model.iter().find(|d| d.1 == x) {
                    Some(q) => vf::check(r.is_some() && same(&r.unwrap().into_bound(py), &Bson::Document(doc! { "_id": q.0, "k": q.1 })), "one document is found"),
                    None => vf::check(r.is_none(), "no document is None"),
                }
            }
            6 => {
                let r = c.count_documents(py).unwrap().into_bound(py);
                vf::check(same(&r, &Bson::Int64(2)), "the count is reported");
            }
            7 => {
                let l = list(py, &[
                    dict(py, &[("$match", dict(py, &[("k", dict(py, &[("$gte", int(py, x))]).into_any())]).into_any())]).into_any(),
                    dict(py, &[("$skip", int(py, 1))]).into_any(),
                ]);
                let r = c.aggregate(py, l.unbind()).unwrap().into_bound(py).cast_into::<PyList>().unwrap();
                let w: Vec<_> = model.iter().filter(|d| vf::decide(d.1 >= x)).skip(1).collect();
                vf::check(r.len() == w.len(), "an aggregation delivers as many documents");
                for (p, q) in r.iter().zip(w) {
                    vf::check(same(&p, &Bson::Document(doc! { "_id": q.0, "k": q.1 })), "an aggregation delivers the documents");
                }
            }
            _ => {
                let r = c.insert_one(py, dict(py, &[("_id", int(py, x))]).unbind());
                if vf::decide(x == 1 || x == 2) {
                    vf::check(r.is_err_and(|e| e.is_instance_of::<PyRuntimeError>(py)), "a taken key is an exception");
                } else {
                    vf::check(r.is_ok(), "a free key is taken");
                    vf::check(rust(&db).delete_one(doc! { "_id": x }).unwrap().deleted_count == 1, "it is stored");
                }
            }
        }
        let now = stored(&db);
        vf::check(now.len() == model.len(), "the documents stored");
        for (p, q) in now.iter().zip(&model) {
            vf::check(equal_docs(p, &doc! { "_id": q.0, "k": q.1 }), "the documents stored are the ones that follow");
        }
        vf::check(c.name() == "a", "the collection knows its name");
        vf::cover("method");
    })
}
/// a document without key gets one, which is reported and finds it
fn h_key(_t: u64) {
    Python::attach(|py| {
        let db = open();
        let c = db.collection("a").unwrap();
        let r = c.insert_one(py, dict(py, &[("x", int(py, 1))]).unbind()).unwrap().into_bound(py);
        let d = stored(&db).remove(0);
        vf::check(same(&r, &Bson::Document(doc! { "inserted_id": d.get("_id").unwrap().clone() })), "the made key is reported");
        vf::cover("made key");
    })
}
/// what the embedded operation refuses is an exception, and nothing happened
fn h_errors(_t: u64) {
    Python::attach(|py| {
        let db = open();
        db.create_collection("a").unwrap();
        let c = db.collection("a").unwrap();
        rust(&db).insert_one(doc! { "_id": 1i64, "k": "s" }).unwrap();
        let bad = dict(py, &[("$inc", dict(py, &[("k", int(py, vf::any_i64("v")))]).into_any())]);
        let odd = dict(py, &[("k", dict(py, &[("$what", int(py, 1))]).into_any())]);
        let run = |ok: bool| vf::check(ok, "an error is raised as an exception");
        let is = |e: PyErr| e.is_instance_of::<PyRuntimeError>(py);
        match vf::pick(14, "request") {
            0 => run(c.update_one(py, dict(py, &[]).unbind(), bad.unbind()).is_err_and(is)),
            1 => run(c.update_many(py, dict(py, &[]).unbind(), bad.unbind()).is_err_and(is)),
            2 => run(c.find(py, odd.unbind()).is_err_and(is)),
            3 => run(c.find_one(py, odd.unbind()).is_err_and(is)),
            4 => run(c.delete_one(py, odd.unbind()).is_err_and(is)),
            5 => run(c.delete_many(py, odd.unbind()).is_err_and(is)),
            6 => run(c.aggregate(py, list(py, &[odd.into_any()]).unbind()).is_err_and(is)),
            7 => run(c.insert_many(py, list(py, &[dict(py, &[("_id", int(py, 2))]).into_any(), dict(py, &[("_id", int(py, 1))]).into_any()]).unbind()).is_err_and(is)),
            8 => run(c.insert_many(py, list(py, &[int(py, 2)]).unbind()).is_err_and(|e| e.is_instance_of::<PyTypeError>(py))),
            9 => run(db.create_collection("").is_err()),
            10 => run(db.create_collection("a").is_err()),
            11 => run(db.create_collection("x\0y").is_err()),
            12 => run(PyDatabase::open_path(&crate::store::dir(0)).is_err_and(|e| e.is_instance_of::<PyOSError>(py))),
            _ => run(db.collection("").unwrap().insert_one(py, dict(py, &[]).unbind()).is_err_and(is)),
        }
        vf::check(db.list_collection_names().unwrap() == vec!["a".to_string()], "no collection appears");
        vf::check(stored(&db) == vec![doc! { "_id": 1i64, "k": "s" }], "nothing changes");
        vf::cover("exception");
    })
}
/// collections are created, listed and kept like the embedded ones
fn h_database(_t: u64) {
    let n = vf::ascii(1, 33, 126, "name");
    let v = vf::any_i64("v");
    Python::attach(|py| {
        let db = open();
        vf::check(db.list_collection_names().unwrap().is_empty(), "a new database has no collection");
        let embedded = {
            // the answer of the embedded operation on the same name
            let g = db.inner.lock().unwrap();
            let r = g.create_collection(&n).is_ok();
            if r { g.collection::<Document>(&n).drop().unwrap() }
            r
        };
        let r = db.create_collection(&n);
        vf::check(r.is_ok() == embedded, "a name is legal exactly if it is for the embedded operation");
        let l = db.list_collection_names().unwrap();
        vf::check(if embedded { l.len() == 1 && l[0].as_bytes() == n.as_bytes() } else { l.is_empty() }, "the collection is listed");
        let c = db.collection("b").unwrap();
        vf::check(db.list_collection_names().unwrap().len() == embedded as usize, "a handle does not create the collection");
        vf::check(c.find_one(py, dict(py, &[]).unbind()).unwrap().is_none() && items(py, c.find(py, dict(py, &[]).unbind())).is_empty(), "a missing collection is empty");
        c.insert_one(py, dict(py, &[("_id", int(py, v))]).unbind()).unwrap();
        drop(db);
        // the collection's handle does not keep the database open
        drop(c);
        let db = PyDatabase::open_path(&crate::store::dir(0)).unwrap();
        let c = db.collection("b").unwrap();
        let r = items(py, c.find(py, dict(py, &[]).unbind()));
        vf::check(r.len() == 1 && same(&r[0], &Bson::Document(doc! { "_id": v })), "what was stored is there after opening again");
        vf::cover("reopened");
    })
}
#[allow(dead_code)]
fn unused() { let _ = bson::Bson::Null; }

harness! { TABLE;
    h_p26_values => h_values;
    h_p26_refused => h_refused;
    h_p26_read => h_read;
    h_p26_methods => h_methods;
    h_p26_key => h_key;
    h_p26_errors => h_errors;
    h_p26_database => h_database;
}
