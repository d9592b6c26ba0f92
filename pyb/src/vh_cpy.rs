//! Symbolic build: the part of CPython's C API that the binding and pyo3 use,
//! on objects laid out like CPython 3.12's.  Reference counts are kept and
//! objects are freed, so a use after free is seen by the executor.  The replay
//! build runs the real interpreter.
#![allow(non_snake_case, non_upper_case_globals, clippy::missing_safety_doc, static_mut_refs)]
use pyo3::ffi;
use std::mem::MaybeUninit;
use std::os::raw::{c_char, c_int, c_long, c_longlong, c_ulong, c_ulonglong, c_void};
use std::ptr::{addr_of_mut, null_mut};

type O = *mut ffi::PyObject;
type Ty = ffi::PyTypeObject;
type Sz = ffi::Py_ssize_t;
const IMMORTAL: Sz = u32::MAX as Sz;

// ---- types -----------------------------------------------------------------
#[repr(transparent)]
pub struct St<T>(pub T);
unsafe impl<T> Sync for St<T> {}

const fn head(t: *mut Ty) -> ffi::PyObject {
    let mut h: ffi::PyObject = unsafe { MaybeUninit::zeroed().assume_init() };
    h.ob_refcnt.ob_refcnt = IMMORTAL;
    h.ob_type = t;
    h
}
const fn ty(name: &'static [u8], flags: c_ulong, base: *mut Ty) -> Ty {
    let mut t: Ty = unsafe { MaybeUninit::zeroed().assume_init() };
    t.ob_base.ob_base = head(addr_of_mut!(PyType_Type));
    t.tp_name = name.as_ptr() as *const c_char;
    t.tp_flags = flags | ffi::Py_TPFLAGS_BASETYPE;
    t.tp_base = base;
    t
}
macro_rules! types {
    ($($n:ident $s:literal $f:expr, $b:expr;)*) => { $( #[no_mangle] pub static mut $n: Ty = ty(concat!($s, "\0").as_bytes(), $f, $b); )* };
}
const OBJ: *mut Ty = addr_of_mut!(PyBaseObject_Type);
types! {
    PyType_Type "type" ffi::Py_TPFLAGS_TYPE_SUBCLASS, OBJ;
    PyBaseObject_Type "object" 0, null_mut();
    PyModule_Type "module" 0, OBJ;
    PyFloat_Type "float" 0, OBJ;
    PyLong_Type "int" ffi::Py_TPFLAGS_LONG_SUBCLASS, OBJ;
    PyBool_Type "bool" ffi::Py_TPFLAGS_LONG_SUBCLASS, addr_of_mut!(PyLong_Type);
    PyList_Type "list" ffi::Py_TPFLAGS_LIST_SUBCLASS, OBJ;
    PyTuple_Type "tuple" ffi::Py_TPFLAGS_TUPLE_SUBCLASS, OBJ;
    PyDict_Type "dict" ffi::Py_TPFLAGS_DICT_SUBCLASS, OBJ;
    PyUnicode_Type "str" ffi::Py_TPFLAGS_UNICODE_SUBCLASS, OBJ;
    PyBytes_Type "bytes" ffi::Py_TPFLAGS_BYTES_SUBCLASS, OBJ;
    PyByteArray_Type "bytearray" 0, OBJ;
    PySet_Type "set" 0, OBJ;
    PyFrozenSet_Type "frozenset" 0, OBJ;
    NoneT "NoneType" 0, OBJ;
    TracebackT "traceback" 0, OBJ;
    BuiltinT "builtin_function_or_method" 0, OBJ;
    PatternT "Pattern" 0, OBJ;
    DateTimeT "datetime" 0, OBJ;
    DateT "date" 0, OBJ;
    DeltaT "timedelta" 0, OBJ;
    ZoneT "timezone" 0, OBJ;
}
macro_rules! excs {
    ($($n:ident $t:ident $s:literal, $b:expr;)*) => { $(
        pub static mut $t: Ty = ty(concat!($s, "\0").as_bytes(), ffi::Py_TPFLAGS_BASE_EXC_SUBCLASS, $b);
        #[no_mangle] pub static mut $n: O = addr_of_mut!($t) as O;
    )* };
}
excs! {
    PyExc_BaseException XBase "BaseException", OBJ;
    PyExc_Exception XExc "Exception", addr_of_mut!(XBase);
    PyExc_TypeError XType "TypeError", addr_of_mut!(XExc);
    PyExc_ValueError XValue "ValueError", addr_of_mut!(XExc);
    PyExc_SystemError XSystem "SystemError", addr_of_mut!(XExc);
    PyExc_RuntimeError XRun "RuntimeError", addr_of_mut!(XExc);
    PyExc_NotImplementedError XNotImpl "NotImplementedError", addr_of_mut!(XRun);
    PyExc_RecursionError XRec "RecursionError", addr_of_mut!(XRun);
    PyExc_OSError XOs "OSError", addr_of_mut!(XExc);
    PyExc_FileNotFoundError XNoFile "FileNotFoundError", addr_of_mut!(XOs);
    PyExc_AttributeError XAttr "AttributeError", addr_of_mut!(XExc);
    PyExc_ArithmeticError XArith "ArithmeticError", addr_of_mut!(XExc);
    PyExc_OverflowError XOver "OverflowError", addr_of_mut!(XArith);
    PyExc_LookupError XLook "LookupError", addr_of_mut!(XExc);
    PyExc_KeyError XKey "KeyError", addr_of_mut!(XLook);
    PyExc_IndexError XIndex "IndexError", addr_of_mut!(XLook);
    PyExc_ImportError XImport "ImportError", addr_of_mut!(XExc);
    PyExc_UnicodeDecodeError XUd "UnicodeDecodeError", addr_of_mut!(XValue);
    ReErrorP XRe "error", addr_of_mut!(XExc);
}

// ---- objects ---------------------------------------------------------------
#[repr(C)]
pub struct Int { b: ffi::PyObject, v: i128 }
#[repr(C)]
struct Str { b: ffi::PyObject, v: Box<[u8]> }
#[repr(C)]
struct Dict { b: ffi::PyObject, used: Sz, ver: u64, items: Vec<(O, O)> }
#[repr(C)]
struct List { b: ffi::PyVarObject, item: *mut O, allocated: Sz }
#[repr(C)]
struct Tuple { b: ffi::PyVarObject, item: [O; 4] }
#[repr(C)]
struct Exc { b: ffi::PyObject, args: O, cause: O, tb: O }
#[derive(Clone, Copy, PartialEq)]
enum M { Re, Datetime, Other }
#[repr(C)]
struct Module { b: ffi::PyObject, m: M }
#[derive(Clone, Copy, PartialEq)]
enum F { Compile, FromTimestamp, UtcFromTimestamp }
#[repr(C)]
struct Func { b: ffi::PyObject, f: F }
/// datetime, timedelta (microseconds), timezone
#[repr(C)]
struct Time { b: ffi::PyObject, us: i128, aware: bool }
#[repr(C)]
struct Pattern { b: ffi::PyObject, text: O, flags: i128 }

#[no_mangle]
pub static mut _Py_NoneStruct: ffi::PyObject = head(addr_of_mut!(NoneT));
#[no_mangle]
pub static mut _Py_TrueStruct: Int = Int { b: head(addr_of_mut!(PyBool_Type)), v: 1 };
#[no_mangle]
pub static mut _Py_FalseStruct: Int = Int { b: head(addr_of_mut!(PyBool_Type)), v: 0 };
static mut UTC: Time = Time { b: head(addr_of_mut!(ZoneT)), us: 0, aware: true };

fn h(t: *mut Ty) -> ffi::PyObject {
    let mut x = head(t);
    x.ob_refcnt.ob_refcnt = 1;
    x
}
fn vh(t: *mut Ty, n: Sz) -> ffi::PyVarObject {
    let mut x: ffi::PyVarObject = unsafe { MaybeUninit::zeroed().assume_init() };
    x.ob_base = h(t);
    x.ob_size = n;
    x
}
fn new<T>(t: T) -> O { Box::into_raw(Box::new(t)) as O }
unsafe fn inc(o: O) -> O {
    ffi::Py_XINCREF(o);
    o
}
unsafe fn is(o: O, t: *mut Ty) -> bool { sub((*o).ob_type, t) }
unsafe fn sub(mut a: *mut Ty, b: *mut Ty) -> bool {
    while !a.is_null() {
        if a == b {
            return true;
        }
        a = (*a).tp_base;
    }
    false
}
macro_rules! is {
    ($o:expr, $t:ident) => { is($o, addr_of_mut!($t)) };
}
unsafe fn text<'a>(o: O) -> &'a [u8] { &(*(o as *mut Str)).v }
fn str_(v: &[u8]) -> O { new(Str { b: h(addr_of_mut!(PyUnicode_Type)), v: v.into() }) }
fn int(v: i128) -> O { new(Int { b: h(addr_of_mut!(PyLong_Type)), v }) }

#[no_mangle]
pub unsafe extern "C" fn _Py_Dealloc(o: O) {
    let t = (*o).ob_type;
    let e = addr_of_mut!(XBase);
    if t == addr_of_mut!(PyLong_Type) { drop(Box::from_raw(o as *mut Int)) }
    else if t == addr_of_mut!(PyFloat_Type) { drop(Box::from_raw(o as *mut ffi::PyFloatObject)) }
    else if t == addr_of_mut!(PyUnicode_Type) || t == addr_of_mut!(PyBytes_Type) { drop(Box::from_raw(o as *mut Str)) }
    else if t == addr_of_mut!(PyDict_Type) {
        let d = Box::from_raw(o as *mut Dict);
        for (k, v) in d.items.iter() { ffi::Py_DECREF(*k); ffi::Py_DECREF(*v) }
    } else if t == addr_of_mut!(PyList_Type) {
        let l = Box::from_raw(o as *mut List);
        for i in 0..l.b.ob_size { ffi::Py_XDECREF(*l.item.offset(i)) }
        if !l.item.is_null() { drop(Vec::from_raw_parts(l.item, 0, l.allocated as usize)) }
    } else if t == addr_of_mut!(PyTuple_Type) {
        let l = Box::from_raw(o as *mut Tuple);
        for i in 0..l.b.ob_size as usize { ffi::Py_XDECREF(l.item[i]) }
    } else if sub(t, e) {
        let x = Box::from_raw(o as *mut Exc);
        ffi::Py_XDECREF(x.args);
        ffi::Py_XDECREF(x.cause);
        ffi::Py_XDECREF(x.tb);
    } else if t == addr_of_mut!(PyModule_Type) { drop(Box::from_raw(o as *mut Module)) }
    else if t == addr_of_mut!(BuiltinT) { drop(Box::from_raw(o as *mut Func)) }
    else if t == addr_of_mut!(PatternT) {
        let x = Box::from_raw(o as *mut Pattern);
        ffi::Py_DECREF(x.text)
    } else if t == addr_of_mut!(DateTimeT) || t == addr_of_mut!(DeltaT) { drop(Box::from_raw(o as *mut Time)) }
    else { panic!("vh_cpy: free of an unknown object") }
}

// ---- errors ----------------------------------------------------------------
static mut ERR: O = null_mut();
unsafe fn raise(t: *mut Ty, arg: O) {
    ffi::Py_XDECREF(ERR);
    ERR = new(Exc { b: h(t), args: arg, cause: null_mut(), tb: null_mut() });
}
unsafe fn fail(t: *mut Ty, m: &str) -> O {
    raise(t, str_(m.as_bytes()));
    null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_SetString(t: O, m: *const c_char) { raise(t as *mut Ty, str_(std::ffi::CStr::from_ptr(m).to_bytes())) }
#[no_mangle]
pub unsafe extern "C" fn PyErr_SetObject(t: O, v: O) { raise(t as *mut Ty, inc(v)) }
#[no_mangle]
pub unsafe extern "C" fn PyErr_SetNone(t: O) { raise(t as *mut Ty, null_mut()) }
#[no_mangle]
pub unsafe extern "C" fn PyErr_GetRaisedException() -> O { std::mem::replace(&mut ERR, null_mut()) }
#[no_mangle]
pub unsafe extern "C" fn PyErr_SetRaisedException(e: O) {
    ffi::Py_XDECREF(ERR);
    ERR = e;
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_Occurred() -> O { if ERR.is_null() { null_mut() } else { (*ERR).ob_type as O } }
#[no_mangle]
pub unsafe extern "C" fn PyErr_Clear() {
    ffi::Py_XDECREF(ERR);
    ERR = null_mut();
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_GivenExceptionMatches(e: O, t: O) -> c_int {
    let k = if is!(e, PyType_Type) { e as *mut Ty } else { (*e).ob_type };
    sub(k, t as *mut Ty) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn PyErr_ExceptionMatches(t: O) -> c_int { if ERR.is_null() { 0 } else { PyErr_GivenExceptionMatches(ERR, t) } }
#[no_mangle]
pub unsafe extern "C" fn PyErr_PrintEx(_: c_int) { PyErr_Clear() }
#[no_mangle]
pub unsafe extern "C" fn PyErr_WriteUnraisable(_: O) { PyErr_Clear() }
#[no_mangle]
pub unsafe extern "C" fn PyErr_NewExceptionWithDoc(_: *const c_char, _: *const c_char, base: O, _: O) -> O {
    new(ty(b"exception\0", ffi::Py_TPFLAGS_BASE_EXC_SUBCLASS, if base.is_null() { addr_of_mut!(XExc) } else { base as *mut Ty }))
}
#[no_mangle]
pub unsafe extern "C" fn PyException_GetTraceback(_: O) -> O { null_mut() }
#[no_mangle]
pub unsafe extern "C" fn PyException_SetTraceback(_: O, _: O) -> c_int { 0 }
#[no_mangle]
pub unsafe extern "C" fn PyException_GetCause(e: O) -> O { inc((*(e as *mut Exc)).cause) }
#[no_mangle]
pub unsafe extern "C" fn PyException_SetCause(e: O, c: O) {
    let x = e as *mut Exc;
    ffi::Py_XDECREF((*x).cause);
    (*x).cause = c;
}
#[no_mangle]
pub unsafe extern "C" fn PyTraceBack_Print(_: O, _: O) -> c_int { 0 }

// ---- interpreter -----------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn Py_IsInitialized() -> c_int { 1 }
#[no_mangle]
pub unsafe extern "C" fn PyGILState_Ensure() -> ffi::PyGILState_STATE { ffi::PyGILState_STATE::PyGILState_UNLOCKED }
#[no_mangle]
pub unsafe extern "C" fn PyGILState_Release(_: ffi::PyGILState_STATE) {}
#[no_mangle]
pub unsafe extern "C" fn PyEval_SaveThread() -> *mut c_void { 8 as *mut c_void }
#[no_mangle]
pub unsafe extern "C" fn PyEval_RestoreThread(_: *mut c_void) {}

// ---- types and attributes ----------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn PyType_IsSubtype(a: *mut Ty, b: *mut Ty) -> c_int { sub(a, b) as c_int }
#[no_mangle]
pub unsafe extern "C" fn PyType_GetFlags(a: *mut Ty) -> c_ulong { (*a).tp_flags }
#[no_mangle]
pub unsafe extern "C" fn PyType_GetName(t: *mut Ty) -> O { str_(std::ffi::CStr::from_ptr((*t).tp_name).to_bytes()) }
#[no_mangle]
pub unsafe extern "C" fn PyType_GetQualName(t: *mut Ty) -> O { PyType_GetName(t) }
#[no_mangle]
pub unsafe extern "C" fn PyObject_IsInstance(o: O, t: O) -> c_int { is(o, t as *mut Ty) as c_int }
#[no_mangle]
pub unsafe extern "C" fn PyObject_Type(o: O) -> O { inc((*o).ob_type as O) }
#[no_mangle]
pub unsafe extern "C" fn PyImport_Import(n: O) -> O {
    let m = match text(n) {
        b"re" => M::Re,
        b"datetime" => M::Datetime,
        b"builtins" => M::Other,
        _ => return fail(addr_of_mut!(XImport), "no such module"),
    };
    new(Module { b: h(addr_of_mut!(PyModule_Type)), m })
}
#[no_mangle]
pub unsafe extern "C" fn PyImport_ImportModule(n: *const c_char) -> O {
    let s = str_(std::ffi::CStr::from_ptr(n).to_bytes());
    let r = PyImport_Import(s);
    ffi::Py_DECREF(s);
    r
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_GetAttr(o: O, n: O) -> O {
    let n = text(n);
    let fun = |f| new(Func { b: h(addr_of_mut!(BuiltinT)), f });
    if is!(o, PyType_Type) {
        let t = o as *mut Ty;
        match n {
            b"__module__" => return str_(if t == addr_of_mut!(PatternT) { b"re" } else if t == addr_of_mut!(DateTimeT) || t == addr_of_mut!(DeltaT) { b"datetime" } else { b"builtins" }),
            b"__name__" | b"__qualname__" => return PyType_GetName(t),
            b"fromtimestamp" if t == addr_of_mut!(DateTimeT) => return fun(F::FromTimestamp),
            b"utcfromtimestamp" if t == addr_of_mut!(DateTimeT) => return fun(F::UtcFromTimestamp),
            b"utc" if t == addr_of_mut!(ZoneT) => return addr_of_mut!(UTC) as O,
            _ => {}
        }
    } else if is!(o, PyModule_Type) {
        let m = (*(o as *mut Module)).m;
        match (m, n) {
            (M::Re, b"compile") => return fun(F::Compile),
            (M::Re, b"I") | (M::Re, b"IGNORECASE") => return int(2),
            (M::Re, b"M") | (M::Re, b"MULTILINE") => return int(8),
            (M::Re, b"S") | (M::Re, b"DOTALL") => return int(16),
            (M::Re, b"X") | (M::Re, b"VERBOSE") => return int(64),
            (M::Re, b"Pattern") => return inc(addr_of_mut!(PatternT) as O),
            (M::Re, b"error") => return inc(addr_of_mut!(XRe) as O),
            (M::Datetime, b"datetime") => return inc(addr_of_mut!(DateTimeT) as O),
            (M::Datetime, b"date") => return inc(addr_of_mut!(DateT) as O),
            (M::Datetime, b"timedelta") => return inc(addr_of_mut!(DeltaT) as O),
            (M::Datetime, b"timezone") => return inc(addr_of_mut!(ZoneT) as O),
            (M::Datetime, b"UTC") => return addr_of_mut!(UTC) as O,
            _ => {}
        }
    } else if is!(o, PatternT) {
        let p = &*(o as *mut Pattern);
        match n {
            b"pattern" => return inc(p.text),
            b"flags" => return int(p.flags | 32),
            _ => {}
        }
    }
    fail(addr_of_mut!(XAttr), "no such attribute")
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_GetAttrString(o: O, n: *const c_char) -> O {
    let s = str_(std::ffi::CStr::from_ptr(n).to_bytes());
    let r = PyObject_GetAttr(o, s);
    ffi::Py_DECREF(s);
    r
}
unsafe fn ticks(o: O) -> Option<i128> { if is!(o, PyLong_Type) { Some((*(o as *mut Int)).v) } else { None } }
/// microseconds since the epoch or of a span: an integer times `unit`, or a
/// double times `unit`, rounded half to even like CPython does
unsafe fn micros(o: O, unit: i128) -> Result<i128, ()> {
    if let Some(v) = ticks(o) {
        return Ok(v * unit);
    }
    if is!(o, PyFloat_Type) {
        let f = (*(o as *mut ffi::PyFloatObject)).ob_fval;
        if !(f > -1e16 && f < 1e16) {
            fail(addr_of_mut!(XOver), "out of range");
            return Err(());
        }
        return Ok((f * unit as f64).round_ties_even() as i128);
    }
    fail(addr_of_mut!(XType), "a number is required");
    Err(())
}
const FIRST: i128 = -62_135_596_800_000_000;
const LAST: i128 = 253_402_300_799_999_999;
unsafe fn datetime(us: i128, aware: bool) -> O {
    if us < FIRST || us > LAST {
        return fail(addr_of_mut!(XValue), "year is out of range");
    }
    new(Time { b: h(addr_of_mut!(DateTimeT)), us, aware })
}
unsafe fn call(f: O, a: &[O], kw: &[(O, O)]) -> O {
    if is!(f, BuiltinT) {
        match (*(f as *mut Func)).f {
            F::Compile => {
                if a.is_empty() || a.len() > 2 || !is!(a[0], PyUnicode_Type) || !kw.is_empty() {
                    return fail(addr_of_mut!(XType), "compile");
                }
                // what Python's re refuses is not modelled but for these
                let t = text(a[0]);
                if t.ends_with(b"(") || t.starts_with(b"*") {
                    return fail(addr_of_mut!(XRe), "pattern");
                }
                let flags = if a.len() > 1 { match ticks(a[1]) { Some(v) => v, None => return fail(addr_of_mut!(XType), "flags") } } else { 0 };
                return new(Pattern { b: h(addr_of_mut!(PatternT)), text: inc(a[0]), flags });
            }
            k => {
                let zone = if a.len() == 2 { a[1] } else if kw.len() == 1 && text(kw[0].0) == b"tz" { kw[0].1 } else { null_mut() };
                if a.is_empty() || a.len() > 2 || kw.len() > 1 || (k == F::UtcFromTimestamp && !zone.is_null()) {
                    return fail(addr_of_mut!(XType), "fromtimestamp");
                }
                return match micros(a[0], 1_000_000) { Ok(us) => datetime(us, !zone.is_null() && is!(zone, ZoneT)), Err(()) => null_mut() };
            }
        }
    }
    if f == addr_of_mut!(DeltaT) as O {
        let mut us = 0i128;
        let names: [&[u8]; 7] = [b"days", b"seconds", b"microseconds", b"milliseconds", b"minutes", b"hours", b"weeks"];
        let units = [86_400_000_000i128, 1_000_000, 1, 1000, 60_000_000, 3_600_000_000, 604_800_000_000];
        for (i, o) in a.iter().enumerate() {
            match micros(*o, units[i]) { Ok(v) => us += v, Err(()) => return null_mut() }
        }
        for (n, o) in kw {
            match names.iter().position(|x| *x == text(*n)) {
                Some(i) => match micros(*o, units[i]) { Ok(v) => us += v, Err(()) => return null_mut() },
                None => return fail(addr_of_mut!(XType), "argument"),
            }
        }
        if us < -999_999_999 * 86_400_000_000 || us >= 1_000_000_000 * 86_400_000_000 {
            return fail(addr_of_mut!(XOver), "days");
        }
        return new(Time { b: h(addr_of_mut!(DeltaT)), us, aware: false });
    }
    if f == addr_of_mut!(DateTimeT) as O {
        // year, month, day and optional parts; only the epoch is needed
        let n = a.len();
        if n < 3 {
            return fail(addr_of_mut!(XType), "function missing required argument 'month' (pos 2)");
        }
        let mut v = [1970i128, 1, 1, 0, 0, 0, 0];
        for i in 0..n.min(7) {
            match ticks(a[i]) { Some(x) => v[i] = x, None => return fail(addr_of_mut!(XType), "an integer is required") }
        }
        if v[0] != 1970 || v[1] != 1 {
            panic!("vh_cpy: calendar is not modelled");
        }
        let zone = if n == 8 { a[7] } else if kw.len() == 1 && text(kw[0].0) == b"tzinfo" { kw[0].1 } else { null_mut() };
        return datetime(((v[2] - 1) * 86_400 + v[3] * 3600 + v[4] * 60 + v[5]) * 1_000_000 + v[6], !zone.is_null() && is!(zone, ZoneT));
    }
    if is!(f, PyType_Type) && sub(f as *mut Ty, addr_of_mut!(XBase)) {
        return new(Exc { b: h(f as *mut Ty), args: if a.is_empty() { null_mut() } else { inc(a[0]) }, cause: null_mut(), tb: null_mut() });
    }
    fail(addr_of_mut!(XType), "object is not callable")
}
unsafe fn vcall(f: O, a: *const O, n: usize, names: O) -> O {
    let n = n & !(1usize << (usize::BITS - 1));
    let pos = if n == 0 { &[][..] } else { std::slice::from_raw_parts(a, n) };
    let mut kw = Vec::new();
    if !names.is_null() {
        let t = &*(names as *mut Tuple);
        for i in 0..t.b.ob_size as usize { kw.push((t.item[i], *a.add(n + i))) }
    }
    call(f, pos, &kw)
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_Vectorcall(f: O, a: *const O, n: usize, names: O) -> O { vcall(f, a, n, names) }
#[no_mangle]
pub unsafe extern "C" fn PyObject_VectorcallDict(f: O, a: *const O, n: usize, d: O) -> O {
    let n = n & !(1usize << (usize::BITS - 1));
    let pos = if n == 0 { &[][..] } else { std::slice::from_raw_parts(a, n) };
    if d.is_null() { call(f, pos, &[]) } else { call(f, pos, &(*(d as *mut Dict)).items) }
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_VectorcallMethod(name: O, a: *const O, n: usize, names: O) -> O {
    let n = n & !(1usize << (usize::BITS - 1));
    let f = PyObject_GetAttr(*a, name);
    if f.is_null() {
        return f;
    }
    let r = vcall(f, a.add(1), n - 1, names);
    ffi::Py_DECREF(f);
    r
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_CallOneArg(f: O, a: O) -> O { call(f, &[a], &[]) }
#[no_mangle]
pub unsafe extern "C" fn PyObject_CallNoArgs(f: O) -> O { call(f, &[], &[]) }
#[no_mangle]
pub unsafe extern "C" fn PyObject_Call(f: O, a: O, kw: O) -> O {
    let t = &*(a as *mut Tuple);
    let n = t.b.ob_size as usize;
    if kw.is_null() { call(f, &t.item[..n], &[]) } else { call(f, &t.item[..n], &(*(kw as *mut Dict)).items) }
}
#[no_mangle]
pub unsafe extern "C" fn PyNumber_Add(a: O, b: O) -> O {
    if is!(a, DateTimeT) && is!(b, DeltaT) {
        let (x, y) = (&*(a as *mut Time), &*(b as *mut Time));
        let us = x.us + y.us;
        if us < FIRST || us > LAST {
            return fail(addr_of_mut!(XOver), "date value out of range");
        }
        return datetime(us, x.aware);
    }
    match (ticks(a), ticks(b)) {
        (Some(x), Some(y)) => int(x + y),
        _ => fail(addr_of_mut!(XType), "unsupported operand"),
    }
}
#[no_mangle]
pub unsafe extern "C" fn PyNumber_Or(a: O, b: O) -> O {
    match (ticks(a), ticks(b)) {
        (Some(x), Some(y)) => int(x | y),
        _ => fail(addr_of_mut!(XType), "unsupported operand"),
    }
}
/// what the harness reads of a datetime: microseconds since the epoch
pub unsafe fn datetime_parts(o: O) -> Option<(i128, bool)> {
    if is!(o, DateTimeT) { Some(((*(o as *mut Time)).us, (*(o as *mut Time)).aware)) } else { None }
}
pub unsafe fn pattern_parts(o: O) -> Option<(Vec<u8>, i128)> {
    if is!(o, PatternT) { Some((text((*(o as *mut Pattern)).text).to_vec(), (*(o as *mut Pattern)).flags)) } else { None }
}
/// an integer of any size
pub fn big(v: i128) -> O { int(v) }
pub fn none_like() -> O { new(Module { b: h(addr_of_mut!(PyModule_Type)), m: M::Other }) }

// ---- numbers -----------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromLong(v: c_long) -> O { int(v as i128) }
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromLongLong(v: c_longlong) -> O { int(v as i128) }
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromSsize_t(v: Sz) -> O { int(v as i128) }
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromSize_t(v: usize) -> O { int(v as i128) }
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromUnsignedLong(v: c_ulong) -> O { int(v as i128) }
#[no_mangle]
pub unsafe extern "C" fn PyLong_FromUnsignedLongLong(v: c_ulonglong) -> O { int(v as i128) }
unsafe fn as_int(o: O, lo: i128, hi: i128) -> Option<i128> {
    match ticks(o) {
        None => {
            fail(addr_of_mut!(XType), "'object' cannot be interpreted as an integer");
            None
        }
        Some(v) if v < lo || v > hi => {
            fail(addr_of_mut!(XOver), "Python int too large to convert to C long");
            None
        }
        v => v,
    }
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsLong(o: O) -> c_long { as_int(o, i64::MIN as i128, i64::MAX as i128).map_or(-1, |v| v as c_long) }
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsLongLong(o: O) -> c_longlong { PyLong_AsLong(o) }
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsSsize_t(o: O) -> Sz { PyLong_AsLong(o) as Sz }
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsUnsignedLongLong(o: O) -> c_ulonglong { as_int(o, 0, u64::MAX as i128).map_or(u64::MAX, |v| v as u64) }
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsLongAndOverflow(o: O, f: *mut c_int) -> c_long {
    *f = 0;
    match ticks(o) {
        None => PyLong_AsLong(o),
        Some(v) if v > i64::MAX as i128 => { *f = 1; -1 }
        Some(v) if v < i64::MIN as i128 => { *f = -1; -1 }
        Some(v) => v as c_long,
    }
}
#[no_mangle]
pub unsafe extern "C" fn PyLong_AsLongLongAndOverflow(o: O, f: *mut c_int) -> c_longlong { PyLong_AsLongAndOverflow(o, f) }
#[no_mangle]
pub unsafe extern "C" fn PyNumber_Index(o: O) -> O { if is!(o, PyLong_Type) { inc(o) } else { fail(addr_of_mut!(XType), "'object' cannot be interpreted as an integer") } }
#[no_mangle]
pub unsafe extern "C" fn PyFloat_FromDouble(v: f64) -> O {
    let mut f: ffi::PyFloatObject = MaybeUninit::zeroed().assume_init();
    f.ob_base = h(addr_of_mut!(PyFloat_Type));
    f.ob_fval = v;
    new(f)
}
#[no_mangle]
pub unsafe extern "C" fn PyFloat_AsDouble(o: O) -> f64 {
    if is!(o, PyFloat_Type) {
        return (*(o as *mut ffi::PyFloatObject)).ob_fval;
    }
    match ticks(o) {
        Some(v) => v as f64,
        None => {
            fail(addr_of_mut!(XType), "must be real number");
            -1.0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_IsTrue(o: O) -> c_int {
    if is!(o, PyLong_Type) { ((*(o as *mut Int)).v != 0) as c_int }
    else if is!(o, NoneT) { 0 }
    else if is!(o, PyDict_Type) { ((*(o as *mut Dict)).used != 0) as c_int }
    else if is!(o, PyList_Type) { ((*(o as *mut List)).b.ob_size != 0) as c_int }
    else if is!(o, PyUnicode_Type) { !text(o).is_empty() as c_int }
    else { 1 }
}

// ---- text and bytes ------------------------------------------------------------
unsafe fn raw<'a>(p: *const c_char, n: Sz) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p as *const u8, n as usize) } }
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_FromStringAndSize(p: *const c_char, n: Sz) -> O { str_(raw(p, n)) }
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_FromString(p: *const c_char) -> O { str_(std::ffi::CStr::from_ptr(p).to_bytes()) }
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_InternFromString(p: *const c_char) -> O { PyUnicode_FromString(p) }
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_InternInPlace(_: *mut O) {}
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_AsUTF8AndSize(o: O, n: *mut Sz) -> *const c_char {
    if !is!(o, PyUnicode_Type) {
        fail(addr_of_mut!(XType), "bad argument type");
        return std::ptr::null();
    }
    let t = text(o);
    if !n.is_null() { *n = t.len() as Sz }
    t.as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_AsEncodedString(o: O, _: *const c_char, _: *const c_char) -> O { PyBytes_FromStringAndSize(text(o).as_ptr() as *const c_char, text(o).len() as Sz) }
#[no_mangle]
pub unsafe extern "C" fn PyUnicode_AsUTF8String(o: O) -> O { PyUnicode_AsEncodedString(o, std::ptr::null(), std::ptr::null()) }
#[no_mangle]
pub unsafe extern "C" fn PyBytes_FromStringAndSize(p: *const c_char, n: Sz) -> O { new(Str { b: h(addr_of_mut!(PyBytes_Type)), v: raw(p, n).into() }) }
#[no_mangle]
pub unsafe extern "C" fn PyBytes_AsString(o: O) -> *mut c_char { text(o).as_ptr() as *mut c_char }
#[no_mangle]
pub unsafe extern "C" fn PyBytes_Size(o: O) -> Sz { text(o).len() as Sz }
#[no_mangle]
pub unsafe extern "C" fn PyObject_Str(o: O) -> O {
    if is!(o, PyUnicode_Type) { return inc(o) }
    if is!(o, XBase) {
        let a = (*(o as *mut Exc)).args;
        if !a.is_null() { return PyObject_Str(a) }
        return str_(b"");
    }
    str_(b"<object>")
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_Repr(_: O) -> O { str_(b"<object>") }

// ---- containers ------------------------------------------------------------------
unsafe fn same(a: O, b: O) -> bool {
    if a == b { return true }
    if is!(a, PyUnicode_Type) && is!(b, PyUnicode_Type) { return text(a) == text(b) }
    match (ticks(a), ticks(b)) { (Some(x), Some(y)) => x == y, _ => false }
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_New() -> O { new(Dict { b: h(addr_of_mut!(PyDict_Type)), used: 0, ver: 0, items: Vec::new() }) }
#[no_mangle]
pub unsafe extern "C" fn PyDict_SetItem(d: O, k: O, v: O) -> c_int {
    if !is!(d, PyDict_Type) {
        fail(addr_of_mut!(XSystem), "bad argument");
        return -1;
    }
    if is!(k, PyDict_Type) || is!(k, PyList_Type) {
        fail(addr_of_mut!(XType), "unhashable type");
        return -1;
    }
    let d = &mut *(d as *mut Dict);
    inc(v);
    for x in d.items.iter_mut() {
        if same(x.0, k) {
            let old = x.1;
            x.1 = v;
            ffi::Py_DECREF(old);
            return 0;
        }
    }
    d.items.push((inc(k), v));
    d.used += 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_SetItemString(d: O, k: *const c_char, v: O) -> c_int {
    let s = PyUnicode_FromString(k);
    let r = PyDict_SetItem(d, s, v);
    ffi::Py_DECREF(s);
    r
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_SetItem(d: O, k: O, v: O) -> c_int { PyDict_SetItem(d, k, v) }
unsafe fn get(d: O, k: O) -> O {
    for x in (*(d as *mut Dict)).items.iter() { if same(x.0, k) { return x.1 } }
    null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_GetItemWithError(d: O, k: O) -> O { get(d, k) }
#[no_mangle]
pub unsafe extern "C" fn PyDict_GetItem(d: O, k: O) -> O { get(d, k) }
#[no_mangle]
pub unsafe extern "C" fn PyDict_Contains(d: O, k: O) -> c_int { !get(d, k).is_null() as c_int }
#[no_mangle]
pub unsafe extern "C" fn PyDict_Size(d: O) -> Sz { (*(d as *mut Dict)).used }
#[no_mangle]
pub unsafe extern "C" fn PyDict_Next(d: O, pos: *mut Sz, k: *mut O, v: *mut O) -> c_int {
    let d = &*(d as *mut Dict);
    let i = *pos as usize;
    if i >= d.items.len() { return 0 }
    if !k.is_null() { *k = d.items[i].0 }
    if !v.is_null() { *v = d.items[i].1 }
    *pos += 1;
    1
}
unsafe fn list_of(v: impl Iterator<Item = O>) -> O {
    let l = PyList_New(0);
    for x in v {
        PyList_Append(l, x);
    }
    l
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_Keys(d: O) -> O { list_of((*(d as *mut Dict)).items.iter().map(|x| x.0)) }
#[no_mangle]
pub unsafe extern "C" fn PyDict_Values(d: O) -> O { list_of((*(d as *mut Dict)).items.iter().map(|x| x.1)) }
#[no_mangle]
pub unsafe extern "C" fn PyDict_Items(d: O) -> O {
    let l = PyList_New(0);
    for (k, v) in (*(d as *mut Dict)).items.iter() {
        let t = PyTuple_New(2);
        PyTuple_SetItem(t, 0, inc(*k));
        PyTuple_SetItem(t, 1, inc(*v));
        PyList_Append(l, t);
        ffi::Py_DECREF(t);
    }
    l
}
#[no_mangle]
pub unsafe extern "C" fn PyDict_Copy(d: O) -> O {
    let c = PyDict_New();
    for (k, v) in (*(d as *mut Dict)).items.iter() { PyDict_SetItem(c, *k, *v); }
    c
}
#[no_mangle]
pub unsafe extern "C" fn PyList_New(n: Sz) -> O {
    let (p, cap) = if n > 0 { let mut v = std::mem::ManuallyDrop::new(vec![null_mut::<ffi::PyObject>(); n as usize]); (v.as_mut_ptr(), v.capacity()) } else { (null_mut(), 0) };
    new(List { b: vh(addr_of_mut!(PyList_Type), n), item: p, allocated: cap as Sz })
}
#[no_mangle]
pub unsafe extern "C" fn PyList_Append(l: O, v: O) -> c_int {
    if !is!(l, PyList_Type) {
        fail(addr_of_mut!(XSystem), "bad argument");
        return -1;
    }
    let l = &mut *(l as *mut List);
    let n = l.b.ob_size as usize;
    let mut x = if l.item.is_null() { Vec::new() } else { Vec::from_raw_parts(l.item, n, l.allocated as usize) };
    x.push(inc(v));
    let mut x = std::mem::ManuallyDrop::new(x);
    l.item = x.as_mut_ptr();
    l.allocated = x.capacity() as Sz;
    l.b.ob_size += 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyList_Size(l: O) -> Sz { (*(l as *mut List)).b.ob_size }
#[no_mangle]
pub unsafe extern "C" fn PyList_GetItem(l: O, i: Sz) -> O {
    let l = &*(l as *mut List);
    if i < 0 || i >= l.b.ob_size { return fail(addr_of_mut!(XIndex), "list index out of range") }
    *l.item.offset(i)
}
#[no_mangle]
pub unsafe extern "C" fn PyList_SetItem(l: O, i: Sz, v: O) -> c_int {
    let l = &*(l as *mut List);
    if i < 0 || i >= l.b.ob_size {
        fail(addr_of_mut!(XIndex), "list assignment index out of range");
        return -1;
    }
    ffi::Py_XDECREF(*l.item.offset(i));
    *l.item.offset(i) = v;
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyTuple_New(n: Sz) -> O {
    if n > 4 { panic!("vh_cpy: long tuple") }
    new(Tuple { b: vh(addr_of_mut!(PyTuple_Type), n), item: [null_mut(); 4] })
}
#[no_mangle]
pub unsafe extern "C" fn PyTuple_SetItem(t: O, i: Sz, v: O) -> c_int {
    (*(t as *mut Tuple)).item[i as usize] = v;
    0
}
#[no_mangle]
pub unsafe extern "C" fn PyTuple_GetItem(t: O, i: Sz) -> O { (*(t as *mut Tuple)).item[i as usize] }
#[no_mangle]
pub unsafe extern "C" fn PyTuple_Size(t: O) -> Sz { (*(t as *mut Tuple)).b.ob_size }
#[no_mangle]
pub unsafe extern "C" fn PyObject_GetItem(o: O, k: O) -> O {
    if is!(o, PyDict_Type) {
        let v = get(o, k);
        return if v.is_null() { raise(addr_of_mut!(XKey), inc(k)); null_mut() } else { inc(v) };
    }
    fail(addr_of_mut!(XType), "object is not subscriptable")
}
#[no_mangle]
pub unsafe extern "C" fn PyObject_Size(o: O) -> Sz {
    if is!(o, PyDict_Type) { PyDict_Size(o) } else if is!(o, PyList_Type) { PyList_Size(o) } else if is!(o, PyUnicode_Type) { std::str::from_utf8(text(o)).map_or(0, |s| s.chars().count()) as Sz } else { fail(addr_of_mut!(XType), "len"); -1 }
}
