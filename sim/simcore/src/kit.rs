//! Shared pieces of scenarios: formatting into failing sinks, storing through faulty streams,
//! restoring from damaged data.
use crate::io::{damage, ByteSink, ByteSource, Fail, TextSink};
use crate::sim::*;
use crate::log;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use std::fmt::{self, Debug, Display};
use std::sync::Arc;

pub type Render = Arc<dyn Fn(&mut dyn fmt::Write) -> fmt::Result + Send + Sync>;

/// The two texts of an object, written into a given sink.
pub fn renders<T: Display + Debug + Send + Sync + 'static>(x: Arc<T>) -> Vec<(&'static str, Render)> {
    let (a, b, c) = (x.clone(), x.clone(), x);
    vec![
        ("Display", Arc::new(move |w: &mut dyn fmt::Write| write!(w, "{}", a))),
        ("Debug", Arc::new(move |w: &mut dyn fmt::Write| write!(w, "{:?}", b))),
        ("Debug#", Arc::new(move |w: &mut dyn fmt::Write| write!(w, "{:#?}", c))),
    ]
}

pub fn full_text(name: &str, r: &Render) -> String {
    let mut s = TextSink::new(None);
    match sut(name, || r(&mut s)) {
        Ok(Ok(())) => s.buf,
        Ok(Err(_)) => {
            violation(&format!("{}: error from a sink that never fails", name), s.buf.clone());
            s.buf
        },
        Err(c) => {
            violation(&format!("{}: panicked", name), format!("{:?} after {:?}", c, s.buf));
            s.buf
        },
    }
}

/// Write into sinks that fail; the text before and after must be the same.
pub fn failing_sinks(name: &str, r: &Render) -> String {
    let text = full_text(name, r);
    note(hash_bytes(text.as_bytes()));
    let n = text.len();
    let ks: Vec<usize> = if n <= 40 && chance(1, 2) { (0..=n).collect() } else { (0..4).map(|_| choose(n + 1)).chain([0, n, n.saturating_sub(1)]).collect() };
    for k in ks {
        let mut k = k.min(n);
        while !text.is_char_boundary(k) {
            k -= 1;
        }
        let mut s = TextSink::new(Some(k));
        match sut(name, || r(&mut s)) {
            Ok(res) => {
                if k < n {
                    check(res.is_err(), || format!("{}: sink failure not reported", name), || format!("sink failed at byte {} of {:?}", k, text));
                    check(s.buf == text[..k], || format!("{}: not a prefix", name), || format!("sink failing at byte {} received {:?} of {:?}", k, s.buf, text));
                } else {
                    check(res.is_ok() && s.buf == text, || format!("{}: text not repeatable", name), || format!("first {:?}, then {:?}", text, s.buf));
                }
            },
            Err(c) => violation(&format!("{}: panicked on a failing sink", name), format!("at byte {} of {:?}: {:?}", k, text, c)),
        }
    }
    // a byte stream with short writes, interruptions and a full device
    struct Adapter<'a>(&'a mut ByteSink);
    impl fmt::Write for Adapter<'_> {
        fn write_str(&mut self, s: &str) -> fmt::Result { std::io::Write::write_all(self.0, s.as_bytes()).map_err(|_| fmt::Error) }
    }
    let fail = if chance(1, 2) { Some((choose(n + 2), if chance(1, 2) { Fail::Full } else { Fail::Error })) } else { None };
    let mut s = ByteSink { buf: vec![], fail_at: fail, chunks: true, failed: false, interrupts: true };
    let res = sut(name, || r(&mut Adapter(&mut s)));
    match res {
        Ok(res) => {
            check(res.is_err() == s.failed, || format!("{}: stream failure not reported", name), || format!("failing {:?}: {:?}", fail, res));
            let ok = if s.failed { text.as_bytes().starts_with(&s.buf) } else { s.buf == text.as_bytes() };
            check(ok, || format!("{}: not a prefix", name), || format!("stream received {:?} of {:?}", String::from_utf8_lossy(&s.buf), text));
        },
        Err(c) => violation(&format!("{}: panicked on a failing sink", name), format!("{:?}", c)),
    }
    let again = full_text(name, r);
    check(again == text, || format!("{}: text not repeatable", name), || format!("first {:?}, then {:?}", text, again));
    text
}


// --- storing and restoring -----------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Format {
    Bincode,
    Json,
}
pub fn any_format() -> Format { if choose(2) == 0 { Format::Bincode } else { Format::Json } }

pub fn encode<T: Serialize>(f: Format, x: &T, w: &mut ByteSink) -> Result<(), String> {
    match f {
        Format::Bincode => bincode::serialize_into(w, x).map_err(|e| callback(|| e.to_string())),
        Format::Json => serde_json::to_writer(w, x).map_err(|e| callback(|| e.to_string())),
    }
}
pub fn decode<T: DeserializeOwned>(f: Format, r: &mut ByteSource) -> Result<T, String> {
    match f {
        Format::Bincode => bincode::deserialize_from(r).map_err(|e| callback(|| e.to_string())),
        Format::Json => serde_json::from_reader(r).map_err(|e| callback(|| e.to_string())),
    }
}
pub fn plain_sink() -> ByteSink { ByteSink { buf: vec![], fail_at: None, chunks: false, failed: false, interrupts: false } }

/// Encode without faults; None after a (listed) violation.
pub fn stored<T: Serialize>(name: &str, f: Format, x: &T) -> Option<Vec<u8>> {
    let mut s = plain_sink();
    match sut(name, || encode(f, x, &mut s)) {
        Ok(Ok(())) => Some(s.buf),
        Ok(Err(e)) => {
            violation(&format!("{}: cannot be stored", name), format!("{:?}: {}", f, e));
            None
        },
        Err(c) => {
            violation(&format!("{}: storing panicked", name), format!("{:?}: {:?}", f, c));
            None
        },
    }
}

/// Write through faulty streams and read back; `same` compares with the original. `json` tells
/// whether the value can be represented in that format. Returns the restored value.
pub fn roundtrip<T: Serialize + DeserializeOwned>(name: &str, x: &T, json: bool, same: &dyn Fn(&T) -> Result<(), String>) -> Option<T> {
    let f = if json { any_format() } else { Format::Bincode };
    let clean = stored(name, f, x)?;
    note(hash_bytes(&clean));
    // writing into a device that fills up or fails
    let n = clean.len();
    for _ in 0..1 + choose(3) {
        let kind = if chance(1, 2) { Fail::Full } else { Fail::Error };
        let fail_at = if chance(2, 3) { Some((choose(n + 2), kind)) } else { None };
        let mut s = ByteSink { buf: vec![], fail_at, chunks: true, failed: false, interrupts: chance(1, 2) };
        let r = sut(name, || encode(f, x, &mut s));
        match r {
            Ok(r) => {
                let must_fail = fail_at.map_or(false, |(k, _)| k < n);
                if must_fail {
                    check(r.is_err(), || format!("{}: cut short without an error", name), || format!("{:?}: device failed after {:?} of {} bytes, the write reported success", f, fail_at, n));
                    check(clean.starts_with(&s.buf), || format!("{}: not a prefix", name), || format!("{:?}: wrote {:?}, whole is {:?}", f, s.buf, clean));
                } else {
                    check(r.is_ok() && s.buf == clean, || format!("{}: stored differently", name), || format!("{:?}: first {:?}, then {:?} ({:?})", f, clean, s.buf, r));
                }
            },
            Err(c) => violation(&format!("{}: storing panicked", name), format!("{:?} {:?}: {:?}", f, fail_at, c)),
        }
    }
    // reading from a device that fails
    if n > 0 && chance(1, 2) {
        let k = choose(n);
        let mut r = ByteSource { data: clean.clone(), pos: 0, chunks: true, interrupts: true, fail_at: Some(k), failed: false };
        match sut(name, || decode::<T>(f, &mut r).map(|_| ())) {
            Ok(x) => {
                // a JSON number may end where the stream fails only if nothing was left to read
                check(x.is_err(), || format!("{}: restored from a failing stream", name), || format!("{:?}: the stream failed at byte {} of {}", f, k, n));
            },
            Err(c) => violation(&format!("{}: restoring panicked", name), format!("{:?} failing at {}: {:?}", f, k, c)),
        }
    }
    let mut r = ByteSource { data: clean.clone(), pos: 0, chunks: chance(2, 3), interrupts: chance(1, 2), fail_at: None, failed: false };
    match sut(name, || decode::<T>(f, &mut r)) {
        Ok(Ok(y)) => {
            let ok = same(&y);
            check(ok.is_ok(), || format!("{}: restored differently", name), || format!("{:?}: {}", f, ok.clone().unwrap_err()));
            check(r.pos == n, || format!("{}: stored bytes left over", name), || format!("{:?}: read {} of {}", f, r.pos, n));
            if let Some(b) = stored(name, f, &y) {
                check(b == clean, || format!("{}: stored differently after restoring", name), || format!("{:?}: {:?} then {:?}", f, clean, b));
            }
            Some(y)
        },
        Ok(Err(e)) => {
            violation(&format!("{}: cannot be restored", name), format!("{:?}: {} from {:?}", f, e, String::from_utf8_lossy(&clean)));
            None
        },
        Err(c) => {
            violation(&format!("{}: restoring panicked", name), format!("{:?}: {:?}", f, c));
            None
        },
    }
}

fn nodes(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(path.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                nodes(x, path, out);
                path.pop();
            }
        },
        Value::Object(m) => {
            for (k, x) in m {
                path.push(k.clone());
                nodes(x, path, out);
                path.pop();
            }
        },
        _ => {},
    }
}
fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut v = v;
    for p in path {
        v = if v.is_array() { &mut v[p.parse::<usize>().unwrap()] } else { &mut v[p.as_str()] };
    }
    v
}

fn bad_scalar() -> Value {
    let xs: [Value; 14] = [
        (-1.0).into(), 0.0.into(), (-0.5).into(), 1.0000000000000002.into(), 2.0.into(), (-1i64).into(), 0i64.into(), 1e300.into(), Value::Null,
        Value::String("1".into()), Value::Bool(true), Value::Array(vec![]), u64::MAX.into(), (-1e300).into(),
    ];
    pick(&xs).clone()
}

/// Damage a stored document at the level of its structure.
pub fn damage_document(v: &mut Value) -> String {
    let mut all = vec![];
    nodes(v, &mut vec![], &mut all);
    let p = pick(&all).clone();
    let n = at(v, &p);
    let what = match n {
        Value::Array(a) => {
            let k = a.len();
            match choose(5) {
                0 => { a.pop(); "element-lost" },
                1 => { let x = a.first().cloned().unwrap_or(1.0.into()); a.push(x); "element-added" },
                2 if k > 1 => { let (i, j) = (choose(k), choose(k)); a.swap(i, j); "elements-reordered" },
                3 if k > 0 => { let i = choose(k); a[i] = bad_scalar(); "element-replaced" },
                _ => { a.clear(); "array-emptied" },
            }
        },
        Value::Object(m) => {
            let ks: Vec<String> = m.keys().cloned().collect();
            match choose(3) {
                0 if !ks.is_empty() => { m.remove(pick(&ks).as_str()); "field-lost" },
                1 if ks.len() > 1 => {
                    let (a, b) = (pick(&ks).clone(), pick(&ks).clone());
                    let (x, y) = (m[&a].clone(), m[&b].clone());
                    m.insert(a, y);
                    m.insert(b, x);
                    "fields-swapped"
                },
                _ => { m.insert("extra".into(), 1.0.into()); "field-added" },
            }
        },
        other => { *other = bad_scalar(); "scalar-replaced" },
    };
    fault(&format!("document-{}", what));
    format!("{} at {:?}", what, p)
}

/// Restore from damaged data: an error, or a value `admit` accepts; never a panic.
pub fn damaged<T: Serialize + DeserializeOwned>(name: &str, x: &T, json: bool, admit: &dyn Fn(&T) -> Result<(), String>) {
    let f = if json { any_format() } else { Format::Bincode };
    let Some(clean) = stored(name, f, x) else { return };
    let mut data = clean.clone();
    let mut what = vec![];
    if f == Format::Json && chance(2, 3) {
        if let Ok(mut v) = serde_json::from_slice::<Value>(&data) {
            for _ in 0..1 + choose(2) {
                what.push(damage_document(&mut v));
            }
            data = serde_json::to_vec(&v).unwrap();
        }
    } else {
        for _ in 0..1 + choose(3) {
            what.push(damage(&mut data));
        }
    }
    restore_bytes(name, f, data, &format!("{:?}", what), admit)
}

pub fn restore_bytes<T: DeserializeOwned>(name: &str, f: Format, data: Vec<u8>, what: &str, admit: &dyn Fn(&T) -> Result<(), String>) {
    log!("restore {} from {:?} {}", name, f, what);
    let show = if f == Format::Json { String::from_utf8_lossy(&data).to_string() } else { format!("{:02x?}", data) };
    let mut r = ByteSource { data, pos: 0, chunks: chance(1, 2), interrupts: chance(1, 3), fail_at: None, failed: false };
    match sut(name, || decode::<T>(f, &mut r)) {
        Ok(Ok(y)) => {
            probe("damaged-data-accepted");
            let ok = admit(&y);
            check(ok.is_ok(), || format!("{}: restored an invalid value", name), || format!("{:?} after {}: {} gives {}", f, what, show, ok.clone().unwrap_err()));
        },
        Ok(Err(_)) => {
            probe("damaged-data-refused");
            evals(1);
        },
        Err(c) => violation(&format!("{}: restoring panicked", name), format!("{:?} after {}: {} gives {:?}", f, what, show, c)),
    }
}

/// Restore from a document with the wrong number of elements at one array: must be an error.
pub fn wrong_length<T: Serialize + DeserializeOwned>(name: &str, x: &T) {
    let Some(clean) = stored(name, Format::Json, x) else { return };
    let Ok(mut v) = serde_json::from_slice::<Value>(&clean) else { return };
    let mut all = vec![];
    nodes(&v, &mut vec![], &mut all);
    let arrays: Vec<Vec<String>> = all.into_iter().filter(|p| at(&mut v, p).is_array()).collect();
    if arrays.is_empty() {
        return;
    }
    let p = pick(&arrays).clone();
    let (before, after);
    if let Value::Array(a) = at(&mut v, &p) {
        before = a.len();
        let k = choose(before + 4);
        let filler = a.first().cloned().unwrap_or(1.0.into());
        a.resize(k, filler);
        after = k;
    } else {
        return;
    }
    if before == after {
        return;
    }
    fault("document-wrong-length");
    let data = serde_json::to_vec(&v).unwrap();
    let mut r = ByteSource::plain(data);
    match sut(name, || decode::<T>(Format::Json, &mut r).is_ok()) {
        Ok(ok) => {
            check(!ok, || format!("{}: restored from the wrong number of elements", name), || format!("{} elements instead of {}: {}", after, before, v));
        },
        Err(c) => violation(&format!("{}: restoring panicked", name), format!("{}: {:?}", v, c)),
    }
}
