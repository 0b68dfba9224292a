//! Encodings of library values into JSON that TLC can read: every integer fits in
//! 32 bits (u32 is logged as its two's complement i32), floats are logged as
//! fixed point (x 10^4) or as bit patterns.
use libopenraw::metadata::Value;
use libopenraw::tiff::exif;
use libopenraw::*;
use serde_json::{json, Value as J};

pub fn u(v: u32) -> i32 {
    v as i32
}

/// fixed point x 10^4. NaN and out of range have sentinels.
pub fn q(v: f64) -> i32 {
    if v.is_nan() {
        return i32::MAX;
    }
    let r = (v * 10000.0).round();
    if r.abs() >= 2147483000.0 {
        return i32::MAX - 1;
    }
    r as i32
}

pub fn err(e: &Error) -> J {
    let s = match e {
        Error::None => "None",
        Error::Unimplemented => "Unimplemented",
        Error::UnrecognizedFormat => "UnrecognizedFormat",
        Error::NotSupported => "NotSupported",
        Error::NotFound => "NotFound",
        Error::BufferTooSmall => "BufferTooSmall",
        Error::UnexpectedEOF => "UnexpectedEOF",
        Error::IoError(_) => "IoError",
        Error::FormatError => "FormatError",
        Error::AlreadyInited => "AlreadyInited",
        Error::InvalidParam => "InvalidParam",
        Error::InvalidFormat => "InvalidFormat",
        Error::Decompression(_) => "Decompression",
        Error::Mp4Parse(_) => "Mp4Parse",
        Error::JpegFormat(_) => "JpegFormat",
        Error::BitReaderError(_) => "BitReaderError",
        Error::InvalidAddress => "InvalidAddress",
        Error::Other(_) => "Other",
        Error::Unknown => "Unknown",
    };
    json!({"st": "err", "err": s})
}

pub fn dt(t: DataType) -> String {
    String::from(t)
}

pub fn value(v: &Value) -> (&'static str, J) {
    match v {
        Value::Int(a) => ("int", json!(a.iter().map(|x| u(*x)).collect::<Vec<_>>())),
        Value::SInt(a) => ("sint", json!(a)),
        Value::String(a) => ("str", json!(a)),
        Value::Float(a) => (
            "float",
            json!(a.iter().map(|x| x.to_bits() as i32).collect::<Vec<_>>()),
        ),
        Value::Double(a) => (
            "double",
            json!(a
                .iter()
                .flat_map(|x| {
                    let b = x.to_bits();
                    [(b >> 32) as u32 as i32, b as u32 as i32]
                })
                .collect::<Vec<_>>()),
        ),
        Value::Rational(a) => (
            "rat",
            json!(a.iter().flat_map(|x| [u(x.num), u(x.denom)]).collect::<Vec<_>>()),
        ),
        Value::SRational(a) => (
            "srat",
            json!(a.iter().flat_map(|x| [x.num, x.denom]).collect::<Vec<_>>()),
        ),
        Value::Bytes(a) => ("bytes", json!(a)),
        Value::SBytes(a) => ("sbytes", json!(a)),
        Value::Invalid(a) => ("invalid", json!(a)),
    }
}

/// Full description of a metadata value. The text forms are omitted for float
/// kinds (TLC cannot format floats).
pub fn full_value(v: &Value) -> J {
    let (k, a) = value(v);
    let text = !matches!(v, Value::Float(_) | Value::Double(_));
    json!({
        "k": k, "v": a, "n": v.count() as i32,
        "full": if text { v.into_string(true) } else { String::new() },
        "short": if text { v.into_string(false) } else { String::new() },
        "int": match guard(|| v.integer()) { Ok(Some(i)) => json!([u(i)]), Ok(None) => json!([]), Err(_) => json!(["panic"]) },
        "rat": match guard(|| v.rational()) { Ok(Some(r)) => json!([u(r.num), u(r.denom)]), Ok(None) => json!([]), Err(_) => json!(["panic"]) },
        "s": match v.string() { Some(s) => json!([s]), None => json!([]) },
    })
}

pub fn guard<R>(f: impl FnOnce() -> R) -> std::result::Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }),
    }
}

pub fn rect(r: Option<&Rect>) -> J {
    match r {
        None => json!([]),
        Some(r) => json!([u(r.x), u(r.y), u(r.width), u(r.height)]),
    }
}

pub fn light(l: exif::LightsourceValue) -> i32 {
    l as u32 as i32
}
