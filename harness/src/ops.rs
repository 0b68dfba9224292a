use crate::enc::*;
use byteorder::{BigEndian, LittleEndian};
use libopenraw::tiff::exif;
use libopenraw::tiff::Ifd;
use libopenraw::*;
use serde_json::{json, Value as J};
use std::convert::TryFrom;

pub fn bytes_of(v: &J) -> Vec<u8> {
    match v {
        J::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        J::String(s) => (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect(),
        _ => panic!("bad bytes"),
    }
}

pub fn type_from(s: &str) -> Type {
    match s {
        "RW" => Type::Rw,
        "JPEG" => Type::Jpeg,
        "TIF" => Type::Tiff,
        _ => Type::from(s),
    }
}

pub fn guarded(f: impl FnOnce() -> J) -> J {
    match guard(f) {
        Ok(j) => j,
        Err(m) => json!({"st": "panic", "msg": m}),
    }
}

static SCRATCH: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

pub fn scratch_file(bytes: &[u8], name: &str) -> std::path::PathBuf {
    let n = SCRATCH.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let base = std::env::var("LOR_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let dir = std::path::PathBuf::from(base).join(format!("lor-{}-{}", std::process::id(), n));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join(name);
    std::fs::write(&p, bytes).unwrap();
    p
}

pub fn unscratch(p: &std::path::Path) {
    let _ = std::fs::remove_file(p);
    if let Some(d) = p.parent() {
        let _ = std::fs::remove_dir(d);
    }
}

/// mode: "mem" | "io" | "path:NAME"
pub fn open(bytes: Vec<u8>, mode: &str, hint: Option<Type>) -> Result<RawFileHandle> {
    if mode == "mem" {
        rawfile_from_memory(bytes, hint)
    } else if mode == "io" {
        rawfile_from_io(Box::new(std::io::Cursor::new(bytes)), hint)
    } else if let Some(at) = mode.strip_prefix("io@") {
        // a reader that isn't at its start
        let mut c = std::io::Cursor::new(bytes);
        c.set_position(at.parse().unwrap());
        rawfile_from_io(Box::new(c), hint)
    } else {
        let p = scratch_file(&bytes, &mode[5..]);
        let r = rawfile_from_file(&p, hint);
        unscratch(&p);
        r
    }
}

pub fn run_session(case: &J) -> (J, J) {
    let bytes = bytes_of(&case["file"]);
    let mode = case.get("mode").and_then(|m| m.as_str()).unwrap_or("mem");
    let hint = case
        .get("hint")
        .and_then(|m| m.as_str())
        .filter(|s| !s.is_empty())
        .map(type_from);
    let bytes2 = bytes.clone();
    let r = guard(|| open(bytes, mode, hint));
    match r {
        Err(m) => (json!({"st": "panic", "msg": m}), json!([])),
        Ok(Err(e)) => (err(&e), json!([])),
        Ok(Ok(h)) => {
            let mut obs = vec![];
            // "fresh": every query on its own handle
            let fresh = case.get("fresh").and_then(|m| m.as_bool()).unwrap_or(false);
            for op in case["ops"].as_array().unwrap() {
                if fresh {
                    let r = guard(|| open(bytes2.clone(), mode, hint));
                    if let Ok(Ok(h)) = r {
                        obs.push(guarded(|| run_op(&h, op)));
                    } else {
                        obs.push(json!({"st": "reopen-failed"}));
                    }
                } else {
                    obs.push(guarded(|| run_op(&h, op)));
                }
            }
            // dropping must not crash either
            let d = guard(move || drop(h));
            if d.is_err() {
                obs.push(json!({"st": "panic", "msg": "drop"}));
            }
            (json!({"st": "ok"}), J::Array(obs))
        }
    }
}

pub fn hash(b: &[u8]) -> i32 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    ((h >> 33) as i32) & 0x7fffffff
}

pub fn image(r: &RawImage, with_data: bool) -> J {
    let (k, d) = if let Some(t) = r.tile_data() {
        ("tiled", json!(t))
    } else if let Some(d) = r.data16() {
        ("16", json!(d))
    } else if let Some(d) = r.data8() {
        ("8", json!(d))
    } else {
        ("none", json!([]))
    };
    let cm = |i: usize| match r.colour_matrix(i) {
        Some(m) => {
            json!({"i": light(m.illuminant), "m": m.matrix.iter().map(|v| q(*v)).collect::<Vec<_>>()})
        }
        None => json!({"i": -1, "m": []}),
    };
    let p = r.mosaic_pattern();
    json!({
        "st": "ok",
        "w": u(r.width()), "h": u(r.height()), "bpc": r.bpc(), "dt": dt(r.data_type()),
        "dk": k, "data": if with_data { d } else { json!([]) }, "size": r.data_size() as i32,
        "tsz": match r.tile_size() { Some((a, b)) => json!([u(a), u(b)]), None => json!([]) },
        "aa": rect(r.active_area()), "crop": rect(r.user_crop()),
        "ar": match r.user_aspect_ratio() { Some(a) => json!([u(a.0), u(a.1)]), None => json!([]) },
        "out": [u(r.output_size().width), u(r.output_size().height)],
        "blacks": r.blacks(), "whites": r.whites(),
        "photom": r.photometric_interpretation() as u32 as i32,
        "comp": r.compression() as u32 as i32,
        "wb": match r.as_shot_neutral() { Some(a) => json!(a.iter().map(|v| q(*v)).collect::<Vec<_>>()), None => json!([]) },
        "wxy": match r.as_shot_white_xy() { Some((a, b)) => json!([q(a), q(b)]), None => json!([]) },
        "cfa": p.to_string(), "cfaw": p.width() as i32, "cfah": p.height() as i32,
        "cfap": p.pattern().iter().map(|c| *c as u8).collect::<Vec<_>>(),
        "lin": match r.linearization_table() { Some(t) => json!(t), None => json!([]) },
        "cm1": cm(1), "cm2": cm(2),
    })
}


macro_rules! vals {
    ($dir:expr, $e:expr, $t:ty, $f:expr) => {{
        let mut out: Vec<i32> = vec![];
        for i in 0..100_000u32 {
            match $dir.entry_value::<$t>($e, i) {
                Some(v) => out.extend($f(v)),
                None => break,
            }
        }
        out
    }};
}

/// All the entries of a directory, through the public typed accessors.
/// The kind is the TIFF type the entry answers to.
macro_rules! dir_entries {
    ($dir:expr) => {{
        let dir = $dir;
        let mut list = vec![];
        for tag in 0..=65535u16 {
            if let Some(e) = dir.entry(tag) {
                list.push(guarded(|| {
                    let (k, v): (&str, Vec<i32>) =
                        if let Some(b) = dir.entry_value::<Vec<u8>>(e, 0) {
                            ("undef", b.iter().map(|x| *x as i32).collect())
                        } else if let Some(s) = dir.entry_value::<String>(e, 0) {
                            ("ascii", s.bytes().map(|x| x as i32).collect())
                        } else {
                            let b = vals!(dir, e, u8, |v: u8| [v as i32]);
                            let s = vals!(dir, e, u16, |v: u16| [v as i32]);
                            let l = vals!(dir, e, u32, |v: u32| [v as i32]);
                            let r = vals!(dir, e, exif::Rational, |v: exif::Rational| [
                                u(v.num),
                                u(v.denom)
                            ]);
                            let sb = vals!(dir, e, i8, |v: i8| [v as i32]);
                            let ss = vals!(dir, e, i16, |v: i16| [v as i32]);
                            let sl = vals!(dir, e, i32, |v: i32| [v]);
                            let sr = vals!(dir, e, exif::SRational, |v: exif::SRational| [
                                v.num, v.denom
                            ]);
                            let f = vals!(dir, e, f32, |v: f32| [v.to_bits() as i32]);
                            let d = vals!(dir, e, f64, |v: f64| {
                                let b = v.to_bits();
                                [(b >> 32) as u32 as i32, b as u32 as i32]
                            });
                            let mut c = vec![
                                ("byte", b), ("short", s), ("long", l), ("rat", r), ("sbyte", sb),
                                ("sshort", ss), ("slong", sl), ("srat", sr), ("float", f), ("double", d),
                            ];
                            c.retain(|x| !x.1.is_empty());
                            if c.len() > 1 {
                                ("ambiguous", vec![])
                            } else {
                                c.pop().unwrap_or(("none", vec![]))
                            }
                        };
                    let uv = match dir.endian() {
                        _ => match dir.uint_value(tag) { Some(v) => json!([u(v)]), None => json!([]) },
                    };
                    let ua = match dir.uint_value_array(tag) { Some(v) => json!({"some": true, "v": v.iter().map(|x| u(*x)).collect::<Vec<_>>()}), None => json!({"some": false, "v": []}) };
                    let ia = match dir.int_value_array(tag) { Some(v) => json!({"some": true, "v": v}), None => json!({"some": false, "v": []}) };
                    let fa = match dir.float_value_array(tag) { Some(v) => json!({"some": true, "v": v.iter().map(|x| q(*x)).collect::<Vec<_>>()}), None => json!({"some": false, "v": []}) };
                    let sv = match e.string_value() { Some(s) => json!([s]), None => json!([]) };
                    json!({"st": "ok", "tag": tag, "k": k, "v": v, "uv": uv, "ua": ua, "ia": ia, "fa": fa, "s": sv, "name": dir.tag_name(tag)})
                }));
            }
        }
        let id = String::from_utf8_lossy(dir.id()).trim_end_matches('\0').to_string();
        json!({"st": "ok", "n": dir.num_entries() as i32, "id": id, "next": u(dir.next_ifd()),
               "le": matches!(format!("{:?}", dir.endian()).as_str(), "Little"),
               "type": format!("{:?}", dir.ifd_type()), "entries": list})
    }};
}

fn opt_none() -> J {
    json!({"st": "none"})
}

pub fn run_op(h: &RawFileHandle, op: &J) -> J {
    let name = op[0].as_str().unwrap();
    match name {
        "type" => json!({"st": "ok", "t": String::from(h.type_()), "mime": h.mime_type()}),
        "ids" => match h.type_id() {
            Ok(id) => {
                let v: u32 = id.into();
                let vid = h.vendor_id().map(|v| v as i32).unwrap_or(-1);
                json!({"st": "ok", "v": (v >> 16) as i32, "c": (v & 0xffff) as i32, "vid": vid})
            }
            Err(e) => err(&e),
        },
        "sizes" => match h.thumbnail_sizes() {
            Some(s) => json!({"st": "ok", "sizes": s.iter().map(|v| u(*v)).collect::<Vec<_>>()}),
            None => opt_none(),
        },
        "thumb" => {
            let sz = op[1].as_i64().unwrap() as u32;
            match h.thumbnail(sz) {
                Ok(t) => {
                    let d = t.data8().unwrap_or(&[]);
                    json!({"st": "ok", "w": u(t.width()), "h": u(t.height()), "dt": dt(t.data_type()),
                           "bpc": t.bpc(), "size": t.data_size() as i32, "data": d})
                }
                Err(e) => err(&e),
            }
        }
        "raw" => match h.raw_data(op[1].as_bool().unwrap()) {
            Ok(r) => image(&r, op.get(2).map(|v| v.as_bool().unwrap()).unwrap_or(true)),
            Err(e) => err(&e),
        },
        "render" => {
            let stage = RenderingStage::try_from(op[1].as_u64().unwrap() as u32).unwrap();
            let space = ColourSpace::try_from(op[2].as_u64().unwrap() as u32).unwrap();
            let o = RenderingOptions::default().with_stage(stage).with_target(space);
            match h.rendered_image(o) {
                Ok(r) => image(&r, true),
                Err(e) => err(&e),
            }
        }
        "ifd" => {
            let d = match op[1].as_str().unwrap() {
                "main" => h.main_ifd(),
                "exif" => h.exif_ifd(),
                "mnote" => h.maker_note_ifd(),
                _ => panic!(),
            };
            match d {
                None => opt_none(),
                Some(d) => dir_entries!(d),
            }
        }
        "meta" => match h.metadata() {
            None => opt_none(),
            Some(it) => {
                let l: Vec<J> = it
                    .map(|(k, v, t)| json!({"key": k, "type": t, "val": full_value(&v)}))
                    .collect();
                json!({"st": "ok", "list": l})
            }
        },
        "get" => match h.metadata_value(op[1].as_str().unwrap()) {
            Some(v) => json!({"st": "ok", "val": full_value(&v)}),
            None => opt_none(),
        },
        "orient" => json!({"st": "ok", "v": u(h.orientation())}),
        "cal" => {
            let l: Vec<J> = (0..4usize)
                .map(|i| {
                    json!({"i": light(h.calibration_illuminant(i)), "m": match h.colour_matrix(i) {
                        Ok((o, m)) => json!({"st": "ok", "o": o as i32, "m": m.iter().map(|v| q(*v)).collect::<Vec<_>>()}),
                        Err(e) => err(&e),
                    }})
                })
                .collect();
            json!({"st": "ok", "list": l})
        }
        "dump" => {
            let mut b: Vec<u8> = vec![];
            h.dump_file(&mut b);
            if op.get(1).is_some() {
                let s = String::from_utf8_lossy(&b).to_string();
                json!({"st": "ok", "text": s.lines().collect::<Vec<_>>()})
            } else {
                json!({"st": "ok", "hash": hash(&b), "n": b.len() as i32})
            }
        }
        "hash" => {
            // a digest of the answer to another query
            let inner = guarded(|| run_op(h, &op[1]));
            json!({"st": "ok", "hash": hash(inner.to_string().as_bytes()), "inner": inner["st"]})
        }
        _ => panic!("unknown op {name}"),
    }
}

pub fn run_direct(d: &J) -> J {
    guarded(|| match d["fn"].as_str().unwrap() {
        "ljpeg" => {
            let data = bytes_of(&d["data"]);
            let raw = d["raw"].as_bool().unwrap_or(true);
            let mut dec = LJpeg::new(raw);
            if let Some(s) = d.get("slices").and_then(|v| v.as_array()) {
                let s: Vec<u32> = s.iter().map(|v| v.as_u64().unwrap() as u32).collect();
                if !s.is_empty() {
                    dec.set_slices(&s);
                }
            }
            let tiled = d["tiled"].as_bool().unwrap_or(false);
            match dec.decompress_buffer(&data, tiled, &None) {
                Ok(t) => json!({"st": "ok", "w": u(t.width), "h": u(t.height), "bpc": t.bpc, "data": t.buf}),
                Err(e) => err(&e),
            }
        }
        "olympus" => {
            let data = bytes_of(&d["data"]);
            let w = d["w"].as_u64().unwrap() as usize;
            let h = d["h"].as_u64().unwrap() as usize;
            match decompress_olympus(&data, w, h) {
                Ok(t) => json!({"st": "ok", "w": w as i32, "h": h as i32, "data": t}),
                Err(e) => err(&e),
            }
        }
        "registry" => {
            let mut ext: Vec<String> = extensions().to_vec();
            ext.sort();
            let mimes: Vec<J> = mime_types()
                .iter()
                .map(|m| json!({"m": m, "t": type_for_mime_type(m).map(String::from).unwrap_or_default()}))
                .collect();
            json!({"st": "ok", "ext": ext, "mimes": mimes,
                   "unk": type_for_mime_type(d["arg"].as_str().unwrap_or("")).map(String::from).unwrap_or_default()})
        }
        "aspect" => {
            let a = |i: usize| d["a"][i].as_u64().unwrap() as u32;
            let r = AspectRatio(a(0), a(1)).crop_into(&Rect::new(
                Point { x: a(2), y: a(3) },
                Size { width: a(4), height: a(5) },
            ));
            json!({"st": "ok", "r": rect(Some(&r))})
        }
        "rgb" => {
            // render a synthetic raw image through the public RawImage API
            render_direct(d)
        }
        o => panic!("unknown direct {o}"),
    })
}

fn pat(s: &str) -> CfaPattern {
    match s {
        "RGGB" => CfaPattern::Rggb,
        "GBRG" => CfaPattern::Gbrg,
        "BGGR" => CfaPattern::Bggr,
        "GRBG" => CfaPattern::Grbg,
        _ => CfaPattern::Empty,
    }
}

fn quad(v: &J) -> [u16; 4] {
    let mut o = [0u16; 4];
    for i in 0..4 {
        o[i] = v[i].as_u64().unwrap() as u16;
    }
    o
}

fn render_direct(d: &J) -> J {
    let w = d["w"].as_u64().unwrap() as u32;
    let h = d["h"].as_u64().unwrap() as u32;
    let data: Vec<u16> = d["data"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u16).collect();
    let bpc = d["bpc"].as_u64().unwrap() as u16;
    let mut img = RawImage::with_data16(w, h, bpc, DataType::Raw, data.clone(), pat(d["cfa"].as_str().unwrap()));
    img.set_blacks(quad(&d["blacks"]));
    img.set_whites(quad(&d["whites"]));
    if let Some(p) = d.get("photom") {
        if let Ok(v) = exif::PhotometricInterpretation::try_from(p.as_u64().unwrap() as u32) {
            img.set_photometric_interpretation(v);
        }
    }
    if let Some(wb) = d.get("wb").and_then(|v| v.as_array()) {
        let wb: Vec<f64> = wb.iter().map(|v| v.as_f64().unwrap()).collect();
        if wb.len() >= 3 {
            img.set_as_shot_neutral(&wb);
        }
    }
    for i in 1..=2usize {
        if let Some(m) = d.get(format!("cm{i}")).and_then(|v| v.as_array()) {
            // in tenths
            let m: Vec<f64> = m.iter().map(|v| v.as_f64().unwrap() / 10.0).collect();
            if !m.is_empty() {
                let l = d[format!("i{i}")].as_u64().unwrap_or(21) as u32;
                img.set_colour_matrix(i, exif::LightsourceValue::try_from(l).unwrap(), &m);
            }
        }
    }
    let mut outs = vec![];
    for o in d["opts"].as_array().unwrap() {
        outs.push(guarded(|| {
            let stage = RenderingStage::try_from(o[0].as_u64().unwrap() as u32).unwrap();
            let space = ColourSpace::try_from(o[1].as_u64().unwrap() as u32).unwrap();
            match img.rendered_image(RenderingOptions::default().with_stage(stage).with_target(space)) {
                Ok(r) => {
                    let mut j = image(&r, true);
                    // the source must be untouched
                    j["src_same"] = json!(img.data16() == Some(data.as_slice()) && img.width() == w && img.height() == h && img.bpc() == bpc);
                    j
                }
                Err(e) => err(&e),
            }
        }));
    }
    json!({"st": "ok", "outs": outs})
}

#[allow(dead_code)]
fn _unused() {
    let _ = std::mem::size_of::<(BigEndian, LittleEndian)>();
}

fn strip(mut j: J) -> J {
    // messages are not answers
    if let Some(o) = j.as_object_mut() {
        o.remove("msg");
    }
    j
}

/// A history of queries on several handles on several files.
/// case: files [hex..], hints [..], handles [{f, mode}..], hist [[handle, op]..]
/// The op ["close"] closes a handle, it's opened again when next used.
pub fn run_hist(case: &J) -> J {
    let files: Vec<Vec<u8>> = case["files"].as_array().unwrap().iter().map(bytes_of).collect();
    let hs = case["handles"].as_array().unwrap();
    let mut live: Vec<Option<RawFileHandle>> = hs.iter().map(|_| None).collect();
    let mut dead = vec![false; hs.len()];
    let mut obs = vec![];
    for step in case["hist"].as_array().unwrap() {
        let i = step[0].as_u64().unwrap() as usize;
        let f = hs[i]["f"].as_u64().unwrap() as usize;
        let op = &step[1];
        let o = if dead[i] {
            json!({"st": "skipped"})
        } else if op[0] == "close" {
            let h = live[i].take();
            guarded(|| {
                drop(h);
                json!({"st": "skipped"})
            })
        } else {
            let mut o = J::Null;
            if live[i].is_none() {
                let hint = case["hints"][f].as_str().filter(|s| !s.is_empty()).map(type_from);
                let mode = hs[i]["mode"].as_str().unwrap();
                match guard(|| {
                    if mode == "slow" {
                        // reads give a few bytes at a time
                        let p = scratch_file(&files[f], "slow");
                        let file = std::fs::File::open(&p).unwrap();
                        unscratch(&p);
                        rawfile_from_io(Box::new(std::io::BufReader::with_capacity(3 + 4 * i, file)), hint)
                    } else {
                        open(files[f].clone(), mode, hint)
                    }
                }) {
                    Ok(Ok(h)) => live[i] = Some(h),
                    Ok(Err(e)) => {
                        o = err(&e);
                        dead[i] = true;
                    }
                    Err(m) => o = json!({"st": "panic", "msg": m}),
                }
            }
            if let Some(h) = live[i].as_ref() {
                o = guarded(|| run_op(h, op));
            }
            o
        };
        let st = o["st"].clone();
        let skipped = st == "skipped";
        if st == "panic" {
            dead[i] = true;
        }
        let text = strip(o).to_string();
        obs.push(json!({"h": i, "f": f, "q": op.to_string(), "st": st, "skipped": skipped || st == "panic",
                        "a": hash(text.as_bytes()), "n": text.len() as i32,
                        "text": if text.len() < 200 { text } else { text.chars().take(200).collect() }}));
    }
    J::Array(obs)
}
