//! Histories of calls of the C API, as a C client makes them: the objects are
//! opaque pointers in slots, the outputs go to buffers between guard words, the
//! pointers the library keeps are read again later. Freed and fresh memory is
//! filled (see main.rs) so a pointer that outlives its owner, or a string without
//! its terminator, shows. Next to what C answered, `n` is what the native API says.
use crate::enc::*;
use crate::ops::*;
use libc_types::*;
use libopenraw::*;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::ffi::{c_char, c_void, CStr, CString};

mod libc_types {
    pub type P = *mut std::ffi::c_void;
}

extern "C" {
    fn or_rawfile_new(f: *const c_char, t: u32) -> P;
    fn or_rawfile_new_from_memory(b: *const u8, len: u32, t: u32) -> P;
    fn or_rawfile_release(f: P) -> i32;
    fn or_rawfile_get_type(f: P) -> u32;
    fn or_rawfile_get_typeid(f: P) -> u32;
    fn or_rawfile_get_vendorid(f: P) -> u32;
    fn or_rawfile_get_orientation(f: P) -> i32;
    fn or_rawfile_get_thumbnail_sizes(f: P, size: *mut usize) -> *const u32;
    fn or_rawfile_get_thumbnail(f: P, size: u32, e: *mut i32) -> P;
    fn or_rawfile_get_rawdata(f: P, options: u32, e: *mut i32) -> P;
    fn or_rawfile_get_rendered_image(f: P, options: u32, e: *mut i32) -> P;
    fn or_rawfile_get_metavalue(f: P, key: *const c_char) -> P;
    fn or_rawfile_get_ifd(f: P, t: u32) -> P;
    fn or_rawfile_get_calibration_illuminant1(f: P) -> u32;
    fn or_rawfile_get_calibration_illuminant2(f: P) -> u32;
    fn or_rawfile_get_colourmatrix1(f: P, m: *mut f64, size: *mut u32) -> i32;
    fn or_rawfile_get_colourmatrix2(f: P, m: *mut f64, size: *mut u32) -> i32;
    fn or_rawfile_get_colour_matrix_origin(f: P) -> u32;
    fn or_rawfile_get_metadata_iterator(f: P) -> P;
    fn or_get_extract_thumbnail(f: *const c_char, size: u32, t: *mut P) -> i32;
    fn or_get_extract_rawdata(f: *const c_char, options: u32, t: *mut P) -> i32;
    fn or_get_file_extensions() -> *const *const c_char;
    fn or_get_mime_types() -> *const *const c_char;
    fn or_get_type_for_mime_type(m: *const c_char) -> u32;
    fn or_thumbnail_release(t: P) -> i32;
    fn or_thumbnail_format(t: P) -> u32;
    fn or_thumbnail_data(t: P) -> *const u8;
    fn or_thumbnail_data_size(t: P) -> usize;
    fn or_thumbnail_dimensions(t: P, x: *mut u32, y: *mut u32);
    fn or_bitmapdata_release(t: P) -> i32;
    fn or_bitmapdata_format(t: P) -> u32;
    fn or_bitmapdata_data(t: P) -> *const u8;
    fn or_bitmapdata_data_size(t: P) -> usize;
    fn or_bitmapdata_dimensions(t: P, x: *mut u32, y: *mut u32);
    fn or_bitmapdata_bpc(t: P) -> u32;
    fn or_rawdata_release(t: P) -> i32;
    fn or_rawdata_format(t: P) -> u32;
    fn or_rawdata_data(t: P) -> *const u8;
    fn or_rawdata_data_size(t: P) -> usize;
    fn or_rawdata_dimensions(t: P, x: *mut u32, y: *mut u32);
    fn or_rawdata_get_active_area(t: P, x: *mut u32, y: *mut u32, w: *mut u32, h: *mut u32) -> i32;
    fn or_rawdata_get_user_crop(t: P, x: *mut u32, y: *mut u32, w: *mut u32, h: *mut u32) -> i32;
    fn or_rawdata_get_user_aspect_ratio(t: P, w: *mut u32, h: *mut u32) -> i32;
    fn or_rawdata_bpc(t: P) -> u32;
    fn or_rawdata_get_cfa_pattern_type(t: P) -> u32;
    fn or_rawdata_get_mosaicinfo(t: P) -> P;
    fn or_rawdata_get_compression(t: P) -> u32;
    fn or_rawdata_levels(t: P, b: *mut u16, w: *mut u16) -> i32;
    fn or_rawdata_as_shot_neutral(t: P, w: *mut f64) -> i32;
    fn or_rawdata_as_shot_white_xy(t: P, x: *mut f64, y: *mut f64) -> i32;
    fn or_rawdata_get_colour_matrix(t: P, index: u32, size: *mut u32) -> *const f64;
    fn or_mosaicinfo_get_type(m: P) -> u32;
    fn or_mosaicinfo_get_pattern(m: P, count: *mut u16) -> *const u8;
    fn or_metavalue_release(m: P);
    fn or_metavalue_get_string(m: P) -> *const c_char;
    fn or_metavalue_get_as_string(m: P, full: bool) -> *const c_char;
    fn or_metavalue_get_count(m: P) -> u32;
    fn or_metadata_iterator_free(m: P);
    fn or_metadata_iterator_next(m: P) -> i32;
    fn or_metadata_iterator_get_entry(m: P) -> P;
    fn or_metadata_iterator_get_dir(m: P) -> P;
    fn or_metadata_get_key(m: P) -> *const c_char;
    fn or_metadata_get_value(m: P) -> P;
    fn or_metadata_get_type(m: P) -> i16;
    fn or_ifd_count_tags(d: P) -> i32;
    fn or_ifd_get_makernote_id(d: P) -> *const c_char;
    fn or_ifd_get_tag_name(d: P, tag: u32) -> *const c_char;
    fn or_ifd_get_type(d: P) -> u32;
}

const NULL: P = std::ptr::null_mut();
/// What an output holds before the call.
const G: u32 = 0x5a5a_1234;

/// A string of the library: its bytes up to the terminator, or ["null"].
unsafe fn text(p: *const c_char) -> J {
    if p.is_null() {
        return json!({"null": true, "s": []});
    }
    json!({"null": false, "s": CStr::from_ptr(p).to_bytes()})
}
unsafe fn blob(p: *const u8, n: usize) -> J {
    if p.is_null() {
        return json!({"null": true, "hash": 0, "n": n as i32});
    }
    json!({"null": false, "hash": hash(std::slice::from_raw_parts(p, n)), "n": n as i32})
}
fn native_blob(d8: Option<&[u8]>, d16: Option<&[u16]>, n: usize) -> J {
    let b: Option<Vec<u8>> = d8
        .map(|d| d.to_vec())
        .or_else(|| d16.map(|d| d.iter().flat_map(|v| v.to_ne_bytes()).collect()));
    match b {
        Some(b) => json!({"null": false, "hash": hash(&b), "n": n as i32}),
        None => json!({"null": true, "hash": 0, "n": n as i32}),
    }
}
fn fbits(v: f64) -> J {
    let b = if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() };
    json!([(b >> 32) as u32 as i32, b as u32 as i32])
}
fn fl(v: &[f64]) -> J {
    J::Array(v.iter().map(|v| fbits(*v)).collect())
}

unsafe fn read(p: *const u8, n: Option<usize>) -> Vec<u8> {
    match n {
        Some(n) => std::slice::from_raw_parts(p, n).to_vec(),
        None => CStr::from_ptr(p as *const c_char).to_bytes().to_vec(),
    }
}

struct Client {
    files: Vec<Vec<u8>>,
    slots: HashMap<i64, P>,
    /// the native handle next to each raw file
    native: HashMap<i64, RawFileHandle>,
    /// the pointers kept by the client: where, how many bytes (or a string)
    kept: HashMap<String, (*const u8, Option<usize>, i32)>,
}

impl Client {
    fn p(&self, v: &J) -> P {
        self.slots.get(&v.as_i64().unwrap()).copied().unwrap_or(NULL)
    }
    fn keep(&mut self, op: &J, what: &str, p: *const u8, n: Option<usize>) {
        if !p.is_null() {
            let h = unsafe { hash(&read(p, n)) };
            self.kept.insert(format!("{}-{}", op[1], what), (p, n, h));
        }
    }
    fn put(&mut self, v: &J, p: P) -> bool {
        self.slots.insert(v.as_i64().unwrap(), p);
        let pre = format!("{}-", v);
        self.kept.retain(|k, _| !k.starts_with(&pre));
        p.is_null()
    }
    /// `n` bytes of the file, at a path that is removed afterwards
    fn with_path<R>(&self, v: &J, f: impl FnOnce(&CStr) -> R) -> R {
        let i = v.as_i64().unwrap();
        if i < 0 {
            return f(&CString::new("/nonexistent/for-c19.dng").unwrap());
        }
        let p = scratch_file(&self.files[i as usize], "a.bin");
        let c = CString::new(p.to_str().unwrap()).unwrap();
        let r = f(&c);
        unscratch(&p);
        r
    }
    fn fresh(&self, v: &J) -> Option<RawFileHandle> {
        let i = v.as_i64().unwrap();
        if i < 0 {
            return None;
        }
        open(self.files[i as usize].clone(), "path:a.bin", None).ok()
    }

    unsafe fn raw_info(&self, r: P) -> J {
        let mut x = [G; 6];
        or_rawdata_dimensions(r, &mut x[1], &mut x[2]);
        let dims: Vec<i32> = x.iter().map(|v| *v as i32).collect();
        or_rawdata_dimensions(r, NULL as *mut u32, NULL as *mut u32);
        let rect = |f: unsafe extern "C" fn(P, *mut u32, *mut u32, *mut u32, *mut u32) -> i32| {
            let mut x = [G; 6];
            let [_, a, b, c, d, _] = &mut x;
            let e = f(r, a, b, c, d);
            let n = f(r, NULL as *mut u32, NULL as *mut u32, NULL as *mut u32, NULL as *mut u32);
            json!({"e": e, "v": x.iter().map(|v| *v as i32).collect::<Vec<_>>(), "nulls": n})
        };
        let mut ar = [G; 4];
        let [_, a, b, _] = &mut ar;
        let are = or_rawdata_get_user_aspect_ratio(r, a, b);
        let mut lv = [0xabcdu16; 12];
        let le = or_rawdata_levels(r, lv.as_mut_ptr().add(1), lv.as_mut_ptr().add(7));
        or_rawdata_levels(r, NULL as *mut u16, NULL as *mut u16);
        let mut wb = [77.5f64; 6];
        let wbe = or_rawdata_as_shot_neutral(r, wb.as_mut_ptr().add(1));
        let mut xy = [77.5f64; 4];
        let [_, a, b, _] = &mut xy;
        let xye = or_rawdata_as_shot_white_xy(r, a, b);
        let cm = |i: u32| {
            let mut n = [G; 3];
            let p = or_rawdata_get_colour_matrix(r, i, &mut n[1]);
            let v = if p.is_null() { vec![] } else { std::slice::from_raw_parts(p, n[1] as usize).to_vec() };
            json!({"null": p.is_null(), "n": if p.is_null() { 0 } else { n[1] as i32 }, "v": fl(&v)})
        };
        let m = or_rawdata_get_mosaicinfo(r);
        let mut cnt = 0x7777u16;
        let pp = or_mosaicinfo_get_pattern(m, &mut cnt);
        let pat = if pp.is_null() { vec![] } else { std::slice::from_raw_parts(pp, cnt as usize).to_vec() };
        json!({"fmt": or_rawdata_format(r) as i32, "dims": dims, "blob": blob(or_rawdata_data(r), or_rawdata_data_size(r)),
            "aa": rect(or_rawdata_get_active_area), "crop": rect(or_rawdata_get_user_crop),
            "ar": {"e": are, "v": ar.iter().map(|v| *v as i32).collect::<Vec<_>>()},
            "lve": le, "lv": lv, "wbe": wbe, "wb": fl(&wb), "xye": xye, "xy": fl(&xy),
            "bpc": or_rawdata_bpc(r) as i32, "comp": or_rawdata_get_compression(r) as i32,
            "cfa": or_rawdata_get_cfa_pattern_type(r) as i32, "mcfa": or_mosaicinfo_get_type(m) as i32,
            "patn": cnt, "pat": pat, "cms": [cm(0), cm(1), cm(2), cm(3)]})
    }
    unsafe fn value_info(&mut self, op: &J, v: P, full: bool) -> J {
        let s = or_metavalue_get_string(v);
        self.keep(op, "string", s as *const u8, None);
        let a = or_metavalue_get_as_string(v, full);
        self.keep(op, "text", a as *const u8, None);
        json!({"null": v.is_null(), "count": or_metavalue_get_count(v) as i32, "str": text(s), "text": text(a)})
    }
    unsafe fn ifd_info(&mut self, op: &J, d: P) -> J {
        let id = or_ifd_get_makernote_id(d);
        self.keep(op, "id", id as *const u8, None);
        json!({"null": d.is_null(), "count": or_ifd_count_tags(d), "id": text(id), "type": or_ifd_get_type(d) as i32})
    }

    unsafe fn call(&mut self, op: &J) -> J {
        let name = op[0].as_str().unwrap();
        let mut e = [G as i32; 3];
        match name {
            "new" => {
                // ["new", slot, file, via, hint number, hint name]
                let hint = op[4].as_u64().unwrap() as u32;
                let via = op[3].as_str().unwrap();
                let p = match via {
                    "null" => or_rawfile_new(std::ptr::null(), hint),
                    "nullmem" => or_rawfile_new_from_memory(std::ptr::null(), 0, hint),
                    "path" => self.with_path(&op[2], |c| or_rawfile_new(c.as_ptr(), hint)),
                    _ => {
                        // the buffer isn't needed once the file is created
                        let b = self.files[op[2].as_u64().unwrap() as usize].clone();
                        or_rawfile_new_from_memory(b.as_ptr(), b.len() as u32, hint)
                    }
                };
                let name = op[5].as_str().unwrap();
                let n = if via.starts_with("null") || op[2].as_i64().unwrap() < 0 {
                    Err(Error::NotFound)
                } else {
                    open(
                        self.files[op[2].as_u64().unwrap() as usize].clone(),
                        if via == "path" { "path:a.bin" } else { "mem" },
                        if name.is_empty() { None } else { Some(type_from(name)) },
                    )
                };
                let isnull = self.put(&op[1], p);
                let d = match &n {
                    Ok(h) => {
                        let cm = |i: usize| match h.colour_matrix(i) {
                            Ok((o, m)) => json!({"st": "ok", "o": o as i32, "v": fl(&m)}),
                            Err(e) => err(&e),
                        };
                        json!({"st": "ok", "t": String::from(h.type_()),
                            "ids": run_op(h, &json!(["ids"])), "orient": u(h.orientation()),
                            "sizes": run_op(h, &json!(["sizes"])),
                            "lights": [light(h.calibration_illuminant(1)), light(h.calibration_illuminant(2))],
                            "cms": [cm(1), cm(2)]})
                    }
                    Err(e) => err(e),
                };
                if let Ok(h) = n {
                    self.native.insert(op[1].as_i64().unwrap(), h);
                }
                json!({"null": isnull, "n": d})
            }
            "release" => {
                let p = self.p(&op[1]);
                let r = match op[2].as_str().unwrap() {
                    "file" => or_rawfile_release(p),
                    "thumb" => or_thumbnail_release(p),
                    "raw" => or_rawdata_release(p),
                    "bitmap" => or_bitmapdata_release(p),
                    "value" => {
                        or_metavalue_release(p);
                        0
                    }
                    "iter" => {
                        or_metadata_iterator_free(p);
                        0
                    }
                    _ => panic!(),
                };
                self.slots.remove(&op[1].as_i64().unwrap());
                let pre = format!("{}-", op[1]);
                self.kept.retain(|k, _| !k.starts_with(&pre));
                self.native.remove(&op[1].as_i64().unwrap());
                json!({"e": r})
            }
            "file" => {
                // ["file", slot]
                let p = self.p(&op[1]);
                let mut n = [0x1234_5678usize; 3];
                let s = or_rawfile_get_thumbnail_sizes(p, &mut n[1]);
                let s2 = or_rawfile_get_thumbnail_sizes(p, NULL as *mut usize);
                let v: Vec<i32> = if s.is_null() { vec![] } else { std::slice::from_raw_parts(s, n[1]).iter().map(|v| *v as i32).collect() };
                self.keep(op, "sizes", s as *const u8, Some(v.len() * 4));
                json!({"type": or_rawfile_get_type(p), "id": or_rawfile_get_typeid(p) as i32, "vid": or_rawfile_get_vendorid(p) as i32,
                    "orient": or_rawfile_get_orientation(p), "sizes": {"null": s.is_null(), "v": v, "same": s == s2, "guard": [n[0] as i32, n[2] as i32]},
                    "lights": [or_rawfile_get_calibration_illuminant1(p) as i32, or_rawfile_get_calibration_illuminant2(p) as i32],
                    "origin": or_rawfile_get_colour_matrix_origin(p) as i32})
            }
            "cm" => {
                // ["cm", slot, which, capacity (-1: no size), null buffer]
                let p = self.p(&op[1]);
                let f = if op[2] == 1 { or_rawfile_get_colourmatrix1 } else { or_rawfile_get_colourmatrix2 };
                let cap = op[3].as_i64().unwrap();
                let mut b = vec![77.5f64; cap.max(0) as usize + 2];
                let mut n = [G, cap as u32, G];
                let m = if op[4] == true { NULL as *mut f64 } else { b.as_mut_ptr().add(1) };
                let e = f(p, m, if cap < 0 { NULL as *mut u32 } else { &mut n[1] });
                json!({"e": e, "n": n.iter().map(|v| *v as i32).collect::<Vec<_>>(), "v": fl(&b)})
            }
            "thumb" => {
                // ["thumb", slot, dest, size, with error]
                let p = self.p(&op[1]);
                let ep = if op[4] == true { &mut e[1] as *mut i32 } else { NULL as *mut i32 };
                let t = or_rawfile_get_thumbnail(p, op[3].as_u64().unwrap() as u32, ep);
                let isnull = self.put(&op[2], t);
                let n = match self.native.get(&op[1].as_i64().unwrap()) {
                    Some(h) => thumb_native(h, op[3].as_u64().unwrap() as u32),
                    None => json!({"st": "null"}),
                };
                json!({"null": isnull, "e": e, "n": n})
            }
            "xthumb" => {
                // ["xthumb", file, dest, size, null dest]
                let mut t: P = NULL;
                let d: *mut P = if op[4] == true { std::ptr::null_mut() } else { &mut t };
                let r = self.with_path(&op[1], |c| or_get_extract_thumbnail(c.as_ptr(), op[3].as_u64().unwrap() as u32, d));
                let isnull = self.put(&op[2], t);
                let n = match self.fresh(&op[1]) {
                    Some(h) => thumb_native(&h, op[3].as_u64().unwrap() as u32),
                    None => json!({"st": "noopen"}),
                };
                json!({"null": isnull, "e": [G as i32, r, G as i32], "n": n})
            }
            "xraw" => {
                let mut t: P = NULL;
                let d: *mut P = if op[4] == true { std::ptr::null_mut() } else { &mut t };
                let o = op[3].as_u64().unwrap() as u32;
                let r = self.with_path(&op[1], |c| or_get_extract_rawdata(c.as_ptr(), o, d));
                let isnull = self.put(&op[2], t);
                let n = match self.fresh(&op[1]) {
                    Some(h) => raw_native(h.raw_data(o == 1)),
                    None => json!({"st": "noopen"}),
                };
                json!({"null": isnull, "e": [G as i32, r, G as i32], "n": n})
            }
            "raw" => {
                let p = self.p(&op[1]);
                let ep = if op[4] == true { &mut e[1] as *mut i32 } else { NULL as *mut i32 };
                let o = op[3].as_u64().unwrap() as u32;
                let t = or_rawfile_get_rawdata(p, o, ep);
                let isnull = self.put(&op[2], t);
                let n = match self.native.get(&op[1].as_i64().unwrap()) {
                    Some(h) => raw_native(h.raw_data(o == 1)),
                    None => json!({"st": "null"}),
                };
                json!({"null": isnull, "e": e, "n": n})
            }
            "render" => {
                // ["render", slot, dest, options, with error, stage, space]
                let p = self.p(&op[1]);
                let ep = if op[4] == true { &mut e[1] as *mut i32 } else { NULL as *mut i32 };
                let t = or_rawfile_get_rendered_image(p, op[3].as_u64().unwrap() as u32, ep);
                let isnull = self.put(&op[2], t);
                let o = RenderingOptions::default()
                    .with_stage(RenderingStage::try_from(op[5].as_u64().unwrap() as u32).unwrap())
                    .with_target(ColourSpace::try_from(op[6].as_u64().unwrap() as u32).unwrap());
                let n = match self.native.get(&op[1].as_i64().unwrap()) {
                    Some(h) => raw_native(h.rendered_image(o)),
                    None => json!({"st": "null"}),
                };
                json!({"null": isnull, "e": e, "n": n})
            }
            "tinfo" => {
                let p = self.p(&op[1]);
                let mut x = [G; 4];
                let [_, a, b, _] = &mut x;
                or_thumbnail_dimensions(p, a, b);
                let mut y = [G; 3];
                or_thumbnail_dimensions(p, NULL as *mut u32, &mut y[1]);
                or_thumbnail_dimensions(p, NULL as *mut u32, NULL as *mut u32);
                let d = or_thumbnail_data(p);
                self.keep(op, "data", d, Some(or_thumbnail_data_size(p)));
                json!({"fmt": or_thumbnail_format(p) as i32, "dims": x.iter().map(|v| *v as i32).collect::<Vec<_>>(),
                    "ydim": y.iter().map(|v| *v as i32).collect::<Vec<_>>(), "blob": blob(d, or_thumbnail_data_size(p))})
            }
            "binfo" => {
                let p = self.p(&op[1]);
                let mut x = [G; 4];
                let [_, a, b, _] = &mut x;
                or_bitmapdata_dimensions(p, a, b);
                or_bitmapdata_dimensions(p, NULL as *mut u32, NULL as *mut u32);
                let d = or_bitmapdata_data(p);
                self.keep(op, "data", d, Some(or_bitmapdata_data_size(p)));
                json!({"fmt": or_bitmapdata_format(p) as i32, "dims": x.iter().map(|v| *v as i32).collect::<Vec<_>>(),
                    "bpc": or_bitmapdata_bpc(p) as i32, "blob": blob(d, or_bitmapdata_data_size(p))})
            }
            "rinfo" => {
                let p = self.p(&op[1]);
                let d = or_rawdata_data(p);
                self.keep(op, "data", d, Some(or_rawdata_data_size(p)));
                self.raw_info(p)
            }
            "meta" => {
                // ["meta", slot, dest, key (null: none)]
                let p = self.p(&op[1]);
                let r = if let Some(k) = op[3].as_str() {
                    let k = CString::new(k).unwrap();
                    or_rawfile_get_metavalue(p, k.as_ptr())
                } else {
                    or_rawfile_get_metavalue(p, std::ptr::null())
                };
                let isnull = self.put(&op[2], r);
                let n = match (self.native.get(&op[1].as_i64().unwrap()), op[3].as_str()) {
                    (Some(h), Some(k)) => match h.metadata_value(k) {
                        Some(v) => value_native(&v),
                        None => json!({"st": "none"}),
                    },
                    _ => json!({"st": "null"}),
                };
                json!({"null": isnull, "n": n})
            }
            "vinfo" => {
                let p = self.p(&op[1]);
                self.value_info(op, p, op[2] == true)
            }
            "iter" => {
                let p = self.p(&op[1]);
                let r = or_rawfile_get_metadata_iterator(p);
                let isnull = self.put(&op[2], r);
                let n = match self.native.get(&op[1].as_i64().unwrap()) {
                    Some(h) => match h.metadata() {
                        Some(it) => json!({"st": "ok", "list": it.map(|(k, v, t)| json!({"key": k.as_bytes(), "type": t, "val": value_native(&v)})).collect::<Vec<_>>()}),
                        None => json!({"st": "none", "list": []}),
                    },
                    None => json!({"st": "null", "list": []}),
                };
                json!({"null": isnull, "n": n})
            }
            "next" => {
                // the entry and its strings are gone
                let p = self.p(&op[1]);
                let pre = format!("{}-", op[1]);
                self.kept.retain(|k, _| !k.starts_with(&pre));
                json!({"r": or_metadata_iterator_next(p)})
            }
            "entry" => {
                // ["entry", iterator, full]
                let it = self.p(&op[1]);
                let p = or_metadata_iterator_get_entry(it);
                let v = or_metadata_get_value(p);
                let i = self.value_info(op, v, op[2] == true);
                let d = or_metadata_iterator_get_dir(it);
                let di = self.ifd_info(&json!(["", -1]), d);
                let k = or_metadata_get_key(p);
                self.keep(op, "key", k as *const u8, None);
                json!({"null": p.is_null(), "key": text(k), "type": or_metadata_get_type(p), "val": i, "dir": di})
            }
            "ifd" => {
                // ["ifd", slot, dest, type number, type name]
                let p = self.p(&op[1]);
                let r = or_rawfile_get_ifd(p, op[3].as_u64().unwrap() as u32);
                let isnull = self.put(&op[2], r);
                use libopenraw::tiff::{Ifd, IfdType};
                let t = match op[4].as_str().unwrap() {
                    "main" => IfdType::Main,
                    "exif" => IfdType::Exif,
                    "mnote" => IfdType::MakerNote,
                    "raw" => IfdType::Raw,
                    "subifd" => IfdType::SubIfd,
                    "gps" => IfdType::GpsInfo,
                    _ => IfdType::Other,
                };
                let n = match self.native.get(&op[1].as_i64().unwrap()) {
                    Some(h) => match h.ifd(t) {
                        Some(d) => {
                            let id: Vec<u8> = d.id().iter().copied().take_while(|b| *b != 0).collect();
                            json!({"st": "ok", "count": d.num_entries() as i32, "id": id, "type": format!("{:?}", d.ifd_type()),
                                "names": op[5].as_array().unwrap().iter().map(|t| d.tag_name(t.as_u64().unwrap() as u16).as_bytes().to_vec()).collect::<Vec<_>>()})
                        }
                        None => json!({"st": "none"}),
                    },
                    None => json!({"st": "null"}),
                };
                json!({"null": isnull, "n": n})
            }
            "dinfo" => {
                // ["dinfo", ifd, tags]
                let p = self.p(&op[1]);
                let i = self.ifd_info(op, p);
                let names: Vec<J> = op[2].as_array().unwrap().iter().map(|t| text(or_ifd_get_tag_name(p, t.as_u64().unwrap() as u32))).collect();
                json!({"i": i, "names": names})
            }
            "reread" => {
                // ["reread", slot, what]: what the pointer kept gives now
                match self.kept.get(&format!("{}-{}", op[1], op[2].as_str().unwrap())) {
                    None => json!({"none": true, "hash": 0, "was": 0}),
                    Some((p, n, h)) => {
                        let b = read(*p, *n);
                        json!({"none": false, "hash": hash(&b), "was": h})
                    }
                }
            }
            "registry" => {
                let list = |mut p: *const *const c_char| {
                    let mut l = vec![];
                    while !(*p).is_null() {
                        l.push(CStr::from_ptr(*p).to_string_lossy().to_string());
                        p = p.add(1);
                    }
                    l
                };
                let mut ext = list(or_get_file_extensions());
                ext.sort();
                let mimes = list(or_get_mime_types());
                let t: Vec<u32> = mimes.iter().map(|m| or_get_type_for_mime_type(CString::new(m.as_str()).unwrap().as_ptr())).collect();
                let mut next: Vec<String> = extensions().to_vec();
                next.sort();
                json!({"ext": ext, "mimes": mimes, "t": t,
                    "unk": or_get_type_for_mime_type(CString::new(op[1].as_str().unwrap()).unwrap().as_ptr()),
                    "n": {"ext": next, "mimes": mime_types().to_vec(), "t": mime_types().iter().map(|m| type_for_mime_type(m).map(String::from).unwrap_or_default()).collect::<Vec<_>>(),
                        "unk": type_for_mime_type(op[1].as_str().unwrap()).map(String::from).unwrap_or("UNKNOWN".into())}})
            }
            "nulls" => {
                // every function with null objects
                let n32 = NULL as *mut u32;
                let mut d = [77.5f64; 16];
                let mut sz = 16u32;
                or_thumbnail_dimensions(NULL, n32, n32);
                or_bitmapdata_dimensions(NULL, n32, n32);
                or_rawdata_dimensions(NULL, n32, n32);
                or_metavalue_release(NULL);
                or_metadata_iterator_free(NULL);
                let z = |p: *const c_void| if p.is_null() { 0 } else { 1 };
                json!({"num": [
                    ["release", or_rawfile_release(NULL)], ["release", or_thumbnail_release(NULL)],
                    ["release", or_rawdata_release(NULL)], ["release", or_bitmapdata_release(NULL)],
                    ["zero", or_rawfile_get_type(NULL)], ["zero", or_rawfile_get_typeid(NULL)], ["zero", or_rawfile_get_vendorid(NULL)],
                    ["zero", or_rawfile_get_orientation(NULL)],
                    ["ptr", z(or_rawfile_get_thumbnail_sizes(NULL, NULL as *mut usize) as P)],
                    ["ptr", z(or_rawfile_get_thumbnail(NULL, 160, NULL as *mut i32))],
                    ["ptr", z(or_rawfile_get_rawdata(NULL, 0, NULL as *mut i32))],
                    ["ptr", z(or_rawfile_get_rendered_image(NULL, 0, NULL as *mut i32))],
                    ["ptr", z(or_rawfile_get_metavalue(NULL, c"Exif.Image.Make".as_ptr()))],
                    ["ptr", z(or_rawfile_get_ifd(NULL, 1))], ["ptr", z(or_rawfile_get_metadata_iterator(NULL))],
                    ["error", or_rawfile_get_colourmatrix1(NULL, d.as_mut_ptr(), &mut sz)],
                    ["error", or_rawfile_get_colourmatrix2(NULL, d.as_mut_ptr(), &mut sz)],
                    ["zero", or_rawfile_get_colour_matrix_origin(NULL)],
                    ["zero", or_rawfile_get_calibration_illuminant1(NULL)], ["zero", or_rawfile_get_calibration_illuminant2(NULL)],
                    ["ptr", z(or_thumbnail_data(NULL) as P)], ["zero", or_thumbnail_data_size(NULL)],
                    ["ptr", z(or_bitmapdata_data(NULL) as P)], ["zero", or_bitmapdata_data_size(NULL)],
                    ["ptr", z(or_rawdata_data(NULL) as P)], ["zero", or_rawdata_data_size(NULL)],
                    ["unknown", or_thumbnail_format(NULL)], ["unknown", or_bitmapdata_format(NULL)], ["unknown", or_rawdata_format(NULL)],
                    ["error", or_rawdata_get_active_area(NULL, n32, n32, n32, n32)], ["error", or_rawdata_get_user_crop(NULL, n32, n32, n32, n32)],
                    ["error", or_rawdata_get_user_aspect_ratio(NULL, n32, n32)], ["error", or_rawdata_levels(NULL, NULL as *mut u16, NULL as *mut u16)],
                    ["error", or_rawdata_as_shot_neutral(NULL, d.as_mut_ptr())], ["error", or_rawdata_as_shot_white_xy(NULL, d.as_mut_ptr(), d.as_mut_ptr())],
                    ["ptr", z(or_rawdata_get_colour_matrix(NULL, 1, &mut sz) as P)], ["ptr", z(or_rawdata_get_mosaicinfo(NULL))],
                    ["zero", or_rawdata_get_cfa_pattern_type(NULL)], ["zero", or_mosaicinfo_get_type(NULL)], ["zero", or_rawdata_bpc(NULL)],
                    ["ptr", z(or_mosaicinfo_get_pattern(NULL, NULL as *mut u16) as P)],
                    ["ptr", z(or_metavalue_get_string(NULL) as P)], ["ptr", z(or_metavalue_get_as_string(NULL, true) as P)], ["zero", or_metavalue_get_count(NULL)],
                    ["zero", or_metadata_iterator_next(NULL)], ["ptr", z(or_metadata_iterator_get_entry(NULL))], ["ptr", z(or_metadata_iterator_get_dir(NULL))],
                    ["ptr", z(or_metadata_get_key(NULL) as P)], ["ptr", z(or_metadata_get_value(NULL))],
                    ["minus", or_ifd_count_tags(NULL)], ["ptr", z(or_ifd_get_makernote_id(NULL) as P)], ["ptr", z(or_ifd_get_tag_name(NULL, 271) as P)],
                    ["invalid", or_ifd_get_type(NULL)]
                ], "untouched": fl(&d), "sz": sz as i32})
            }
            _ => panic!("unknown call {name}"),
        }
    }
}

fn thumb_native(h: &RawFileHandle, size: u32) -> J {
    match h.thumbnail(size) {
        Ok(t) => json!({"st": "ok", "w": u(t.width()), "h": u(t.height()), "dt": dt(t.data_type()), "blob": native_blob(t.data8(), None, t.data_size())}),
        Err(e) => err(&e),
    }
}
fn raw_native(r: Result<RawImage>) -> J {
    match r {
        Err(e) => err(&e),
        Ok(r) => {
            let mut j = image(&r, false);
            j["blob"] = native_blob(r.data8(), r.data16(), r.data_size());
            j["fwb"] = match r.as_shot_neutral() {
                Some(a) => fl(a),
                None => json!([]),
            };
            j["fxy"] = match r.as_shot_white_xy() {
                Some((a, b)) => fl(&[a, b]),
                None => json!([]),
            };
            let cm = |i: usize| match r.colour_matrix(i) {
                Some(m) => json!({"null": false, "n": m.matrix.len() as i32, "v": fl(&m.matrix)}),
                None => json!({"null": true, "n": 0, "v": []}),
            };
            j["cms"] = json!([cm(0), cm(1), cm(2), cm(3)]);
            j
        }
    }
}
fn value_native(v: &libopenraw::metadata::Value) -> J {
    let s = match v {
        libopenraw::metadata::Value::String(s) => json!({"null": false, "s": s.iter().copied().take_while(|b| *b != 0).collect::<Vec<_>>()}),
        _ => json!({"null": true, "s": []}),
    };
    json!({"st": "ok", "count": v.count() as i32, "str": s, "full": v.into_string(true).as_bytes(), "short": v.into_string(false).as_bytes()})
}

fn history(case: &J) -> Vec<J> {
    let mut c = Client {
        files: case["files"].as_array().unwrap().iter().map(bytes_of).collect(),
        slots: HashMap::new(),
        native: HashMap::new(),
        kept: HashMap::new(),
    };
    case["capi"]
        .as_array()
        .unwrap()
        .iter()
        .map(|op| unsafe {
            let mut r = c.call(op);
            r["op"] = op[0].clone();
            r
        })
        .collect()
}

pub fn run_capi(case: &J) -> J {
    crate::FILL.store(true, std::sync::atomic::Ordering::Relaxed);
    let obs = history(case);
    // everything was released: another run leaves nothing behind. What other threads
    // do is counted too: a leak is there every time.
    let live = || crate::LIVE.load(std::sync::atomic::Ordering::Relaxed);
    let mut leak = 0;
    for k in 0..8 {
        let before = live();
        drop(history(case));
        leak = live() - before;
        if leak == 0 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(k));
    }
    crate::FILL.store(false, std::sync::atomic::Ordering::Relaxed);
    json!({"steps": obs, "leak": leak as i32})
}
