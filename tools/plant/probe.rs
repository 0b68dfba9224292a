//! Prints what libopenraw answers about a file.
//! usage: probe FILE|- HINT OP...   (HINT "-" for none)
//! With "-" as a file, FILE is in hex in case.hex next to expected.txt.
use libopenraw::*;
fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect()
}
fn fnv(b: impl Iterator<Item = u64>) -> u64 {
    b.fold(0xcbf29ce484222325, |h, x| (h ^ x).wrapping_mul(0x100000001b3))
}
fn image(r: &RawImage) {
    println!("image {}x{} bpc {} {:?} {:?} photom {:?}", r.width(), r.height(), r.bpc(), r.data_type(), r.compression(), r.photometric_interpretation());
    println!("aa {:?} crop {:?} ar {:?} out {:?}", r.active_area(), r.user_crop(), r.user_aspect_ratio(), r.output_size());
    println!("blacks {:?} whites {:?} wb {:?} xy {:?}", r.blacks(), r.whites(), r.as_shot_neutral(), r.as_shot_white_xy());
    println!("mosaic {} {:?} lin {:?}", r.mosaic_pattern().to_string(), r.mosaic_pattern().pattern().iter().map(|c| *c as u8).collect::<Vec<_>>(), r.linearization_table());
    for i in 1..=2 {
        if let Some(m) = r.colour_matrix(i) { println!("cm{i} {:?} {:?}", m.illuminant, m.matrix); }
    }
    if let Some(t) = r.tile_data() { println!("tiles {:?} {:x?}", r.tile_size(), t); }
    else if let Some(d) = r.data16() { println!("data16 {} {:x} {:?}", d.len(), fnv(d.iter().map(|v| *v as u64)), &d[..d.len().min(400)]); }
    else if let Some(d) = r.data8() { println!("data8 {} {:x} {:?}", d.len(), fnv(d.iter().map(|v| *v as u64)), &d[..d.len().min(200)]); }
}
fn op(h: &RawFileHandle, op: &str) {
    let (name, arg) = op.split_once('=').unwrap_or((op, ""));
    println!("== {op}");
    match name {
        "type" => println!("{:?} {} {:?} {:?}", h.type_(), h.mime_type(), h.type_id(), h.vendor_id().map(|v| v as u32)),
        "raw" => match h.raw_data(arg == "skip") { Ok(r) => image(&r), Err(e) => println!("{e:?}") },
        "render" => {
            let (a, b) = arg.split_once(',').unwrap();
            let o = RenderingOptions::default()
                .with_stage(RenderingStage::try_from(a.parse::<u32>().unwrap()).unwrap())
                .with_target(ColourSpace::try_from(b.parse::<u32>().unwrap()).unwrap());
            match h.rendered_image(o) { Ok(r) => image(&r), Err(e) => println!("{e:?}") }
        }
        "sizes" => println!("{:?}", h.thumbnail_sizes()),
        "thumb" => match h.thumbnail(arg.parse().unwrap()) {
            Ok(t) => println!("{}x{} {:?} {} {:x} {:x?}", t.width(), t.height(), t.data_type(), t.data_size(), fnv(t.data8().unwrap_or(&[]).iter().map(|v| *v as u64)), t.data8().map(|d| &d[..d.len().min(100)])),
            Err(e) => println!("{e:?}"),
        },
        "meta" => match h.metadata() {
            Some(it) => for (k, v, t) in it { println!("{k} {v:?} {t}") },
            None => println!("none"),
        },
        "get" => println!("{:?}", h.metadata_value(arg)),
        "orient" => println!("{}", h.orientation()),
        "ifd" => {
            use libopenraw::tiff::Ifd;
            let d = match arg { "main" => h.main_ifd(), "exif" => h.exif_ifd(), "mnote" => h.maker_note_ifd(), _ => panic!() };
            match d {
                Some(d) => {
                    println!("{:?} n {}", String::from_utf8_lossy(d.id()), d.num_entries());
                    for t in (0..=65535u16).filter(|t| d.entry(*t).is_some()) { println!("{t} {:?} {:?} {:?} {:?}", d.uint_value_array(t), d.int_value_array(t), d.float_value_array(t), d.entry(t).and_then(|e| e.string_value())); }
                }
                None => println!("none"),
            }
        }
        "cal" => for i in 1..=2 { println!("{:?} {:?}", h.calibration_illuminant(i), h.colour_matrix(i).map_err(|_| ())); },
        "dump" => { let mut o: Vec<u8> = vec![]; h.dump_file(&mut o); println!("{}", String::from_utf8_lossy(&o)); }
        _ => panic!("unknown {op}"),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let data = unhex(&std::fs::read_to_string(&a[1]).unwrap());
    let hint = match a[2].as_str() { "-" => None, "RW" => Some(Type::Rw), "JPEG" => Some(Type::Jpeg), t => Some(Type::from(t)) };
    if a[3].starts_with("ljpeg") {
        let mut d = LJpeg::new(true);
        if let Some((_, s)) = a[3].split_once('=') { d.set_slices(&s.split(',').map(|v| v.parse().unwrap()).collect::<Vec<u32>>()); }
        match d.decompress_buffer(&data, false, &None) {
            Ok(t) => println!("{}x{} {} {:?}", t.width, t.height, t.bpc, t.buf),
            Err(e) => println!("{e:?}"),
        }
        return;
    }
    match rawfile_from_memory(data, hint) {
        Ok(h) => for o in &a[3..] { op(&h, o) },
        Err(e) => println!("open {e:?}"),
    }
}
