#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "The file type is decided by hint, then extension, then content signature",
  "Opening a file yields the type given explicitly by the caller if any, otherwise (for a path) the type its case-insensitive extension is registered for, otherwise the type its leading bytes and first TIFF directory identify, and content that matches no signature is refused with an error instead of being opened as some type. Content identification depends on the content alone: it recognises every supported container signature in either byte order and tells the TIFF based formats apart by the DNG version tag first and by the make string next. The type, MIME type, extension and MIME lookup tables agree with each other.",
  ["inputs", "configurations"], "all byte contents, all file names, all explicit hints",
  "Unit tests identify five sample headers; the space is every signature x byte order x make x tag presence x length x hint x extension.",
  ["src/identify.rs", "src/rawfile.rs", "src/factory.rs", "src/lib.rs"],
  [("content sniffing", "src/identify.rs type_for_content"), ("extension/hint precedence", "src/rawfile.rs rawfile_from_file/from_io"), ("factory", "src/factory.rs")],
  ["rawfile_from_memory/rawfile_from_file/rawfile_from_io + type_(), mime_type(), extensions(), mime_types()"])

p("C02", "Every TIFF directory entry is read back with the value that is in the file",
  "For every well-formed TIFF structure in either byte order, the directories reported (main, chained, sub-directories, Exif, GPS) are those in the file, and each tag appears with its stored type and count and with exactly the values stored, whether they are inline or at an offset. Entries whose data lies outside the file, are of unknown type or are duplicated never alter the value reported for another entry.",
  ["inputs"], "all TIFF structures: byte order, entry types, counts, inline/offset placement, chains and nesting",
  "Tests decode a handful of fixed buffers; the space is the product of types, counts, byte orders and layouts.",
  ["src/tiff/container.rs", "src/tiff/dir.rs", "src/tiff/entry.rs", "src/tiff/exif.rs", "src/tiff/iterator.rs", "src/container.rs"],
  [("directory loader", "src/tiff/dir.rs"), ("entry values", "src/tiff/entry.rs"), ("container", "src/tiff/container.rs")],
  ["Ifd entries, uint_value/value/value_array/string_value, container dirs"])

p("C03", "Metadata enumeration and lookup by key agree and lose nothing",
  "Iterating over a file's metadata yields every tag of every loaded directory exactly once with a namespaced key, and looking up any key returns the value the iteration of the main directory first associates with it, or nothing if there is none. Values render to text and convert to integers, rationals and strings consistently with the stored type and count, and the orientation is the value of the orientation tag or 0.",
  ["inputs"], "all files and all keys",
  "One fixed sample TIFF is iterated by a test; every other combination of directories, types and counts is unreached.",
  ["src/metadata.rs", "src/tiff/iterator.rs", "src/tiff/dir.rs", "src/rawfile.rs"],
  [("iterator", "src/metadata.rs, src/tiff/iterator.rs"), ("lookup", "src/rawfile.rs metadata_value")],
  ["RawFile::metadata(), metadata_value(key), orientation()"])

p("C04", "The preview returned is the best match for the requested size, byte exact",
  "Asking for a preview of a given size returns, among the previews the file holds, one of exactly that size, otherwise the smallest larger one, otherwise the largest one; it fails for size 0 and for a file without preview. The list of sizes names every preview the file holds, and the bytes, dimensions and format returned are those the file stores for that preview, cut at the end of the file.",
  ["inputs"], "all requested sizes, all sets and locations of previews, all formats of file",
  "A unit test asks four sizes of one fixed mock; no test reads a preview out of a file.",
  ["src/rawfile.rs", "src/thumbnail.rs", "src/container.rs", "src/tiff.rs", "src/jpeg.rs", "src/canon/cr2.rs", "src/canon/cr3.rs", "src/canon/crw.rs", "src/nikon.rs", "src/pentax.rs", "src/olympus.rs", "src/minolta.rs", "src/fujifilm.rs", "src/panasonic.rs", "src/sony.rs", "src/dng.rs", "src/epson.rs"],
  [("selection", "src/rawfile.rs thumbnail"), ("location", "src/tiff.rs ifd_locate_thumbnail"), ("extraction", "src/container.rs make_thumbnail")],
  ["thumbnail_sizes(), thumbnail(size)"])

p("C05", "The raw image payload is located and described as the file says",
  "For a TIFF based raw file the raw data returned without decompression is, byte for byte, the strips or tiles the raw directory points at, with the width, height and bit depth it declares; when the bit depth says the data is uncompressed it is reported as such and decoded to the declared number of samples in the file's byte order. A file without raw directory, or whose raw directory lacks a required tag, gives an error and not an image.",
  ["inputs"], "all TIFF based raw files: strip/tile layouts, bit depths, byte orders, missing tags",
  "No raw sample is available to the tests: the regression suite runs on nothing.",
  ["src/tiff.rs", "src/container.rs", "src/dng.rs", "src/nikon.rs", "src/pentax.rs", "src/sony.rs", "src/epson.rs", "src/rawimage.rs"],
  [("raw locator", "src/tiff.rs tiff_get_rawdata"), ("uncompressed loader", "src/container.rs load_buffer16")],
  ["raw_data(true), raw_data(false)"])

p("C06", "Bit-packed samples unpack to exactly the samples that were packed",
  "For every packed encoding used by the supported formats (10, 12 and 14 bits per sample, either bit order, with or without padding bytes), every sample comes out at its position with its exact value, rows start where the encoding says, and data too short for the image is an error rather than invented samples.",
  ["inputs"], "all sample values, widths, heights, encodings and truncation lengths",
  "Unit tests unpack one or two fixed rows per encoding.",
  ["src/decompress.rs", "src/decompress/bit_reader.rs", "src/tiff.rs", "src/olympus.rs", "src/minolta.rs", "src/fujifilm/raf.rs", "src/fujifilm.rs", "src/nikon.rs", "src/panasonic.rs"],
  [("unpackers", "src/decompress.rs"), ("bit readers", "src/decompress/bit_reader.rs")],
  ["raw_data(false).data16()"])

p("C07", "Lossless JPEG decoding restores the encoded samples exactly",
  "Decoding any lossless JPEG stream (any predictor 1 to 7, any valid Huffman tables, one to four components, any precision up to 16 bits, restart intervals, point transform, byte stuffing) gives exactly the samples that were encoded, in scan order, with the declared size. A stream that is cut or violates the format gives an error or a complete image of the declared size, never a crash.",
  ["inputs"], "all encoded images, Huffman tables, predictors, component counts, restart intervals",
  "One JPEG file is decoded by a test; predictors, tables, restart and component counts other than its own are unreached.",
  ["src/decompress/ljpeg.rs", "src/decompress/bit_reader.rs"],
  [("decoder", "src/decompress/ljpeg.rs")],
  ["LJpeg decoder entry point, raw_data(false) on DNG/CR2"])

p("C08", "Tiles and slices are reassembled into the right place of the image",
  "When the raw data is stored as several tiles or vertical slices, every decoded sample ends up at the row and column the layout assigns to it, for any tile and slice geometry, including a last tile or slice that is partial, and no sample outside the image is kept.",
  ["inputs"], "all tile and slice geometries",
  "Unit tests combine one fixed arrangement.",
  ["src/decompress/tiled.rs", "src/decompress/sliced_buffer.rs", "src/dng.rs", "src/canon/cr2.rs", "src/decompress/ljpeg.rs"],
  [("tiles", "src/decompress/tiled.rs combine_tiles"), ("slices", "src/decompress/sliced_buffer.rs")],
  ["raw_data(false) on tiled DNG and sliced CR2"])

p("C09", "Nikon compressed raw data decodes to the samples the format defines",
  "For every Nikon compressed raw (lossy 12 and 14 bit, lossless 14 bit; with or without interpolated linearisation curve), each output sample is the linearised value of the running predictor of its row parity and column parity plus the decoded Huffman difference, scaled to the declared depth; the uncompressed and packed variants decode to their stored samples.",
  ["inputs"], "all difference sequences, curve tables, initial predictors and image sizes",
  "Tests cover the Huffman tree and the difference iterator on a few bytes only; the decoder, curve and predictors are unreached.",
  ["src/nikon.rs", "src/nikon/huffman.rs", "src/nikon/diffiterator.rs"],
  [("decoder", "src/nikon.rs unpack/decompress"), ("differences", "src/nikon/diffiterator.rs")],
  ["raw_data(false) on NEF"])

p("C10", "Pentax compressed raw data decodes to the samples the format defines",
  "For every Pentax compressed raw, with the camera's own Huffman table or with the legacy one when the file has none, each sample is the sum of the decoded differences along its row parity and column parity as the format defines, at its position, for any image.",
  ["inputs"], "all Huffman tables, images and sizes",
  "Tests decode no Pentax image.",
  ["src/pentax.rs", "src/pentax/decompress.rs"],
  [("decoder", "src/pentax/decompress.rs")], ["raw_data(false) on PEF"])

p("C11", "Canon CRW compressed raw data decodes to the samples the format defines",
  "For every CIFF raw stream, with any of the three decoder tables and with or without the low bits plane, each sample is the value the format defines from the block coefficients, the carry and the running row bases, at its position.",
  ["inputs"], "all coefficient streams, tables, sizes, with and without low bits",
  "Tests decode no CRW image.",
  ["src/canon/crw/decompress.rs", "src/canon/crw.rs"],
  [("decoder", "src/canon/crw/decompress.rs")], ["raw_data(false) on CRW"])

p("C12", "Olympus raw data decodes to the samples the format defines",
  "For every Olympus raw layout (compressed, packed 12 bit with padding, interlaced, 16 bit words), which layout applies follows from the amount of data, and each sample equals the value the format's predictor and code define, at its position.",
  ["inputs"], "all streams, all sizes, all layouts", "Tests decode no Olympus image.",
  ["src/olympus.rs", "src/olympus/decompress.rs", "src/decompress.rs"],
  [("codec", "src/olympus/decompress.rs"), ("layout choice", "src/olympus.rs")], ["raw_data(false) on ORF, decompress_olympus"])

p("C13", "Panasonic raw data decodes to the samples the format defines",
  "For every Panasonic raw layout (block compressed, packed, unpacked), each sample equals the value the format's block code defines, at its position.",
  ["inputs"], "all streams and sizes", "Tests decode no Panasonic image.",
  ["src/panasonic.rs", "src/panasonic/decompress.rs"],
  [("decoder", "src/panasonic/decompress.rs")], ["raw_data(false) on RW2"])

p("C14", "Rendering applies exactly the requested stages, in order, to every pixel",
  "Rendering a raw image performs the stages up to the requested one, in order (linearisation between black and white, interpolation of the mosaic, colour conversion), each defined per pixel from its neighbourhood, levels and matrices; a sample that a pixel does not depend on never changes it. The result has the size, number of components and bit depth that the stage defines, and rendering does not alter the source.",
  ["inputs", "configurations"], "all images, CFA patterns, levels, matrices, stages and target spaces",
  "The existing tests check single helpers on a few constants; the result is a function of every pixel neighbourhood.",
  ["src/render.rs", "src/render/demosaic.rs", "src/render/grayscale.rs", "src/rawimage.rs", "src/colour.rs", "src/colour/matrix.rs", "src/mosaic.rs"],
  [("pipeline", "src/rawimage.rs rendered_image"), ("demosaic", "src/render/demosaic.rs"), ("gamma", "src/render.rs")],
  ["RawImage::rendered_image"])

p("C15", "Sensor description (levels, crop, mosaic, white balance) is what the file states",
  "The active area, user crop and aspect ratio, mosaic pattern, black and white levels and as-shot white balance reported with the raw data are those the file's tags and maker data state for that camera format, with the format's defaults when absent; values stated for one channel or corner never end up on another.",
  ["inputs"], "all values of the tags, present or absent, for every format",
  "No raw sample is available to the tests.",
  ["src/nikon.rs", "src/pentax.rs", "src/canon/cr2.rs", "src/canon.rs", "src/canon/colour.rs", "src/olympus.rs", "src/minolta.rs", "src/fujifilm.rs", "src/fujifilm/raf.rs", "src/panasonic.rs", "src/sony.rs", "src/dng.rs", "src/epson.rs", "src/rawimage.rs", "src/geometry.rs"],
  [("per format loaders", "load_rawdata of each format")], ["RawImage accessors"])

p("C16", "Maker notes are recognised by signature and read with the right origin",
  "The maker note of a file is recognised from its signature (and the make where there is none), and its entries are read with the byte order and the offset origin that vendor uses, so each maker note value reported is the one stored; an unrecognised or damaged maker note is absent and does not affect other metadata.",
  ["inputs"], "all maker note signatures, byte orders and contents", "Tests check no maker note variant from a file.",
  ["src/tiff/dir.rs", "src/tiff/exif.rs", "src/tiff/container.rs"],
  [("signature table", "src/tiff/dir.rs create_maker_note")], ["maker_note_ifd(), metadata()"])

p("C17", "Answers do not depend on which questions were asked before",
  "On an opened file every query (type, identifiers, metadata, previews, raw data, colour data, rendering, dump) gives the same answer in any order, any number of times, interleaved with queries on other open files, and the same whether the file was opened from a path, from memory or from a stream.",
  ["histories"], "all sequences of queries on one or several handles",
  "Tests use one query order; loading is lazy and cached and all reads share one seekable stream.",
  ["src/rawfile.rs", "src/io.rs", "src/container.rs", "src/tiff/container.rs"],
  [("lazy caches", "OnceCell in each format"), ("shared stream", "src/io.rs Viewer/View")],
  ["every RawFile method"],
  [("lazy cells", "container, thumbnails, probe loaded on first use", "per format struct"), ("stream position", "shared by all views", "src/io.rs")])

p("C18", "Damaged or hostile files produce an error, never a crash or a hang",
  "Whatever the bytes of a file are (cut at any point, with any field altered, with cyclic directories, absurd counts, sizes and offsets), opening it and making any query on it returns a result or an error in bounded time, without abnormal termination.",
  ["inputs", "fault_sequences"], "all byte sequences; all single faults applied to well formed files",
  "Tests feed well-formed data; the project fuzzes occasionally but not as part of the tests.",
  ["src/tiff/container.rs", "src/tiff/dir.rs", "src/tiff/entry.rs", "src/io.rs", "src/decompress/ljpeg.rs", "src/mp4/container.rs", "src/canon/crw/ciff.rs", "src/minolta.rs", "src/fujifilm/raf.rs"],
  [("bounds checks", "every parser")], ["every RawFile method"])

p("C19", "The C interface reports the same facts and honours its documented contract",
  "Through the C interface every query returns the same information as the native interface, null handles and null outputs are answered with the documented error or neutral value, buffers are filled only as far as their stated size with the needed size reported, and objects stay usable until released in any legal order of release.",
  ["histories", "inputs"], "all sequences of C calls, all handles (null or live), all buffer sizes",
  "The C test programs run a fixed sequence on sample files that are not there.",
  ["src/capi.rs", "src/capi/rawfile.rs", "src/capi/rawdata.rs", "src/capi/thumbnail.rs", "src/capi/bitmap.rs", "src/capi/iterator.rs", "src/capi/metavalue.rs", "src/capi/ifd.rs", "src/capi/mime.rs", "src/capi/mosaic.rs"],
  [("entry points", "src/capi/*.rs")], ["or_* functions"])

p("C20", "Canon CIFF metadata is translated to the standard metadata it stands for",
  "Opening a CIFF file, the directory heap is walked as the format defines, and make, model, image size, bit depth, orientation, dates, owner, serial number, macro mode, flash, metering, exposure program and focal length appear under the standard Exif keys with the values the CIFF records hold; the raw image and preview are the heap records' bytes.",
  ["inputs"], "all CIFF record sets, nesting, inline or heap storage, both byte orders", "Tests parse one header.",
  ["src/canon/crw/ciff.rs", "src/canon/crw/ciff/container.rs", "src/canon/crw.rs"],
  [("heap", "src/canon/crw/ciff.rs"), ("translation", "src/canon/crw/ciff/container.rs")], ["metadata(), main_ifd(), exif_ifd()"])

p("C21", "Fujifilm RAF sections are located and read as the header says",
  "Opening a RAF file, the header's offsets locate the preview, the metadata block and the raw data; sizes, crop, mosaic and white balance come from the metadata block with their exact stored values, and the Exif metadata is that of the embedded preview.",
  ["inputs"], "all section layouts and metadata blocks", "Tests cover only the identification of a RAF header.",
  ["src/fujifilm/raf.rs", "src/fujifilm.rs", "src/jpeg.rs", "src/jpeg/container.rs"],
  [("sections", "src/fujifilm/raf.rs")], ["metadata(), raw_data(), thumbnails"])

p("C22", "Minolta MRW blocks are located and read as the header says",
  "Opening an MRW file, each block of the header is found whatever the order and size of the blocks, its fields are reported with their exact stored values, the raw data starts where the header ends, and the embedded TIFF block supplies the metadata.",
  ["inputs"], "all block layouts and values", "Tests cover only the identification of an MRW header.",
  ["src/minolta.rs"], [("blocks", "src/minolta.rs")], ["metadata(), raw_data(), type_id()"])

p("C23", "Canon CR3 boxes are located and read as the container says",
  "In a well formed CR3 file the camera, previews, metadata blocks and raw data are those the box structure designates, whatever the order of the boxes, 32 or 64 bit sizes and offsets, other boxes between them and a last box that extends to the end of the file; each block's values, dimensions and data are exact. A file whose boxes aren't well formed never panics.",
  ["inputs"], "all box layouts", "Tests parse individual boxes only.",
  ["src/canon/cr3.rs", "src/mp4/container.rs", "src/mp4/parse/craw.rs", "src/mp4/parse/mod.rs"],
  [("boxes", "src/mp4/container.rs")], ["metadata(), thumbnails, raw_data()"])

p("C24", "Camera identity and colour calibration follow from the file's own model data",
  "The vendor and camera identifiers reported are those of the make and model (or model identifier) stated in the file, or the vendor's unknown model, and the calibration illuminant and colour matrices are those stated in the file or else the built-in ones of exactly that camera.",
  ["inputs"], "all makes, models and stored matrices", "Tests look up one identifier.",
  ["src/rawfile.rs", "src/camera_ids.rs", "src/tiff.rs", "src/canon.rs", "src/pentax.rs", "src/colour/matrix.rs", "src/sony.rs", "src/nikon.rs"],
  [("model maps", "per vendor"), ("matrices", "per vendor matrices")], ["type_id(), vendor_id(), colour_matrix(i), calibration_illuminant(i)"])

p("C25", "Each reader sees exactly its own window of the file",
  "Data embedded at an offset of a file (an embedded TIFF, preview or block) is read exactly as if it were a file of its own starting at that offset, at any nesting depth, however reads of other parts of the file are interleaved; reading at an offset outside the file is an error.",
  ["inputs", "histories"], "all nestings, offsets and interleavings of reads", "Unit tests read one fixed view.",
  ["src/io.rs", "src/container.rs", "src/jpeg/container.rs"],
  [("views", "src/io.rs")], ["metadata and previews of embedded containers"])

p("C26", "Fujifilm compressed raw data decodes to the image it encodes",
  "For every payload of Fujifilm's compressed raw data, lossless or lossy, Bayer or X-Trans, of 12, 14 or 16 bits and any number of strips, each decoded sample is the value the codes define; codes or headers that mean nothing never panic and never give an image: the compressed data is given instead.",
  ["inputs"], "all payloads, widths and mosaics", "There is no test of the decompressor.",
  ["src/fujifilm/decompress.rs", "src/fujifilm.rs"], [("decompress_fuji", "src/fujifilm/decompress.rs")], ["raw_data() of a compressed RAF file"])


with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
