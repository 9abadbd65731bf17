#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SRV = ["src/http.rs", "src/lib.rs", "src/resolve.rs"]
J = "openjp2-rs/src/"
HOOK = "decode of an image-request path to its typed value (private in crate laya)"

prop("C01", "Region text is parsed exactly as IIIF 3.0 section 4.1 reads it",
 "A region segment is accepted if and only if it is `full`, `square`, four unsigned integers `x,y,w,h` that fit 32 bits with w,h > 0, or `pct:` followed by four positive finite decimal numbers; the accepted value carries exactly the numbers written (percentages to single precision), in that order. Every other text is rejected with an error naming the first selector that is wrong (or the wrong selector count), never with a panic; only alternative numeral spellings such as a leading plus or an exponent may go either way, and if accepted must mean their usual value.",
 ["inputs"], "all Unicode strings as the region segment",
 "The tests try eleven literal strings; acceptance and value fidelity must hold for every string, including boundary numbers, signs, exponents, inf/NaN spellings, empty selectors and non-ASCII text.",
 ["src/iiif/parse.rs", "src/iiif.rs"], [("Region::from_str, parse_region_selectors, SpatialSelector::validate", "src/iiif/parse.rs")],
 ["typed request produced from a request path", "HTTP status and body of the server"], HOOK)

prop("C02", "Size text is parsed exactly as IIIF 3.0 section 4.2 reads it",
 "A size segment is accepted if and only if it is one of `max`, `w,`, `,h`, `w,h`, `!w,h`, `pct:n`, each optionally preceded by `^`, with w,h integers in 1..2^32-1 and n a positive finite decimal that is at most 100 unless `^` is present; the accepted value records exactly that form, those numbers (percentages to single precision) and the upscale flag. Every other text is rejected with an error describing the offending part, never with a panic; only alternative numeral spellings such as a leading plus or an exponent may go either way, and if accepted must mean their usual value.",
 ["inputs"], "all Unicode strings as the size segment",
 "The tests try about twenty literals; the combinations of ^, !, pct:, missing dimensions and boundary numbers form an infinite set.",
 ["src/iiif/parse.rs", "src/iiif.rs"], [("Size::from_str, parse_scale_percent, parse_scale_px", "src/iiif/parse.rs")],
 ["typed request", "HTTP status and body"], HOOK)

prop("C03", "Rotation, quality and format are parsed exactly, with the right MIME type",
 "A rotation is accepted if and only if it is a finite decimal number in [0, 360], optionally preceded by one `!` which sets mirroring and nothing else (alternative numeral spellings may go either way but are never misread); quality and format are accepted if and only if they are one of the lower-case names IIIF 3.0 defines, and each format maps to its registered media type. Every other text is rejected with an error of the right kind quoting it, never with a panic.",
 ["inputs"], "all Unicode strings as rotation, quality and format",
 "Tests sample five rotations, one quality and no accepted format name or media type.",
 ["src/iiif/parse.rs", "src/iiif.rs"], [("Rotation/Quality/Format::from_str, Format::mime", "src/iiif/parse.rs, src/iiif.rs")],
 ["typed request", "HTTP status and body"], HOOK)

prop("C04", "An image path decodes to exactly the request its five segments spell",
 "A path /{identifier}/{region}/{size}/{rotation}/{quality}.{format} decodes, in every build profile, to the request whose identifier is the first segment percent-decoded exactly once as UTF-8 and whose other parts are what each segment means on its own; encoding any request in canonical form and decoding it gives the same request back. If a segment is missing, malformed or not UTF-8 the error is the one for the first such segment in path order.",
 ["inputs", "configurations"], "all identifiers x all typed requests x all byte strings as paths, in debug and release builds",
 "Two literal paths are tested, only in the debug profile; identifier encodings and cross-segment interactions are unbounded.",
 ["src/http.rs", "src/iiif.rs", "src/iiif/parse.rs"], [("decode_image_request", "src/http.rs")],
 ["typed request", "HTTP status and body in debug and release"], HOOK)

prop("C05", "Rejections tell the client which element and which text was wrong",
 "Whenever an image request is rejected, the HTTP reply is 400 and its body names the first offending URI element (identifier, region, size, rotation, quality or format) and quotes the offending text or the name of what is missing; two requests that differ only in segments after the first offending one get the same reply.",
 ["inputs"], "all malformed request paths",
 "Error Display text and the mapping from parse failure to reply are not tested at all.",
 ["src/http.rs", "src/iiif/parse.rs"], [("Display for ParseError / ImageRequestError, bad_request", "src/iiif/parse.rs, src/http.rs")],
 ["HTTP status and body"], HOOK)

prop("C06", "Every HTTP request gets its one correct reply and the server keeps serving",
 "For any sequence of well-formed HTTP/1.1 or HTTP/2 requests with any method and path, on any number of concurrent, reused or abruptly closed connections and however their bytes are split into writes, each request gets exactly one complete reply, in order, whose status and body depend only on that request and the image directory. No request or connection history makes a worker stop serving later requests.",
 ["histories", "schedules", "inputs"], "all request/connection histories and segmentations of the byte stream",
 "No test opens a socket; handler totality over methods and paths, keep-alive, pipelining, partial writes and client aborts are untested.",
 SRV + ["src/bin/laya-server.rs"], [("handle_request, HyperStream, serve_http2, start", "src/http.rs, src/lib.rs")],
 ["TCP replies of the real laya-server binary"])

prop("C07", "An identifier can only ever name a file inside the image directory",
 "Whatever identifier a request carries (absolute paths, `..`, encoded separators, empty, NUL, over-long, non-ASCII), the server opens no path outside its configured image directory, and the reply does not depend on anything outside that directory.",
 ["inputs"], "all identifiers, relative to directory trees with and without a file at the escaped location",
 "No test resolves an identifier; containment is a for-all over identifiers and directory contents.",
 ["src/resolve.rs", "src/http.rs"], [("DiskImageSource::resolve", "src/resolve.rs")],
 ["HTTP replies for twin image roots that differ only outside the root"])

prop("C08", "An identifier resolves exactly when the image directory has that file",
 "A syntactically valid image request is answered 200 exactly when the percent-decoded identifier names an existing file in (or below) the image directory, for every file name Linux and UTF-8 allow, and 400 otherwise; files added to or removed from the directory are seen by later requests.",
 ["inputs", "histories"], "all sets of file names and all create/remove/request histories",
 "No test resolves an identifier or touches a directory.",
 ["src/resolve.rs", "src/http.rs"], [("DiskImageSource::resolve, image_request", "src/resolve.rs, src/http.rs")],
 ["HTTP replies of the real laya-server binary over a scratch image directory"])

ENC = [J+"j2k.rs", J+"tcd.rs", J+"t1.rs", J+"t2.rs", J+"pi.rs", J+"dwt.rs", J+"mct.rs", J+"mqc.rs", J+"bio.rs", J+"tgt.rs", J+"image.rs", J+"codec.rs"]
prop("C10", "Lossless coding returns exactly the image that was encoded",
 "For every image (any component count, size, offset, subsampling, precision and signedness the encoder accepts) and every reversible encoder configuration (tiling, resolutions, code-block size and style, precincts, progression order and changes, layers with a lossless last layer, tile-parts, ROI, colour transform, SOP/EPH/PLT/TLM), encoding succeeds and decoding the result returns the same sample values, dimensions, offsets, precision and signedness, as raw codestream and inside JP2.",
 ["inputs", "configurations"], "all images x all reversible encoder configurations x {J2K, JP2}",
 "The encoder is not tested at all; the decoder only on one file whose pixels are not checked.",
 ENC + [J+"jp2.rs"], [("encoder and decoder pipelines", J+"tcd.rs"), ("5/3 wavelet, RCT", J+"dwt.rs, "+J+"mct.rs"), ("EBCOT tier-1/2", J+"t1.rs, "+J+"t2.rs, "+J+"mqc.rs")],
 ["opj_encode / opj_decode"])

prop("C11", "Lossy coding stays within its rate and quality contract",
 "For every image and irreversible or rate/quality-limited configuration, decoding succeeds with the original geometry and in-range samples; unconstrained irreversible coding reproduces samples within the small error that the default quantiser step implies, each requested byte budget is respected by the codestream, a requested PSNR is met, and decoding more quality layers never makes the total squared error materially worse.",
 ["inputs", "configurations"], "all images x lossy configurations",
 "Nothing tests the lossy path: 9/7 transform, quantisation, rate allocation, layers.",
 [J+"tcd.rs", J+"dwt.rs", J+"mct.rs", J+"t1.rs", J+"j2k.rs"], [("opj_tcd_rateallocate, makelayer", J+"tcd.rs"), ("9/7 transform, step sizes", J+"dwt.rs")],
 ["opj_encode / opj_decode"])

prop("C12", "What the encoder writes is a standard-conforming codestream",
 "Every codestream or JP2 file the encoder reports success for is readable by an independent ISO 15444-1 implementation: marker segments, tile-part lengths, TLM/PLT contents, packet headers, code-block segments and box structure all agree with the standard and with each other, and that implementation reconstructs the same samples that this library's own decoder does (exactly for reversible coding).",
 ["inputs", "configurations"], "all images x encoder configurations",
 "A round trip through the same library cannot see an error made symmetrically in encoder and decoder; no test compares against the standard.",
 ENC + [J+"jp2.rs"], [("marker writers", J+"j2k.rs"), ("packet and block coding", J+"t2.rs, "+J+"t1.rs, "+J+"mqc.rs")],
 ["bytes produced by opj_encode, judged by the reference decoder in /verif"])

prop("C13", "The decoder implements the standard, also for streams it cannot itself encode",
 "For every conforming codestream, including ones with packed packet headers (PPM/PPT), per-component and per-tile coding and quantisation overrides, POC, derived quantisation, interleaved or out-of-order tile-parts, unknown and comment segments, and high-throughput (HT) code-blocks, decoding gives the samples the standard prescribes, at full and reduced resolution.",
 ["inputs", "configurations"], "all conforming codestreams within size bounds",
 "One real file is decoded and its pixels are not examined.",
 [J+"j2k.rs", J+"t2.rs", J+"t1.rs", J+"ht_dec.rs", J+"dwt.rs", J+"pi.rs"], [("marker readers", J+"j2k.rs"), ("HT block decoder", J+"ht_dec.rs")],
 ["opj_decode on generated streams, judged by a reference model"])

prop("C14", "Decoding a region gives the same samples as cropping a full decode",
 "For every decodable stream and every rectangle accepted for it, decoding with that rectangle succeeds and returns an image whose bounds are the rectangle clipped to the image and whose samples equal those of the full decode at the same coordinates, for every component, subsampling and reduction factor, and also when several regions are decoded in turn.",
 ["inputs", "histories"], "all streams x rectangles x reductions, and sequences of rectangles",
 "No test decodes a region; partial decoding has its own inverse-wavelet, sparse-array and tile-selection code.",
 [J+"dwt.rs", J+"sparse_array.rs", J+"tcd.rs", J+"j2k.rs"], [("opj_j2k_set_decode_area, partial IDWT, sparse arrays", J+"j2k.rs, "+J+"dwt.rs, "+J+"sparse_array.rs")],
 ["opj_set_decode_area + opj_decode"])

prop("C15", "Resolution reduction and layer limits scale the image and change nothing else",
 "Decoding with r resolution levels discarded gives component dimensions ceil(x1/2^r)-ceil(x0/2^r) (from the component's corners on the reference grid) and exactly the low-pass image the standard defines, whichever interface requested the reduction; decoding with a layer limit l gives exactly what decoding a stream truncated to its first l layers gives; impossible reductions are refused without damage.",
 ["inputs", "configurations"], "all streams x reductions x layer limits",
 "cp_reduce, cp_layer and opj_set_decoded_resolution_factor are never exercised.",
 [J+"j2k.rs", J+"tcd.rs", J+"dwt.rs", J+"t2.rs"], [("cp_reduce / m_reduce, cp_layer, minimum_num_resolutions", J+"j2k.rs, "+J+"tcd.rs")],
 ["opj_dparameters cp_reduce/cp_layer, opj_set_decoded_resolution_factor"])

prop("C16", "Tile-by-tile access equals whole-image access",
 "Reading the tiles of a stream one at a time (by index in any order, or sequentially as raw tile data) yields exactly the samples the whole-image decode has in each tile's area, and writing an image tile by tile through the tile interface yields a stream that decodes to the same image as encoding it whole.",
 ["histories", "inputs"], "all tilings x tile orders x stream layouts",
 "The tile interfaces have no test.",
 [J+"j2k.rs", J+"tcd.rs", J+"openjpeg.rs"], [("opj_get_decoded_tile, opj_read_tile_header, opj_decode_tile_data, opj_write_tile", J+"openjpeg.rs, "+J+"j2k.rs")],
 ["tile interfaces"])

prop("C17", "Decoding a subset of components equals selecting them from a full decode",
 "For every stream and every set of distinct component indices, restricting the decoder to them succeeds and yields, for each selected component, exactly the samples that decoding all components without the inter-component transform yields; invalid sets (out of range, duplicated) are refused.",
 ["inputs"], "all streams x index sets",
 "Never exercised by a test.",
 [J+"j2k.rs", J+"tcd.rs"], [("opj_j2k_set_decoded_components", J+"j2k.rs")], ["opj_set_decoded_components"])

prop("C18", "JP2 container metadata survives and is applied as the standard says",
 "Colour space, ICC profile, per-component bit depth and signedness written in a JP2 file come back on decode; palettes, component mappings and channel definitions (including alpha and channel reordering) are applied to the samples exactly as ISO 15444-1 Annex I prescribes; the codestream inside decodes as it would alone; unknown boxes, box order variations the standard allows and XL/zero-length boxes do not change the result.",
 ["inputs", "configurations"], "all JP2 box structures within size bounds",
 "One JP2 file is decoded without looking at the result.",
 [J+"jp2.rs"], [("box readers/writers, opj_jp2_apply_pclr, apply_cdef", J+"jp2.rs")], ["opj_read_header + opj_decode on OPJ_CODEC_JP2"])

prop("C19", "Hostile input is refused or decoded, never memory-unsafe, never a crash",
 "For every byte string given to the decoder as codestream or JP2 file, with any decoding options, each call returns success or failure without panicking, aborting, reading or writing outside its memory or running away in memory; a success leaves an image whose components have allocated data of the size their dimensions state.",
 ["inputs"], "all byte strings x decoding options",
 "Only one valid file is ever decoded; the code is largely unsafe pointer arithmetic ported from C.",
 [J+"j2k.rs", J+"jp2.rs", J+"t2.rs", J+"t1.rs", J+"ht_dec.rs", J+"dwt.rs", J+"tcd.rs", J+"pi.rs", J+"tgt.rs"], [("length and range checks in every marker and box reader", J+"j2k.rs, "+J+"jp2.rs")],
 ["decoder return values under AddressSanitizer with overflow checks"])

prop("C20", "A truncated stream decodes to what it still holds, or strict mode refuses it",
 "For every stream cut at any byte after its main header, the lenient decoder (strict mode off) still succeeds and returns an image of the right geometry in which all code-blocks whose data lies before the cut are intact, so complete tiles before the cut are unchanged; in strict mode a stream missing packet data its headers promise is refused.",
 ["crash_points", "inputs"], "all streams x all cut positions x strict/lenient",
 "No truncated input is tested.",
 [J+"j2k.rs", J+"t2.rs", J+"stream.rs"], [("opj_j2k_read_sod partial reads, m_strict", J+"j2k.rs, "+J+"t2.rs, "+J+"stream.rs")], ["opj_decoder_set_strict_mode + opj_decode"])

prop("C21", "How bytes are transported never changes what is coded or decoded",
 "For every stream and operation history, the result (samples, or bytes written) is the same for file streams, memory callbacks, any buffer size, any pattern of short reads and writes by the callbacks, and any legal callback contract (forward-only skip plus absolute seek); user-data free functions run exactly once.",
 ["schedules", "inputs"], "all streams x buffer sizes x short-read/short-write schedules",
 "The two tests use one default buffer size and full reads; buffering, seeking and the write side are untested.",
 [J+"stream.rs", J+"openjpeg.rs"], [("Stream::{read,write,skip,seek}, CustomStream", J+"stream.rs")], ["opj_stream_* API"])

prop("C22", "An I/O fault makes the operation fail cleanly, never succeed wrongly",
 "If a read, write, skip or seek callback fails at any point, or a file cannot be opened or written, the library call reports failure (or, for reads in lenient mode, behaves as for truncation), never panics or touches invalid memory, and never reports success for output that was not fully delivered.",
 ["fault_sequences"], "all operations x all fault positions and kinds",
 "No fault is injected by any test.",
 [J+"stream.rs", J+"openjpeg.rs", J+"j2k.rs", J+"jp2.rs"], [("error propagation in Stream and the marker readers/writers", J+"stream.rs, "+J+"j2k.rs")], ["return values of opj_* calls under injected faults"])

prop("C23", "Results are a function of inputs alone, not of history or other threads",
 "Encoding or decoding the same input with the same parameters gives byte-identical or sample-identical results whatever other codec objects were used, failed or abandoned before in the process, whatever thread count is requested, and while other threads encode and decode unrelated images.",
 ["histories", "schedules"], "all interleavings of codec uses in one process",
 "Tests decode one file once; there are process-global and thread-local caches in the code.",
 [J+"t1.rs", J+"ht_dec.rs", J+"codec.rs", J+"j2k.rs"], [("thread_local T1 state, static HT warning flag", J+"t1.rs, "+J+"ht_dec.rs")], ["encode/decode results"])

prop("C24", "Codestream information and index describe the actual stream",
 "For every stream, the reported codestream information (tile grid, component coding parameters, layers, progression, transform) equals what the stream's markers say, and the codestream index lists marker and tile-part positions at which those markers really are, with consistent start, header-end and end positions.",
 ["inputs"], "all streams",
 "The introspection interfaces have no test.",
 [J+"j2k.rs", J+"openjpeg.rs"], [("j2k_get_cstr_info, j2k_get_cstr_index, opj_j2k_add_mhmarker/tlmarker", J+"j2k.rs")], ["opj_get_cstr_info, opj_get_cstr_index"])

prop("C25", "Encoder parameters are honoured or refused, never silently corrupting",
 "For every encoder parameter set and image, in range or not, set-up either refuses it with a clean failure or the resulting stream is valid, decodable and declares the requested structure (tile grid, progression, layers, resolutions, code-block size and style, precincts, profile capabilities, comment).",
 ["configurations"], "all parameter sets including out-of-range ones",
 "No encoder test exists.",
 [J+"j2k.rs", J+"jp2.rs", J+"c_api_types.rs"], [("opj_j2k_setup_encoder validation and profile enforcement", J+"j2k.rs")], ["opj_setup_encoder return value and the stream produced"])

prop("C26", "Any order of API calls is memory-safe and releases everything exactly once",
 "For every sequence of library calls that respects object lifetimes, including calls on the wrong kind of codec, out of order, repeated, with null handles, or abandoned half-way, each call returns success or failure without undefined behaviour, and after the caller destroys what it created no memory stays allocated and nothing is freed twice.",
 ["histories"], "all API call sequences",
 "Tests make one straight-line call sequence and do not check memory.",
 [J+"openjpeg.rs", J+"codec.rs", J+"image.rs", J+"j2k.rs", J+"jp2.rs", J+"tcd.rs"], [("null and kind checks, Drop impls, destroy functions", J+"openjpeg.rs, "+J+"image.rs")], ["API return values under AddressSanitizer and LeakSanitizer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
