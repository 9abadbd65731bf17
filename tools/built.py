HOOKS = ["e62a03e27b2b187b7706f3953c657092eb8891e9"]
FIXPROP = {
    "skip the leading slash": "C04", "refuse region percentages": "C01", "refuse upscaling percentages": "C02",
    "answer info.json": "C06", "quote region selectors": "C05", "keep identifiers inside": "C07",
    "refuse identifiers which contain NUL": "C08", "keep accepting": "C06", "no content in replies to HEAD": "C06",
    "initialise the working buffer when decoding a region": "C14", "no inverse transform of tile components": "C14",
    "decode enough around a region": "C14",
    "read raw tile data of tiles in which": "C16",
    "keep the data read before the end": "C21", "seek with the seek function": "C21", "go on skipping when": "C21",
    "create file streams": "C22", "no panic when a stream is longer": "C21",
    "destroying no codestream information": "C26", "free the ICC profile": "C26", "no slice of components": "C26",
    "codestream information and index of codecs": "C24", "dump no decoder state": "C26", "write the ICC profile": "C18",
    "refuse to decode before a header": "C26", "read one header with a decoder": "C26", "decode only into an image": "C26",
    "a refused resolution factor": "C15", "setting up an encoder again": "C26", "encode only after set-up": "C26",
    "refuse more tiles than": "C26", "a copied image has": "C26", "encode whole images only from": "C26",
    "refuse tile grids which": "C25", "refuse raw tile data when": "C26", "an image keeps no samples": "C26",
    "leave out no packets of large": "C13", "no overflow when a band has less": "C19", "refuse to encode images without": "C25",
    "a changed resolution factor": "C15", "size of a reduced component": "C15", "refuse to discard more": "C15", "refuse coding parameters": "C25", "encoder options only between": "C26",
    "keep account of the tile buffer": "C26", "read no further tile headers": "C26", "refuse tile grids whose": "C25",
    "decode no codestream whose reading": "C26",
    "take no more memory for": "C19", "compute the size of a palette": "C19", "signal components that differ only in sign": "C18",
    "write the colour space of CMYK": "C18", "keep enough bytes of a truncated": "C12",
    "nothing to transform irreversibly": "C15", "a component without samples has been": "C15",
    "decode areas of interest in which": "C14", "a custom component transform needs": "C26", "invert the matrix of a custom": "C26", "apply a custom component transform": "C26",
    "damaged samples wrap around": "C19", "allocate for a truncated tile-part": "C19", "decode again only into an image": "C17",
    "decode tiles whose packets have no bodies": "C13", "a COC marker has priority": "C13", "a QCC marker has priority": "C13",
    "skip unknown marker segments": "C13", "progression order changes: of a tile": "C13", "packed packet headers of the main header": "C13",
    "read a tile with packed packet headers": "C16", "skip a last tile-part whose length": "C13", "read a tile again by its index whose": "C16",
    "report all precinct sizes": "C24", "copy the number of each tile": "C24", "list each marker once": "C24", "list the tile-parts of a tile": "C24",
    "keep the code-blocks which have no data": "C20", "do not read a packet header from": "C20", "ignore a packet header cut short": "C20",
    "decode what a stream holds which ends within": "C20", "do not refuse a stream because": "C20", "leave what a stream cut short": "C20",
    "decode all tiles of a stream without EOC": "C20", "decode a tile at the wanted resolution": "C20", "read no packed packet headers after": "C20",
    "read the packed header of a packet whose SOP": "C20",
    "extend the sign of palette": "C18", "refuse palette entries which": "C18", "a channel used directly": "C18", "map channels as": "C18",
    "take the component mapping": "C18", "keep the opacity of a channel": "C18", "decode further areas and tiles of a file": "C18", "apply a palette to an area": "C18",
    "count no tile data when none": "C20", "double single high-pass samples": "C11", "reach the requested quality": "C11", "no unlimited rate where": "C11",
    "let the rate allocation leave out": "C11",
    "count no tile-parts for": "C25", "decode regions in turn": "C14", "no cinema profile": "C25", "take no more coding passes": "C25", "limit the components of small": "C25",
    "signal no profile which": "C25", "refuse region-of-interest shifts": "C25", "check the precincts of all": "C25", "encode all components with": "C25",
    "force one decomposition level": "C25", "shift all samples which": "C25", "bound the layers and": "C25", "refuse empty progression": "C25",
    "encode images with much larger": "C25", "refuse negative tile": "C25", "refuse numbers of guard": "C25", "no length below zero for a last tile-part": "C20",
}
built("C01", "property-based testing: region texts from the IIIF grammar with mutations and boundary numerals, differential against an independent reading of IIIF 3.0 section 4.1",
      "Random search over texts in debug-assertion and plain release builds. What the specification leaves open (extra numeral forms) is not judged.")
built("C02", "property-based testing: size texts from the IIIF grammar with mutations and boundary numerals, differential against an independent reading of IIIF 3.0 section 4.2",
      "Random search over texts in debug-assertion and plain release builds.")
built("C03", "property-based testing: rotation and quality.format texts from the grammar with mutations, differential against an independent reading of IIIF 3.0 sections 4.3-4.5",
      "Random search over texts in debug-assertion and plain release builds.")
built("C04", "property-based testing: whole request paths, canonical and spoiled, differential against an independent decoder of IIIF request paths",
      "Random search over paths in debug-assertion and plain release builds.")
built("C05", "property-based testing of error messages: offending paths against an oracle of which element and text is wrong, and metamorphic variation of later segments; library level and over HTTP",
      "The exact wording is not judged, only which element and text it names and that it does not depend on what follows.")
built("C06", "stateful fuzzing of the running server: generated histories of concurrent HTTP/1 and HTTP/2 connections with pipelining, splits, aborts and junk, oracle = the reply to the same request alone, plus liveness probes",
      "Debug and release server binaries in network namespaces of their own; the schedule of the server's threads is not controlled.")
built("C07", "property-based testing of the running server with hostile identifiers, oracle = observed file opens (inotify) and replies against planted files outside the image directory",
      "Symbolic links inside the image directory are not generated.")
built("C08", "model-based stateful testing: histories of file creation, removal, renaming and requests against a model of the directory",
      "Debug and release server binaries.")
built("C10", "property-based round-trip testing: generated images x reversible encoder configurations, oracle = identity",
      "Random search with shrinking; every case runs in a debug-assertion/overflow-checked build and in a plain release build. Trusts nothing but the comparison of samples.")
built("C11", "property-based testing of lossy coding: generated images x rates, qualities and unconstrained irreversible coding, oracle = bounds of the error, an independent model of the byte budget of each tile and layer with the packets counted by an independent parser, the quality asked for or reachable, and errors which layers do not raise",
      "Random search with shrinking in debug-assertion and plain release builds. Budgets are judged where all components agree in precision and subsampling; qualities with a slack of 11 to 18 dB by size and level, as the encoder's distortion is an estimate; errors by layers for images with noise.")
built("C12", "differential property-based testing: generated images x encoder configurations, oracle = an independent decoder written from ISO/IEC 15444-1 (markers, packets, MQ coder, wavelets), which has to read the stream and find the same samples",
      "Random search with shrinking in debug-assertion and plain release builds. Samples of irreversible coding are compared within a rounding tolerance (1 + 2^(precision-12)).")
built("C13", "differential property-based testing: codestreams assembled outside the library (packet headers, markers and tile-parts written anew around coded code-blocks; PPM/PPT, POC, per-tile and per-component parameters, other precincts and steps, interleaved tile-parts, unknown segments), oracle = an independent decoder written from ISO/IEC 15444-1; also by regions and tiles",
      "Random search with shrinking in debug-assertion and plain release builds. The coded bytes of code-blocks come from the library's own encoder and are read by both decoders; samples of irreversible coding are compared within a rounding tolerance.")
built("C14", "metamorphic property-based testing: generated streams x regions x reductions x layer limits, oracle = the same samples cut out of the decode of the whole image",
      "Random search with shrinking in debug-assertion and plain release builds; regions in turn from one codec as well as one codec each.")
built("C15", "differential and metamorphic property-based testing: generated images x configurations x reductions x layer limits by every interface, oracle = an independent standard decoder run at that reduction and with that many layers, and equality between the interfaces",
      "Random search with shrinking in debug-assertion and plain release builds. Irreversible samples are compared within the rounding tolerance of C12.")
built("C16", "metamorphic property-based testing: generated streams x orders and ways of reading their tiles (tile index, raw tile data, tile-by-tile whole decode), oracle = the tile cut out of the decode of the whole image",
      "Random search with shrinking in debug-assertion and plain release builds.")
built("C17", "metamorphic property-based testing: generated streams x component subsets x regions, oracle = the same components of the whole decode",
      "Random search with shrinking in debug-assertion and plain release builds.")
built("C18", "differential property-based testing: generated JP2 files (palettes, component mappings, channel definitions, colour specifications, box orders and forms) around generated codestreams, decoded whole, by areas and tiles in turn, oracle = the codestream decoded alone with a model of ISO/IEC 15444-1 Annex I applied; and a round trip of what the encoder writes",
      "Random search with shrinking in debug-assertion and plain release builds. CIELab parameters are not generated; where the definition leaves channels which are no colours is not judged.")
built("C19", "structure-aware mutation fuzzing of codestreams and JP2 files under every way of decoding, oracle = no panic, crash, sanitizer report or hang, memory in proportion to input and declared dimensions, sound images on success",
      "Debug-assertion, plain release and AddressSanitizer builds; declared dimensions are small in most cases so that decoding is reached.")
built("C20", "fault-injection property-based testing: generated and assembled streams cut at generated positions (packets, headers, markers, anywhere), oracle = an independent decoder run on what is left, code-block by code-block through the wavelet's reach; strict mode has to refuse promised data that is missing",
      "Random search with shrinking in debug-assertion and plain release builds. Code-blocks whose own data are cut may have any value. Strict mode is judged where a begun tile-part misses data, not where whole tile-parts are missing.")
built("C21", "metamorphic property-based testing: generated images and streams x transports (chunk sizes, buffer sizes, short reads, writes and skips, files), oracle = the bytes and samples of the plain in-memory transport",
      "Random search with shrinking in debug-assertion and plain release builds.")
built("C22", "fault injection into generated encodes and decodes: every kind of transport call fails at a generated point, oracle = failure is reported, what was reported as success is complete",
      "Random search with shrinking in debug-assertion and plain release builds.")
built("C23", "metamorphic property-based testing: the same encode or decode after other work, with other thread counts, with concurrent work and with freshly poisoned memory, oracle = equal bytes and samples",
      "The interleaving of threads is the operating system's; uninitialised memory is exposed by two poison patterns of the allocator.")
built("C24", "differential property-based testing: codestream information and index of generated and assembled streams, after the header, after decoding, after tiles in any order and after encoding, oracle = an independent parser of the markers",
      "Random search with shrinking in debug-assertion and plain release builds.")
built("C25", "property-based testing: encoder parameter sets from valid and invalid alike (every field of the parameters, options, profiles, unusual images), oracle = a failure of a call, or a stream which an independent parser and decoder find valid, and which declares what was asked",
      "Random search with shrinking in debug-assertion, plain release and AddressSanitizer builds. Incomplete progression order changes may leave packets out; the limits of the profiles are judged where the library grants one.")
built("C26", "stateful fuzzing of the C API: generated sequences of library calls on codecs, streams, images and information objects (wrong kind, wrong order, repeated, null, failing transport, damaged streams), oracle = no sanitizer report, panic or crash, balanced allocations and user-data frees",
      "Debug-assertion, plain release and AddressSanitizer builds. Object lifetimes are respected; the size of buffers that the interface cannot check is right.")
