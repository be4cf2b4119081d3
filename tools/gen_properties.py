#!/usr/bin/env python3
"""Single source for properties.jsonl (kept in step with checks by hand)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
FG="src/fastgltf.cpp"; CORE="include/fastgltf/core.hpp"; TY="include/fastgltf/types.hpp"; TO="include/fastgltf/tools.hpp"; MA="include/fastgltf/math.hpp"; UT="include/fastgltf/util.hpp"; IO="src/io.cpp"; B64="src/base64.cpp"; B64H="include/fastgltf/base64.hpp"

p("C01","Loading any bytes is memory-safe and always ends in an asset or an error",
 "Handing any sequence of bytes, however malformed or truncated, to any of the loading entry points, with any combination of options, extensions and categories, returns either an asset or an error code: it never reads or writes out of bounds, executes undefined behaviour, throws past the API, aborts, leaks, or allocates memory out of all proportion to the input. The same holds for validating the asset that was obtained, exporting it, and destroying it.",
 ["inputs","configurations"],"All byte strings (JSON, binary glTF, neither), all option/extension/category masks, all data-getter kinds.",
 "The suite loads a few dozen well-formed sample files (which are not even present here) and checks a handful of rejections; memory safety is a statement about every byte string.",
 [FG,IO,B64,TY],[("Parser::loadGltf / loadGltfJson / loadGltfBinary and all parse* functions",FG),("getJsonArray and Error plumbing",FG),("GltfDataGetter implementations",IO)],
 observe=["process outcome under ASan+UBSan+LeakSanitizer","Expected<Asset>::error()"])
p("C02","A valid core glTF document is parsed into exactly the data it states",
 "For every valid document, the loaded asset contains exactly the objects of the document - same order, names, indices, numbers, enumerations, accessor bounds, transforms, cameras, animations, skins, samplers, textures, material factors and asset information - and every omitted property has the default the glTF 2.0 specification gives it. Nothing is dropped, duplicated, or taken from a neighbouring object, and looking an attribute up by its name finds the one the document states under that name, or none.",
 ["inputs"],"All valid glTF 2.0 documents using core features, any member order, any subset of optional members present.",
 "Unit tests compare a few fields of a few sample assets; which combination of optional members is present and in which order is unbounded.",
 [FG,TY],[("parseAccessors, parseAnimations, parseBuffers, parseBufferViews, parseCameras, parseImages, parseMaterials, parseMeshes, parseNodes, parseSamplers, parseScenes, parseSkins, parseTextures",FG),("type defaults",TY)],
 observe=["public members of fastgltf::Asset, Primitive::findAttribute, Primitive::findTargetAttribute, Node::findInstancingAttribute"])
p("C03","Enabled extensions are parsed into exactly the data the document states",
 "When an extension is enabled in the parser, its data in materials, textures, texture transforms, nodes, meshes, buffer views, lights, material variants, GPU instancing, implicit shapes and physics appears in the asset with exactly the stated values, and omitted members take the default of that extension's specification. Data of one texture, material or node never appears on another.",
 ["inputs","configurations"],"All valid documents using any subset of the supported extensions, any presence pattern of optional members.",
 "Tests load one sample per extension; most of those samples are unavailable offline and presence patterns are never varied.",
 [FG,TY],[("parseMaterialExtensions, parseTextureInfo, parseTextureExtensions, parsePrimitiveExtensions, parseLights, parsePhysics*, parseShapes",FG)],
 observe=["extension members of fastgltf::Asset, Material, Node, BufferView, Primitive"])
p("C04","Extensions the caller did not enable are refused when required, ignored when not",
 "A document that lists a required extension fails with an unknown-required-extension error if the library does not know that extension and with a missing-extensions error if the caller did not enable it, whichever position the extension has in the list; otherwise it loads. Data of an extension that was not enabled and is only used, not required, has no effect on the loaded asset: it is as if that extension's data were absent from the document.",
 ["inputs","configurations"],"All subsets of enabled extensions crossed with all used/required lists and with presence of the extension payload.",
 "Tests enable exactly what a sample needs; the product of extension masks and payloads is not sampled.",
 [FG,CORE],[("extensionsRequired loop of Parser::parse",FG),("hasBit(config.extensions, ...) guards in every parser",FG),("extensionStrings table",CORE)],
 observe=["returned Error","public members of fastgltf::Asset"])
p("C05","Documents that violate required structure are rejected with an error",
 "A document that lacks a member the specification requires, gives a required member a JSON type other than the one required, or is not JSON at all, is rejected with an error rather than loaded with an invented or uninitialised value; an optional member of a wrong type is either rejected or treated as absent; a missing or unusable asset declaration, an unsupported version and bad JSON are reported as the specific errors documented for them. Mutating one object never turns into a successful load in which that object is silently missing.",
 ["inputs"],"All single structural faults (missing required member, wrong JSON type, out-of-range enumeration or negative index) at any object of any valid document.",
 "Tests check three or four hand-written broken documents; there is one fault per member per object kind.",
 [FG],[("error returns of parse* functions",FG),("parseAssetInfo/version checks in Parser::parse",FG),("Error enum",CORE)],
 observe=["returned Error"])
p("C06","Category selection loads exactly the selected kinds of object",
 "Restricting the load to a set of categories leaves every selected kind of object identical to what a full load produces and every unselected kind empty, for every set of categories (selecting a kind also selects the kinds it refers to). Skipped kinds are not interpreted, so they cannot change the outcome for the selected ones.",
 ["inputs","configurations"],"All category masks over all valid documents, including documents whose unselected parts are malformed.",
 "One test uses one mask on one sample.",
 [FG,CORE],[("KEY_SWITCH_CASE / hasBit(categories, ...) in Parser::parse",FG),("Category enum",CORE)],
 observe=["public members of fastgltf::Asset"])
p("C07","Buffer and image bytes reach the user unmodified whatever their source",
 "Whether a buffer or image comes from a data URI, an external file, or the container's own binary chunk, the bytes exposed by the asset are exactly the source bytes, of at least the declared length; external files are only read when the caller asked for it, resolved relative to the given directory with percent-decoding applied once, with file offset zero and the whole file covered. When the bytes cannot be supplied (missing file, undecodable or too-short data) loading reports an error instead of exposing other bytes.",
 ["inputs","configurations","fault_sequences"],"All payload lengths and contents, file names (spaces, percent escapes, unicode, sub-directories), load options, and missing/short/unreadable files.",
 "Tests use three fixed assets; lengths modulo block sizes, odd names and faults are not covered.",
 [FG,IO,B64],[("parseBuffers/parseImages, decodeDataUri, loadFileFromUri, decodeUri",FG),("LoadExternalBuffers/LoadExternalImages",CORE)],
 observe=["DataSource variants in Buffer::data and Image::data"])
p("C08","Binary glTF containers are read strictly by their header and chunk lengths",
 "A well-formed binary container yields the same asset as the plain JSON it embeds, with its binary chunk (up to its padding, whatever unknown chunks are around it) as the data of its buffer 0 when that has no URI; a container with a wrong magic, version, chunk type, or with lengths that do not fit the data is rejected. The reported file type of any data is binary exactly when it starts with the container magic.",
 ["inputs"],"All container layouts: chunk lengths, missing/empty/padded/oversized chunks, all truncation points, all header fields.",
 "Tests load two valid files; truncation points and header field values are not enumerated.",
 [FG],[("Parser::loadGltfBinary, determineGltfFileType, BinaryGltfHeader/Chunk",FG)],
 observe=["returned Error, Asset::buffers[0].data"])
p("C09","All ways of handing a file to the parser give the same bytes and result",
 "Loading the same content from memory, from a stream, or from a memory-mapped file gives identical assets or identical errors, for files of any size including empty and page-multiple sizes; a data source can be reset and reused, reports its exact size, and reads return exactly the requested range of the file. Opening something that cannot be opened is reported as an error and leaks nothing.",
 ["inputs","histories","fault_sequences"],"All file sizes and read/reset sequences over all getter implementations; missing, empty, unreadable files.",
 "Tests compare the getters on one sample only.",
 [IO,CORE],[("GltfDataBuffer, GltfFileStream, MappedGltfFile",IO)],
 observe=["GltfDataGetter::read/reset/bytesRead/totalSize","loadGltf result"])
p("C10","A parse result depends only on its inputs, and an asset outlives its parser",
 "Parsing a document with a parser that was used before - for other documents, after failures, with other options or categories - gives the same asset or error as a fresh parser. An asset stays intact after its parser and input data are destroyed or reused, and moving an asset, including over one that already holds data, transfers its content unchanged.",
 ["histories","inputs"],"All sequences of loads (successful, failing, JSON, binary), moves, and destruction orders.",
 "Tests create a fresh parser nearly everywhere.",
 [FG,CORE,TY],[("Parser members glbBuffer, jsonParser, config, directory; Parser::fillCategories",FG),("Asset move operations and memoryResource",TY)],
 state=[("Parser::glbBuffer","binary chunk of the current container",CORE),("Asset::memoryResource","pool backing container memory",TY)],
 observe=["Asset content after history","ASan use-after-free"])
p("C11","Independent parsers, exporters and readers can run concurrently",
 "Threads that each use their own parser, exporter or decoder, and threads that only read a shared asset, never race on memory and get the results a single-threaded run gives, including when they are the first users in the process.",
 ["schedules","inputs"],"All interleavings of independent loads, exports, validations, decodes and accessor reads on any number of threads.",
 "No test starts a thread.",
 [FG,B64,TO],[("global SIMD dispatch and lookup tables (base64::decode, fillCrcTable/crc32c)",FG),("simdjson parser per Parser",FG)],
 observe=["ThreadSanitizer reports","per-thread asset dumps"])
p("C12","User callbacks are called exactly when promised, with exactly the right data",
 "Each buffer that is loaded into caller-provided memory causes one map call for the exact byte count followed by one unmap call with the handle that map returned, after the full correct content was written, and the asset records that handle; a custom base64 decoder sees every base64 payload exactly with its decoded length; the extras callback sees the extras object of every element of the document's top-level object arrays (the kinds a category names) that has one exactly once, with the right index and category. Clearing a callback restores default behaviour.",
 ["inputs","histories","configurations"],"All documents, payload sizes and callback combinations; callbacks that decline to provide memory.",
 "One test per callback with a single payload.",
 [FG,CORE],[("BufferAllocationCallback map/unmap use in decodeDataUri, loadFileFromUri, loadGltfBinary",FG),("extrasCallback calls",FG),("base64DecodeCallback",FG)],
 observe=["recorded callback event log"])
p("C13","Every base64 decoder returns exactly the encoded bytes",
 "For every non-empty byte string, decoding its base64 text with any of the available implementations - generic or vectorised, returning a vector or writing in place - gives exactly the original bytes and never touches memory outside the input text and the decoded size; the padding and output-size helpers agree with the text.",
 ["inputs","configurations"],"All byte strings and lengths (all residues of every vector width), all implementations the CPU offers, any buffer alignment.",
 "Tests decode a few fixed strings whose lengths hit few residues.",
 [B64,B64H],[("sse4_decode_inplace, avx2_decode_inplace, fallback_decode_inplace, getOutputSize, getPadding, dispatch",B64)],
 observe=["decoded bytes, canaries around output, ASan"])
p("C14","URIs are split into their components and decoded as RFC 3986 says",
 "For every URI reference, the scheme, user info, host, port, path, query and fragment reported are those of the RFC 3986 grammar, percent-escapes are decoded exactly once, and classification as data URI or local path follows from them. Copying, moving or re-assigning a URI preserves or replaces all its components, which stay valid for the lifetime of that object.",
 ["inputs","histories"],"All strings, valid URI references for the component values; all sequences of construct/copy/move/assign.",
 "Tests parse ten fixed URIs.",
 [FG,CORE],[("URIView::parse, decodePercents, URI::readjustViews, URI copy/move",FG)],
 observe=["URI/URIView accessors"])
p("C15","Every accessor read path returns the converted element values of the spec",
 "For every valid accessor - any component type, element type, normalisation, stride and offset, with padded matrix columns - random access, iteration, callback iteration, and bulk copying all deliver the same values: the stored components in order, converted by the specification's normalisation rule where normalised and by numeric conversion otherwise, and a copy writes exactly the destination elements and nothing else.",
 ["inputs","configurations"],"All component types x element types x normalised x strides x offsets x counts x destination types.",
 "Tests cover a few accessor shapes on sample models.",
 [TO,TY],[("getAccessorElement, iterateAccessor, iterateAccessorWithIndex, copyFromAccessor, copyComponentsFromAccessor, IterableAccessor, internal::convertComponent/convertAccessorElement",TO),("getElementByteSize, getNumComponents",TY)],
 observe=["values delivered to the user, destination canaries"])
p("C16","Sparse and storage-less accessors read as base values with substitutions",
 "An accessor without a buffer view reads as zeros; with sparse data, exactly the listed elements are replaced by the listed values, for every read path, any index width, any number of substitutions including at the first and last element. All read paths agree with each other.",
 ["inputs","configurations"],"All sparse index sets, index component types, value types, with and without base buffer view; every read path.",
 "One sparse sample model in the tests.",
 [TO],[("internal::findSparseIndex, IterableAccessor/AccessorIterator sparse handling, sparse branches of getAccessorElement/copyFromAccessor",TO)],
 observe=["values delivered to the user"])
p("C17","Generated primitive indices draw the same geometry and stay in bounds",
 "Asking the loader to generate indices gives every primitive without indices an index accessor that lists, in drawing order, the same vertices the non-indexed primitive draws for its topology, stored in a buffer view large enough for it; all indices are smaller than the vertex count, and nothing else in the asset changes.",
 ["inputs"],"All primitive modes and vertex counts, including counts that are not a multiple of the topology's step, several primitives per mesh, and existing indices.",
 "One sample in the tests.",
 [FG],[("generateMeshIndices, writeIndices",FG)],
 observe=["Primitive::indicesAccessor read through the accessor tools"])
p("C18","Node transforms and scene traversal match the matrix algebra of the spec",
 "The local matrix of a node is its matrix or translation*rotation*scale, decomposing a matrix recomposes to the same matrix, and requesting decomposed transforms changes only the representation. Walking a scene visits each node reachable from its roots once per path, parent before child, with the product of the local matrices on its path.",
 ["inputs"],"All TRS values (negative and mirrored scales, arbitrary rotations including half turns), all forests.",
 "One or two hand-made matrices in the tests.",
 [FG,TO,MA],[("getLocalTransformMatrix, getTransformMatrix, iterateSceneNodes",TO),("decomposeTransformMatrix",MA),("DecomposeNodeMatrix handling in parseNodes",FG)],
 observe=["matrices passed to the callback"])
p("C19","Validation accepts valid assets and reports invalid ones, and is always safe",
 "Validating an asset never misbehaves whatever indices it contains; it reports no error for an asset loaded from a specification-conforming document, and reports an error for an asset in which a reference between objects points outside its target array or a stated numeric constraint of the specification that it checks is broken. Exporting with the validation option refuses exactly the assets validation refuses, as JSON and as GLB.",
 ["inputs"],"All loaded or programmatically built assets; each single corruption of a reference or a constrained number.",
 "No test corrupts assets systematically.",
 [FG],[("fastgltf::validate",FG)],
 observe=["Error returned by validate","Error returned by the exporters with ValidateAsset"])
p("C20","Exported JSON is valid and loads back to the same asset",
 "Exporting any asset to JSON gives syntactically valid JSON, and loading that JSON again gives an asset equal to the exported one in every object, name, index, extension and number to full precision, with and without pretty-printing and with user extras. Every member is written only inside the object it belongs to, and never twice.",
 ["inputs","configurations"],"All valid assets (any names and text, any presence pattern of optional data and extensions), all export options.",
 "The exporter tests check a few fragments and one or two sample models.",
 [FG,CORE],[("Exporter::write* functions, Exporter::writeGltfJson",FG),("escapeString, prettyPrintJson, to_chars helpers",FG)],
 observe=["JSON text parsed by an independent parser; reloaded Asset"])
p("C21","Exported binary containers are well-formed and carry the buffer bytes",
 "Exporting any asset to a binary container produces the correct magic, version, total length, and four-byte aligned chunks padded with spaces and zeros; reading the container back gives the same asset, and the first buffer's bytes, whatever their source or length, are exactly the binary chunk's content.",
 ["inputs","configurations"],"All assets; all lengths modulo four of JSON and buffer; all data source kinds.",
 "One test with one buffer length.",
 [FG],[("Exporter::writeGltfBinary",FG)],
 observe=["container bytes, reloaded Asset"])
p("C22","File export writes every byte to its own file in the target and reports failure",
 "Writing an asset to disk succeeds only if the glTF file and every embedded buffer and image were completely written, each to its own path inside the target folder as the written document refers to it; loading the folder again gives the same bytes. Any failure to create or write a file is reported, and nothing outside the target folder is touched.",
 ["inputs","fault_sequences"],"All assets (duplicate or hostile names, several buffers and images), target folders, and write faults at any file.",
 "One happy-path test.",
 [FG],[("FileExporter::writeGltfJson/writeGltfBinary, writeFiles, getBufferFilePath/getImageFilePath",FG)],
 observe=["files on disk, Error returned"])
p("C23","String escaping and pretty-printing preserve JSON content",
 "Escaping any text gives a JSON string body that decodes to the same text, and pretty-printing any JSON document only adds white space between tokens. Both hold for every mixture of quotes, backslashes, control characters, unicode and nesting.",
 ["inputs"],"All strings and all JSON documents.",
 "Two fixed strings are tested.",
 [FG],[("escapeString, prettyPrintJson",FG)],
 observe=["escaped text / pretty-printed text decoded by an independent JSON parser"])
p("C24","The library's containers behave like the standard ones they replace",
 "For every sequence of operations, the small-buffer vector, the fixed-size vector, and the space-saving optional types hold the same elements as their standard counterparts, construct and destroy each element exactly once, never lose or corrupt memory, and every value of the element type other than the reserved marker can be stored.",
 ["histories","inputs"],"All operation sequences (push, resize, reserve, insert, assign, copy, move, swap, clear, shrink) on trivial and non-trivial element types, across the inline/heap boundary.",
 "Tests run a dozen fixed sequences.",
 [TY],[("SmallVector, StaticVector, OptionalWithFlagValue, OptionalFlagValue, AccessorBoundsArray",TY)],
 observe=["element sequences against std containers; live-object counts; ASan"])
p("C25","Vector, matrix and quaternion arithmetic matches linear algebra",
 "Every vector, quaternion and matrix operation offered - construction, element access, arithmetic, comparison, products, transposition, inverse, determinant, normalisation, conversions between rotations and matrices - gives the result of the textbook definition within rounding, for all sizes, including non-square matrices.",
 ["inputs"],"All operands and all supported dimensions.",
 "Tests check a few constants on square sizes.",
 [MA],[("math::vec, mat, quat and free functions",MA)],
 observe=["results against an independent reference implementation"])
p("C26","Names, sizes, enumerations and checksums agree with the glTF specification",
 "For every value, the type and component helpers (sizes, counts, names, enum conversions, flags), extension name listing, MIME handling and string checksums used to recognise keys match the glTF tables and the reference CRC-32C; unknown inputs yield the documented invalid value. No two recognised keys are confused.",
 ["inputs","configurations"],"All enumeration values, all strings for the checksum and type-name parsing (hardware and generic implementations).",
 "Tests sample some enum values and three strings.",
 [UT,TY,CORE,FG],[("crc32c, hwcrc32c, fillCrcTable",UT),("getAccessorType, getComponentType, getElementByteSize, getAccessorTypeName, getComponentBitSize",TY),("stringifyExtension(s)",CORE)],
 observe=["return values"])
p("C27","Every build configuration gives the same results",
 "Building the library with the alternative small-vector, without the memory pool, with 64-bit floats, as C++20, with another compiler, or optimised, gives the same assets, errors, accessor values and exported text for the same inputs (up to the wider float precision that was asked for).",
 ["configurations","inputs"],"All supported compile-time configurations x documents.",
 "Tests run in one configuration.",
 [FG,TY,"CMakeLists.txt"],[("FASTGLTF_USE_CUSTOM_SMALLVECTOR, FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL, FASTGLTF_USE_64BIT_FLOAT, FASTGLTF_CPP_20 code paths",TY)],
 observe=["canonical dumps of each build"])
p("C28","Accessor bounds hold and track exactly the values they were given",
 "The per-component minimum and maximum of an accessor are kept with full integer or floating-point precision as stated in the document; updating bounds with elements yields exactly the component-wise minimum and maximum of the elements seen, and copying, moving or converting bounds preserves every component.",
 ["inputs","histories"],"All bounds arrays, element types and update orders; integers beyond 2^53; negative and all-positive data.",
 "Tests update one accessor with one ordering.",
 [TY,FG,TO],[("AccessorBoundsArray",TY),("updateBoundsToInclude",TY),("min/max parsing in parseAccessors",FG)],
 observe=["Accessor::min/max values"])
p("C29","Running out of memory at any point is survivable",
 "When any one allocation fails while a document or file is read, an asset is exported as JSON, GLB or to disk, or a URI is built or assigned, the call ends by throwing std::bad_alloc or by returning an error (or, inside a function declared noexcept, by ending the program): it never reports success with an incomplete or different result, corrupts or leaks memory, or changes the asset that is exported. Afterwards the same parser, exporter and asset give exactly the result they would have given undisturbed.",
 ["fault_sequences","inputs","histories"],"Each allocation of each call, on documents with any sources, options and callbacks, with fresh and used parsers and exporters.",
 "No test lets an allocation fail.",
 [FG,IO,CORE,TY],[("Parser::loadGltf*, GltfDataBuffer, GltfFileStream, Exporter::write*, FileExporter::write*",FG),("GltfDataBuffer allocation, external files",IO),("SmallVector, StaticVector",TY)],
 observe=["result or exception of the call","result of the same call repeated","live memory after everything is destroyed"])
p("C30","Faults while reading or writing files are reported and leave no trace",
 "Whenever an operation on a file - finding its size, opening, reading, mapping, creating a folder, writing, closing - fails, is interrupted, or delivers less than asked for, the load or export returns an error or copes with it; it never returns success with missing, stale or made-up bytes in memory or on disk, never hangs, throws, or leaks memory or descriptors, and the same call made again without the fault gives the undisturbed result.",
 ["fault_sequences","inputs"],"Each file operation of each load (every way of handing over a file, external files) and each file export, transient and lasting faults, end of file too early, short and interrupted transfers.",
 "Tests never meet a fault.",
 [IO,FG,CORE],[("GltfDataBuffer, GltfFileStream, MappedGltfFile, Parser::loadFileFromUri",IO),("Parser::loadGltfBinary, writeFile, writeFiles, FileExporter::write*",FG)],
 observe=["result of the call","bytes of the asset or of the written files","/proc/self/fd","result of the same call repeated"])
p("C31","Results depend only on the input and the options, not on the process around them",
 "Loading, exporting, validating, reading accessors, traversing scenes and parsing URIs give the same result, and change nothing else, whatever the C and C++ locale (decimal comma, digit grouping), the current directory (when the caller passes absolute paths), the umask, errno, and the previous content of stack and heap are, and whichever process does it.",
 ["configurations","histories","inputs"],"Every operation on every input in any environment of these kinds. Relative paths given by the caller and changed floating-point environments are out of scope.",
 "Tests run in one environment.",
 [FG,IO,B64,CORE],[("number parsing and writing, Exporter::write*",FG),("URI, loadFileFromUri",IO)],
 observe=["results of the same calls in different environments"])
p("C32","Work and memory grow in proportion to what is handled",
 "Loading, validating, exporting (compact and pretty), writing files, traversing scenes, reading accessors, moving assets, escaping, percent-decoding and URI handling take work and memory at most proportional (up to a logarithm) to the size of the document and its result, whatever kind of object, name, list or text there is much of; a document of a few megabytes cannot keep a call busy for minutes. (Finding an attribute by name may look at every attribute of its primitive.)",
 ["inputs","configurations"],"Each operation on documents with many of any one kind of thing, or of several kinds together.",
 "Tests use small documents and measure nothing.",
 [FG,IO,CORE,TO],[("parse*, validate, write*, prettyPrintJson, escapeString, getFilePath",FG),("URI, decodePercents",IO),("iterateAccessor, iterateSceneNodes",TO)],
 observe=["control-flow edges taken","bytes moved, compared and allocated","peak of live memory"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
