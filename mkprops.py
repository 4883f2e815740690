#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl."""
import json, os
W = "Src/libCZI/"
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
props = [
P("P01", "A written document reads back unchanged",
  "Whatever tiles, attachments and document metadata are put into a new document, reading the finished file returns exactly them: every tile with the coordinate, tile index, rectangle, stored size, pixel type, compression, pyramid type, pixel data, tile metadata and tile attachment it was added with, every attachment with its identity, name, type and bytes, the XML text and the document's identity, and nothing else. This holds for every mix of tiles (raw or pre-compressed data, with or without coordinates, any tile index, data given as one block, row by row or with extra row padding), for every amount of space reserved up front, and no matter which reading entry point is used.",
  ["inputs", "histories"], "every set of tiles/attachments/metadata, every order of adding them, every reservation option",
  "The unit tests write a handful of fixed documents; field mix-ups, truncations, ordering and reservation effects show only for particular combinations of counts, sizes and options.",
  [W+"CziWriter.cpp", W+"CziParse.cpp", W+"CZIReader.cpp", W+"CziSubBlockDirectory.cpp", W+"CziAttachmentsDirectory.cpp"],
  [("writing a sub-block/attachment/metadata segment", "CziWriter.cpp CWriterUtils"), ("directory writing at close", "CziWriter.cpp CCziWriter::Finish"), ("directory parsing", "CziParse.cpp ReadSubBlockDirectory")]),
P("P02", "Editing a document in place behaves like editing a list",
  "For every sequence of adding, replacing and removing tiles and attachments, writing or rewriting the metadata, closing and reopening on a document edited in place, the document always contains exactly what a plain list edited the same way contains: an edit changes only the item it names, and every other tile, attachment and the metadata keep their bytes. The edited file read with the ordinary reader after closing shows the same content.",
  ["histories", "inputs"], "every sequence of edit operations on every starting document (empty, or written before), including reopening in between",
  "Whether a segment fits in place, is appended or a directory must move depends on the whole history of sizes; tests run a few short fixed histories.",
  [W+"CziReaderWriter.cpp", W+"CziReaderWriter.h", W+"CziWriter.cpp", W+"CziSubBlockDirectory.cpp", W+"CziAttachmentsDirectory.cpp"],
  [("replace in place or append", "CziReaderWriter.cpp ReplaceSubBlock/ReplaceAttachment"), ("next segment position", "CziReaderWriter.cpp UpdateFileHeader/Finish"), ("directory rewrite", "CziReaderWriter.cpp Finish")]),
P("P03", "Every produced file is structurally well formed",
  "In every file the library finishes writing or editing, the segments in use start on 32-byte boundaries, their used size fits in their allocated size and in the file, and none overlaps another; going from segment to segment by the allocated sizes, starting at the file header, meets every segment in use, and every other segment met on the way is marked as deleted. The file header refers to exactly the directories and metadata that exist, every directory entry refers to a distinct live segment of the right kind which repeats the entry's own description, and no live segment is missing from its directory.",
  ["inputs", "histories"], "every document written and every edit history",
  "Readers tolerate much malformation (overlaps, gaps, stale copies), so read-back tests pass on broken files; only checking the layout of the raw bytes for many histories shows it.",
  [W+"CziWriter.cpp", W+"CziReaderWriter.cpp", W+"CziStructs.h", W+"CziUtils.cpp"],
  [("segment allocation and alignment", "CziWriter.cpp CWriterUtils"), ("segment walking", "CziParse.cpp"), ("header update", "CziReaderWriter.cpp")]),
P("P04", "Invalid additions are refused and leave no trace",
  "Adding a tile or attachment (or replacing one by such an item) that duplicates an existing one, that violates the bounds or coordinate dimensions the document was created with, or that is ill-formed, and calling operations in the wrong state (before creation, after closing), is reported as an error, while everything valid is accepted. A refused call changes nothing: the finished document equals the one that would result without that call.",
  ["histories", "inputs"], "every interleaving of valid and invalid calls",
  "Tests try one invalid call at a time and rarely look at the document finished afterwards.",
  [W+"CziWriter.cpp", W+"CziSubBlockDirectory.cpp", W+"CziAttachmentsDirectory.cpp", W+"CziReaderWriter.cpp"],
  [("argument checks", "CziWriter.cpp ThrowIfAddSubBlockInfoIsInvalid/CheckAddSubBlock"), ("duplicate detection", "CziSubBlockDirectory.cpp CWriterCziSubBlockDirectory::TryAddSubBlock")]),
P("P05", "Document statistics equal those of the tiles",
  "For every document, the reported statistics equal the ones recomputed from all its tiles: number of tiles, range of tile indices, bounding rectangle of everything and of the full-resolution tiles, start and size of every dimension, the bounding rectangles per scene, and the per-scene pyramid-layer tile counts. This holds for freshly written files and after any in-place edits, whatever is missing (no coordinates, no scenes, no tile index, pyramid tiles only).",
  ["inputs", "histories"], "every tile set, every edit history",
  "Statistics are updated incrementally; order, missing fields and removals make combinations that fixed examples do not cover.",
  [W+"CziSubBlockDirectory.cpp", W+"CziReaderWriter.cpp", W+"CZIReader.cpp"],
  [("incremental update", "CziSubBlockDirectory.cpp CSbBlkStatisticsUpdater"), ("pyramid statistics", "CziSubBlockDirectory.cpp UpdatePyramidStatistics")]),
P("P06", "Enumerating and looking up tiles and attachments is exact",
  "Enumerating with any filter (plane coordinate with ranges left open, region of interest, full-resolution only, scene, attachment name or type) delivers exactly the items that satisfy it, each once, with its true description and a valid index; returning false from the visitor stops at once. Look-ups by index, and the per-channel representative tile, agree with the enumeration for every index, and an index outside the range (negative ones included) is reported as not found.",
  ["inputs"], "every document, every filter, every index",
  "The filters combine, and each combination with missing coordinates, touching rectangles or empty results is a separate case.",
  [W+"CZIReader.cpp", W+"CziReaderCommon.cpp", W+"CziSubBlockDirectory.cpp", W+"CziAttachmentsDirectory.cpp", W+"IndexSet.cpp"],
  [("subset enumeration", "CziReaderCommon.cpp EnumSubset"), ("index access", "CziSubBlockDirectory.cpp TryGetSubBlock")]),
P("P07", "Zstandard compression is lossless and keeps its contract",
  "For every bitmap of a supported pixel type, size and row stride, both zstd flavours with any level and byte-packing setting decompress to exactly the original pixels, whether through one's own buffer or a library-provided block, and as tiles of a document. The stated maximum size always suffices, a destination that is too small is reported without writing outside it, and every temporary allocation obtained from the caller is returned to the caller.",
  ["inputs", "configurations"], "every bitmap content/size/stride/type, level and packing option, destination size, allocator",
  "Byte packing, strides and destination sizes interact; tests use few images and default options.",
  [W+"zstdCompress.cpp", W+"decoder_zstd.cpp", W+"utilities.cpp", W+"utilities_simd.cpp", W+"libCZI_compress.h"],
  [("hi-lo byte packing", "utilities.cpp LoHiByteUnpackStrided/PackStrided"), ("zstd1 header", "zstdCompress.cpp / decoder_zstd.cpp ParseZStd1Header")]),
P("P08", "Lossless JPEG XR compression reproduces the image",
  "For every bitmap of a supported integer pixel type, size and row stride, JPEG XR at the highest quality setting decompresses to exactly the original pixels, also as a tile of a document (floating-point pixels keep the 13 bits of mantissa which the format stores). At lower quality settings the image keeps its size and pixel type, and invalid input is reported as an error.",
  ["inputs", "configurations"], "every bitmap content/size/stride/type and quality",
  "Sizes that are not multiples of the codec's block size, padded strides and channel orders each behave differently.",
  [W+"jxrlibcompress.cpp", W+"decoder.cpp", "Src/JxrDecode/JxrDecode.cpp", W+"CreateBitmap.cpp"],
  [("encode/decode", "JxrDecode.cpp JxrDecode2"), ("channel swap", "decoder.cpp")]),
P("P09", "Tile data of unexpected size is handled as documented",
  "When a tile's stored data disagree in size with its declared width, height and pixel type, the default reading yields a bitmap of exactly the declared size and type whose available pixels are the stored ones at their place and whose missing remainder is zero; surplus data are ignored. With the strict option a tile whose uncompressed data are too short, or whose compressed data decompress to anything but the declared size, is refused with an error. Data that fit are returned unchanged by both settings, and damaged compressed data are refused by both.",
  ["inputs"], "every declared size/type and stored amount, every compression",
  "Each compression and pixel type has its own path, and off-by-one amounts matter.",
  [W+"CreateBitmap.cpp", W+"decoder_zstd.cpp", "docs/source/pages/resolution_protocol.md"],
  [("size-mismatch handling", "CreateBitmap.cpp / decoder_zstd.cpp *HandleSizeMismatch")]),
P("P10", "The tile-composed plane shows the topmost tile at every pixel",
  "For every document, plane, region and pixel type, the composed full-resolution image shows at each pixel the value of the matching tile with the highest tile index covering it (converted to the requested type) and the background colour where no tile covers it. Neither caching, the visibility optimisation, writing into a caller's bitmap, nor the order of tiles in the file changes the result, and only tiles of the requested plane and of the requested scenes contribute.",
  ["inputs", "configurations"], "every document, plane coordinate, ROI, option set",
  "Overlaps, negative positions, clipped tiles and optimisations interact; tests compare a few fixed compositions.",
  [W+"SingleChannelTileAccessor.cpp", W+"SingleChannelAccessorBase.cpp", W+"SingleChannelTileCompositor.cpp", W+"BitmapOperations.cpp"],
  [("z-order and visibility check", "SingleChannelAccessorBase.cpp CheckForVisibility"), ("copying tiles", "BitmapOperations.cpp Copy")]),
P("P11", "The pyramid-layer image shows that layer's tiles",
  "For every document with a pyramid and every aligned region, the image of a given pyramid layer shows exactly the tiles of that layer at their layer position, the topmost by tile index winning, and background elsewhere, including where the region only meets tiles of other layers. The image has the region's size divided by the layer's scale, and bad layer parameters are reported as errors.",
  ["inputs", "configurations"], "every pyramid document, layer, aligned ROI, option set",
  "Layer number, minification factor and position arithmetic combine; tests check one document.",
  [W+"SingleChannelPyramidLevelTileAccessor.cpp", W+"SingleChannelAccessorBase.cpp"],
  [("layer selection", "SingleChannelPyramidLevelTileAccessor.cpp CalcPyramidLayerNo"), ("layer placement", "SingleChannelPyramidLevelTileAccessor.cpp ComposeTiles")]),
P("P12", "The scaled image resembles the full-resolution image",
  "For every document, region and zoom, the scaled image has the announced size, and every pixel equals the value of a tile pixel lying within the neighbourhood its position maps to (or background where none lies there); at zoom 1, with a region that meets at most one scene, it equals the full-resolution composition exactly. Tiles are taken from the coarsest pyramid layer that still resolves the zoom. Options such as caching, the visibility optimisation or scene filters do not change which content is shown except as requested.",
  ["inputs", "configurations"], "every document with or without pyramid/scenes, ROI, zoom, options",
  "Tile selection by zoom, scene-wise drawing and sampling arithmetic depend on the particular numbers.",
  [W+"SingleChannelScalingTileAccessor.cpp", W+"BitmapOperations.cpp", W+"SingleChannelAccessorBase.cpp"],
  [("layer choice by zoom", "SingleChannelScalingTileAccessor.cpp"), ("nearest-neighbour scaling", "BitmapOperations.cpp NNScale")]),
P("P13", "Pixels marked invalid by a mask are never drawn",
  "When mask-aware composition is requested, a tile contributes exactly its pixels marked valid in its mask (pixels beyond a smaller mask being invalid, a larger mask being cropped), and what lies beneath shows elsewhere; without the request masks have no effect. Caching and the visibility optimisation do not change this, for the full-resolution, pyramid-layer and scaled images alike.",
  ["inputs", "configurations", "histories"], "every set of masked/unmasked tiles, overlap, option set, and history of accesses through a shared cache",
  "Masks interact with overlap order, cache state left by earlier calls and the visibility optimisation.",
  [W+"SingleChannelAccessorBase.cpp", W+"SubblockAttachmentAccessor.cpp", W+"BitmapOperationsBitonal.cpp", W+"subblock_cache.cpp", "docs/source/pages/valid_pixel_mask_concept.rst"],
  [("mask retrieval", "SubblockAttachmentAccessor.cpp"), ("masked copy", "BitmapOperations.cpp CopyWithMask")]),
P("P14", "Multi-channel composition follows the blending formula",
  "For every set of channel bitmaps and settings, each composed pixel is the saturating sum over channels of weight times the channel's value after its black/white-point or look-up-table mapping and its tinting colour, in the 24-bit as well as the 32-bit (with the given alpha) output. Weights count relative to their mean, so equal weights have no effect, and are ignored altogether if one of them is negative or not finite. Unsupported combinations are reported as errors, and the inputs are never modified.",
  ["inputs", "configurations"], "every number of channels, pixel types, contents, weights, tints, mappings",
  "There is a specialised code path per combination of pixel type, tint, mapping, weight and position in the channel list.",
  [W+"MultiChannelCompositor.cpp", W+"MultiChannelCompositor.h", W+"libCZI_Compositor.h"],
  [("per-pixel-type functors", "MultiChannelCompositor.cpp"), ("saturating add", "MultiChannelCompositor.cpp")]),
P("P15", "Display curves and look-up tables follow the display setting",
  "A look-up table made for any black point, white point, gamma or spline is non-decreasing where its curve is, 0 below the black point and full above the white point, and matches the mathematical curve in between to one grey level; splines pass through their control points. Display settings built by a program survive being written to the document's metadata and read back (numbers to six significant digits), and the composition settings derived from them use the same curve for every enabled channel.",
  ["inputs"], "every table size, black/white point, gamma, set of control points, display setting",
  "Curves are continuous parameter spaces with edge cases at coincident or extreme points.",
  [W+"libCZI_Utilities.cpp", W+"splines.cpp", W+"utilities.cpp", W+"CziDisplaySettings.cpp"],
  [("LUT creation", "utilities.cpp Utils::Create8BitLookUpTable*"), ("spline coefficients", "splines.cpp")]),
P("P16", "Bitmap copies and conversions touch exactly their target",
  "Copying, converting, scaling and mask operations on bitmaps produce, for every size, stride, offset and supported pixel-type pair, the pixel-wise defined result inside the intersection of source and destination and leave every other byte of the destination untouched. Bit masks behave as two-dimensional boolean arrays under getting, setting, filling, shrinking and masked copying.",
  ["inputs"], "every geometry, stride, pixel-type pair and content",
  "Boundary arithmetic for offsets, clipping and bit positions is only exercised by many geometries.",
  [W+"BitmapOperations.cpp", W+"BitmapOperations.hpp", W+"BitmapOperationsBitonal.cpp", W+"libCZI_Pixels.cpp", W+"utilities.cpp"],
  [("offset copy", "BitmapOperations.cpp CopyOffsetedBitmap*"), ("bitonal ops", "BitmapOperationsBitonal.cpp")]),
P("P17", "The tile cache is a faithful least-recently-used cache",
  "For every sequence of adding, getting and pruning, also from several threads at once, the cache returns the last item added for an index or nothing, its statistics equal the number and memory of the items held, and pruning to any limit removes least-recently used items first and stops as soon as the limits hold. The composing accessors put the tiles they read into it (only the compressed ones, if so requested) and do not read a tile again which it holds.",
  ["histories", "schedules"], "every operation history and pruning limit, and interleavings of threads",
  "The recency order and byte accounting are properties of histories.",
  [W+"subblock_cache.cpp", W+"subblock_cache.h"],
  [("pruning", "subblock_cache.cpp SubBlockCache::Prune"), ("LRU stamps", "subblock_cache.cpp")]),
P("P18", "Document information written as metadata reads back the same",
  "Whatever general document information, scaling information, dimension descriptions, and free metadata nodes, attributes and values a program writes into document metadata, the XML produced is well formed and reading it back (also through a written file) delivers the same values with the same validity, for all strings (white space alone counting as empty) and numbers (6 significant digits for single, 15 for double precision). Nothing that was not written is reported.",
  ["inputs"], "every combination of set and unset fields, every string and number",
  "Conversions between text, numbers, XML paths and optional fields fail on particular characters, values or omissions only.",
  [W+"CziMetadataBuilder.cpp", W+"CziMetadata.cpp", W+"CziMetadataDocumentInfo2.cpp", W+"CziDimensionInfo.cpp", W+"XmlNodeWrapper.h"],
  [("XML building", "CziMetadataBuilder.cpp MetadataUtils"), ("XML reading", "CziMetadataDocumentInfo2.cpp")]),
P("P19", "Reading arbitrary bytes never corrupts the process",
  "Opening any byte sequence as a document, under any open policy, and then using everything it offers (enumeration, statistics, tiles, attachments, metadata, compositions, in-place editing, the C interface) ends in results or in reported errors: never in memory corruption, an endless loop, or an unreported abnormal end. This includes valid files with any number of damaged, shortened or inconsistent fields, hostile sizes (memory that cannot be had is a reported error) and hostile metadata texts. Not included: damage inside a JPEG XR compressed stream (decoded by the bundled third-party codec), and calls with arguments outside their documented range.",
  ["inputs"], "every file content",
  "Malformed inputs are unbounded in number; tests have a few hand-made ones.",
  [W+"CziParse.cpp", W+"CZIReader.cpp", W+"CziReaderCommon.cpp", W+"CreateBitmap.cpp", W+"decoder_zstd.cpp", W+"CziReaderWriter.cpp", W+"SubblockAttachmentAccessor.cpp"],
  [("segment parsing with sizes from the file", "CziParse.cpp"), ("decoding with sizes from the file", "decoder_zstd.cpp, CreateBitmap.cpp")]),
P("P20", "A failing storage device is reported and does no harm",
  "When the underlying storage reports an error, or delivers or accepts fewer bytes than asked for, at any single access during reading, writing or editing, the operation in progress reports an error and never returns wrong or partial content as good, nothing leaks or crashes, and the same reader or editor object still works once the storage does (for the editor, storage from which nothing can be read at the beginning of the file is a new, empty file). What was not the subject of a failed call stays intact, and a finishing call that reports success means that the file is complete.",
  ["fault_sequences", "crash_points"], "every access at which the storage fails, every failure kind, every operation history",
  "The tests use storage that never fails.",
  [W+"CziParse.cpp", W+"CziWriter.cpp", W+"CziReaderWriter.cpp", W+"CZIReader.cpp", W+"StreamImpl.cpp"],
  [("read helpers", "CziParse.cpp"), ("write helpers", "CziWriter.cpp")], None, ["stream passed to the library"]),
P("P21", "All stream types present the same file",
  "For every file and every offset and length, each kind of input stream (file by name, by position, in memory, over HTTP) delivers exactly the file's bytes, as many as exist in the range, and reports errors for what cannot be read; output streams store exactly the bytes written at their offsets. The options given for a stream over HTTP (user agent, cookie, access token, proxy, redirections, timeout) are honoured in every request, and a value of another type is refused. A stream object may be used by several threads at once.",
  ["inputs", "schedules"], "every file content, offset, length and number of threads",
  "Ranges crossing the end, zero lengths, far offsets and parallel use are not enumerated by tests.",
  [W+"StreamImpl.cpp", W+"StreamsLib/streamsFactory.cpp", W+"StreamsLib/curlhttpinputstream.cpp", W+"StreamsLib/preadfileinputstream.cpp", W+"StreamsLib/simplefileinputstream.cpp"],
  [("reads at offset", "StreamImpl.cpp / StreamsLib")]),
P("P22", "Concurrent use of one reader gives the serial results",
  "When several threads use the same reader, accessors, tiles and cache at the same time, each call returns what it would have returned alone, without data races, deadlocks or crashes. Closing a reader while others use it makes their calls either complete correctly or report an error.",
  ["schedules", "histories"], "every interleaving of reading calls from several threads",
  "A unit test runs one schedule.",
  [W+"CZIReader.cpp", W+"CziSubBlock.cpp", W+"subblock_cache.cpp", W+"CziSubBlockDirectory.cpp"],
  [("shared reader state", "CZIReader.cpp"), ("lazy pyramid statistics sorting", "CziSubBlockDirectory.cpp")]),
P("P23", "The C interface agrees with the C++ interface",
  "Every function of the C interface delivers, for every document and every valid argument, the same content as the C++ interface: descriptions, statistics, tiles, raw data, bitmaps, attachments, metadata, compositions and written files. A failing stream supplied by the caller is reported as an error. Invalid handles (null, or of another kind of object), indices, null pointers and buffers that are too small are reported by the documented error codes, nothing is written beyond a given buffer, and released objects free their memory (a handle is used only until it is released).",
  ["inputs", "histories"], "every document, every sequence of calls with valid and invalid arguments",
  "The interface is wide and stateful; tests call most functions once.",
  ["Src/libCZIAPI/src/libCZIApi.cpp", "Src/libCZIAPI/src/parameterhelpers.cpp", "Src/libCZIAPI/inc/libCZIApi.h"],
  [("parameter conversion", "parameterhelpers.cpp"), ("object handles", "libCZIApi.cpp")]),
P("P24", "Coordinates, bounds and index sets behave as values",
  "Plane coordinates, dimension bounds and index sets act as partial maps and sets: any sequence of setting, clearing and querying agrees with such a model, converting to text and parsing back gives an equal value, and comparison is a consistent total order or equality. Malformed text (of these or of a compression option) is reported as an error and never accepted as something else.",
  ["inputs", "histories"], "every operation sequence and every text",
  "Parsers and bit-packed dimension arrays have corner cases per dimension and per character.",
  [W+"DimCoordinate.cpp", W+"libCZI_DimCoordinate.h", W+"IndexSet.cpp", W+"utilities.cpp"],
  [("parsing", "DimCoordinate.cpp CDimCoordinate::Parse"), ("index set parsing", "IndexSet.cpp")]),
P("P25", "Tile metadata and tile attachments read back what was stored",
  "The values, attributes, stage position and chunk-container contents (with the pixel mask) stored with a tile are delivered by the accessors exactly as stored; anything absent or malformed is reported as absent or as an error and never as a wrong value.",
  ["inputs"], "every tile metadata XML and every attachment chunk container",
  "Chunk sizes, unusual XML and truncated containers form an unbounded input space.",
  [W+"SubblockMetadata.cpp", W+"SubblockAttachmentAccessor.cpp", W+"libCZI_SubBlock.h"],
  [("chunk parsing", "SubblockAttachmentAccessor.cpp"), ("XML access", "SubblockMetadata.cpp")]),
P("P26", "Coordinate frames and open policies are consistent",
  "Converting a point or rectangle between frames of reference is the translation given by the upper left corner of the bounding rectangle of the full-resolution tiles and is undone by the opposite conversion, and accessors given a region in either frame deliver the same image. Each open policy accepts exactly the documents whose coordinates meet it and reports the others as errors; where a tile's own header disagrees with the directory, the policy decides whether that is an error and which of the two counts. A reader that was closed and opened again presents the new document only.",
  ["inputs", "configurations"], "every document, rectangle, frame and policy",
  "It depends on negative origins, missing tile indices and inconsistent dimensions, which fixed files lack.",
  [W+"CZIReader.cpp", W+"CziReaderCommon.cpp", W+"SingleChannelTileAccessor.cpp", W+"CziParse.cpp"],
  [("frame transformation", "CZIReader.cpp TransformRectangle"), ("policy checks", "CZIReader.cpp Open")]),
P("P27", "What the document's metadata states is what is reported",
  "For every well-formed metadata XML, whoever wrote it and in whatever order, the general document information, scaling, extent of the dimensions, Z and T description, channel descriptions with all their detector, light source, light path, laser scan, light sheet, structured illumination, polarisation, Airyscan and ratio settings, display settings and individual nodes are reported with exactly the values stated there; what is not stated, or is none of the values it may have, is not reported (or has its documented default), and elements of other names or at other places have no influence. Malformed XML is reported as such by every access.",
  ["inputs"], "every metadata XML text",
  "There are over a hundred optional elements in nested sections, and tests sample a few fixed documents.",
  [W+"CziMetadataDocumentInfo2.cpp", W+"CziMetadataDocumentInfo.cpp", W+"CziMetadata.cpp", W+"CziDisplaySettings.cpp", W+"CziDimensionInfo.cpp", W+"XmlNodeWrapper.h", W+"libCZI_Metadata2.h"],
  [("channel description", "CziMetadataDocumentInfo2.cpp CDimensionChannelInfo::ParseInformation"), ("document and dimensions", "CziMetadataDocumentInfo.cpp"), ("display settings", "CziDisplaySettings.cpp CreateFromXml")]),
P("P28", "Files of any conforming producer are read and edited faithfully",
  "For every document laid out according to the CZI file format, not only as libCZI's own writer lays it out (segments in any order, deleted, unknown or unused segments in between, allocations larger than their content, used sizes left at zero, dimensions listed in any order, unused fields filled, optional segments absent), reading delivers exactly its tiles, attachments, metadata and header information, and editing such a file in place changes only what the edit names.",
  ["inputs", "histories"], "every layout the file format permits, and every edit history on it",
  "The writer under test produces one layout only, so round-trip tests never see the others.",
  [W+"CziParse.cpp", W+"CZIReader.cpp", W+"CziReaderWriter.cpp", W+"CziStructs.h", W+"FileHeaderSegmentData.h"],
  [("directory and segment parsing", "CziParse.cpp"), ("position of the next segment", "CziReaderWriter.cpp DetermineNextSubBlockOffset")]),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props))
