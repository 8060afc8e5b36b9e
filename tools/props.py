#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property catalogue, one place to edit it)."""
import json, os
D, M, C, E, K, T = ("src/reader/decoder.rs", "src/reader/mod.rs", "src/reader/converter.rs",
                    "src/encoder.rs", "src/common.rs", "src/traits.rs")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "No input can crash or hang the decoder",
  "For every byte string given as input, every combination of decoding options and every way of driving the decoder (high level, buffer by buffer, iterator, raw LZW, streaming), each call returns a value or an error: it never panics and never loops forever. This also holds for calls made after an earlier call reported an error or the end of the image, and for bytes that follow the trailer.",
  ["inputs", "histories", "configurations"],
  "all byte strings x all option sets x all call sequences, including calls after errors and after the end",
  "The crash and stall tests replay four archived files and one truncated animation; they cannot visit the other malformed inputs, and never call the decoder again after an error or past the trailer.",
  [D, M, C], [("StreamingDecoder::update / next_state", D), ("LzwReader", D), ("ReadDecoder::decode_next", M), ("PixelConverter::fill_buffer", C)],
  ["return value of every decoding call", "panics", "CPU time of a call"],
  [("State", "parser state, survives an error", D)])
p("C02", "Decoding does not depend on how the input is delivered",
  "The complete result of decoding (header, frames, pixels, extension data, success or failure at each point) is a function of the input bytes only: any sequence of read sizes, interrupted reads, or slicing of the data over streaming updates gives the same result as delivering the input in one piece.",
  ["inputs", "schedules"],
  "all inputs x all partitions of the input into reads/updates, with retriable interruptions anywhere",
  "Three tests chop one animation into fixed 1, 2 and 3 byte pieces; no other partition, no partition of a malformed or unusual stream, no interrupted read is tried.",
  [D, M], [("ensure_min_length_buffer / internal_buffer", D), ("partial palette, sub-block and extension reads", D), ("ReadDecoder::decode_next", M)],
  ["Decoder results", "StreamingDecoder events and consumed counts"],
  [("internal_buffer, unused_internal_buffer_len", "carry-over of a fixed-size field", D)])
p("C03", "Header, palettes and frame metadata decode as the format defines",
  "For every stream of blocks, the decoder reports exactly the screen size, global palette, background index (dropped if outside the global palette), loop count announced before the first image, and for each image its position, size, local palette, and the delay, disposal, transparency and user-input flag of the graphic control extension in front of it. A graphic control extension affects the next image only and other extensions in between do not disturb it; a malformed signature, unknown block or extension label, wrongly sized control extension or image without any palette is reported as an error at that point, after all earlier frames were delivered.",
  ["inputs"],
  "all block sequences and all field values",
  "Tests decode nine sample files and a handful of encoder outputs, which hold only a few field values and block orders.",
  [D, M], [("ScreenDescriptor, ImageBlockStart, palettes, read_control_extension, ApplicationExtension states", D), ("Decoder::init, next_frame_info", M)],
  ["Decoder::{width,height,global_palette,bg_color,repeat,palette}", "Frame fields"],
  [("current", "frame under construction, created by a control extension or an image", D)])
p("C04", "Image data decodes to exactly the pixels the LZW codes denote",
  "For every minimum code size from 2 to 11 and every code sequence (literals at most 255), split over sub-blocks in any way, the decoded indices are those defined by GIF LZW (clear codes anywhere, growing code width, full table, data with or without an end code). If the codes provide fewer indices than the image needs, or an undefined code comes first, reading that image fails instead of delivering made-up pixels; a minimum code size that is 0 or above 11 is rejected.",
  ["inputs"],
  "all code sequences x minimum code sizes x sub-block splits",
  "Sample files contain only code sequences of ordinary encoders; repeated or unusually placed clear codes, deferred clears, tiny images and odd sub-block splits never occur.",
  [D, C], [("LzwReader::decode_bytes, reset", D), ("DecodeSubBlock state", D)],
  ["Frame.buffer of Decoder::read_next_frame", "StreamingDecoder output"],
  [("lzw_reader", "LZW decoder reused between frames", D)])
p("C05", "Interlaced images are put in order for every height",
  "For every width and height and both colour outputs, an interlaced image delivered whole has every stored row at the place GIF's four-pass interlacing assigns to it, each row exactly once, and the frame is then marked as not interlaced. A non-interlaced image is delivered in stored order.",
  ["inputs", "configurations"],
  "all heights 0..=65535, widths, colour outputs",
  "The unit test lists 17 heights of the row iterator and one sample file is interlaced; the mapping of rows into the caller's buffer is not checked for other heights.",
  [C], [("InterlaceIterator", C), ("PixelConverter::read_into_buffer", C)],
  ["Frame.buffer and Frame.interlaced", "Decoder::read_into_buffer"])
p("C06", "RGBA output is the palette colour plus the transparency mask",
  "With RGBA output every pixel becomes the red, green and blue of its index in the image's local palette, or in the global palette if it has none, with alpha 0 exactly for the transparent index and 255 otherwise. Pixels whose index lies outside the palette leave their output bytes untouched (zero in buffers the decoder allocates).",
  ["inputs", "configurations"],
  "all palettes and sizes x all indices x all transparent indices x all ways of reading",
  "RGBA output is only compared by checksum on sample files, where no index is out of range and few palette sizes and transparent indices occur.",
  [C], [("PixelConverter::fill_buffer RGBA branch", C)],
  ["RGBA bytes from read_next_frame, read_into_buffer, fill_buffer, FrameDecoder"],
  [("buffer", "scratch buffer for indices, reused between frames", C), ("global_palette", "fallback palette", C)])
p("C07", "Every way of reading a frame yields the same pixels",
  "For every image, reading it with read_next_frame, read_into_buffer (also with a larger buffer), fill_buffer in pieces of any sizes, or the frame iterator gives the same pixels and metadata; fill_buffer delivers rows in stored order and the others deinterlace. fill_buffer returns true exactly while its buffer was filled completely and an empty buffer consumes nothing.",
  ["inputs", "histories"],
  "all images x all sequences of output buffer sizes x reading APIs x colour outputs",
  "fill_buffer and read_into_buffer are not exercised by any test.",
  [C, M], [("PixelConverter::fill_buffer loop", C), ("Decoder::read_next_frame, read_into_buffer, fill_buffer, DecoderIter", M)],
  ["bytes and return values of the reading APIs"],
  [("buffer", "scratch buffer for indices", C)])
p("C08", "Skipping or abandoning a frame does not disturb later frames",
  "For every sequence of per-frame actions (skip after reading its metadata, read part of it, read it all, read past its end) each frame reached reports the same metadata and, when read, the same pixels as when the whole file is read frame by frame, and the number of frames is unchanged, also when some of the images cannot be decoded.",
  ["histories", "inputs"],
  "all per-frame action sequences over all files",
  "One test counts frames in skip mode; mixing skipped, partly read and fully read frames is never tried.",
  [M, D], [("Decoder::next_frame_info", M), ("OutputBuffer::None handling in DecodeSubBlock / CopySubBlock", D)],
  ["frame metadata, pixels, frame count"],
  [("current_frame", "frame the reading APIs refer to", M), ("lzw_reader", "must be reset per frame", D)])
p("C09", "Raw LZW frames are lossless",
  "With frame decoding skipped, every frame's buffer is the minimum code size followed by exactly the compressed bytes of the image, with the same metadata as in normal decoding. Decoding such a frame with the frame decoder gives the same result as decoding the file normally (pixels, or an error in both cases; with or without end-code checking), and writing the frames with the pre-encoded API gives a file that decodes to the same frames.",
  ["inputs"],
  "all image data (sizes, code sequences, sub-block splits) x colour outputs",
  "Two sample files are rebuilt from raw frames; frame sizes, code streams and sub-block splits outside those are untested, and FrameDecoder is not tested at all.",
  [D, M, E], [("CopySubBlock state, OutputBuffer::append", D), ("FrameDecoder", D), ("Decoder::copy_lzw_into_buffer", M), ("Encoder::write_lzw_pre_encoded_frame", E)],
  ["Frame.buffer in skip mode", "FrameDecoder output", "rebuilt file"])
p("C10", "A truncated file is never mistaken for a complete one",
  "For every file and every cut before its last byte, decoding the prefix delivers, unchanged and in order, at least every frame that lies completely within the prefix and nothing that differs from the full file's frames, and then reports an error; it never reports a normal end of the image unless the trailer was reached.",
  ["inputs", "fault_sequences"],
  "all files x all cut positions x reading APIs",
  "One animation is truncated at every length, but the test only checks that nothing stalls; what is delivered is not looked at.",
  [M, D], [("ReadDecoder::decode_next end-of-input handling", M), ("PixelConverter 'image truncated'", C)],
  ["frames delivered before the error", "kind of end"],
  [("at_eof", "set only by the trailer", M)])
p("C11", "The memory limit is enforced",
  "With a memory limit set, a frame is decoded if its output buffer is at most the limit and refused with an error otherwise, and raw image data and extension data longer than the limit are refused. Heap memory held by the decoder at any time stays within a small multiple (four times) of the limit plus a fixed overhead, whatever sizes the file announces and whichever reading mode is used.",
  ["inputs", "configurations"],
  "all announced sizes x limits x colour outputs x reading modes",
  "No test sets a memory limit.",
  [M, C, D], [("MemoryLimit::{check_size,buffer_size}", M), ("PixelConverter::check_buffer_size", C), ("OutputBuffer::append", D)],
  ["success or error of the read", "peak heap use during the call"])
p("C12", "End-code checking accepts complete data and rejects missing end codes",
  "With end-code checking on, a file whose every image has its end code decodes exactly as with checking off, however its frames are read, partly read or skipped and however data is split into sub-blocks. A file with an image that lacks its end code reports an error no later than the call that moves past that image; with checking off a missing end code is no error. The frame decoder, given raw LZW frames, accepts and refuses them by the same rule.",
  ["inputs", "configurations", "histories"],
  "all images with and without end code x sub-block splits x reading histories",
  "One sample file with one missing end code is read with read_next_frame only.",
  [D], [("check_for_end_code in LzwReader::decode_bytes", D), ("DecodeSubBlock terminator handling", D)],
  ["success or error of next_frame_info and pixel reads"],
  [("lzw_reader", "knows whether the end code was seen", D)])
p("C13", "Frame bounds checking is exact",
  "With frame consistency checking on, a frame is refused exactly when left + width exceeds the screen width or top + height exceeds the screen height (as mathematical integers), and everything else decodes unchanged; with checking off no frame is refused for its position or size.",
  ["inputs", "configurations"],
  "all screen sizes, offsets and frame sizes (16 bit each)",
  "One 2x2 screen with one out-of-bounds frame is tested.",
  [D], [("consistency check in ImageBlockStart", D)], ["success or error of next_frame_info"])
p("C14", "Unknown blocks are rejected, or skipped without side effects",
  "By default a block with an unknown introducer is an error. With unknown blocks allowed, such a block is skipped as a sequence of sub-blocks of any content, and all other blocks decode (metadata, loop count, pixels, extension scope) as if it were absent, wherever it stands after the header.",
  ["inputs", "configurations"],
  "all introducer bytes x payloads x positions among other blocks",
  "No test uses allow_unknown_blocks.",
  [D], [("BlockStart state, None branch", D), ("ExtensionDataBlock state", D)],
  ["decoded frames and errors"],
  [("ext", "last extension's id and data, must not leak into unknown blocks", D)])
p("C15", "The streaming decoder emits the documented event sequence",
  "For every well-formed stream, feeding the streaming decoder and always passing on the bytes it did not consume yields background colour, global palette, one header-end before the first non-extension block, for each extension a start, sub-block and finish events with the right label (and the loop count), for each image a start, metadata, pixel data adding up to the image and an end, and the trailer as very last event. The consumed counts add up to the position reached, an update that reports nothing has consumed all its input, and data given after the trailer produces no further event.",
  ["inputs", "schedules"],
  "all block sequences x update slicings",
  "No test uses StreamingDecoder directly.",
  [D], [("StreamingDecoder::update, next_state", D)],
  ["Decoded events, consumed counts, current_frame, last_ext"],
  [("state", "position in the block grammar", D), ("header_end_reached", "HeaderEnd emitted once", D)])
p("C16", "The end of the image is final and trailing data is left alone",
  "After the trailer every reading call reports the end again, the iterator keeps returning nothing once it has returned nothing or an error, and it yields every frame before that, including frames of zero area. The reader handed back afterwards continues exactly behind the trailer, and an image with no frames at all is read as such.",
  ["histories", "inputs"],
  "all files (also without frames) x trailing data x numbers and kinds of further calls",
  "Tests only see files with ordinary frames, no trailing data, and at most two calls past the end.",
  [M, D], [("ReadDecoder::at_eof", M), ("DecoderIter::next", M), ("BlockEnd / Trailer states", D)],
  ["results of repeated calls", "bytes left in into_inner()"],
  [("at_eof, ended", "end flags", M)])
p("C17", "What is encoded decodes back unchanged",
  "For every sequence of accepted encoder calls (global palette, repeat, frames, raw extensions), decoding the output gives the same screen size, loop count, number of frames and, per frame, the same fields, palette (padded with black to a power of two) and pixels, with interlaced frames put in order.",
  ["inputs", "histories"],
  "all call sequences x all frame contents and field values",
  "Three sample-based round trips and a sweep of palette sizes with 1x1 frames; image sizes crossing sub-block, table and code-width boundaries and most field values are not covered.",
  [E, D, M], [("write_frame_header, write_image_block, lzw_encode, check_color_table", E), ("decoder states", D)],
  ["frames decoded from the output"],
  [("buffer", "LZW scratch buffer reused between frames", E), ("global_palette", "whether frames may omit a palette", E)])
p("C18", "Encoder output is well-formed GIF89a",
  "For every sequence of accepted encoder calls the output, read by an independent strict parser, is header, screen descriptor, global palette of the announced size, then complete extension and image blocks in call order and one trailer: control extensions carry the frame's fields, loop extensions the NETSCAPE2.0 layout, sub-blocks are 1 to 255 bytes closed by an empty one. Image data starts with a clear code, uses only defined codes, ends with the end code with nothing after it, and denotes exactly the frame's buffer.",
  ["inputs", "histories"],
  "all call sequences x all frame contents and field values",
  "Only one test compares output bytes (one 10x10 image); everything else goes through this crate's own decoder, which would accept symmetric mistakes.",
  [E, T, K], [("write_screen_desc, write_frame_header, write_extension, write_raw_extension, write_encoded_image_block, lzw_encode", E), ("WriteBytesExt", T)],
  ["bytes in the writer"])
p("C19", "Writer faults are neither hidden nor corrupting",
  "If the writer accepts only part of the data or is interrupted, the encoder carries on and the final bytes are the same as with a perfect writer. If it fails, the encoder call that hit the failure returns an I/O error of that kind, and the bytes accepted so far are exactly a prefix of the perfect output.",
  ["fault_sequences", "histories"],
  "all call sequences x every position and kind of writer fault",
  "All tests write to a Vec or a file that never fails or shortens a write.",
  [E, T], [("write_all based helpers, Buf::finish", E), ("WriteBytesExt", T)],
  ["bytes accepted by the writer", "result of each call"])
p("C20", "An encoder finishes its file exactly once",
  "Whatever calls precede it, dropping the encoder or taking the writer back appends exactly one trailer byte and nothing else, and taking the writer back returns that writer or reports the failure; a failure to finish or to start a file is returned as an error from the call, never as a panic with the default features and never twice. A failed construction leaves no trailer behind.",
  ["histories", "fault_sequences", "configurations"],
  "all call sequences x drop or into_inner x writer failures at the end x feature set",
  "Tests always finish successfully; no test inspects what a failing finish or constructor does.",
  [E], [("Drop for Encoder, into_inner, write_trailer", E)],
  ["bytes in the writer", "panics"],
  [("w", "Option emptied when the writer is taken", E)])
p("C21", "Unencodable requests are refused precisely and without side effects",
  "The encoder refuses exactly: more than 256 palette colours, a frame without local palette when there is no global one, a frame buffer shorter than width times height, and pre-encoded data whose first byte is not a code size from 2 to 11. The error names the reason, a refused call writes nothing, and the file can be continued and finished as if the call had not been made.",
  ["inputs", "histories"],
  "all histories containing refusable calls at any position",
  "One test checks one missing-palette error; nothing looks at the bytes written by a refused call or continues afterwards.",
  [E], [("check_color_table, write_frame, write_frame_header, write_lzw_pre_encoded_frame", E)],
  ["error variants", "bytes in the writer", "decoded file"])
p("C22", "Pre-encoding frames gives the same file as writing them directly",
  "For every frame, compressing it first and writing it as pre-encoded data yields byte for byte the same file as writing it directly, whatever else is compressed before, in between, or in another order. Compression of one frame depends on that frame's pixels only.",
  ["inputs", "histories", "schedules"],
  "all frames x all orders of compressing and writing",
  "One test writes one solid-colour frame both ways and only looks at the decoded pixels.",
  [E], [("lzw_encode, Frame::make_lzw_pre_encoded", E), ("write_lzw_pre_encoded_frame", E)],
  ["bytes in the writer", "Frame.buffer after make_lzw_pre_encoded"])
p("C23", "Frames made from up to 256 colours reproduce the pixels exactly",
  "For every RGBA image whose pixels have at most 256 distinct colours after treating alpha as a 1-bit mask, the frame made from it at any speed has the given size, and looking its indices up in its palette gives back every opaque pixel's colour exactly and marks exactly the pixels with alpha 0 as transparent; the RGB constructor and the palette and index constructors likewise keep every pixel; fields that are not given have the values of a default frame, which is empty, has no palette, delay or transparency, and is kept. The result is a function of the arguments, and wrong buffer lengths, palettes or speeds are refused by panic as documented.",
  ["inputs"],
  "all small images over colliding colours and alphas; all colour counts up to 256",
  "One test uses an image with two colours and no transparency; a 256-colour image is only checked not to panic.",
  [K], [("Frame::from_rgba_speed palette branch", K), ("Frame::from_palette_pixels, from_indexed_pixels, from_rgb_speed", K)],
  ["Frame fields and buffer"])
p("C24", "Quantised frames are well-formed and keep the transparency",
  "For every RGBA image with more than 256 colours the frame made from it has one index per pixel, a palette of at most 256 colours that contains every index, the same result every time, and the pixels with the frame's transparent index are exactly the fully transparent ones. An image without transparent pixels gets no transparent index, the constructors without a speed do the same as with speed 1, and the frame can be encoded and decoded.",
  ["inputs"],
  "all images with more than 256 colours, all speeds",
  "No test quantises an image.",
  [K], [("Frame::from_rgba_speed NeuQuant branch", K)],
  ["Frame fields and buffer"])
p("C25", "Extension payloads survive writing and reading",
  "For every known extension label and every list of payload slices of any length (also empty), a raw extension written by the encoder is reported by the streaming decoder with that label and exactly the concatenated payload, no matter how the file is sliced, and does not disturb the blocks around it.",
  ["inputs", "schedules"],
  "all labels x payload lists (lengths around 0, 255, 256, multiples) x update slicings",
  "One test writes one 5-byte comment and ignores it when reading.",
  [E, D], [("write_raw_extension", E), ("ExtensionBlockStart, ExtensionDataBlock states, last_ext", D)],
  ["last_ext() at block-finished events", "frames around the extension"],
  [("ext", "extension buffer reused between extensions", D)])
p("C26", "Frames do not influence each other and objects are isolated",
  "The result of decoding or encoding a frame depends on that frame and the configuration only: not on frames processed before by the same decoder, frame decoder or encoder (also failed ones), and not on other decoders or encoders alive in the program, in any interleaving of their calls.",
  ["histories", "schedules"],
  "all sequences of frames through one object; all interleavings of calls on several objects",
  "Tests use one object at a time and mostly one frame; no test feeds a failed frame and continues.",
  [D, M, C, E], [("LzwReader::reset", D), ("PixelConverter.buffer", C), ("Encoder.buffer", E)],
  ["pixels, metadata, bytes per object"],
  [("lzw_reader, buffer", "reused state", D)])
p("C27", "Read errors are reported and do not lose or invent data",
  "If the reader fails, the call in progress returns an I/O error of the same kind, never a normal end or a format error. Once the reader recovers, asking for the next frame continues with the following frames, and a failed request for frame information can be repeated, with metadata and pixels as if no error had happened.",
  ["fault_sequences", "histories"],
  "all files x every read position and kind of error x reading APIs",
  "All test readers are infallible.",
  [M], [("ReadDecoder::decode_next", M)],
  ["error kinds", "frames after the error"],
  [("decoder state across errors", "must not advance on a failed read", M)])
p("C28", "What the decoder says about the image and the current frame is true",
  "From opening an image to its end, whatever is read, skipped or fails and whatever the file contains later (other loop extensions, palettes, even a second file), width, height, global palette, background index and loop count of the decoder stay those of the header, and version, width and height of the streaming decoder stay those of the screen descriptor once it was read. While a frame is current, palette() is its local palette or else the global one, line_length is its width in the chosen colour output and buffer_size its height times that, which is exactly the buffer length that read_into_buffer (and the frame decoder) needs: one byte less is an error. The reader taken back continues with a final part of the input.",
  ["inputs", "histories", "configurations"],
  "all files x all call histories x options, asked after every call",
  "Tests look at width, height and palette of sample files right after opening, never after reading, skipping, failing or meeting later extensions, and never compare buffer_size with what is needed.",
  [M, C, D], [("Decoder accessors", M), ("PixelConverter::buffer_size, line_length", C), ("StreamingDecoder::version, width, height", D)],
  ["Decoder::{width,height,global_palette,bg_color,repeat,palette,buffer_size,line_length,into_inner}", "StreamingDecoder::{version,width,height}", "FrameDecoder::buffer_size"],
  [("current_frame, pixel_converter.global_palette, repeat, bg_color", "state behind the accessors", M)])
p("C29", "Every decoding option does what was set last and nothing else",
  "For every sequence of setter calls, the decoder behaves according to the last value set for each option and the documented default for the others: colour output, memory limit, frame consistency, skipping, end-code check and unknown blocks do not influence each other, their order does not matter, a clone keeps the settings it was made with, and Decoder::new, Decoder::build and Default use the defaults. The frame decoder takes colour output and limit from the same options.",
  ["configurations", "histories"],
  "all sequences of setter calls x clone points x files that tell the settings apart",
  "Tests set one or two options, once each, to the value that is not the default; no test turns an option off again, combines options or clones them.",
  [M, D], [("DecodeOptions setters", M), ("StreamingDecoder::with_options, FrameDecoder::new", D)],
  ["verdict and frames of files that trigger one option each"],
  [("DecodeOptions", "six settings", M)])
p("C30", "A file that was read can be written again and stays the same",
  "For every image that decodes without error, writing its size, global palette, loop count and frames with the encoder (directly, compressed first, or raw as read with decoding skipped; all frames or any selection in any order) is accepted and decodes to the same size, global palette (an absent one may come back as two unused black colours), loop count and frames with the same metadata, palettes and data. Doing it once more gives byte for byte the same file.",
  ["inputs", "histories"],
  "all decodable files x selections of frames x ways of writing",
  "Tests re-encode two sample files and compare frames by one way only; no interlaced raw copies, odd code sizes, selections of frames or second copies.",
  [M, D, E], [("Decoder::read_next_frame, DecoderIter", M), ("Encoder::write_frame, write_lzw_pre_encoded_frame, set_repeat", E)],
  ["bytes of the copy", "frames decoded from the copy"])
p("C31", "True colour pictures survive the whole way through a file",
  "For every list of RGBA (or RGB) pictures of at most 256 colours each (alpha being a 1-bit mask), making frames from them at any speed, writing these directly or compressed first into one file and decoding it with RGBA output gives back every opaque pixel's colour with alpha 255, and alpha 0 for exactly the pixels whose alpha was 0.",
  ["inputs", "histories"],
  "all small pictures over colliding colours and all alpha classes, all numbers of colours, several frames per file",
  "Tests convert single sample pictures and compare indices; none goes from pixels through a file with several frames to RGBA again.",
  [K, E, C], [("Frame::from_rgba_speed, from_rgb_speed", K), ("Encoder::write_frame", E), ("PixelConverter::fill_buffer", C)],
  ["RGBA bytes decoded from the written file"])
p("C32", "Conversions between bytes, enums and errors are exact",
  "For every byte, DisposalMethod, Block and Extension convert from exactly the values the format defines and back to the same byte, and AnyExtension keeps any label; control extension data carries disposal method, user input, transparency and delay in the format's bits for all values. An I/O error turned into a decoding or encoding error keeps its kind and text and is its source, and every format error has a text and a source that says the same.",
  ["inputs"],
  "all 256 bytes, all field values, all kinds of I/O errors, all bad files of the corpus",
  "Tests never convert values that are undefined and never look into errors.",
  [K, E, D], [("from_u8, into_known, From impls", K), ("ExtensionData::new_control_ext", E), ("DecodingError, EncodingError", D)],
  ["converted values", "Display and source of errors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
