ALLB = "every byte value, position and length, not the sampled vectors of the tests"
prop("T10", "Integer readers return the addressed bytes",
     "Reading a 16, 32 or 64-bit signed or unsigned integer at an offset yields the positional value of exactly the bytes at that offset, in the stated byte order and two's complement for signed types. No read inside the buffer aborts.",
     ["inputs"], "every buffer length and content, every offset with the whole integer inside the buffer", "the tests read one constant per reader at offset 0",
     ["keramics-types/src/macros.rs"], [("reader macros", "keramics-types/src/macros.rs")],
     note="Each reader is instantiated in a generated client crate and its value term compared with the positional sum of the addressed bytes, for a buffer of symbolic length at a symbolic offset.")
prop("T11", "UUIDs: layout, parsing and text form agree with RFC 4122",
     "A UUID read from 16 bytes has the fields those bytes encode in the stated byte order; parsing text succeeds exactly on 36 characters (optionally in braces) of hexadecimal digits with dashes in the four places and yields the digits' value; the text form is the lower-case canonical one. The nil and max tests are true for exactly those UUIDs, and no text makes the parser abort.",
     ["inputs"], "every byte sequence and every text of every length", "the tests use a handful of UUIDs; non-ASCII, signed or misplaced characters are not sampled",
     ["keramics-types/src/uuid.rs"], [("byte constructors, parser, formatter", "keramics-types/src/uuid.rs")],
     note="Texts of each length 0 to 40 and all longer ones at once.")
prop("E10", "Decoders follow the published code pages",
     "Each single-byte decoder and the double-byte Japanese one maps every byte sequence the published code page defines to its code point, and reports an error for every one it leaves undefined.",
     ["inputs"], "all 256 bytes (and all 65536 pairs) per code page", "tests cover the defined values but hardly any undefined one, and share the table's author",
     ["keramics-encodings/src/"], [("tables and range matches", "keramics-encodings/src/*.rs")],
     technique=AI + " against published mapping tables",
     note="The reference tables are in oracles/encodings.json (Python and Perl codecs; Mac Celtic and Mac Gaelic: frozen from the base tree).")
prop("E11", "Encoders are the inverse of the code pages",
     "Each encoder turns a code point into a byte sequence that the code page maps back to it, and reports an error for every 32-bit value the code page does not contain: text is never silently altered.",
     ["inputs"], "all 2^32 values per code page", "tests encode the mapped code points and one or two unmapped ones",
     ["keramics-encodings/src/"], [("tables and range matches", "keramics-encodings/src/*.rs")],
     technique=AI + " against published mapping tables")
prop("E12", "Coder factories return the coder of the requested encoding",
     "Asking for a decoder or encoder by encoding returns one that behaves as that encoding for all input, and asking never aborts.",
     ["inputs", "configurations"], "every value of the encoding enumeration, every input to the coder returned", "tests only check that a factory call returns for most encodings",
     ["keramics-encodings/src/character_decoder.rs", "keramics-encodings/src/character_encoder.rs"],
     [("factory match", "keramics-encodings/src/character_decoder.rs"), ("factory match", "keramics-encodings/src/character_encoder.rs")],
     note="The encodings that have no implementation are listed as known findings.")
prop("E13", "UTF-8 decoding accepts exactly the well-formed sequences",
     "The UTF-8 decoder yields the code point of every well-formed sequence of RFC 3629 and resumes right after it; overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes yield an error, never a code point. Decoding always ends.",
     ["inputs"], "all byte strings, by ranges that cover them", "tests decode a few strings and a few malformed ones",
     ["keramics-encodings/src/utf8.rs"], [("decoder", "keramics-encodings/src/utf8.rs")])
prop("E14", "Base64 decoding follows RFC 4648",
     "Valid Base64 text, padded or not, decodes to exactly the bytes of RFC 4648 and their number; foreign characters, incomplete padding and too small output buffers are errors; white space is skipped only when asked for. No text or buffer makes it abort.",
     ["inputs"], "all texts of up to 12 (thorough: 24) characters over all byte values, all smaller output sizes", "tests decode one sentence",
     ["keramics-encodings/src/base64.rs"], [("bit buffer and padding checks", "keramics-encodings/src/base64.rs")])
prop("E15", "Coders never abort, always progress and always end",
     "Every decoder and encoder yields at most one item per input element, then ends, for any input; an error consumes input, so callers that continue after errors terminate. No input makes a coder abort.",
     ["inputs"], "all inputs of up to 3 elements until the end, the first steps of inputs of any length", "tests stop at the first error and use short well-formed input",
     ["keramics-encodings/src/"], [("index advance", "keramics-encodings/src/*.rs")])
prop("C10", "CRC-32 checksums are the polynomial remainder",
     "The CRC-32 contexts (normal and reversed) compute, for any data and initial value, the remainder defined by the polynomial, with initial and final inversion. Feeding data in several updates equals feeding it at once, finalizing leaves the context as new, and continuing from a previous checksum as initial value continues the computation. No data makes it abort.",
     ["inputs", "histories"], "all contents and initial values for buffers of up to 40 (thorough 260) bytes, any length for aborts, pairs of updates", "the tests use one buffer and one split",
     ["keramics-checksums/src/crc32.rs"], [("table and register update", "keramics-checksums/src/crc32.rs")],
     technique=AI + ", decided by comparing affine maps over GF(2)",
     note="Three published polynomials in each direction; each output bit of the interpreted update is decomposed into the input bits it depends on.")
prop("C11", "Adler-32 checksums follow RFC 1950",
     "The Adler-32 context computes both sums modulo 65521 for any data and valid initial value; the points at which long data is reduced do not matter; several updates equal one; finalizing leaves the context as new. No data makes it abort.",
     ["inputs", "histories"], "all contents for buffers of up to 24 (thorough 80) bytes, buffers around 5552 and 11104 bytes with bytes of extreme value, any length for aborts", "the tests use one buffer; no sum is congruent to 0",
     ["keramics-checksums/src/adler32.rs"], [("modular reduction", "keramics-checksums/src/adler32.rs")],
     technique=AI + ", decided by congruence modulo 65521")
prop("H10", "MD5, SHA-1, SHA-224, SHA-256 and SHA-512 digests follow their standards",
     "For any message each context yields the digest of RFC 1321 or FIPS 180-4, whatever the message's length relative to the block size and however it is divided into updates; after finalize the context can be used again as new. No message makes it abort.",
     ["inputs", "histories"], "all contents; message lengths around every padding and block boundary up to four blocks, one to three updates, reuse", "the tests hash fixed buffers of 0, 63 and 128 bytes and one division",
     ["keramics-hashes/src/"], [("block functions, padding and buffering", "keramics-hashes/src/*.rs")],
     technique=AI + " of the block functions against the round equations of the standards, and of the callers with the proved block function as a symbol",
     note="Constants of the standards are recomputed (sines, square and cube roots of primes).")
prop("T12", "Strings of 8 and 16-bit elements hold exactly the elements before the first zero",
     "Reading a byte, UCS-2 or UTF-16 string from a buffer or slice keeps the elements before the first zero element, in the stated byte order, ignoring an odd last byte; a second read appends. Length, emptiness and equality agree with the elements, comparison is their lexicographic order, and UCS-2 text shows each character, escaping backslashes and surrogates. No buffer makes these abort.",
     ["inputs"], "all contents for buffers of 0 to 8 (thorough 16) bytes, any length for aborts", "tests read a handful of fixed strings; odd sizes, early zeros and orderings of prefixes are not sampled",
     ["keramics-types/src/ucs2_string.rs", "keramics-types/src/utf16_string.rs", "keramics-types/src/byte_string.rs"],
     [("constructors and readers", "keramics-types/src/ucs2_string.rs"), ("constructors and readers", "keramics-types/src/byte_string.rs")])
prop("T13", "The UCS-2 case table holds the Unicode simple upper-case mappings",
     "Every pair of the table used for case-insensitive names maps a letter to its Unicode simple upper-case letter, no letter occurs twice, none is missing, and folding twice equals folding once.",
     ["inputs"], "all 973 pairs and all letters of the reference", "no test looks at the table's content",
     ["keramics-types/src/constants.rs"], [("table", "keramics-types/src/constants.rs")],
     technique="constant evaluation by the compiler, compared with the Unicode character database",
     note="The reference is oracles/ucs2case.json (Unicode 3.x letters the table covers); other letters are looked up in Python's character database.")
prop("T14", "Byte strings convert between encodings without altering text",
     "The text of a byte string is, byte for byte, the characters of its encoding (a backslash doubled, U+FFFD where there is none). Extending a string with one of the same encoding appends its bytes; with another encoding it appends the same characters in its own encoding and reports an error if one of them has no representation. Existing elements are never changed.",
     ["inputs", "configurations"], "all byte values for strings of up to 2 (same encoding: 3) elements and several pairs of encodings", "no test converts a string or extends one",
     ["keramics-types/src/byte_string.rs"], [("extend and to_string", "keramics-types/src/byte_string.rs")],
     note="Conversions to UTF-8 are not covered: the UTF-8 encoder is not implemented (known finding of E12).")
prop("D10", "FAT timestamps: fields and text",
     "A FAT date, time and date, or 10 ms timestamp read from bytes has the values of its little-endian fields; its text shows exactly the year from 1980, month, day, hours, minutes, seconds and hundredths its bits encode, for every bit pattern, and its display adds the raw values. No value aborts.",
     ["inputs"], "all values of all fields, any buffer of sufficient length", "the tests format one date each",
     ["keramics-datetime/src/fat.rs"], [("bit fields and text", "keramics-datetime/src/fat.rs")])
prop("D11", "POSIX and FILETIME timestamps show the Gregorian date and time",
     "The text of a 32-bit or 64-bit POSIX timestamp or a FILETIME is the proleptic Gregorian date and time of the epoch plus the timestamp, before and after the epoch, with the whole fraction; display adds the raw value. No timestamp makes it abort.",
     ["inputs"], "every second of every year: all of PosixTime32, all whole years of the 64-bit types", "the tests format a few timestamps after the epoch",
     ["keramics-datetime/src/util.rs", "keramics-datetime/src/posix.rs", "keramics-datetime/src/filetime.rs"],
     [("date calculation", "keramics-datetime/src/util.rs"), ("text", "keramics-datetime/src/posix.rs"), ("text", "keramics-datetime/src/filetime.rs")],
     note="One abstract run per year of the 400-year cycle, with cycle, day of year, second and fraction unknown.")
prop("K10", "Fake data streams present their data extended with zeros",
     "A fake data stream of given data and size reports that size; a read at any position returns as many bytes as the buffer and the size allow, each the data byte of its position or zero beyond the data, leaves the rest of the buffer alone and advances the position by the count. Seeking goes to the position asked for, relative to start, position or end; a position out of bounds is an error that changes nothing. No operation aborts.",
     ["inputs", "histories"], "all contents and every size and position, for data of up to 4 and buffers of up to 4 bytes, one and two reads; any data, buffer, size and position for aborts", "tests read inside and past the data but never across its end, and do not seek out of bounds",
     ["keramics-core/src/fake_data_stream.rs"], [("read and seek", "keramics-core/src/fake_data_stream.rs")])
prop("K11", "Positioned and exact reads do what they say on every stream",
     "Reading at a position seeks there once, then reads once and returns that count; an exact read succeeds exactly if the whole buffer was read and a positioned one reports the position reached; every error of the stream is passed on and nothing is read after a failed seek.",
     ["inputs", "fault_sequences"], "every outcome of seek and read of the underlying stream, every buffer length", "tests use streams whose seek and read do not fail",
     ["keramics-core/src/data_stream.rs"], [("provided methods", "keramics-core/src/data_stream.rs")],
     note="The stream below is a client type whose results are unknown.")
prop("K12", "Hexdumps, array listings and error traces show exactly their input",
     "A hexdump shows every byte once with its offset, two-digit values and printable characters, aligned for an incomplete last line; grouping replaces only runs of equal full lines, never the last full one. A listing of an array shows every element once in order, or the element and number if all are equal. An error trace shows its frames in order, numbered in its display form. No input makes these abort.",
     ["inputs"], "all contents for data of up to 49 (thorough 69) bytes and 5 lines, texts of any content in arrays of up to 33 elements", "tests dump a few fixed buffers and list 16 elements",
     ["keramics-core/src/formatters.rs", "keramics-core/src/errors.rs"], [("formatters", "keramics-core/src/formatters.rs"), ("error trace", "keramics-core/src/errors.rs")])
prop("K13", "File streams report what the operating system did",
     "The size of a file stream is that of its metadata; a read or seek is one operating system call with the caller's buffer or position, and its count, position or error is what the stream reports.",
     ["inputs", "fault_sequences"], "every result and error of the operating system calls", "tests cannot make the operating system fail",
     ["keramics-core/src/os_data_stream.rs"], [("stream implementation", "keramics-core/src/os_data_stream.rs")])
prop("K14", "Stream macros and the mediator do what they say",
     "The macros that get the size of a shared stream, read at a position or read exactly succeed exactly if the stream does and yield its value; otherwise the stream's error reaches the caller with one frame added. The mediator prints exactly the text or hexdump it was given when its debug output is on, nothing otherwise, and the one made current last in a thread is the current one; a thread that made none current prints nothing.",
     ["inputs", "configurations", "fault_sequences"], "every outcome of the stream, buffers of 0, 1 and 4 bytes, every setting of the mediator", "tests use working streams and do not capture what is printed",
     ["keramics-core/src/macros.rs", "keramics-core/src/mediator.rs"], [("macros", "keramics-core/src/macros.rs"), ("mediator", "keramics-core/src/mediator.rs")],
     technique=AI + " of generated client code")
prop("F10", "Reading a structure of a disk format never aborts",
     "Reading the structure of a disk image, volume or file system format (APM, EWF, ext, FAT, GPT, MBR, NTFS, QCOW, sparse image, UDIF, VHD, VHDX) from a buffer returns the structure or an error for every content and every size of the buffer, truncated, corrupt and hostile data included: no index outside the data, no overflow.",
     ["inputs"], "every content and length of the data, every prior state of the object", "tests read valid structures and one truncated and one corrupted copy of each",
     ["keramics-formats/src/"], [("read_data of each structure", "keramics-formats/src/*/*.rs")],
     note="12 readers whose loops or text have no bound the interpretation can use are left out and listed in the evidence (EWF headers, ext inodes, NTFS attributes and entries, bitmaps).")
prop("F11", "Structures of disk formats are read from their declared places",
     "A structure that is read successfully carries in each field the value of exactly the bytes at the offset, with the type and byte order, that the structure's layout declares, and was accepted only with the signature and version its format prescribes in their places; some data is accepted.",
     ["inputs"], "every content and length of the data", "tests compare fields with one sample, in which different fields often hold equal values or zeros",
     ["keramics-formats/src/"], [("read_data and layout_map of each structure", "keramics-formats/src/*/*.rs")],
     technique=AI + ", against the layouts declared in the sources and the published signatures",
     note="Fields that the reader converts (sizes stored as logarithms and the like) and arrays are not compared.")
prop("F12", "Corrupt structures do not pass their checksum",
     "A structure of EWF, GPT, VHDX or ext that holds a checksum of its data is read successfully only if the stored value equals the format's checksum (Adler-32, CRC-32 or CRC-32C) over exactly the data the format protects; a change to any protected byte that the checksum reveals is an error, not data.",
     ["inputs"], "every content of the structures, every value of the checksum", "tests corrupt one byte of one structure, if any",
     ["keramics-formats/src/ewf/", "keramics-formats/src/gpt/partition_table_header.rs", "keramics-formats/src/vhdx/", "keramics-formats/src/ext/superblock.rs"],
     [("readers that verify a checksum", "keramics-formats/src/*/*.rs")],
     technique=AI + " with the checksum contexts as recorded uninterpreted functions",
     note="13 structures. A stored 0 counts as not set in GPT, VHDX and ext. VHD and VHDX file level copies, MFT fix-ups and the EWF and GPT data checked by the file readers are not covered.")
prop("F13", "Extensions, stems and parents of paths are exact and never abort",
     "For a path component, and an ext, FAT (short and long name) or NTFS path, the extension is what follows the last dot that is not the first character, the stem what precedes it (the whole name when there is none), for characters of every width; the parent directory lacks exactly the last component of more than one, joining appends every component in order, the file name is the last of more than one component. None of these aborts, whatever the name.",
     ["inputs"], "every name of 0 to 5 elements, text of characters of 1 to 4 bytes in 18 orders of widths", "tests use a handful of ASCII names",
     ["keramics-formats/src/path_component.rs", "keramics-formats/src/ext/path.rs", "keramics-formats/src/fat/path.rs", "keramics-formats/src/ntfs/path.rs"],
     [("path components", "keramics-formats/src/path_component.rs"), ("paths", "keramics-formats/src/{ext,fat,ntfs}/path.rs")],
     technique=AI, note="Names are bounded at 5 elements. Components that are not text are not asked for an extension: the sources leave that undone.")
prop("Z10", "Decompressing ADC and LZVN data never aborts",
     "Decompressing ADC or LZVN data, and reading the header of a BZIP2, LZFSE, LZNT1 or ZLIB stream or block, ends with the data or an error for every content and size of the compressed data and every size of the output buffer, truncated, corrupt and hostile data included: nothing outside the compressed data is read, nothing outside the output written, no arithmetic overflows.",
     ["inputs"], "every content and length of the compressed data, every size of the output, debug output on and off", "tests decompress one valid stream and a truncated one",
     ["keramics-compression/src/adc.rs", "keramics-compression/src/lzvn.rs"], [("decompressors", "keramics-compression/src/{adc,lzvn}.rs"), ("headers", "keramics-compression/src/{bzip2,lzfse,lznt1,zlib}.rs")],
     note="The decompressors built on bit streams and Huffman trees (DEFLATE, BZIP2, LZX, LZFSE) and LZNT1 are left out: the interpretation finds no invariant for their loops.")
prop("Z11", "Code tables are those of the published compression formats",
     "The tables with which compressed data is decoded (DEFLATE code lengths, bases and extra bits, LZFSE value and frequency tables and block markers, LZVN opcodes, LZX position slots, BZIP2 signature) have the values of the published formats in every element, so that no code of a valid stream decodes to something else.",
     ["inputs"], "every element of 26 tables and constants", "tests decompress a few streams that use some of the codes",
     ["keramics-compression/src/deflate.rs", "keramics-compression/src/lzfse.rs", "keramics-compression/src/lzvn.rs", "keramics-compression/src/lzx.rs"], [("tables", "keramics-compression/src/*.rs")],
     technique="Comparison of the constants that the compiler evaluates with tables derived from the published formats")
prop("Z12", "ZLIB data that does not match its checksum is rejected",
     "ZLIB data is decompressed successfully only if the Adler-32 stored behind it, where the data reaches that far, is that of exactly the uncompressed bytes, whatever the size of the output buffer: corrupt data is an error, and valid data is accepted in a larger buffer.",
     ["inputs"], "every content and size of the compressed data and the output, every outcome of DEFLATE", "tests decompress valid data into a buffer of the exact size",
     ["keramics-compression/src/zlib.rs"], [("decompress", "keramics-compression/src/zlib.rs")],
     technique=AI + " with DEFLATE as a function of unknown outcome and the checksum as a recorded uninterpreted function",
     note="Data that ends before the checksum is accepted, as readers of damaged images need.")
prop("Z13", "ADC, LZNT1 and LZVN data yields what its instructions say",
     "Decompressing ADC, LZNT1 or LZVN data gives exactly the bytes that its literals and matches describe, every opcode, distance and size form included, matches that overlap themselves too, and tells their number; bytes of the output behind them stay as they were. Instructions that are cut off, a match that reaches before the data (of the block) or has no distance, and more data than the output holds are errors, not aborts.",
     ["inputs"], "every value of the literals and of the output before, for about 1500 streams: every opcode of ADC and LZVN, matches at every width of the LZNT1 tuple, in an output with room to spare, that just fits and that is too small", "tests decompress one stream of each format",
     ["keramics-compression/src/adc.rs", "keramics-compression/src/lznt1.rs", "keramics-compression/src/lzvn.rs"], [("decompress", "keramics-compression/src/*.rs")],
     technique=AI + " over streams of given instructions and unknown literals, compared with an independent description of the formats",
     note="LZNT1 blocks that reach past the end of the data are not specified.")
prop("S10", "A signature scan reports what occurs and misses nothing",
     "A reported signature occurs completely at the reported offset, inside the buffer and the data, and where it is bound at the offset it is bound to. When a signature bound to the start or end lies in a scanned buffer one is reported; every occurrence of an unbound signature is reported or overlaps a reported one. Building and scanning never abort; signatures that cannot be told apart, or an empty pattern, give a build error.",
     ["inputs", "histories"], "all contents of buffers of 0 to 9 bytes (bound signatures of the disk formats: 4104 bytes) at several offsets of data of several sizes, in one or two parts, for 23 sets of signatures covering every shape of scan tree, in two hash orders", "tests scan a few buffers for one or two signatures",
     ["keramics-sigscan/src/scan_context.rs", "keramics-sigscan/src/scan_tree.rs", "keramics-sigscan/src/signature_table.rs"], [("scan", "keramics-sigscan/src/scan_context.rs"), ("tree", "keramics-sigscan/src/scan_tree.rs"), ("signature", "keramics-sigscan/src/signature.rs")],
     note="A signature that is split over two buffers is not found; the reported one of several bound signatures that match is not specified.")
prop("L10", "Layout maps show every field of a structure with its value",
     "The debug text that a layout map declaration generates has the lines of the declared fields, in order, each with the value at the field's offset in the declared byte order, format and modifier, arrays, strings, bit fields and nested structures included; conditional groups appear exactly if their condition holds. Data too small for the structure is an error, not an abort.",
     ["inputs", "programs"], "all contents of the data for declarations that combine every data type, byte order, format, modifier, sequence, bit field, nested structure and group", "the tests declare a few structures and check one text each",
     ["keramics-layout-map-derive/src/lib.rs", "keramics-layout-map/src/"], [("generated debug_read_data", "keramics-layout-map-derive/src/")],
     technique=AI + " of the code the derive macro generates for generated declarations",
     note="The declarations are generated with an independent description of their text.")
prop("L11", "Layout maps read a structure at the position asked for",
     "The positioned read that a layout map declaration generates reads exactly the structure's bytes, and those of each group whose condition holds, at the given position, once, and hands them to the structure's reader; every error of the stream or the reader reaches the caller, and the debug setting of the mediator does not change the result.",
     ["inputs", "programs", "fault_sequences"], "every outcome of the stream and the reader, every position, both debug settings", "tests read from working streams",
     ["keramics-layout-map-derive/src/lib.rs"], [("generated read_at_position", "keramics-layout-map-derive/src/")],
     technique=AI + " of the code the derive macro generates for generated declarations")
na("V10", "A file of an image reads as the bytes that were stored", "Reading any range of a file, volume or image through the virtual file system gives exactly the bytes that the format's metadata maps to that range, zeros for holes, and an error where the metadata is corrupt; reads of the same range agree, in any order and size.",
   ["inputs", "histories"], "all images of the supported formats, all sequences of reads and seeks", "tests read a few small images",
   ["keramics-vfs/src/", "keramics-formats/src/", "keramics-core/src/data_stream.rs"], [("block lookup", "keramics-formats/src/*/block_range.rs")],
   "The mapping of a read is a walk over block ranges and trees on the heap whose number and shape the image gives; the interpretation has no summary for such loops over collections of unknown contents. What each structure reader takes from its bytes (F10 to F12) and what a positioned read does (K10, K11, K13) is decided.")
na("Z14", "Bit stream decompressors yield the data that was compressed", "Decompressing DEFLATE, BZIP2, LZFSE and LZX data gives the data that was compressed, corrupt streams are errors, and neither aborts nor runs on without end.",
   ["inputs"], "all contents of compressed data", "tests decompress one stream of each",
   ["keramics-compression/src/deflate.rs", "keramics-compression/src/bzip2.rs", "keramics-compression/src/lzfse.rs", "keramics-compression/src/lzx.rs", "keramics-compression/src/huffman.rs"], [("decompress", "keramics-compression/src/*.rs")],
   "Which bits are a code depends on all codes before and on trees built from the data: with unknown bits every path differs, with given bits it would be running the program. The code tables (Z11) and byte-oriented decompressors (Z10, Z13) are decided.")
na("M10", "The table preprocessor changes nothing but tables", "The documentation's table preprocessor turns tables into HTML with the text of their cells, spanned columns included, and leaves everything else of a chapter as it renders.",
   ["inputs"], "all chapters", "it has no tests", ["docs/mdbook-tables/src/main.rs"], [("preprocess_tables", "docs/mdbook-tables/src/main.rs")],
   "What a chapter's events are and how they are written is decided by the external pulldown-cmark crates, whose parsing no static argument in reach summarises; it serves the documentation only.")
na("P10", "The tools and the Python module report what the library reads", "Hashes, listings and exported data of the command line tools and the Python module are those that the library computes, for every image and option, and errors end with a message and a failure status.",
   ["inputs"], "all images and options", "tests cover few options", ["keramics-tools/src/", "keramics-python/src/"], [("tools", "keramics-tools/src/bin/")],
   "They are thin layers over V10 that do not build at this commit (a source file of keramics-compression is missing), so their type-checked form is available only with a stand-in, and their behaviour is that of option parsing and printing in external crates.")
