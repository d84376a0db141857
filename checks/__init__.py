REGISTRY = {
    "T10": {"module": "types", "fn": "t10", "packages": [], "fixture": "readers_fixture", "title": "byte-order readers"},
    "T11": {"module": "types", "fn": "t11", "packages": ["keramics-types"], "title": "UUID layout, parsing and formatting"},
    "E10": {"module": "encodings", "fn": "e10", "packages": ["keramics-encodings"], "title": "decoders follow the published mappings"},
    "E11": {"module": "encodings", "fn": "e11", "packages": ["keramics-encodings"], "title": "encoders invert the mappings"},
    "E12": {"module": "encodings", "fn": "e12", "packages": ["keramics-encodings"], "title": "coder factories"},
    "E13": {"module": "encodings", "fn": "e13", "packages": ["keramics-encodings"], "title": "UTF-8 well-formedness"},
    "E14": {"module": "encodings", "fn": "e14", "packages": ["keramics-encodings"], "title": "Base64"},
    "E15": {"module": "encodings", "fn": "e15", "packages": ["keramics-encodings"], "title": "coders are total and make progress"},
    "C10": {"module": "checksums", "fn": "c10", "packages": [], "fixture": "crc_fixture", "title": "CRC-32"},
    "C11": {"module": "checksums", "fn": "c11", "packages": [], "fixture": "adler_fixture", "title": "Adler-32"},
    "H10": {"module": "hashes", "fn": "h10", "packages": [], "fixture": "fixture", "title": "digests follow their standards"},
    "T12": {"module": "strings", "fn": "t12", "packages": [], "fixture": "fixture", "title": "strings of 8-bit and 16-bit elements"},
    "T14": {"module": "strings", "fn": "t14", "packages": [], "fixture": "fixture", "title": "byte strings and their encodings"},
    "T13": {"module": "strings", "fn": "t13", "packages": ["keramics-types"], "title": "UCS-2 case table"},
    "D10": {"module": "datetime", "fn": "d10", "packages": [], "fixture": "fixture", "title": "FAT timestamps"},
    "D11": {"module": "datetime", "fn": "d11", "packages": [], "fixture": "fixture", "title": "POSIX and FILETIME calendar"},
    "K10": {"module": "core", "fn": "k10", "packages": [], "fixture": "fixture", "title": "fake data streams"},
    "K11": {"module": "core", "fn": "k11", "packages": [], "fixture": "fixture", "title": "positioned and exact reads"},
    "K12": {"module": "core", "fn": "k12", "packages": [], "fixture": "fixture", "title": "hexdumps, arrays and error traces"},
    "K13": {"module": "core", "fn": "k13", "packages": [], "fixture": "fixture", "title": "file streams"},
    "L10": {"module": "layout", "fn": "l10", "packages": [], "fixture": "fixture", "title": "layout maps: debug text"},
    "L11": {"module": "layout", "fn": "l11", "packages": [], "fixture": "fixture", "title": "layout maps: positioned reads"},
    "S10": {"module": "sigscan", "fn": "s10", "packages": [], "fixture": "fixture", "title": "signature scanning"},
    "F10": {"module": "formats", "fn": "f10", "packages": ["keramics-formats"], "title": "structure readers never abort"},
    "F12": {"module": "formats", "fn": "f12", "packages": ["keramics-formats"], "title": "structures with a wrong checksum are rejected"},
    "F13": {"module": "paths", "fn": "f13", "packages": [], "fixture": "fixture", "title": "file names and extensions"},
    "F11": {"module": "formats", "fn": "f11", "packages": ["keramics-formats"], "title": "structure readers follow the declared layouts"},
    "Z10": {"module": "compression", "fn": "z10", "packages": ["keramics-compression"], "title": "decompressors never abort"},
    "Z11": {"module": "compression", "fn": "z11", "packages": ["keramics-compression"], "title": "code tables"},
    "Z12": {"module": "compression", "fn": "z12", "packages": ["keramics-compression"], "title": "ZLIB checksum"},
    "Z13": {"module": "compression", "fn": "z13", "packages": ["keramics-compression"], "title": "ADC, LZNT1 and LZVN instructions"},
    "K14": {"module": "core", "fn": "k14", "packages": [], "fixture": "fixture", "title": "stream macros and the mediator"},
}
