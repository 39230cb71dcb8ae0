"""What V8's serializer defines (value-serializer.cc, version 13 to 15).

This is the oracle of the checks: written from V8's source and format
description, not derived from the analysed package.
"""

TAGS = {
    "kVersion": 0xFF, "kPadding": 0x00, "kVerifyObjectCount": ord("?"),
    "kTheHole": ord("-"), "kUndefined": ord("_"), "kNull": ord("0"),
    "kTrue": ord("T"), "kFalse": ord("F"),
    "kInt32": ord("I"), "kUint32": ord("U"), "kDouble": ord("N"), "kBigInt": ord("Z"),
    "kUtf8String": ord("S"), "kOneByteString": ord('"'), "kTwoByteString": ord("c"),
    "kObjectReference": ord("^"),
    "kBeginJSObject": ord("o"), "kEndJSObject": ord("{"),
    "kBeginSparseJSArray": ord("a"), "kEndSparseJSArray": ord("@"),
    "kBeginDenseJSArray": ord("A"), "kEndDenseJSArray": ord("$"),
    "kDate": ord("D"),
    "kTrueObject": ord("y"), "kFalseObject": ord("x"), "kNumberObject": ord("n"),
    "kBigIntObject": ord("z"), "kStringObject": ord("s"),
    "kRegExp": ord("R"),
    "kBeginJSMap": ord(";"), "kEndJSMap": ord(":"),
    "kBeginJSSet": ord("'"), "kEndJSSet": ord(","),
    "kArrayBuffer": ord("B"), "kResizableArrayBuffer": ord("~"),
    "kArrayBufferTransfer": ord("t"), "kArrayBufferView": ord("V"),
    "kSharedArrayBuffer": ord("u"), "kSharedObject": ord("p"),
    "kWasmModuleTransfer": ord("w"), "kHostObject": ord("\\"),
    "kWasmMemoryTransfer": ord("m"), "kError": ord("r"),
    "kLegacyReservedMessagePort": ord("M"), "kLegacyReservedBlob": ord("b"),
    "kLegacyReservedBlobIndex": ord("i"), "kLegacyReservedFile": ord("f"),
    "kLegacyReservedFileIndex": ord("e"), "kLegacyReservedDOMFileSystem": ord("d"),
    "kLegacyReservedFileList": ord("l"), "kLegacyReservedFileListIndex": ord("L"),
    "kLegacyReservedImageData": ord("#"), "kLegacyReservedImageBitmap": ord("g"),
    "kLegacyReservedImageBitmapTransfer": ord("G"),
    "kLegacyReservedOffscreenCanvas": ord("H"), "kLegacyReservedCryptoKey": ord("K"),
    "kLegacyReservedRTCCertificate": ord("k"),
}

ERROR_TAGS = {
    "EvalErrorPrototype": ord("E"), "RangeErrorPrototype": ord("R"),
    "ReferenceErrorPrototype": ord("F"), "SyntaxErrorPrototype": ord("S"),
    "TypeErrorPrototype": ord("T"), "UriErrorPrototype": ord("U"),
    "Message": ord("m"), "Cause": ord("c"), "Stack": ord("s"), "End": ord("."),
}

# JavaScript's built-in error names and the prototype tag V8 writes for them
ERROR_NAMES = {
    "EvalError": "EvalErrorPrototype", "RangeError": "RangeErrorPrototype",
    "ReferenceError": "ReferenceErrorPrototype", "SyntaxError": "SyntaxErrorPrototype",
    "TypeError": "TypeErrorPrototype", "URIError": "UriErrorPrototype", "Error": None,
}

VIEW_TAGS = {
    "kInt8Array": ord("b"), "kUint8Array": ord("B"), "kUint8ClampedArray": ord("C"),
    "kInt16Array": ord("w"), "kUint16Array": ord("W"), "kInt32Array": ord("d"),
    "kUint32Array": ord("D"), "kFloat16Array": ord("h"), "kFloat32Array": ord("f"),
    "kFloat64Array": ord("F"), "kBigInt64Array": ord("q"), "kBigUint64Array": ord("Q"),
    "kDataView": ord("?"),
}
VIEW_FLAGS = {"IsLengthTracking": 1, "IsBufferResizable": 2}

# flag character -> bit (V8's JSRegExp::Flag)
REGEXP_FLAGS = {"g": 0, "i": 1, "m": 2, "y": 3, "u": 4, "s": 5, "l": 6, "d": 7, "v": 8}
REGEXP_NAMES = {"HasIndices": "d", "Global": "g", "IgnoreCase": "i", "Linear": "l", "Multiline": "m",
                "DotAll": "s", "Unicode": "u", "UnicodeSets": "v", "Sticky": "y"}

# element layout of each view: (bytes, struct format character ignoring case of size)
VIEW_ELEMENTS = {
    "kInt8Array": (1, "b"), "kUint8Array": (1, "B"), "kUint8ClampedArray": (1, "B"),
    "kInt16Array": (2, "h"), "kUint16Array": (2, "H"), "kInt32Array": (4, "i"),
    "kUint32Array": (4, "I"), "kFloat16Array": (2, "e"), "kFloat32Array": (4, "f"),
    "kFloat64Array": (8, "d"), "kBigInt64Array": (8, "q"), "kBigUint64Array": (8, "Q"),
    "kDataView": (1, "B"),
}

# node's v8.Serializer codes for ArrayBufferView host objects (lib/v8.js)
NODE_VIEWS = {
    0: "kInt8Array", 1: "kUint8Array", 2: "kUint8ClampedArray", 3: "kInt16Array",
    4: "kUint16Array", 5: "kInt32Array", 6: "kUint32Array", 7: "kFloat32Array",
    8: "kFloat64Array", 9: "kDataView", 10: "kUint8Array", 11: "kBigInt64Array",
    12: "kBigUint64Array",
}

# optional feature -> first V8 release able to read it
FEATURES = {
    "MaxCompatibility": (0, "10.0.29"), "RegExpUnicodeSets": (1, "10.7.123"),
    "ResizableArrayBuffers": (2, "11.0.193"), "CircularErrorCause": (4, "12.1.109"),
    "Float16Array": (8, None),
}

LATEST_VERSION = 15
READABLE_VERSIONS = (13, 14, 15)
VIEW_FLAGS_SINCE = 14

KEY_TAGS = {"kInt32", "kDouble", "kUint32", "kOneByteString", "kTwoByteString", "kUtf8String"}
CONSTANT_TAGS = {"kTheHole", "kUndefined", "kNull", "kTrue", "kFalse"}
BUFFER_TAGS = {"kArrayBuffer", "kResizableArrayBuffer", "kSharedArrayBuffer", "kArrayBufferTransfer"}
PRIMITIVE_OBJECT_TAGS = {"kTrueObject", "kFalseObject", "kNumberObject", "kBigIntObject", "kStringObject"}
STRING_TAGS = {"kUtf8String", "kOneByteString", "kTwoByteString"}

# tags which take an object id (one each) and those that must not
OBJECT_TAGS = {
    "kBeginJSObject", "kBeginSparseJSArray", "kBeginDenseJSArray", "kDate", "kTrueObject",
    "kFalseObject", "kNumberObject", "kBigIntObject", "kStringObject", "kRegExp",
    "kBeginJSMap", "kBeginJSSet", "kArrayBuffer", "kResizableArrayBuffer",
    "kArrayBufferTransfer", "kArrayBufferView", "kSharedArrayBuffer", "kSharedObject",
    "kHostObject", "kError",
}
VALUE_TAGS = CONSTANT_TAGS | {"kInt32", "kUint32", "kDouble", "kBigInt"} | STRING_TAGS | {"kObjectReference"}
UNSUPPORTED_TAGS = {"kVerifyObjectCount", "kWasmModuleTransfer", "kWasmMemoryTransfer"} | {
    t for t in TAGS if t.startswith("kLegacyReserved")}
STRUCTURE_TAGS = {"kVersion", "kPadding", "kEndJSObject", "kEndSparseJSArray", "kEndDenseJSArray",
                  "kEndJSMap", "kEndJSSet"}
CODECS = {"kUtf8String": "utf-8", "kOneByteString": "iso8859-1", "kTwoByteString": "utf-16-le"}
