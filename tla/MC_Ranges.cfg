SPECIFICATION Spec
CONSTANTS
 Specs <- SpecsIn
 MaxSpecs = 3
 UnitParts = {"bytes=", "BYTES=", "x=", "bytes", "bytes = ", "="}
 Nums = {"0", "1", "2", "10", "9", "010", "", "x", "-1", " 1"}
 Broken <- BrokenIn
 Codes = {"200", "206", "416", "304", "404"}
 ReqRange = {"", "Range", "RANGE", "If-Range"}
 Types = {"", "multipart/byteranges", "Multipart/ByteRanges ; boundary=x", "text/html", "multipart/byteranges2"}
INVARIANTS RangeGrammar ReadOrReported Satisfiable Emit
CHECK_DEADLOCK FALSE
