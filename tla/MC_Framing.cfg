SPECIFICATION Spec
CONSTANTS
 Lengths = {"0", "5", " 7 ", "-0", "-1", "+5", "", "abc", "9223372036854775807", "9223372036854775808", "0009223372036854775807", "5, 5", "5.0", "1_0"}
 Codings = {"chunked", "CHUNKED", "gzip", "gzip ;x=1", "identity", "deflate, gzip", "gzip;a*=utf-8''x", "chunked;q=0.5", "x;a=1;A=2", "chunked,chunked"}
 Tes <- TesIn
INVARIANTS OneVerdict Conflict OrderFree Joined Wanted Emit
CHECK_DEADLOCK FALSE
