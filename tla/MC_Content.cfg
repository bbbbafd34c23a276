SPECIFICATION Spec
CONSTANTS
 Types = {"text/plain", "text/html", "TEXT/Json", "application/json", "a/b+json", "image/gif", "image/jpeg", "video/mp4", "image/svg+xml", "text", "text/", "~a/b", "*/b"}
 Pars <- ParsIn
 Statuses = {"200", "101", "199", "204", "206", "304", "404"}
 Disps = {"attachment", "inline", "Attachment ", "x", "", "form-data"}
INVARIANTS Utf8Agree RoundTrip CutLess OneCharset NoneWithout JsonIsUtf8 Emit
CHECK_DEADLOCK FALSE
