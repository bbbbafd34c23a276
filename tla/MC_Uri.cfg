SPECIFICATION Spec
CONSTANTS
 Schemes = {"http:", "HTTPS:", "", "1a:", "mailto:", ":"}
 Auths = {"", "//", "//e.com", "//e.com:80", "//U:p@Ã©.com:8", "//bÃ¼cher.De", "//[::1]", "//a..b", "//Ã©..b", "//a@b@c"}
 Paths = {"", "/", "/a%41%", "/Ã©", "/a b[", "x:y", "//z"}
 Tails = {"", "?", "?q=a?/b#", "#f#", "?Ã©#Ã©"}
 Targets = {"<a>", "</a,b;c>", "<ftp://x/>", "<HTTP:y>", "<>", "<a b>", "a", "<a"}
 Pars <- ParsIn
 Refs = {"https://a.com/x", "https://A.com:443", "https://a.com:8443/", "http://a.com/", "wss://a.com/", "ws://u@a.com", "/x", "", "../y?q", "//b.com", "https://a.com:99999/", "https://[::1]/", "https:x", "?y"}
 Bases = {"", "http://a.com/d/e?f", "ftp://f/"}
INVARIANTS SameUri Idempotent NoFragment Puny RefererSane RefererSame LinkWhole Emit
CHECK_DEADLOCK FALSE
