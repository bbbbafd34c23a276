SPECIFICATION Spec
CONSTANTS
 Methods = {"OPTIONS", "GET", "options"}
 Origins = {"none", "null", "http://a.com", "HTTPS://A.com:443", "http://a.com:080 http://b.com", "a.com", "http://[::1]:", ""}
 Allows = {"none", "null", "*", "http://a.com", "https://a.com:443", "https://a.com", "http://a.com:80", "http://a.com http://b.com", "http://[::1]", "NULL", ""}
 Extra = {"access-control-max-age", "access-control-allow-methods", "access-control-allow-headers"}
INVARIANTS OneVerdict NotBoth Complete Incomplete SelfMatch Emit
CHECK_DEADLOCK FALSE
