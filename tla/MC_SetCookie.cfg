SPECIFICATION Spec
CONSTANTS
 Names = {"a", "", "__Secure-a", "__HOST-a"}
 Av = {"Secure", " httponly = x", "SameSite=None", "samesite=LAX", "SameSite=x", "Path=/", "path=b", "Domain=.E.com", "Domain=", "Max-Age=10", "max-age=0034560001", "Max-Age=-1", "Max-Age=x", "Expires=Wed, 09 Jun 2021 10:18:14 GMT", "Expires=1 Jan 2037 1:2:3", "Expires=never", "Partitioned", "Priority=High", "Version=1", "x=y", "", " SECURE"}
 MaxAv = 2
 Bases = {"", "http://e.com", "http://e.com/", "http://e.com/a", "http://e.com/a/", "http://e.com/a/b?c/d/e", "http://e.com//", "http://e.com//x", "a/b/c", "*", "http://e.com/a;b/c#d/e/f"}
 Seps = {" ", "-"}
 Pairs = {"a=1", "A=2", "a = 3", "b", "=", "", "=x", "b=`"}
 Av2 = {"", ";Secure;HttpOnly;SameSite=Strict", ";secure;httponly;samesite=lax;samesite=none"}
INVARIANTS Promises Idempotent HardenedSafe MaxAgeWins DatesAgree Emit
CHECK_DEADLOCK FALSE
