SPECIFICATION MCSpec
CONSTANTS
 Dirs = {"max-age","s-maxage","no-cache"}
 Statuses = {"200","404"}
 Exps = {"none","past","future","bad"}
 Dates = {"none","old","future","bad"}
 Ages = {"none","bad","small","large"}
 Reqs = {"none","get"}
 Times = {"none","rt","both"}
 Varys = {"none"}
 Vals = {"none","lm","etag"}
 Lives = {"fresh","mixed"}
INVARIANTS CacheInv Emit
CHECK_DEADLOCK FALSE
