SPECIFICATION MCSpec
CONSTANTS
 Dirs = {"public","private","no-store","no-cache","must-revalidate","max-age","s-maxage"}
 Statuses = {"200","404","206"}
 Exps = {"none","future","bad"}
 Dates = {"none","now"}
 Ages = {"none"}
 Reqs = {"none","get","auth","post"}
 Times = {"none"}
 Varys = {"none","star"}
 Vals = {"none"}
 Lives = {"fresh"}
INVARIANTS CacheInv Emit
CHECK_DEADLOCK FALSE
