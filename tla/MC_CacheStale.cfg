SPECIFICATION MCSpec
CONSTANTS
 Dirs = {"public","no-cache","must-revalidate","proxy-revalidate","max-age","s-maxage","stale-if-error","stale-while-revalidate"}
 Statuses = {"200","404"}
 Exps = {"none","past"}
 Dates = {"now"}
 Ages = {"none"}
 Reqs = {"none"}
 Times = {"rt"}
 Varys = {"none"}
 Vals = {"none"}
 Lives = {"fresh","zero","mixed"}
INVARIANTS CacheInv Emit
CHECK_DEADLOCK FALSE
