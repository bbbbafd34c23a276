SPECIFICATION Spec
CONSTANTS
 Codes = {"0", "99", "105", "199", "209", "299", "309", "419", "420", "427", "430", "450", "499", "509", "512", "599", "600", "999", "-1", "20O", "", "0200", "+200", "404 "}
 Methods = {"GET", "POST", "HEAD", "get"}
 ReqFields = {"user-agent"}
 RespFields = {}
INVARIANTS OnlyUnregistered AtMostTwo Satisfied ReqSatisfied NoReqNoBlame Emit
CHECK_DEADLOCK FALSE
