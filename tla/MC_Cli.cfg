SPECIFICATION Spec
INVARIANTS WireOk ArgsOk Emit
CHECK_DEADLOCK FALSE
