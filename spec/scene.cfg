SPECIFICATION Spec
CONSTANTS
 Flaws = {}
 Pool <- MCPool
 N = 2
 PfImages = {"none", "ok", "nodata"}
 Narrow = 8
 Emit = {}
INVARIANTS Sound Complete Hidden
PROPERTY Grows
CHECK_DEADLOCK FALSE
