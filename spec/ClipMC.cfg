SPECIFICATION Spec
INVARIANTS Cover Disjoint Area Self Agrees
CHECK_DEADLOCK FALSE
