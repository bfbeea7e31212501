SPECIFICATION Spec
CONSTANT Conv = {"A_1.0.csv", "B_0.3.csv", "GeneralTF_1.0.csv"}
INVARIANTS Partition Symmetric Emit
CHECK_DEADLOCK FALSE
