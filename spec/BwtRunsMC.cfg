SPECIFICATION Spec
CONSTANTS MaxRun = 9
INVARIANTS ColumnOK StoredOK EobOK RowsOK
