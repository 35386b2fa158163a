SPECIFICATION SpecExport
CHECK_DEADLOCK FALSE
