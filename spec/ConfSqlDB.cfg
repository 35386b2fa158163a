SPECIFICATION SpecSql
CHECK_DEADLOCK FALSE
