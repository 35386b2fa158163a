SPECIFICATION SpecText
CHECK_DEADLOCK FALSE
