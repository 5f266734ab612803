SPECIFICATION CSpec
CONSTANTS NLt <- DLt Level = 24
