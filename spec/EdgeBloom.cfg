SPECIFICATION EdgeSpec
CONSTANT Configs <- EdgeConfigs
INVARIANTS TypeOK NoFalseNegative
