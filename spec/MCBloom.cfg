SPECIFICATION Spec
CONSTANT Configs <- MCConfigs
INVARIANTS TypeOK NoFalseNegative
PROPERTY Monotone
