SPECIFICATION Spec
CONSTANTS Handle = {h1, h2}
          Value = {1, 2}
          MaxLen = 2
          MaxCap = 4
CONSTRAINT Bounded
INVARIANT TypeOK
PROPERTIES FrozenFixed ThrownOnlyFrozen Isolation
CHECK_DEADLOCK FALSE
