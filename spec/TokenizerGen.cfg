SPECIFICATION Spec
CONSTANTS MaxLen = 4
 AlphaId = 1
INVARIANTS TypeOK LinesGrow LinesTrue LineNo TokensOK Lost Emit
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
