SPECIFICATION Spec
CONSTANTS
  Broken = ""
  MaxLen = 5
  Buf = 2
  Mode = "cmd"
INVARIANTS CmdRight CmdKeeps LineRight ReplRight CutRight
PROPERTY Ends
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
