SPECIFICATION Spec
CONSTANTS
  Broken = ""
  MaxId = 3
  Frames = 2
  Mode = "walk"
INVARIANTS WalkRight CamerasRight OutSound
PROPERTY Ends
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
