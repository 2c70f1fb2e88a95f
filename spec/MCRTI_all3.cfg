SPECIFICATION Spec
INVARIANT Good
VIEW View
CONSTANTS
 Topos <- AllThree
 T = 1
 Urgent = TRUE
 Steps = 2
