SPECIFICATION Spec
INVARIANT Good
VIEW View
CONSTANTS
 Topos <- Three
 T = 1
 Urgent = TRUE
 Steps = 2
