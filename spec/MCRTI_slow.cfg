SPECIFICATION Spec
INVARIANT Good
VIEW View
CONSTANTS
 Topos <- Two
 T = 2
 Urgent = FALSE
 Steps = 2
