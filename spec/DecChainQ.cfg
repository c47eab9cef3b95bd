CONSTANTS G = "u"
 Fns = {}
 Depth = 1
SPECIFICATION Spec2
INVARIANTS Legal Encloses DefTrue DacTrue ComTrue Weaken
CHECK_DEADLOCK FALSE
