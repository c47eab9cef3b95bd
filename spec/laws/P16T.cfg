CONSTANTS G = "u"
 Fns = {"sqr","abs","pown","cosh","add"}
SPECIFICATION Spec
INVARIANTS RevMeaning MulRevMeaning
CHECK_DEADLOCK FALSE
