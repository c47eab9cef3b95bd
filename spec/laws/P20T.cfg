CONSTANTS G = "u"
 Used <- FewNums
 Forms = {0, 1, 2, 3}
 Nums10 = {0, 1, 2, 3}
 Precs = {0, 1, 3}
 Widths = {0, 7}
 SWidths = {0, 25}
SPECIFICATION Spec
INVARIANTS Denotes DenotesBare Width PadOnly CaseOnly Short Finer
CHECK_DEADLOCK FALSE
