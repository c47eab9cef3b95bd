CONSTANTS Streams = {1, 2}
 MCFields = {"form", "prec", "upper", "special"}
 NVals = 2
 Depth = 0
SPECIFICATION MSpec
INVARIANT MTypeOK
PROPERTIES OwnStream OwnSetting Inert Selected
VIEW MView
CHECK_DEADLOCK FALSE
