CONSTANTS Streams = {1, 2, 3}
 MCFields = {"form", "num", "prec", "width", "swidth", "upper", "nopunct", "uexp", "decnum", "ovlnum", "special"}
 NVals = 40
 Depth = 60
SPECIFICATION MSpec
INVARIANT MTypeOK
CHECK_DEADLOCK FALSE
