from hist import *
CHECK = HistoryCheck("C01", focus="loss")
