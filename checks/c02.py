from hist import *
CHECK = HistoryCheck("C02", focus="remove")
