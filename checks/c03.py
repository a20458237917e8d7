from hist import *
CHECK = HistoryCheck("C03", focus="compact")
