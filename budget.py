# property -> (quick runs, quick seconds, thorough runs, thorough seconds); seconds only cap the search
BUDGET = {
    "T01": (12000, 40, 10**7, 600),
    "T02": (16000, 40, 10**7, 600),
    "T03": (12000, 40, 10**7, 600),
    "T04": (16000, 40, 10**7, 600),
    "T05": (16000, 40, 10**7, 600),
    "T06": (1600, 65, 10**7, 600),
    "T07": (2000, 60, 10**7, 600),
    "T08": (16000, 40, 10**7, 600),
    "T09": (8000, 40, 10**7, 600),
    "T10": (4000, 40, 10**7, 600),
    "T11": (6000, 40, 10**7, 600),
    "T12": (20000, 30, 10**7, 600),
    "C01": (12000, 30, 10**7, 600),
    "L01": (60000, 40, 10**7, 600),
    "S01": (6000, 40, 10**7, 600),
    "S02": (10000, 40, 10**7, 600),
    "S03": (10000, 40, 10**7, 600),
    "S04": (9000, 40, 10**7, 600),
    "S05": (9000, 40, 10**7, 600),
    "Z01": (8000, 40, 10**7, 600),
    "Z03": (20000, 40, 10**7, 600),
    "Z02": (3000, 60, 10**7, 600),
}
