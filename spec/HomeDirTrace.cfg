SPECIFICATION TSpec
CONSTANT State = {"beescrawl.dat", "beesstats.txt"}
CHECK_DEADLOCK FALSE
