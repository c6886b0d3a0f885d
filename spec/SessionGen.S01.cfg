SPECIFICATION Spec
CONSTANTS
  H <- Sym
  Verbs = {"PLAY", "OPTIONS"}
  Codes = {200}
  Ids = {""}
  Chs = {}
  Strays = {"unknown", "repeat"}
  Ends = {}
  Feeds = 2
  Creds = TRUE
  MaxCmds = 3
  MaxUn = 3
  MaxStrays = 1
  MaxChs = 0
  MaxIds = 0
  MaxFails = 0
  Deep = TRUE
INVARIANTS FreshCseq OutIsUnanswered ReadyOnce SetupsOnce Confirmed LatestId CurrentId OneRetry RetryCarries DoneOnce Emit
