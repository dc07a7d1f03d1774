-------------------------------- MODULE Emit --------------------------------
(* Output of cases and verdicts as JSON lines.  PrintT writes a line at      *)
(* once, whatever the number of workers (CSVWrite interleaves long lines).   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Emit(rec) == PrintT(ToJson(rec))
=============================================================================
