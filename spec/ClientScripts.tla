--------------------------- MODULE ClientScripts ----------------------------
(* All scripts of per-attempt server reactions for NC consecutive calls on one client.              *)
EXTENDS ClientOps, TLC
CONSTANTS Kind, MaxR, NC, Reacts
VARIABLES h, att, n
Fate(r) == CASE r \in {"ok", "slow"} -> "ok" [] r = "st" -> "status"
             [] r \in {"late", "late2", "later", "never"} -> "timeout"
             [] r \in {"close", "partial"} -> "closed" [] r = "rst" -> "reset"
Init == h = <<>> /\ att = 1 /\ n = 1
Next == /\ n <= NC
        /\ \E r \in Reacts :
             LET more == Retryable(Kind, Fate(r)) /\ att < MaxR IN
             /\ h' = Append(h, IF more THEN r ELSE r \o "-end")
             /\ att' = IF more THEN att + 1 ELSE 1
             /\ n' = IF more THEN n ELSE n + 1
Spec == Init /\ [][Next]_<<h, att, n>>
=============================================================================
