----------------------------- MODULE ConfigSpace ------------------------------
(* Every way one setting can be given: per level unset / empty / set, with or without a file that    *)
(* does or does not mention it, with or without the variables of other applications and instances.   *)
EXTENDS Config
V == {"unset", "empty", "set"}
VARIABLES i, a, m, f, x, op
Env(fo) == LET p(n, v, val) == IF v = "unset" THEN <<>> ELSE (n :> (IF v = "empty" THEN "" ELSE val)) IN
           p("ECOENV_STAT_GP_APP_0", i, "1") @@ p("ECOENV_STAT_GP_APP", a, "2") @@ p("ECOENV_STAT_GP", m, "3")
           @@ (IF fo THEN "ECOENV_STAT_GP_APP_1" :> "8" @@ "ECOENV_STAT_GP_APPX" :> "9" ELSE <<>>)
C(fo) == [A |-> "APP", I |-> "0", name |-> "app", inst |-> "0", env |-> Env(fo), hasfile |-> IF f = "none" THEN 0 ELSE 1,
          file |-> IF f = "set" THEN ("STAT_GP" :> "7") ELSE <<>>]
Init == i \in V /\ a \in V /\ m \in V /\ f \in {"none", "silent", "set"} /\ x \in BOOLEAN /\ op = <<i, a, m, f, x>>
Next == FALSE /\ UNCHANGED <<i, a, m, f, x, op>>
Spec == Init /\ [][Next]_<<i, a, m, f, x, op>>
(* nobody else's variable matters *)
Own == Eff(C(TRUE), "STAT_GP") = Eff(C(FALSE), "STAT_GP")
Precedence ==
  Eff(C(x), "STAT_GP") = IF f = "set" THEN "7" ELSE IF i = "set" THEN "1" ELSE IF a = "set" THEN "2" ELSE IF m = "set" THEN "3" ELSE "300"
=============================================================================
