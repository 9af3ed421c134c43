------------------------------- MODULE Config --------------------------------
(* What the configuration of an application instance is, given the environment and the file.        *)
(* c: [A |-> application name in upper case, I |-> instance in upper case, name, inst,              *)
(*     env |-> variable name -> value, hasfile, file |-> setting -> value, parts, ...]              *)
EXTENDS Naturals, Sequences, TLC

Val(f, n) == IF n \in DOMAIN f THEN f[n] ELSE ""           \* an empty variable counts as unset
First(q) == LET i == {j \in DOMAIN q : q[j] # ""} IN
            IF i = {} THEN "" ELSE q[CHOOSE j \in i : \A k \in i : j <= k]

MVar(s)       == "ECOENV_" \o s
AVar(s, c)    == MVar(s) \o "_" \o c.A
IVar(s, c)    == AVar(s, c) \o "_" \o c.I
EnvOf(c, s)   == First(<<Val(c.env, IVar(s, c)), Val(c.env, AVar(s, c)), Val(c.env, MVar(s))>>)
InstOf(c, s)  == Val(c.env, IVar(s, c))                    \* settings that exist for an instance only
FileOf(c, k)  == IF c.hasfile = 1 THEN Val(c.file, k) ELSE ""

Default(c, s) ==
  CASE s = "STAT_GP" -> "300" [] s = "STAT_HL" -> "12" [] s = "LOG_LEVEL" -> "info" [] s = "LOG_BUF_SIZE" -> "0"
    [] s = "LOG_MAX_SIZE" -> "10485760" [] s = "LOG_MAX_FILES" -> "10" [] s = "BUFFER_DIR" -> ""
    [] s \in {"LOG_DIR", "LOCK_DIR"} -> First(<<EnvOf(c, "DEFAULT_DIR"), "/tmp">>)
Leveled == {"STAT_GP", "STAT_HL", "LOG_LEVEL", "LOG_BUF_SIZE", "LOG_MAX_SIZE", "LOG_MAX_FILES", "BUFFER_DIR", "LOG_DIR", "LOCK_DIR"}
Eff(c, s) == First(<<FileOf(c, s), EnvOf(c, s), Default(c, s)>>)

(* TCP / UDP / UDS: two parts each; c.parts holds the two parts of the environment's value *)
PartDefault(s, i) == CASE s = "TCP" -> <<"127.0.0.1", "8888">>[i] [] s = "UDP" -> <<"127.0.0.1", "8889">>[i] [] s = "UDS" -> <<"/tmp", "DEFAULT">>[i]
Given(c, s) == InstOf(c, s) # "" \/ FileOf(c, s \o ".1") # "" \/ FileOf(c, s \o ".2") # ""
Part(c, s, i) ==
  IF ~Given(c, s) THEN ""
  ELSE LET v == First(<<FileOf(c, s \o "." \o ToString(i)), IF InstOf(c, s) # "" THEN c.parts[s][i] ELSE "", PartDefault(s, i)>>) IN
       IF s = "UDS" /\ i = 2 /\ v = "DEFAULT" THEN c.name \o "_" \o c.inst \o ".uds.sock" ELSE v

Extra(c, n) == First(<<FileOf(c, "EXTRA." \o n), Val(c.env, IVar("EXTRA", c) \o "_" \o n), Val(c.env, AVar("EXTRA", c) \o "_" \o n), Val(c.env, MVar("EXTRA") \o "_" \o n)>>)

Base(c)     == c.name \o "-" \o c.inst
LockFile(c) == Eff(c, "LOCK_DIR") \o "/" \o Base(c) \o ".lock"
LogFile(c)  == Eff(c, "LOG_DIR") \o "/" \o Base(c) \o ".log"
Severity == <<"debug", "info", "warn", "error", "critical">>
Shown(c) == LET l == Eff(c, "LOG_LEVEL") IN SelectSeq(Severity, LAMBDA x :
              \E i, j \in 1..5 : Severity[i] = l /\ Severity[j] = x /\ j >= i)
=============================================================================
