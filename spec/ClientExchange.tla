--------------------------- MODULE ClientExchange ---------------------------
(* ekosis/clients: concurrent calls on one client, attempts with timeouts, heartbeats, and a server *)
(* that answers each connection's requests in order, late, never, or drops the connection.          *)
(* Atomic/Drop are the two design decisions correlation rests on: write and read form one exchange  *)
(* under a lock, and a connection (or socket) is only used again after a completed exchange.        *)
EXTENDS ClientOps, FiniteSets, TLC
CONSTANTS Calls,      \* caller ids (1..n); 0 is the heartbeat
          MaxR, Kind, \* "tt" "pp" "ud"
          Atomic, Drop, Heartbeat,
          Bounded,    \* an attempt to connect is bounded by the timeout as well
          MaxConn
VARIABLES pc,     \* call -> "idle" "ready" "wait" "done"
          att,    \* call -> attempts made
          res,    \* call -> outcome: <<"none">> or <<"ok", id>> or <<exception>>
          conn,   \* connection in use by the client (0 = none)
          nconn,  \* connections made so far
          srv,    \* connection -> requests the server has not answered
          wire,   \* connection -> answers under way to the client
          open,   \* connection -> the server has not closed it
          cc,     \* call -> the connection its current attempt went out on
          lock,   \* exchange lock: call or -1
          rq,     \* order in which waiting readers read (readers' lock)
          tx,     \* call -> transmissions
          hung    \* connections that do not come about (nobody accepts them)
vars == <<pc, att, res, conn, nconn, srv, wire, open, cc, lock, rq, tx, hung>>
All == Calls \cup (IF Heartbeat /\ Kind = "pp" THEN {0} ELSE {})
Cn  == 1..MaxConn
None == <<"none">>

Init == /\ pc = [c \in All |-> "idle"] /\ att = [c \in All |-> 0] /\ res = [c \in All |-> None]
        /\ conn = 0 /\ nconn = 0 /\ srv = [k \in Cn |-> <<>>] /\ wire = [k \in Cn |-> <<>>]
        /\ open = [k \in Cn |-> FALSE] /\ cc = [c \in All |-> 0] /\ lock = -1 /\ rq = <<>> /\ tx = [c \in All |-> 0]
        /\ hung = {}

Begin(c) == pc[c] = "idle" /\ pc' = [pc EXCEPT ![c] = "ready"] /\ UNCHANGED <<att, res, conn, nconn, srv, wire, open, cc, lock, rq, tx, hung>>

Fresh == Kind = "tt" \/ conn = 0
Send(c) ==
  /\ pc[c] = "ready" /\ (Atomic => lock = -1)
  /\ Fresh => nconn < MaxConn
  /\ LET k == IF Fresh THEN nconn + 1 ELSE conn IN
     /\ nconn' = IF Fresh THEN nconn + 1 ELSE nconn
     /\ conn'  = IF Kind = "tt" THEN conn ELSE k
     /\ open'  = IF Fresh THEN [open EXCEPT ![k] = TRUE] ELSE open
     /\ cc'    = [cc EXCEPT ![c] = k]
     /\ srv'   = IF Fresh \/ open[k] THEN [srv EXCEPT ![k] = Append(@, c)] ELSE srv
     /\ tx'    = IF Fresh \/ open[k] THEN [tx EXCEPT ![c] = IF c = 0 THEN 0 ELSE @ + 1] ELSE tx
  /\ pc' = [pc EXCEPT ![c] = "wait"] /\ lock' = IF Atomic /\ Kind # "tt" THEN c ELSE lock
  /\ rq' = Append(rq, c)
  /\ UNCHANGED <<att, res, wire, hung>>
Hang(c) ==
  /\ pc[c] = "ready" /\ Kind # "ud" /\ (Atomic => lock = -1) /\ Fresh /\ nconn < MaxConn
  /\ nconn' = nconn + 1 /\ hung' = hung \cup {nconn + 1} /\ conn' = IF Kind = "tt" THEN conn ELSE nconn + 1
  /\ cc' = [cc EXCEPT ![c] = nconn + 1] /\ pc' = [pc EXCEPT ![c] = "wait"]
  /\ lock' = IF Atomic /\ Kind # "tt" THEN c ELSE lock
  /\ rq' = Append(rq, c)
  /\ UNCHANGED <<att, res, srv, wire, open, tx>>

(* the server *)
Answer(k) == /\ srv[k] # <<>> /\ open[k]
             /\ \/ wire' = [wire EXCEPT ![k] = Append(@, Head(srv[k]))]
                \/ Kind = "ud" /\ UNCHANGED wire                       \* datagram lost
             /\ srv' = [srv EXCEPT ![k] = Tail(@)]
             /\ UNCHANGED <<pc, att, res, conn, nconn, open, cc, lock, rq, tx, hung>>
Close(k)  == /\ open[k] /\ Kind # "ud"
             /\ open' = [open EXCEPT ![k] = FALSE] /\ srv' = [srv EXCEPT ![k] = <<>>]
             /\ UNCHANGED <<pc, att, res, conn, nconn, wire, cc, lock, rq, tx, hung>>

MyTurn(c) == Kind = "tt" \/ \A i \in DOMAIN rq : rq[i] = c => \A j \in 1..(i-1) : cc[rq[j]] # cc[c]
RmRq(c)  == SelectSeq(rq, LAMBDA x : x # c)
DropIt(c) == IF Drop /\ Kind # "tt" /\ conn = cc[c] THEN 0 ELSE conn
Unlock(c) == IF lock = c THEN -1 ELSE lock

Receive(c) ==
  /\ pc[c] = "wait" /\ MyTurn(c) /\ wire[cc[c]] # <<>>
  /\ res' = [res EXCEPT ![c] = <<"ok", Head(wire[cc[c]])>>]
  /\ wire' = [wire EXCEPT ![cc[c]] = Tail(@)]
  /\ pc' = [pc EXCEPT ![c] = IF c = 0 THEN "idle" ELSE "done"] /\ att' = [att EXCEPT ![c] = IF c = 0 THEN 0 ELSE @ + 1]
  /\ lock' = Unlock(c) /\ rq' = RmRq(c) /\ UNCHANGED <<conn, nconn, srv, open, cc, tx, hung>>

(* a retryable end of the attempt *)
Retry(c) ==
  /\ att' = [att EXCEPT ![c] = IF c = 0 THEN 0 ELSE @ + 1]
  /\ IF c = 0 THEN pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED res
     ELSE IF att[c] + 1 >= MaxR
       THEN pc' = [pc EXCEPT ![c] = "done"] /\ res' = [res EXCEPT ![c] = <<"CommunicationsMaxRetriesReached">>]
       ELSE pc' = [pc EXCEPT ![c] = "ready"] /\ UNCHANGED res
  /\ conn' = DropIt(c) /\ lock' = Unlock(c) /\ rq' = RmRq(c)
  /\ UNCHANGED <<nconn, srv, wire, open, cc, tx, hung>>
Timeout(c) == pc[c] = "wait" /\ MyTurn(c) /\ wire[cc[c]] = <<>> /\ (Bounded \/ cc[c] \notin hung) /\ Retry(c)
Eof(c) ==
  /\ pc[c] = "wait" /\ MyTurn(c) /\ wire[cc[c]] = <<>> /\ ~open[cc[c]] /\ cc[c] \notin hung
  /\ IF Retryable(Kind, "closed") THEN Retry(c)
     ELSE /\ pc' = [pc EXCEPT ![c] = "done"] /\ res' = [res EXCEPT ![c] = <<"CommunicationsNonRetryable">>]
          /\ att' = [att EXCEPT ![c] = @ + 1] /\ conn' = DropIt(c) /\ lock' = Unlock(c) /\ rq' = RmRq(c)
          /\ UNCHANGED <<nconn, srv, wire, open, cc, tx, hung>>

Next == \/ \E c \in All : Begin(c) \/ Send(c) \/ Hang(c) \/ Receive(c) \/ Timeout(c) \/ Eof(c)
        \/ \E k \in Cn : Answer(k) \/ Close(k)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A c \in Calls : WF_vars(Send(c) \/ Hang(c)) /\ WF_vars(Receive(c) \/ Timeout(c) \/ Eof(c))
             /\ (0 \in All => WF_vars(Receive(0) \/ Timeout(0) \/ Eof(0)))

Own      == \A c \in All : res[c][1] = "ok" => res[c][2] = c                        \* C10
Budget   == \A c \in Calls : tx[c] <= MaxR /\ att[c] <= MaxR                        \* C11
Outcomes == \A c \in Calls : /\ (res[c][1] = "CommunicationsMaxRetriesReached" => att[c] = MaxR)
                             /\ (res[c][1] = "CommunicationsNonRetryable" => Kind = "tt")
                             /\ (pc[c] = "done") = (res[c] # None)
OneAtATime == (Atomic /\ Kind # "tt") => \A k \in Cn : Cardinality({c \in All : pc[c] = "wait" /\ cc[c] = k}) <= 1
NoneAfter  == [][\A c \in Calls : pc[c] = "done" => tx'[c] = tx[c]]_vars            \* stops transmitting
Ends       == \A c \in Calls : (pc[c] = "ready") ~> (pc[c] = "done")
=============================================================================
