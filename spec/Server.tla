------------------------------- MODULE Server -------------------------------
(* One application: a task per connection that handles its requests one after the other, each with  *)
(* its middleware chain and the context that log lines take their ids from; a queue worker that is  *)
(* started from within a request; clients that send, wait and go away at any moment.                *)
(* Design decisions, which the model needs: Isolated (every task has a context of its own),         *)
(* Clean (the worker starts with an empty context and sets it per item), Order (a connection is     *)
(* read on only after the response was written).                                                    *)
EXTENDS ServerOps, FiniteSets, TLC
CONSTANTS Conns, Max, MW, Isolated, Clean, Order
VARIABLES sent,    (* per connection: requests put on the wire (ids), 0 in the middle of a line *)
          rd,      (* per connection: number of requests read *)
          run,     (* requests being handled: [id, c, pc] ; pc 0..2*MW+1 = next hook *)
          out,     (* per connection: responses written *)
          alive,   (* per connection: client still there *)
          ctx,     (* task -> id in its context; task 0 = queue worker, task c = connection *)
          q, wk,   (* buffered items waiting; item the worker has (0 none) *)
          wctx0,   (* the worker task exists *)
          logs,    (* <<id of the request logged for, id stamped>> *)
          hooks    (* id -> sequence of hooks run *)
vars == <<sent, rd, run, out, alive, ctx, q, wk, wctx0, logs, hooks>>
Ids == 1..Max
Used == UNION {{sent[c][i] : i \in DOMAIN sent[c]} : c \in Conns}
Tasks == Conns \cup {0}
SetCtx(t, v) == ctx' = IF Isolated THEN [ctx EXCEPT ![t] = v] ELSE [x \in Tasks |-> v]
Init == /\ sent = [c \in Conns |-> <<>>] /\ rd = [c \in Conns |-> 0] /\ run = {} /\ out = [c \in Conns |-> <<>>]
        /\ alive = [c \in Conns |-> TRUE] /\ ctx = [t \in Tasks |-> 0] /\ q = <<>> /\ wk = 0 /\ wctx0 = FALSE
        /\ logs = {} /\ hooks = [i \in Ids |-> <<>>]
Send(c) == /\ alive[c] /\ Cardinality(Used) < Max
           /\ sent' = [sent EXCEPT ![c] = Append(@, Cardinality(Used) + 1)]
           /\ UNCHANGED <<rd, run, out, alive, ctx, q, wk, wctx0, logs, hooks>>
Leave(c) == /\ alive[c] /\ alive' = [alive EXCEPT ![c] = FALSE] /\ UNCHANGED <<sent, rd, run, out, ctx, q, wk, wctx0, logs, hooks>>
Read(c) == /\ rd[c] < Len(sent[c]) /\ (~Order \/ ~\E r \in run : r.c = c)
           /\ rd' = [rd EXCEPT ![c] = @ + 1]
           /\ LET i == sent[c][rd[c] + 1] IN run' = run \cup {[id |-> i, c |-> c, pc |-> 0]} /\ SetCtx(c, i)
           /\ UNCHANGED <<sent, out, alive, q, wk, wctx0, logs, hooks>>
(* next hook (or the endpoint) of a request; it logs *)
HookOf(pc) == IF pc < MW THEN <<"b", pc + 1>> ELSE IF pc = MW THEN <<"x", 0>> ELSE <<"a", pc - MW>>
Hook(r) == /\ r \in run /\ r.pc <= 2 * MW
           /\ run' = (run \ {r}) \cup {[r EXCEPT !.pc = @ + 1]}
           /\ hooks' = [hooks EXCEPT ![r.id] = Append(@, HookOf(r.pc))]
           /\ logs' = logs \cup {<<r.id, ctx[r.c]>>}
           /\ IF r.pc = MW /\ r.id % 2 = 0              (* even ids are buffered: queued, worker started *)
              THEN /\ q' = Append(q, r.id)
                   /\ wctx0' = TRUE
                   /\ ctx' = IF wctx0 \/ ~Isolated THEN ctx ELSE [ctx EXCEPT ![0] = IF Clean THEN 0 ELSE r.id]
              ELSE UNCHANGED <<q, wctx0, ctx>>
           /\ UNCHANGED <<sent, rd, out, alive, wk>>
Respond(r) == /\ r \in run /\ r.pc = 2 * MW + 1
              /\ run' = run \ {r} /\ SetCtx(r.c, 0)
              /\ out' = IF alive[r.c] THEN [out EXCEPT ![r.c] = Append(@, r.id)] ELSE out
              /\ UNCHANGED <<sent, rd, alive, q, wk, wctx0, logs, hooks>>
WTake == /\ wctx0 /\ wk = 0 /\ q # <<>> /\ wk' = Head(q) /\ q' = Tail(q)
         /\ IF Clean THEN SetCtx(0, Head(q)) ELSE UNCHANGED ctx
         /\ UNCHANGED <<sent, rd, run, out, alive, wctx0, logs, hooks>>
WDone == /\ wk # 0 /\ logs' = logs \cup {<<wk, ctx[0]>>} /\ wk' = 0
         /\ IF Clean THEN SetCtx(0, 0) ELSE UNCHANGED ctx
         /\ UNCHANGED <<sent, rd, run, out, alive, q, wctx0, hooks>>
WIdle == /\ wctx0 /\ wk = 0 /\ logs' = logs \cup {<<0, ctx[0]>>}
         /\ UNCHANGED <<sent, rd, run, out, alive, ctx, q, wk, wctx0, hooks>>
Next == \/ \E c \in Conns : Send(c) \/ Leave(c) \/ Read(c)
        \/ \E r \in run : Hook(r) \/ Respond(r)
        \/ WTake \/ WDone \/ WIdle
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A c \in Conns : WF_vars(Read(c)) /\ WF_vars(\E r \in run : r.c = c /\ (Hook(r) \/ Respond(r)))
(* ---- properties ---- *)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
InOrder == \A c \in Conns : IsPrefixOf(out[c], sent[c])
LogOwn  == \A x \in logs : x[1] = x[2]
Chain(n) == [j \in 1..(2 * MW + 1) |-> HookOf(j - 1)]
HooksInOrder == \A i \in Ids : IsPrefixOf(hooks[i], Chain(0))
OnceEach == \A c \in Conns : \A i, j \in DOMAIN out[c] : i # j => out[c][i] # out[c][j]
Answered == \A c \in Conns : \A n \in 1..Max : (Len(sent[c]) >= n) ~> (Len(out[c]) >= n \/ ~alive[c])
=============================================================================
