------------------------------ MODULE FlatStore ------------------------------
(* A store of flat files as its users see it (C02, C08): each request takes  *)
(* effect at one moment between its call and its return.  A column is loaded *)
(* once and for all by the first request that finds it acceptable.           *)
EXTENDS FlatFile
VARIABLES dirs,      \* directories: name -> file
          nrows,     \* rows of the loaded columns, -1: nothing loaded yet
          label,     \* loaded name -> identity of the column handed out (0: not yet handed out)
          req        \* thread -> [n, want, st, res]
svars == <<dirs, nrows, label, req>>
Idle == [n |-> "", want |-> "any", st |-> "idle", res |-> FALSE]
Loaded == DOMAIN label
Extend(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Reopen(d, threads) == /\ dirs' = d /\ nrows' = -1 /\ label' = [x \in {} |-> 0]
                      /\ req' = [t \in threads |-> Idle]
Call(t, n, want) == /\ req[t].st = "idle" /\ UNCHANGED <<dirs, nrows, label>>
                    /\ req' = [req EXCEPT ![t] = [n |-> n, want |-> want, st |-> "called", res |-> FALSE]]
Acceptable(n) == LET f == Resolve(dirs, n) IN Readable(f) /\ (nrows = -1 \/ nrows = Size(f))
Matches(want, f) == want = "any" \/ want = Type(f)
\* the moment at which the request takes effect
Lin(t) == /\ req[t].st = "called"
          /\ LET n == req[t].n   f == Resolve(dirs, n)   has == n \in Loaded \/ Acceptable(n)
             IN /\ req' = [req EXCEPT ![t].st = "lin", ![t].res = has /\ Matches(req[t].want, f)]
                /\ IF has /\ n \notin Loaded
                   THEN label' = Extend(label, n, 0) /\ nrows' = Size(f)
                   ELSE UNCHANGED <<label, nrows>>
          /\ UNCHANGED dirs
Ret(t, found, id) ==
  /\ req[t].st = "lin" /\ req[t].res = found
  /\ IF found
     THEN LET n == req[t].n
          IN IF label[n] = 0 THEN /\ \A m \in Loaded : label[m] # id
                                  /\ label' = [label EXCEPT ![n] = id]
             ELSE label[n] = id /\ UNCHANGED label
     ELSE UNCHANGED label
  /\ req' = [req EXCEPT ![t] = Idle] /\ UNCHANGED <<dirs, nrows>>
\* ---- consequences ---------------------------------------------------------------
Consistent == /\ \A n \in Loaded : Readable(Resolve(dirs, n)) /\ Size(Resolve(dirs, n)) = nrows
              /\ \A m, n \in Loaded : label[m] = label[n] /\ label[m] # 0 => m = n
LoadedForever == [][\A n \in DOMAIN label : n \in DOMAIN label' /\ (label[n] # 0 => label'[n] = label[n])]_svars
=============================================================================
