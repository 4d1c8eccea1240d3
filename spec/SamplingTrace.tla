---------------------------- MODULE SamplingTrace ----------------------------
(* Recorded calls of Subsampling (C23).                                      *)
EXTENDS TraceLib, SequencesExt
S == INSTANCE Sampling WITH D <- 1, Seeds <- {}, MaxN <- 0, MaxOps <- 0, seed <- 0, pos <- 0, since <- <<>>, memo <- {}, ops <- 0
W == INSTANCE WorkSplit WITH Ns <- {}, Ks <- {}, NWorkers <- 0, n <- 0, k <- 0, queue <- <<>>, at <- <<>>, cur <- <<>>, out <- <<>>, part <- <<>>
VARIABLES l, case, seed, since, memo
ev == Trace[l]
vars == <<l, case, seed, since, memo>>
\* a case starts with an unknown generator state
Fresh == case # ev.c
Seed0 == IF Fresh THEN -1 ELSE seed
Since0 == IF Fresh THEN <<>> ELSE since
Memo0 == IF Fresh THEN {} ELSE memo
Keep == seed' = Seed0 /\ since' = Since0 /\ memo' = Memo0
Reseed == ev.e = "Reseed" /\ seed' = ev.seed /\ since' = <<>> /\ memo' = Memo0
Foreign == ev.e = "Foreign" /\ seed' = Seed0 /\ since' = Append(Since0, <<"x">>) /\ memo' = Memo0
Sample ==
  /\ ev.e = "Sample"
  /\ LET key == Append(Since0, <<ToString(ev.n), ev.rate>>)
         same == {m \in Memo0 : m[1] = Seed0 /\ m[2] = key}
     IN /\ Judge(l, Fail(S!IsSubset(ev.out, ev.n), "not an increasing sequence of items")
                    \cup Fail(ev.one => ev.out = S!All(ev.n), "rate one leaves out an item")
                    \cup Fail(ev.none => ev.out = <<>>, "a vanishing rate takes an item")
                    \cup Fail(Seed0 = -1 \/ \A m \in same : m[3] = ev.out, "other indices after the same seed and draws"))
        /\ since' = key /\ seed' = Seed0
        /\ memo' = Memo0 \cup {<<Seed0, key, ev.out>>}
AllSamples == ev.e = "All" /\ Keep /\ Judge(l, Fail(ev.out = S!All(ev.n), "not all items in order"))
Divided(q, n, k) == Fail(Len(q) = k, "number of ranges")
                    \cup Fail(Len(q) = 0 \/ W!Covers(q, n), "the ranges do not cover every item once in order")
                    \cup Fail(W!Balanced(q), "sizes differ by more than one")
Divide == ev.e = "Divide" /\ Keep /\ Judge(l, Divided(ev.out, ev.n, ev.k))
\* out: positions relative to the slice divided; items: what the ranges show; after: the vector after writing through the ranges
DivideSlice == ev.e = "DivideSlice" /\ Keep
               /\ Judge(l, Divided(ev.out, ev.n, ev.k)
                           \cup Fail(ev.items = ev.whole, "the ranges show other items")
                           \cup Fail(ev.shared, "the ranges are not ranges of the vector itself"))
\* ---- frequencies, within 7 standard deviations -----------------------------
Within(x, e) == Abs(x - e) <= 40000 /\ (Abs(x - e) - 2) * Max2(Abs(x - e) - 2, 0) <= 49 * e
\* x taken of n where e are expected
Taken(x, e, n) == Within(x, e) /\ Within(n - x, n - e)
RECURSIVE Bits(_)
Bits(m) == IF m = 0 THEN 0 ELSE (m % 2) + Bits(m \div 2)
\* the counts of all 2^m outcomes of m independent items of rate num/den
Joint == ev.e = "Joint" /\ Keep
         /\ LET D == S!Pow(ev.den, ev.m)
            IN Judge(l, Fail(Len(ev.counts) = S!Pow(2, ev.m), "outcomes")
                        \cup {ToString(i) \o ": outcome has the wrong frequency" :
                              i \in {j \in DOMAIN ev.counts : ~Within(ev.counts[j], (ev.reps * S!Ways(ev.m, ev.num, ev.den, Bits(j - 1))) \div D)}})
\* one large sample: items per tenth, neighbours both taken; rate in 1/1000
Large == ev.e = "Large" /\ Keep
         /\ Judge(l, Fail(ev.increasing, "not an increasing sequence of items")
                     \cup Fail(\A i \in DOMAIN ev.tenths : Taken(ev.tenths[i], (ev.n \div 10000) * ev.rate, ev.n \div 10), "a tenth of the items is not sampled at the rate")
                     \cup Fail(Taken(FoldLeft(LAMBDA a, b : a + b, 0, ev.tenths), (ev.n \div 1000) * ev.rate, ev.n), "the items are not sampled at the rate")
                     \cup Fail(LET e == (((ev.n \div 1000) * ev.rate) \div 1000) * ev.rate
                                   d == Abs(ev.pairs - e)
                               IN d <= 20 + ev.rate \/ (d <= 40000 /\ d * d <= 147 * e), "neighbours are not independent"))
Rare == ev.e = "Rare" /\ Keep
        /\ LET x == IF ev.ppm > 500000 THEN ev.millions * 1000000 - ev.taken ELSE ev.taken
               e == ev.millions * (IF ev.ppm > 500000 THEN 1000000 - ev.ppm ELSE ev.ppm)
           IN Judge(l, Fail(ev.increasing, "not an increasing sequence of items") \cup Fail(Within(x, e), "the items are not sampled at the rate"))
Known == {"Rare", "Reseed", "Foreign", "Sample", "All", "Divide", "DivideSlice", "Joint", "Large"}
Other == ev.e \notin Known /\ Keep /\ Judge(l, {ToString(ev)})
TInit == l = 1 /\ case = -1 /\ seed = -1 /\ since = <<>> /\ memo = {}
TNext == /\ l <= Len(Trace)
         /\ (Reseed \/ Foreign \/ Sample \/ AllSamples \/ Divide \/ DivideSlice \/ Joint \/ Large \/ Rare \/ Other)
         /\ l' = l + 1 /\ case' = ev.c
TSpec == TInit /\ [][TNext]_vars
=============================================================================
