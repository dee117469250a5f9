-------------------------- MODULE SegVectorTrace ---------------------------
EXTENDS SegVector, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Has(f) == f \in DOMAIN E
Set(s) == {s[i] : i \in DOMAIN s}
\* observations; the driver keeps the fields that bear on the property under check
ObsOf(c, o) ==
  IF c.gone THEN o.gone
  ELSE /\ ~o.gone
       /\ "size" \in DOMAIN o => o.size = Size(c)
       /\ "capacity" \in DOMAIN o => o.capacity = Capacity(c)
       /\ "iter" \in DOMAIN o => o.iter = Contents(c)
       /\ "post" \in DOMAIN o => o.post = Contents(c)
       /\ "arrow" \in DOMAIN o => o.arrow = Contents(c)
       /\ "at" \in DOMAIN o => o.at = [i \in DOMAIN c.slots |-> IF c.valid[i] THEN c.slots[i] ELSE 0]
       /\ "kept" \in DOMAIN o => o.kept = [i \in DOMAIN c.slots |-> IF c.valid[i] THEN c.slots[i] ELSE 0]
Observed == \A k \in Conts : ObsOf(cont'[k], E.c[k])
\* each destruction is reported once
DiedOnce == Has("died") => Cardinality(Set(E.died)) = Len(E.died)
Died(d) == IF Has("died") THEN Set(E.died) ELSE d
TInit == Init /\ l = 1
TReset == Is("Reset") /\ cont' = [k \in Conts |-> Gone] /\ nobj' = 0 /\ alive' = {}
TNext ==
  \/ TReset
  \/ /\ Is("new") /\ New(E.a[1], E.a[2]) /\ (Has("died") => E.died = <<>>) /\ Observed
  \/ /\ Is("emplace") /\ DiedOnce
     /\ ~cont[E.a[1]].gone /\ MayTake(cont[E.a[1]], E.slot)
     /\ Emplace(E.a[1], E.slot, Died(Overwritten(cont[E.a[1]], E.slot) \cap alive))
     /\ Observed
  \/ /\ Is("erase") /\ DiedOnce
     /\ \/ Erase(E.a[1], E.a[2], Died({})) /\ (Has("ret") => E.ret = TRUE)
        \/ EraseAgain(E.a[1], E.a[2]) /\ (Has("ret") => E.ret = FALSE) /\ Died({}) = {}
     /\ Observed
  \/ Is("eraseif") /\ DiedOnce /\ EraseIf(E.a[1], E.a[2], E.a[3], Died({})) /\ Observed
  \/ /\ Is("burst") /\ Burst(E.a[1], E.a[2]) /\ (Has("died") => E.died = <<>>) /\ Observed
  \/ Is("range") /\ DiedOnce /\ EraseRange(E.a[1], E.a[2], E.a[3], Died({})) /\ Observed
  \/ Is("move") /\ Move(E.a[1], E.a[2]) /\ (Has("died") => E.died = <<>>) /\ Observed
  \/ /\ Is("destroy") /\ DiedOnce
     /\ Destroy(E.a[1], Died(IF cont[E.a[1]].gone THEN {} ELSE Range(cont[E.a[1]].slots) \cap alive))
     /\ Observed
TSpec == TInit /\ [][TNext]_<<cont, nobj, alive, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
Inv == ValidAlive /\ FreeIsErased
=============================================================================
