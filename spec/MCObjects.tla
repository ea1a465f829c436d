---------------------------- MODULE MCObjects ----------------------------
(* Exploration of Objects.tla and generation of behaviours to replay.     *)
EXTENDS Objects, Json
CONSTANTS MaxOps, MaxRefs, Emit, WithOpt, MaxSpaces

N == Cardinality(Id)
Fresh == CHOOSE o \in Id \cup {0} : 
           IF \E p \in Id : kind[p] = "none"
           THEN o \in Id /\ kind[o] = "none" /\ \A p \in Id : p < o => kind[p] # "none"
           ELSE o = 0
Spaces == {s \in Id : kind[s] = "space"}
Vecs(s) == {v \in Id : VecIn(v, s)}
Lss == {l \in Id : kind[l] = "lnsrch"}
Boxes(s) == {b \in Id : kind[b] = "box" /\ space[b] = s}

Log(op) == hist' = Append(hist, op)
New ==
  /\ Fresh # 0
  /\ \/ /\ Cardinality({p \in Id : kind[p] \in {"space"}}) < MaxSpaces
        /\ NewSpace(Fresh) /\ Log(<<"space", Fresh>>)
     \/ \E s \in Spaces :
          \/ NewVector(Fresh, s) /\ Log(<<"vector", Fresh, s>>)
          \/ NewWrapped(Fresh, s) /\ Log(<<"wrapped", Fresh, s>>)
          \/ \E lo, up \in Vecs(s) \cup {0} : NewBox(Fresh, s, lo, up, 1) /\ Log(<<"box", Fresh, s, lo, up>>)
          \/ \E t \in Spaces : NewOper(Fresh, s, t) /\ Log(<<"oper", Fresh, s, t>>)
          \/ /\ WithOpt
             /\ \/ \E l \in Lss \cup {0}, b \in Boxes(s) \cup {0} :
                     NewOpt(Fresh, "vmlmb", s, l, b, 1) /\ Log(<<"vmlmb", Fresh, s, l, b>>)
                \/ \E l \in Lss \cup {0} :
                     NewOpt(Fresh, "nlcg", s, l, 0, 1) /\ Log(<<"nlcg", Fresh, s, l>>)
     \/ WithOpt /\ Cardinality(Lss) < 2 /\ NewLnsrch(Fresh) /\ Log(<<"lnsrch", Fresh>>)
Run == WithOpt /\ \E o \in LiveSet : IsOpt(kind[o]) /\ client[o] > 0 /\ 
         \E x \in Vecs(space[o]) : client[x] > 0 /\ RunOpt(o, x, 1) /\ Log(<<"run", o, x>>)
Holds == \E o \in Id : client[o] < MaxRefs /\ Hold(o) /\ Log(<<"hold", o>>)
Drops == \E o \in Id : Drop(o) /\ Log(<<"drop", o>>)
MCInit == ObjInit /\ hist = <<>>
(* In simulations: print the complete history, once. *)
Stop == /\ Emit /\ Len(hist) = MaxOps /\ PrintT(ToJson(hist))
        /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED ovars
MCNext == \/ Len(hist) < MaxOps /\ (New \/ Run \/ Holds \/ Drops)
          \/ Stop
MCSpec == MCInit /\ [][MCNext]_<<ovars, hist>>
View == ovars
(* one behaviour per transition of the state graph (action constraint) *)
EmitStep == Len(hist') > MaxOps \/ PrintT(ToJson(hist'))
==========================================================================
