------------------------------- MODULE StyleMC -------------------------------
(* All sheets of at most MaxRules rules from a small universe; what follows from the definitions of
   Style is checked on each of them. *)
EXTENDS Style
CONSTANTS MaxRules
VARIABLE sheet
Conds == {<<>>} \cup {<<[k |-> "a", op |-> o, v |-> x]>> : o \in {"has", "eq", "ne", "lt", "gt"}, x \in {"1", "5"}}
Sels == {[names |-> <<n>>, z1 |-> 1, z2 |-> z, conds |-> c] : n \in {"node", "way"}, z \in 1..2, c \in Conds}
        \cup {[names |-> <<"element">>, z1 |-> 1, z2 |-> z, conds |-> <<[k |-> "id", op |-> "eq", v |-> "7"]>>] : z \in 1..2}
        \cup {[names |-> <<"canvas">>, z1 |-> 1, z2 |-> 2, conds |-> <<>>]}
Decls == {<<<<"x", "1">>>>, <<<<"x", "2">>, <<"y", "1">>>>, <<<<"builder", "b">>>>, <<<<"builder", "c">>, <<"x", "3">>>>}
Rules == {[sels |-> <<s>>, decls |-> d] : s \in Sels, d \in Decls}
Els == [t : {"node", "way"}, id : {7, 8}, tags : {<<>>, <<<<"a", "1">>>>, <<<<"a", "10">>>>, <<<<"b", "5">>>>}]
Init == sheet = <<>> /\ sheets = <<>>
Next == Len(sheet) < MaxRules /\ \E r \in Rules : sheet' = Append(sheet, r) /\ UNCHANGED sheets
Spec == Init /\ [][Next]_<<sheet, sheets>>
Front1 == SubSeq(sheet, 1, Len(sheet) - 1)
Top == sheet[Len(sheet)]
Key(d) == d[1]
Functional(ds) == \A a, b \in ds : a[1] = b[1] => a = b
\* a rule which does not apply changes nothing; one which applies adds its declarations and they win
Monotone == sheet # <<>> => \A e \in Els, z \in 1..2 :
  LET hit == Len(sheet) \in Hit(sheet, e, z)
      old == Resolve(Front1, e, z)
      new == Resolve(sheet, e, z)
  IN /\ Functional(new)
     /\ ~hit => (ById(sheet, e, z) = ById(Front1, e, z)) /\ new = old
     /\ hit => Last(Top.decls) \subseteq new
     /\ hit /\ (ById(sheet, e, z) = {} \/ ById(Front1, e, z) # {})
          => new = Last(Top.decls) \cup {d \in old : \A x \in Last(Top.decls) : x[1] # d[1]}
     /\ Has(sheet, e, z) = (new # {})
     /\ Builders(sheet, e, z) # {} <=> \E d \in new : d[1] = "builder"
\* id rules take over
Exclusive == \A e \in Els, z \in 1..2 : ById(sheet, e, z) # {} =>
  \A d \in Resolve(sheet, e, z) : \E i \in ById(sheet, e, z) : \E j \in DOMAIN sheet[i].decls : sheet[i].decls[j] = d
\* nothing applies outside the levels of its selector
Levels == \A e \in Els : Resolve(sheet, e, 3) = {} /\ Canvas(sheet, 3) = {}
\* a tag-less element gets only what asks for nothing
=============================================================================
