---------------------------- MODULE VectorsTrace ----------------------------
(***************************************************************************)
(* Recorded histories of vectors and arrays against Vectors.  The contents *)
(* of a block are named by the record after which it had them, and by the  *)
(* place where they are found there: <<l, o>> in the object o, <<l, -b>>   *)
(* in the user's array b.  After every operation the contents of every     *)
(* block are compared to what their name says.                             *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES obj, mem, tr, l, bad
tvars == <<obj, mem, tr, l, bad>>
Recs == Traces[tr]
Rec == Recs[l]
IsOp(w) == l <= Len(Recs) /\ Rec.e = "op" /\ Rec.op \in w
Here(o) == <<l, o>>
VNew(a, v) == v
VLin(c, v) == c[1]
VSetAt(a, i, v) == v
Objs == 1 .. 9
NbUsers == 2
INSTANCE Vectors WITH Objects <- Objs, Users <- NbUsers, Lin <- VLin, Const <- VNew, SetAt <- VSetAt, Shifted <- VNew

At(name) == IF name[2] > 0 THEN Recs[name[1]].objs[name[2]].x ELSE Recs[name[1]].users[-name[2]].x
Before(o) == At(Val(o))
After == Rec.objs[Rec.o].x
n == Recs[1].n
k == Len(After)

TraceInit == tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {} /\ VInit([b \in 1 .. NbUsers |-> <<1, -b>>])
TraceMake == l = 1 /\ Recs[1].e = "make" /\ l' = 2 /\ tr' = tr /\ bad' = bad /\ UNCHANGED <<obj, mem>>

\* after the operation (obj', mem' are known): contents, memory
IdOf(b) == IF b <= NbUsers THEN Rec.users[b].id
           ELSE Rec.objs[CHOOSE o \in Objs : obj'[o].blk = b].id
Seen == {o \in Objs : obj'[o].kind # "none" /\ mem'[obj'[o].blk].alive}
Checks ==
  Must(\A o \in Objs : Rec.objs[o].kind = (IF obj'[o].kind = "none" THEN "-" ELSE obj'[o].kind), "M02", "kinds of the objects")
  \union Must(\A o \in Seen : VSame(Rec.objs[o].x, At(mem'[obj'[o].blk].val)), "M02", "contents of an object")
  \union Must(\A b \in 1 .. NbUsers : VSame(Rec.users[b].x, At(mem'[b].val)), "M02", "contents of the user's vectors")
  \union Must(\A o \in Seen : Rec.objs[o].id = IdOf(obj'[o].blk)
                /\ (\A p \in Seen : Rec.objs[o].id = Rec.objs[p].id => obj'[o].blk = obj'[p].blk)
                /\ (\A b \in 1 .. NbUsers : Rec.objs[o].id = Rec.users[b].id => obj'[o].blk = b), "M02", "memory of the objects")
  \union Must(\A o \in Seen : obj[o].kind # "none" /\ obj'[o] = obj[o] => Rec.objs[o].id = Recs[l - 1].objs[o].id, "M02", "memory which moves")
  \union Must(({o \in Objs : obj'[o].kind \in Owning} = {}) => Rec.live = 0, "M02", "memory which is never given back")
  \union Must(({o \in Objs : obj'[o].kind \in Owning} = {o \in Objs : obj[o].kind \in Owning}) =>
                (IF Recs[l - 1].e = "make" THEN 0 ELSE Recs[l - 1].live) = Rec.live, "M02", "memory which appears or goes")
  \union Must(Rec.sizes, "M02", "size or alignment of a vector")
Step(b) == l' = l + 1 /\ tr' = tr /\ bad' = bad \union b \union Checks

\* sums, with the rounding errors of double precision, in any order
Sum(cs, vs) ==
  LET e == LinComb(cs, vs)
      a == AbsComb(cs, vs)
  IN Len(After) = Len(e) /\ (\A i \in 1 .. Len(e) : Le(Abs(Sub(After[i], e[i])), Mul("1.2E-15", a[i])))
Exact(v) == VSame(After, v)
\* the objects on which operations work
DiagOf == IF obj[Rec.o].kind = "A" THEN Recs[1].diagA ELSE Recs[1].diagB

TraceNew == \/ IsOp({"newF"}) /\ New(Rec.o, "F", Here(Rec.o)) /\ Step({})
            \/ IsOp({"newV"}) /\ New(Rec.o, "V", Here(Rec.o)) /\ Step({})
            \/ IsOp({"newA"}) /\ New(Rec.o, "A", Here(Rec.o)) /\ Step({})
            \/ IsOp({"newB"}) /\ New(Rec.o, "B", Here(Rec.o)) /\ Step({})
TraceCopy == IsOp({"copy"}) /\ Copy(Rec.o, Rec.p) /\ Step({})
TraceView == IsOp({"view"}) /\ View(Rec.o, Rec.p) /\ Step({})
TraceAdopt == IsOp({"adopt"}) /\ Adopt(Rec.o, Rec.p) /\ Step({})
TraceDelete == IsOp({"delete"}) /\ Delete(Rec.o) /\ Step({})
TraceSwitch == IsOp({"switch"}) /\ Switch(Rec.o, Rec.p) 
               /\ Step(Must(Rec.objs[Rec.o].id = Recs[l - 1].objs[Rec.p].id /\ Rec.objs[Rec.p].id = Recs[l - 1].objs[Rec.o].id, "M02", "exchange of two vectors"))
TraceSet == IsOp({"set"}) /\ Set(Rec.o, Rec.at, Here(Rec.o))
            /\ Step(Must(\A i \in 1 .. k : Eq(After[i], IF i = Rec.at THEN Rec.v ELSE Before(Rec.o)[i]), "M02", "one element"))
TraceFill == IsOp({"fill"}) /\ Fill(Rec.o, Here(Rec.o)) /\ Step(Must(\A i \in 1 .. k : Eq(After[i], Rec.v), "M02", "constant vector"))
TraceFrom == IsOp({"from"}) /\ FromUser(Rec.o, Rec.p) /\ Step({})
TracePut == IsOp({"put"}) /\ Put(Rec.o, Rec.p) /\ Step({})
TraceAdd == IsOp({"adddiag"}) /\ AddDiag(Rec.o, Here(Rec.o))
            /\ Step(Must(\A i \in 1 .. k : IF DiagOf[i] THEN Le(Abs(Sub(After[i], Add(Before(Rec.o)[i], Rec.v))), Mul("2.3E-16", Add(Abs(After[i]), Abs(Rec.v))))
                                           ELSE Eq(After[i], Before(Rec.o)[i]), "M02", "diagonal"))
Sums == {"assign", "aY", "pluseq", "sumFF", "sumFV", "setsum2", "lc2", "lc3", "lc4", "lc5", "xlc2", "xlc3", "xlc4", "axpy", "vassign", "vpluseq"}
TraceSum == IsOp(Sums) /\ Combine(Rec.o, <<Here(Rec.o)>>, Rec.ps)
            /\ Step(Must(Sum(Rec.cs, [i \in 1 .. Len(Rec.ps) |-> Before(Rec.ps[i])]), "M02", "combination"))
TraceMinus == IsOp({"minus"}) /\ Opposite(Rec.o, Rec.ps[1], Here(Rec.o)) /\ Step(Must(Exact(VScale(-1, Before(Rec.ps[1]))), "M02", "opposite"))
TraceDup == IsOp({"aassign"}) /\ Duplicate(Rec.o, Rec.ps[1]) /\ Step({})
TraceOther == /\ l <= Len(Recs) /\ Rec.e # "op" /\ l > 1
              /\ bad' = bad \union {<<"ALL", "crash or hang">>} /\ l' = Len(Recs) + 1 /\ tr' = tr /\ UNCHANGED <<obj, mem>>
Finished == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == \/ TraceMake \/ TraceNew \/ TraceCopy \/ TraceView \/ TraceAdopt \/ TraceDelete \/ TraceSwitch \/ TraceSet
             \/ TraceFill \/ TraceFrom \/ TracePut \/ TraceAdd \/ TraceSum \/ TraceMinus \/ TraceDup \/ TraceOther \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == Enforced(bad) = {} /\ OneOwner /\ OwnersAlive /\ UsersAlive /\ NoLeak
=============================================================================
