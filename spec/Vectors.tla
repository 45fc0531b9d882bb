------------------------------- MODULE Vectors ------------------------------
(***************************************************************************)
(* Vectors and arrays (fortranVectorF, fortranVector, fortranArray,        *)
(* fortranRectangularArray) and their memory.                              *)
(*   kind "F"  vector of fixed size, owns a block                          *)
(*   kind "V"  vector, owns a block                                        *)
(*   kind "W"  vector which only looks at a block (of the user, or of      *)
(*             another object)                                             *)
(*   kind "A", "B"   full and banded arrays, own a block                   *)
(* Blocks 1 .. Users belong to the user.  mem[b] is the contents of block  *)
(* b; Lin(c, v) is the combination of the contents v by the numbers c.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Objects, Users, Lin(_, _), Const(_, _), SetAt(_, _, _), Shifted(_, _)
VARIABLES obj,    \* object -> [kind, blk]
          mem     \* sequence of blocks: [alive, val]
vvars == <<obj, mem>>

None == [kind |-> "none", blk |-> 0]
Owning == {"F", "V", "A", "B"}
Vector == {"F", "V", "W"}
Alive(o) == obj[o].kind # "none" /\ mem[obj[o].blk].alive
Val(o) == mem[obj[o].blk].val
Is(o, kinds) == Alive(o) /\ obj[o].kind \in kinds
Empty(o) == obj[o].kind = "none"

VInit(vals) == /\ obj = [o \in Objects |-> None]
               /\ mem = [b \in 1 .. Users |-> [alive |-> TRUE, val |-> vals[b]]]

Write(b, v) == mem' = [mem EXCEPT ![b].val = v] /\ obj' = obj
NewBlock(o, kind, v) == /\ Empty(o)
                        /\ mem' = Append(mem, [alive |-> TRUE, val |-> v])
                        /\ obj' = [obj EXCEPT ![o] = [kind |-> kind, blk |-> Len(mem) + 1]]
New(o, kind, v) == kind \in Owning /\ NewBlock(o, kind, v)
\* copies of F, A and B are independent; copies of V and W look at the same block
Copy(o, p) == Is(p, {"F", "A", "B"}) /\ NewBlock(o, obj[p].kind, Val(p))
View(o, p) == /\ Empty(o) /\ Is(p, Vector) /\ mem' = mem
              /\ obj' = [obj EXCEPT ![o] = [kind |-> "W", blk |-> obj[p].blk]]
Adopt(o, b) == /\ Empty(o) /\ b \in 1 .. Users /\ mem' = mem
               /\ obj' = [obj EXCEPT ![o] = [kind |-> "W", blk |-> b]]
\* owners free their block, nobody else does
Delete(o) == /\ ~Empty(o)
             /\ mem' = IF obj[o].kind \in Owning THEN [mem EXCEPT ![obj[o].blk].alive = FALSE] ELSE mem
             /\ obj' = [obj EXCEPT ![o] = None]
\* contents are exchanged, and nothing is copied
Switch(o, p) == /\ Is(o, {"F"}) /\ Is(p, {"F"}) /\ mem' = mem
                /\ obj' = [obj EXCEPT ![o].blk = obj[p].blk, ![p].blk = obj[o].blk]

Set(o, i, v) == Alive(o) /\ Write(obj[o].blk, SetAt(Val(o), i, v))
Fill(o, v) == Is(o, {"F"}) /\ Write(obj[o].blk, Const(Val(o), v))
FromUser(o, b) == Is(o, {"F"}) /\ Write(obj[o].blk, mem[b].val)
Put(o, b) == Is(o, {"F"}) /\ Write(b, Val(o))
\* combinations: coefs and operands
Combine(o, cs, ps) == /\ Is(o, Vector) /\ \A k \in 1 .. Len(ps) : Is(ps[k], Vector)
                      /\ Write(obj[o].blk, Lin(cs, [k \in 1 .. Len(ps) |-> Val(ps[k])]))
Opposite(o, p, minus) == /\ Is(o, {"A", "B"}) /\ Is(p, {"A", "B"}) /\ obj[o].kind = obj[p].kind
                  /\ Write(obj[o].blk, Lin(<<minus>>, <<Val(p)>>))
Duplicate(o, p) == /\ Is(o, {"A", "B"}) /\ Is(p, {"A", "B"}) /\ obj[o].kind = obj[p].kind
                   /\ Write(obj[o].blk, Val(p))
AddDiag(o, v) == Is(o, {"A", "B"}) /\ Write(obj[o].blk, Shifted(Val(o), v))

\* ---- what users rely on ---------------------------------------------------
OneOwner == \A o, p \in Objects : o # p /\ obj[o].kind \in Owning /\ obj[p].kind \in Owning => obj[o].blk # obj[p].blk
OwnersAlive == \A o \in Objects : obj[o].kind \in Owning => mem[obj[o].blk].alive /\ obj[o].blk > Users
UsersAlive == \A b \in 1 .. Users : mem[b].alive
NoLeak == \A b \in Users + 1 .. Len(mem) : mem[b].alive => \E o \in Objects : obj[o].kind \in Owning /\ obj[o].blk = b
FreedOnce == [][\A b \in 1 .. Len(mem) : ~mem[b].alive => ~mem'[b].alive /\ mem'[b].val = mem[b].val]_vvars
OneChange == [][\A b, c \in 1 .. Len(mem) : mem'[b].val # mem[b].val /\ mem'[c].val # mem[c].val => b = c]_vvars
=============================================================================
