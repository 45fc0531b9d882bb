------------------------------ MODULE VectorsGen ----------------------------
(* Behaviours of Vectors, written as scripts for the harness; values are    *)
(* left to the harness.  Coefficients are halves.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objects, Users, Length
VARIABLES obj, mem, hist, out
GLin(c, v) == 0
GConst(a, v) == 0
GSetAt(a, i, v) == 0
GShifted(a, v) == 0
INSTANCE Vectors WITH Lin <- GLin, Const <- GConst, SetAt <- GSetAt, Shifted <- GShifted
gvars == <<obj, mem, hist, out>>
GInit == VInit([b \in 1 .. Users |-> 0]) /\ hist = << >> /\ out = FALSE

One(S) == {RandomElement(S)}
Fs == {o \in Objects : Is(o, {"F"})}
Vs == {o \in Objects : Is(o, Vector)}
As == {o \in Objects : Is(o, {"A", "B"})}
Live == {o \in Objects : ~Empty(o)}
Free == {o \in Objects : Empty(o)}
Coef == -4 .. 4
Op(o) == hist' = Append(hist, o) /\ out' = out
\* the functions on vectors of fixed size: their number of operands, and the
\* operands whose coefficient is one
Funs == {<<"assign", 1, {1}>>, <<"aY", 1, {}>>, <<"pluseq", 2, {1, 2}>>, <<"sumFF", 2, {1, 2}>>, <<"lc2", 2, {}>>, <<"lc3", 3, {}>>, <<"lc4", 4, {}>>,
         <<"lc5", 5, {}>>, <<"xlc2", 3, {1}>>, <<"xlc3", 4, {1}>>, <<"xlc4", 5, {1}>>, <<"axpy", 2, {2}>>}
Choose(k, S) == [i \in 1 .. k |-> RandomElement(S)]

GNext ==
  \/ /\ Len(hist) < Length
     /\ \/ /\ Free # {} /\ (Len(hist) < 6 \/ RandomElement(1 .. 3) = 1)
           /\ \E o \in One(Free) :
                \/ \E k \in One({"F", "V", "A", "B"}) : New(o, k, 0) /\ Op(<<"new" \o k, o>>)
                \/ New(o, "F", 0) /\ Op(<<"newF", o>>)
                \/ /\ Fs \union As # {} /\ \E p \in One(Fs \union As) : Copy(o, p) /\ Op(<<"copy", o, p>>)
                \/ /\ Vs # {} /\ \E p \in One(Vs) : View(o, p) /\ Op(<<"view", o, p>>)
                \/ \E b \in One(1 .. Users) : Adopt(o, b) /\ Op(<<"adopt", o, b>>)
        \/ /\ Live # {} /\ Len(hist) > 5
           /\ \E o \in One(Live) :
                \/ RandomElement(1 .. 2) = 1 /\ Delete(o) /\ Op(<<"delete", o>>)
                \/ Set(o, 1, 0) /\ Op(<<"set", o>>)
        \/ /\ Fs # {} /\ Len(hist) > 5
           /\ \E o \in One(Fs), p \in One(Fs) :
                \/ Switch(o, p) /\ Op(<<"switch", o, p>>)
                \/ Fill(o, 0) /\ Op(<<"fill", o>>)
                \/ \E b \in One(1 .. Users) : \/ FromUser(o, b) /\ Op(<<"from", o, b>>)
                                              \/ Put(o, b) /\ Op(<<"put", o, b>>)
        \/ /\ Fs # {} /\ Len(hist) > 5
           /\ \E o \in One(Fs), f \in One(Funs), g \in One(Funs) :
                \/ LET ps == Choose(f[2], Fs)
                       qs == IF f[1] = "pluseq" THEN [ps EXCEPT ![1] = o] ELSE ps
                       cs == Choose(f[2], Coef)
                       ds == [k \in 1 .. f[2] |-> IF k \in f[3] THEN 2 ELSE cs[k]]
                   IN Combine(o, ds, qs) /\ Op(<<f[1], o, ds, qs>>)
                \/ \E p \in One(Fs), q \in One(Vs) : Combine(o, <<2, 2>>, <<p, q>>) /\ Op(<<"sumFV", o, <<2, 2>>, <<p, q>>>>)
                \/ \E p \in One(Vs), q \in One(Vs) : Combine(o, <<2, 2>>, <<p, q>>) /\ Op(<<"setsum2", o, <<2, 2>>, <<p, q>>>>)
        \/ /\ Vs # {} /\ Len(hist) > 5
           /\ \E o \in One(Vs), p \in One(Vs) :
                \/ Combine(o, <<2>>, <<p>>) /\ Op(<<"vassign", o, <<2>>, <<p>>>>)
                \/ Combine(o, <<2, 2>>, <<o, p>>) /\ Op(<<"vpluseq", o, <<2, 2>>, <<o, p>>>>)
        \/ /\ As # {} /\ Len(hist) > 5
           /\ \E o \in One(As) :
                \/ AddDiag(o, 0) /\ Op(<<"adddiag", o>>)
                \/ \E p \in One({a \in As : obj[a].kind = obj[o].kind}) :
                     \/ Opposite(o, p, -1) /\ Op(<<"minus", o, <<-2>>, <<p>>>>)
                     \/ Duplicate(o, p) /\ Op(<<"aassign", o, <<2>>, <<p>>>>)
  \/ /\ Len(hist) = Length /\ ~out /\ out' = TRUE
     /\ PrintT(<<"SCRIPT", hist>>)
     /\ UNCHANGED <<obj, mem, hist>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
