#!/usr/bin/env python3
# Writes properties.jsonl (kept as code so that the statements stay reviewable).
import json, os
RAD="Radau5-NG/include/Radau5cc.hpp"; ROD="Rodas-NG/include/Rodascc.hpp"
RK4="Rock4-NG/include/Rock4.hpp"; OMP="Rock4-NG/include/ToolOMP.hpp"; CF="Rock4-NG/include/coeffs-rock4"
RKL="Rock4-L/include/Rock4L.hpp"; SD="SDIRKL/include/Sdirkl.hpp"
SY="SymplecticRK/include/SymplecticRK.hpp"; MAT="common/include/Matrices.hpp"; HES="common/include/Hessenberg.hpp"
VEC="common/include/fortranVector.hpp"
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement)
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["calls the library makes to the user's right-hand side object","public getters and arguments after the call"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
EX="The tests are example programs which only have to print their last line on a handful of fixed problems; "

# ---------------------------------------------------------------- Radau5
p("R01","Radau5 integrates exactly from the start time to the requested end",
  "A normal return of the Radau5 integrator leaves the time argument at the requested end (up to rounding) and the user's vector equal to the last accepted solution, whatever the direction of integration and the proposed first step. Accepted times move strictly and monotonically from the start to the end, the right-hand side is never evaluated beyond the end (numerical differentiation aside), and the accepted steps chain without gap: each starts from the time and solution where the previous one ended. An empty interval changes nothing.",
  ["inputs","histories"],"all start/end times (both directions), first steps (null, of either sign, too large), sequences of accepted and rejected steps",
  EX+"all integrate forward from 0 with a small first step and do not look at the time reached.",
  [RAD],[("initial clamp of h and last-step truncation","Radau5cc::operator()"),("last flag cleared on rejection","Radau5cc::operator(), NewtonIterationTest")],
  state=[("x,y","time and solution","arguments of operator()"),("last","the current step ends at xend","Radau5cc")])
p("R02","Radau5 advances only on converged stages that pass the error test",
  "Radau5 advances the solution only when the simplified Newton iteration met its convergence criterion and the scaled embedded error estimate (filtered twice on a first step or after a rejection) is below one for the user's tolerances, scalar or per component. An attempt that fails either test leaves time and solution exactly as they were and is retried from the same point.",
  ["inputs","histories"],"all sequences of Newton outcomes (converged, too slow, diverging, exhausted) and error outcomes, all tolerances",
  EX+"Newton failures and rejections depend on the problem and no test looks at which attempts were accepted.",
  [RAD],[("Newton loop outcome","Radau5cc::Newton, NewtonIterationTest"),("error estimate","Radau5cc::estrad"),("accept/reject branch","Radau5cc::operator()")])
p("R03","Radau5 step-size selection follows the documented control law",
  "After each attempt the next step is the one prescribed by the documented control law: error-based and Newton-count-damped ratio kept within the configured growth and reduction bounds, predictive (Gustafsson) control when enabled, no growth on the step following a rejection, one tenth after a rejected first step, the prescribed reduction when Newton fails or is predicted to fail, the old step kept when the Jacobian is reused and the ratio is close to one, and truncation to the end point. The user's settings of safety factor, bounds, Newton limits and tolerances are the ones in force.",
  ["inputs","histories","configurations"],"all histories of accepted/rejected/failed attempts, all option settings",
  EX+"any step-size policy that finishes passes them.",
  [RAD],[("fac, quot, hnew, facgus, hhfac","Radau5cc::operator(), NewtonIterationTest"),("setters","setSafe, setFacrFacl, setGustafssonTest, setFnewt, setMaxIterationsNewton, setRecomputeJacobianTreshold")])
p("R04","Radau5 solves the Radau IIA equations with current Jacobian and step",
  "Each Newton iteration of Radau5 is the simplified Newton iteration for the three-stage Radau IIA collocation equations at the current time, solution and step, with the linear systems built from the most recently computed Jacobian and from the step actually being attempted, and starts from the previous step's collocation polynomial (zero on the first). The Jacobian is evaluated (analytically or by differences) at the current point, recomputed at an accepted point unless the last convergence rate was below the recomputation threshold, and a failed attempt is never retried with a Jacobian of an older point.",
  ["inputs","histories","configurations"],"all problems, Jacobian structures (full, banded, Hessenberg, analytic or numeric) and histories of attempts",
  EX+"with a stale Jacobian or factorisation Newton still converges, only slower, so they pass.",
  [RAD,MAT,HES],[("Newton, slvrad, doNewtonMatrices","Radau5cc"),("caljac/calhes flags","Radau5cc::operator(), Matrices::decomr"),("save1..3 extrapolation","Radau5cc::operator()")])
p("R05","Radau5 always stops, within its step limit, in a consistent state",
  "Every call of Radau5 terminates for every right-hand side, including ones that return NaN or infinities, never converge or are always rejected: either normally or by an exception once the configured maximum number of attempts is exceeded. When it ends by an exception the time and solution given back are those of the last accepted step.",
  ["inputs","fault_sequences","configurations"],"all right-hand sides (including faulty ones from any call on), all limits",
  EX+"none uses a failing right-hand side or reaches the step limit.",
  [RAD],[("nstep>nmax test","Radau5cc::operator()")])
p("R06","Radau5 statistics count exactly what was done",
  "After an integration the reported numbers of steps attempted, accepted and rejected, of Jacobians, of matrix factorisations and of right-hand side evaluations, the first accepted step and the last step equal what an observer of the right-hand side object counts. They restart from zero for each integration.",
  ["histories","inputs"],"all histories of attempts; several integrations with one object",
  EX+"the numbers are printed but not compared with anything.",
  [RAD],[("naccpt, nrejct, nstep, njac, ndec, nfonccalled","Radau5cc")])
p("R07","A Radau5 object can be reused: no memory of earlier integrations",
  "Integrating a problem with an object that has already been used, whatever it did before (including ending by an exception), performs the same computation as a fresh object with the same options; options set by the user stay in force across integrations. In one-step mode a call performs exactly one accepted step and advances time and solution together, so that chained calls integrate the problem.",
  ["histories","configurations"],"all sequences of integrations and option changes on one object",
  EX+"each uses an object once (or with identical settings).",
  [RAD],[("re-initialisation at the start of operator()","Radau5cc::operator()"),("onlyOneStep","Radau5cc::operator()")])
# ---------------------------------------------------------------- Rodas
p("D01","Rodas integrates exactly from the start time to the requested end",
  "A normal return of the Rodas integrator leaves the time argument at the requested end (up to rounding) and the user's vector equal to the last accepted solution, whatever the direction and the proposed first step. Accepted times move strictly and monotonically to the end, no step goes beyond it, and each step starts from the time and solution where the previous one ended; an empty interval changes nothing.",
  ["inputs","histories"],"all start/end times (both directions), first steps, sequences of accepted and rejected steps",
  EX+"a test passes even if the solution is never given back.",
  [ROD,VEC],[("clamp and last-step truncation","Rodascc::operator()"),("delivery of the result","fortranVectorF::put")])
p("D02","Rodas accepts a step iff its embedded error estimate passes",
  "Rodas advances the solution exactly when the scaled embedded error estimate, with the user's tolerances (scalar or per component) applied to the larger of the old and new solution, does not exceed one. A rejected attempt leaves time and solution as they were and is retried from the same point with a smaller step.",
  ["inputs","histories"],"all sequences of error outcomes, all tolerances",
  EX+"no test looks at which attempts were accepted.",
  [ROD],[("err and accept/reject branch","Rodascc::operator()"),("setTestPolicy","Rodascc")])
p("D03","Rodas step-size selection follows the documented control law",
  "After each attempt the next step is the one prescribed by the documented control law: error-based ratio limited to the documented interval, predictive (Gustafsson) control when enabled, no growth on the step following a rejection, never longer than the interval, truncated to reach the end exactly. The user's safety factor and options are the ones in force.",
  ["inputs","histories","configurations"],"all histories of accepted and rejected attempts, all option settings",
  EX+"any step-size policy that finishes passes them.",
  [ROD],[("fac, facgus, hnew","Rodascc::operator()")])
p("D04","Rodas computes the six Rosenbrock stages of the selected method",
  "Each attempt of Rodas evaluates the six stages of the selected 4(3) Rosenbrock method (any of the three), with the linear systems built from the Jacobian at the start of the step and from the step being attempted, and with the time-derivative terms when the problem is declared non-autonomous (user supplied or by differences). The coefficients satisfy the method's order conditions, so that each accepted step is fourth order with a third order embedded solution.",
  ["inputs","programs","configurations"],"all problems, three methods, autonomous or not, full/banded/Hessenberg and analytic/numeric Jacobians",
  EX+"a wrong coefficient or a stale matrix only changes the accuracy, which is not compared.",
  [ROD,MAT,HES],[("rocoe coefficients","Rodascc"),("stages","Rodascc::operator(), slvrod, DF_X")])
p("D05","Rodas always stops, in a consistent state, and its statistics are exact",
  "Every call of Rodas terminates for every right-hand side, including ones returning NaN or infinities: normally, or by an exception once the step limit is exceeded or the step is too small; after an exception time and solution are those of the last accepted step. The reported numbers of attempted, accepted and rejected steps, Jacobians and factorisations and the first accepted step equal what an observer counts, and a reused object (or chained one-step calls) behaves as a fresh one.",
  ["inputs","fault_sequences","histories"],"all right-hand sides (including faulty ones), all limits, sequences of integrations",
  EX+"none uses a failing right-hand side, reaches the limit, or compares the statistics.",
  [ROD],[("nstep>nmax and h too small tests","Rodascc::operator()"),("counters","Rodascc")])
# ---------------------------------------------------------------- Rock4
p("K01","Rock4 integrates exactly to the end time and returns that solution",
  "A normal return of the Rock4 integrator has integrated from the start time to exactly the end time by accepted steps that chain without gap and never pass the end, and the vector given back holds the last accepted solution. The last step is adjusted to the remaining interval; no interval, however its end points round, makes a regular problem fail at its last step.",
  ["inputs","histories"],"all intervals and first steps, all sequences of accepted and rejected steps",
  EX+"they use two intervals and do not compare the result.",
  [RK4],[("truncation of h at the end","Rock4::operator()"),("swap of the solution vectors","Rock4::operator()")])
p("K02","Rock4 never loses or mixes up its vectors across accepted and rejected steps",
  "After every accepted step the solution is the new one and the right-hand side value reused by the next step is that of the new solution; after every rejected step both are unchanged. This holds for every number of stages (odd or even) and any sequence of acceptances and rejections, and no two of the user's and the integrator's vectors ever coincide.",
  ["histories","inputs"],"all degrees and all sequences of accepted/rejected steps",
  EX+"rejections are rare in them and a corrupted restart shows only as lost accuracy.",
  [RK4,"common/include/switchAdr.hpp"],[("switchAdr exchanges of y,temp,g0,g1,fn","Rock4::kernel, Rock4::operator()")],
  state=[("y,temp,g0,fn,k1..k4","work vectors exchanged by address","Rock4")])
p("K03","Rock4 uses enough stages: every step stays in the stability domain",
  "Every attempt uses a number of stages large enough for the product of the step and of the current spectral radius estimate to lie in the method's real stability interval, using the smallest tabulated degree that suffices, and never more than the maximum; when even the maximum does not suffice the step itself is reduced so that it does. The spectral radius estimate is asked again at bounded intervals and after a rejected step, so a growing spectral radius is noticed.",
  ["inputs","histories"],"all steps, spectral radii (constant or varying) and histories of rejections",
  EX+"they use one constant spectral radius.",
  [RK4,CF],[("degree selection and table lookup","Rock4::operator(), mdegre"),("nrho","Rock4::operator()")])
p("K04","Rock4 accepts a step iff its error is below one and follows its step law",
  "Rock4 accepts an attempt exactly when the scaled norm of its embedded error estimate with the user's tolerances is below one. The next step follows the documented law: predictive control with the previous accepted error, growth limited (five at the start, two after an acceptance, none after a rejection), reduction limited, and the retry after a rejection is always with a smaller step; a problem whose error never passes ends by an exception, not by an endless loop.",
  ["inputs","histories","fault_sequences"],"all histories of error estimates, all tolerances, faulty right-hand sides",
  EX+"any policy that finishes passes them.",
  [RK4,OMP],[("err, fac, facp, facmax","Rock4::operator()"),("rpp2","ToolOMP")])
p("K05","Rock4 evaluates the published fourth-order scheme at every degree",
  "For every available degree the step performed is the ROCK4 scheme: the three-term recurrence followed by the four-stage finishing method and the five-stage error estimator with the published coefficients. For every degree the resulting stability polynomial satisfies the order-four conditions and stays bounded by one on the announced stability interval, and the embedded one has order three.",
  ["programs","inputs"],"the fifty tabulated degrees, all right-hand sides",
  EX+"they go through a few degrees and do not compare results.",
  [RK4,OMP,CF,"Rock4-NG/include/Rock4Coeffs.hpp"],[("recurrence and finishing stages","Rock4::kernel, ToolOMP"),("tables","coeffs-rock4")])
p("K06","Rock4 gives the same result for every thread count and schedule",
  "With shared-memory parallelism enabled, in every parallel region no two threads make conflicting unsynchronised accesses to memory, and every vector element is computed by exactly one thread whatever the number of threads and their interleaving. Solution, decisions and statistics therefore equal those of the serial build (up to the order of one sum).",
  ["schedules","configurations"],"all thread counts and all interleavings of the threads of every parallel region",
  EX+"they run with two threads and do not compare with a serial run; a lost update occurs rarely.",
  [OMP],[("omp parallel for on each vector loop, reduction in rpp2","ToolOMP")],
  obs=["memory accesses made by each thread in each parallel region (compiler instrumentation)","results for 1..N threads"])
p("K07","Rock4 statistics count exactly what was done",
  "After an integration the reported numbers of steps, accepted and rejected steps, right-hand side evaluations, stages and the last accepted step equal what an observer of the right-hand side counts, and restart for each integration; a reused object performs the same computation as a fresh one.",
  ["histories","inputs"],"all histories of attempts; several integrations with one object",
  EX+"the numbers are printed but not compared.",
  [RK4],[("funccal, nsteps, nacc, nrej, nstagesmax, hlast","Rock4")])
# ---------------------------------------------------------------- Rock4-L
p("L01","Rock4-L applies the order-four stability polynomial, linear and affine",
  "For a linear problem each step multiplies the solution by the fourth-order stability polynomial of the degree in use evaluated at step times operator, and for an affine problem it adds the exactly corresponding contribution of the constant term, so that a stationary point stays fixed and the affine result with null constant equals the linear one. The polynomial agrees with the exponential to order four and is bounded by one on the stability interval, for every degree.",
  ["inputs","programs"],"all linear operators, constants, steps and all fifty degrees",
  EX+"they print errors against another solver without testing them, and never use a non-null constant.",
  [RKL,"Rock4-L/include/coeffs-rock4"],[("recurrence and Horner form","Rock4L::kernel1, kernel2, makeHornerCoeffs")])
p("L02","Rock4-L reaches the end time with enough stages, or refuses",
  "Rock4-L integrates from the start time to exactly the end time with the proposed step (last one shortened or stretched by at most one per cent), each step using the smallest tabulated degree whose stability interval contains step times spectral radius; when no degree suffices it throws and leaves the solution at the last completed step. Calling the linear form on an affine solver or the reverse is refused without touching the data, and the reported stages, steps, time and evaluations are exact.",
  ["inputs","histories"],"all intervals, steps and spectral radii; both call forms",
  EX+"they use one interval, exact multiples and the right call form.",
  [RKL],[("time loop","Rock4L::operator()"),("degree selection","Rock4L::mdegre")])
# ---------------------------------------------------------------- SDIRKL
p("I01","SDIRKL steps are steps of the selected Runge-Kutta method",
  "For each of the five provided methods one step maps the data to the result of the diagonally implicit Runge-Kutta method whose coefficients are published for it, on linear and affine problems alike: the stages solve the method's equations and the method's order conditions hold at its stated order (one for implicit Euler, two for Crank-Nicolson and Ropp-Shadid, four for the others). Stationary points of affine problems are preserved.",
  ["inputs","programs"],"all linear operators (through the user's solver), constants, steps, five methods",
  EX+"they print errors without testing them and never use a non-null forcing term.",
  [SD]+["SDIRKL/include/%s.hpp"%m for m in("CrN","EulerImp","RKMethod1","RKMethod2","RKRS")],[("stage loop","Sdirkl::step"),("A,S,D tables","method structures")])
p("I02","SDIRKL steps depend only on their arguments; the wrong call form is refused",
  "The result of a step depends only on the vector and forcing given, not on steps performed before: repeating steps on one object equals using a fresh object for each. The forcing vector is not modified, the linear operator is initialised once with the step scaled by the diagonal coefficient and applied once per stage, and calling the linear form on an affine object or the reverse throws and leaves the data untouched.",
  ["histories","inputs"],"all sequences of steps and of refused calls",
  EX+"they only chain steps of one problem.",
  [SD],[("work vectors and coefficient arrays","Sdirkl")])
# ---------------------------------------------------------------- Symplectic
p("S01","A symplectic step that reports success satisfies the Gauss equations",
  "When a step of the symplectic integrator reports success, the new solution is the Gauss Runge-Kutta step from the old one: the stage values satisfy the collocation equations for the step in use to working precision; when it reports failure the solution vector is unchanged. The number of fixed-point iterations never exceeds the configured maximum and is reported exactly, and the stopping test really compares two successive iterates.",
  ["inputs","histories"],"all right-hand sides (contracting or not), steps, iteration limits, both precisions",
  EX+"they run one fixed step each and do not look at the equations or at failures.",
  [SY,"SymplecticRK/include/Ftest.hpp"],[("fixed point loop and stopping test","SymplecticRK::step, Ftest")])
p("S02","The symplectic coefficients are Gauss coefficients of order 2s, all sizes",
  "For every supported number of stages (2 to 16) and both precisions the coefficients in use satisfy the quadrature and collocation conditions of the Gauss method of order twice the number of stages and the symplecticity condition, to the precision of the tables. Quadratic invariants and symmetry of the flow are therefore preserved by a successful step.",
  ["programs","configurations"],"2 to 16 stages, double and long double",
  EX+"they use one number of stages.",
  ["SymplecticRK/sage/generated_coeffs.hpp","SymplecticRK/include/GaussianMethod.hpp","SymplecticRK/include/icoeffs.hpp"],[("tables","icoeffs specialisations"),("change_h","GaussianMethod")])
p("S03","Changing the step or restarting never corrupts a symplectic integration",
  "Each step uses coefficients scaled by exactly the step given to it, whatever the sequence of steps, failures, restarts and step changes before, and starting values affect only the number of iterations. Starting values are the current solution on a first step or after a step change, and otherwise the extrapolation of the previous step's collocation polynomial, for every problem size and number of stages.",
  ["histories","configurations"],"all sequences of steps with changing step, first-step flag, failures",
  EX+"they keep one step and ask for a first step each time, so the extrapolation never runs.",
  [SY,"SymplecticRK/include/Extrap.hpp","SymplecticRK/sage/generated_coeffs_co.hpp","SymplecticRK/include/GaussianMethod.hpp"],[("Old_h, change_h","SymplecticRK::step"),("extrapolation","Extrap")])
p("S04","Compensated summation keeps the accumulated rounding error bounded",
  "Over any number of successful steps the solution differs from the exact sum of the step increments by no more than a few units in the last place of the solution, because what is lost in each update is carried to the next one. A failed step changes neither the solution nor what is carried.",
  ["histories"],"all sequences of successful and failed steps",
  EX+"without compensation they still finish.",
  [SY],[("e, delta, a","SymplecticRK::step")])
# ---------------------------------------------------------------- common
p("M01","Linear algebra layer: every matrix form solves the system it was given",
  "For full, banded (any legal numbers of lower and upper diagonals) and Hessenberg-reduced Jacobians, the real and the complex solves return the solution of the shifted systems for the shifts and the Jacobian last factorised, also when several shifts are used with one Jacobian or the Jacobian is replaced. Banded storage maps each position of the band to its own cell, difference Jacobians fill exactly the band, and a singular matrix is reported by an exception.",
  ["inputs","programs","histories"],"all sizes, bandwidths, matrices, sequences of factorise/solve operations",
  EX+"they use tridiagonal or 3x3 matrices and do not check solutions.",
  [MAT,HES,"common/include/fortranRectangularArray.hpp","common/include/fortranRectangularComplexArray.hpp","common/include/fortranArray.hpp","common/include/fortranComplexArray.hpp"],
  [("decomr, decomc, solvereal, solvecomplex","Matrices"),("dech, solh, dechc, solhc, householder","Hessenberg.hpp"),("calhes: reduction done once per Jacobian","Matrices<true,true,...>")],
  obs=["results of the real layer under sequences generated by the specification"])
p("M02","Vector and array containers: independent values, exact operations",
  "Each owning vector or array has its own memory, released exactly once; adopting a user's vector never frees it, copying gives an independent value (or a non-owning view for adopted vectors), exchanging two vectors exchanges their contents in constant time, and each arithmetic operation computes its documented combination from the operands' current contents, element by element. This holds after any sequence of such operations.",
  ["histories"],"all sequences of construction, copy, adoption, exchange, arithmetic and destruction",
  EX+"they reach only the sequences the integrators perform.",
  [VEC,"common/include/fortranArray.hpp","common/include/AllocateDestroyVector.hpp","common/include/switchAdr.hpp"],[("x/y pointers, deletable, switchadr","fortranVector, fortranVectorF")],
  obs=["contents of real vectors and allocator calls under operation sequences generated by the specification"])
p("G01","The event log records the events in order and filters exactly",
  "The log of an integration lists its events in the order they happened, with the time, step number, kind and value they had, each recorded once: for Radau5 and Rodas the initial step, every change of the step and every refused attempt (rejected, Newton failed, Newton will not converge), for Rock4 every attempt (success or rejected). It is restarted by the next Radau5 or Rodas integration, and goes on with Rock4 until it is cleared. Filtering by kind keeps exactly the events of that kind (or all) in order, renumbered from one; reading the log does not change it.",
  ["histories"],"all sequences of events, reads and resets; all integrations",
  EX+"the log is printed, not compared.",
  ["common/include/logger.hpp",RAD,ROD,RK4],[("list of events","logger"),("put calls","seth, operator()")],
  obs=["text of the log against the specification's list; events of real integrations against observed step changes"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
