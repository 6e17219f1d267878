-------------------------- MODULE DynSysCppTrace --------------------------
(* Dynamical systems that are exported to C++, used there, and taken back: *)
(* the C++ system is one with the same settings, and has no influence on   *)
(* the Python one.                                                         *)
EXTENDS DynSysTrace

VARIABLE home             \* the Python system
CppInit == TraceInit /\ home = s
\* Where a time system ends, the solution's rate is still that of before.
EndRates(e) == s.kind = "time" => \A i \in 1..Len(e.ts) : REq(e.ts[i], s.tau) => RNear(e.xds[i][1], RDiv(IF s.down THEN -1 ELSE 1, s.tau), Tol, Zero)
CppDo(e) ==
  CASE e.op = "solution" /\ e.out = "ok" /\ ~EndRates(e) -> UNCHANGED <<s, home>> /\ Judge(<< <<"rate at the end as in Python", FALSE>> >>)
    [] e.op = "export" -> UNCHANGED s /\ home' = s /\ Judge(<< <<"exported and loaded", e.out = "ok">> >>)
    [] e.op = "back" -> s' = home /\ UNCHANGED home
    [] OTHER -> Do(e) /\ UNCHANGED home
CppNext == KitStep /\ CppDo(Event)
CppSpec == CppInit /\ [][CppNext]_<<s, home, tr, pos>>
=============================================================================
