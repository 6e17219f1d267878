---------------------------- MODULE DmpCppTrace ----------------------------
(* DMPs that are exported to C++, used there, and taken back: the C++ DMP  *)
(* is one with the same settings and approximators, and has no influence   *)
(* on the Python one.  (In C++ the state has no damping part; the driver   *)
(* appends the damping coefficients, and rates of zero.)                   *)
EXTENDS DmpTrace

VARIABLE home             \* the Python DMP
CppInit == TraceInit /\ home = p
CppDo(e) ==
  CASE e.op = "export" -> UNCHANGED <<p, sel, last>> /\ home' = p /\ Judge(<< <<"exported and loaded", e.out = "ok">> >>)
    [] e.op = "back" -> p' = home /\ UNCHANGED <<home, sel, last>>
    [] OTHER -> Do(e) /\ UNCHANGED home
CppNext == KitStep /\ CppDo(Event)
CppSpec == CppInit /\ [][CppNext]_<<p, sel, last, home, tr, pos>>
=============================================================================
