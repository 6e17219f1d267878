--------------------------- MODULE RealTimeTrace ---------------------------
(* What calls of a control loop on a C++ object allocate, for every call   *)
(* since the object was constructed: AllocMC's NoAllocation.               *)
EXTENDS TraceKit

VARIABLE inloop
TraceInit == KitInit /\ inloop = 0
Next == /\ KitStep
        /\ inloop' = inloop + (IF Event.returned THEN Event.allocs ELSE 0)
        /\ Judge(<< <<"the call returns", Event.returned>>,
                    <<"allocates no memory", Event.returned => inloop' = inloop>> >>)
TraceSpec == TraceInit /\ [][Next]_<<inloop, tr, pos>>
=============================================================================
