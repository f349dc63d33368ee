------------------------------ MODULE MCRouteGen -----------------------------
(* All histories of registrations (conflicting ones included), for replay.        *)
EXTENDS MCRoute
=============================================================================
