-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* Statuses, messages and named constants (utils.c).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
(* Statuses and their messages, in order from code 0. *)
Statuses == <<
  <<"OPK_SUCCESS", "Success">>,
  <<"OPK_INVALID_ARGUMENT", "Invalid argument">>,
  <<"OPK_INSUFFICIENT_MEMORY", "Insufficient memory">>,
  <<"OPK_ILLEGAL_ADDRESS", "Illegal address">>,
  <<"OPK_NOT_IMPLEMENTED", "Not implemented">>,
  <<"OPK_CORRUPTED_WORKSPACE", "Corrupted workspace">>,
  <<"OPK_BAD_SPACE", "Bad variable space">>,
  <<"OPK_OUT_OF_BOUNDS_INDEX", "Out of bounds index">>,
  <<"OPK_NOT_STARTED", "Line search not started">>,
  <<"OPK_NOT_A_DESCENT", "Not a descent direction">>,
  <<"OPK_STEP_CHANGED", "Step changed">>,
  <<"OPK_STEP_OUTSIDE_BRACKET", "Step outside bracket">>,
  <<"OPK_STPMIN_GT_STPMAX", "Lower step bound larger than upper bound">>,
  <<"OPK_STPMIN_LT_ZERO", "Minimal step length less than zero">>,
  <<"OPK_STEP_LT_STPMIN", "Step lesser than lower bound">>,
  <<"OPK_STEP_GT_STPMAX", "Step greater than upper bound">>,
  <<"OPK_FTOL_TEST_SATISFIED", "Convergence within function tolerance">>,
  <<"OPK_GTOL_TEST_SATISFIED", "Convergence within gradient tolerance">>,
  <<"OPK_XTOL_TEST_SATISFIED", "Convergence within variable tolerance">>,
  <<"OPK_STEP_EQ_STPMAX", "Step blocked at upper bound">>,
  <<"OPK_STEP_EQ_STPMIN", "Step blocked at lower bound">>,
  <<"OPK_ROUNDING_ERRORS_PREVENT_PROGRESS", "Rounding errors prevent progress">>,
  <<"OPK_NOT_POSITIVE_DEFINITE", "Operator is not positive definite">>,
  <<"OPK_BAD_PRECONDITIONER", "Preconditioner is not positive definite">>,
  <<"OPK_INFEASIBLE_BOUNDS", "Box set is infeasible">>,
  <<"OPK_WOULD_BLOCK", "Variables cannot be improved (would block)">>,
  <<"OPK_UNDEFINED_VALUE", "Undefined value">>,
  <<"OPK_TOO_MANY_EVALUATIONS", "Too many evaluations">>,
  <<"OPK_TOO_MANY_ITERATIONS", "Too many iterations">> >>
Reason(code) == IF code \in 0 .. Len(Statuses) - 1 THEN Statuses[code + 1][2] ELSE ""
Constants ==
  "OPK_TRUE" :> 1 @@
  "OPK_FALSE" :> 0 @@
  "OPK_FLOAT" :> 0 @@
  "OPK_DOUBLE" :> 1 @@
  "OPK_TASK_ERROR" :> -1 @@
  "OPK_TASK_START" :> 0 @@
  "OPK_TASK_COMPUTE_FG" :> 1 @@
  "OPK_TASK_NEW_X" :> 2 @@
  "OPK_TASK_FINAL_X" :> 3 @@
  "OPK_TASK_WARNING" :> 4 @@
  "OPK_LNSRCH_ERROR" :> -1 @@
  "OPK_LNSRCH_SEARCH" :> 0 @@
  "OPK_LNSRCH_CONVERGENCE" :> 1 @@
  "OPK_LNSRCH_WARNING" :> 2 @@
  "OPK_NLCG_FLETCHER_REEVES" :> 1 @@
  "OPK_NLCG_HESTENES_STIEFEL" :> 2 @@
  "OPK_NLCG_POLAK_RIBIERE_POLYAK" :> 3 @@
  "OPK_NLCG_FLETCHER" :> 4 @@
  "OPK_NLCG_LIU_STOREY" :> 5 @@
  "OPK_NLCG_DAI_YUAN" :> 6 @@
  "OPK_NLCG_PERRY_SHANNO" :> 7 @@
  "OPK_NLCG_HAGER_ZHANG" :> 8 @@
  "OPK_NLCG_POWELL" :> 256 @@
  "OPK_NLCG_SHANNO_PHUA" :> 512 @@
  "OPK_BOUND_NONE" :> 0 @@
  "OPK_BOUND_SCALAR_FLOAT" :> 1 @@
  "OPK_BOUND_SCALAR_DOUBLE" :> 2 @@
  "OPK_BOUND_STATIC_FLOAT" :> 3 @@
  "OPK_BOUND_STATIC_DOUBLE" :> 4 @@
  "OPK_BOUND_VOLATILE_FLOAT" :> 5 @@
  "OPK_BOUND_VOLATILE_DOUBLE" :> 6 @@
  "OPK_BOUND_VECTOR" :> 7 @@
  "OPK_ASCENT" :> -1 @@
  "OPK_DESCENT" :> 1 @@
  "OPK_SCALING_NONE" :> 0 @@
  "OPK_SCALING_OREN_SPEDICATO" :> 1 @@
  "OPK_SCALING_BARZILAI_BORWEIN" :> 2 @@
  "OPK_LBFGS" :> 0 @@
  "OPK_VMLMB" :> 1 @@
  "OPK_BLMVM" :> 2 @@
  "OPK_ALGORITHM_NLCG" :> 0 @@
  "OPK_ALGORITHM_VMLMB" :> 1 @@
  "OPK_FMIN_BOUNDED_BY_A" :> 1 @@
  "OPK_FMIN_BOUNDED_BY_B" :> 2 @@
  "OPK_FMIN_SMOOTH" :> 4 @@
  "OPK_FMIN_ERROR" :> -1 @@
  "OPK_FMIN_START" :> 0 @@
  "OPK_FMIN_FX" :> 1 @@
  "OPK_FMIN_NEWX" :> 2 @@
  "OPK_FMIN_CONVERGENCE" :> 3
StatusNames == {Statuses[k][1] : k \in DOMAIN Statuses}
Known(name) == name \in StatusNames \cup DOMAIN Constants
Value(name) == IF name \in StatusNames THEN (CHOOSE k \in DOMAIN Statuses : Statuses[k][1] = name) - 1
               ELSE Constants[name]
(* The status of a failure of the system. *)
Guess(code) == CASE code = "ENOMEM" -> "OPK_INSUFFICIENT_MEMORY"
                 [] code = "EFAULT" -> "OPK_ILLEGAL_ADDRESS"
                 [] code = "EINVAL" -> "OPK_INVALID_ARGUMENT"
                 [] OTHER -> "?"
(* Names and messages tell the statuses apart. *)
ASSUME \A j, k \in DOMAIN Statuses : j # k => Statuses[j][1] # Statuses[k][1] /\ Statuses[j][2] # Statuses[k][2]
ASSUME StatusNames \cap DOMAIN Constants = {}
=============================================================================
