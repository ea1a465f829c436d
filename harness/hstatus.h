/* Names of the status codes and tasks of the library. */
#ifndef HSTATUS_H_
#define HSTATUS_H_ 1
#include "optimpack.h"
static const char* h_status(int st)
{
  switch (st) {
  case OPK_SUCCESS: return "OPK_SUCCESS";
  case OPK_INVALID_ARGUMENT: return "OPK_INVALID_ARGUMENT";
  case OPK_INSUFFICIENT_MEMORY: return "OPK_INSUFFICIENT_MEMORY";
  case OPK_ILLEGAL_ADDRESS: return "OPK_ILLEGAL_ADDRESS";
  case OPK_NOT_IMPLEMENTED: return "OPK_NOT_IMPLEMENTED";
  case OPK_CORRUPTED_WORKSPACE: return "OPK_CORRUPTED_WORKSPACE";
  case OPK_BAD_SPACE: return "OPK_BAD_SPACE";
  case OPK_OUT_OF_BOUNDS_INDEX: return "OPK_OUT_OF_BOUNDS_INDEX";
  case OPK_NOT_STARTED: return "OPK_NOT_STARTED";
  case OPK_NOT_A_DESCENT: return "OPK_NOT_A_DESCENT";
  case OPK_STEP_CHANGED: return "OPK_STEP_CHANGED";
  case OPK_STEP_OUTSIDE_BRACKET: return "OPK_STEP_OUTSIDE_BRACKET";
  case OPK_STPMIN_GT_STPMAX: return "OPK_STPMIN_GT_STPMAX";
  case OPK_STPMIN_LT_ZERO: return "OPK_STPMIN_LT_ZERO";
  case OPK_STEP_LT_STPMIN: return "OPK_STEP_LT_STPMIN";
  case OPK_STEP_GT_STPMAX: return "OPK_STEP_GT_STPMAX";
  case OPK_FTOL_TEST_SATISFIED: return "OPK_FTOL_TEST_SATISFIED";
  case OPK_GTOL_TEST_SATISFIED: return "OPK_GTOL_TEST_SATISFIED";
  case OPK_XTOL_TEST_SATISFIED: return "OPK_XTOL_TEST_SATISFIED";
  case OPK_STEP_EQ_STPMAX: return "OPK_STEP_EQ_STPMAX";
  case OPK_STEP_EQ_STPMIN: return "OPK_STEP_EQ_STPMIN";
  case OPK_ROUNDING_ERRORS_PREVENT_PROGRESS: return "OPK_ROUNDING_ERRORS_PREVENT_PROGRESS";
  case OPK_NOT_POSITIVE_DEFINITE: return "OPK_NOT_POSITIVE_DEFINITE";
  case OPK_BAD_PRECONDITIONER: return "OPK_BAD_PRECONDITIONER";
  case OPK_INFEASIBLE_BOUNDS: return "OPK_INFEASIBLE_BOUNDS";
  case OPK_WOULD_BLOCK: return "OPK_WOULD_BLOCK";
  case OPK_UNDEFINED_VALUE: return "OPK_UNDEFINED_VALUE";
  case OPK_TOO_MANY_EVALUATIONS: return "OPK_TOO_MANY_EVALUATIONS";
  case OPK_TOO_MANY_ITERATIONS: return "OPK_TOO_MANY_ITERATIONS";
  }
  return "?";
}
static const char* h_task(int t)
{
  switch (t) {
  case OPK_TASK_ERROR: return "ERROR";
  case OPK_TASK_START: return "START";
  case OPK_TASK_COMPUTE_FG: return "COMPUTE_FG";
  case OPK_TASK_NEW_X: return "NEW_X";
  case OPK_TASK_FINAL_X: return "FINAL_X";
  case OPK_TASK_WARNING: return "WARNING";
  }
  return "?";
}
static const char* h_lstask(int t)
{
  switch (t) {
  case OPK_LNSRCH_ERROR: return "ERROR";
  case OPK_LNSRCH_SEARCH: return "SEARCH";
  case OPK_LNSRCH_CONVERGENCE: return "CONVERGENCE";
  case OPK_LNSRCH_WARNING: return "WARNING";
  }
  return "?";
}
#endif
