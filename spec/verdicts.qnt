// Verdicts about answers to generated problems: "" if the outcome is allowed, else the clause it breaks.
module verdicts {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  import tape.* from "tape"
  import answers.* from "answers"
  import accuracy.* from "accuracy"
  import hub.* from "hub"

  pure def outcomeName(status: int): str =
    if (status == 0) "returned" else if (status == 1) "raised ValueError" else if (status == 2) "raised RuntimeError"
    else if (status == 3) "raised another exception" else if (status == 4) "did not end" else "returned something else than two velocities"

  // an answer that was returned is the solution
  pure def returnedIsSolution(q: Prob, o: Obs): str =
    if (o.status == 5) outcomeName(5)
    else if (o.status != 0) ""
    else if (not(o.fin)) "velocities are not finite"
    else if (errorOf(q, o) > tolerance(q, o.solver, o.cfg)) blame(q, o)
    else ""
  // the request has to be answered with a solution
  pure def isAnswered(q: Prob, o: Obs): str =
    if (not(mustAnswer(q, o.solver, o.cfg))) (if (o.status >= 3) outcomeName(o.status) else "")
    else if (o.status != 0) outcomeName(o.status)
    else if (not(o.fin)) "velocities are not finite"
    else if (errorOf(q, o) > imax(ONE / 20, tolerance(q, o.solver, o.cfg))) blame(q, o)
    else ""
  // multi-revolution requests: above the minimum time they are answered on both paths, below it they are refused
  pure def existence(q: Prob, o: Obs): str =
    if (q.cls == 40) (if (o.status == 1) "" else if (o.status == 0) "answered below the minimum time" else outcomeName(o.status))
    else if (mustAnswer(q, o.solver, o.cfg)) isAnswered(q, o)
    else if (o.status == 1 or o.status == 2) ""
    else if (o.status > 2) outcomeName(o.status)
    else returnedIsSolution(q, o)
  // a request for either sense of motion (the message slot of the observation: bit 0 prograde): what is returned moves in
  // that sense, in the plane of both positions, and goes through r2 after the time of flight
  pure def sense(q: Prob, o: Obs): str =
    if (o.status == 5) outcomeName(5)
    else if (o.status != 0) ""
    else {
      val b = blame({ ...q, pro: o.msg % 2 == 1 }, o)
      if (b == "not accurate enough" or b == "wrong path") "" else b }
  pure val SOLUTION = 1
  pure val ANSWERED = 2
  pure val EXISTENCE = 3
  pure val SENSE = 4
  pure def verdict(rule: int, q: Prob, o: Obs): str =
    if (rule == SOLUTION) returnedIsSolution(q, o) else if (rule == ANSWERED) isAnswered(q, o)
    else if (rule == EXISTENCE) existence(q, o) else sense(q, o)
}
