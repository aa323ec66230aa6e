// The hub: its solvers, what each of them is able to do, and which requests each of them has to answer.
module hub {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  pure val NAMES = ["gauss1809", "battin1984", "jiang2016", "pan2016", "gooding1990", "der2011", "thorne2004", "avanzini2008",
                    "arora2013", "vallado2013", "izzo2015", "negrete2024", "mcelreath2025", "delatorre2018"]
  pure val N = 14
  pure val MULTI = Set(4, 5, 8, 10, 11, 12, 13)
  pure val ROBUST = Set(4, 5, 8, 10, 11, 12, 13)
  pure val ZEROREV = Set(1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13)
  pure val NONROBUST = Set(0)

  // cosine of half the transfer angle (negative: long way) in terms of lambda: the angle lies in [lo, hi] degrees
  pure def angleWithin(q: Prob, lo: int, hi: int): bool = {
    val n1 = vnorm(q.c1)
    val n2 = vnorm(q.c2)
    val ch = fsqrt((ONE + vdot(q.c1, q.c2) * ONE / fmul(n1, n2)) / 2)
    val c = if (q.lam >= 0) ch else -ch
    c <= fcos(deg(lo) / 2) and c >= fcos(deg(hi) / 2)
  }
  // the exact parabola, or an orbit which is not nearly one
  pure def clearConic(q: Prob): bool = q.cls == 2 or iabs(ONE - fsq(q.x)) >= ONE / 500
  // direct transfers every robust solver answers with the default settings
  pure def ordinary(q: Prob): bool = q.revs == 0 and clearConic(q)
  // direct transfers the others answer given iterations enough
  pure def easy(q: Prob): bool =
    ordinary(q) and q.x <= 2 * ONE and q.x >= -(9 * ONE / 10) and (angleWithin(q, 9, 171) or angleWithin(q, 189, 346))
  // transfers Gauss's solver answers: short arcs, not too unequal radii, speeds of an ellipse
  pure def shortArc(q: Prob): bool = {
    val n1 = vnorm(q.c1)
    val n2 = vnorm(q.c2)
    q.revs == 0 and q.lam > 0 and angleWithin(q, 2, 45) and 2 * n1 <= 3 * n2 and 2 * n2 <= 3 * n1 and q.x >= ONE / 2 and q.x <= 12 * ONE / 10
  }
  // De la Torre's and Negrete's solvers need iterations left on the shortest arcs and the fastest hyperbolas
  pure def demanding(q: Prob): bool = q.lam > 9 * ONE / 10 or q.x > 2 * ONE
  // has solver s to answer the request q with these settings?  (0 defaults, 1 tight, 2 more iterations)
  pure def mustAnswer(q: Prob, s: int, cfg: int): bool =
    if (q.revs > 0) MULTI.contains(s) and wellSeparated(q) and (if (s == 11) cfg == 2 and q.revs <= 6 else cfg != 1)
    else if (s == 11) cfg != 1 and ordinary(q) and not(demanding(q))
    else if (s == 13) ordinary(q) and (cfg == 2 or (cfg == 0 and not(demanding(q))))
    else if (ROBUST.contains(s)) cfg != 1 and ordinary(q)
    else if (s == 0) cfg == 2 and shortArc(q)
    else cfg == 2 and easy(q)
}
