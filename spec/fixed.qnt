// Fixed-point real arithmetic over Quint's unbounded integers.
// A real x is represented by the integer x * ONE, ONE = 10^60.
// Everything is a pure definition: no recursion, bounded folds only, total on the stated domains.
module fixed {
  pure val ONE = 10^60
  pure val PI = 3141592653589793238462643383279502884197169399375105820974944
  pure val TWO_PI = 6283185307179586476925286766559005768394338798750211641949889
  pure val HALF_PI = 1570796326794896619231321691639751442098584699687552910487472
  pure val LN2 = 693147180559945309417232121458176568075500134360255254120680

  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a < b) b else a
  pure def isgn(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0
  // floor division and modulo for a positive divisor
  pure def fldiv(a: int, b: int): int = if (a >= 0) a / b else -((b - 1 - a) / b)
  pure def flmod(a: int, b: int): int = a - b * fldiv(a, b)

  pure def fmul(a: int, b: int): int = a * b / ONE
  pure def fdiv(a: int, b: int): int = a * ONE / b
  pure def fsq(a: int): int = a * a / ONE
  pure def fint(n: int): int = n * ONE
  // the rational n/d
  pure def frat(n: int, d: int): int = n * ONE / d

  pure val POW2 = [(1024, 2^1024), (512, 2^512), (256, 2^256), (128, 2^128), (64, 2^64), (32, 2^32), (16, 2^16), (8, 256), (4, 16), (2, 4), (1, 2)]
  // floor(log2 n), n >= 1, n < 2^2048
  pure def ilog2(n: int): int =
    POW2.foldl((n, 0), (s, p) => if (s._1 >= p._2) (s._1 / p._2, s._2 + p._1) else s)._2

  pure val IT9 = range(0, 9)
  // integer square root to within one unit (Newton from above), n >= 0
  pure def isqrt(n: int): int =
    if (n <= 1) n else
    IT9.foldl(2^(ilog2(n) / 2 + 1), (s, _) => (s + n / s) / 2)
  pure def fsqrt(x: int): int = if (x <= 0) 0 else isqrt(x * ONE)

  pure val IT_EXP = range(1, 16).foldl([], (l, k) => [k].concat(l))
  pure val IT8 = range(0, 8)
  pure def fexp(x: int): int = {
    val k = fldiv(x + LN2 / 2, LN2)
    val r = (x - k * LN2) / 256
    val e0 = IT_EXP.foldl(ONE, (acc, j) => ONE + r * acc / (ONE * j))
    val e1 = IT8.foldl(e0, (acc, _) => fsq(acc))
    if (k >= 0) e1 * 2^k else e1 / 2^(-k)
  }

  pure val IT_SC = [10, 9, 8, 7, 6, 5, 4, 3, 2, 1]
  pure val IT_DBL = range(0, 9)
  // (cos x, sin x)
  pure def fcossin(x: int): (int, int) = {
    val y = flmod(x + PI, TWO_PI) - PI
    val r = y / 512
    val q = fsq(r)
    val c0 = IT_SC.foldl(ONE, (acc, j) => ONE - q * acc / (ONE * ((2 * j - 1) * 2 * j)))
    val s0 = r * IT_SC.foldl(ONE, (acc, j) => ONE - q * acc / (ONE * (2 * j * (2 * j + 1)))) / ONE
    IT_DBL.foldl((c0, s0), (a, _) => (ONE - 2 * fsq(a._2), 2 * fmul(a._1, a._2)))
  }
  pure def fcos(x: int): int = fcossin(x)._1
  pure def fsin(x: int): int = fcossin(x)._2

  pure val IT3 = range(0, 3)
  pure val IT_ATAN = range(0, 24).foldl([], (l, k) => [2 * k + 1].concat(l))
  // atan of t, |t| <= 1
  pure def fatan1(t: int): int = {
    val u = IT3.foldl(t, (a, _) => a * ONE / (ONE + fsqrt(ONE + fsq(a))))
    val q = fsq(u)
    8 * fmul(u, IT_ATAN.foldl(0, (acc, j) => ONE / j - q * acc / ONE))
  }
  // atan2 in (-pi, pi]; (0, 0) gives 0
  pure def fatan2(y: int, x: int): int =
    if (x == 0 and y == 0) 0 else
    if (iabs(y) <= iabs(x))
      (if (x > 0) fatan1(y * ONE / x)
       else if (y >= 0) PI + fatan1(y * ONE / x) else -PI + fatan1(y * ONE / x))
    else
      (if (y > 0) HALF_PI - fatan1(x * ONE / y) else -HALF_PI - fatan1(x * ONE / y))
  pure def facos(c: int): int = fatan2(fsqrt(ONE - fsq(c)), c)

  pure val IT2 = range(0, 2)
  pure val IT_LOG = range(0, 29).foldl([], (l, k) => [2 * k + 1].concat(l))
  // natural logarithm of x > 0
  pure def flog(x: int): int = {
    val k = ilog2(x) - 199
    val m0 = if (k >= 0) x / 2^k else x * 2^(-k)
    val m = IT2.foldl(m0, (a, _) => fsqrt(a))
    val z = (m - ONE) * ONE / (m + ONE)
    val q = fsq(z)
    k * LN2 + 8 * fmul(z, IT_LOG.foldl(0, (acc, j) => ONE / j + q * acc / ONE))
  }
  // atanh, |z| < 1
  pure def fatanh(z: int): int = flog((ONE + z) * ONE / (ONE - z)) / 2
  pure def fsinh(x: int): int = { val e = fexp(x)  (e - ONE * ONE / e) / 2 }
  pure def fcosh(x: int): int = { val e = fexp(x)  (e + ONE * ONE / e) / 2 }

  // three-vectors
  type V3 = { x: int, y: int, z: int }
  pure def vec(x: int, y: int, z: int): V3 = { x: x, y: y, z: z }
  pure def vadd(a: V3, b: V3): V3 = { x: a.x + b.x, y: a.y + b.y, z: a.z + b.z }
  pure def vsub(a: V3, b: V3): V3 = { x: a.x - b.x, y: a.y - b.y, z: a.z - b.z }
  pure def vscale(k: int, a: V3): V3 = { x: k * a.x / ONE, y: k * a.y / ONE, z: k * a.z / ONE }
  pure def vneg(a: V3): V3 = { x: -a.x, y: -a.y, z: -a.z }
  pure def vdot(a: V3, b: V3): int = (a.x * b.x + a.y * b.y + a.z * b.z) / ONE
  pure def vcross(a: V3, b: V3): V3 = {
    x: (a.y * b.z - a.z * b.y) / ONE, y: (a.z * b.x - a.x * b.z) / ONE, z: (a.x * b.y - a.y * b.x) / ONE }
  pure def vnorm(a: V3): int = isqrt(a.x * a.x + a.y * a.y + a.z * a.z)
  pure def vmax(a: V3): int = imax(imax(iabs(a.x), iabs(a.y)), iabs(a.z))
}
