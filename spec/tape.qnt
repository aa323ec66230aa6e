// Decoding of recorded observations. A record is one unbounded integer made of 64-bit words (word 0 is the lowest);
// reals are recorded as the raw bits of the IEEE-754 double the code returned and decoded here exactly.
module tape {
  import fixed.* from "fixed"
  pure val W = 2^64
  pure val P52 = 2^52
  pure val P32 = 2^32
  pure def word(rec: int, i: int): int = (rec / 2^(64 * i)) % W
  // signed 32-bit slots biased by 2^31
  pure def slot(rec: int, i: int): int = (rec / 2^(32 * i)) % P32 - 2^31
  pure def finiteBits(w: int): bool = (w / P52) % 2048 != 2047
  pure def isNegative(w: int): bool = w >= 2^63
  // value of a finite double as a fixed-point number (absolute resolution 10^-60)
  pure def real(w: int): int = {
    val e = (w / P52) % 2048
    val m = if (e == 0) w % P52 else w % P52 + P52
    val x = (if (e == 0) 1 else e) - 1075
    val a = if (x >= 0) m * 2^x * ONE else m * ONE / 2^(-x)
    if (w >= 2^63) -a else a
  }
  pure def vec3(rec: int, i: int): V3 = vec(real(word(rec, i)), real(word(rec, i + 1)), real(word(rec, i + 2)))
  pure def finite3(rec: int, i: int): bool = finiteBits(word(rec, i)) and finiteBits(word(rec, i + 1)) and finiteBits(word(rec, i + 2))
}
