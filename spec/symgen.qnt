// Generator machine of pairs: a problem and, one step later, its image under a word of the symmetry group.
module symgen {
  import fixed.* from "fixed"
  import kepler.* from "kepler"
  import lambert.* from "lambert"
  import gen.* from "gen"
  import symmetry.* from "symmetry"
  const C0: List[int]
  const F0: int
  const M0: int
  const U0: List[int]
  const O0: List[int]
  import genrun(CLASSES=C0, FIRST=F0, MAXREV=M0, UNITSET=U0, ORIENT=O0) as g from "genrun"
  var word: int          // the word to apply to the problem of this state
  var moved: Prob        // the image of the problem of the state before
  action start = all { g::init, word' = 0, moved' = bad(0) }
  action pair = {
    nondet w = 0.to(999999999).oneOf()
    all { g::step, word' = w, moved' = image(word, g::prob) } }
  // the image of a problem is a problem, and what is carried along is its solution
  val closed = moved.ok implies certified(moved)
}
