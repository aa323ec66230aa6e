// The instances TLC explores completely.
module readmemc { import readme(VERSIONS=2, PIECES=1, LIMIT=6).* from "readme" }
module readmemc2 { import readme(VERSIONS=2, PIECES=2, LIMIT=7).* from "readme" }
// Behaviours to replay: long, and starting again now and then.
module readmegen {
  import readme(VERSIONS=6, PIECES=8, LIMIT=24).* from "readme"
  action start = init
  action play = {
    nondet again = 0.to(11).oneOf()
    if (again == 0) init else step }
}
