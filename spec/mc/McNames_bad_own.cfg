CONSTANTS Most = 2
  Emit = FALSE
  Design = "own"
SPECIFICATION Spec
INVARIANTS ListingIsByName GroupsAreAll InOneGroup NothingElse PathsNameThem Told
CHECK_DEADLOCK FALSE
