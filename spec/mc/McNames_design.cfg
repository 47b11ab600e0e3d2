CONSTANTS Most = 4
  Emit = FALSE
  Design = "good"
SPECIFICATION Spec
INVARIANTS ListingIsByName GroupsAreAll InOneGroup NothingElse PathsNameThem Told
CHECK_DEADLOCK FALSE
