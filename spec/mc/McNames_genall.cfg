CONSTANTS Most = 3
  Emit = TRUE
  Design = "good"
SPECIFICATION Spec
INVARIANTS ListingIsByName GroupsAreAll InOneGroup NothingElse PathsNameThem Told
CHECK_DEADLOCK FALSE
