PARTS = [dict(tu="S03.cpp")]
FUNCTIONS = ["m::least_subset", "m::next_subset", "GospersHack::enumerate_all/enumerate_from/operator++/operator bool/operator*", "SubsetEnumerator::*"]
ASSUMPTIONS = ["ghost lemmas about cardinality are proved by induction on the upper end of the range (base and step obligations); instances are assumed where used",
  "pdep is the order isomorphism from {0..|S|-1} onto the elements of S (instruction semantics), so k-subsets correspond one to one",
  "the induction from the step contracts to the whole enumeration is by hand",
  "base sets of all 64 elements are excluded for size-restricted enumeration (the code insists on fewer than 64)"]
