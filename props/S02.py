PARTS = [dict(tu="S02.cpp")]
FUNCTIONS = ["SmallBitset::begin/end/cbegin/cend/rbegin/rend/crbegin/crend", "SmallBitset::iterator::*", "SmallBitset::reverse_iterator::*"]
ASSUMPTIONS = ["the induction from the step contract to a whole traversal is by hand: the remaining set shrinks by one element per step"]
