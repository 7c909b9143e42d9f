PARTS = [dict(tu="S01.cpp", opts={})]
FUNCTIONS = ["SmallBitset::*", "m::least_subset", "m::unify/intersect/subtract"]
