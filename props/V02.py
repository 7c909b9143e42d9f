import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sm
PARTS = [dict(tu="V02.cpp", roots=sm.ROOTS, opts=sm.OPTS, native=False)]
FUNCTIONS = ["StackMachine::operator(): the operations that move values (tuples, context, memory, stack) and that stop", "Tuple::set/null/not_null/is_null/operator[]", "m::setbit"]
REPLAY = "V01.cpp"
TRUSTED = ["strncpy copies at most the given number of characters (by contract: it is called once, with the right arguments)"]
ASSUMPTIONS = ["addresses on the stack point to as many bytes as are accessed", "the tuple an operation names is one of three tuples (each position of it and all contents arbitrary)", "a string loaded fits into the machine's memory; only the first string of a run is covered"]
