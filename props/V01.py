import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sm
PARTS = [dict(tu="V01.cpp", roots=sm.ROOTS, opts=sm.OPTS, native=False)]
FUNCTIONS = ["StackMachine::operator(): the operations that compute (arithmetic, bitwise, logical, comparison, cast, NULL test, selection)", "Value::as, Value::Value"]
REPLAY = "V01.cpp"
TRUSTED = ["strcmp orders character sequences (uninterpreted, the same function in code and specification)"]
ASSUMPTIONS = ["floating-point operations are the IEEE operations the compiler emits (uninterpreted, the same in code and specification)",
  "operations are given operands of their type; no signed overflow, no division by zero, shift counts below 64, casts within range; the machine dispatches through the label table as GNU C++ defines",
  "the operations for addresses, shifts and zero tests are only emitted for operands that are not NULL (their NULL bit is passed on unchanged)"]
