import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prove
print("built", prove.irdump_bin())
