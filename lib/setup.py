import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import xbuild
for v in ("opt", "asan", "poison"):
    xbuild.core(v)
