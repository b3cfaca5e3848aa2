"""Build the IR extractor (tool/irx.cpp) from the committed sources."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import build
print(build.build_irx())
