"""builds tool/irdump (the checks build it themselves when it is missing)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import ir  # noqa: E402

ir.build_tool()
print("ok")
