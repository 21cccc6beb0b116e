import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rt import base
sys.exit(base.main(sys.argv[1:]))
