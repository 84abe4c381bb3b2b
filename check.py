#!/opt/veriftools/pyvenv/bin/python
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nnjcheck.cli import main
sys.exit(main())
