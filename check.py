#!/usr/bin/env python3
import sys, os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from lcs.ctx import main
if __name__=='__main__':
    rc=0
    for p in sys.argv[1:]: rc=max(rc,main(p))
    sys.exit(rc)
