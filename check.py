#!/usr/bin/env python3-vt
"""usage: check.py <property> [quick|thorough]   |   check.py --replay FILE"""
import sys, os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from vt import check
from props import cal, scale, series, lin, frames, ell, sun, hist, split, geo, text
P={}
for m in (cal,scale,series,lin,frames,ell,sun,hist,split,geo,text):
    for k,v in vars(m).items():
        if len(k)==3 and k[0].isupper() and k[1:].isdigit(): P[k]=v
sys.exit(check.main(P))
