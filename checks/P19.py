"""P19: convex hulls."""
from vlib import *
import setgen

def run(ck):
    ck.build("sets", setgen.VARS)
    setgen.run(ck, ("hull",))
