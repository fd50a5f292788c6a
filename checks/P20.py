"""P20: extreme points, points inside an area."""
from vlib import *
import setgen

def run(ck):
    ck.build("sets", setgen.VARS)
    setgen.run(ck, ("ext", "ins",))
