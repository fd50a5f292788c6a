"""P21: smallest enclosing circles."""
from vlib import *
import setgen

def run(ck):
    ck.build("sets", setgen.VARS)
    setgen.run(ck, ("mec",))
