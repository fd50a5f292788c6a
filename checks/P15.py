"""P15: points and lines: duality, equality, incidence."""
import lineset
def run(ck):
    lineset.run(ck, "dual")
