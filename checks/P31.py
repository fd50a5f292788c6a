"""P31: angles, parallels, orthogonals, sides."""
import lineset
def run(ck):
    lineset.run(ck, "ang")
