"""P16: segments and oriented segments through histories."""
import lineset
def run(ck):
    lineset.run(ck, "seg")
