"""P14: figures and containers under homographies."""
import homog
run = homog.p14
