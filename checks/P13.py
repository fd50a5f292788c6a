"""P13: homographies: any history of matrix operations, and what is transformed in between."""
import homog
run = homog.p13
