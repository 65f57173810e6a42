"""C05: antialiased residual against the reference model (same scene families as C04)."""
import c04

ID = "C05"
LEVEL = "exploration"
RULE = ("the scene families of C04 (all lattice triples, pairs, triples, fans, shapes x flags x sigmas x edge masks x texturing) rendered in residual mode against three observations; "
        "image, z-buffer (must equal the sigma=0 rendering) and residual compared with the reference at every unambiguous pixel; distinct = distinct residual buffers")
ASSUME = ["pixels exactly on an edge line end (band limits), on depth ties (except where all depths are zero) or painter's order ties are not compared"]
cases = c04.cases


def check(case):
    c04.OBS = True
    return c04.check(case)
