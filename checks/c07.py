"""C07: gradients of the antialiased residual against exact derivatives of the reference model (same families as C06)."""
import c06

ID = "C07"
LEVEL = "exploration"
RULE = c06.RULE.replace("gradients for all inputs", "residual mode against three observations; gradients for all inputs")
ASSUME = ["the adjoint is zero on pixels where the reference reports an exact tie (edge, depth, band limit, painter's order) or a kink of the texture interpolation; those pixels are only checked for finiteness",
          "perspective_correct off and backface_culling on (the other settings are refused by the code, see C10)"]
cases = c06.cases


def check(case):
    c06.OBS = True
    return c06.check(case)
