"""What each check runs."""
import bridge_parts as B
import console_parts as C
import eq_parts as E
import err_parts as R
import lang_parts as L
import multi_parts as M
import text_parts as X
import world_parts as W

TEXT = "identifiers and values range over the characters the language allows in quoted text"
COMMON = ["the harness' projection of a world (harness/project.go) reads through the exported World interface and an independent text reader",
          "within the bounds of the model instances and the seeded random runs listed under parts", TEXT]


def p(run, level="model_checking", extra=()):
    return dict(run=run, level=level, assumptions=COMMON + list(extra))


def seq(*parts):
    def run(ctx):
        for f in parts:
            f(ctx)
    return run


PROPS = {
    "C01": p(W.c01), "C02": p(W.c02), "C03": p(W.c03), "C04": p(W.c04), "C05": p(W.c05), "C06": p(W.c06), "C07": p(W.c07),
    "C08": p(W.c08), "C09": p(W.c09), "C10": p(W.c10), "C11": p(W.c11), "C12": p(W.c12), "C13": p(seq(W.c13_world, X.c13_text)), "C14": p(X.c14), "C17": p(E.c17), "C18": p(L.c18), "C15": p(M.c15), "C16": p(M.c16), "C20": p(M.c20), "C19": p(B.c19), "C22": p(R.c22), "C23": p(X.c23), "C24": p(C.c24), "C21": p(seq(M.c21, X.c21_text)),
}

TECHNIQUE = "TLA+ specification (TLC): exhaustive bounded model, model transitions replayed in the real code, recorded runs validated step by step against the specification"
NOTE = ("The property holds on every state and transition of the bounded models, and every recorded run of the real code (walks over the models' transitions and "
        "seeded random runs) is a behaviour the specification allows. Trusts the projection in harness/project.go and the bounds given in the evidence.")
NOT_APPLICABLE = {}
