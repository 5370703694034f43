"""The checks: which scenario decides which property."""

import checkdefs
import scn_cli
import scn_corpus
import scn_edit
import scn_index
import scn_live
import scn_model
import scn_open
import scn_read
import scn_web

SCENARIOS = {
    "C01": scn_index.c01,
    "C02": scn_index.c02,
    "C03": scn_index.c03,
    "C05": scn_index.c05,
    "C06": scn_edit.c06,
    "C07": scn_edit.c07,
    "C08": scn_edit.c08,
    "C09": scn_edit.c09,
    "C10": scn_model.c10,
    "C11": scn_model.c11,
    "C04": scn_read.c04,
    "C12": scn_read.c12,
    "C13": scn_read.c13,
    "C14": scn_corpus.c14,
    "C15": scn_corpus.c15,
    "C16": scn_open.c16,
    "C17": scn_web.c17,
    "C18": scn_index.c18,
    "C19": scn_read.c19,
    "C20": scn_live.c20,
    "C21": scn_cli.c21,
}


class Check:
    def __init__(self, prop):
        d = checkdefs.DEFS[prop]
        self.prop = prop
        self.scenario = SCENARIOS[prop]
        self.max_steps = d.get("max_steps", 1500000)
        self.liveness = d.get("liveness", False)
        self.after = None
        self.hashseeds = d.get("hashseeds")


def get(prop):
    return Check(prop)
