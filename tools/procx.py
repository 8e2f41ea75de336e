"""The process collector (C21)."""
import os
from common import *

TOOLCHAIN = "1.85.0"
RUNS = {"C21": ("procx", [[]], "one state or history of a helper process, observed from outside or by itself",
        ["the kernel's /proc answers of a blocked process are the same before, during and after a scrape"])}


def build(prop=None, tier="quick"):
    t = cargo("procx", TOOLCHAIN, ["build"])
    return os.path.join(t, "debug", "procx")
