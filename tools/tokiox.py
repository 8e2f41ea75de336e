"""The tokio collector (C22), built with and without its net feature."""
import os
from common import *

TOOLCHAIN = "1.85.0"
RUNS = {"C22": ("tokiox", [[], ["--plain"]], "one set of runtimes or history of workloads, scraped at rest",
        ["the thread schedule within the observed runtimes is the system's own: the compared values are read from the runtimes before and after the scrape"])}


def build(prop=None, tier="quick"):
    env = {"RUSTFLAGS": "--cfg tokio_unstable"}
    cargo("tokiox", TOOLCHAIN, ["build"], env, "tokiox-plain")
    t = cargo("tokiox", TOOLCHAIN, ["build", "--features", "net"], env, "tokiox")
    return os.path.join(t, "debug", "tokiox")
