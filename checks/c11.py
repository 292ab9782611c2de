"""C11: announced once, reported closed once (ConnMC.tla, ConnTrace.tla)."""
from lib import live

CFG = """SPECIFICATION Spec
CONSTANTS Writers = {%s} MaxEnv = %d Mistake = "%s" Record = %s
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""
INV = "OnceEach NewFirst OnlyWithCause"


def run(c):
    c.assumptions = ["a connection that was closed makes its Read, Write, GetReference and SetReference return",
                     "a stopped transport closes the connections it yielded (C13)"]
    c.model("ConnMC", CFG % ("1, 2", c.pick(5, 6), "none", "FALSE", INV, "PROPERTY Reported"), "two writers")
    for m, p, live_ in (("each", "OnceEach", ""), ("early", "NewFirst", ""), ("wasopen", "Reported", "PROPERTY Reported"),):
        c.model("ConnMC", CFG % ("1, 2", 5, m, "FALSE", p if not live_ else "OnceEach", live_), "mistake: " + m,
                expect_violation=p if not live_ else "Temporal propert")
    hs = c.generate("ConnMC", CFG % ("1, 2", 4, "none", "TRUE", INV + " Emit", ""), "ways to end", limit=c.pick(500, 8000))
    live.judge(c, "ConnTrace", [live.connection_of_model(c, h) for h in hs], "behaviours of the model")
    live.judge(c, "ConnTrace", live.connections(c, c.pick(600, 6000)), "many connections and transports")
    live.judge(c, "ConnTrace", live.connections(c, c.pick(80, 600)), "many connections and transports (race detector)", race=True)
