"""Base class of the properties."""


class Prop:
    id = "?"
    level = "exploration"
    runs = {"quick": 400, "thorough": 8000}
    rule = ""
    measure = "CRC of the sequence (caller, action, source location) of every preemption, fault and observation that fired, per catalogue entry"
    real = ("the whole cheme_calculations package from /repo's working tree (unmodified bytecode)",
            "copy, pickle, fractions, numpy")
    simulated = ("thread scheduler", "clock and sleep", "locks", "object addresses seen by id()",
                 "garbage-collection timing", "string-hash seed")
    assumptions = ()

    def setup(self, ctx):
        pass

    def generate(self, ctx, rng, index):
        raise NotImplementedError

    def execute(self, ctx, plan):
        raise NotImplementedError

    def shrinkable(self, plan):
        out = []
        if plan.get("stops"):
            out.append(("stops",))
        for i in range(len(plan.get("threads", ()))):
            if plan["threads"][i]:
                out.append(("threads", i))
        return out
