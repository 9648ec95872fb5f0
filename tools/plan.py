"""What a check explores for each property and tier."""
import time

ASSUMPTIONS = [
    "the harness records arguments and results of the public API faithfully",
    "TLC evaluates the specification correctly",
    "what pulldown-cmark reports is the CommonMark meaning of a text (C17, C18)",
]

IDS = ["C%02d" % i for i in range(1, 23)]
SESSIONS = {p: 2500 for p in IDS}
SESSIONS["C20"] = SESSIONS["C21"] = 1500
CHUNK = 2500


def scope(docs, rich=1, slices=-1, cuts=0, any=-1, inl=-1, texts=0, marks=0):
    return dict(DOCS=docs, RICH=rich, SLICES=slices, CUTS=cuts, ANY=any, INL=inl, TEXTS=texts, MARKS=marks)


# The scopes of the exhaustive runs: [tiny, medium, large]. Quick checks run the tiny scope
# completely and a part of the medium one, thorough checks the medium one completely and as much
# of the large one as time allows.
SCOPES = {
    "C01": [scope(3, 1, 1, 2), scope(4, 2, 2, 3), scope(5, 2, 2, 4)],
    "C02": [scope(4, 1, any=2), scope(5, 1, any=3), scope(6, 2, any=4)],
    "C03": [scope(4, 1), scope(5, 1), scope(6, 2)],
    "C04": [scope(3, 1, 2, 2), scope(4, 1, 3, 3), scope(5, 2, 3, 4)],
    "C05": [scope(3, 1, 1, 2), scope(4, 1, 2, 3), scope(5, 2, 3, 4)],
    "C06": [scope(3, 1, 1, 2), scope(4, 1, 2, 3), scope(5, 2, 3, 4)],
    "C07": [scope(3, 1, any=2), scope(5, 1, any=3), scope(6, 2, any=4)],
    "C08": [scope(1, marks=2), scope(1, marks=3), scope(1, marks=4)],
    "C09": [scope(3, 1, 1, 2), scope(4, 1, 1, 3), scope(6, 1, 2, 3)],
    "C10": [scope(3, 1, 1, 2), scope(4, 1, 2, 2), scope(6, 1, 2, 3)],
    "C11": [scope(1, 1, 1, any=1), scope(3, 1, 2, 2, any=3), scope(4, 1, 3, 3, any=3)],
    "C13": [scope(4, 1, 2, 2, any=2), scope(5, 2, 3, 3, any=3), scope(6, 2, 4, 4, any=4)],
    "C14": [scope(3, 1, any=1), scope(4, 1, any=2), scope(5, 2, any=3)],
    "C15": [scope(4, 1, any=2), scope(5, 1, any=3), scope(6, 2, any=4)],
    "C16": [scope(4, 1, any=2), scope(5, 1, any=3), scope(6, 2, any=3)],
    "C17": [scope(1, texts=3), scope(1, texts=4), scope(1, texts=5)],
    "C18": [scope(4, 1, inl=2), scope(6, 2, inl=3), scope(6, 2, inl=4)],
    "C19": [scope(3, 1, 2, 2), scope(4, 1, 3, 3), scope(5, 2, 3, 4)],
    "C20": [scope(3, 1, 0, 2, any=2), scope(4, 1, 1, 2, any=3), scope(5, 1, 2, 3, any=3)],
    "C21": [scope(2, 1, 1, 1), scope(3, 1, 1, 2), scope(4, 1, 1, 2), scope(5, 1, 1, 3)],
    "C22": [scope(4, 1, any=2, inl=2), scope(5, 2, any=3, inl=3), scope(6, 2, any=4, inl=4)],
}
TINY, PART, BIG = 20000, 15000, 40000


def law(size, slices=1, cuts=3, rich=1):
    return ("Editor", "the law of this property on every document the operations of the editor can reach",
            dict(START="laws", MAX=size, RICH=rich, SLICES=slices, CUTS=cuts))


def reach(size):
    return ("Editor", "every valid document is reached from the empty one by steps, and nothing else is",
            dict(START="empty", MAX=size, RICH=1, SLICES=1, CUTS=2))


def collab(size, versions, reps):
    return ("Collab", "all interleavings of steps and deliveries: the replicas agree, and catch up",
            dict(MAX=size, VERSIONS=versions, REPS=reps, DEPTH=0, RANDOM="no"))


def marks():
    return ("Marks", "sets of marks", dict())


def content(n):
    return ("Content", "the content automaton against the content expressions", dict(MAX=n))


def wire(size, rich):
    return ("Wire", "what is written as JSON is read back", dict(MAX=size, RICH=rich))


def reader(n):
    return ("Reader", "every sequence of Markdown events gives a valid document or an error", dict(MAX=n))


def writer(size, inline):
    return ("Writer", "every document is what its Markdown events mean", dict(MAX=size, CUTS=inline))


# The models of the specification itself: [quick], [thorough]
LAWS = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C15", "C16", "C19")
MODELS = {p: ([law(5)], [law(5), law(6, 2, 4)]) for p in LAWS}
MODELS["C05"] = ([law(5), reach(4)], [law(5), law(6, 2, 4), reach(5)])
MODELS["C08"] = ([marks()], [marks()])
MODELS["C12"] = ([collab(4, 2, 2)], [collab(4, 2, 2), collab(3, 3, 2), collab(3, 2, 3)])
MODELS["C13"] = ([wire(5, 1)], [wire(6, 2)])
MODELS["C14"] = ([content(3)], [content(4)])
MODELS["C21"] = ([law(4, 1, 1)], [law(4, 1, 3), law(5, 1, 2)])
MODELS["C17"] = ([reader(6)], [reader(8)])
MODELS["C18"] = ([writer(4, 2)], [writer(6, 3), writer(6, 4)])

# Properties whose calls are made on the histories that the specification makes up
REPLAYED = ("C04", "C05", "C06", "C07", "C09", "C10", "C12", "C13", "C19")


def run(c):
    scopes = SCOPES.get(c.prop, [])
    quick = c.tier == "quick"
    c.recorded(c.seed, SESSIONS[c.prop])
    if quick:
        if scopes:
            c.small(scopes[0], c.seed, TINY)
            c.small(scopes[1], c.seed, PART)
        if c.prop in REPLAYED:
            c.replayed(c.seed, 160 if c.prop == "C12" else 80)
        models(c, 0)
        return
    end = time.time() + 300
    for s in scopes:
        i = 0
        parts = 1
        while i < parts and time.time() < end:
            parts = c.small(s, i, BIG)
            i += 1
    end = max(end, time.time()) + 300
    i = 0
    while time.time() < end:
        c.recorded(c.seed * 1000 + i, CHUNK)
        if c.prop in REPLAYED:
            c.replayed(c.seed * 1000 + i, 400)
        i += 1
    models(c, 1)


def models(c, tier):
    for module, what, constants in MODELS.get(c.prop, ([], []))[tier]:
        if module == "Editor":
            constants = dict(constants, PROP=c.prop)
        c.model(module, what, **constants)
