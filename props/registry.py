from . import closed, effects, grammar, ifaces, ios, keywords, model, numbers, pfsense, printing, query, reading, refs, sorting, text, times

EXPL = ("Abstract interpretation of the current source of /repo. Every obligation is an entry point applied to abstract "
        "arguments (symbolic addresses, names, numbers): the value, exception, mutated objects and effects computed by the "
        "code are brought to a normal form (gated values, joined at every merge, no path is enumerated and nothing of /repo "
        "is executed) and compared with the normal form of the reference model in /verif/spec. A difference that no unknown "
        "can explain is a violation. ")

PROPS = {
    "C01": (model.c01, 900), "C02": (model.c02, 600), "C03": (model.c03, 150), "C04": (model.c04, 400),
    "C05": (model.c05, 40), "C08": (model.c08, 600), "C09": (model.c09, 40), "C10": (model.c10, 100),
    "C22": (model.c22, 300), "C24": (model.c24, 1200), "C29": (model.c29, 20),
    "C11": (text.c11, 500), "C13": (text.c13, 200), "C12": (text.c12, 300),
    "C14": (ios.c14, 700),
    "C15": (ifaces.c15, 300),
    "C23": (numbers.c23, 1000),
    "C16": (pfsense.c16, 300), "C17": (pfsense.c17, 300), "C21": (grammar.c21, 300), "C26": (effects.c26, 700),
    "C19": (closed.c19, 500),
    "C20": (keywords.c20, 2000),
    "C18": (refs.c18, 700),
    "C34": (sorting.c34, 300), "C33": (reading.c33, 40), "C32": (reading.c32, 100), "C31": (printing.c31, 1000), "C07": (query.c07, 300), "C06": (query.c06, 200), "C25": (times.c25, 500),
}


def run(prop, tier, only=None, jobs=None):
    from sa import run as r
    gen, floor = PROPS[prop]
    return r.check(prop, list(gen(tier)), tier, EXPL, floor=floor, only=only, jobs=jobs)
