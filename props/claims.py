"""What is claimed, and how (MANIFEST.json is generated from this)."""
MODEL = "abstract interpretation (gated value graph) of the object model, normal form compared with a reference model"
BOUND = ("Sound for all values of the symbolic arguments (addresses, masks, names, numbers); the shapes of groups, queries and "
         "configurations are the listed ones, up to three levels or three elements. ")

TEXT = ("abstract interpretation of the generated parser, its actions and the constructors on abstract texts (literal words "
        "with symbolic slots), the configuration built compared with a reference construction")
TBOUND = ("Sound for all values of the slots within their lexical class (any name, any address, any number); the line forms, and "
          "the surrounding definitions, are the listed ones. ")

CLAIMS = {
    "C01": (MODEL, BOUND + "Every ordered pair of address kinds: an answer on every path, no exception, no endless recursion, "
            "the same answer both ways. Empty collections against any/interface are left out (no fixed meaning)."),
    "C02": (MODEL, BOUND + "ipaddress arithmetic is uninterpreted except for bit-level masks, containment and families."),
    "C03": (MODEL, BOUND + "fnmatch.fnmatchcase is trusted."),
    "C04": (MODEL, BOUND + "All combinations of specified and unspecified addresses of both sides."),
    "C05": (MODEL, BOUND + "Up to three criteria, three rules, NAT rules in all sections."),
    "C06": (TEXT + "; " + MODEL, BOUND + "Query texts with every sequence of up to four operators (five in the thorough tier) and "
            "every way of bracketing up to three, run over rules with symbolic addresses."),
    "C07": (TEXT + "; " + MODEL, TBOUND + "Every address form in every direction, pairs of alternatives, names, comments, run over "
            "rules with every kind of address. An empty criterion (no term at all) has no stated meaning and is left out."),
    "C08": (MODEL, BOUND + "Objects before and after every question compared, aliasing included."),
    "C09": (MODEL, BOUND + "Groups of all five kinds nested up to three levels."),
    "C10": (MODEL, BOUND + "Every slot of a rule or NAT rule with every kind of thing it can hold."),
    "C11": (TEXT, TBOUND + "Every combination of address form, port form, protocol and option of extended, standard, webtype "
            "and ethertype lines."),
    "C12": (TEXT, TBOUND + "Every member form of every object and group kind, with and without description."),
    "C13": (TEXT, TBOUND + "Auto and twice NAT, every combination of node kinds, sections and options; flags of a pat-pool "
            "(round-robin, extended, flat) have no place in the model and are left out."),
    "C14": (TEXT, TBOUND + "Named and numbered, standard, extended and IPv6 lists; all 33 prefix wildcards, all single bits and "
            "a selection of other wildcards. The ICMP type of an IPv6 entry is kept as an option, as the grammar says."),
    "C15": (TEXT, TBOUND + "Every detail of an interface alone and in ordered pairs, several interfaces, bindings of both dialects, "
            "static routes. VLANs of access ports, eui-64 addresses and routes that name no defined interface are ignored by the "
            "grammar and left out."),
    "C16": (TEXT, TBOUND + "Abstract XML documents: every form of address and of port at either end, flags alone and in ordered pairs, types, protocols, "
            "interfaces, floating rules, elements without meaning and unknown elements, orders of sections and of children. Left out: separators, time "
            "stamps, the system section, interfaces with IPv6 addresses or without a type, values of port that are no number."),
    "C17": (TEXT + "; the addresses opened are compared as effects", TBOUND + "Every kind of alias with up to 4 (thorough: 7) values, one to six aliases, every setting of the "
            "fetch option with tables of hosts, networks and lines that are neither. Left out: failing fetches, networks with host bits set."),
    "C18": (TEXT, TBOUND + "Every place a name can be referred to from, in both dialects, with every kind of definition of the same, "
            "a longer, a shorter or an otherwise similar name before or after it. Where one word can name things of two kinds "
            "(objects and groups in NAT statements, service and port groups), only one of the two is defined."),
    "C19": (TEXT, TBOUND + "Every token of 39 lines of rules, objects, members, NAT statements, bindings and time ranges of both dialects missing, "
            "doubled, swapped with the next, replaced by a word and preceded by a word, and every line cut off at every token, unless what "
            "is left is a form of its own; addresses, masks, prefixes and times outside their domain in every place; more than 200 forms and "
            "commands that do not exist; unknown words anywhere between good lines; the dialect that decides. Left out: the empty text (an empty ASA "
            "configuration), details of an interface other than its bindings, IOS routes, bare addresses in extended IOS entries (one host), names of "
            "protocols in a protocol group, what follows the line and end commands of IOS."),
    "C20": (TEXT, TBOUND + "Every port, ICMP type and protocol word (the documented ones, and any further word the grammar of the day lists) in "
            "every place one can stand, every ignored command of both dialects between two rules: alone, with words, with an indented block, "
            "twice, last; versions, host names, banners."),
    "C21": ("own reader of the grammar sources (includes and overrides applied) and own reader of the generated modules, both brought to one "
            "form and compared rule by rule; use analysis of the nodes the actions take", "Complete over all rules of the three grammars, "
            "settings and memoisation flags included, and all actions; a rule written in no generated form is undecided. That the names an action "
            "reads are produced on the same path is left to C11-C15."),
    "C22": (MODEL, BOUND + "Every kind of statement, all ordered pairs of kinds."),
    "C23": (TEXT + "; " + MODEL, "Complete for numbers without leading zeros: the classes the numbers range over partition all of them, in every "
            "place that takes a protocol, an ICMP type or code, or a port. Ranges of two numbers: listed pairs of classes (and, for the "
            "constructor alone, any two numbers)."),
    "C24": (MODEL, "Every container constructor and add method with one value of each of 48 kinds: a finite space, completely covered."),
    "C25": (MODEL, BOUND + "Service table: listed names with symbolic protocol, symbolic name with listed protocols."),
    "C26": ("effect analysis: every reference to an effectful name is a site, allowed by what refers to the enclosing function; " + TEXT +
            ", the effects on the way compared with those allowed", "Complete over all references by name in the library; methods of objects of other "
            "packages by their name (reading, writing, connecting). The TatSu runtime, the XML parser and the service database are trusted. The option "
            "that guards the fetch is decided on the documents of C16 and C17."),
    "C29": (MODEL, BOUND + "ipaddress.collapse_addresses is trusted to keep the set it is given; what is handed to it, what becomes "
            "of its result, and what is left out is decided. Sorting: groups of all kinds, with and without names and "
            "descriptions, members in every order."),
    "C31": (TEXT + "; " + MODEL + "; exceptions on any path of str() and repr()", BOUND + "Every configuration and query of C06, C07, C11-C17 and C25 "
            "and every object in it, every object that a constructor can build of each kind of value. What the text says is not decided, only "
            "that there is one."),
    "C32": (TEXT, TBOUND + "One configuration of each dialect with every kind of text in it and two queries, by every way of reading them. "
            "Decoding is modelled (UTF-8, utf-8-sig, ASCII, Latin-1). Blank lines inside blocks, blanks at the end of lines and "
            "tabs are left out."),
    "C33": (TEXT, TBOUND + "Pairs of configurations of the same and of different dialects, both orders, both accepted or the first rejected; each name the "
            "other defines referred to; pairs of queries. Longer histories are not run: nothing that outlives a reading was found to hold more than one."),
    "C34": (MODEL + "; " + TEXT, BOUND + "Pairs of hosts and networks with symbolic addresses; pairs and triples of numbers of different lengths for everything "
            "else; every group of C12 sorted in place and as a copy. The order of names that are no numbers is compared with the reference, too, but only as "
            "far as the keys are known. ICMP groups have no order (sort raises NotImplementedError)."),
}
NOT_APPLICABLE = {
    "C27": "The renderer is an example made of jinja2 templates outside the library; equality of text after a round trip is a "
           "runtime relation between two programs (templates and grammars) that no static argument in reach decides.",
    "C28": "Running time of the packrat parser depends on the TatSu runtime, its memoisation and Python's regular expressions; no "
           "sound static bound is in reach.",
}
