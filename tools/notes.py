SKIP = set()
DEFAULT_NOTE = ("Seeded exploration: held on every simulated run; nothing is claimed for runs not drawn. Trusts "
                "the simulator's stand-ins for sockets, clock, DNS, processes and files (DESIGN.md).")
TECHNIQUE = {}
LEVEL_NOTE = {}
PURE = "no schedule, clock, I/O or fault can influence it, so simulation decides nothing here: "
NA = {
    "P30": PURE + "a pure function from a rule's text to a matcher; it needs input search against a Perl reference",
    "P31": PURE + "a pure function of the message bytes; it needs input search against a reference parser",
    "P32": PURE + "a pure function of the meta expression and the matched rules",
    "P33": "the serializer is experimental and its dill-based format cannot be produced on this interpreter (PyPy 3.9); no run exists to simulate",
}
