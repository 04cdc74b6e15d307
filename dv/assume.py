"""What each property's check takes for granted (written to the evidence)."""

BYPATH = ("the contract is stated on a family of source templates and "
          "discharged path by path; that every statement of the language "
          "decomposes into those templates is the induction argument of "
          "DESIGN.md, not a machine-checked step")
HYP = ("compound sub-expressions and statements enter through their "
       "contract (uninterpreted effect over the slots they read/write): "
       "structural induction over the source")
DIV0 = "division by zero is unspecified (uninterpreted in the semantics)"
FRAG = ("excluded as unspecified by the documentation: a call changing a "
        "variable read elsewhere in the same expression, recursion, reads "
        "of uninitialised variables")
ENUM = ("shapes (list lengths, keys, option combinations, layouts) are "
        "enumerated completely up to the stated size; larger ones are only "
        "in the bounded stand-in")
ENT = ("small universe: two or three arbitrary entities (symbolic tags, "
       "scores, positions) plus those summoned; entities beyond those the "
       "variables denote behave like one of them; nothing else stands at "
       "the summon position; at least one player exists")
FS = "the file system behaves (no I/O failure while writing)"

ASSUME = {
    "C01": [HYP, DIV0, FRAG],
    "C02": ["Python integers are mathematical integers",
            "int.__add__/__sub__/__mul__ in the folding table are replaced "
            "by the equivalent operator.* (same function on int)"],
    "C03": [HYP, FRAG],
    "C04": [HYP, "for loops over 0..3 items; the body is arbitrary",
            "loop termination is the program's business: partial "
            "correctness plus the loop equation"],
    "C05": [HYP, BYPATH],
    "C06": [HYP, FRAG, "up to 4 parameters (vc_handler), 3 (others)"],
    "C07": ["/function meanings: the old and the new equation system have "
            "the same solutions (least fixed point argument of DESIGN.md)",
            "raw commands may read and write any score"],
    "C08": [BYPATH, "determinism is checked across processes with "
            "different hash seeds (bounded)"],
    "C09": ["all operands are parsed through one atom production, so a "
            "variable stands for every operand (structural induction)",
            "at most 4 operands / one layout element at a time; more in "
            "the bounded stand-in"],
    "C10": [ENUM, "no symbolic strings: the tokenizer is decided by "
            "enumeration of its finite tables"],
    "C11": ["the error table lists every documented kind except I/O, "
            "non-runtime kinds of binary modules", "sources beyond the "
            "table only in the bounded stand-in (mutated corpus)", FS],
    "C12": [ENUM, "line breaks inside command strings are excluded"],
    "C13": [HYP, "up to three modules beside the main file", FS],
    "C14": [ENUM, HYP],
    "C15": [ENUM, "elements are symbolic integers; indices and keys "
            "concrete"],
    "C16": [ENUM, "aliasing of a passed variable and of a list changed "
            "while it is iterated are excluded; non-terminating bodies "
            "excluded"],
    "C17": [ENT, HYP], "C18": [ENT, HYP], "C19": [ENT, HYP],
    "C20": ["the game runs the function named in tick.json once per tick, "
            "after main has run once", HYP],
    "C21": [DIV0, "pow: the exponent monoid argument (x^y as y factors) "
            "is used instead of non-linear arithmetic"],
    "C22": ["the client shows rawtext/translate components as the Bedrock "
            "documentation says (dv/mc.py)"],
    "C23": [FS, "the CLI runs in-process in a scratch directory; removals "
            "outside it are refused by a guard that records them"],
    "C24": [ENUM, "Bedrock semantics of ~, ^, execute chains as in "
            "dv/wenv.py; float sums compared after rounding to 1e-10"],
}
