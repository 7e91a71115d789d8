"""What decides each property: proof units (proofs/), bounded and exhaustive stages (replay/, gencheck/)."""
R = "texts drawn from grammar derivations, lexical fragments and boundary values of this property, exhaustive enumeration of short texts first; distinct = different texts, each run through the whole parser and compared with the independent reference scanner and parser"
PLAN = {
 "C01": dict(level="proof", units=["scan", "driver", "tree", "dfa", "lrcheck", "ids", "tokens"], stages=["fuzz"], rule=R),
 "C02": dict(level="proof", units=["scan", "tree", "driver", "dfa", "ids", "tokens", "lrcheck"], stages=["fuzz"], rule=R),
 "C03": dict(level="proof", units=["scan", "dfa"], stages=["fuzz"], rule=R),
 "C04": dict(level="proof", units=["scan", "dfa"], stages=["fuzz"], rule=R),
 "C05": dict(level="proof", units=["scan", "dfa"], stages=["fuzz"], rule=R),
 "C06": dict(level="proof", units=["scan", "dfa"], stages=["fuzz"], rule=R),
 "C07": dict(level="proof", units=["scan", "dfa"], stages=["fuzz"], rule=R),
 "C08": dict(level="proof", units=["scan", "dfa"], stages=["fuzz"], rule=R),
 "C09": dict(level="proof", units=["scan", "dfa", "tokens"], stages=["tables", "fuzz"], rule=R + "; every keyword table entry"),
 "C10": dict(level="proof", units=["lexeq", "scan", "dfa"], stages=["gencheck", "outcomes:regexm"], rule="every reachable (automaton state, residual pattern list, byte) of every lexer state against derivatives of scan.l's patterns; texts run through both matcher builds", samples=["all lexer states, all bytes"]),
 "C11": dict(level="proof", units=["tokens"], stages=["fuzz"], rule=R),
 "C12": dict(level="proof", units=["driver", "lrcheck", "tree", "ids", "tokens"], stages=["tables", "fuzz"], rule=R + "; every table entry"),
 "C13": dict(level="proof", units=["lalr", "lrcheck", "ids"], stages=["tables", "fuzz"], rule=R + "; every (state, symbol) entry against an independent LALR(1) construction from gram.y"),
 "C14": dict(level="proof", units=["scan", "driver", "dfa", "ids", "tokens", "lrcheck"], stages=["fuzz"], rule=R),
 "C15": dict(level="proof", units=["tree", "driver", "lrcheck", "ids"], stages=["fuzz", "outcomes:full"], rule=R + "; texts run through both feature builds"),
 "C16": dict(level="proof", units=["ids", "idmap"], stages=["tables", "gencheck"], rule="random symbol lists with repetitions; every shipped symbol number"),
 "C17": dict(level="proof", units=["compress"], stages=["gencheck"], rule="random tables and tables of random grammars, every (state, symbol) looked up in the compressed form"),
 "C18": dict(level="proof", units=["lalr", "lalrgen"], stages=["gencheck+gram"], rule="random grammars with precedence declarations and gram.y: every table entry against an independent LALR(1) construction, and the tables through the verified checker of unit lalr; distinct = different grammars with more than one rule"),
 "C19": dict(level="proof", units=["bison"], stages=["gencheck+gram"], rule="random grammars spelled with comments, actions, declarations and line breaks, and gram.y; distinct = different files with more than one rule"),
 "C20": dict(level="proof", units=["nfa", "regex"], stages=["gencheck"], rule="random pattern lists with definitions: complete comparison of the built automaton with derivatives; distinct = different lists, trivial single-character ones left out"),
 "C21": dict(level="proof", units=["flexfile"], stages=["gencheck"], rule="random lexer specifications with definitions, states, scopes and actions, and scan.l: the lists read against the ones the text was spelled from; distinct = different files"),
 "C22": dict(level="proof", units=["lextab", "nfa", "regex"], stages=["gencheck"], rule="random lexer specifications with definitions, states, scopes and actions, and scan.l: the numbers of the generated tables against derivatives of the patterns, completely for every state; distinct = different files"),
}
for _p, _d in PLAN.items():
    if _d["level"] == "proof" and not _d["units"]: _d["level"] = "exploration"
