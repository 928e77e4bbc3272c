"""What each check does: specification modules to check, behaviours to generate, driver options."""

def cfg(consts, body):
    return "CONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in consts.items()) + body + "\nCHECK_DEADLOCK FALSE\n"

def lexicons(syms, maxlen, vals, probelen, workers=2):
    return ("vectors", dict(module="GenLexicons", workers=workers, cfg=cfg(
        dict(Syms=syms, MaxLen=maxlen, Vals=vals, ProbeLen=probelen, Emit="TRUE"),
        "INIT Init\nNEXT Next\nINVARIANT SpecOK\nCONSTRAINT EmitVector")))

LEX_Q = [lexicons(2, 2, "{0, 1}", 3), lexicons(3, 2, "{0}", 2), lexicons(1, 5, "{0, 1, 2}", 3)]
LEX_T = LEX_Q + [lexicons(2, 3, "{0}", 4, 4), lexicons(2, 2, "{0, 1, 2}", 3, 4)]

def histories(depth):
    return ("histories", dict(module="GenHistories", cfg=cfg(dict(Depth=depth, Emit="TRUE"),
            "INIT Init\nNEXT Next\nINVARIANT HistOK\nCONSTRAINT EmitHistory")))

def systems(depth, builders, autos):
    return ("systems", dict(module="GenSystem", workers=4, cfg=cfg(dict(Depth=depth, Builders=builders, Autos=autos, Emit="TRUE"),
            "SPECIFICATION GSpec\nINVARIANT SysOK\nPROPERTY Frozen\nCONSTRAINT EmitSys")))

def utfc(every, workers=4):
    return ("utfc", dict(module="GenUtfc", workers=workers, cfg=cfg(dict(Emit="TRUE", Every=every),
            "INIT Init\nNEXT Next\nVIEW View\nINVARIANT AllCharsOK EmitState")))

def utf(**kw):
    d = dict(gen=[utfc(5)], gen_thorough=[utfc(1)], rule=("a case is one state of the encoder (all 8650 that TLC finds, each with the characters at "
             "every edge of the scheme), one state with all 1112064 characters, or a random text; distinct by state or text"))
    d.update(kw)
    return d

def store(parts, body, faults, workers=2):
    return ("store", dict(module="GenStore", workers=workers, cfg=cfg(
        dict(HeadLen=4, Body=body, Parts=parts, Faults=faults, Emit="TRUE"),
        "SPECIFICATION StoreSpec\nINVARIANT Exact EmitStore\nPROPERTY AtOnce Ends")))

LEX_RULE = ("a case is one lexicon built with the real library (or one history of calls); all lexicons of the small universes printed by "
            "TLC, and random ones of eleven shapes from a few keys to over two million units; distinct by keys and values, non-trivial: two keys or more")

def core(**kw):
    d = dict(gen=LEX_Q, gen_thorough=LEX_T, rule=LEX_RULE)
    d.update(kw)
    return d

def cursors(depth, workers=4):
    return ("cursors", dict(module="GenCursors", workers=workers, cfg=cfg(dict(Depth=depth, Emit="TRUE"),
            "SPECIFICATION GSpec\nINVARIANT Complete EmitCursors\nPROPERTY Apart Shared")))

STORE_RULE = ("a case is one way a stream is delivered and gives out (all those of the specification's small streams, TLC), or one "
              "lexicon with its five parts saved, cut and loaded; distinct by behaviour or lexicon")

def toolvec(lines, workers=4):
    return ("tool-vec", dict(module="GenTool", workers=workers, cfg=cfg(dict(MaxLines=lines, Emit="TRUE"),
            "INIT GInit\nNEXT GNext\nINVARIANT ToolOK EmitTool")))

NOTE = ("Exhaustive over the small universes TLC enumerates (every lexicon, history or string there is replayed into the code), "
        "randomised beyond them; every alarm and a sample of the quiet observations are judged by TLC against the specification. "
        "Trusts TLC, the Go driver's recording, and for observations it does not pass on, the driver's mirror of the specification, "
        "which is itself compared with TLC's answers on every enumerated lexicon.")

# How the code does it, as models in a small geometry (checked, not replayed: see DESIGN.md)
def mbuilder(depth, size=1, collide="TRUE", vals="{0, 1}", workers=2):
    return dict(module="Builder", workers=workers, cfg=cfg(dict(Syms=2, MaxLen=2, Vals=vals, TableSize=size, Collide=collide, Depth=depth),
                "INIT Init\nNEXT Next\nINVARIANT AlwaysDecided Faithful Roomy\nPROPERTY RefusalsSilent"),
                what="the builder: merging by hash chains that collide, table growth, unit recycling; every history of insertions")
def marray(keys, vals, open_, offbits, workers=2):
    return dict(module="DoubleArray", workers=workers, cfg=cfg(dict(Syms=3, MaxLen=2, MaxKeys=keys, Vals=vals, LabelBits=2, Open=open_, OffsetBits=offbits),
                "INIT Init\nNEXT Next\nINVARIANT CircleOK Exact CountedUnused NoNull FailsOnlyFull"),
                what="the double array: placement, closing of blocks, extended offsets with blocks of four units; every lexicon")
def mcursor(keys, vals, starts, maxlen=2, workers=2):
    return dict(module="Cursors", workers=workers, cfg=cfg(dict(Syms=2, MaxLen=maxlen, MaxKeys=keys, Vals=vals, Starts=starts),
                "SPECIFICATION CSpec\nINVARIANT Agrees PlainOK RankedOK\nPROPERTY Unharmed"),
                what="the two completers as machines beside the cursor of DawgSystem; every lexicon, position and restart")
def mnumber(keys, vals, maxlen=2, workers=2):
    return dict(module="Numbering", workers=workers, cfg=cfg(dict(Syms=2, MaxLen=maxlen, MaxKeys=keys, Vals=vals),
                "SPECIFICATION Spec\nINVARIANT MeetsAll Counted Ranks Numbered\nPROPERTY Finishes"),
                what="counting and numbering with both kinds of guide; every lexicon, string and number")
def arrays(keys):
    return ("arrays", dict(module="GenArray", workers=2, cfg=cfg(dict(Syms=2, MaxLen=2, MaxKeys=keys, Vals="{0, 1}", LabelBits=8, Open=16, OffsetBits=21, Emit="TRUE"),
            "INIT Init\nNEXT Next\nINVARIANT EmitArray Exact")))

def parts(name, lexs, dicts, guides, curs, workers=2):
    return (name, dict(module="GenParts", workers=workers, cfg=cfg(dict(Lexs=lexs, Dicts=dicts, Guides=guides, Depth=99, Curs=curs, Emit="TRUE"),
            "SPECIFICATION GSpec\nVIEW View\nINVARIANT PartsOK\nPROPERTY Alone")))

PLAN = {
    "C01": core(mc=[marray(3, "{0}", 2, 3)], mc_thorough=[marray(5, "{0, 1}", 2, 2, 4), mbuilder(6, workers=4)]),
    "C02": core(mc=[marray(3, "{0}", 1, 3)], mc_thorough=[marray(13, "{0}", 1, 3, 4), marray(5, "{0, 1}", 1, 2, 4)]),
    "C03": dict(mc=[mbuilder(4)], mc_thorough=[mbuilder(6, workers=4)], gen=[histories(3)], gen_thorough=[histories(4)], rule="a case is one history of insertions; distinct by accepted listing and length, non-trivial: some insertion was refused or repeated"),
    "C04": dict(gen=[systems(5, "{1}", "{1, 2}")], gen_thorough=[systems(6, "{1}", "{1, 2}")],
                rule="a case is one history of builders, automata and dictionaries; distinct by history"),
    "C05": core(mc=[mbuilder(5)], mc_thorough=[mbuilder(6, workers=4), mbuilder(6, 4, "FALSE", workers=4)]),
    "C06": core(mc=[mcursor(3, "{0, 1}", 2)], mc_thorough=[mcursor(4, "{0, 1}", 3, workers=4), mcursor(7, "{0}", 2, workers=4)]),
    "C07": core(mc=[mcursor(3, "{0, 1}", 2)], mc_thorough=[mcursor(4, "{0, 1, 2}", 2, workers=4), mcursor(7, "{0, 1}", 1, workers=4)]),
    "C08": core(mc=[mnumber(4, "{0, 1}")], mc_thorough=[mnumber(7, "{0, 1}", workers=4), mnumber(4, "{0}", 3, 4)]),
    "C09": core(mc=[mnumber(3, "{0, 1, 2}")], mc_thorough=[mnumber(5, "{0, 1, 2}", workers=4), mnumber(3, "{0, 1}", 3, 4)]),
    "C10": dict(gen=[store(2, 2, '{"eof"}')], gen_thorough=[store(2, 3, '{"eof", "with"}', 4)], rule=STORE_RULE),
    "C11": dict(gen=[store(1, 4, '{"eof", "error", "with"}')], gen_thorough=[store(2, 2, '{"eof", "error", "with"}', 4)], rule=STORE_RULE),
    "C12": core(gen=LEX_Q + [arrays(3)], gen_thorough=LEX_T + [arrays(7)], mc=[marray(3, "{0}", 2, 2)], mc_thorough=[marray(13, "{0}", 1, 2, 4)]),
    "C13": utf(),
    "C14": utf(),
    "C15": utf(),
    "C16": utf(),
    "C17": dict(gen=[cursors(6)], gen_thorough=[cursors(7)], race=True,
                rule="a case is one interleaving of calls (all of two cursors up to six calls, TLC; random ones of all kinds of readers) or one lexicon read by six goroutines under the race detector; distinct by interleaving or lexicon"),
    "C18": dict(gen=[toolvec(3)], tool=True,
                rule="a case is one lexicon file with a combination of options, built and queried by the real program (those of up to three lines printed by TLC, random ones, unreadable or unwritable files, large ones); distinct by lines and options, non-trivial: two lines or more"),
    "C20": dict(tool=True, gen=[toolvec(2)], gen_thorough=[toolvec(3)], mc=[marray(3, "{0}", 2, 3)],
                rule="a case is one lexicon file built by the real program with several choices of parts, its files taken apart and its report compared; distinct by lines and options, non-trivial: two lines or more"),
    "C19": dict(mc=[marray(3, "{0}", 1, 2)], mc_thorough=[marray(13, "{0}", 1, 2, 4), marray(13, "{0}", 2, 3, 4)], gen=[lexicons(2, 2, "{0, 1}", 3)],
                rule="a case is one lexicon sized around a limit: table growth, blocks kept open, two million units, 255 children, long keys, shared endings; distinct by keys and values"),
    "C21": dict(gen=[parts("parts", 2, 2, 2, "FALSE"), parts("partsc", 2, 1, 1, "TRUE")], gen_thorough=[parts("parts", 2, 2, 2, "FALSE"), parts("partsc", 2, 2, 1, "TRUE"), parts("parts3", 3, 1, 1, "FALSE", 4)],
                rule="a case is one history of calls on automata, dictionaries, guides, indices and files, all looked at again and again (one for each transition of the specification's state graph, TLC, and random walks); distinct by history"),
}
