"""What decides each property: model runs, behaviour generators, driver, trace specification."""
PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


# ------------------------------------------------------------------ HDLC
STREAM_GEN = dict(module="MC_HdlcStream", cfg="MC_HdlcStream.gen.cfg",
                  extra={"quick": ["-simulate", "num=150", "-seed", "@SEED"], "thorough": ["-simulate", "num=3000", "-seed", "@SEED"]})
prop("P01", driver="hdlc:stream", trace=("T_HdlcStream", "S0", "JudgeStream"),
     mc=[dict(module="MC_HdlcStream", cfg={"quick": "MC_HdlcStream.cfg", "thorough": "MC_HdlcStream.thorough.cfg"})],
     gen=[STREAM_GEN])

prop("P02", driver="hdlc:frames", trace=("T_Hdlc", "S0", "JudgeFrame"),
     mc=[dict(module="MC_HdlcStream", cfg={"quick": "MC_HdlcStream.cfg", "thorough": "MC_HdlcStream.thorough.cfg"})])
prop("P03", driver="hdlc:damage", trace=("T_Hdlc", "S0", "JudgeDamage"),
     mc=[dict(module="MC_Crc", cfg={"quick": "MC_Crc.cfg", "thorough": "MC_Crc.thorough.cfg"})])
prop("P04", driver="hdlc:addresses", trace=("T_Hdlc", "S0", "JudgeAddr"),
     mc=[dict(module="MC_Addr", cfg={"quick": "MC_Addr.cfg", "thorough": "MC_Addr.thorough.cfg"})])
prop("P05", driver="hdlc:control", trace=("T_Hdlc", "S0", "JudgeCtl"),
     mc=[dict(module="HdlcLink", cfg="HdlcLink.cfg")],
     gen=[dict(module="HdlcLink", cfg="HdlcLink.gen.cfg",
               extra={"quick": ["-simulate", "num=200", "-seed", "@SEED"], "thorough": ["-simulate", "num=4000", "-seed", "@SEED"]})])
prop("P06", driver="hdlc:segments", trace=("T_Hdlc", "S0", "JudgeJoin"),
     mc=[dict(module="MC_HdlcSegments", cfg={"quick": "MC_HdlcSegments.cfg", "thorough": "MC_HdlcSegments.thorough.cfg"})],
     gen=[dict(module="MC_HdlcSegments", cfg="MC_HdlcSegments.gen.cfg",
               extra={"quick": ["-simulate", "num=200", "-seed", "@SEED"], "thorough": ["-simulate", "num=4000", "-seed", "@SEED"]})])
prop("P07", driver="link:negotiation", trace=("T_Link", "Sn0", "JudgeNeg"),
     mc=[dict(module="MC_Negotiation", cfg={"quick": "MC_Negotiation.cfg", "thorough": "MC_Negotiation.thorough.cfg"}),
         dict(module="MC_Negotiation", cfg="MC_Negotiation.all.cfg", nocov=True)],
     gen=[dict(module="MC_Negotiation", cfg="MC_Negotiation.gen.cfg",
               extra={"quick": ["-simulate", "num=300", "-seed", "@SEED"], "thorough": ["-simulate", "num=6000", "-seed", "@SEED"]})])
prop("P08", driver="link:llc", trace=("T_Link", "Sn0", "JudgeLlc"),
     mc=[dict(module="MC_Llc", cfg={"quick": "MC_Llc.cfg", "thorough": "MC_Llc.thorough.cfg"})])

# ------------------------------------------------------------------ data types
AXDR_MC = [dict(module="MC_Axdr", cfg={"quick": "MC_Axdr.cfg", "thorough": "MC_Axdr.thorough.cfg"}),
           dict(module="MC_Axdr", cfg="MC_Axdr.deep.cfg")]
AXDR_FEED = [dict(module="MC_Axdr", cfg={"quick": "MC_Axdr.feed.cfg", "thorough": "MC_Axdr.feed.thorough.cfg"}, nocov=True)]
AXDR_GEN = [dict(module="MC_Axdr", cfg="MC_Axdr.gen.cfg",
                 extra={"quick": ["-simulate", "num=8", "-depth", "20", "-seed", "@SEED"], "thorough": ["-simulate", "num=60", "-depth", "25", "-seed", "@SEED"]})]
prop("P09", driver="codec:lengths", trace=("T_Codec", "Sc0", "JudgeLen"), mc=AXDR_FEED)
prop("P11", driver="codec:pdu", trace=("T_Codec", "Sc0", "JudgeCodec"), mc=AXDR_MC, gen=AXDR_GEN)
prop("P12", driver="codec:cdt", trace=("T_Codec", "Sc0", "JudgeCodec"), mc=AXDR_MC, gen=AXDR_GEN)
prop("P13", driver="codec:malformed", trace=("T_Codec", "Sc0", "JudgeCodec"), mc=AXDR_FEED, gen=AXDR_GEN)
prop("P23", driver="codec:ut", trace=("T_Codec", "Sc0", "JudgeCodec"), mc=AXDR_MC, gen=AXDR_GEN)
prop("P10", driver="buf", trace=("T_ByteBuf", "EmptyHeap", "JudgeBuf"),
     mc=[dict(module="MC_ByteBuf", cfg={"quick": "MC_ByteBuf.cfg", "thorough": "MC_ByteBuf.thorough.cfg"})],
     gen=[dict(module="MC_ByteBuf", cfg="MC_ByteBuf.gen.cfg",
               extra={"quick": ["-simulate", "num=20", "-depth", "30", "-seed", "@SEED"], "thorough": ["-simulate", "num=200", "-depth", "30", "-seed", "@SEED"]})])
prop("P14", driver="num:numbers", trace=("T_Num", "NoCell", "JudgeNum"),
     mc=[dict(module="MC_Num", cfg={"quick": "MC_Num.cfg", "thorough": "MC_Num.thorough.cfg"})])
SIM = lambda n, d=20: {"quick": ["-simulate", f"num={n}", "-depth", str(d), "-seed", "@SEED"], "thorough": ["-simulate", f"num={n * 15}", "-depth", str(d), "-seed", "@SEED"]}
CELLS_MC = [dict(module="MC_Cells", cfg={"quick": "MC_Cells.cfg", "thorough": "MC_Cells.thorough.cfg"})]
prop("P15", driver="cells:simple", trace=("T_Cells", "NoCell", "JudgeSimple"), mc=CELLS_MC)
prop("P16", driver="cells:containers", trace=("T_Cells", "NoCell", "JudgeContainer"), mc=CELLS_MC,
     gen=[dict(module="MC_Cells", cfg="MC_Cells.gen.cfg", extra=SIM(30))])
prop("P17", driver="cells:bits", trace=("T_Bits", "Nothing", "JudgeBits"),
     mc=[dict(module="MC_BitCell", cfg={"quick": "MC_BitCell.cfg", "thorough": "MC_BitCell.thorough.cfg"})],
     gen=[dict(module="MC_BitCell", cfg="MC_BitCell.gen.cfg", extra=SIM(30))])

# ------------------------------------------------------------------ dates, texts, floats, names
prop("P18", driver="dates:cells", trace=("T_Dates", "NoDate", "JudgeDate"),
     mc=[dict(module="MC_Dates", cfg={"quick": "MC_Dates.cfg", "thorough": "MC_Dates.thorough.cfg"})])
prop("P19", driver="dates:nearest", trace=("T_Dates", "NoDate", "JudgeNear"),
     mc=[dict(module="MC_Calendar", cfg={"quick": "MC_Calendar.cfg", "thorough": "MC_Calendar.thorough.cfg"})])
prop("P20", driver="texts", trace=("T_Texts", "NoType", "JudgeTexts"),
     mc=[dict(module="MC_Texts", cfg={"quick": "MC_Texts.cfg", "thorough": "MC_Texts.thorough.cfg"})])
prop("P21", driver="floats", trace=("T_Floats", "Nothing", "JudgeFloat"),
     mc=[dict(module="MC_Ieee", cfg={"quick": "MC_Ieee.cfg", "thorough": "MC_Ieee.thorough.cfg"})])
NAMES_MC = dict(module="MC_Names", cfg={"quick": "MC_Names.cfg", "thorough": "MC_Names.thorough.cfg"})
prop("P22", driver="names:names", trace=("T_Names", "Nothing", "JudgeName"), mc=[NAMES_MC])
prop("P24", driver="names:service", trace=("T_Names", "Nothing", "JudgeService"), mc=[NAMES_MC])

# ------------------------------------------------------------------ interface objects
MC = lambda m: dict(module=m, cfg={"quick": f"{m}.cfg", "thorough": f"{m}.thorough.cfg"})
GEN = lambda m, n, d=20: dict(module=m, cfg=f"{m}.gen.cfg", extra=SIM(n, d))
prop("P25", driver="tariff", trace=("T_Tariff", "Nothing", "JudgeTariff"), mc=[MC("MC_Tariff")], gen=[GEN("MC_Tariff", 8, 100)])
prop("P26", driver="objects:image", trace=("T_Image", "Idle", "JudgeImage"), mc=[MC("MC_Image")], gen=[GEN("MC_Image", 60, 40)])
prop("P27", driver="objects:hdlcsetup", trace=("T_HdlcSetup", "Fresh", "JudgeSetup"), mc=[MC("MC_HdlcSetup")])
prop("P28", driver="collection:histories", trace=("T_Collection", "NoCollection", "JudgeCollection"), mc=[MC("MC_Collection")], gen=[GEN("MC_Collection", 40, 14)])
prop("P29", driver="collection:classes", trace=("T_Collection", "NoCollection", "JudgeObis"), mc=[dict(MC("MC_Obis"), nocov=True)])
prop("P30", driver="access:rights", trace=("T_Access", "NoAcc", "JudgeAccess"), mc=[dict(MC("MC_Access"), nocov=True)], gen=[GEN("MC_Access", 40, 14)])
prop("P31", driver="views:views", trace=("T_Views", "NoObjs", "JudgeViews"), mc=[MC("MC_Views")])
prop("P32", driver="typed:typed", trace=("T_Typed", "NoObj", "JudgeTyped"), mc=[dict(MC("MC_Typed"), nocov=True, workers="8")], gen=[GEN("MC_Typed", 20, 12)])
prop("P33", driver="keyed:keyed", trace=("T_Keyed", "NoTables", "JudgeKeyed"), mc=[dict(MC("MC_Keyed"), workers="8")], gen=[GEN("MC_Keyed", 15, 16)])
prop("P36", driver="library:library", trace=("T_Library", "NoLibrary", "JudgeLibrary"), mc=[dict(MC("MC_Library"), nocov=True, workers="8")], gen=[GEN("MC_Library", 6, 10)])
prop("P35", driver="versions:versions", trace=("T_Versions", "NoVersions", "JudgeVersions"), mc=[MC("MC_Versions")])
prop("P34", driver="parts:parts", trace=("T_Parts", "NoParts", "JudgeParts"), mc=[MC("MC_Parts")])
prop("P37", driver="library:params", trace=("T_Params", "NoMeter", "JudgeParams"), mc=[dict(MC("MC_Params"), nocov=True, workers="8")], gen=[GEN("MC_Params", 6, 8)])
prop("P38", driver="library:template", trace=("T_Template", "NoMeters", "JudgeTemplate"), mc=[dict(MC("MC_Template"), nocov=True, workers="8")], gen=[GEN("MC_Template", 5, 7)])
prop("P39", driver="linked:linked", trace=("T_Linked", "Start", "JudgeLinked"), mc=[MC("MC_Linked")], gen=[GEN("MC_Linked", 60, 8)])
prop("P40", driver="readouts:readouts", trace=("T_Readouts", "Start", "JudgeReadouts"), mc=[MC("MC_Readouts")], gen=[GEN("MC_Readouts", 20, 8), GEN("MC_Typed", 1, 2)])
prop("P41", driver="reached:reached", trace=("T_Reached", "Nobody", "JudgeReached"), mc=[dict(MC("MC_Reached"), workers="8")], gen=[GEN("MC_Reached", 30, 12), GEN("MC_Typed", 1, 2)])
prop("P42", driver="typing:typing", trace=("T_Typing", "Nothing", "JudgeTyping"), mc=[MC("MC_Typing")], gen=[GEN("MC_Typing", 250, 14)])
