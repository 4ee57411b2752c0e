"""Which models and which replays decide which property."""
LEX_INV = ["Tiling", "Deterministic", "PositionsMonotone", "Emit"]


def lex(run, mode, maxlen=2, count=1000):
    return run.tlc("LexTexts", "LexSpec", {"Mode": mode, "MaxLen": maxlen, "Count": count, "Seed": run.seed}, LEX_INV,
                   name="lex-%s-%d" % (mode, maxlen))


def lex_texts(run, words=True):
    run.replay("lex", lex(run, "ascii"))
    run.replay("lex", lex(run, "core", 3))
    if words:
        run.replay("lex", lex(run, "words"))
    run.replay("lex", lex(run, "rnd", 1, run.pick(2500, 30000)))
    run.replay("lex", lex(run, "long", 1, run.pick(10, 100)))
    run.replay("lex", lex(run, "size", 1, run.pick(0, 1)))
    run.replay("lex", lex(run, "focus", run.pick(5, 7)))
    if run.thorough():
        run.replay("lex", lex(run, "all", 3))
        run.replay("lex", lex(run, "core", 4))


def handles(run):
    def histories(mode, count, readers, ops, pieces):
        run.replay("handles", run.tlc("Handles", "HSpec", {"Mode": mode, "MaxLen": 0, "Count": count, "Seed": run.seed, "MaxHandles": readers, "MaxOps": ops, "MaxPieces": pieces},
                                      ["Tiling", "Deterministic", "PositionsMonotone", "Independent", "OnlyKept", "Monotone", "HEmit"], name="handles-" + mode))
    histories("all", 0, 3, run.pick(5, 6), run.pick(2, 3))
    histories("rnd", run.pick(100, 1000), 6, 70, 0)


def C01(run):
    lex_texts(run)
    handles(run)


def C02(run):
    lex_texts(run)


def C03(run):
    lex_texts(run, words=False)
    handles(run)
    programs(run, 2500, 12000)


def C21(run):
    def maps(name, **kw):
        c = {"MaxOps": 3, "NTopo": 4, "Mode": "all", "Count": 0, "Seed": run.seed}
        c.update(kw)
        run.replay("declmap", run.tlc("DeclMaps", "DMSpec", c, ["Found", "Stored", "Refused", "Kept", "Emit"], name=name, heap="16g"))
    maps("declmaps-3", NTopo=run.pick(4, 6))
    maps("declmaps-rnd", Mode="rnd", MaxOps=25, Count=run.pick(400, 4000))
    if run.thorough():
        maps("declmaps-4", MaxOps=4, NTopo=3)


def C15(run):
    inv = ["Confluent", "Complete", "ImplComplete", "Progress", "Emit"]

    def units(n, mode, count):
        run.replay("units", run.tlc("Units", "USpec", {"N": n, "Mode": mode, "Count": count, "Seed": run.seed}, inv,
                                    name="units-%s-%d" % (mode, n)))
    units(2, "all", 0)
    units(3, "all", 0)
    units(4, "graphs", 0)
    units(6, "rnd", run.pick(400, 4000))
    units(14, "big", run.pick(150, 1500))
    if run.thorough():
        units(8, "rnd", 600)


def types(run):
    inv = ["Circles", "SameAsTarget", "OneFamily", "Emit"]
    run.replay("types", run.tlc("Types", "TSpec", {"N": 3, "Mode": "graphs", "Count": 0, "Seed": run.seed}, inv, name="types-3"))
    run.replay("types", run.tlc("Types", "TSpec", {"N": 3, "Mode": "embedded", "Count": 0, "Seed": run.seed}, inv, name="types-emb"))
    run.replay("types", run.tlc("Types", "TSpec", {"N": 12, "Mode": "rnd", "Count": run.pick(600, 6000), "Seed": run.seed}, inv, name="types-rnd"))
    run.replay("types", run.tlc("Types", "TSpec", {"N": 40, "Mode": "rnd", "Count": run.pick(60, 600), "Seed": run.seed}, inv, name="types-long"))


def C20(run):
    types(run)
    if run.thorough():
        inv = ["Circles", "SameAsTarget", "OneFamily", "Emit"]
        run.replay("types", run.tlc("Types", "TSpec", {"N": 4, "Mode": "graphs", "Count": 0, "Seed": run.seed}, inv, name="types-4", heap="16g"))


def C11(run):
    inv = ["NearestFirst", "PrivateHidden", "PartsComplete", "NoParentNoLoss", "Emit"]

    def members(k, mode, count=0):
        run.replay("classmembers", run.tlc("ClassMembers", "CSpec", {"K": k, "Mode": mode, "Count": count, "Seed": run.seed}, inv, name="cls-%s-%d" % (mode, k)))
    members(3, "members")
    members(3, "props")
    members(run.pick(3, 4), "both")
    members(8, "rnd", run.pick(800, 8000))
    members(13, "rnd", run.pick(100, 1000))
    if run.thorough():
        members(4, "members")
        members(4, "props")
    ancestry(run)


def ancestry(run):
    def graphs(name, **c):
        run.replay("ancestry", run.tlc("Ancestry", "ASpec", dict({"WithM": False, "Mode": "all", "Count": 0, "Seed": run.seed}, **c), ["NoRepeat", "Inherited", "SameAsTarget", "Emit"], name=name))
    graphs("ancestry-m", N=3, WithM=True)
    graphs("ancestry-4", N=4)
    graphs("ancestry-rnd", N=9, WithM=True, Mode="rnd", Count=run.pick(1500, 10000))
    if run.thorough():
        graphs("ancestry-5", N=5)


def sjis_odd(run, n):
    run.replay("sjis", run.tlc("Sjis", "OddSpec", {"Mode": "odd", "MaxLen": n}, ["OddEmit"], name="sjis-odd-%d" % n))


def C22(run):
    run.replay("sjis", run.tlc("Sjis", "SSpec", {"Mode": "chars", "MaxLen": run.pick(2, 3)}, ["RoundTrip", "NeverSyntax", "Emit"], name="sjis"))
    run.replay("sjis", run.tlc("Sjis", "SSpec", {"Mode": "utf8", "MaxLen": run.pick(3, 4)}, ["RoundTrip", "NeverSyntax", "Emit"], name="sjis-utf8"))
    run.replay("sjis", run.tlc("Sjis", "SSpec", {"Mode": "table", "MaxLen": 0}, ["RoundTrip", "NeverSyntax", "Emit"], name="sjis-table"))
    run.replay("sjis", run.tlc("Sjis", "SSpec", {"Mode": "straddle", "MaxLen": 0}, ["RoundTrip", "NeverSyntax", "Emit"], name="sjis-straddle"))
    sjis_odd(run, run.pick(2, 3))


PAS_INV = ["Closed", "Visible", "Innermost", "Emit"]
PAS = {"Mode": "rnd", "Start": "", "Fams": frozenset(), "Count": 100, "MaxUnits": 3, "Grain": 20, "FE": 6, "FS": 12, "FT": 6, "FC": 8, "FD": 14, "Long": 0, "Inject": "", "NPool": 24, "Alone": False}


def pascal(run, name, **kw):
    c = dict(PAS, Seed=run.seed)
    c.update(kw)
    return run.tlc("Pascal", "PSpec", c, PAS_INV, name=name, assemble=True)


def explore(run, start, fams, kind="pascal", env=None, **kw):
    """All derivations of a part of the grammar within the budgets; the rest is kept short."""
    c = dict(FE=1, FS=1, FT=1, FC=1, FD=1, MaxUnits=0, Grain=1, Count=1)
    c.update(kw)
    name = "%s-%s-%d" % (start, "".join(sorted(fams)), len(run.models))
    run.replay(kind, pascal(run, name, Mode="explore", Start=start, Fams=frozenset(fams) | {"-"}, **c), env=env)


def programs(run, quick, thorough, name="programs", **kw):
    run.replay("pascal", pascal(run, name, Count=run.pick(quick, thorough), **kw))


def long_programs(run, quick, thorough):
    """Programs with long lists or deep nesting of one thing."""
    run.replay("pascal", pascal(run, "long", Count=run.pick(quick, thorough), Long=40, MaxUnits=1, FE=9, FS=15, FT=9, FC=12, FD=20))
    run.replay("pascal", pascal(run, "huge", Count=run.pick(quick, thorough), Long=300, MaxUnits=1, FE=4, FS=5, FT=4, FC=5, FD=7))


def expressions(run, n=5, no=3):
    explore(run, "expr", "e", FE=n)
    explore(run, "expr", "eo", FE=no)


def statements(run, n=5):
    explore(run, "stmt", "s", FS=n)
    explore(run, "stmts", "s", FS=n + 1)


def declarations(run, n=5):
    explore(run, "type", "t", FT=n)
    explore(run, "var", "t", FT=n - 1)
    explore(run, "types", "d", FD=3)
    explore(run, "types", "dt", FD=2)
    explore(run, "consts", "t", FT=n - 2)
    explore(run, "secs", "d", FD=3)


def classes(run, n=7, no=5):
    explore(run, "class", "c", FC=n)
    explore(run, "class", "co", FC=no)


def routines(run, n=3):
    explore(run, "fd", "d", FD=n)
    explore(run, "exports", "d", FD=n + 1)


def C06(run):
    expressions(run, run.pick(5, 6), run.pick(3, 4))
    long_programs(run, 300, 2000)
    programs(run, 2500, 12000)


def C07(run):
    statements(run, run.pick(5, 6))
    long_programs(run, 300, 2000)
    programs(run, 2500, 12000, FS=20)


def C08(run):
    types(run)
    declarations(run, run.pick(5, 6))
    long_programs(run, 300, 2000)
    programs(run, 2500, 12000, FT=10, FD=20)


def C09(run):
    routines(run, run.pick(3, 4))
    long_programs(run, 300, 2000)
    programs(run, 2500, 12000, FD=20)


def C10(run):
    classes(run, run.pick(7, 8), run.pick(4, 5))
    long_programs(run, 300, 2000)
    programs(run, 2500, 12000, FC=14)
    run.replay("pascal-bad", pascal(run, "again", Count=run.pick(800, 5000), Inject="again", FD=20, FC=4, FS=4))


def C12(run):
    programs(run, 3000, 15000, MaxUnits=4, FD=6, FS=6)
    programs(run, 500, 5000, name="long")


def C13(run):
    explore(run, "secs", "d", FD=run.pick(3, 4))
    long_programs(run, 300, 2000)
    programs(run, 3000, 15000, FD=20)
    programs(run, 1500, 8000, name="few", NPool=5, FD=16, FS=8, FE=4)
    programs(run, 600, 5000, name="deep", NPool=4, MaxUnits=1, FD=8, FS=50, FE=3, FT=3, FC=2)


def C14(run):
    programs(run, 600, 3000, name="many", MaxUnits=8, NPool=4, FD=4, FS=4, FT=3, FE=3, FC=3)
    programs(run, 2500, 15000, MaxUnits=4)
    programs(run, 1500, 8000, name="few", MaxUnits=4, NPool=5, FD=10, FS=8, FE=4)
    run.replay("pascal-bad", pascal(run, "bad", Count=run.pick(600, 6000), Inject="qual"))
    run.replay("pascal-alone", pascal(run, "alone", Count=60, MaxUnits=0, FD=3, FS=3, FT=1, FE=2, FC=1, NPool=3, Alone=True))


def C16(run):
    for start, fams, kw in (("secs", "d", dict(FD=run.pick(2, 3))), ("types", "dt", dict(FD=1, FT=1)), ("fd", "d", dict(FD=run.pick(2, 3))), ("type", "t", dict(FT=run.pick(3, 4)))):
        explore(run, start, fams, kind="pascal-bad", Inject="dup", **kw)
    run.replay("pascal-bad", pascal(run, "bad", Count=run.pick(5000, 20000), Inject="dup", FD=20))
    programs(run, 2000, 10000, FD=20)


def C18(run):
    C11(run)
    expressions(run)
    statements(run)
    declarations(run)
    classes(run)
    routines(run)
    long_programs(run, 300, 2000)
    programs(run, 2500, 12000)


def grammar(run):
    c = dict(PAS, Seed=1)
    return {"VH_GRAMMAR": run.tlc("GrammarOut", "GSpec", c, ["Defined", "Reached", "Terminates", "Balanced"], name="grammar")}


def pumped(run, env, start, n):
    path = run.path("pump-%s-%d.jsonl" % (start, n))
    open(path, "w").write("".join('{"start":"%s","n":%d,"k":%d,"of":16}\n' % (start, n, k) for k in range(16)))
    run.replay("pump", path, env=dict(env, VH_LIMIT="300"))


def C05(run):
    env = grammar(run)
    run.replay("robust", pascal(run, "programs", Count=run.pick(1500, 20000)), env=env)
    cover(run, env, pascal(run, "cover", Count=run.pick(500, 3000), FD=8), 0, each=run.pick(300, 20))
    run.replay("anytext", lex(run, "core", 3))
    run.replay("anytext", lex(run, "rnd", 1, run.pick(2500, 30000)))
    run.replay("longtext", lex(run, "core", 2))
    pumped(run, env, "program", 1000)
    pumped(run, env, "unit", 300)
    pumped(run, env, "program", run.pick(150000, 400000))
    lex_texts(run)
    sjis_odd(run, 2)
    types(run)
    C11(run)
    run.replay("units", run.tlc("Units", "USpec", {"N": 3, "Mode": "all", "Count": 0, "Seed": run.seed}, ["Emit"], name="units-3"))


def cover(run, env, programs, ctx, reps=1, each=1):
    path = run.path("cover-%d.jsonl" % ctx)
    open(path, "w").write("".join('{"path":"%s","k":%d,"of":8,"ctx":%d,"reps":%d,"each":%d}\n' % (programs, k, ctx, reps, each) for k in range(8)))
    run.replay("cover", path, env=dict(env, VH_LIMIT="800"))


def C17(run):
    env = grammar(run)
    q = run.pick
    pool = pascal(run, "programs", Count=q(1500, 6000), FD=8)
    run.replay("mutants", pool, env=env)
    long = pascal(run, "long", Count=q(150, 1500), Long=14, MaxUnits=0, FE=12, FS=12, FT=10, FC=14, FD=10)
    with open(pool, "a") as f:
        f.write(open(long).read())
    cover(run, env, pool, q(0, 1), each=q(40, 4))
    explore(run, "expr", "e", kind="mutall", env=env, FE=q(2, 3))
    explore(run, "stmt", "s", kind="mutall", env=env, FS=q(2, 3))
    explore(run, "type", "t", kind="mutall", env=env, FT=q(2, 3))
    explore(run, "class", "c", kind="mutall", env=env, FC=q(3, 4))
    explore(run, "fd", "d", kind="mutall", env=env, FD=q(1, 2))
    explore(run, "exports", "d", kind="mutall", env=env, FD=2)


def C04(run):
    env = grammar(run)
    run.replay("layouts", pascal(run, "programs", Count=run.pick(4000, 15000)), env=env)


def C19(run):
    inv = ["Repeatable", "FromDisk", "Emit"]
    pool = pascal(run, "programs", Count=run.pick(1500, 4000), FD=10, FS=8)
    env = {"VH_PROGRAMS": pool}

    def sessions(name, mode, ops, running, count):
        run.replay("sessions", run.tlc("Sessions", "SSpec", {"NSlots": 2, "NProgs": 3, "NBad": 1, "MaxOps": ops, "MaxRun": running, "Mode": mode,
                                                             "Count": count, "Seed": run.seed}, inv, properties=["Stays"], name=name), env=env, race=True)
    sessions("sessions", "all", run.pick(5, 6), 2, 0)
    sessions("sessions-long", "rnd", 40, 4, run.pick(60, 400))


def C23(run):
    run.replay("places", pascal(run, "programs", Count=run.pick(2000, 20000)), env=grammar(run))
