"""What each property's check explores."""
from . import cli, gen, special
from .ast import *

NOISE = (("plain", 0), ("noise", 1))
DOCS = ("status", "doc", "crash")
PLACES = ("place", "undefined", "label", "crash")


def rnd(c, family, n, base, layouts=NOISE, what=DOCS, keep=None, api=None, **knobs):
    """3n random worlds, n where they are kept for more; ten times n in the thorough check."""
    n *= 10 if not c.quick else 1 if keep is not None else 3
    for part in range(0, n, 3000):
        ws = [gen.Gen(c.seed * 1000003 + base + i, **knobs).world("%s-%d" % (family, i), api=api)
              for i in range(part, min(n, part + 3000))]
        c.worlds(family, ws, layouts, what=what, kind="random", keep=keep)


def c01(c):
    c.universe("names", "MC_Names", ["NameWorlds", "WordWorlds"], what=DOCS)
    rnd(c, "random", 300, 0, p_nsanno=.4, p_dotted=.25, files=(1, 3), p_fault=0, decls=(2, 5))
    return c.finish()


def c02(c):
    c.universe("emit", "MC_Emit", "EmitWorlds", what=DOCS)
    rnd(c, "random", 400, 10000, files=(1, 3), p_fault=0, decls=(2, 5), json_files=.6)
    return c.finish()


def c03(c):
    c.universe("imports", "MC_Imports", ["ImportWorlds", "JOrderWorlds"], what=DOCS)
    rnd(c, "random", 300, 20000, files=(2, 4), p_fault=0, json_files=.6)
    return c.finish()


def c05(c):
    c.universe("clash", "MC_Clash", ["ClashWorlds", "TripleWorlds", "SameWorlds"], what=DOCS)
    rnd(c, "random", 300, 30000, files=(1, 3), p_fault=0.1, decls=(2, 5), p_nsanno=.4, json_files=.6)
    return c.finish()


def c06(c):
    c.universe("structure", "MC_Structure", ["UnionWorlds", "UnionPlaceWorlds", "NameRuleWorlds", "EnumWorlds",
                                              "FieldWorlds", "NumberWorlds", "OneWayWorlds"], what=DOCS)
    rnd(c, "random", 200, 40000, p_fault=.06, decls=(1, 3))
    return c.finish()


def c07(c):
    c.universe("defaults", "MC_Defaults", ["DefaultWorlds", "ParamWorlds", "LeftOutWorlds", "TwoBranches", "SecondWorlds"], what=DOCS)
    rnd(c, "random", 300, 50000, p_dflt=.9, p_q=.5, p_fault=0, forms=("protocol",))
    return c.finish()


def c08(c):
    c.universe("resolve", "MC_Resolve", ["FlatWorlds", "PathWorlds", "NestedWorlds"], what=DOCS + ("place",),
               layouts=(("plain", 0), ("plain", 1), ("plain", 2), ("plain", 3)))
    cli.universe(c, "relative", ["ImportDirWorlds", "ImportDirSchemata"])
    return c.finish()


def c09(c):
    c.universe("rings", "MC_Once", "RingWorlds", what=DOCS, props=("RegistryGrows", "Terminates"))
    c.universe("once", "MC_Once", "OnceWorlds", what=DOCS)
    c.universe("imports", "MC_Imports", ["ImportWorlds", "NearNameWorlds"], what=DOCS)
    return c.finish()


def c10(c):
    c.universe("messages", "MC_Messages", ["MessageWorlds", "MergeWorlds"], what=DOCS)
    c.universe("imported-messages", "MC_Messages", ["ImportedMessageWorlds", "BareMessageWorlds"], what=DOCS)
    c.universe("imports", "MC_Imports", "ImportWorlds", what=DOCS)
    rnd(c, "random", 300, 60000, files=(1, 3), msgs=(2, 4), p_fault=0, json_files=.6, forms=("protocol",), p_doc=.4, p_annos=.3)
    return c.finish()


def c14(c):
    c.universe("annotations", "MC_Annos", ["AnnoWorlds", "PairWorlds", "MainWorlds", "NearWorlds"], what=DOCS + ("warnings",))
    c.universe("aliases", "MC_Alias", ["AliasWorlds"], what=DOCS + ("warnings",))
    rnd(c, "random", 200, 70000, p_annos=.5, p_fault=0.01, what=DOCS + ("warnings",))
    return c.finish()


def c15(c):
    c.universe("logical", "MC_Logical", ["AnnotatedWorlds", "KeywordWorlds", "UnionWorlds", "FixedWorlds", "JsonWorlds"],
               what=DOCS)
    rnd(c, "random", 200, 80000, p_annos=.4, p_fault=0, p_logical=.7, files=(1, 2), json_files=.8)
    return c.finish()


def c19(c):
    c.universe("sessions", "MC_Sessions", "SessionWorlds", tables="STables", what=DOCS + ("warnings",))
    c.universe("late-directories", "MC_Sessions", "LateDirWorlds", what=DOCS + ("warnings",))
    return c.finish()


def c04(c):
    c.universe("undefined", "MC_Undefined", ["UndefinedWorlds", "FormWorlds", "JsonMentionWorlds", "ManyWorlds"],
               what=("status", "undefined", "crash"))
    rnd(c, "random", 300, 90000, p_undefined=.3, p_fault=0, files=(1, 3), what=("status", "undefined", "crash"))
    return c.finish()


def c11(c):
    c.universe("json", "MC_Json", ["JNameWorlds", "JAttrWorlds", "JBodyAttrWorlds", "JFieldAttrWorlds", "JDefaultWorlds", "JTextWorlds", "JShapeWorlds",
                                   "JPairWorlds", "JTwoFieldWorlds", "JTypesWorlds", "JProtoWorlds", "JMessageWorlds"],
               what=DOCS)
    c.universe("aliases", "MC_Alias", ["JsonAliasWorlds"], what=DOCS)
    c.universe("both-named", "MC_Json", "BothNamed", what=DOCS)
    c.universe("object-mention", "MC_Json", "ObjectMention", what=DOCS)
    rnd(c, "random", 300, 100000, files=(2, 2), json_files=.9, decls=(0, 2), p_fault=0)
    return c.finish()


def c12(c):
    keep = []
    rnd(c, "random", 300, 110000, layouts=(("plain", 0),), files=(1, 3), p_fault=0, decls=(2, 5), forms=("protocol",),
        json_files=.6, p_alias=.3, p_doc=.4, api="idl", keep=keep)
    c.universe("emit", "MC_Emit", "EmitWorlds", what=("crash",), keep=keep, pick=400 if c.quick else 4000)
    c.universe("logical", "MC_Logical", ["KeywordWorlds", "AnnotatedWorlds"], what=("crash",), keep=keep, pick=300 if c.quick else 4000)
    c.universe("aliases", "MC_Alias", ["AliasWorlds", "JsonAliasWorlds"], what=("crash",), keep=keep)
    c.universe("messages", "MC_Messages", ["MessageWorlds"], what=("crash",), keep=keep, pick=300 if c.quick else 4000)
    c.universe("annotations", "MC_Annos", ["PairWorlds"], what=("crash",), keep=keep, pick=300 if c.quick else 4000)
    n, skipped = special.reimport(c, "again", keep, DOCS)
    keep = []
    c.universe("lost", "MC_Messages", "LostWorlds", what=("crash",), keep=keep)
    special.reimport(c, "lost-again", keep, ("crash",), every=True)
    keep = []
    rnd(c, "extract", 150, 120000, layouts=(("plain", 0),), files=(1, 2), p_fault=0, decls=(2, 4), api="schemata", keep=keep)
    m = special.reextract(c, "extracted-again", keep, DOCS)
    return c.finish(extra={"documents_imported_again": n, "schemas_imported_again": m, "left_out": skipped})


def c13(c):
    c.universe("directories", "MC_Dirs", ["DirWorlds", "OddWorlds", "DeepWorlds"], what=DOCS + ("warnings",))
    rnd(c, "random", 300, 130000, files=(1, 3), p_fault=0, decls=(2, 5), json_files=.6, api="schemata")
    return c.finish()


def c16(c):
    c.universe("gaps", "MC_Docs", ["ProtocolGaps", "SchemaGaps", "BareGaps", "ImportedGaps",
                                    "ImportedSchemaGaps", "PairGapWorlds", "EveryWorlds", "EmptyCommentWorlds"], what=DOCS + ("warnings",))
    c.universe("texts", "MC_Docs", ["TextWorlds", "ShortTextWorlds", "FourTextWorlds", "LineWorlds", "OtherLineWorlds"], what=DOCS + ("warnings",))
    rnd(c, "random", 300, 170000, layouts=NOISE, what=DOCS + ("warnings",), files=(1, 3), p_fault=0, p_doc=.6)
    return c.finish()


def c17(c):
    c.universe("integers", "MC_Literals", ["IntWorlds", "NestedIntWorlds", "SizeWorlds", "DecWorlds"], what=DOCS)
    c.universe("floats", "MC_Literals", ["FloatWorlds", "PointedWorlds", "SuffixWorlds", "SpecialWorlds", "HexFloatWorlds", "HexPointedWorlds",
                                         "HexEdgeWorlds"], what=DOCS)
    c.universe("strings", "MC_Literals", ["StringWorlds", "ShortStringWorlds", "TripleWorlds", "KeyWorlds", "PathWorlds",
                                          "AnnoTextWorlds"], what=DOCS)
    return c.finish()


def c18(c):
    layouts = (("plain", 0), ("tight", 0), ("noise", 1), ("noise", 2), ("noise", 3), ("noise", 4))
    alls = DOCS + ("place", "undefined", "warnings")
    c.universe("gaps", "MC_Layout", ["OneGapWorlds", "BareGapWorlds", "AllGapWorlds"], what=DOCS + ("warnings",))
    c.universe("names", "MC_Layout", ["QuoteWorlds", "WordWorlds"], what=DOCS + ("warnings",))
    c.universe("tails", "MC_Layout", ["TailWorlds", "ImportedTailWorlds"], what=DOCS + ("warnings",))
    c.universe("doc-texts", "MC_Docs", ["ShortTextWorlds", "FourTextWorlds", "LineWorlds", "OtherLineWorlds"], what=DOCS)
    rnd(c, "random", 250, 140000, layouts=layouts, what=alls, files=(1, 2), p_fault=.02, p_doc=.3, p_annos=.3)
    c.universe("messages", "MC_Messages", "MessageWorlds", layouts=layouts[1:], what=alls, pick=200 if c.quick else None)
    c.universe("structure", "MC_Structure", ["EnumWorlds", "NumberWorlds", "NameRuleWorlds"], layouts=layouts[1:], what=alls,
               pick=200 if c.quick else None)
    return c.finish()


def c23(c):
    c.universe("places", "MC_Places", ["TypePlaces", "DeclPlaces", "DefaultPlaces", "AnnoPlaces", "ImportPlaces", "HeadPlaces"],
               layouts=NOISE, what=PLACES + ("status",))
    c.universe("clash", "MC_Clash", ["ClashWorlds"], layouts=(("noise", 2),), what=PLACES, pick=300 if c.quick else None)
    c.universe("undefined", "MC_Undefined", ["UndefinedWorlds", "JsonMentionWorlds"], layouts=(("noise", 3),), what=PLACES,
               pick=300 if c.quick else None)
    rnd(c, "random", 400, 180000, layouts=NOISE, what=PLACES, files=(1, 3), p_fault=.15, p_undefined=.1, p_doc=.3, p_annos=.3)
    return c.finish()


def c20(c):
    keep = []
    c.universe("undefined", "MC_Undefined", "UndefinedWorlds", what=("crash",), keep=keep, pick=500 if c.quick else 4000)
    c.universe("many", "MC_Undefined", "ManyWorlds", what=("crash",), keep=keep)
    c.universe("annotations", "MC_Annos", "PairWorlds", what=("crash",), keep=keep, pick=300 if c.quick else 4000)
    c.universe("hints", "MC_Hints", ["TwoNearWorlds", "SeveralHints"], what=("crash",), keep=keep)
    # the order of a directory's files is not the file system's
    c.universe("directories", "MC_Dirs", ["DirWorlds"], what=("doc", "crash"), keep=keep, pick=300 if c.quick else 4000)
    c.universe("sessions", "MC_Sessions", "SessionWorlds", tables="STables", what=("crash",), keep=keep,
               pick=300 if c.quick else 4000)
    rnd(c, "random", 400, 150000, layouts=(("plain", 0),), what=("crash",), files=(1, 3), p_undefined=.2, p_annos=.4, p_fault=.02, keep=keep)
    n = special.repeat(c, "again", keep, 3 if c.quick else 10)
    return c.finish(extra={"runs_repeated": n})


def c22(c):
    c.universe("forms", "MC_Forms", ["FormWorlds", "MainTypeWorlds", "SeveralWorlds"], what=DOCS)
    rnd(c, "random", 300, 160000, files=(1, 3), p_fault=0, forms=("protocol", "schema", "bare"))
    return c.finish()


def c21(c):
    cli.universe(c, "idl", ["IdlWorlds"])
    cli.universe(c, "schemata", ["SchemataWorlds", "DirWorlds"])
    cli.universe(c, "same-name", ["SameNameWorlds"])
    cli.universe(c, "usage", ["UsageWorlds"])
    cli.universe(c, "again", ["AgainWorlds"])
    return c.finish()


def c25(c):
    alls = DOCS + ("place", "undefined", "warnings", "label")
    c.universe("bases", "MC_Tokens", ["BaseWorlds", "CutOffWorlds"], what=alls)
    c.universe("oneway-throws", "MC_Tokens", ["QuirkWorlds"], what=alls)
    c.universe("edits", "MC_Tokens", ["GoneWorlds", "TwiceWorlds", "SwapWorlds"], what=alls)
    c.universe("words", "MC_Tokens", ["PutWorlds", "InsteadWorlds", "TwoWorlds"], what=alls)
    c.universe("phrases", "MC_Tokens", ["PhraseWorlds"], what=alls)
    c.universe("more-phrases", "MC_Tokens", ["OtherPhraseWorlds"], what=alls)
    c.universe("mistakes", "MC_Tokens", ["MistakeWorlds"], what=alls)
    c.universe("near-texts", "MC_Texts", ["PlainTexts", "CutTexts", "GoneTexts", "TwiceTexts", "SwapTexts"], what=alls)
    c.universe("characters", "MC_Texts", ["PutSmall", "InsteadSmall"], what=alls)
    c.universe("wide", "MC_Texts", ["PutWide", "InsteadWide"], what=alls, pick=3000 if c.quick else None)
    c.universe("strings", "MC_Texts", ["PutStrings"], what=alls, pick=6000 if c.quick else None)
    return c.finish()


def c24(c):
    whats = ("status", "crash", "label")
    # texts of any size: they take long, so the code is given longer
    for family in ("Longs", "Odds", "Behinds", "Strays", "Chains", "LinesWorlds"):
        c.universe(family.lower(), "MC_Sizes", family, what=whats, render=True, patience=120)
    for family, name in (("LongForward", "long-forward"), ("LongLinked", "long-linked"), ("LongLine", "long-line")):
        c.universe(name, "MC_Sizes", family, what=whats, render=True, patience=120)
    c.universe("indents", "MC_Docs", ["SpaceLineWorlds", "OtherLineWorlds"], what=whats, render=True)
    c.universe("mistakes", "MC_Tokens", ["MistakeWorlds"], what=whats, render=True, pick=3000 if c.quick else None)
    c.universe("bytes", "MC_Sizes", "BytesWorlds", what=whats, render=True)
    c.universe("schema-texts", "MC_Texts", ["PutSchema", "InsteadSchema"], what=whats, render=True)
    c.universe("protocol-texts", "MC_Texts", ["InsteadProtocol"], what=whats, render=True)
    if not c.quick:
        c.universe("more-protocol-texts", "MC_Texts", ["PutProtocol"], what=whats, render=True)
    c.universe("json-texts", "MC_JsonTexts", ["CutsJ", "PutsSmall"], what=whats, render=True)
    return c.finish()


def c26(c):
    c.universe("near-texts", "MC_JsonTexts", ["PlainJ", "CutsJ", "GonesJ", "TwicesJ", "SwapsJ"], what=DOCS)
    c.universe("schema", "MC_JsonTexts", ["PutsSchema", "InsteadsSchema"], what=DOCS)
    c.universe("protocol", "MC_JsonTexts", ["PutsProtocol", "InsteadsProtocol"], what=DOCS)
    c.universe("small", "MC_JsonTexts", ["PutsSmall", "InsteadsSmall", "AllPhrases"], what=DOCS)
    c.universe("strings", "MC_JsonTexts", ["PutsStrings"], what=DOCS)
    c.universe("inexact", "MC_JsonTexts", ["InexactJ"], what=DOCS)
    return c.finish()


def c27(c):
    what = ("status", "undefined", "hint", "crash")
    c.universe("near", "MC_Hints", ["NearWorlds", "TwoNearWorlds", "LengthWorlds", "SpaceWorlds"], what=what)
    c.universe("built-in", "MC_Hints", ["BuiltinWorlds"], what=what)
    c.universe("several", "MC_Hints", ["SeveralHints"], what=what)
    return c.finish()


PLANS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
T = "TLA+ specification checked with TLC; every behaviour of its universes replayed in the library and compared"
TECHNIQUE = {
    "C12": "TLA+ (ReimportSame checked by TLC), and documents the code emitted run through specification and code again",
    "C17": "TLA+ arithmetic of literals checked with TLC; every literal of its universes replayed in the library and compared",
    "C18": "TLA+ token-level syntax and layouts, TLC; every text replayed in the library and compared with the layout-free outcome",
    "C20": "behaviours explored by TLC, each run several times in separate processes of the real library; specification is deterministic (checked)",
    "C21": "TLA+ specification of the command line checked with TLC; every behaviour replayed with the real executable",
    "C24": "TLA+ universes of texts (any size, near-valid, not UTF-8), explored by TLC and replayed: every call must return",
    "C25": "TLA+ lexer and parser of the IDL grammar run by TLC on universes of texts; outcome of each replayed in the library",
    "C26": "TLA+ reader of JSON text (comments, strings, numbers) run by TLC on universes of texts; each replayed in the library",
}
LEVEL = {}
NOTE = {
    "C20": "Determinism of the code is observed over repeated runs in fresh processes, not proved. ",
    "C24": "Crash and hang freedom is observed on the texts of the universes (hang: no answer within 20 s, 120 s for large texts). ",
}
