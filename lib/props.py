"""What each property's check runs."""
import concurrent.futures as cf

import common
from common import Report, build_harness, run_pool

# property: (rule, assumptions, quick budget s, thorough budget s)
RULES = {
    "C14": "random abstract formulas (all constructs of the statement, nesting up to 4) spelled in LaTeX with random layout, converted, and compared with the reference printer's code on "
           "Typst's syntax tree; distinct trees count",
    "C01": "hostile inputs: token soup over the syntax and the command table, mutated corpus lines, unicode noise, fragments repeated up to thousands of times, "
           "self-expanding macros; each converted in both modes in a worker process that is watched from outside; distinct inputs count",
    "C03": "hostile texts (names, stars, clauses, unusual spaces, streams longer than a page) lexed with three command tables; every token compared with the reference lexer; distinct texts count",
    "C04": "hostile texts without definitions; leaves of the syntax tree compared with the source, ranges checked for gaps, both parse entry points compared; distinct texts count",
    "C05": "balanced nestings with hostile content; for every token, its ancestors in the tree against the stack of open constructs; distinct texts count",
    "C06": "random patterns (fixed, optional, mixed) declared for a command or environment, followed by random items in random layout; bound arguments against the longest accepted sequence; distinct cases count",
    "C07": "random table-style patterns and sequences over the argument signs; accepted against a set-of-states matcher; distinct pattern and sequence pairs count",
    "C13": "random abstract documents spelled in LaTeX in random layout; converted code compared with the reference printer's on Typst's syntax tree; distinct trees count",
    "C16": "random floats, tabulars, images and labelled environments, alone and in documents; converted code compared with the reference printer's on Typst's syntax tree; distinct trees count",
    "C12": "structured, mutated and hostile inputs with matching delimiters; the code is parsed by Typst's parser alone, as an equation, as an argument and as a content block; distinct codes count",
    "C15": "random environments of the table with random rows and cells in random surroundings; rows, cells and named arguments read off Typst's syntax tree; distinct sources count",
    "C24": "structured, mutated and hostile inputs, each laid out anew at random; both conversions compared on Typst's syntax tree; distinct pairs count",
    "C26": "two random closed formulas, converted alone and in three of twelve surroundings; trees compared; distinct surroundings-with-parts count",
    "C08": "random programs of definitions and uses (up to nine arguments, environments, halves of constructs, macros that define macros, random layout, some behind hundreds of tokens); converted and compared with "
           "the conversion of the reference expansion; distinct programs count",
    "C09": "random histories of definitions, redefinitions and uses over few names, with mistakes; outcome and code against the model's; distinct programs count",
    "C11": "random programs of nested conditionals with hostile skipped text, with macros, around definitions; Typst code and stray parts apart; distinct programs count",
    "C28": "one to three marks at random places of structured, mutated and hostile accepted sources; the visible text of the code, by Typst's own parser, has to have each once and in order; distinct marked sources count",
    "C25": "one mistake put at a random place of a random accepted formula or document, three times per source; the outcome has to be an error, naming the unknown name; distinct broken sources count",
    "C18": "every entry of the default table at each of 20 places (exhaustive), then random entries at random places of places in random layout; code compared with the declared one on Typst's syntax tree; distinct uses count",
    "C10": "families of similar sources (both modes, three tables, with definitions, errors), converted in order, backwards, on 4-8 threads at once, in processes of their own, at once at the very start of a process, and under ThreadSanitizer; "
           "all outcomes of a source compared; distinct inputs count",
    "C02": "random parts (of constructs, halves, mistakes) repeated n and 8n times in 44 surroundings (up to 800 KB); growth of allocations, code and CPU time watched, suspicious times measured again at two scales; "
           "random systems of macro definitions (chains, rings, fans); CPU time and memory against a bound; distinct parts-in-surroundings count",
    "C20": "random tables of up to 60 entries of all kinds with hostile strings: built, written, read back at 17 offsets with and without validation, declared in JSON and read; then damaged bytes; natively and under AddressSanitizer; distinct tables count",
    "C21": "random sources with renamed commands and the renamed table against the originals; formulas with a table of other codes against the reference printer with that table; sources with one command missing from the table; distinct sources count",
    "C19": "every entry of the default table in the library against the package's Typst declaration, and uses of each converted by the library and by the plugin (exhaustive over the entries); distinct entries and uses count",
    "C22": "random and hostile documents given to the command line program under random paths and options, some over an older file; the document that it writes is set by Typst with the working tree's package and compared, item by item drawn, "
           "with what the package draws from the source; distinct sources drawn count",
    "C23": "runs of the command line program that have to fail (sources that do not convert, bytes that are not text, missing inputs, wrong arguments, outputs that cannot be written), with a listing of all files before and after; distinct runs count",
    "C27": "every use form of every entry of the default table, then random formulas and documents, set by Typst with the working tree's package and plugin; distinct sources set count",
    "C29": "random formulas and documents of characters that occur once, with nested colour switches, coloured parts and boxes in all colour models; colour and background of every glyph drawn against a scoping model; distinct sources count",
    "C30": "sequences of conversions by the plugin, compiled to WebAssembly and run by Typst, compared with the library: hostile, programs, deep nesting, bytes that are not text, tables compiled by the plugin; distinct calls count",
    "C31": "calls of all functions of the package with random sources, as strings and raw texts, with options, compared item by item drawn with the library's code set by Typst; then arguments that are no sources; distinct calls count",
    "C17": "random nested lists, alone and in documents; converted code compared with the reference printer's on Typst's syntax tree; distinct trees count",
}


def plain(env, rep, **kw):
    run_pool(env, rep, env.pid, build_harness(), 700 if not env.thorough else 3600, **kw)


def lines(out):
    return dict(l.split(" ", 1) for l in out.decode().splitlines())


def c10(env, rep):
    exe = build_harness()
    run_pool(env, rep, "C10", exe, 300 if not env.thorough else 2000)
    # the same conversions in other processes: in one order and the other, alone, and at once
    n = 1500 if not env.thorough else 20000
    run = lambda c, e=None: common.sh([exe if e is None else e] + [str(x) for x in c], env=common.base_env(MVH_SAN="1", TSAN_OPTIONS="halt_on_error=1 exitcode=66"), timeout=1500)
    first = lines(run(["digest", env.seed, 0, n, "forth"]).stdout)
    cmd = {"in another order in another process": ["digest", env.seed, 0, n, "back"]}
    few = 120 if not env.thorough else 1500
    for k in range(0, few):
        cmd[f"in a fresh process ({k})"] = ["digest", env.seed, k * (n // few), k * (n // few) + 1, "forth"]
        cmd[f"at once in a fresh process ({k})"] = ["cold", env.seed, k * (n // few)]
    with cf.ThreadPoolExecutor(common.JOBS) as ex:
        res = dict(zip(cmd, ex.map(lambda c: run(c).stdout, cmd.values())))
    for how, out in res.items():
        got = [l.split(" ", 1) for l in out.decode().splitlines()]
        if not got:
            rep.inconclusive.append("no outcome " + how)
        for k, v in got:
            rep.evaluations += 1
            if first.get(k) != v:
                rep.violate("not the same " + how.split(" (")[0], f"{k}: {first.get(k)}\n{v}", " ".join([exe] + [str(x) for x in cmd[how]]))
    rep.extra["processes"] = {"compared": len(cmd) + 1, "conversions in the first": len(first)}
    # data races
    t = common.build_san("tsan")
    e = {"MVH_SAN": "1", "TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}
    run_pool(env, rep, "C10", t, 400 if not env.thorough else 1500, n=1000 if not env.thorough else 6000, san="tsan", label="C10 under ThreadSanitizer", extra_env=e)
    for k in range(4 if not env.thorough else 60):
        c = [t, "cold", str(env.seed), str(k)]
        q = common.sh(c, env=common.base_env(**e), timeout=300, check=False)
        rep.evaluations += 1
        if b"ThreadSanitizer" in q.stderr:
            rep.violate("data race", q.stderr.decode(errors="replace")[:2000], " ".join(c))
        elif q.returncode != 0:
            rep.inconclusive.append(f"cold start: {q.returncode} {q.stderr[:200]}")


def c20(env, rep):
    run_pool(env, rep, "C20", build_harness(), 200 if not env.thorough else 1500)
    run_pool(env, rep, "C20", common.build_san("asan"), 300 if not env.thorough else 1500, n=20000 if not env.thorough else 300000, san="asan", label="C20 under AddressSanitizer",
             extra_env={"MVH_SAN": "1", "ASAN_OPTIONS": "detect_leaks=0"})


def typst(env, rep):
    exe, e = common.build_typst()
    run_pool(env, rep, env.pid, exe, 700 if not env.thorough else 3600, extra_env=e)


def cli(env, rep):
    exe, e = common.build_typst()
    e["MVH_CLI"], e["MVH_SCRATCH"] = common.build_cli(), env.work
    run_pool(env, rep, env.pid, exe, 700 if not env.thorough else 3600, extra_env=e)


STAGES = {"C10": [c10], "C20": [c20], "C22": [cli], "C23": [cli], **{p: [typst] for p in ("C19", "C27", "C29", "C30", "C31")}}


def run(env):
    if env.pid not in RULES:
        raise common.Trouble("unknown property")
    rule = RULES[env.pid]
    rep = Report(env, rule=rule if isinstance(rule, str) else rule[0], assumptions=[] if isinstance(rule, str) else rule[1])
    for st in STAGES.get(env.pid, [plain]):
        st(env, rep)
    return rep
