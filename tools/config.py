"""What each check explores: modules of /repo it needs, size of the quick run, and what makes a run count."""
LEVEL = {}
ASSUME = [
    "the simulated kernel serves reads, writes, open, close, seek, stat, pipes, clocks, entropy and signals as Linux does; only calls the programs make are modelled",
    "memory is sequentially consistent between preemption points; preemption points are the instrumented accesses, the OpenMP runtime calls and every system call",
    "the code is built by g++ -Og -DNDEBUG with -fsanitize=thread instrumentation served by the simulator's runtime",
]
RULE = "each run draws, from its seed, a scenario with its inputs, chunkings, schedule and faults; it is nontrivial when "
def P(mods, rule, runs=30000, secs=40, **kw):
    return dict(mods=mods.split(), rule=RULE + rule, runs=runs, secs=secs, **kw)
PROPS = {
    "C01": P("node compress decompress", "the whole write and read of its clouds was executed and compared bit for bit"),
    "C02": P("node compress decompress filter transform info srs tool", "the writer's bytes were decoded by the independent decoder or an independent peer's file was read and compared"),
    "C03": P("node compress decompress transform filter tool tile merge srs info diff noop", "the input really ended or failed before the last promised byte"),
    "C04": P("node compress decompress transform filter tool tile merge srs info diff noop", "a delivery fault really fired or the output was completely compared"),
    "C05": P("node compress decompress transform filter tool tile merge srs info diff noop", "the corrupted bytes differ from the original file"),
    "C06": P("node decompress", "the damaged payload differs from the original"),
    "C07": P("node compress decompress transform filter tool tile merge srs info diff noop", "the process really was killed before it finished, or the failing input left the older output to be compared"),
    "C18": P("node compress decompress transform filter tool tile merge srs info diff noop", "at least one allocation really failed"),
    "C09": P("node transform noop", "the program's whole output was compared with the model"),
    "C08": P("node compress decompress transform filter tool srs info noop", "a pipeline of at least two stages was executed and every pipe compared with the staged execution"),
    "C12": P("node transform noop stream_averaging generate_infinite_points", "the stream really stalled, was long, or promised more than it held"),
    "C13": P("node compress decompress transform filter tool tile merge srs info noop stream_averaging generate_infinite_points", "a peer really went away or a stage really was killed"),
    "C16": P("node compress decompress transform filter tool tile merge srs info diff noop generate_infinite_points", "two executions in different environments were compared"),
    "C10": P("node filter", "the program's whole output was compared with the model"),
    "C11": P("node tool", "the program's whole output was compared with the model"),
    "C19": P("node tile", "every file in the simulated file system was compared with the model"),
    "C20": P("node merge", "the program's whole output was compared with the model"),
    "C24": P("node tool", "the program's whole output was compared with the model"),
    "C25": P("node info srs diff", "the program's whole output and exit status were compared with the model"),
    "C14": P("node", "an operation was executed by a team, or by two callers at once, and compared with its sequential execution and an independent model"),
    "C15": P("node", "a radius search was executed and compared with a brute force search"),
    "C17": P("node", "a sequence of operations was executed and every state compared with a model", runs=150000),
    "C28": P("node compress decompress transform filter tool tile merge srs info diff", "the program really was executed with the command line and every file compared"),
    "C29": P("node spocpy", "the same call was executed several times and the heap (and, for Python, the open descriptors) compared after each"),
    "C22": P("node", "the timer was queried and compared with the simulated time that had passed"),
    "C23": P("spocpy", "the whole session was executed by the interpreter and every object and file compared with the model"),
    "C21": P("node", "the compression call was executed and its result compared"),
}
NOT_APPLICABLE = {
    "C26": "rendering a summary as JSON text is a pure function of in-memory data: no schedule, clock, I/O, fault or second party can influence it, so a simulator has nothing to decide",
    "C27": "pure arithmetic on points, extents and matrices: no schedule, clock, I/O, fault or second party can influence it",
}
