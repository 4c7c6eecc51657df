"""Effect sources: which external functions draw randomness, read the clock or the
environment, or touch streams and files."""
import re
from .load import walk

RANDOM = re.compile(r"""^(
 NTL::(random\w*|Random\w*|VectorRandom\w*|SetSeed|GetCurrentRandomStream|RandomStream.*|GenPrime\w*|GenGermainPrime\w*|ProbPrime
      |FindRoot|FindRoots|EDF|RootEDF|CanZass|SFCanZass|berlekamp|SFBerlekamp|CanZass.*|ProbMinPolyMod|MinPolyMod|MinPolySeqProb
      |BuildRandomIrred|ProbIrredTest|DetIrredTest|MillerWitness)
 | rand | srand | random | srandom | drand48 | lrand48 | rand_r | std::rand | std::srand | arc4random\w* | getrandom | getentropy
 | std::random_device::.* | std::mersenne_twister_engine<.* | std::linear_congruential_engine<.* | std::shuffle | std::random_shuffle
 | std::uniform_.* | std::subtract_with_carry_engine.* | std::discard_block_engine.* )$""", re.X)
CLOCK = re.compile(r"^(NTL::(GetTime|GetWallTime|GetPID)|time|clock|gettimeofday|clock_gettime|getpid|getenv|std::getenv|secure_getenv|std::time|std::clock|std::chrono::.*::now|std::this_thread::get_id|pthread_self|std::thread::hardware_concurrency)$")
STREAMS = {"std::cout", "std::cerr", "std::clog", "std::cin", "std::wcout", "std::wcerr", "stdout", "stderr", "stdin"}
IOFN = re.compile(r"^(printf|std::printf|fprintf|std::fprintf|puts|std::puts|putchar|std::putchar|fputs|std::fputs|fputc|putc|fwrite|fopen|std::fopen|freopen|fclose|fflush|perror|std::perror|vprintf|vfprintf|write|open|creat|scanf|fscanf|getchar|fgets|gets|read|system|std::system|popen|unlink|remove|std::remove|rename|std::basic_[io]?fstream<.*::.*|std::basic_filebuf<.*)$")


def sources(prog, kind):
    """(mangled names outside the repository that are effect sources,
    {repo function: line} with a direct source that is not a call)"""
    pat = {"random": RANDOM, "clock": CLOCK, "io": IOFN}[kind]
    ext = {m for m, fn in prog.fns.items() if not (m in prog.funcs) and pat.match(fn.q)}
    if kind == "io":
        # std::remove is also an algorithm: it takes iterators, not a path
        ext = {m for m in ext if not (prog.fns[m].q == "std::remove" and len(prog.fns[m].ps) != 1)}
    direct = {}
    if kind == "io":
        for f in prog.funcs.values():
            for n in walk([f.body, f.inits]):
                if n.get("k") == "var" and n.get("vk") == "g" and (n.get("q") in STREAMS or n.get("n") in ("stdout", "stderr", "stdin")):
                    direct.setdefault(f.m, n["l"])
                elif n.get("k") == "call" and (n.get("t") == "FILE *"):
                    direct.setdefault(f.m, n["l"])
    return ext, direct


def users(prog, kind):
    """{repo function: (line, source)} using a source directly."""
    ext, direct = sources(prog, kind)
    out = {}
    for f in prog.funcs.values():
        for n in walk([f.body, f.inits]):
            m = n.get("fn")
            if m in ext:
                out.setdefault(f.m, (n.get("l"), prog.fns[m].q))
        if f.m in direct:
            out.setdefault(f.m, (direct[f.m], "a standard stream"))
    return out
