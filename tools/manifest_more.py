ASMT = ("TLA+ specification of the assembler (Asm.tla: line by line assembly, linking, verdict) run by TLC as acceptor of recorded runs "
        "of the real q3asm: image bytes, map lines, diagnostics, exit status and loader view")
ASMN = "cases are seeded generated assembly programs, error injections and odd inputs plus enumerated grids; bounded by them; trusts TLC, the compilers, the harness."
for i in range(1, 7):
    CHECKS["A%02d" % i] = ("python3 checks/asm.py A%02d" % i, ASMT, "model_checking", ASMN)
LCCT = ("TLA+ specification of the compiled language (CSem.tla: abstract machine over syntax trees, QVM data model) run by TLC as acceptor of "
        "recorded runs of generated C programs compiled by the real lcc/q3rcc, assembled and run")
LCCN = "programs are seeded random typed syntax trees of the subset described in DESIGN.md; bounded by them; trusts TLC, the host compilers, the harness."
for i in range(1, 7):
    CHECKS["L%02d" % i] = ("python3 checks/lcc.py L%02d" % i, LCCT, "model_checking", LCCN)
CPPT = ("TLA+ specification of the preprocessor (Cpp.tla: translation phases 1-4 over characters, conditional groups, macro expansion with hide sets, "
        "#if arithmetic, includes, lines) run by TLC as acceptor of recorded runs of the real q3cpp, token by token")
CPPN = "inputs are seeded generated files, headers and options of the forms described in DESIGN.md; bounded by them; trusts TLC, the compilers, the harness."
for i in range(1, 5):
    CHECKS["P%02d" % i] = ("python3 checks/cpp.py P%02d" % i, CPPT, "model_checking", CPPN)
CHECKS["H01"] = ("python3 checks/host.py H01", "TLA+ specification of the standalone interpreter (Host.tla over Q3VM.tla) run by TLC as acceptor of recorded "
                 "runs of the real program: both output streams byte by byte, exit status", "model_checking",
                 "guests and files are seeded generated (printing, failing, wandering guests, broken files); bounded by them; trusts TLC, the compilers.")
CHECKS["L08"] = ("python3 checks/driver.py L08", "TLA+ specification of the compiler driver (Driver.tla: command line to phase commands, temporaries, exit status) run by "
                 "TLC as acceptor of recorded runs of the real driver with stand-in phases, and CSem.tla as acceptor of whole compilations under random options", "model_checking",
                 "command lines and programs are seeded generated; bounded by them; trusts TLC, the compilers, the harness.")
CHECKS["L07"] = ("python3 checks/static.py L07", "TLA+ specification of the language's static rules (CStatic.tla: scopes, types, declarations, statements, initialisers, constraints over "
                 "tokens) run by TLC as acceptor of the real compiler's verdict, diagnostics' lines and exit status on each unit", "model_checking",
                 "units are seeded generated and mutated; units on which the specification is open (reported as free) are only checked for crashes; trusts TLC.")
CHECKS["B01"] = ("python3 checks/burg.py B01", "TLA+ specification of the generator of tree matchers (Burg.tla: grammar reading and validity, rule tables, least-cost labelling "
                 "by dynamic programming) run by TLC as acceptor of recorded runs of the real lburg and of the matchers it generates", "model_checking",
                 "grammars and trees are seeded generated and mutated (patterns up to 90 deep); bounded by them; trusts TLC, the host compiler, the harness.")
CHECKS["L09"] = ("python3 checks/lcc.py L09", LCCT + "; call tracing observed and specified (TraceCall, TraceReturn)", "model_checking", LCCN)
