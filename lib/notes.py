"""Texts for MANIFEST.json"""
DEFAULT = ("TLA+ specification checked with TLC: sessions of real API calls, generated with a seed and executed by a harness linked "
           "against /repo, are validated step by step against the specification (trace validation)")
DEFAULT_NOTE = ("Every observed outcome is judged by the TLA+ specification; coverage of inputs is by seeded generation, "
                "so unexplored inputs are not covered.")
_SCHEMA = ("TLA+ specification checked with TLC: exhaustive model MCSchema (all schemas over a small vocabulary, with algebraic laws) of which "
           "every schema is replayed in the real code, and trace validation of generated sessions of real calls against the specification (Trace)")
_SCHEMA_NOTE = ("Exhaustive over the small vocabulary (every schema, instance and draft in it is executed in the real code); beyond it, "
                "every observed outcome of seeded sessions is judged by the specification.")
_HIST = ("TLA+ specification checked with TLC: exhaustive model MCLoader (all call histories over a small vocabulary, with action properties) whose "
         "histories are replayed in the real code, and trace validation of generated sessions of real calls against the specification (Trace)")
_HIST_NOTE = ("Exhaustive over the histories of the small vocabulary in the model (quick replays all short and a sample of the long ones, thorough all "
              "up to its limit); beyond it, every observed outcome of seeded sessions is judged by the specification.")
TECHNIQUE = {p: _SCHEMA for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C09", "C12", "C13")}
TECHNIQUE.update({p: _HIST for p in ("C10", "C11", "C17", "C20")})
TECHNIQUE["C08"] = _SCHEMA.replace("MCSchema (", "MCSchema and MCLoader (") 
TECHNIQUE["C16"] = ("TLA+ models checked with TLC: the locking protocol (RegistryLock), all interleavings of small programs (Conc) replayed in the real code "
                    "with checkers parked at will, and recorded concurrent histories checked for linearizability against the specification (LinTrace), "
                    "on binaries built with and without the race detector")
TECHNIQUE["C18"] = ("TLA+ definition of each format's language (Formats) evaluated by TLC: exhaustive over all short strings of small alphabets (MCFormats) "
                    "and over generated and mutated samples, compared with the real checkers string by string")
NOTE = {p: _SCHEMA_NOTE for p in TECHNIQUE if TECHNIQUE[p] == _SCHEMA or p == "C08"}
NOTE.update({p: _HIST_NOTE for p in ("C10", "C11", "C17", "C20")})
NOTE["C16"] = "Exhaustive over the interleavings of the generated small programs at call granularity; races are detected in the executions that happened."
NOTE["C18"] = "Exhaustive over short strings; strings on which grammar and established practice differ are left open and never judged."
