RT = "property-based testing (generated inputs, reference implementation as oracle, choice-sequence shrinking)"
E2E = "property-based testing with generated programs: templates compiled by the derive macro, output compared with a reference interpreter, with shrinking"
TRUST = "Trusts the generator's reference model, rustc and std. "
MODEL = "Search, not proof: programs are sampled; the reference interpreter works on the generated tree and never sees askama's parser output. " + TRUST
NOTES = {
    "C01": (RT, "Search, not proof: every Unicode scalar value is tried alone and between special characters, longer strings are sampled. " + TRUST),
    "C02": (E2E, MODEL),
    "C04": (E2E, MODEL),
    "C05": (E2E, MODEL),
    "C06": ("property-based testing with generated programs: differential testing of template expressions against the same expressions compiled by rustc, with shrinking", "Only expressions that the template language documents; borrowed results (indexing) are compared only where Rust accepts a reference. Panics have to coincide, too. " + TRUST),
    "C07": (E2E, MODEL),
    "C08": (E2E, MODEL),
    "C09": (E2E, MODEL),
    "C10": (E2E, MODEL),
    "C11": (E2E, MODEL),
    "C12": (E2E, MODEL),
    "C13": (E2E, MODEL),
    "C14": (E2E, MODEL),
    "C18": (E2E, "Calls record their identity; output and record are compared with the interpreter's. " + MODEL),
    "C15": (RT, "Sampled strings and numbers, in process and in templates on fields of 25 types with random format specifications, against reference implementations written from the documentation. " + TRUST),
    "C16": (RT, "Sampled strings; the oracle decodes the output and checks the alphabet. " + TRUST),
    "C17": (RT, "Sampled JSON trees; serde_json is trusted to parse and pretty-print. " + TRUST),
    "C19": (RT, "Faults are injected at every chunk and after any number of bytes, into a template written by hand and into generated, derived ones (every entry point, up to 20 limits each). " + TRUST),
    "C20": (RT, "Generated and mutated sources and repetitions of nesting constructs run in child processes with a CPU limit; a crash, panic or excessive time is a violation. " + TRUST),
    "C21": (RT, "Random trees printed with random syntax and delimiters; the parser's tree has to be the same. " + TRUST),
    "C22": (RT, "Metamorphic: the reported position must lie in the source, not before the malformed tag, and shift with valid text inserted before it. " + TRUST),
    "C23": ("property-based testing with generated programs: valid projects with one injected defect, the derive macro has to report it and to accept the counterpart, with shrinking", "The defect list is written by hand (about 170 kinds, placed anywhere the language allows); whether rustc or the macro reports it is not distinguished, but panics, aborts and time-outs of the macro are violations. " + TRUST),
    "C03": (E2E, "Names, extensions, attributes and configured escapers are sampled from 25 extensions; MIME types are checked only for formats about which there is no doubt. " + TRUST),
    "C24": (E2E, "Layouts of files and configurations are sampled; the reference searches the generated layout itself. " + TRUST),
    "C25": (E2E.replace("output compared", "the dependencies that rustc records (dep-info) and the output compared"), "Every file that is read has to be among the recorded dependencies; superfluous ones are not violations. " + TRUST),
    "C26": (E2E, "Names are sampled from all Rust keywords, names the generated code uses and Unicode identifiers; names in paths and of filters are not keywords. Items in the module shadow those of the standard library; two that the generated code is known to depend on are recorded findings. " + TRUST),
    "C27": (E2E, "The response values of the four integrations are inspected directly (rocket's through a local request); servers and sockets are not involved. MIME types are checked for formats about which there is no doubt. " + TRUST),
    "C29": (E2E, "Eight of the sets of features are built: none, each alone, and one mixture; the other checks use all of them. Features that integrations set (with-axum, ...) are part of C27. " + TRUST),
    "C28": (E2E, "Each set of files is compiled two or three times, each time in a new process, so with other hash seeds; a dependence that shows rarely, or on the time or the environment, can be missed. " + TRUST),
}
