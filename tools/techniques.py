"""technique / level_note per property (see DESIGN.md)."""
TECH = {
"P03": ("typestate of the rule loop by path-sensitive abstract interpretation; who-may-write query on the score",
        "All paths of the rule loop and of the short-circuit wrapper, with every rule call returning any value or raising; all write sites of a score in the tree."),
"P04": ("typestate of the rule loop by path-sensitive abstract interpretation with exceptional edges",
        "All paths of the rule loop with every rule call possibly raising any error or the stop request."),
"P05": ("path-sensitive abstract interpretation: every verdict-dependent output is guarded by exactly the inclusive comparison on the post-check score",
        "All paths of the daemon commands, the report templates, the adjusted message and the command line tool."),
"P10": ("path-sensitive abstract interpretation of rule construction over every rule class, with the option dictionary symbolic",
        "All paths from the rule's option dictionary to the loaded rule's attributes, for every rule class found."),
"P30": ("symbolic evaluation of the sort and of every comparison method of rules",
        "The ordering step and all comparison methods; sortedness relies on the library sort being stable."),
"P31": ("path-sensitive abstract interpretation of pattern conversion and matching; table query on the flag map",
        "All paths of conversion, match and rule construction; library expression semantics trusted."),
"P32": ("symbolic evaluation of the match method of every rule class: which view of the message decides the result",
        "All paths of match for every rule class and every header mode."),
"P06": ("exception-flow analysis of loading by abstract interpretation with raising primitives, monitored per line and per rule",
        "All paths of line handling, rule construction, option setters, plugin loading and end-of-parsing steps; every primitive that can fail for a bad value (conversion, lookup, unpacking, compilation) raises. Opaque library calls are assumed not to raise anything else."),
"P07": ("symbolic evaluation of the nesting counters; probing of the limit on the abstract paths",
        "All paths of file parsing and of the preparation of meta rules, with the counter symbolic and at every constant level up to the limit."),
"P17": ("abstract interpretation of the user lookup with an event monitor (which parser, base, file and cache entry); constant evaluation of the preference path for hostile names; data flow from the request header to the rule set used",
        "All paths of the lookup and of every command's request handling; the path function is evaluated for a fixed set of benign and hostile names."),
"P18": ("abstract interpretation of every command with the written text as symbolic pieces; the announced length must be the length of the encoded body term itself",
        "All paths of request handling and of every command's responses."),
"P19": ("loop typestate of the reads: size asked for bounded by what is left, every chunk kept once and in order, stop only at the end; shape of the decoding term",
        "All paths of reading, with and without a length and compression; the buffered stream of the library is trusted to return what is asked for."),
"P20": ("exception-flow analysis of request handling with raising primitives, and abstract runs on constant malformed headers",
        "All paths of the dispatcher and of every command; every primitive that can fail on client data raises."),
"P21": ("abstract interpretation with constant request headers and switches; events are the hooks and plugin methods reached with their arguments",
        "All paths for a table of header and option combinations, the delivery to plugins and the direction each plugin acts in."),
"P22": ("typestate of the reload (no replacement before everything that can fail) and happens-before argument over the order of reads and writes of the shared attributes",
        "All paths of loading and of the user lookup; the order of attribute reads and writes excludes stale rule sets for every interleaving."),
"P29": ("abstract interpretation of the file search over a model directory tree, of the reading loop (typestate per line) and of single configuration lines and option setters with exact abstract containers",
        "30 directory layouts and preference paths, both programs and the daemon, all paths of the reading loop, and a table of 16 kinds of lines on top of an earlier definition."),
"P27": ("abstract interpretation of the relay walk over chains of up to three symbolic relays, compared path by path with a reference automaton; case-exhaustive abstract runs of the network lists, the sender search and the spelling of networks",
        "Every combination of address facts (trusted, internal, MSA, authenticated, private, missing) for chains of 0 to 3 relays, configured or not; every state of the network lists for one added network; 16 spellings of networks."),
"P11": ("abstract interpretation of the DNS gate with a resolver that may raise each of its errors; case-exhaustive abstract runs of the restriction lookup, of dns_available and of the resolver settings against reference tables; query over all library calls that ask the DNS",
        "Every path of a query and of every resolver error; 7 restriction tables with 10 spellings of names each; 9 settings of dns_available with the answers given; 12 settings of servers, options and restrictions; every call of a library that makes queries of its own, in all of the source."),
"P12": ("abstract interpretation of every plugin hook and eval rule that can reach the DNS interface, with blocklist checks enabled and disabled; the questions and results of the blocklist rules compared path by path with a reference",
        "Every eval rule and hook of every plugin with skip_rbl_checks set; the seven blocklist rules with two addresses, 0 to 2 results for each and with and without a subtest."),
"P14": ("abstract tables: the SQL statements and ORM calls met on the paths of every store operation are applied as transformers to symbolic rows (the owner's and decoys that differ in one key column each); schema query over the table definitions",
        "Every operation of every Bayes store and of the auto-whitelist back ends, with the owner's row present or missing and a decoy row for each key column; the SQL dialect is the subset the source uses, anything else is undecided."),
"P15": ("path-sensitive abstract interpretation of learning and forgetting; effects on the stores compared with a reference for every combination of class, seen state and switches",
        "Every path of learn and forget for both classes, each seen state, with learning enabled, disabled or without relearning, for every store; distinctness of tokens is decided on the token generators."),
"P33": ("constant-driven abstract interpretation of series of questions to the accessors in both caching modes; whole-program effect analysis on everything obtained from the message",
        "Every accessor asked before and after every other one, for present, absent, added and MIME headers, cached or not; every function that touches a view of the message, with views followed through calls. Decoding and address splitting are fixed functions of their text."),
"P34": ("abstract interpretation of the decision over scenes of symbolic rules; the conditions each path took are compared with the documented ones, what reaches the classifier is an event",
        "All paths of the decision for a table of scenes of up to three rules (types, flags, zero scores, not matching) with symbolic scores, thresholds and switches."),
"P28": ("abstract interpretation of every hook with two symbolic plugins that may each end the event, and of loading and unloading on abstract registries with known contents; super-call typestate of overriding plugins; event order of message and rule set construction",
        "All paths of the eleven kinds of events, 15 load/replace/unload histories with the contents of the registries compared afterwards, every override of an event that does default work."),
"P16": ("resource typestate over the control flow including every exception edge: each opening call starts an obligation that must be discharged, or handed on by return or store, on every path; ownership handed on is followed into the callers",
        "Every function of the product and the scripts that opens a file, connection, session, cursor, process or timer, with every uninterpreted call allowed to raise; logging, closing and building a timer are taken not to raise; generators abandoned half-way and objects kept for the life of the process are not covered."),
"P08": ("declaration consistency: option tables, the constant propagation of every option name read or written (through locals, loops over literals and call sites), the documentation as oracle, and the abstract execution of parse_config on one line per type and option",
        "Every option table of the configuration and the plugins and every subscript / get_global / get_local on a configuration object; names chosen by rule arguments are left out; WhiteListSubject parses its own lines, only its declarations are compared."),
"P09": ("registration tables checked against the resolved program: signatures, class hierarchy, call arity; the documentation as oracle",
        "Every rule function, command, rule type, plugin name and hook of the product; plugins loaded from files at run time are outside."),
"P24": ("abstract interpretation with constant propagation of rendering: configuration lines and results are constants of every form, scores, descriptions and plugin values stay opaque; the text reached is compared with a reference",
        "All paths of rule set preparation and rendering for 5 result tables, 10 tags in 6 surroundings, 4 scores around the threshold, 14 header lines and the 6 checking commands."),
"P25": ("abstract interpretation of adjusting a message with an effect monitor over the stored message and every message object made on the way; query over all assignments to the stored text and its parsed form",
        "All paths for 3 scores, the 3 values of report_safe, full and header-only replies and 3 shapes of result text; every store or mutating call in the source on the two attributes."),
"P13": ("whole-program taint analysis, flow-sensitive within functions and by summaries between them, from the message to every place that takes code, a command, a statement, an expression, a file name or an attribute name",
        "Every function of the product and the scripts; data kept for the message, attributes, containers, closures and escaping (re.escape) are followed. Values are tracked by object, not by field; conditions that restrict a value are not taken as escaping; addresses parsed by ipaddress are taken as harmless."),
"P01": ("whole-program dependence analysis with aliases (which writes into state that outlives a message depend on the message), followed by a definite-assignment analysis over the hooks of the next message for every such place",
        "Every function that runs for a message; lasting objects are the context, the configuration, plugins, rules, rule set, resolver, classes, module names and parameter defaults. Places are distinguished by class and attribute (or plugin and key), not by object; the databases are meant to last and are outside."),
"P02": ("whole-program alias and effect analysis: every write of every function into state shared by the configurations of a process - class attributes, module names, parameter defaults, library singletons, process settings, and what the server derives user configurations from, at any depth of nesting",
        "Every function of the product. Places are distinguished by class and attribute, not by object; containers of the server are followed with their layers of copying; a plugin outside the repository is not seen."),
}
