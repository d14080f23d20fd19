"""Source of properties.jsonl and MANIFEST.json: run
``python3 tools/props.py`` after editing."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def P(pid, title, statement, over, text, why, files, mech, technique=None,
      note=None, observe=None):
    return dict(pid=pid, title=title, statement=statement, over=over.split(),
                text=text, why=why, files=files.split(), mech=mech,
                technique=technique, note=note, observe=observe)


PROPS = [
P("P01", "Checking one message leaves no trace visible to another",
  "What is learned from one message (its text, headers, relays, addresses, links, verdicts) never ends up in state that outlives that message and is consulted again for a later message. Every per-message fact lives with the message; only configuration, compiled data and explicitly persistent stores (databases) are shared.",
  "histories inputs", "all sequences of messages checked by one process",
  "Tests check one message per fresh object; leaks only show when a specific second message follows a specific first.",
  "oa/message.py oa/context.py oa/html_parser.py oa/plugins/header_eval.py oa/plugins/relay_eval.py oa/plugins/free_mail.py oa/plugins/dkim.py oa/plugins/spf.py oa/plugins/bayes.py oa/plugins/mime_eval.py oa/plugins/body_eval.py",
  [("get_local/set_local keep data on the message", "oa/plugins/base.py"), ("MessageContext", "oa/context.py")]),
P("P02", "Independently loaded configurations never influence each other",
  "Loading or using a configuration (including a per-user one) never changes the options, option defaults, rules, rule types, network lists, resolver settings or plugin code that another configuration, loaded before or after in the same process, sees: no function changes what classes or modules hold, defaults of parameters, shared library objects or process settings, and the server derives each user's configuration from copies of what the site configuration gave. The defaults a configuration starts from are always the documented ones.",
  "histories configurations", "all sequences of configurations loaded in one process",
  "Tests load one configuration per process and never compare two.",
  "oa/conf.py oa/networks.py oa/context.py oa/server.py oa/dns_interface.py oa/rules/parser.py oa/plugins/whitelist_subject.py oa/plugins/free_mail.py",
  [("Conf.__init__ installs defaults per context", "oa/conf.py"), ("NetworkList", "oa/networks.py")]),
P("P03", "The score is the sum of the matching rules, each counted once",
  "After a check the message score equals the sum of the scores of exactly the rules recorded as matching: a matching rule adds its own score once, a non-matching rule adds nothing, and every evaluated rule has its true result recorded under its own name. A short-circuiting rule adds its own score once plus only the extra score configured for its type, and nothing but rule evaluation, short-circuiting and the auto-whitelist ever changes a score; starting over resets score and results together.",
  "inputs configurations histories", "all rule sets and messages, including rules that return strings, numbers or raise",
  "Tests fix a handful of rule combinations; the sum must hold for any combination of result kinds, failures and short-circuits.",
  "oa/rules/ruleset.py oa/plugins/short_circuit.py oa/message.py oa/plugins/awl.py",
  [("RuleSet.match", "oa/rules/ruleset.py"), ("ShortCircuitRule.__call__", "oa/plugins/short_circuit.py"), ("Message.clear_matches", "oa/message.py")]),
P("P04", "One failing rule never stops the others or the end of the check",
  "If evaluating a rule fails in any way, the failure is logged, the rule counts as not matching with no score change, and all remaining rules are still evaluated in order. Only an explicit request to stop ends the rule loop early, and in every case the end-of-check and auto-learning steps run exactly once, in this order, for that message.",
  "fault_sequences inputs", "all rules, failing with any exception at any position",
  "Tests inject one exception type into one rule.",
  "oa/rules/ruleset.py oa/rules/eval_.py oa/context.py",
  [("RuleSet.match exception handling", "oa/rules/ruleset.py"), ("EvalRule.match", "oa/rules/eval_.py")]),
P("P05", "Every output agrees on the one verdict: spam iff score >= threshold",
  "A message is spam exactly when its final score is at least the required score, and every observable output (daemon reply, YESNO tags, header selection, report on spam, message wrapping) uses this same inclusive comparison on the score after the check has completed. No output claims spam for a ham message or the reverse, also when the score equals the threshold.",
  "inputs configurations", "all scores and thresholds, including equality",
  "Tests use scores far from the threshold and look at one output at a time.",
  "oa/protocol/check.py oa/protocol/process.py oa/rules/ruleset.py scripts/match.py",
  [("CheckCommand.handle", "oa/protocol/check.py"), ("RuleSet._interpolate / get_adjusted_message", "oa/rules/ruleset.py")]),
P("P06", "A bad configuration line costs only itself unless paranoid",
  "When not in paranoid mode, an invalid rule, regular expression, option or directive is logged and skipped, and every other line and rule still loads; a rule that cannot be made usable is left out completely. In paranoid mode the same error is raised to the caller instead of being swallowed.",
  "configurations inputs", "all configuration files, with any number of malformed lines",
  "Tests cover selected malformed lines; any other exception type escaping a handler kills the whole load.",
  "oa/rules/parser.py oa/rules/ruleset.py oa/rules/base.py oa/rules/header.py oa/rules/eval_.py oa/rules/meta.py oa/regex.py oa/conf.py oa/context.py",
  [("PADParser._paranoid", "oa/rules/parser.py"), ("RuleSet.call_postparsing", "oa/rules/ruleset.py")]),
P("P07", "Recursive includes and meta rules always terminate with an error",
  "Configuration files that include each other and meta rules that refer to each other, directly or through any cycle, are cut off at a fixed depth: each nested level is counted exactly once and exceeding the limit raises the configuration error for it. Loading therefore always terminates and a cyclic meta rule is never evaluated.",
  "configurations programs", "all include graphs and all meta rule graphs, cyclic ones included",
  "Tests try one cycle; a counter that is not passed on through one of the recursive paths still passes them.",
  "oa/rules/parser.py oa/rules/meta.py oa/rules/ruleset.py",
  [("_depth counters and MAX_RECURSION", "oa/rules/parser.py, oa/rules/meta.py")]),
P("P08", "Every configuration option is well formed and every one read exists",
  "Each declared option has a type the configuration machinery implements and a default of that type; options that clear others name existing list options; and every option the program reads is declared by the component that is asked for it. Data kept for a message is read only where it can have been set. The documented options are declared with the documented type and default. A configuration line for an option sets exactly that option, to the value it gives according to its type (numbers, true/1, durations with units, lists split, list options appended to, clearing options emptying their lists).",
  "configurations programs", "all option declarations and all places that read an option",
  "Tests read the options they happen to need; a misspelt or undeclared option fails only on the path that reads it.",
  "oa/conf.py oa/plugins oa/rules/ruleset.py oa/context.py oa/message.py",
  [("Conf.options and set_*_option", "oa/conf.py")]),
P("P09", "Every advertised name resolves to a working implementation",
  "Every rule function a plugin advertises exists, accepts the message plus the configured arguments plus the target, and belongs to one plugin only; every rule type, daemon command and SpamAssassin plugin name the product maps resolves to an existing implementation of the right kind, and every hook a plugin overrides accepts what the hook is called with. Every rule-shaped check function of a plugin, and every one the documentation lists, is advertised, and the documented examples fit the signatures.",
  "programs configurations", "all plugins, rule functions, commands and rule types",
  "Tests call the plugin functions directly and bypass the registration tables.",
  "oa/plugins oa/plugins/__init__.py oa/server.py oa/rules/parser.py oa/context.py",
  [("eval_rules / cmds", "oa/plugins/*.py"), ("REIMPLEMENTED_PLUGINS", "oa/plugins/__init__.py"), ("COMMANDS", "oa/server.py")]),
P("P10", "A rule gets exactly the score, priority and flags configured for it",
  "Every kind of rule honours the configured score, description, priority and test flags: what the configuration says for a rule name is what the loaded rule carries. With four scores the one selected is that for the current Bayes/network settings, test flags that do not apply disable the rule, hidden (double underscore) and zero-score rules are never counted on their own.",
  "configurations", "all rule types and all combinations of score sets, flags and settings",
  "Tests check the attributes for the common rule types only; each rule class passes them on separately.",
  "oa/rules/base.py oa/rules/body.py oa/rules/header.py oa/rules/uri.py oa/rules/full.py oa/rules/meta.py oa/rules/eval_.py oa/plugins/uri_detail.py",
  [("BaseRule.__init__/get_rule_kwargs/preprocess/should_check", "oa/rules/base.py")]),
P("P11", "DNS lookups respect restrictions and availability",
  "A DNS query reaches the resolver only if the queried name is not restricted by the configuration and DNS is available; otherwise it yields an empty result. The most specific matching dns_query_restriction wins (the last line given for the same name), whatever the case of the name or a final dot. dns_available yes and no decide without a query; test tries up to three of the names until one has an answer, and again when the test interval (with its unit) is over. A failure of the resolver yields an empty result. The servers, port, rotation, EDNS size and time limits of the configuration reach the resolver. No component sends DNS queries by another way (the SPF library excepted, which is used only if DNS is available).",
  "configurations inputs", "all query names, restriction tables and availability settings",
  "Tests mock the resolver; a call site that bypasses the gate is invisible to them.",
  "oa/dns_interface.py oa/plugins/dns_eval.py oa/plugins/spam_cop.py oa/plugins/dkim.py oa/plugins/spf.py oa/context.py",
  [("DNSInterface.query", "oa/dns_interface.py")]),
P("P12", "Disabling RBL checks disables every RBL lookup",
  "With RBL checks disabled (skip_rbl_checks), no DNS blocklist lookup is made for any message, and every blocklist rule reports no match. With them enabled every blocklist rule asks only for the addresses it is about (the untrusted relays' addresses reversed, the domain of the envelope sender, the domains of the From header) below its server, and matches if and only if there is a result and, with a subtest, any of the results satisfies it.",
  "configurations inputs", "all blocklist rules and messages",
  "Each blocklist rule has its own test of the switch; a path that skips it is not exercised.",
  "oa/plugins/dns_eval.py oa/context.py",
  [("skip_rbl_checks guards", "oa/plugins/dns_eval.py")]),
P("P13", "Message content is never executed or used as code",
  "Nothing taken from a message is ever evaluated or compiled as program code, run as or inside a command, used as the text of a database statement, used as a regular expression without escaping, used to choose a file to open, or deserialised. Message data only ever flows into data positions.",
  "inputs", "all messages, however malicious",
  "Tests use benign messages; injection needs crafted content on each of many paths.",
  "oa/plugins oa/message.py oa/db/bayes oa/rules",
  [("parameterised queries, re.escape", "oa/plugins/*.py, oa/db/bayes/*.py")]),
P("P14", "Stored data is keyed to its owner and committed",
  "Every operation of the auto-whitelist and of the Bayes stores reads or changes only the rows of the current owner (the auto-whitelist entry of this user, sender, signer and network; the seen entry, the counts or the tokens that are meant), whatever rows of others the tables hold, and leaves the intended values in them. Values are passed as parameters matching the placeholders, statements name existing tables and columns, every change is committed, and all storage back ends offer the same operations with the same signatures, results and result order.",
  "inputs histories", "all users, entries and storage back ends",
  "Tests mock the database, so a missing key or commit is invisible to them.",
  "oa/plugins/awl.py oa/plugins/bayes.py oa/db/bayes/mysql.py oa/db/bayes/sqlalchemy.py",
  [("Store classes", "oa/db/bayes/*.py"), ("AWL queries", "oa/plugins/awl.py")]),
P("P15", "Forgetting a message undoes exactly what learning it did",
  "Learning a message as spam or ham adds exactly one to that class' message count and to that class' count of each distinct token; forgetting subtracts exactly what was added and removes the seen entry, and learning a message again in the other class forgets it first. A message already learned in a class is not counted again, nothing is learned when learning is disabled, and the two classes are treated symmetrically.",
  "histories inputs", "all sequences of learn and forget operations",
  "Tests mock the store and check single calls.",
  "oa/plugins/bayes.py oa/db/bayes/mysql.py oa/db/bayes/sqlalchemy.py",
  [("learn_message/_learn_trapped/forget_message/_forget_trapped", "oa/plugins/bayes.py")]),
P("P16", "Files, cursors and connections are released on every path",
  "Every file, database connection, database session or socket that a component opens for its own use is closed on every path on which the component gives it up, including paths on which an error is raised; helper processes are ended and timers cancelled likewise. A database cursor is closed or goes away with its connection. A connection kept for later (the Bayes store) is closed before it is replaced, and is open whenever it is used. Nothing is used after it has been closed.",
  "fault_sequences inputs", "all paths, including every exception path",
  "Tests never inject failures between opening and closing.",
  "oa/plugins/awl.py oa/plugins/image_info.py oa/plugins/relay_country.py oa/plugins/pdf_info.py oa/rules/parser.py oa/plugins/bayes.py oa/db/bayes scripts/match.py scripts/compile.py scripts/oad.py",
  [("try/finally, with", "oa/plugins/*.py, scripts/*.py")]),
P("P17", "User preferences apply only when allowed and only from that user",
  "Preferences of a user are used only if user rules are enabled and a user was named; they come from that user's own preference file on top of the site configuration, never alter the shared site configuration, and are never served to another user. A user name can never make the daemon read a file outside that user's preference location.",
  "configurations inputs histories", "all user names and request sequences",
  "Tests use one benign user name per server.",
  "oa/server.py oa/config.py oa/protocol/base.py",
  [("Server.get_user_ruleset", "oa/server.py"), ("get_userprefs_path", "oa/config.py")]),
P("P18", "Daemon replies are correctly framed",
  "Each reply to a well-formed request starts with exactly one status line, and the announced content length equals the number of bytes of the body that follows the blank line. Everything written to the client is encoded once, in order, and nothing follows the announced body.",
  "inputs configurations", "all commands and messages, including non-ASCII content",
  "Tests compare ASCII replies, for which characters and bytes coincide.",
  "oa/protocol/base.py oa/protocol/check.py oa/protocol/process.py oa/protocol/tell.py oa/server.py",
  [("BaseProtocol.get_and_handle", "oa/protocol/base.py"), ("CheckCommand.handle", "oa/protocol/check.py")]),
P("P19", "The request body is read completely and exactly",
  "With a content length given, exactly that many bytes are read (or up to the end of the stream) and never more; without it, everything up to the end of the stream is read. The bytes are decoded as one piece, in order and complete, so that the message checked does not depend on how the network splits it.",
  "inputs schedules", "all bodies and all ways the stream may be split into reads",
  "Tests feed the body in one or two chunks of ASCII.",
  "oa/protocol/base.py",
  [("BaseProtocol.get_message", "oa/protocol/base.py")]),
P("P20", "Malformed requests get an error reply, not a crash",
  "Any malformed request line, unknown command, malformed header or invalid content length is answered with an error status line and never with a successful status, never reaches a command handler's work and never terminates the handler with an exception. An internal error while handling a valid command is not reported as a bad request line.",
  "inputs", "all request lines and headers",
  "Tests cover a few malformed inputs.",
  "oa/server.py oa/protocol/base.py",
  [("RequestHandler.handle", "oa/server.py"), ("InvalidOption handling", "oa/protocol/base.py")]),
P("P21", "Set reports and Remove revokes, with the class the client named",
  "A TELL request with Set reports the message and one with Remove revokes it; the spam/ham class and the local/remote targets passed on are those the client named, the reply confirms exactly what was done, and without either nothing is done. The command line tool's report and revoke options map to the same two operations and never to the opposite one; plugins report or train as spam on the one and withdraw or train as not spam on the other.",
  "inputs", "all combinations of request headers and options",
  "Tests try a few header combinations with mocks.",
  "oa/protocol/tell.py scripts/match.py oa/context.py",
  [("TellCommand.handle", "oa/protocol/tell.py"), ("main", "scripts/match.py")]),
P("P22", "A reload replaces the whole configuration or keeps the old one",
  "After a successful reload every later request, for any user, is served from the newly loaded configuration, including user rule sets built on top of it. If loading fails the previous configuration stays in effect, and no cached user rule set from before a reload survives it.",
  "schedules fault_sequences histories", "all interleavings of reloads, failures and requests",
  "Tests reload once, successfully, with no request in flight.",
  "oa/server.py",
  [("Server.load_config", "oa/server.py")]),
P("P23", "Any byte sequence becomes a message object",
  "Constructing the message object for any input never raises: malformed headers, dates, addresses, relay lines, charsets, MIME structure and HTML are skipped or replaced locally and the rest of the message is still available to the rules. The same holds for the derived views that rules ask for.",
  "inputs", "all messages",
  "Tests use a corpus of well-formed samples; each parsing step has its own failing inputs.",
  "oa/message.py oa/received_parser.py oa/html_parser.py",
  [("exception handling in Message parsing", "oa/message.py")]),
P("P24", "Reports and headers list exactly the rules that matched",
  "The matched-rule report (also as _REPORT_), the summary (_SUMMARY_), the lists _TESTS_ and _TESTSSCORES_ and the SYMBOLS reply each list every rule with a matching (true) result in rules_checked and no other rule, each once, whatever their number; a line of the report carries that rule's score and the description recorded for this match, a line of the summary its score and description; empty lists read \"none\". In templates (report, unsafe_report, header values, quotes around a line dropped, lines in order) the tags YESNO, YESNOCAPS, SCORE, REQD, CONTACTADDRESS, HOSTNAME, VERSION, SUBVERSION and the tags set by plugins are replaced by the values for this message, unknown tags by @@TAG@@; every other character, percent signs too, stands for itself, and an inserted value is never itself taken for a template. add_header and remove_header lines apply to all, spam or ham messages as configured, with the prefix X-Spam-; an unusable line is reported (fatal in paranoid mode) and leaves the others in force. CHECK answers without a body, SYMBOLS with the matching rules, REPORT with the report, REPORT_IFSPAM with it for spam only, PROCESS with the adjusted message and HEADERS with its headers.",
  "inputs configurations", "all results, templates and messages",
  "Tests compare a few fixed reports.",
  "oa/rules/ruleset.py oa/protocol/check.py oa/protocol/process.py",
  [("RuleSet._interpolate, _convert_tags, get_matched_report, get_summary_report, _add_header_rule, _adjust_headers", "oa/rules/ruleset.py"), ("CheckCommand and subclasses: extra_details", "oa/protocol/check.py")]),
P("P25", "The original message survives processing unchanged",
  "Producing the adjusted message never changes the stored message (msg.raw_msg, msg.msg, the recorded headers and results): for ham, for report_safe 0 and for header-only replies the result is a fresh copy made from the complete original with nothing but headers added or removed as configured; for spam otherwise it is a container with the report, the unsafe report and one attachment holding the complete original text (text/plain for report_safe 2, a message type otherwise). X-Spam-Report is added exactly to spam with report_safe 0. An added value with several lines stays inside its header and loses no line with content. A header-only reply is the headers of the result and the blank line after them, no body; otherwise the whole result is returned. Nothing else in the system replaces or modifies raw_msg or the parsed message after construction.",
  "inputs configurations", "all messages and report settings",
  "Tests compare selected outputs; aliasing between copy and original shows only later.",
  "oa/rules/ruleset.py oa/message.py oa/protocol/process.py",
  [("RuleSet.get_adjusted_message, _get_bounce_message, _adjust_headers", "oa/rules/ruleset.py"), ("Message.__init__", "oa/message.py")]),
P("P26", "Saving a compiled rule set does not change the live one",
  "Serialising the configuration leaves every live object as it was, and loading it back restores working resolvers and the plugins that were left out, so that a restored rule set behaves as the one saved. Objects never keep members that cannot be serialised without dropping and rebuilding them.",
  "histories configurations", "all rule sets and plugins",
  "Tests serialise small rule sets and do not look at the live one afterwards.",
  "oa/context.py oa/dns_interface.py scripts/compile.py oa/regex.py",
  [("__getstate__/__setstate__", "oa/context.py, oa/dns_interface.py")]),
P("P27", "Trust never resumes behind an untrusted relay",
  "Walking the relays of a message from the nearest one (those without an address are left out): with networks configured a relay is trusted only if it is in trusted_networks or authenticated and every relay before it is trusted, and internal only if also it is in internal_networks or authenticated and every relay before it is internal; a relay in msa_networks ends the walk, the relays behind it take over its status; without configured networks private and authenticated addresses continue the trust. Every relay is in exactly one of trusted/untrusted and one of internal/external, in order, and the last-index attributes, the intl and msa fields and the LASTEXTERNAL tags (the nearest external relay: the handover) agree. The envelope sender comes from the nearest external relay; only without external relays from the last trusted (unless always_trust_envelope_sender), the first untrusted, or a header. In the network lists the first network given that contains the address decides; loopback is always trusted; internal_networks default to the trusted ones and otherwise replace them; excluded and short spellings mean what the documentation says.",
  "inputs configurations", "all relay chains and network settings",
  "Tests use a few relay chains.",
  "oa/message.py oa/networks.py",
  [("Message._parse_relays", "oa/message.py"), ("NetworkList", "oa/networks.py")]),
P("P28", "Every loaded plugin gets every event until it is unloaded",
  "Each lifecycle event (configuration line, parsing start and end, check start, metadata, check end, auto-learn, report, revoke) is delivered to every loaded plugin with the right arguments, unless a plugin explicitly asks to stop it; overriding plugins keep the default work of the event. Loading registers all of a plugin's rule functions and rule types, and unloading or replacing a plugin removes all it registered.",
  "configurations histories programs", "all sets of plugins and load orders",
  "Tests load one plugin at a time.",
  "oa/context.py oa/plugins/base.py oa/plugins",
  [("hook_* and _callback_chain", "oa/context.py"), ("load_plugin/unload_plugin", "oa/context.py")]),
P("P29", "Configuration files load in the documented order, user last",
  "Plugin files load before rule files, files of a directory in sorted order, site files in the documented place relative to the local ones, and user preferences last so that they override; within the files, a later line for the same option or rule overrides the earlier one. All configuration files of these directories are used and no others, each from its first to its last line.",
  "configurations", "all directory contents",
  "Tests mock the directory listing with one or two names.",
  "oa/config.py oa/rules/parser.py scripts/match.py scripts/oad.py oa/server.py",
  [("get_config_files", "oa/config.py")]),
P("P30", "Rules run in priority order, higher priority first",
  "Rules are evaluated in descending order of configured priority, whatever order they were defined, added or generated in, and rules of equal priority keep the order of definition. All comparisons between rules are consistent with this order.",
  "configurations", "all rule sets and priorities",
  "Tests check one small rule set.",
  "oa/rules/ruleset.py oa/rules/base.py",
  [("RuleSet.post_parsing sort", "oa/rules/ruleset.py"), ("BaseRule.__lt__", "oa/rules/base.py")]),
P("P31", "Match operators and pattern flags mean what they say",
  "A rule written with =~ matches exactly when its expression is found and one written with !~ exactly when it is not; the operator, delimiters and flags used are the ones written in the rule. Every documented pattern flag selects the corresponding matching mode and an expression that cannot be compiled is reported as invalid.",
  "configurations inputs", "all rules, expressions and texts",
  "Tests use simple expressions that do not contain operator-like text.",
  "oa/regex.py oa/rules/header.py oa/plugins/uri_detail.py",
  [("perl2re, MatchPattern, NotMatchPattern", "oa/regex.py"), ("HeaderRule.get_rule", "oa/rules/header.py")]),
P("P32", "Each rule type looks at its documented part of the message",
  "Body rules see the rendered text, raw body rules the undecoded text, full rules the raw message, URI rules every link, header rules every instance of the named header in the requested form, and MIME header rules the headers of every part. A rule matches if any value it looks at matches, and never looks elsewhere.",
  "inputs configurations", "all messages and rule types",
  "Tests use one value per view, so that the first and the last or any and all are the same.",
  "oa/rules/body.py oa/rules/header.py oa/rules/uri.py oa/rules/full.py oa/message.py",
  [("Rule.match", "oa/rules/*.py"), ("Message views", "oa/message.py")]),
P("P33", "Asking for a header again gives the same answer",
  "What the message answers for a header - its raw, decoded, address, name and MIME values - is determined by the message and the headers components added to it: asking again, in any order, with caching on or off, gives the same answer, and header names are compared without regard to case. Once a message has been parsed no component changes its headers, relays, links, text or sender (adding header values is allowed), and changing a list of decoded headers, addresses or names that was given as an answer does not change later answers.",
  "histories schedules inputs", "all sequences of questions about and evaluations over one message",
  "Tests ask once per message.",
  "oa/message.py oa/plugins/spf.py oa/plugins/header_eval.py oa/plugins/relay_eval.py",
  [("_memoize", "oa/message.py")]),
P("P34", "Auto-learning only learns clear cases and in the right class",
  "A message is auto-learned as spam only if its score is at or above the spam threshold and as ham only if at or below the ham threshold, where only the rules that matched count and the points of rules with a zero score or flagged noautolearn, userconf or learn are left out; never in the class opposite to the check's own verdict or when the learn-flagged rules point clearly the other way; spam only with enough header and body points (unless forced); and with bayes_auto_learn_on_error never when the classifier already agrees. What is learned is this message in the class decided, once.",
  "inputs configurations", "all scores, thresholds, rule flags and classifier opinions",
  "Tests mock the decision for a few combinations.",
  "oa/plugins/auto_learn_threshold.py oa/plugins/bayes.py",
  [("AutoLearnThreshold", "oa/plugins/auto_learn_threshold.py")]),
# outside what static analysis can decide
P("P50", "Classifier probabilities are numerically sound",
  "The spam probability computed from the token counts always lies strictly between zero and one, is the documented combination of the token probabilities, and grows with spam evidence.",
  "inputs histories", "all databases and messages",
  "Tests compare a few numbers.",
  "oa/plugins/bayes.py", [("compute_prob_for_token", "oa/plugins/bayes.py")]),
P("P51", "Relay headers of known mail software are understood correctly",
  "For every supported mail server, the relay address, host names and authentication state extracted from its header lines are those the server wrote.",
  "inputs", "all relay header lines",
  "Tests sample real lines.",
  "oa/received_parser.py", [("ReceivedParser", "oa/received_parser.py")]),
P("P52", "Converted expressions match what the Perl originals match",
  "For every Perl expression accepted in a rule the converted expression matches the same texts.",
  "configurations inputs", "all expressions and texts",
  "Tests convert a few expressions.",
  "oa/regex.py", [("perl2re", "oa/regex.py")]),
P("P53", "A check finishes in bounded time",
  "Checking any message with any rule set finishes within a bound that depends on its size, also when network services do not answer.",
  "inputs schedules fault_sequences", "all messages, rules and network conditions",
  "Tests use small inputs and mocks.",
  "oa/rules/ruleset.py oa/dns_interface.py oa/plugins", [("timeouts", "oa/context.py")]),
P("P54", "Concurrent worker processes do not disturb each other",
  "Requests served at the same time by the pre-forked workers, including reloads on a signal, give the same answers as when served one by one.",
  "schedules", "all interleavings of requests and signals",
  "Tests send one request at a time.",
  "oa/server.py scripts/oad.py", [("PreForkServer", "oa/server.py")]),
P("P55", "Text and attachments are decoded as a mail reader would",
  "The text views contain what a mail reader shows for the message, for every charset, transfer encoding and HTML construct.",
  "inputs", "all messages",
  "Tests sample a few encodings.",
  "oa/message.py oa/html_parser.py", [("_iter_parts, normalize_html_part", "oa/message.py")]),
]

NA = {
"P23": "freedom from exceptions for every byte sequence depends on what the email, HTML, codec and address libraries raise for hostile input; there is no sound table of that to check the handlers against, and treating every library call as raising would condemn code that is right. The parts decided by this source are claimed elsewhere (P04: a failing rule is contained, P20: a failing request is answered, P27 and P33 for the parsed views).",
"P26": "whether a rule set restored by dill behaves as the one saved is decided by how dill and the libraries rebuild closures, expressions, resolvers and databases, not by this source (and compiling is refused by can_compile on the interpreter this tree runs on). Reading the code shows __getstate__ of the context removing entries from dictionaries of the live object; see the open points in DESIGN.md.",
"P50": "quantifies over floating-point values read from a database; no sound static bound on the combination (Fisher chi-square loop) is in reach, and the bound in the text depends on library numerics.",
"P51": "the expected answer is the real-world syntax of dozens of mail servers, encoded only in ~100 hand-written regular expressions; there is no independent specification in the source to compare with.",
"P52": "equivalence of two regular-expression dialects over all texts is a semantic question about the matcher libraries, not about this source; only the per-flag and operator mapping is decidable and is claimed in P31.",
"P53": "running time depends on the backtracking behaviour of user-supplied expressions and on network timing, which no static analysis of this source bounds.",
"P54": "isolation between workers is process isolation by the spoon library and signal timing of the interpreter; the part visible in this source (order of assignments in a reload, shared state between messages) is claimed in P22 and P01.",
"P55": "correct rendering is defined by external standards and library decoders; the source only delegates. The structural part (which view each rule sees) is claimed in P32.",
}

DEFAULT_TECH = "path-sensitive abstract interpretation of the AST with event monitors"
TECH = {}
NOTE_DEFAULT = ("Decides the stated rule on every path / site of the source "
                "it analyses (loops joined, calls inlined or treated as "
                "uninterpreted and possibly raising); trusts library "
                "contracts and absence of monkey patching. Not a full "
                "proof of the informal statement.")


def main():
    from oasa import core
    core.load_checks()
    claimed = sorted(core.CHECKS)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
            d = {"id": p["pid"], "title": p["title"],
                 "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": n, "where": w}
                                           for n, w in p["mech"]]}}
            f.write(json.dumps(d) + "\n")
    ids = {p["pid"]: p for p in PROPS}
    checks = []
    from tools import techniques
    for c in claimed:
        p = ids[c]
        t, n = techniques.TECH.get(c, (DEFAULT_TECH, NOTE_DEFAULT))
        checks.append({
            "property": c,
            "quick_cmd": "python3 -m oasa check %s --tier quick" % c,
            "thorough_cmd": "python3 -m oasa check %s --tier thorough" % c,
            "evidence_file": "evidence/%s.json" % c,
            "technique": t, "level": "other", "level_note": n})
    na = []
    for p in PROPS:
        if p["pid"] not in claimed:
            na.append({"property": p["pid"],
                       "reason": NA.get(p["pid"],
                                        "check under construction")})
    m = {"version": 1, "setup_cmd": "python3 -m oasa list",
         "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in PROPS:
        if p["pid"] not in claimed and p["pid"] not in NA:
            print("under construction:", p["pid"])


if __name__ == "__main__":
    main()
