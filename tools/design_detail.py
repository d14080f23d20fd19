"""Oracle, reason and limits per property for DESIGN.md."""
DETAIL = {
"P03": """*Oracle.* A ghost sum kept by the monitor: each rule call gives an
arbitrary value; `score` afterwards must be the initial one plus `rule.score`
for exactly the truthy results. All other writers of `.score` in the tree are
found by query and must be rule evaluation, the short-circuit wrapper, the
auto-whitelist or the reset that also empties the results.""",
"P04": """*Oracle.* After each rule call: normal, any exception, or the stop
request. Which rules are still called, how often `hook_check_end` and
`hook_auto_learn` run, and in which order, are events of the monitor.""",
"P05": """*Oracle.* Each verdict-dependent text or effect must lie under a
branch whose condition is `score >= required_score` (any equivalent spelling),
evaluated after the check of that message.""",
"P06": """*Oracle.* Each line/rule is an iteration of the monitor; an
exception edge must end in a log call and the next iteration when not paranoid,
and must leave through the caller when paranoid. A rule that failed must not be
in any registry afterwards.""",
"P07": """*Why.* Termination follows because each level adds one to a counter
compared with a constant before anything is opened or entered; the check proves
both the step and the comparison.""",
"P08": """*Oracle.* The implemented conversions of `Conf.parse_config`, the
types of the defaults and the option tables of `docs/`. Names read are
constants propagated through locals, loops and call sites.""",
"P11": """*Oracle.* Reference lookup (most specific name, last line wins,
case and final dot ignored) over small tables; every library that asks the DNS
must be called under the gate.""",
"P14": """*Why.* For a statement to read or change a row of another owner
there must be a row that differs from the owner's in one key column only; so
one decoy per key column decides it for all tables.""",
"P16": """*Method in detail.* An opening call makes an obligation; it is
discharged by close/quit/kill/cancel or a `with`, handed on by return/yield or
by storing in an attribute (then the owner's class is analysed). Every
uninterpreted call may raise, so the exceptional paths are the ones that
matter.""",
"P17": """*Limits.* The path function is evaluated for a fixed list of benign
and hostile names (separators, dots, empty, NUL, absolute, ~user); everything
else about the name is symbolic.""",
"P19": """*Oracle.* Ghost variables of the monitor: what is left, which chunks
were kept. The reads are events with a symbolic size.""",
"P22": """*Why static reaches it.* The stale-cache schedule needs two threads
at particular points. The order of the attribute reads and writes that are
visible in the source excludes it for all schedules, given that single attribute
operations are atomic.""",
"P24": """*Bounds.* Number of matching rules 0, 1, 2, "some" and 32; every
other value is opaque or from the tables named above.""",
"P27": """*Bounds.* Chains up to three relays decide the automaton: its state
is (still trusted, still internal) and each step looks at one relay; the fourth
relay repeats a state already covered.""",
"P30": """*Why.* Sorting is by one key; the check evaluates the key and every
comparison method symbolically for the three orders of two priorities.""",
"P33": """*Bounds.* Each accessor before and after each other one, not longer
series; an accessor's effect on the caches is the same after the second call
because the caches then have all entries they can get (checked as a fixed
point for pairs).""",
"P01": """*Method in detail.* (1) Labels say what a value depends on (the
message, a parameter) and which lasting object it is or is a part of; control
dependence is included. Summaries are iterated to a fixed point over all
functions. The result is the set of lasting places that get message data or are
changed because of a message. (2) For each of them the hooks of the next message
are walked in their order - check_start, extract_metadata, parsed_metadata, then
any rule function - and a read that may come before this message's own
assignment is the violation. Flags that guard a group of places ("checked
already") are understood through implications between a flag's value and the
assignments made with it; save/restore in try/finally counts as scoped. Objects
of decorator classes, and containers a decorator makes around a function, last
as long as the function they replace; the positions at which that function gets
the message are carried over to the one put in its place.""",
"P02": """*Oracle.* Two configurations share no object of their own, so they
can meet only in the state listed; a write there is the violation, whoever does
it. Option defaults are followed from the class table into the configuration
and on to what changes lists in place, so the copy made in Conf.__init__ is
necessary and sufficient for the rule; isinstance tests narrow what is left
uncopied, against the kinds of defaults found in all option tables. What an
object of the server holds stays the server's along every chain of attributes,
and a method that changes its own object, called on one of these, counts as a
change; so do attributes set on what a loaded module or a table in a class
gave, and the configuration of the process's logger. Loading a module under a name that is taken executes it in place: the rule asks that
sys.modules forgets the name first.""",
}
