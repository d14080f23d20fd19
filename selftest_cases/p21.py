T = "oa/protocol/tell.py"
X = "oa/context.py"
M = "scripts/match.py"
SET = '''            targets = self.get_targets(options.get("set"))
            local = "local" in targets
            remote = "remote" in targets
            self.ruleset.ctxt.hook_report(msg, spam, local, remote)
'''
REM = '''            targets = self.get_targets(options.get("remove"))
            local = "local" in targets
            remote = "remote" in targets
            self.ruleset.ctxt.hook_revoke(msg, spam, local, remote)
'''
CASES = [
    ("P21", "bad", "elif", [(T, '        if "remove" in options:',
                             '        elif "remove" in options:')]),
    ("P21", "bad", "swap-lr", [(T, "hook_revoke(msg, spam, local, remote)",
                                "hook_revoke(msg, spam, remote, local)")]),
    ("P21", "bad", "stale-targets", [(T, '''            targets = self.get_targets(options.get("remove"))
''', '''            targets = self.get_targets(options.get("set", options["remove"]))
''')]),
    ("P21", "bad", "case", [(T, '"spam").lower() == "spam"', '"spam") == "spam"')]),
    ("P21", "bad", "prefix", [(T, '.lower() == "spam"', '.lower() != "ham "')]),
    ("P21", "bad", "no-strip", [(T, "target.strip().lower()", "target.lower()")]),
    ("P21", "bad", "substring", [(T, '''            local = "local" in targets
            remote = "remote" in targets
            self.ruleset.ctxt.hook_report''', '''            local = "local" in targets[0]
            remote = "remote" in targets
            self.ruleset.ctxt.hook_report''')]),
    ("P21", "bad", "claims", [(T, 'response.append("DidRemove: %s\\r\\n" % options.get("remove"))',
                               'response.append("DidRemove: %s\\r\\n" % options.get("set"))')]),
    ("P21", "bad", "claim-wrong", [(T, '"DidRemove: ', '"DidSet: ')]),
    ("P21", "bad", "hook-ham", [(X, '''            if spam:
                plugin.plugin_report(msg)
            else:
                plugin.plugin_revoke(msg)
''', '''            plugin.plugin_report(msg)
''')]),
    ("P21", "bad", "hook-revoke", [(X, '''        for plugin in self.plugins.values():
            plugin.plugin_revoke(msg)
''', '''        for plugin in self.plugins.values():
            if spam:
                plugin.plugin_report(msg)
            else:
                plugin.plugin_revoke(msg)
''')]),
    ("P21", "bad", "cli-swap", [(M, "ruleset.ctxt.hook_revoke(msg)",
                                 "ruleset.ctxt.hook_report(msg, False)")]),
    ("P21", "bad", "cli-order", [(M, '''            if options.revoke:
                ruleset.ctxt.hook_revoke(msg)
            elif options.report:
                ruleset.ctxt.hook_report(msg)
            elif options.report_only:''', '''            if options.revoke:
                ruleset.ctxt.hook_revoke(msg)
            elif options.report and not options.test_mode:
                ruleset.ctxt.hook_report(msg)
            elif options.report_only:''')]),
    ("P21", "bad", "bayes", [("oa/plugins/bayes.py", "self.learn_message(msg, False)",
                              "self.learn_message(msg, True)")]),
    ("P21", "bad", "pyzor", [("oa/plugins/pyzor.py", "            if spam:\n",
                              "            if not spam:\n")]),
    ("P21", "bad", "razor", [("oa/plugins/razor2.py", '"razor-revoke")', '"razor-report")')]),
    ("P21", "ok", "helper", [(T, SET, "            self.report(msg, spam, *self.pick(options['set']))\n"),
                             (T, REM, "            local, remote = self.pick(options['remove'])\n            self.ruleset.ctxt.hook_revoke(msg, spam=spam, remote=remote, local=local)\n"),
                             (T, "    def handle(", '''    def report(self, msg, spam, local, remote):
        self.ruleset.ctxt.hook_report(msg, spam, local, remote)

    def pick(self, value):
        targets = set(self.get_targets(value))
        return "local" in targets, "remote" in targets

    def handle(''')]),
    ("P21", "ok", "cli-helper", [(M, '''            if options.revoke:
                ruleset.ctxt.hook_revoke(msg)
            elif options.report:
                ruleset.ctxt.hook_report(msg)
''', '''            if options.report:
                ruleset.ctxt.hook_report(msg, spam=True)
            elif options.revoke:
                ruleset.ctxt.hook_revoke(msg)
''')]),
    ("P21", "ok", "hook", [(X, '''            if spam:
                plugin.plugin_report(msg)
            else:
                plugin.plugin_revoke(msg)
''', '''            hook = plugin.plugin_report if spam else plugin.plugin_revoke
            hook(msg)
''')]),
    ("P21", "ok", "pyzor", [("oa/plugins/pyzor.py", '''            if spam:
                client.report(digest, server.rsplit(":", 1))
            else:
                client.whitelist(digest, server.rsplit(":", 1))''', '''            address = server.rsplit(":", 1)
            if not spam:
                client.whitelist(digest, address)
                continue
            client.report(digest, address)''')]),
]
