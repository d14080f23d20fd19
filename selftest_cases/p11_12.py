D = "oa/dns_interface.py"
R = "oa/rules/ruleset.py"
C = "oa/context.py"
E = "oa/plugins/dns_eval.py"
S = "oa/plugins/spf.py"
CASES = [
    ("P11", "bad", "no-restriction", [(D, "        if self.is_query_restricted(qname):", "        if self.is_query_restricted(qtype):")]),
    ("P11", "bad", "no-available", [(D, "        if not self.available:", "        if not self.available and not self.test:")]),
    ("P11", "bad", "errors", [(D, "except dns.exception.DNSException as e:", "except (dns.resolver.NXDOMAIN, dns.resolver.NoAnswer, dns.exception.Timeout) as e:")]),
    ("P11", "bad", "none", [(D, "            self.log.warn(\"Failed to resolve %s (%s): %s\", qname, qtype, e)\n            return []", "            self.log.warn(\"Failed to resolve %s (%s): %s\", qname, qtype, e)\n            return None")]),
    ("P11", "bad", "suffix", [(D, "            if qname in self.query_restrictions:\n                self.log.debug(self.query_restrictions)\n                return self.query_restrictions[qname]\n", "            for x in self.query_restrictions:\n                if qname.endswith(x):\n                    return self.query_restrictions[x]\n")]),
    ("P11", "bad", "any-parent", [(D, "                return self.query_restrictions[qname]\n", "                if self.query_restrictions[qname]:\n                    return True\n")]),
    ("P11", "bad", "case", [(D, 'qname = qname.lower().rstrip(".")', 'qname = qname.rstrip(".")')]),
    ("P11", "bad", "last-label", [(D, 'qname = qname.split(".", 1)[1]', 'qname = qname.rsplit(".", 1)[0]')]),
    ("P11", "bad", "avail-one", [(D, "random.sample(\n                    set(self.test_qnames), min(3, len(self.test_qnames)))", "random.sample(\n                    set(self.test_qnames), 1)")]),
    ("P11", "bad", "avail-last", [(D, "                if self._query(qname, \"A\"):\n                    self._available = True\n                    break\n            else:\n                self._available = False\n", "                self._available = bool(self._query(qname, \"A\"))\n")]),
    ("P11", "bad", "avail-value", [(D, 'self._available = value == "yes"', 'self._available = bool(value)')]),
    ("P11", "bad", "allow-deny", [(R, 'query_restrictions[qname] = option == "deny"', 'query_restrictions.setdefault(qname, option == "deny")')]),
    ("P11", "bad", "invalid-denied", [(R, 'if option not in ("allow", "deny"):', 'if option not in ("allow", "deny", "bogus"):')]),
    ("P11", "bad", "rotate", [(D, 'self._resolver.rotate = rotate == "rotate"', 'self._resolver.rotate = bool(rotate)')]),
    ("P11", "bad", "servers", [(C, "            nameservers.append(addr)\n", "            nameservers = [addr]\n")]),
    ("P11", "bad", "bypass", [("oa/plugins/spam_cop.py", "mx_domain = self.ctxt.dns.query(domain, 'MX')[0].to_text()", "mx_domain = self.ctxt.dns._query(domain, 'MX')[0].to_text()")]),
    ("P11", "bad", "bypass2", [("oa/plugins/dkim.py", "            a = self.ctxt.dns.query(name, dns.rdatatype.TXT)\n", "            a = dns.resolver.query(name, dns.rdatatype.TXT)\n")]),
    ("P11", "bad", "dkim", [("oa/plugins/dkim.py", "dnsfunc=self.get_txt,\n                                 minkey", "\n                                 minkey")]),
    ("P11", "bad", "spf-avail", [(S, "        if not self.ctxt.dns.available:\n", "        if not self.ctxt.dns:\n")]),
    ("P11", "ok", "one-if", [(D, '''        if self.is_query_restricted(qname):
            self.log.debug("Querying %s is restricted", qname)
            return []

        if not self.available:
            self.log.debug("DNS querying is not available")
            return []

        self.log.debug("Querying %s for %s record", qname, qtype)
        return self._query(qname, qtype)
''', '''        allowed = not self.is_query_restricted(qname) and self.available
        if allowed:
            return self._query(qname, qtype)
        self.log.debug("Not querying %s", qname)
        return []
''')]),
    ("P11", "ok", "labels", [(D, '''        while True:
            if qname in self.query_restrictions:
                self.log.debug(self.query_restrictions)
                return self.query_restrictions[qname]
            try:
                qname = qname.split(".", 1)[1]
            except IndexError:
                return False
''', '''        while qname:
            if qname in self.query_restrictions:
                return self.query_restrictions[qname]
            qname = qname.partition(".")[2]
        return False
''')]),
    ("P11", "ok", "any-available", [(D, '''            for qname in random.sample(
                    set(self.test_qnames), min(3, len(self.test_qnames))):
                if self._query(qname, "A"):
                    self._available = True
                    break
            else:
                self._available = False
''', '''            found = False
            names = random.sample(
                set(self.test_qnames), min(3, len(self.test_qnames)))
            for qname in names:
                found = bool(self._query(qname, "A"))
                if found:
                    break
            self._available = found
''')]),
    ("P11", "ok", "restrictions-loop", [(R, '''            self.ctxt.dns.query_restrictions[qname] = option == "deny"
''', '''            restrictions = self.ctxt.dns.query_restrictions
            restrictions[qname] = (option == "deny")
''')]),
    ("P12", "bad", "rbl", [(E, '''        if self.ctxt.skip_rbl_checks:
            return False

        if subtest is not None:
            try:
                subtest = Regex(subtest)
            except re.error as e:
                self.ctxt.err("Invalid regex %s: %s", subtest, e)
                return False

        for ip in''', '''        if self.ctxt.skip_rbl_checks and subtest is None:
            return False

        if subtest is not None:
            try:
                subtest = Regex(subtest)
            except re.error as e:
                self.ctxt.err("Invalid regex %s: %s", subtest, e)
                return False

        for ip in''')]),
    ("P12", "bad", "all-ips", [(E, '''        for ip in msg.get_untrusted_ips():
            rev = self.ctxt.dns.reverse_ip(ip)
            results = self.ctxt.dns.query("%s.%s" % (rev, rbl_server), qtype)
''', '''        for ip in msg.get_header_ips():
            rev = self.ctxt.dns.reverse_ip(ip)
            results = self.ctxt.dns.query("%s.%s" % (rev, rbl_server), qtype)
''')]),
    ("P12", "bad", "swapped", [(E, 'results = self.ctxt.dns.query("%s.%s" % (domain, rbl_server), "A")', 'results = self.ctxt.dns.query("%s.%s" % (rbl_server, domain), "A")')]),
    ("P12", "bad", "first-only", [(E, '''            for result in results:
                if subtest.match(str(result)):
                    return True
        return False

    def check_rbl(''', '''            for result in results:
                return bool(subtest.match(str(result)))
        return False

    def check_rbl(''')]),
    ("P12", "bad", "first-ip", [(E, '''                if int(result) & mask:
                    return True
        return False''', '''                if int(result) & mask:
                    return True
            return False''')]),
    ("P12", "bad", "txt", [(E, 'return self._check_rbl(msg, rbl_server, qtype="TXT", subtest=subtest)', 'return self._check_rbl(msg, rbl_server, subtest=subtest)')]),
    ("P12", "bad", "new-rule", [(E, '''        if not msg.sender_address:
            self.ctxt.log.debug("Message has no envelope sender")
            return False
        return self._check_rbl_addr''', '''        if not msg.sender_address:
            self.ctxt.log.debug("Message has no envelope sender")
            return False
        if self.ctxt.dns.query("%s.%s" % (msg.sender_address.rsplit("@")[-1], rbl_server)) and not subtest:
            return True
        return self._check_rbl_addr''')]),
    ("P12", "bad", "switch", [(C, "self.skip_rbl_checks = bool(self.conf['skip_rbl_checks'])", "self.skip_rbl_checks = self.conf['skip_rbl_checks'] == 1 and not self.dns.available")]),
    ("P12", "bad", "accreditor", [(E, "        return self.check_rbl(msg, zone_set, rbl_server, subtest, target)", "        return bool(self.ctxt.dns.query(\"%s.%s\" % (accreditor, rbl_server)))")]),
    ("P12", "ok", "helper", [(E, '''        for ip in msg.get_untrusted_ips():
            rev = self.ctxt.dns.reverse_ip(ip)
            results = self.ctxt.dns.query("%s.%s" % (rev, rbl_server), qtype)

            if results and not subtest:
                return True

            for result in results:
                if subtest.match(str(result)):
                    return True
        return False
''', '''        for ip in msg.get_untrusted_ips():
            name = ".".join((self.ctxt.dns.reverse_ip(ip), rbl_server))
            if self._listed(name, qtype, subtest):
                return True
        return False

    def _listed(self, name, qtype, subtest):
        results = self.ctxt.dns.query(name, qtype)
        if subtest is None:
            return bool(results)
        return any(subtest.match(str(result)) for result in results)
''')]),
    ("P12", "ok", "caller-checks", [(E, "        return self._check_multi_rbl(msg, rbl_server, subtest)", "        if self.ctxt.skip_rbl_checks:\n            return False\n        return self._check_multi_rbl(msg, rbl_server, subtest)")]),
    ("P12", "ok", "format", [(E, 'results = self.ctxt.dns.query("%s.%s" % (domain, rbl_server), "A")', 'results = self.ctxt.dns.query(\n                "{}.{}".format(domain, rbl_server), "A")')]),
    ("P12", "ok", "concat", [(E, 'results = self.ctxt.dns.query("%s.%s" % (domain, rbl_server), "A")', 'results = self.ctxt.dns.query(domain + "." + rbl_server)')]),
]
