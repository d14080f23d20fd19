M = "oa/message.py"
N = "oa/networks.py"
X = "oa/context.py"
CASES = [
    ("P27", "bad", "resume", [(M, "                if is_trusted and not found_msa:\n", "                is_trusted = is_trusted or in_trusted\n                if is_trusted and not found_msa:\n")]),
    ("P27", "bad", "internal-only", [(M, "                            is_trusted = False\n                            is_internal = False\n\n", "                            is_trusted = False\n\n")]),
    ("P27", "bad", "auth-ignored", [(M, "if not in_trusted and not has_auth:", "if not in_trusted:")]),
    ("P27", "bad", "auth-too-much", [(M, "if not in_trusted and not has_auth:", "if not in_trusted and not (has_auth or in_msa):")]),
    ("P27", "bad", "msa-untrusts", [(M, "                if is_trusted and not found_msa:\n", "                if is_trusted:\n")]),
    ("P27", "bad", "private", [(M, "elif not ip.is_private and not has_auth:", "elif not ip.is_global and not has_auth:")]),
    ("P27", "bad", "last-index", [(M, "self.last_trusted_relay_index = position", "self.last_trusted_relay_index = len(self.trusted_relays)")]),
    ("P27", "bad", "untrusted-also-external", [(M, "                if is_internal:\n                    self.internal_relays", "                if is_internal and in_internal:\n                    self.internal_relays")]),
    ("P27", "bad", "farthest", [(M, "self.external_relays[0]['ip']", "self.external_relays[-1]['ip']")]),
    ("P27", "bad", "sender-last", [(M, 'sender = self.external_relays[0].get("envfrom")', 'sender = self.external_relays[-1].get("envfrom")')]),
    ("P27", "bad", "sender-trusted-first", [(M, 'self.trusted_relays[-1].get("envfrom")', 'self.trusted_relays[0].get("envfrom")')]),
    ("P27", "bad", "sender-always", [(M, "if self.trusted_relays and not always_trust_envelope_from:", "if self.trusted_relays:")]),
    ("P27", "bad", "sorted", [(M, "        for position, relay in enumerate(relays):", "        for position, relay in enumerate(reversed(relays)):")]),
    ("P27", "bad", "any-net", [(N, "            if query in network:\n                return accepted\n", "            if query in network and accepted:\n                return accepted\n")]),
    ("P27", "bad", "not-excluded", [(N, "        self.internal.add(network, not excluded)\n\n    def add_msa", "        self.internal.add(network, True)\n\n    def add_msa")]),
    ("P27", "bad", "not-cleared", [(N, "            self.internal.clear()\n", "            pass\n")]),
    ("P27", "bad", "cleared-always", [(N, "        if not self.internal.configured and self.internal:\n", "        if self.internal:\n")]),
    ("P27", "bad", "lost-local", [(N, "        self._networks = []\n        self._networks.extend(self._always_accepted)\n\n    def __contains__", "        self._networks = []\n\n    def __contains__")]),
    ("P27", "bad", "trusted-not-internal", [(N, "        if not self.internal.configured:\n            self.internal.add(network, not excluded)\n", "")]),
    ("P27", "bad", "mask", [(N, 'mask = network.count(".") * 8', 'mask = (network.count(".") + 1) * 8')]),
    ("P27", "bad", "excl-shape", [(N, "(?P<port>[0-9]{0,5})", "(?P<port>[0-9]?)")]),
    ("P27", "bad", "feed-missing", [(X, "self.networks.add_msa_network(", "self.networks.add_trusted_network(")]),
    ("P27", "ok", "while", [(M, "        for position, relay in enumerate(relays):\n            relay['msa'] = 0\n", "        position = -1\n        for relay in relays:\n            position += 1\n            relay['msa'] = 0\n")]),
    ("P27", "ok", "helper", [(M, '''                if is_internal:
                    self.internal_relays.append(relay)
                    self.last_internal_relay_index = position
                else:
                    self.external_relays.append(relay)

                if is_trusted:
                    self.trusted_relays.append(relay)
                    self.last_trusted_relay_index = position
                else:
                    self.untrusted_relays.append(relay)
''', '''                self._sort_relay(relay, position, is_trusted, is_internal)
'''), (M, "    def _parse_relays(self, relays):", '''    def _sort_relay(self, relay, position, is_trusted, is_internal):
        if is_trusted:
            self.trusted_relays.append(relay)
            self.last_trusted_relay_index = position
        else:
            self.untrusted_relays.append(relay)
        side = self.internal_relays if is_internal else self.external_relays
        side.append(relay)
        if is_internal:
            self.last_internal_relay_index = position

    def _parse_relays(self, relays):''')]),
    ("P27", "ok", "continue", [(M, '''            if relay['ip']:
                ip = ipaddress''', '''            if not relay['ip']:
                continue
            else:
                ip = ipaddress''')]),
    ("P27", "ok", "demorgan", [(M, "if not in_trusted and not has_auth:", "if not (in_trusted or has_auth):")]),
    ("P27", "ok", "contains-next", [(N, '''        for network, accepted in self._networks:
            if query in network:
                return accepted
        return False
''', '''        for entry in self._networks:
            if query not in entry[0]:
                continue
            return bool(entry[1])
        return False
''')]),
    ("P27", "ok", "first-external", [(M, '''        if self.external_relays:
            relays_tags.update({
                "LASTEXTERNALIP": self.external_relays[0]['ip'],
                "LASTEXTERNALRDNS": self.external_relays[0]['rdns'],
                "LASTEXTERNALHELO": self.external_relays[0]['helo']
            })
''', '''        if self.external_relays:
            handover = self.external_relays[0]
            for tag, key in (("IP", "ip"), ("RDNS", "rdns"),
                             ("HELO", "helo")):
                relays_tags["LASTEXTERNAL" + tag] = handover[key]
''')]),
    ("P27", "ok", "or-sender", [(M, '''            sender = self.external_relays[0].get("envfrom")
            if sender:
                self.sender_address = sender.strip()
                return
        else:''', '''            nearest = self.external_relays[0]
            if nearest.get("envfrom"):
                self.sender_address = nearest["envfrom"].strip()
            return
        else:''')]),
]
