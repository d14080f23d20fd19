M = "oa/message.py"
H = "oa/plugins/header_eval.py"
RE = "oa/plugins/relay_eval.py"
S = "oa/plugins/spf.py"
ADDR = '''            for dummy, addr in email.utils.getaddresses([value]):
                if addr:
                    values.append(addr)
                    break
'''
REL = '''        for relay in msg.untrusted_relays + msg.trusted_relays:
'''
CASES = [
    ("P33", "bad", "cached-list", [(M, "            return list(result)\n",
                                    "            return result\n")]),
    ("P33", "bad", "shared-cache", [(M, '@_memoize("name_headers")',
                                     '@_memoize("addr_headers")')]),
    ("P33", "bad", "mime-cache", [(M, '@_memoize("mime_headers")',
                                   '@_memoize("headers")')]),
    ("P33", "bad", "raw-cache", [(M, '@_memoize("mime_headers")',
                                  '@_memoize("raw_mime_headers")')]),
    ("P33", "bad", "fold-get", [(M, "super(_Headers, self).get(k.lower(), d)",
                                 "super(_Headers, self).get(k, d)")]),
    ("P33", "bad", "fold-set", [(M,
        "super(_Headers, self).__setitem__(key.lower(), value)",
        "super(_Headers, self).__setitem__(key.title(), value)")]),
    ("P33", "bad", "all-addresses-when-cached", [(M, '''            if result is None:
                result = func(fself, name)
                cache[name] = result
''', '''            if not result:
                result = func(fself, name)
                cache[name] = cache.get(name, []) + result[1:]
''')]),
    ("P33", "bad", "generator", [(M, '''        values = list()
        for value in self.get_decoded_header(header_name):
            for dummy, addr in email.utils.getaddresses([value]):
                if addr:
                    values.append(addr)
                    break
        return values
''', '''        values = self.get_decoded_header(header_name)
        for i, value in enumerate(values):
            for dummy, addr in email.utils.getaddresses([value]):
                if addr:
                    values[i] = addr
        return values
''')]),
    ("P33", "bad", "in-place-relays", [(H, REL, '''        relays = msg.untrusted_relays
        relays += msg.trusted_relays
        for relay in relays:
''')]),
    ("P33", "bad", "extend-relays", [(H, REL, '''        relays = msg.untrusted_relays
        relays.extend(msg.trusted_relays)
        for relay in relays:
''')]),
    ("P33", "bad", "pop-relay", [(RE, '''        for index, relay in enumerate(msg.untrusted_relays):
''', '''        for index, relay in enumerate(msg.untrusted_relays):
            relay.pop("id", None)
''')]),
    ("P33", "bad", "delete-raw", [(H, '''            raw_headers = {name: values
                           for name, values in msg.raw_headers.items()
                           if name.lower() not in ("subject", "from")}
''', '''            raw_headers = msg.raw_headers
            raw_headers.pop("subject", None)
            raw_headers.pop("from", None)
''')]),
    ("P33", "bad", "reverse-raw", [(S, '''msg.get_decoded_header("received-spf")
''', '''msg.get_raw_header("received-spf")
''')]),
    ("P33", "bad", "text", [("oa/plugins/body_eval.py", '''msg.text
''', '''msg.text
''')]) if False else
    ("P33", "bad", "sender", [(S, '''            if msg.sender_address:
                if self''', '''            if msg.sender_address:
                msg.sender_address = msg.sender_address.lower()
                if self''')]),
    ("P33", "ok", "copied-in-helper", [(M, '''            # The caller may change the list.
            return list(result)
''', '''            return [value for value in result]
''')]),
    ("P33", "ok", "key-error", [(M, '''            cache = getattr(fself, self._cache_name)
            result = cache.get(name)
            if result is None:
                result = func(fself, name)
                cache[name] = result
''', '''            cache = getattr(fself, self._cache_name)
            result = cache.get(name)
            if result is not None:
                return list(result)
            result = cache[name] = func(fself, name)
''')]),
    ("P33", "ok", "helper", [(M, ADDR, '''            addr = self._first(value)
            if addr:
                values.append(addr)
'''), (M, '''    @_memoize("name_headers")
''', '''    @staticmethod
    def _first(value):
        for dummy, addr in email.utils.getaddresses([value]):
            if addr:
                return addr
        return None

    @_memoize("name_headers")
''')]),
    ("P33", "ok", "comprehension", [(M, '''        values = list()
        for value in self.get_raw_mime_header(header_name):
            values.append(self._decode_header(value))
        return values
''', '''        return [self._decode_header(value)
                for value in self.get_raw_mime_header(header_name)]
''')]),
    ("P33", "ok", "copy-then-extend", [(H, REL, '''        relays = list(msg.untrusted_relays)
        relays.extend(msg.trusted_relays)
        for relay in relays:
''')]),
    ("P33", "ok", "sorted", [(H, REL, '''        for relay in sorted(msg.untrusted_relays + msg.trusted_relays,
                            key=str):
''')]),
    ("P33", "ok", "reversed", [(S, '''            received_spf_headers.reverse()
''', '''            received_spf_headers = received_spf_headers[::-1]
''')]),
    ("P33", "ok", "split-parse", [(M, '''        self._parse_message()
''', '''        self._parse_all()
'''), (M, '''    @staticmethod
    def _decode_header(''', '''    def _parse_all(self):
        self._parse_message()

    @staticmethod
    def _decode_header(''')]),
]
CASES = [c for c in CASES if c]
