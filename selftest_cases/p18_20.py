B = "oa/protocol/base.py"
C = "oa/protocol/check.py"
S = "oa/server.py"
T = "oa/protocol/tell.py"
N = "oa/protocol/noop.py"
LOOP = '''        while content_length is None or content_length > 0:
            chunk = self.rfile.read(min(content_length or self.chunk_size,
                                        self.chunk_size))
            if not chunk:
                break
            message_chunks.append(chunk)
            if content_length is not None:
                content_length -= len(chunk)
'''
RESP = '''        for response in self.handle(message, options):
            self.log.debug("Writing response: %s", response)
            self.wfile.write(response.encode("utf8"))
'''
OK = '''        ok_line = "SPAMD/%s 0 %s\\r\\n" % (oa.__version__, self.ok_code)
        self.wfile.write(ok_line.encode("utf8"))
'''
TWO = '''        result = "".join(self.extra_details(msg, options))
        yield "Content-length: %s\\r\\n\\r\\n" % len(result.encode("utf8"))
        yield result
'''
CASES = [
    ("P18", "bad", "characters", [(C, 'len(result.encode("utf8"))',
                                   "len(result)")]),
    ("P18", "bad", "latin1-length", [(C, 'len(result.encode("utf8"))',
                                      'len(result.encode("latin1", "replace"))')]),
    ("P18", "bad", "strip-after", [(C, "        yield result\n",
                                    "        yield result.strip()\n")]),
    ("P18", "bad", "no-blank", [(C, '%s\\r\\n\\r\\n"', '%s\\r\\n"')]),
    ("P18", "bad", "trailing", [(C, "        yield result\n",
                                 "        yield result\n        yield '\\r\\n'\n")]),
    ("P18", "bad", "status-after", [(B, OK + RESP, RESP + OK)]),
    ("P18", "bad", "lf", [(B, '0 %s\\r\\n"', '0 %s\\n"')]),
    ("P18", "bad", "latin1", [(B, 'response.encode("utf8")',
                               'response.encode("latin1", "replace")')]),
    ("P18", "bad", "strip", [(B, 'response.encode("utf8")',
                              'response.strip().encode("utf8")')]),
    ("P18", "bad", "skip-empty", [(B, RESP, RESP.replace(
        "            self.wfile", "            if len(response) > 4096:\n"
        "                continue\n            self.wfile"))]),
    ("P18", "bad", "tell-line", [(T, '"DidSet: %s\\r\\n"', '"DidSet: %s"')]),
    ("P18", "bad", "error-then-ok", [(B, "            self.wfile.write(error_line.encode(\"utf8\"))\n            return\n",
                                      "            self.wfile.write(error_line.encode(\"utf8\"))\n")]),
    ("P18", "ok", "joined", [(C, TWO, '''        result = "".join(self.extra_details(msg, options))
        data = result.encode("utf8")
        yield "Content-length: {0}\\r\\n\\r\\n{1}".format(len(data), result)
''')]),
    ("P18", "ok", "helper", [(B, OK + RESP, '''        self.send("SPAMD/%s 0 %s\\r\\n" % (oa.__version__, self.ok_code))
        responses = self.handle(message, options)
        for response in responses:
            self.send(response)
'''), (B, '''    def handle(self, msg, options):
''', '''    def send(self, data):
        self.wfile.write(data.encode("utf-8"))

    def handle(self, msg, options):
''')]),
    ("P18", "ok", "tell-yield", [(T, '''            response.append("DidSet: %s\\r\\n" % options.get("set"))''',
                                  '''            yield "DidSet: " + options["set"] + "\\r\\n"''')]),
    ("P18", "ok", "ping", [(N, 'return ""', 'return ()')]),
    ("P19", "bad", "chunk-decode", [(B, "message_chunks.append(chunk)",
                                     'message_chunks.append(chunk.decode("utf8", "ignore").encode("utf8"))')]),
    ("P19", "bad", "over-read", [(B, '''self.rfile.read(min(content_length or self.chunk_size,
                                        self.chunk_size))''',
                                  "self.rfile.read(self.chunk_size)")]),
    ("P19", "bad", "one-read", [(B, LOOP, '''        chunk = self.rfile.read(min(content_length or self.chunk_size,
                                    self.chunk_size))
        message_chunks.append(chunk)
''')]),
    ("P19", "bad", "count-chunks", [(B, "content_length -= len(chunk)",
                                     "content_length -= self.chunk_size")]),
    ("P19", "bad", "short-stop", [(B, "            if not chunk:\n",
                                   "            if len(chunk) < 16:\n")]),
    ("P19", "bad", "latin", [(B, 'message.decode("utf8", "ignore")',
                              'message.decode("latin1", "ignore")')]),
    ("P19", "bad", "no-decompress", [(B, "message = zlib.decompress(message)",
                                      "zlib.decompress(message)")]),
    ("P19", "bad", "decode-first", [(B, "message = zlib.decompress(message)",
                                     "message = zlib.decompress(message.strip())")]),
    ("P19", "bad", "front", [(B, "message_chunks.append(chunk)",
                              "message_chunks.insert(0, chunk)")]),
    ("P19", "bad", "gt1", [(B, "content_length > 0:", "content_length > 1:")]),
    ("P19", "ok", "swapped", [(B, LOOP, '''        while True:
            if content_length is not None and content_length <= 0:
                break
            size = self.chunk_size
            if content_length is not None:
                size = min(size, content_length)
            chunk = self.rfile.read(size)
            if not chunk:
                break
            message_chunks.append(chunk)
            if content_length is not None:
                content_length = content_length - len(chunk)
''')]),
    ("P19", "ok", "concat", [(B, "message_chunks.append(chunk)", "data += chunk"),
                             (B, "message_chunks = list()", 'data = b""'),
                             (B, 'message = b"".join(message_chunks)', "message = data")]),
    ("P20", "bad", "keyerror", [(S, "except (ValueError, KeyError)",
                                 "except ValueError")]),
    ("P20", "bad", "decode", [(S, 'decode("utf8", "replace")', 'decode("utf8")')]),
    ("P20", "bad", "status0", [(S, "SPAMD/%s 76 Bad", "SPAMD/%s 0 Bad")]),
    ("P20", "bad", "internal", [(S, '''        # Run the command handler
        handler(self.rfile, self.wfile, self.server)
''', ""), (S, '''            handler = COMMANDS[command.upper()]
''', '''            handler = COMMANDS[command.upper()]
            handler(self.rfile, self.wfile, self.server)
''')]),
    ("P20", "bad", "negative", [(B, "            if content_length < 0:\n                raise oa.errors.InvalidOption(error_msg)\n", "")]),
    ("P20", "bad", "int", [(B, "except ValueError:\n                raise oa",
                            "except TypeError:\n                raise oa")]),
    ("P20", "bad", "no-return", [(B, "            self.wfile.write(error_line.encode(\"utf8\"))\n            return\n",
                                  "            self.wfile.write(error_line.encode(\"utf8\"))\n")]),
    ("P20", "bad", "colon", [(B, "                raise oa.errors.InvalidOption(error_msg)\n            name, value",
                              "                continue\n            name, value")]),
    ("P20", "bad", "zlib", [(B, "except zlib.error", "except ValueError")]),
    ("P20", "ok", "partition", [(B, '''            name, value = line.split(":", 1)
''', '''            name, _, value = line.partition(":")
''')]),
    ("P20", "ok", "get", [(S, '''        try:
            command, proto_version = line.split()
            handler = COMMANDS[command.upper()]
        except (ValueError, KeyError):
''', '''        words = line.split()
        handler = None
        if len(words) == 2:
            handler = COMMANDS.get(words[0].upper())
        if handler is None:
''')]),
]
