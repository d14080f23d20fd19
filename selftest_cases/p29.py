G = "oa/config.py"
R = "oa/rules/parser.py"
C = "oa/conf.py"
M = "scripts/match.py"
BODY = '''    config_files = []
    config_files.extend(
            sorted(get_files_with_extension(siteconfig_path, ".pre")))
    if siteconfig_path != config_path:
        config_files.extend(
                sorted(get_files_with_extension(config_path, ".pre")))
        config_files.extend(
                sorted(get_files_with_extension(config_path, ".cf")))
    config_files.extend(
            sorted(get_files_with_extension(siteconfig_path, ".cf")))
'''
CASES = [
    ("P29", "bad", "unsorted", [(G, '''    config_files.extend(
            sorted(get_files_with_extension(siteconfig_path, ".cf")))
''', '''    config_files.extend(
            get_files_with_extension(siteconfig_path, ".cf"))
''')]),
    ("P29", "bad", "sorted-by-len", [(G, '''            sorted(get_files_with_extension(siteconfig_path, ".cf")))
''', '''            sorted(get_files_with_extension(siteconfig_path, ".cf"),
                   key=len))
''')]),
    ("P29", "bad", "in-ext", [(G, "if p.endswith(extension):", "if extension in p:")]),
    ("P29", "bad", "lower", [(G, "if p.endswith(extension):", "if p.endswith(extension) and p[0].islower():")]),
    ("P29", "bad", "cf-first", [(G, '''                sorted(get_files_with_extension(config_path, ".pre")))
        config_files.extend(
                sorted(get_files_with_extension(config_path, ".cf")))
''', '''                sorted(get_files_with_extension(config_path, ".cf")))
        config_files.extend(
                sorted(get_files_with_extension(config_path, ".pre")))
''')]),
    ("P29", "bad", "prefs-first", [(G, "            config_files.append(userpref_path)", "            config_files.insert(0, userpref_path)")]),
    ("P29", "bad", "no-expand", [(G, "        userpref_path = os.path.expanduser(userpref_path)\n", "")]),
    ("P29", "bad", "swapped", [(M, "oa.config.get_config_files(options.configpath,\n                                              options.sitepath,", "oa.config.get_config_files(options.sitepath,\n                                              options.configpath,")]),
    ("P29", "bad", "dedupe", [(R, "    for filename in files:\n        parser.parse_file(filename)", "    for filename in set(files):\n        parser.parse_file(filename)")]),
    ("P29", "bad", "seen", [(R, "    for filename in files:\n        parser.parse_file(filename)", "    seen = set()\n    for filename in files:\n        if filename in seen:\n            continue\n        seen.add(filename)\n        parser.parse_file(filename)")]),
    ("P29", "bad", "first-wins", [(R, "                self.results[name][rtype] = value\n", "                self.results[name].setdefault(rtype, value)\n")]),
    ("P29", "bad", "drop-old", [(R, '                self.results[name]["type"] = rtype\n', '                self.results[name] = {}\n                self.results[name]["type"] = rtype\n')]),
    ("P29", "bad", "type-kept", [(R, '                self.results[name]["type"] = rtype\n', '                self.results[name].setdefault("type", rtype)\n')]),
    ("P29", "bad", "tflags-add", [(R, '                self.results[name][rtype] = value\n', '                if rtype == "tflags":\n                    value = self.results[name].get("tflags", []) + value\n                self.results[name][rtype] = value\n')]),
    ("P29", "bad", "include-cwd", [(R, "                                 dirname=dirname)", "                                 dirname=None)")]),
    ("P29", "bad", "ignore-leak", [(R, "        # Conditional blocks don't extend over the files.\n        self._ignore = False\n", "")]),
    ("P29", "bad", "stop-blank", [(R, "            for line_no, line in enumerate(rulef):\n", "            for line_no, line in enumerate(rulef):\n                if not line:\n                    break\n")]),
    ("P29", "bad", "int-sticky", [(C, "            if value:\n                self.set_global(global_key, int(value))", "            if value and not self.get_global(global_key):\n                self.set_global(global_key, int(value))")]),
    ("P29", "bad", "no-defaults", [(C, "        self.get_global(key).append(value)\n", "        self.set_global(key, [value])\n")]),
    ("P29", "ok", "loop", [(G, BODY, '''    places = [(siteconfig_path, ".pre")]
    if siteconfig_path != config_path:
        places.append((config_path, ".pre"))
        places.append((config_path, ".cf"))
    places.append((siteconfig_path, ".cf"))
    config_files = []
    for place, extension in places:
        for name in sorted(get_files_with_extension(place, extension)):
            config_files.append(name)
''')]),
    ("P29", "ok", "helper", [(G, BODY, '''    def found(place, extension):
        return sorted(get_files_with_extension(place, extension))

    config_files = found(siteconfig_path, ".pre")
    if not siteconfig_path == config_path:
        config_files += found(config_path, ".pre")
        config_files += found(config_path, ".cf")
    config_files += found(siteconfig_path, ".cf")
''')]),
    ("P29", "ok", "listing", [(G, '''    path = os.path.expanduser(path)
    for p in os.listdir(path):
        if p.endswith(extension):
            yield os.path.join(path, p)
''', '''    path = os.path.expanduser(path)
    names = [p for p in os.listdir(path) if p.endswith(extension)]
    return [os.path.join(path, p) for p in names]
''')]),
    ("P29", "ok", "rule-local", [(R, '''                if value.startswith("eval:"):
                    # This is for compatibility with SA ruleset
                    self.results[name]["target"] = rtype
                    rtype = "eval"
                self.results[name]["type"] = rtype
                self.results[name]["value"] = value
''', '''                rule = self.results[name]
                if value.startswith("eval:"):
                    rule["target"] = rtype
                    rtype = "eval"
                rule.update({"type": rtype, "value": value})
''')]),
    ("P29", "ok", "setdefault", [(R, '''            if name not in self.results:
                self.results[name] = dict()
''', '''            self.results.setdefault(name, {})
''')]),
]
