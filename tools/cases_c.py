F="utils/config.py"
A=["C01","C02","C03","C04","C05"]
SAVE=open("/repo/src/earthkit/regrid/"+F).read()
CASES=[
("env-not-in-temp",[(F,"        st, value, _ = self._env(name)\n        if not st:","        st, value, _ = self._env(name)\n        if not st or self._config_yaml is None:")],A,"bug"),
("env-raw",[(F,"        return getter(name, value, none_ok)","        return value if st else getter(name, value, none_ok)")],A,"bug"),
("env-name",[(F,'name.upper().replace("-", "_")','name.upper().replace("-", "_", 1)')],A,"bug"),
("env-empty",[(F,"        if name in os.environ:\n            return (True, os.environ.get(name), name)","        if os.environ.get(name):\n            return (True, os.environ.get(name), name)")],A,"any"),
("get-default",[(F,"value = self._config[name]","value = self._defaults[name]")],A,"bug"),
("store-first",[(F,"        config_item.validate(name, value)\n        self._config[name] = value\n","        self._config[name] = value\n        config_item.validate(name, value)\n"),(F,"            self._config = config\n            raise\n","            raise\n")],A,"bug"),
("novalidate-temp",[(F,"        config_item.validate(name, value)\n","        if not self._stack and self._config_yaml:\n            config_item.validate(name, value)\n")],A,"bug"),
("norestore",[(F,"            self._config = config\n            raise\n","            raise\n")],A,"bug"),
("swallow",[(F,"        except Exception:\n            self._config = config\n            raise\n","        except TypeError:\n            self._config = config\n            raise\n")],A,"bug"),
("notify-first",[(F,"        config = dict(self._config)\n        try:\n            if len(args) == 0:","        self._notify()\n        config = dict(self._config)\n        try:\n            if len(args) == 0:"),(F,"            raise\n        self._changed()","            raise\n        self._save()")],A,"bug"),
("autosave-ignored",[(F,"        if self._auto_save_config:\n            self._save()","        self._save()")],A,"bug"),
("notify-one",[(F,"            for cb in self._callbacks:\n                cb()","            for cb in self._callbacks[:1]:\n                cb()")],A,"bug"),
("reset-no-notify",[(F,"                self._config[name] = DEFAULTS[name]\n        self._changed()","                self._config[name] = DEFAULTS[name]\n        self._save()")],A,"bug"),
("reset-uses-own-defaults",[(F,"            self._config = dict(**DEFAULTS)","            self._config = dict(**self._defaults)")],A,"bug"),
("reset-alias",[(F,"            self._config = dict(**DEFAULTS)","            self._config = DEFAULTS")],A,"bug"),
("temp-alias",[(F,"        self._config = dict(**defaults)","        self._config = defaults")],A,"bug"),
("temp-nofinally",[(F,"        yield None\n    finally:\n        CONFIG._stack.pop()\n        CONFIG._notify()","        yield None\n    except ValueError:\n        raise\n    CONFIG._stack.pop()\n    CONFIG._notify()")],A,"bug"),
("temp-nonotify-end",[(F,"        CONFIG._stack.pop()\n        CONFIG._notify()","        CONFIG._stack.pop()")],A,"bug"),
("temp-pop0",[(F,"        CONFIG._stack.pop()\n","        CONFIG._stack.pop(0)\n")],A,"bug"),
("temp-from-defaults",[(F,"tmp = Config(config_yaml, self._config)","tmp = Config(config_yaml, self._defaults)")],A,"bug"),
("temp-saves",[(F,"tmp = Config(config_yaml, self._config)","tmp = Config(config_yaml or self._config_yaml, self._config)")],A,"bug"),
("set-not-forwarded",[(F,"    @forward\n    def set(","    def set(")],A,"bug"),
("stack-bottom",[(F,"return func(self._stack[-1], *args, **kwargs)","return func(self._stack[0], *args, **kwargs)")],A,"bug"),
("bad-default",[(F,'    "cache-policy": _(\n        "user",','    "cache-policy": _(\n        "users",')],A,"bug"),
("bad-getter",[(F,'getter="_as_percent"','getter="_as_percents"')],A,"bug"),
("save-inplace",[(F,'with open(tmp, "w") as f:','with open(path, "w") as f:'),(F,"        os.replace(tmp, target)\n","")],A,"bug"),
("save-copy",[(F,"        os.replace(tmp, target)\n","        with open(tmp) as f, open(target, 'w') as g:\n            g.write(f.read())\n")],A,"bug"),
("save-finally",[(F,"                h = CONFIG_AND_HELP.get(k)\n                if h:\n                    print(file=f)\n                    print(\"#\", \"-\" * 76, file=f)\n                    h.save(k, v, f)\n","                h = CONFIG_AND_HELP.get(k)\n                try:\n                    h.save(k, v, f)\n                except Exception:\n                    pass\n")],A,"any"),
("save-early",[(F,"            print(file=f)\n        os.replace(tmp, target)\n","            print(file=f)\n            os.replace(tmp, target)\n")],A,"bug"),
("save-out-of-lock",[(F,"        os.replace(tmp, target)\n    try:","    os.replace(tmp, target)\n    try:")],A,"bug"),
("save-truthy",[(F,"        if value != self.default:\n            print","        if value != self.default and value:\n            print")],A,"bug"),
("save-default-value",[(F,"            yaml.dump({name: value}, f, default","            yaml.dump({name: self.default}, f, default")],A,"bug"),
("load-order",[(F,"            config.update(s)\n\n        # if","            config = dict(s, **config)\n\n        # if")],A,"bug"),
("load-nodefaults",[(F,"            config.update(s)\n\n        # if","            config = s\n\n        # if")],A,"bug"),
# refactorings
("ref-set",[(F,"""            if len(args) == 0:
                assert len(kwargs) > 0
                for k, v in kwargs.items():
                    self._set(k.replace("_", "-"), v)
            elif len(args) == 1 and isinstance(args[0], dict):
                for k, v in args[0].items():
                    self._set(k, v)
            else:
                self._set(*args, **kwargs)
""","""            self._apply(args, kwargs)
"""),(F,"    def _set(self, name","""    def _apply(self, args, kwargs):
        if args:
            if len(args) == 1 and isinstance(args[0], dict):
                for k in args[0]:
                    self._set(k, args[0][k])
                return
            self._set(*args, **kwargs)
            return
        assert len(kwargs) > 0
        for k, v in kwargs.items():
            self._set(k.replace("_", "-"), v)

    def _set(self, name""")],A,"same"),
("ref-changed",[(F,"""        if self._notify_enabled:
            for cb in self._callbacks:
                cb()
""","""        if not self._notify_enabled:
            return
        for i in range(len(self._callbacks)):
            self._callbacks[i]()
""")],A,"same"),
("ref-new-config",[(F,"""    CONFIG._stack.append(s)
    try:
        CONFIG._notify()
        yield None
    finally:
        CONFIG._stack.pop()
        CONFIG._notify()
""","""    stack = CONFIG._stack
    stack.append(s)
    try:
        CONFIG._notify()
        yield
    finally:
        del stack[-1]
        CONFIG._notify()
""")],A,"same"),
("ref-get",[(F,"""        st, value, _ = self._env(name)
        if not st:
            if default is NONE:
                value = self._config[name]
            else:
                value = self._config.get(name, default)
""","""        value = self._raw(name, default)
"""),(F,"    @forward\n    def set(","""    def _raw(self, name, default):
        found, text, _ = self._env(name)
        if found:
            return text
        return self._config[name] if default is NONE else self._config.get(name, default)

    @forward
    def set(""")],A,"same"),
("ref-env",[(F,"""        name = env_var_name(name)
        if name in os.environ:
            return (True, os.environ.get(name), name)
        return (False, None, None)
""","""        var = env_var_name(name)
        try:
            return True, os.environ[var], var
        except KeyError:
            return False, None, None
""")],A,"same"),
("ref-env2",[(F,"""        if name in os.environ:
            return (True, os.environ.get(name), name)
        return (False, None, None)
""","""        value = os.getenv(name)
        if value is None:
            return (False, None, None)
        return (True, value, name)
""")],A,"same"),
("ref-forward",[(F,"""        if self._stack:
            return func(self._stack[-1], *args, **kwargs)
        return func(self, *args, **kwargs)
""","""        target = self._stack[-1] if self._stack else self
        return func(target, *args, **kwargs)
""")],A,"same"),
("ref-save",[(F,"""        with open(tmp, "w") as f:
            print("# This file is automatically generated", file=f)
            print(file=f)

            for k, v in sorted(config.items()):
                h = CONFIG_AND_HELP.get(k)
                if h:
                    print(file=f)
                    print("#", "-" * 76, file=f)
                    h.save(k, v, f)

            print(file=f)
            print("#", "-" * 76, file=f)
            print("# Version of earthkit-regrid", file=f)
            print(file=f)
            yaml.dump({"version": VERSION}, f, default_flow_style=False)
            print(file=f)
        os.replace(tmp, target)
""","""        with open(tmp, "w") as f:
            _write_config(f, config)
        os.rename(tmp, target)
"""),(F,"def save_config(path","""def _write_config(f, config):
    print("# This file is automatically generated", file=f)
    print(file=f)
    for k in sorted(config):
        if k in CONFIG_AND_HELP:
            print(file=f)
            print("#", "-" * 76, file=f)
            CONFIG_AND_HELP[k].save(k, config[k], f)
    print(file=f)
    print("#", "-" * 76, file=f)
    print("# Version of earthkit-regrid", file=f)
    print(file=f)
    yaml.dump({"version": VERSION}, f, default_flow_style=False)
    print(file=f)


def save_config(path""")],A,"same"),
("ref-load",[(F,"            if not isinstance(s, dict):\n                s = {}\n\n            config.update(s)\n","            if isinstance(s, dict):\n                config = {**config, **s}\n")],A,"same"),
("ref-validate",[(F,"""        if self.validator is not None and not self.validator.check(value):
            raise ValueError""","""        if self.validator is None:
            return
        if not self.validator.check(value):
            raise ValueError""")],A,"same"),
("ref-temp",[(F,"""        if len(args) > 0 or len(kwargs) > 0:
""","""        if args or kwargs:
""")],A,"same"),
("ref-snapshot",[(F,"""        config = dict(self._config)
        try:""","""        config = self._config.copy()
        try:""")],A,"same"),
("ref-snapshot2",[(F,"""        config = dict(self._config)
        try:""","""        config = self._config
        self._config = dict(config)
        try:""")],A,"same"),
]
