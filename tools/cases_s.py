F="utils/config.py"
A=["C06","C07"]
CASES=[
("loc-empty",[(F,"    if not config_file:\n        config_file = os.path.exp","    if config_file is None:\n        config_file = os.path.exp")],A,"bug"),
("loc-dirname",[(F,"config_file = os.path.expanduser(os.path.join(CONFIG_DIR, CONFIG_FILE_NAME))","config_file = os.path.expanduser(os.path.join(CONFIG_DIR, 'conf', CONFIG_FILE_NAME))")],A,"bug"),
("loc-name",[(F,'CONFIG_FILE_ENV_NAME = "CONFIG_FILE"','CONFIG_FILE_ENV_NAME = "CONFIG"')],A,"bug"),
("loc-exists-only",[(F,"        config_file = os.environ[name]\n    if not config_file:","        config_file = os.environ[name]\n    if not config_file or not os.path.exists(config_file):")],A,"bug"),
("migrate-over",[(F,"            if not os.path.exists(config_file):\n                if not _migrate_old_config(config_file):","            if not _migrate_old_config(config_file):\n                if not os.path.exists(config_file):")],A,"bug"),
("always-save",[(F,"            if not os.path.exists(config_file):\n                if not _mig","            if True:\n                if not _mig")],A,"bug"),
("no-defaults",[(F,"                if not _migrate_old_config(config_file):\n                    save_config(config_file, DEFAULTS)","                _migrate_old_config(config_file)")],A,"bug"),
("migrate-defaults-over",[(F,"                config.update(s)\n                save_config(config_file, config)","                s.update(config)\n                save_config(config_file, s)")],A,"bug"),
("migrate-only-new",[(F,"                config.update(s)\n                save_config(config_file, config)","                save_config(config_file, s)")],A,"any"),
("migrate-move",[(F,"                save_config(config_file, config)\n                return True","                save_config(config_file, config)\n                os.unlink(old_config_file)\n                return True")],A,"bug"),
("migrate-false",[(F,"                save_config(config_file, config)\n                return True","                save_config(config_file, config)")],A,"bug"),
("migrate-to-default-place",[(F,"                config.update(s)\n                save_config(config_file, config)","                config.update(s)\n                save_config(os.path.join(CONFIG_DIR, CONFIG_FILE_NAME), config)")],A,"bug"),
("save-raises",[(F,"                if not _migrate_old_config(config_file):\n                    save_config(config_file, DEFAULTS)\n        except Exception:","                if not _migrate_old_config(config_file):\n                    save_config(config_file, DEFAULTS)\n        except ValueError:")],A,"bug"),
("unreadable-save",[(F,"""            config_yaml,
            exc_info=True,
        )

    return config, save""","""            config_yaml,
            exc_info=True,
        )
        save = True

    return config, save""")],A,"bug"),
("save-before-read",[(F,"""    save = False
    config = dict(**DEFAULTS)
    try:
        with""","""    save = True
    config = dict(**DEFAULTS)
    try:
        with"""),(F,"""        if config.get("version") < VERSION:
            save = True
""","""        if config.get("version") >= VERSION:
            save = False
""")],A,"bug"),
("none-on-dirfail",[(F,"""            f"Cannot create earthkit-regrid config directory={config_dir}",
            exc_info=True,
        )
""","""            f"Cannot create earthkit-regrid config directory={config_dir}",
            exc_info=True,
        )
        return None
""")],A,"bug"),
("same-pathlib",[(F,"            if not os.path.exists(config_file):\n","            import pathlib\n            if not pathlib.Path(config_file).exists():\n")],A,"same"),
("same-exist-ok",[(F,"        if not os.path.exists(config_dir):\n","        if not os.path.isdir(config_dir):\n")],A,"same"),
("same-env-get",[(F,"    config_file = None\n\n    name = env_var_name(CONFIG_FILE_ENV_NAME)\n    if name in os.environ:\n        config_file = os.environ[name]\n    if not config_file:","    config_file = os.environ.get(env_var_name(CONFIG_FILE_ENV_NAME))\n    if not config_file:")],A,"same"),
("same-or",[(F,"    config_file = None\n\n    name = env_var_name(CONFIG_FILE_ENV_NAME)\n    if name in os.environ:\n        config_file = os.environ[name]\n    if not config_file:\n        config_file = ","    config_file = os.environ.get(env_var_name(CONFIG_FILE_ENV_NAME), '') or ")],A,"same"),
("same-early",[(F,"    if os.path.exists(config_dir):\n        try:\n            if not os.path.exists(config_file):\n                if not _migrate_old_config(config_file):\n                    save_config(config_file, DEFAULTS)","    if os.path.exists(config_dir):\n        try:\n            if os.path.exists(config_file):\n                return config_file\n            migrated = _migrate_old_config(config_file)\n            if not migrated:\n                save_config(config_file, DEFAULTS)")],A,"same"),
("same-merge",[(F,"                config.update(s)\n                save_config(config_file, config)","                save_config(config_file, {**config, **s})")],A,"same"),
("same-umask-less",[(F,"os.makedirs(config_dir, 0o700)","os.makedirs(config_dir, mode=0o700, exist_ok=True)")],A,"same"),
("dump-defaults",[(F,"        for k, v in sorted(self._config.items()):\n            yield","        for k, v in sorted(self._defaults.items()):\n            yield")],A,"bug"),
("dump-perm",[(F,"    @forward\n    def dump(","    def dump(")],A,"bug"),
("dump-only-known",[(F,"            yield ((k, v, CONFIG_AND_HELP.get(k)))","            if v != DEFAULTS.get(k):\n                yield ((k, v, CONFIG_AND_HELP.get(k)))")],A,"bug"),
("env-wrong",[(F,"                r[k] = (name, value)","                r[k] = (name, self._config[k])")],A,"bug"),
("env-all",[(F,"            if st:\n                r[k] = (name, value)","            r[k] = (name, value)")],A,"bug"),
("repr-default",[(F,'                r.append(f"{k}: ({v}, {default})")','                r.append(f"{k}: ({default}, {default})")')],A,"bug"),
("repr-noenv",[(F,"            if k in env:\n                r.append(","            if k not in self._config:\n                r.append(")],A,"bug"),
("html-env",[(F,"% (k, env[k][0], env[k][1], v, default)","% (k, env[k][0], v, v, default)")],A,"bug"),
("saveas-perm",[(F,"    @forward\n    def save_as(","    def save_as(")],A,"bug"),
("saveas-own",[(F,"            save_config(path, self._config)","            save_config(self._config_yaml, self._config)")],A,"bug"),
("saveas-sets",[(F,"            save_config(path, self._config)","            save_config(path, self._config)\n            self._config_yaml = path")],A,"bug"),
("same-repr",[(F,'        return "\\n".join(r)\n\n    @forward\n    def _repr_html','        text = ""\n        for x in r:\n            text += ("\\n" if text else "") + x\n        return text\n\n    @forward\n    def _repr_html')],A,"same"),
("same-dump",[(F,"        for k, v in sorted(self._config.items()):\n            yield ((k, v, CONFIG_AND_HELP.get(k)))","        for name in sorted(self._config):\n            yield name, self._config[name], CONFIG_AND_HELP.get(name)")],A,"same"),
]
