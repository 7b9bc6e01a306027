F="utils/caching.py"
A=["D01","D02","D03","D04","D05","D06","D07"]
CASES=[
# D01
("rename-gone",[(F,"owner_data = create(path + \".tmp\", args)\n                        os.rename(path + \".tmp\", path)","owner_data = create(path, args)")],A,"bug"),
("no-recheck",[(F,"                if not os.path.exists(path):  # Check again, another thread/process may have created the file\n                    try:","                if True:\n                    try:")],A,"bug"),
("lock-per-tmp",[(F,"            lock = path + \".lock\"\n            with FileLock(lock):\n                if not os.path.exists(path):  # Check again, another thread/process may have created the file\n                    try:","            lock = path + str(threading.get_ident()) + \".lock\"\n            with FileLock(lock):\n                if not os.path.exists(path):  # Check again, another thread/process may have created the file\n                    try:")],A,"bug"),
("update-before-rename",[(F,"                        owner_data = create(path + \".tmp\", args)\n                        os.rename(path + \".tmp\", path)\n","                        owner_data = create(path + \".tmp\", args)\n                        CACHE._update_entry(path + '.tmp', owner_data)\n                        os.rename(path + \".tmp\", path)\n"),(F,"                    CACHE._update_entry(path, owner_data)\n","")],A,"bug"),
("no-checksize",[(F,"                    CACHE._update_entry(path, owner_data)\n                    CACHE.check_size()\n","                    CACHE._update_entry(path, owner_data)\n")],A,"bug"),
("force-norereg",[(F,"                CACHE._decache_file(path)\n                record = CACHE._register_cache_file(path, owner, args)\n","                CACHE._decache_file(path)\n")],A,"bug"),
("force-nodecache",[(F,"                CACHE._decache_file(path)\n                record = CACHE","                record = CACHE")],A,"bug"),
("forget-failed",[(F,"                        CACHE._decache_file(path)\n                        raise\n","                        raise\n")],A,"bug"),
("swallow-create",[(F,"                        CACHE._decache_file(path)\n                        raise\n","                        CACHE._decache_file(path)\n                        return None\n")],A,"bug"),
("ownerdata-args-swapped",[(F,"force = force(args, path, owner_data)","force = force(args, path, None)")],A,"any"),
("rename-copy",[(F,"                        os.rename(path + \".tmp\", path)\n","                        shutil.copy(path + \".tmp\", path)\n")],A,"bug"),
# D02
("ensure-gone-delete",[(F,"    def _delete_file(self, path):\n        self._ensure_in_cache(path)\n","    def _delete_file(self, path):\n")],A,"bug"),
("ensure-prefix",[(F,"path.startswith(os.path.join(self.directory(), \"\"))","path.startswith(self.directory())")],A,"bug"),
("ensure-in",[(F,"path.startswith(os.path.join(self.directory(), \"\"))","self.directory() in path")],A,"bug"),
("rmtree-link",[(F,"if os.path.isdir(path) and not os.path.islink(path):","if os.path.isdir(path):")],A,"bug"),
("register-unconfined",[(F,"        self._ensure_in_cache(path)\n\n        with self.connection as db:\n            now","        with self.connection as db:\n            now")],A,"any"),
("housekeeping-walkup",[(F,"        top = self._policy.directory()\n","        top = os.path.dirname(self._policy.directory())\n")],A,"bug"),
("housekeeping-db",[(F,"                if name == CACHE_DB:\n                    continue\n","")],A,"bug"),
("housekeeping-fresh",[(F,"                    if time.time() - s.st_mtime < 120:  # Two minutes\n                        continue\n","                    pass\n")],A,"bug"),
# D03
("execute-noready-on-error",[(F,"            LOG.error(e)\n            self._result = e\n        with self._condition:","            LOG.error(e)\n            self._result = e\n            return\n        with self._condition:")],A,"bug"),
("result-nowhile",[(F,"            while not self._ready:\n                self._condition.wait()\n        if","            if not self._ready:\n                self._condition.wait()\n        if")],A,"bug"),
("ready-before-result",[(F,"        try:\n            self._result = self.func","        self._ready = True\n        try:\n            self._result = self.func")],A,"bug"),
("pop-last",[(F,"s = self._queue.pop(0)","s = self._queue.pop()")],A,"bug"),
("enqueue-nonotify",[(F,"            self._queue.append(s)\n            self._condition.notify_all()\n            return s","            self._queue.append(s)\n            return s")],A,"bug"),
("enqueue-nolock",[(F,"        with self._condition:\n            s = Future(func, args, kwargs)\n            self._queue.append(s)\n            self._condition.notify_all()\n            return s","        s = Future(func, args, kwargs)\n        self._queue.append(s)\n        with self._condition:\n            self._condition.notify_all()\n        return s")],A,"bug"),
("run-held",[(F,"                self._condition.notify_all()\n            s.execute()","                self._condition.notify_all()\n                s.execute()")],A,"bug"),
("result-swallow",[(F,"        if isinstance(self._result, Exception):\n            raise self._result\n        return self._result","        return self._result")],A,"bug"),
("forget-wrong",[(F,"return self._call_manager(False, \"update_entry\"","return self._call_manager(True, \"update_entry\"")],A,"bug"),
("forget-wrong2",[(F,"return self._call_manager(False, \"decache_file\"","return self._call_manager(True, \"decache_file\"")],A,"bug"),
("forget-purge",[(F,"return self._call_manager(False, \"purge_cache\"","return self._call_manager(True, \"purge_cache\"")],A,"bug"),
("wrong-command",[(F,"return self._call_manager(False, \"cache_entries\"","return self._call_manager(False, \"dump_cache_databases\"")],A,"bug"),
("direct-connection",[(F,"    def _housekeeping(self, *args, **kwargs):\n        return self._call_manager(False, \"housekeeping\", *args, **kwargs)","    def _housekeeping(self, *args, **kwargs):\n        return self._manager._housekeeping(*args, **kwargs)")],A,"bug"),
("policy-shared",[(F,"deepcopy(self._policy))","self._policy)")],A,"any"),
("two-managers",[(F,"                    if self._manager is None:\n                        self._manager = CacheManager()\n                        self._manager.start()","                    self._manager = CacheManager()\n                    self._manager.start()")],A,"bug"),
# D04
("key-noargs",[(F,"        m.update(json.dumps(args, sort_keys=True, default=default_serialiser).encode(\"utf-8\"))\n","")],A,"bug"),
("key-noext",[(F,"        m.update(json.dumps(extension, sort_keys=True).encode(\"utf-8\"))\n","")],A,"any"),
("key-nohash",[(F,"        m.update(json.dumps(hash_extra, sort_keys=True).encode(\"utf-8\"))\n","")],A,"bug"),
("key-unsorted",[(F,"json.dumps(args, sort_keys=True, default=default_serialiser)","json.dumps(args, default=default_serialiser)")],A,"bug"),
("key-short",[(F,"                m.hexdigest(),\n                extension,\n            ),\n        )\n\n        record","                m.hexdigest()[:4],\n                extension,\n            ),\n        )\n\n        record")],A,"bug"),
("key-str",[(F,"m.update(json.dumps(args, sort_keys=True, default=default_serialiser).encode(\"utf-8\"))","m.update(str(sorted(args)).encode('utf-8'))")],A,"bug"),
# D05
("limit-bytes",[(F,"                if size > maximum:\n                    self._housekeeping()\n                    self._decache(size - maximum)","                if size > maximum:\n                    self._housekeeping()\n                    self._decache(size - maximum - 1)")],A,"bug"),
("limit-elif",[(F,"            # Check relative limit\n            usage = self._policy.maximum_cache_disk_usage()\n            if usage is not None:","            usage = self._policy.maximum_cache_disk_usage()\n            if usage is not None and maximum is None:")],A,"bug"),
("limit-ge",[(F,"                    if total >= bytes:","                    if total > bytes * 2:")],A,"bug"),
("evict-desc",[(F,"ORDER BY last_access ASC","ORDER BY last_access DESC")],A,"bug"),
("evict-creation",[(F,"ORDER BY last_access ASC","ORDER BY creation_date ASC")],A,"bug"),
("evict-incomplete",[(F,"WHERE size IS NOT NULL AND creation_date < ? ORDER","WHERE creation_date < ? ORDER")],A,"bug"),
("evict-latest",[(F,"latest = datetime.datetime.now() if purge else self._latest_date()","latest = datetime.datetime.now()")],A,"bug"),
("size-first-child",[(F,"                total += self._delete_entry(child)","                total = self._delete_entry(child)")],A,"any"),
("delete-norow",[(F,"        self._delete_file(path)\n\n        with self.connection as db:\n            db.execute(\"DELETE FROM cache WHERE path=?\", (path,))\n","        self._delete_file(path)\n")],A,"bug"),
("delete-lost-norow",[(F,"            LOG.warning(f\"cache file lost: {path}\")\n            with self.connection as db:\n                db.execute(\"DELETE FROM cache WHERE path=?\", (path,))\n","            LOG.warning(f\"cache file lost: {path}\")\n")],A,"bug"),
("dir-size",[(F,"                    size += os.path.getsize(os.path.join(root, f))\n        else:\n            kind = \"file\"","                    size = os.path.getsize(os.path.join(root, f))\n        else:\n            kind = \"file\"")],A,"bug"),
("dir-size2",[(F,"                            for f in files:\n                                size += os.path.getsize(os.path.join(root, f))","                            for f in files:\n                                size += os.path.getsize(os.path.join(path, f))")],A,"bug"),
("update-swap",[(F,"                    size,\n                    kind,\n                    json","                    kind,\n                    size,\n                    json")],A,"bug"),
("purge-matcher",[(F,"        dump = self._dump_cache_database(matcher)","        dump = self._dump_cache_database(lambda e: e['size'])")],A,"bug"),
("purge-default-all",[(F,"matcher = lambda entry: entry[\"size\"] is not None  # noqa: E731","matcher = lambda entry: True")],A,"bug"),
("summary-size",[(F,"            size += r.get(\"size\") or 0","            size += r.get(\"size\", 0)")],A,"bug"),
("cachesize-none",[(F,"            if size is None:\n                size = 0\n            return size\n\n    def _decache_file","            return size\n\n    def _decache_file")],A,"bug"),
("access-notouched",[(F,"                SET accesses    = accesses + 1,\n                    last_access = ?\n                WHERE path=?\"\"\",\n                (now, path),","                SET accesses    = accesses + 1\n                WHERE path=?\"\"\",\n                (path,),")],A,"bug"),
("update-all",[(F,"UPDATE cache SET size=?, type=?, owner_data=? WHERE path=?\",\n                (\n                    size,\n                    kind,\n                    json.dumps(owner_data, default=default_serialiser),\n                    path,\n                ),","UPDATE cache SET size=?, type=?, owner_data=?\",\n                (\n                    size,\n                    kind,\n                    json.dumps(owner_data, default=default_serialiser),\n                ),")],A,"bug"),
("schema-notnull",[(F,"                    expires       INTEGER,","                    expires       INTEGER NOT NULL,")],A,"bug"),
("column-typo",[(F,"owner='orphans' AND creation_date","owners='orphans' AND creation_date")],A,"bug"),
("percent-avail",[(F,"float(self.total - self.avail)","float(self.avail)")],A,"bug"),
("delta",[(F,"delta = (df.percent - usage) * df.total * 0.01","delta = (df.percent - usage) * df.total")],A,"any"),
# D06
("outdated-missing",[(F,"OUTDATED_CHECK_KEYS = [\"cache-policy\", \"user-cache-directory\"]","OUTDATED_CHECK_KEYS = [\"cache-policy\"]")],A,"bug"),
("outdated-tmp",[(F,"OUTDATED_CHECK_KEYS = [\"cache-policy\", \"temporary-cache-directory-root\"]","OUTDATED_CHECK_KEYS = [\"cache-policy\", \"user-cache-directory\"]")],A,"bug"),
("update-stops",[(F,"            if k not in self.OUTDATED_CHECK_KEYS:\n                self._config[k] = CONFIG.get(k)\n        return changed","            if k not in self.OUTDATED_CHECK_KEYS:\n                self._config[k] = CONFIG.get(k)\n                return changed\n        return changed")],A,"bug"),
("no-onchange",[(F,"CONFIG.on_change(CACHE._config_changed)","")],A,"bug"),
("mgr-keeps-conn",[(F,"        self._connection = None  # The user may have changed the cache directory\n","")],A,"bug"),
("mgr-nocheck",[(F,"directory\n        self._check_cache_size()","directory\n")],A,"bug"),
("policy-swap",[(F,"    \"off\": NoCachePolicy,\n    \"temporary\": TmpCachePolicy,","    \"temporary\": NoCachePolicy,\n    \"off\": TmpCachePolicy,")],A,"bug"),
("user-noexpand",[(F,"self._path = self._expand_path(self._config.get(\"user-cache-directory\"))","self._path = self._config.get(\"user-cache-directory\")")],A,"bug"),
("tmp-dir-own",[(F,"    def directory(self):\n        return self._dir.path\n\n\n_cache","    def directory(self):\n        return self._path\n\n\n_cache")],A,"bug"),
("limit-swapped",[(F,"return self._config.get(\"maximum-cache-size\")","return self._config.get(\"maximum-cache-disk-usage\")")],A,"bug"),
("update-nonotify",[(F,"            with self._manager_lock:\n                self._call_manager_config_changed()\n\n    def _call_manager(","            pass\n\n    def _call_manager(")],A,"bug"),
# D07
("policy-lock-reenter",[(F,"            LOG.debug(f\"Cache: created cache policy={self._policy}\")","            LOG.debug(f\"Cache: created cache policy={self.policy}\")")],A,"bug"),
("lock-order",[(F,"        elif self.policy.update() and self.policy.managed():\n            with self._manager_lock:\n                self._call_manager_config_changed()","        elif self.policy.update() and self.policy.managed():\n            with self._manager_lock:\n                with self._policy_lock:\n                    self._call_manager_config_changed()")],A,"bug"),
("call-mgr-in-lock",[(F,"                    return s.result()\n\n    def _call_manager_config_changed","                    r = s.result()\n                    self.policy\n                    return r\n\n    def _call_manager_config_changed")],A,"bug"),
("acquire-norelease",[(F,"            with self._manager_lock:\n                name = \"_\" + name","            self._manager_lock.acquire()\n            if True:\n                name = \"_\" + name")],A,"bug"),
# refactorings
("ref-future",[(F,"        try:\n            self._result = self.func(*self.args, **self.kwargs)\n        except Exception as e:\n            LOG.error(e)\n            self._result = e\n        with self._condition:\n            self._ready = True\n            self._condition.notify_all()","        try:\n            outcome = self.func(*self.args, **self.kwargs)\n        except Exception as e:\n            LOG.error(e)\n            outcome = e\n        with self._condition:\n            self._result = outcome\n            self._ready = True\n            self._condition.notify_all()"),
 (F,"            while not self._ready:\n                self._condition.wait()\n        if","            self._condition.wait_for(lambda: self._ready)\n        if")],A,"same"),
("ref-result",[(F,"        with self._condition:\n            while not self._ready:\n                self._condition.wait()\n        if isinstance(self._result, Exception):\n            raise self._result\n        return self._result","        with self._condition:\n            while not self._ready:\n                self._condition.wait()\n            outcome = self._result\n        if isinstance(outcome, Exception):\n            raise outcome\n        return outcome")],A,"same"),
("ref-run",[(F,"        while True:\n            with self._condition:\n                while len(self._queue) == 0:\n                    self._condition.wait()\n                s = self._queue.pop(0)\n                self._condition.notify_all()\n            s.execute()","        while True:\n            self._next().execute()\n\n    def _next(self):\n        with self._condition:\n            while not self._queue:\n                self._condition.wait()\n            task = self._queue.pop(0)\n            self._condition.notify_all()\n        return task")],A,"same"),
("ref-run-deque",[(F,"self._queue = []","self._queue = deque()"),(F,"import datetime\n","import datetime\nfrom collections import deque\n"),(F,"s = self._queue.pop(0)","s = self._queue.popleft()")],A,"same"),
("ref-size-helper",[(F,"""        if os.path.isdir(path):
            kind = "directory"
            size = 0
            for root, _, files in os.walk(path):
                for f in files:
                    size += os.path.getsize(os.path.join(root, f))
        else:
            kind = "file"
            size = os.path.getsize(path)

        with self.connection""","""        size, kind = self._measure(path)

        with self.connection"""),(F,"""                    if os.path.isdir(path):
                        kind = "directory"
                        size = 0
                        for root, _, files in os.walk(path):
                            for f in files:
                                size += os.path.getsize(os.path.join(root, f))
                    else:
                        kind = "file"
                        size = os.path.getsize(path)
""","""                    size, kind = self._measure(path)
"""),(F,"    def _update_entry(self, path, owner","""    @staticmethod
    def _measure(path):
        if not os.path.isdir(path):
            return os.path.getsize(path), "file"
        size = 0
        for root, _, files in os.walk(path):
            size += sum(os.path.getsize(os.path.join(root, f)) for f in files)
        return size, "directory"

    def _update_entry(self, path, owner""")],A,"same"),
("ref-check",[(F,"""            maximum = self._policy.maximum_cache_size()
            if maximum is not None:
                size = self._cache_size()
                if size > maximum:
                    self._housekeeping()
                    self._decache(size - maximum)
""","""            limit = self._policy.maximum_cache_size()
            if limit is not None:
                excess = self._cache_size() - limit
                if excess > 0:
                    self._housekeeping()
                    self._decache(excess)
""")],A,"same"),
("ref-path",[(F,"""        path = os.path.join(
            CACHE.directory(),
            "{}-{}{}".format(
                owner.lower(),
                m.hexdigest(),
                extension,
            ),
        )

        record""","""        name = f"{owner.lower()}-{m.hexdigest()}{extension}"
        path = os.path.join(CACHE.directory(), name)

        record""")],A,"same"),
("ref-create-helper",[(F,"""                    try:
                        owner_data = create(path + ".tmp", args)
                        os.rename(path + ".tmp", path)
                    except Exception:
                        # An unfinished entry would keep all the newer ones from being evicted
                        CACHE._decache_file(path)
                        raise
                    LOG""","""                    owner_data = _produce(path, create, args)
                    LOG"""),(F,"def cache_file(","""def _produce(path, create, args):
    partial = path + ".tmp"
    try:
        data = create(partial, args)
        os.replace(partial, path)
    except Exception:
        CACHE._decache_file(path)
        raise
    return data


def cache_file(""")],A,"same"),
("ref-key",[(F,"""        m.update(owner.encode("utf-8"))

        m.update(json.dumps(args, sort_keys=True, default=default_serialiser).encode("utf-8"))
        m.update(json.dumps(hash_extra, sort_keys=True).encode("utf-8"))
        m.update(json.dumps(extension, sort_keys=True).encode("utf-8"))
""","""        parts = [owner, json.dumps(args, sort_keys=True, default=default_serialiser)]
        parts += [json.dumps(x, sort_keys=True) for x in (hash_extra, extension)]
        for part in parts:
            m.update(part.encode("utf-8"))
""")],A,"same"),
("ref-delete",[(F,"""        path = entry["path"]
        size = entry["size"]
        if size is None:
            size = 0
""","""        path, size = entry["path"], entry["size"] or 0
"""),(F,"""            with self.connection as db:
                db.execute("DELETE FROM cache WHERE path=?", (path,))
            return total
""","""            self._forget(path)
            return total
"""),(F,"""        self._delete_file(path)

        with self.connection as db:
            db.execute("DELETE FROM cache WHERE path=?", (path,))

        return""","""        self._delete_file(path)
        self._forget(path)
        return"""),(F,"    def _decache(self, bytes","""    def _forget(self, path):
        with self.connection as db:
            db.execute("DELETE FROM cache WHERE path = ?", (path,))

    def _decache(self, bytes""")],A,"same"),
("ref-callmanager",[(F,"""            with self._manager_lock:
                name = "_" + name
                func = getattr(self._manager, name)
                if forget:
                    self._manager.enqueue(func, *args, **kwargs)
                    return None
                else:
                    s = self._manager.enqueue(func, *args, **kwargs)
                    return s.result()
""","""            with self._manager_lock:
                future = self._manager.enqueue(getattr(self._manager, f"_{name}"), *args, **kwargs)
                return None if forget else future.result()
""")],A,"same"),
("ref-update",[(F,"""        changed = False
        for k in self.CACHE_KEYS:
            if self._config.get(k) != CONFIG.get(k):
                changed = True
            if k not in self.OUTDATED_CHECK_KEYS:
                self._config[k] = CONFIG.get(k)
        return changed
""","""        current = {k: CONFIG.get(k) for k in self.CACHE_KEYS}
        changed = any(self._config.get(k) != v for k, v in current.items())
        self._config.update({k: v for k, v in current.items() if k not in self.OUTDATED_CHECK_KEYS})
        return changed
""")],A,"same"),
("ref-ensure",[(F,"        return path.startswith(os.path.join(self.directory(), \"\"))","        return path.startswith(self.directory().rstrip(os.sep) + os.sep)")],A,"same"),
("ref-housekeeping",[(F,"                count = db.execute(\"SELECT count(*) FROM cache WHERE path=?\", (full,)).fetchone()[0]\n\n                if count > 0:\n                    continue\n","                known = db.execute(\"SELECT path FROM cache WHERE path=?\", (full,)).fetchone()\n                if known is not None:\n                    continue\n")],A,"same"),
("ref-register",[(F,"""            changes = db.execute("SELECT changes()").fetchone()[0]

            if not changes:
                db""","""            updated = db.execute("SELECT changes()").fetchone()[0]

            if updated == 0:
                db""")],A,"same"),
("ref-policies",[(F,"        name = CONFIG.get(\"cache-policy\")\n        p = _cache_policies.get(name, None)\n        if p is not None:\n            return p()\n        else:\n            raise NotImplementedError(f\"Unknown cache policy={name}\")","        name = CONFIG.get(\"cache-policy\")\n        if name not in _cache_policies:\n            raise NotImplementedError(f\"Unknown cache policy={name}\")\n        return _cache_policies[name]()")],A,"same"),
("ref-decache",[(F,"""            for stmt in (
                "SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans' AND creation_date < ?",
                "SELECT * FROM cache WHERE size IS NOT NULL AND creation_date < ? ORDER BY last_access ASC",
            ):
                for entry in db.execute(stmt, (latest,)):
                    total += self._delete_entry(entry)
                    if total >= bytes:
                        LOG.warning(
                            "earthkit-regrid cache: freed %s from cache",
                            humanize.bytes(bytes),
                        )
                        return total
""","""            for condition, order in (("AND owner='orphans' ", ""), ("", " ORDER BY last_access")):
                stmt = "SELECT * FROM cache WHERE size IS NOT NULL " + condition + "AND creation_date < ?" + order
                for entry in db.execute(stmt, (latest,)).fetchall():
                    total += self._delete_entry(entry)
                    if total < bytes:
                        continue
                    LOG.warning("earthkit-regrid cache: freed %s from cache", humanize.bytes(bytes))
                    return total
""")],A,"same"),
]
