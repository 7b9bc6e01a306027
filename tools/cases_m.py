F="utils/memcache.py"
A=["M01","M02","M03","M04","M05"]
CASES=[
("nolock-get",[(F,"        with self.lock:\n            if not self.policy.has_cache():\n                return create(*args)\n","        if True:\n")],A,"bug"),
("nolock-info",[(F,'        """Report cache statistics"""\n        with self.lock:','        """Report cache statistics"""\n        if True:')],A,"bug"),
("clear-relock",[(F,"                    self._reduce()\n\n    def _reduce","                    self.clear()\n\n    def _reduce")],A,"bug"),
("no-recount-largest",[(F,"            del self.cache.items[largest]\n","            self.cache.items.pop(largest)\n            self.cache.items.pop(next(iter(self.cache.items)), None)\n")],A,"bug"),
("lru-last",[(F,"popitem(0)","popitem()")],A,"bug"),
("dictget-cache",[(F,"            if key in self.items:\n                item = self.items[key]","            item = self.items.get(key)\n            if item is not None:")],A,"same"),
("no-move",[(F,"                self.items.move_to_end(key)\n","")],A,"bug"),
("gt-target",[(F,"        while self.cache.curr_mem >= target_size:\n            _, item","        while self.cache.curr_mem > target_size + 1:\n            _, item")],A,"bug"),
("neg-cached",[(F,"            if data[0] is not None:\n","            if True:\n")],A,"bug"),
("hits-wrong",[(F,"                self.hits += 1\n","")],A,"bug"),
("key-noargs",[("backends/db.py","            gridspec_in,\n            gridspec_out,\n            method,\n            create=","            gridspec_in,\n            gridspec_out,\n            create=")],A,"bug"),
("strict-after",[(F,"if self.strict and self._capacity() < estimated_memory:","if self.strict and self.max_mem < estimated_memory:")],A,"bug"),
("update-nolock-reduce",[(F,"                ):\n                    self._reduce()","                ):\n                    pass")],A,"bug"),
("update-any-gen",[(F,"                if any(\n                    [\n                        _update(\"max_mem\", self.MAX_SIZE_KEY),\n                        _update(\"strict\", self.STRICT_KEY),\n                        _update_policy(),\n                    ]\n                ):","                if _update(\"max_mem\", self.MAX_SIZE_KEY) or _update(\"strict\", self.STRICT_KEY) or _update_policy():")],A,"bug"),
("unlimited-strictkept",[(F,"    def check(self):\n        self.cache.max_mem = None\n        self.cache.strict = False","    def check(self):\n        self.cache.max_mem = None")],A,"any"),
("lock-acq-norelease",[(F,"            key = make_sha((source, *args))\n            if key in self.items:","            key = make_sha((source, *args))\n            self.lock.release()\n            self.lock.acquire()\n            if key in self.items:")],A,"any"),
("manual-lock",[(F,"        with self.lock:\n            self._clear()","        self.lock.acquire()\n        self._clear()\n        self.lock.release()")],A,"any"),
# refactorings
("ref-extract-lookup",[(F,"""            key = make_sha((source, *args))
            if key in self.items:
                item = self.items[key]
                # TODO: move_to_end is only required for the "lru" policy
                self.items.move_to_end(key)
                self.hits += 1
                return item.data
""","""            key = self._key(source, args)
            item = self._lookup(key)
            if item is not None:
                return item.data
"""),(F,"    def _create(self, create, *args):","""    def _key(self, source, args):
        return make_sha((source,) + tuple(args))

    def _lookup(self, key):
        item = self.items.get(key)
        if item is None:
            return None
        self.hits = self.hits + 1
        self.items.move_to_end(key)
        return item

    def _create(self, create, *args):""")],A,"same"),
("ref-largest",[(F,"""        while self.cache.curr_mem >= target_size:
            _, largest = max((v.size, k) for k, v in self.cache.items.items())
            self.cache.curr_mem -= self.cache.items[largest].size
            if self.cache.curr_mem < 0:
                self.cache.curr_mem = 0
            # LOG.debug(f"evicting={self.cache.items[largest]} curr_mem={self.cache.curr_mem}")
            del self.cache.items[largest]
            if not self.cache.items:
                break
""","""        items = self.cache.items
        while items and not self.cache.curr_mem < target_size:
            largest = max(items, key=lambda k: (items[k].size, k))
            victim = items.pop(largest)
            self.cache.curr_mem = max(self.cache.curr_mem - victim.size, 0)
""")],A,"same"),
("ref-lru",[(F,"""            _, item = self.cache.items.popitem(0)
            self.cache.curr_mem -= item.size
            del item
""","""            oldest = next(iter(self.cache.items))
            size = self.cache.items[oldest].size
            del self.cache.items[oldest]
            self.cache.curr_mem = self.cache.curr_mem - size
""")],A,"same"),
("ref-update",[(F,"""                if any(
                    [
                        _update("max_mem", self.MAX_SIZE_KEY),
                        _update("strict", self.STRICT_KEY),
                        _update_policy(),
                    ]
                ):
                    self._reduce()""","""                changed = False
                for name, k in (("max_mem", self.MAX_SIZE_KEY), ("strict", self.STRICT_KEY)):
                    changed = _update(name, k) or changed
                changed = _update_policy() or changed
                if not changed:
                    return
                self._reduce()""")],A,"same"),
("ref-info",[(F,"""        with self.lock:
            return _CacheInfo(
                self.hits,
                self.misses,
                self.max_mem,
                self.curr_mem,
                len(self.items),
                self.policy.name,
            )""","""        self.lock.acquire()
        try:
            n = len(self.items)
            result = _CacheInfo(self.hits, self.misses, self.max_mem, self.curr_mem, n, self.policy.name)
        finally:
            self.lock.release()
        return result""")],A,"same"),
("ref-early",[(F,"""            if data[0] is not None:
                self.items[key] = _MemoryItem(data, self.size_fn(data[0]), time.time())
                self.curr_mem += self.items[key].size
                self._reduce()

            return data""","""            weights, _ = data
            if weights is None:
                return data
            item = _MemoryItem(data, self.size_fn(weights), time.time())
            self.items[key] = item
            self.curr_mem += item.size
            self._reduce()
            return data""")],A,"same"),
("ref-clear",[(F,"        self.items.clear()\n        self.hits = 0\n        self.misses = 0\n","        self.hits = self.misses = 0\n        while self.items:\n            self.items.popitem()\n")],A,"same"),
("ref-clear2",[(F,"        self.items.clear()\n        self.hits = 0\n        self.misses = 0\n","        self.hits = self.misses = 0\n        self.items = OrderedDict()\n")],A,"same"),
]
