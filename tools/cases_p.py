F="backends/db.py"; G="backends/precomputed.py"; I="backends/__init__.py"
A=["P01","P02","P03","P04","P05","B01"]
CASES=[
("match-or",[(F,"            and item[\"output\"] == gs_out\n","            or item[\"output\"] == gs_out\n")],A,"bug"),
("match-noout",[(F,"            and item[\"output\"] == gs_out\n","")],A,"bug"),
("match-swap",[(F,"            and item[\"input\"] == gs_in\n            and item[\"output\"] == gs_out","            and item[\"input\"] == gs_out\n            and item[\"output\"] == gs_in")],A,"bug"),
("match-prefix",[(F,"MatrixIndex.interpolation_method_name(item) == method","MatrixIndex.interpolation_method_name(item).startswith(method)")],A,"bug"),
("find-first-only",[(F,"                return entry\n        return None\n\n    @staticmethod\n    def match","                return entry\n            break\n        return None\n\n    @staticmethod\n    def match")],A,"bug"),
("find-last",[(F,"        for _, entry in self.items():\n            if MatrixIndex.match(entry","        for _, entry in list(self.items())[1:]:\n            if MatrixIndex.match(entry")],A,"bug"),
("alias-in-str",[(F,"            if method in v:\n                return k","            if any(method in x for x in v):\n                return k")],A,"bug"),
("alias-lost",[(F,"(\"nn\", \"nearest-neighbor\")","(\"nn\",)")],A,"bug"),
("alias-str",[(F,"(\"nn\", \"nearest-neighbor\")","(\"nearest-neighbor\")")],A,"bug"),
("db-find-swap",[(F,"            gridspec_in,\n            gridspec_out,\n            method,\n            create","            gridspec_out,\n            gridspec_in,\n            method,\n            create")],A,"bug"),
("entry-shape-in",[(F,"return z, entry[\"output\"][\"shape\"]","return z, entry[\"input\"][\"shape\"]")],A,"bug"),
("retry-old-index",[(F,"            self._load_index()\n            entry = self.index.find(","            entry = self.index.find(")],A,"bug"),
("retry-noswap",[(F,"            self._load_index()\n            entry = self.index.find(gridspec_in, gridspec_out, method)","            self._load_index()\n            entry = self.index.find(gridspec_out, gridspec_in, method)")],A,"bug"),
("always-remote",[(F," and not self._accessor.checked_remote():",":")],A,"bug"),
("local-remote",[(F,"entry is None and not self._accessor.is_local() and","entry is None and")],A,"any"),
("sha-inverted",[(F,"if local_sha != remote_sha:","if local_sha == remote_sha:")],A,"bug"),
("sha-none-false",[(F,"            if owner_data is None:\n                return True","            if owner_data is None:\n                return False")],A,"bug"),
("reload-noforce",[(F,"self._get_index(check_remote=True, force=force)","self._get_index(force=force)")],A,"bug"),
("reset-keep",[(F,"        self._index_path = None\n        self._checked_remote = False\n\n    def reload","        self._index_path = None\n\n    def reload")],A,"any"),
("sha-of-gz",[(F,"                sha = make_sha(data)","                sha = make_sha(path_gz)")],A,"bug"),
("load-version-warn",[(F,"raise ValueError(f\"Invalid index file version: expected {VERSION}, got {version}\")","LOG.warning(f\"Invalid index file version: expected {VERSION}, got {version}\")")],A,"bug"),
("load-version-lt",[(F,"if version != VERSION:","if version is None or version < VERSION:")],A,"bug"),
("load-break",[(F,"                except Exception:\n                    pass\n","                except Exception:\n                    break\n")],A,"bug"),
("load-try-outer",[(F,"                except Exception:\n                    pass\n","                except KeyError:\n                    pass\n")],A,"bug"),
("load-inout",[(F,"entry[\"output\"] = out_gs","entry[\"output\"] = in_gs")],A,"bug"),
("load-assign-first",[(F,"        index = MatrixIndex()\n        index.load(self._accessor.index_path())\n        self._index = index","        self._index = MatrixIndex()\n        self._index.load(self._accessor.index_path())")],A,"bug"),
("index-reload-each",[(F,"        if self._index is None:\n            self._load_index()","        self._load_index()")],A,"bug"),
("regrid-T",[(G,"        values = z @ values\n        values = values.reshape(shape)","        values = z.T @ values\n        values = values.reshape(shape)")],A,"bug"),
("regrid-order",[(G,"        values = values.reshape(-1, 1)\n\n        values = z @ values\n        values = values.reshape(shape)","        values = values.reshape((-1, 1), order='F')\n\n        values = z @ values\n        values = values.reshape(shape)")],A,"bug"),
("regrid-order-a",[(G,"        values = values.reshape(-1, 1)\n\n        values = z @ values\n        values = values.reshape(shape)","        values = values.reshape((-1, 1), order='A')\n\n        values = z @ values\n        values = values.reshape(shape)")],A,"bug"),
("regrid-noshape",[(G,"        values = z @ values\n        values = values.reshape(shape)","        values = z @ values\n        values = values.ravel()")],A,"bug"),
("regrid-ingrid",[(G,"return values, out_grid","return values, in_grid")],A,"bug"),
("regrid-missing-zero",[(G,"            raise ValueError(f\"No precomputed weights found! {in_grid=} {out_grid=} {interpolation=}\")","            return values, out_grid")],A,"bug"),
("regrid-swap",[(G,"self.db.find(in_grid, out_grid, interpolation)","self.db.find(out_grid, in_grid, interpolation)")],A,"bug"),
("regrid-nan",[(G,"        values = z @ values\n        values = values.reshape(shape)","        values = z @ values\n        values = values.round(6).reshape(shape)")],A,"bug"),
("getdb-http",[(G,"path_or_url.startswith(\"http://\") or path_or_url.startswith(\"https://\")","path_or_url.startswith(\"http\")")],A,"bug"),
("getdb-httpsonly",[(G,"path_or_url.startswith(\"http://\") or path_or_url.startswith(\"https://\")","path_or_url.startswith(\"https://\")")],A,"bug"),
("getdb-in",[(G,"path_or_url.startswith(\"http://\") or path_or_url.startswith(\"https://\")","\"://\" in path_or_url")],A,"bug"),
("getdb-empty",[(G,"        elif path_or_url:\n","        elif True:\n")],A,"bug"),
("key-noargs",[(I,"key = [name, *args, *list(kwargs.items())]","key = [name, *args]")],A,"bug"),
("key-nokw-values",[(I,"*list(kwargs.items())]","*list(kwargs)]")],A,"bug"),
("key-name",[(I,"            return tuple(key)\n        else:\n            return name","            return name\n        else:\n            return name")],A,"bug"),
("key-noname",[(I,"key = [name, *args, ","key = [*args, ")],A,"bug"),
("unknown-default",[(I,"raise ValueError(f\"Unknown backend: {name}\")","klass = self.BACKENDS.get('two')")],A,"bug"),
("maker-drop",[(I,"backend = klass(*args, **kwargs)","backend = klass(*args)")],A,"bug"),
("builtins-try-outer",[(I,"                except Exception:\n                    LOG.exception(\"Error loading backend %s\", name)","                except ImportError:\n                    LOG.exception(\"Error loading backend %s\", name)\n                    break")],A,"bug"),
("copy-exist",[(F,"if not exist_ok and os.path.exists(target_file):","if exist_ok and os.path.exists(target_file):")],A,"bug"),
("copy-dry",[(F,"        if not dry_run:\n            os.makedirs(target_dir, exist_ok=True)\n            shutil","        if True:\n            os.makedirs(target_dir, exist_ok=True)\n            shutil")],A,"bug"),
("copy-flat",[(F,"target_file = os.path.join(out_dir, matrix_index_path)","target_file = os.path.join(out_dir, os.path.basename(matrix_index_path))")],A,"bug"),
("copy-swap",[(F,"shutil.copyfile(src_file, target_file)","shutil.copyfile(target_file, src_file)")],A,"bug"),
("dirname-nover",[(F,"return f\"{engine}_{version}_{method_name}\"","return f\"{engine}_{method_name}\"")],A,"bug"),
("dirname-fixed",[(F,"os.path.join(MatrixIndex.matrix_dir_name(item), item[\"_name\"] + \".npz\")","os.path.join(MatrixIndex.matrix_dir_name(item), MatrixIndex.interpolation_method_name(item) + \".npz\")")],A,"bug"),
("subset-method",[(F,"method = item.get(\"method\", \"linear\")","method = \"linear\"")],A,"bug"),
("subset-swap",[(F,"gs_out = item[\"output\"]","gs_out = item[\"input\"]")],A,"bug"),
("subset-return",[(F,"        return res\n\n    def to_raw","            if entry is None:\n                return res\n        return res\n\n    def to_raw")],A,"bug"),
("fail-missing-inv",[(F,"                if fail_on_missing:","                if not fail_on_missing:")],A,"bug"),
("matrixpath-local",[(F,"    def matrix_path(self, name):\n        return os.path.join(self._path, name)","    def matrix_path(self, name):\n        return os.path.join(self._path, os.path.basename(name))")],A,"bug"),
("system-local",[(F,"SYS_DB = MatrixDb(SystemAccessor())","SYS_DB = MatrixDb(LocalAccessor('db'))")],A,"bug"),
("create-mat-noalias",[(F,"self._create_matrix_from_entry(self.find_entry(gridspec_in, gridspec_out, method))","self._create_matrix_from_entry(self.index.find(gridspec_in, gridspec_out, method))")],A,"bug"),
# behaviour kept
("s-find-loop",[(F,"        for _, entry in self.items():\n            if MatrixIndex.match(entry, gridspec_in, gridspec_out, method):\n                return entry\n        return None","        return next((entry for entry in self.values() if MatrixIndex.match(entry, gridspec_in, gridspec_out, method)), None)")],A,"same"),
("s-match",[(F,"        if (\n            MatrixIndex.interpolation_method_name(item) == method\n            and item[\"input\"] == gs_in\n            and item[\"output\"] == gs_out\n        ):\n            return True\n        return False","        if item[\"input\"] != gs_in:\n            return False\n        if not gs_out == item[\"output\"]:\n            return False\n        return MatrixIndex.interpolation_method_name(item) == method")],A,"same"),
("s-match-tuple",[(F,"        if (\n            MatrixIndex.interpolation_method_name(item) == method\n            and item[\"input\"] == gs_in\n            and item[\"output\"] == gs_out\n        ):\n            return True\n        return False","        return (MatrixIndex.interpolation_method_name(item), item[\"input\"], item[\"output\"]) == (method, gs_in, gs_out)")],A,"same"),
("s-match-all",[(F,"        if (\n            MatrixIndex.interpolation_method_name(item) == method\n            and item[\"input\"] == gs_in\n            and item[\"output\"] == gs_out\n        ):\n            return True\n        return False","        checks = [(MatrixIndex.interpolation_method_name(item), method), (item[\"input\"], gs_in), (item[\"output\"], gs_out)]\n        return all(a == b for a, b in checks)")],A,"same"),
("s-alias",[(F,"        for k, v in _METHOD_ALIAS.items():\n            if method in v:\n                return k\n        return method","        lookup = {a: k for k, v in _METHOD_ALIAS.items() for a in v}\n        return lookup.get(method, method)")],A,"same"),
("s-load-helper",[(F,"                    raw = entry\n                    entry = dict(**entry)\n                    entry[\"input\"] = in_gs\n                    entry[\"output\"] = out_gs\n                    entry[\"_name\"] = name\n                    entry[\"_raw\"] = raw\n                    # print(f\"{in_gs=}\")\n                    # print(f\"{out_gs=}\")\n                    self[name] = entry","                    self[name] = {**entry, \"input\": in_gs, \"output\": out_gs, \"_name\": name, \"_raw\": entry}")],A,"same"),
("s-load-continue",[(F,"                except Exception:\n                    pass\n","                except Exception as e:\n                    LOG.debug(f'skip {name}: {e}')\n                    continue\n")],A,"same"),
("s-load-update",[(F,"                    self[name] = entry\n","                    self.update({name: entry})\n")],A,"same"),
("s-version",[(F,"            version = index.get(\"version\", None)\n            if version != VERSION:\n                raise","            version = index.get(\"version\")\n            if not (version == VERSION):\n                raise")],A,"same"),
("s-find-entry",[(F,"        if entry is None and not self._accessor.is_local() and not self._accessor.checked_remote():\n            LOG.info(f\"Matrix not found in DB for {gridspec_in=} {gridspec_out=} {method=}\")","        if entry is not None or self._accessor.is_local() or self._accessor.checked_remote():\n            return entry\n        else:\n            LOG.info(f\"Matrix not found in DB for {gridspec_in=} {gridspec_out=} {method=}\")")],A,"same"),
("s-regrid-inline",[(G,"        values = values.reshape(-1, 1)\n\n        values = z @ values\n        values = values.reshape(shape)\n","        values = (z @ values.reshape(-1, 1)).reshape(shape)\n")],A,"same"),
("s-regrid-dot",[(G,"        values = values.reshape(-1, 1)\n\n        values = z @ values\n        values = values.reshape(shape)\n","        values = z.dot(values.ravel()).reshape(shape)\n")],A,"same"),
("s-regrid-helper",[(G,"        values = values.reshape(-1, 1)\n\n        values = z @ values\n        values = values.reshape(shape)\n\n        return values, out_grid","        return self._apply(z, values, shape), out_grid"),(G,"    def get_db(","    @staticmethod\n    def _apply(z, values, shape):\n        flat = values.reshape(-1, 1)\n        return (z @ flat).reshape(shape)\n\n    def get_db(")],A,"same"),
("s-getdb",[(G,"        elif path_or_url.startswith(\"http://\") or path_or_url.startswith(\"https://\"):","        elif path_or_url.startswith((\"http://\", \"https://\")):")],A,"same"),
("s-getdb2",[(G,"        if path_or_url is None or path_or_url == self.system_inventory_id:","        if path_or_url in (None, self.system_inventory_id):")],A,"same"),
("s-key",[(I,"        if args or kwargs:\n            key = [name, *args, *list(kwargs.items())]\n            return tuple(key)\n        else:\n            return name","        return (name, args, tuple(sorted(kwargs.items())))")],A,"same"),
("s-maker-get",[(I,"        if name in self.BACKENDS:\n            klass = self.BACKENDS[name]\n        else:\n            # TODO: implement a plugin loader\n            raise ValueError(f\"Unknown backend: {name}\")\n","        klass = self.BACKENDS.get(name)\n        if klass is None:\n            raise ValueError(f\"Unknown backend: {name}\")\n")],A,"same"),
("s-maker-try",[(I,"        if key in self.BACKEND_OBJECTS:\n            return self.BACKEND_OBJECTS[key]\n","        try:\n            return self.BACKEND_OBJECTS[key]\n        except KeyError:\n            pass\n")],A,"same"),
("s-copy",[(F,"            if not dry_run:\n                raise FileExistsError(f\"target file already exists! {target_file}\")\n            else:\n                LOG.warning(\"target file already exists! {target_file}\")","            if dry_run:\n                LOG.warning(f\"target file already exists! {target_file}\")\n            else:\n                raise FileExistsError(f\"target file already exists! {target_file}\")")],A,"same"),
("s-subset",[(F,"            if entry is not None:\n                LOG.info(\"  found DB entry:\" + entry[\"_name\"])\n                if raw:\n                    res[entry[\"_name\"]] = entry[\"_raw\"]\n                else:\n                    res[entry[\"_name\"]] = entry\n            else:\n                if fail_on_missing:\n                    raise ValueError(\"No DB entry found!\")\n                else:\n                    LOG.warning(\"  no DB entry found!\")","            if entry is None:\n                if fail_on_missing:\n                    raise ValueError(\"No DB entry found!\")\n                LOG.warning(\"  no DB entry found!\")\n                continue\n            name = entry[\"_name\"]\n            res[name] = entry[\"_raw\"] if raw else entry")],A,"same"),
("s-dirname",[(F,"return f\"{engine}_{version}_{method_name}\"","return \"_\".join((engine, version, method_name))")],A,"same"),
("s-create",[(F,"        if entry is not None:\n            z = self.load_matrix(entry)\n            return z, entry[\"output\"][\"shape\"]\n        return None, None","        if entry is None:\n            return None, None\n        shape = entry[\"output\"][\"shape\"]\n        return self.load_matrix(entry), shape")],A,"same"),
("s-fetch-helper",[(F,"    def _remote_sha(self):\n        try:\n            url = os.path.join(self._url, _INDEX_SHA_FILENAME)\n            path = download_and_cache(\n                url,\n                owner=\"url\",\n                verify=True,\n                force=True,\n                chunk_size=1024 * 1024,\n                http_headers=None,\n                update_if_out_of_date=True,\n                progress_bar=no_progress_bar,\n                maximum_retries=0,\n                retry_after=10,\n            )\n        except","    def _fetch(self, url):\n        return download_and_cache(\n                url,\n                owner=\"url\",\n                verify=True,\n                force=True,\n                chunk_size=1024 * 1024,\n                http_headers=None,\n                update_if_out_of_date=True,\n                progress_bar=no_progress_bar,\n                maximum_retries=0,\n                retry_after=10,\n            )\n\n    def _remote_sha(self):\n        url = os.path.join(self._url, _INDEX_SHA_FILENAME)\n        try:\n            path = self._fetch(url)\n        except")],A,"same"),
("s-sha",[(F,"            if local_sha != remote_sha:\n                LOG.info(","            if local_sha == remote_sha:\n                return False\n            if True:\n                LOG.info("),(F,"                return True\n            else:\n                LOG.info(","                return True\n            if True:\n                LOG.info(")],A,"same"),
("s-index",[(F,"        if self._index is None:\n            self._load_index()\n        return self._index","        index = self._index\n        if index is not None:\n            return index\n        self._load_index()\n        return self._index")],A,"same"),
]
