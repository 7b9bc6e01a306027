Gs="gridspec.py"; Hu="utils/humanize.py"; Dl="utils/download.py"
CASES=[
# --- humanize
("h-week",[(Hu,'w=86400 * 7','w=86400 * 5')],["U04"],"bug"),
("h-hour",[(Hu,'h=3600','h=360')],["U04"],"bug"),
("h-kb",[(Hu,'        n *= 1024\n        units','        n *= 1000\n        units')],["U04"],"bug"),
("h-lower",[(Hu,'        units[u.lower()] = n\n','')],["U04"],"bug"),
("h-order",[(Hu,'"KMGTP"','"KMGPT"')],["U04"],"bug"),
("h-none",[(Hu,'if value is None and none_ok:','if value is None:')],["U04"],"bug"),
("h-none2",[(Hu,'return as_number(value, name, units, none_ok)\n\n\ndef as_percent','return as_number(value, name, units, False)\n\n\ndef as_percent')],["U04"],"bug"),
("h-search",[(Hu,r'r"^\s*(\d+)\s*([%\w]+)?\s*$"',r'r"(\d+)\s*([%\w]+)?\s*$"')],["U04"],"bug"),
("h-search2",[(Hu,r'r"^\s*(\d+)\s*([%\w]+)?\s*$"',r'r"^\s*(\d+)\s*([%\w]+)?\s*"')],["U04"],"bug"),
("h-keyerr",[(Hu,'    if unit not in units:\n        valid = ", ".join(units.keys())\n        raise ValueError(f"{name}: invalid unit \'{unit}\', valid values are {valid}")\n','')],["U04"],"bug"),
("h-unit1",[(Hu,'    return value * units[unit]','    return value * units.get(unit, 1)')],["U04"],"same"),
("h-same-match",[(Hu,r're.search(r"^\s*(\d+)\s*([%\w]+)?\s*$", value)',r're.match(r"\s*(\d+)\s*([%\w]+)?\s*$", value)')],["U04"],"same"),
("h-same-full",[(Hu,r're.search(r"^\s*(\d+)\s*([%\w]+)?\s*$", value)',r're.fullmatch(r"(\d+)\s*([%\w]+)?", value.strip())')],["U04"],"same"),
("h-same-units",[(Hu,'    units = {}\n    n = 1\n    for u in "KMGTP":\n        n *= 1024\n        units[u] = n\n        units[u.lower()] = n\n','    units = {u: 1024 ** (i + 1) for i, u in enumerate("KMGTP")}\n    units.update({u.lower(): n for u, n in list(units.items())})\n')],["U04"],"same"),
("h-same-groups",[(Hu,'    value = int(m.group(1))\n    if m.group(2) is None:\n        return value\n    unit = m.group(2)[0]\n','    number, unit = m.groups()\n    value = int(number)\n    if unit is None:\n        return value\n    unit = unit[0]\n')],["U04"],"same"),
("h-same-try",[(Hu,'    if unit not in units:\n        valid = ", ".join(units.keys())\n        raise ValueError(f"{name}: invalid unit \'{unit}\', valid values are {valid}")\n    return value * units[unit]','    try:\n        return value * units[unit]\n    except KeyError:\n        raise ValueError(f"{name}: invalid unit {unit}")')],["U04"],"same"),
("h-same-bytes",[(Hu,'    if n < 0:\n        sign = "-"\n        n = -n\n    else:\n        sign = ""\n','    sign = "-" if n < 0 else ""\n    n = abs(n)\n')],["U04"],"same"),
("h-same-bytes2",[(Hu,'    i = 0\n    while n >= 1024:\n        n /= 1024.0\n        i += 1\n    return "%s%g%s" % (sign, int(n * 10 + 0.5) / 10.0, u[i])','    for unit in u:\n        if n < 1024:\n            break\n        n /= 1024.0\n    return f"{sign}{int(n * 10 + 0.5) / 10.0:g}{unit}"')],["U04"],"same"),
("h-bytes",[(Hu,'while n >= 1024:','while n > 1024:')],["U04"],"bug"),
("h-bytes2",[(Hu,'" MiB", " GiB"','" GiB", " MiB"')],["U04"],"bug"),
# --- download
("dl-check",[(Dl,'if CONFIG.get("check-out-of-date-urls") is False:','if CONFIG.get("check-out-of-date-urls") is None:')],["U05"],"bug"),
("dl-or",[(Dl,'CONFIG.get("download-out-of-date-urls") or update_if_out_of_date','CONFIG.get("download-out-of-date-urls") and update_if_out_of_date')],["U05"],"bug"),
("dl-upd",[(Dl,'CONFIG.get("download-out-of-date-urls") or update_if_out_of_date','CONFIG.get("download-out-of-date-urls")')],["U05"],"bug"),
("dl-always",[(Dl,'        if downloader.out_of_date(path, cache_data):\n','        if downloader.out_of_date(path, cache_data) or update_if_out_of_date:\n')],["U05"],"bug"),
("dl-nodata",[(Dl,'downloader.out_of_date(path, cache_data)','downloader.out_of_date(path, None)')],["U05"],"bug"),
("dl-url",[(Dl,'downloader.out_of_date(path, cache_data)','downloader.out_of_date(url, cache_data)')],["U05"],"bug"),
("dl-force",[(Dl,'    if force is None:\n        force = out_of_date','    if not force:\n        force = out_of_date')],["U05"],"bug"),
("dl-force2",[(Dl,'    if force is None:\n        force = out_of_date','    force = out_of_date')],["U05"],"bug"),
("dl-noforce",[(Dl,'    if force is None:\n        force = out_of_date\n','')],["U05"],"bug"),
("dl-early",[(Dl,'        downloader.download(target)\n        return downloader.cache_data()','        data = downloader.cache_data()\n        downloader.download(target)\n        return data')],["U05"],"bug"),
("dl-none",[(Dl,'        return downloader.cache_data()\n','')],["U05"],"bug"),
("dl-ret",[(Dl,'        return downloader.cache_data()\n','        return downloader.local_path()\n')],["U05"],"bug"),
("dl-swap",[(Dl,'maximum_retries=maximum_retries,\n        retry_after=retry_after','maximum_retries=retry_after,\n        retry_after=maximum_retries')],["U05"],"bug"),
("dl-timeout",[(Dl,'timeout=CONFIG.get("url-download-timeout"),\n        ','')],["U05"],"bug"),
("dl-timeout2",[(Dl,'timeout=CONFIG.get("url-download-timeout")','timeout=CONFIG.get("memory-cache-timeout")')],["U05"],"bug"),
("dl-verify",[(Dl,'    verify=True,\n    force','    verify=False,\n    force')],["U05"],"bug"),
("dl-headers",[(Dl,'http_headers=http_headers','http_headers=None')],["U05"],"bug"),
("dl-ext",[(Dl,'        extension=extension,\n        force','        force')],["U05"],"bug"),
("dl-owner",[(Dl,'        owner,\n        download','        "url",\n        download')],["U05"],"bug"),
("dl-local",[(Dl,'    if path is not None:\n        return path\n','')],["U05"],"bug"),
("dl-same-lambda",[(Dl,'    if force is None:\n        force = out_of_date','    force = out_of_date if force is None else force')],["U05"],"same"),
("dl-same-neg",[(Dl,'        if CONFIG.get("check-out-of-date-urls") is False:\n            return False\n\n        if downloader.out','        check = CONFIG.get("check-out-of-date-urls")\n        if check is not False and downloader.out')],["U05"],"same"),
("dl-same-opts",[(Dl,'    downloader = Downloader(\n        url,\n        chunk_size=chunk_size,\n','    options = dict(chunk_size=chunk_size)\n    downloader = Downloader(\n        url,\n        **options,\n')],["U05"],"same"),
("dl-same-early",[(Dl,'    if extension and extension[0] != ".":\n        extension = "." + extension\n\n    if extension is None:\n        extension = downloader.extension()\n\n    path = downloader.local_path()\n    if path is not None:\n        return path\n','    path = downloader.local_path()\n    if path is not None:\n        return path\n\n    extension = downloader.extension()\n')],["U05"],"same"),
("dl-same-bool",[(Dl,'            if CONFIG.get("download-out-of-date-urls") or update_if_out_of_date:\n','            wanted = update_if_out_of_date or CONFIG.get("download-out-of-date-urls")\n            if wanted:\n')],["U05"],"same"),
# --- gridspec
("g-eqtype",[(Gs,'        if self.get("type", "") != o.get("type", ""):\n            return False\n\n        for','        for')],["U06"],"same"),
("g-shape",[(Gs,'if self["shape"] != o["shape"]','if len(self["shape"]) != len(o["shape"])')],["U06"],"bug"),
("g-keys",[(Gs,'        "grid",\n        "i_scans_negatively",','        "grid",')],["U06"],"bug"),
("g-atol",[(Gs,'np.array(v2), atol=1e-6)','np.array(v2), atol=1e-1)')],["U06"],"bug"),
("g-case",[(Gs,'return v1.lower() == v2.lower()','return v1 == v2')],["U06"],"bug"),
("g-case2",[(Gs,'return v1.lower() == v2.lower()','return v1[1:] == v2[1:]')],["U06"],"bug"),
("g-ne",[(Gs,'        return not self == o','        return dict.__ne__(self, o)')],["U06"],"bug"),
("g-area",[(Gs,'            return all(same_coord(v1, v2, eps=eps) for','            return any(same_coord(v1, v2, eps=eps) for')],["U06"],"bug"),
("g-north",[(Gs,'if not same_coord(self.north, o.north) or not same_coord(self.south, o.south)','if not same_coord(self.north, o.north) and not same_coord(self.south, o.south)')],["U06"],"bug"),
("g-north2",[(Gs,'if not same_coord(self.north, o.north) or not same_coord(self.south, o.south)','if not same_coord(self.north, o.north)')],["U06"],"bug"),
("g-one",[(Gs,'        if self.is_global_ew() and o.is_global_ew():','        if self.is_global_ew() or o.is_global_ew():')],["U06"],"bug"),
("g-west",[(Gs,'west_o = self.normalise_lon(o.west, 0)\n            if same_coord(west, west_o):','west_o = self.normalise_lon(o.east, 0)\n            if same_coord(west, west_o):')],["U06"],"bug"),
("g-nowest",[(Gs,'            if same_coord(west, west_o):\n                return True','            return True')],["U06"],"bug"),
("g-norm",[(Gs,'while lon >= minimum + FULL_GLOBE:\n            lon -= FULL_GLOBE','while lon > minimum + FULL_GLOBE:\n            lon -= FULL_GLOBE')],["U06"],"bug"),
("g-hp",[(Gs,'        return self.order == o.order','        return True')],["U06"],"bug"),
("g-hp2",[(Gs,'self.get("order", "ring")','self.get("order", "nested")')],["U06"],"bug"),
("g-hp3",[(Gs,'            self["order"] = self.pop("ordering")','            self.pop("ordering")')],["U06","U07"],"bug"),
("g-ggew",[(Gs,'        if self.is_global() and o.is_global():','        if self.is_global_ew() and o.is_global_ew():')],["U06"],"bug"),
("g-dx",[(Gs,'(4 * self.N + 16)','(4 * self.N)')],["U06"],"bug"),
("g-ns",[(Gs,'eps = 90 / self.N','eps = 900 / self.N')],["U06"],"bug"),
("g-ns2",[(Gs,'90 - north < eps and south + 90 < eps','90 - north < eps or south + 90 < eps')],["U06"],"bug"),
("g-lldx",[(Gs,'elif abs(FULL_GLOBE - (east - west) - self.dx) < FULL_GLOBE_EPS:','elif abs(FULL_GLOBE - (east - west)) <= self.dx:')],["U06"],"bug"),
("g-same-eq",[(Gs,'        for k in self.COMPARE_KEYS:\n            if not self.compare_key(k, self[k], o[k]):\n                return False\n','        if not all(self.compare_key(k, self[k], o[k]) for k in self.COMPARE_KEYS):\n            return False\n')],["U06"],"same"),
("g-same-west",[(Gs,'            west = self.normalise_lon(self.west, 0)\n            west_o = self.normalise_lon(o.west, 0)\n            if same_coord(west, west_o):\n                return True\n\n        # TODO: add code for non global grids\n        return False\n\n    @property\n    def west(self):\n        return self["area"][1]\n\n    @property\n    def east(self):\n        return self["area"][3]\n\n    @property\n    def north','            return same_coord(self.normalise_lon(self.west, 0), self.normalise_lon(o.west, 0))\n\n        return False\n\n    @property\n    def west(self):\n        return self["area"][1]\n\n    @property\n    def east(self):\n        return self["area"][3]\n\n    @property\n    def north')],["U06"],"same"),
("g-same-area",[(Gs,'        if len(area1) == len(area2):\n            return all(same_coord(v1, v2, eps=eps) for v1, v2 in zip(area1, area2))\n        return False','        if len(area1) != len(area2):\n            return False\n        for a, b in zip(area1, area2):\n            if not same_coord(a, b, eps=eps):\n                return False\n        return True')],["U06"],"same"),
("g-same-ew",[(Gs,'            self._global_ew = False\n            if east < west:\n                east += FULL_GLOBE\n            if abs(east - west) < FULL_GLOBE_EPS:\n                self._global_ew = True\n            elif abs(east - west - FULL_GLOBE) < FULL_GLOBE_EPS:\n                self._global_ew = True\n            elif abs(FULL_GLOBE - (east - west) - self.dx) < FULL_GLOBE_EPS:\n                self._global_ew = True\n','            if east < west:\n                east += FULL_GLOBE\n            span = east - west\n            self._global_ew = span < FULL_GLOBE_EPS or abs(span - FULL_GLOBE) < FULL_GLOBE_EPS or abs(FULL_GLOBE - span - self.dx) < FULL_GLOBE_EPS\n')],["U06","U07"],"same"),
("g-same-norm",[(Gs,'        while lon < minimum:\n            lon += FULL_GLOBE\n        while lon >= minimum + FULL_GLOBE:\n            lon -= FULL_GLOBE\n        return lon','        return minimum + (lon - minimum) % FULL_GLOBE')],["U06","U07"],"same"),
("g-type1",[(Gs,'isinstance(grid, list) and len(grid) == 2','isinstance(grid, list)')],["U07"],"bug"),
("g-none",[(Gs,'        if t is None:\n            raise ValueError(f"Unsupported gridspec={d}")\n','        if t is None:\n            t = GridSpec\n')],["U07"],"bug"),
("g-mut",[(Gs,'        gs = dict(GridSpec.DEFAULTS)\n        gs.update(d)\n','        gs = d\n        for k, v in GridSpec.DEFAULTS.items():\n            gs.setdefault(k, v)\n')],["U07"],"bug"),
("g-over",[(Gs,'        gs = dict(GridSpec.DEFAULTS)\n        gs.update(d)\n','        gs = dict(d)\n        gs.update(GridSpec.DEFAULTS)\n')],["U07"],"bug"),
("g-shared",[(Gs,'        gs = dict(GridSpec.DEFAULTS)\n        gs.update(d)\n','        gs = GridSpec.DEFAULTS\n        gs.update(d)\n')],["U07"],"bug"),
("g-tab",[(Gs,'(0.8, 0.8): [89.6, 0, -89.6, 359.2]','(0.8, 0.8): [90, 0, -90, 359.2]')],["U07"],"bug"),
("g-tab2",[(Gs,'(0.3, 0.3): [90, 0, -90, 359.7]','(0.3, 0.3): [90, 0, -90, 359.6]')],["U07"],"bug"),
("g-tabkey",[(Gs,'(self["grid"][0], self["grid"][1])','(self["grid"][0], self["grid"][0])')],["U07"],"bug"),
("g-llglob",[(Gs,'        if "global" not in gs and "area" not in gs:','        if "area" not in gs:')],["U07"],"bug"),
("g-llglob2",[(Gs,'        if "global" not in gs and "area" not in gs:','        if "global" not in gs:')],["U07"],"bug"),
("g-num",[(Gs,'                elif grid[0] == "O":\n                    N = int(grid[1:])','                elif grid[0] == "O":\n                    N = int(grid[1:3])')],["U07","U06"],"bug"),
("g-oct",[(Gs,'                    octahedral = 0\n','                    octahedral = 1\n')],["U06","U07"],"bug"),
("g-range",[(Gs,'if N < 1 or N > 1000000:\n                raise ValueError(f"Invalid {N=}")','if N < 0 or N > 1000000:\n                raise ValueError(f"Invalid {N=}")')],["U07"],"bug"),
("g-hpord",[(Gs,'            if order not in ["ring", "nested"]:\n                raise ValueError(f"Invalid {order=}, must be \'ring\' or \'nested\'")\n','')],["U07"],"bug"),
("g-orca",[(Gs,'ORCA_PATTERN = re.compile(r"^e?ORCA','ORCA_PATTERN = re.compile(r"^ORCA')],["U07"],"bug"),
("g-rgg",[(Gs,'RGG_PATTERN = re.compile(r"[OoNn]','RGG_PATTERN = re.compile(r"[ON]')],["U07"],"bug"),
("g-same-infer",[(Gs,'            for k, gs in GRIDSPEC_TYPES.items():\n                if gs.type_match(grid):\n                    return k, gs\n','            for k in GRIDSPEC_TYPES:\n                kind = GRIDSPEC_TYPES[k]\n                if kind.type_match(grid):\n                    return k, kind\n')],["U07"],"same"),
("g-same-merge",[(Gs,'        gs = dict(GridSpec.DEFAULTS)\n        gs.update(d)\n        GridSpec._normalise(gs)\n','        gs = {**GridSpec.DEFAULTS, **d}\n        gs = {k: list(v) if isinstance(v, tuple) else v for k, v in gs.items()}\n')],["U07"],"same"),
("g-same-insp",[(Gs,'            try:\n                grid = grid.upper()\n                if grid[0] == "N":\n                    N = int(grid[1:])\n                    octahedral = 0\n                elif grid[0] == "O":\n                    N = int(grid[1:])\n                    octahedral = 1\n            except Exception as e:\n                raise ValueError(f"Invalid {grid=} {e}")\n','            try:\n                N = int(grid[1:])\n            except Exception as e:\n                raise ValueError(f"Invalid {grid=} {e}")\n            octahedral = 1 if grid[0] in "Oo" else 0\n')],["U06","U07"],"same"),
("g-same-default",[(Gs,'        self.setdefault("area", self.DEFAULT_AREA)\n        self._order = None','        if "area" not in self:\n            self["area"] = self.DEFAULT_AREA\n        self._order = None')],["U07"],"same"),
("g-ne2",[(Gs,'    def __ne__(self, o):\n        return not self == o\n','')],["U06"],"bug"),
("g-ne3",[(Gs,'    def __ne__(self, o):\n        return not self == o\n','    def __ne__(self, o):\n        return not self.__eq__(o)\n')],["U06"],"same"),
]
