B="utils/builder.py"; DB="backends/db.py"; Gs="gridspec.py"; Hu="utils/humanize.py"; Dl="utils/download.py"
U=["U03"]
CASES=[
# --- builder
("b-area-order",[(B,'"area": [bb["north"], bb["west"], bb["south"], bb["east"]],\n    }\n    if "global"','"area": [bb["north"], bb["east"], bb["south"], bb["west"]],\n    }\n    if "global"')],U,"bug"),
("b-shape",[(B,'[entry["nj"], entry["ni"]]','[entry["ni"], entry["nj"]]')],U,"bug"),
("b-inc",[(B,'("west_east", "south_north")','("south_north", "west_east")')],U,"bug"),
("b-on",[(B,'"O" if pl[1] - pl[0] == 4 else "N"','"O" if pl[0] == 20 else "N"')],U,"bug"),
("b-sum",[(B,'[sum(pl)]','[len(pl)]')],U,"bug"),
("b-key-noin",[(B,'    m["input"] = entry["input"]\n','')],U,"bug"),
("b-key-method",[(B,'m["interpolation"] = inter_ori','m["interpolation"] = method_name')],U,"bug"),
("b-key-short",[(B,'    name = key\n','    name = key[:8]\n')],U,"bug"),
("b-key-md5",[(B,'    key = make_sha(m)','    key = make_sha(m)[:6]')],U,"bug"),
("b-dir",[(B,'        MatrixIndex.matrix_dir_name(entry),\n','        method_name,\n')],U,"bug"),
("b-dirname",[(DB,'        return f"{engine}_{version}_{method_name}"','        return f"{engine}-{version}-{method_name}"')],U,"same"),
("b-out-in",[(B,'output=convert(entry["output"])','output=convert(entry["input"])')],U,"bug"),
("b-mem",[(B,'memory=mem_size','memory=entry["matrix"]["nnz"] * 8')],U,"bug"),
("b-nnz",[(B,'nnz=entry["matrix"]["nnz"]','nnz=entry["matrix"]["rows"]')],U,"bug"),
("b-noversion",[(B,'            if index.get("version", None) != VERSION:','            if index.get("version", VERSION) != VERSION:')],U,"bug"),
("b-setversion",[(B,'                raise ValueError(f"{index_file=} version must be {VERSION}")','                index["version"] = VERSION')],U,"bug"),
("b-newlist",[(B,'    index["matrix"][key] = dict(','    index["matrix"] = {}\n    index["matrix"][key] = dict(')],U,"bug"),
("b-global",[(B,'entry["input"]["global"] = 1 if global_input else 0','entry["input"]["global"] = 1')],U,"bug"),
("b-global2",[(B,'if global_output is not None and "global" not in entry["output"]','if global_output and "global" not in entry["output"]')],U,"bug"),
("b-global3",[(B,'if global_input is not None and "global" not in entry["input"]','if global_input is not None')],U,"bug"),
("b-globalboth",[(B,'if global_output is not None and "global" not in entry["output"]:\n        entry["output"]["global"] = 1 if global_output','if global_output is not None and "global" not in entry["output"]:\n        entry["output"]["global"] = 1 if global_input')],U,"bug"),
("b-gg-global",[(B,'    if "global" in entry:\n        d["global"] = entry["global"]\n\n    return d','    return d')],U,"bug"),
("b-inter",[(B,'interpolation=entry["interpolation"],\n','interpolation={"method": method_name},\n')],U,"bug"),
("b-same-sha",[(B,'    m = hashlib.sha256()\n    m.update(json.dumps(d, sort_keys=True).encode("utf-8"))\n    return m.hexdigest()','    text = json.dumps(d, sort_keys=True)\n    return hashlib.sha256(text.encode("utf-8")).hexdigest()')],U,"same"),
("b-same-order",[(B,'    m["input"] = entry["input"]\n    m["output"] = entry["output"]\n    m["interpolation"] = inter_ori\n','    m = {"output": entry["output"], "input": entry["input"], "interpolation": inter_ori}\n')],U,"same"),
("b-same-dict",[(B,'        proc = globals()[x["type"]]\n','        proc = {"regular_ll": regular_ll, "reduced_gg": reduced_gg, "healpix": healpix, "orca": orca}[x["type"]]\n')],U,"same"),
("b-same-atomic",[(B,'    with open(index_file, "w") as f:\n        json.dump(index, f, indent=4)\n','    tmp = index_file + ".tmp"\n    with open(tmp, "w") as f:\n        json.dump(index, f, indent=4)\n    os.replace(tmp, index_file)\n')],U,"same"),
("b-same-dumps",[(B,'        json.dump(index, f, indent=4)\n','        f.write(json.dumps(index, indent=4))\n')],U,"same"),
("b-same-helper",[(B,'    if "global" in entry:\n        d["global"] = entry["global"]\n    return d\n\n\ndef reduced','    return _flags(d, entry)\n\n\ndef _flags(d, entry):\n    if "global" in entry:\n        d["global"] = entry["global"]\n    return d\n\n\ndef reduced'),(B,'    if "global" in entry:\n        d["global"] = entry["global"]\n\n    return d','    return _flags(d, entry)')],U,"same"),
("b-same-fstr",[(B,'os.path.join(matrix_output_path, f"{name}.npz")','os.path.join(matrix_output_path, name + ".npz")')],U,"same"),
("b-same-area",[(B,'        "area": [bb["north"], bb["west"], bb["south"], bb["east"]],\n    }\n    if "global"','        "area": [bb[k] for k in ("north", "west", "south", "east")],\n    }\n    if "global"')],U,"same"),
("b-same-exists",[(B,'    if os.path.exists(index_file):\n        with open(index_file) as f:\n            index = json.load(f)\n            if index.get("version", None) != VERSION:\n                raise ValueError(f"{index_file=} version must be {VERSION}")\n    else:\n        index = {}\n        index["version"] = VERSION\n        index["matrix"] = {}\n','    index = {"version": VERSION, "matrix": {}}\n    if os.path.isfile(index_file):\n        with open(index_file) as f:\n            index = json.load(f)\n        if index.get("version") != VERSION:\n            raise ValueError(f"{index_file=} version must be {VERSION}")\n')],U,"same"),
("b-same-global",[(B,'entry["input"]["global"] = 1 if global_input else 0','entry["input"]["global"] = int(bool(global_input))')],U,"same"),
("b-same-pathlib",[(B,'    npz_file = os.path.join(matrix_output_path, f"{name}.npz")','    npz_file = "%s/%s.npz" % (matrix_output_path, name)')],U,"same"),
]
