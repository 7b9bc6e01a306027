L="data/fieldlist.py"; X="data/xarray.py"; N="data/numpy.py"; G="data/grib.py"; H="data/handler.py"; D="data_interpolate.py"; M="backends/mir.py"; W="backends/precomputed.py"; AR="array/regrid.py"; RG="regrid.py"; DI="data/__init__.py"; GS="gridspec.py"
A=["A01","A02","A03","A04","A05","A06","B02"]
CASES=[
# --- bugs
("fl-zip-order",[(L,"        return ds.from_fields(r)","        return ds.from_fields(r[::-1])")],A,"bug"),
("fl-skip",[(L,"                raise ValueError(f\"field type={type(f)} is not supported in regrid!\")","                continue")],A,"bug"),
("fl-first-msg",[(L,"                message = f.message()","                message = ds[0].message()")],A,"bug"),
("fl-enc-first",[(L,"message = encoder.encode(f).to_bytes()","message = encoder.encode(ds[0]).to_bytes()")],A,"bug"),
("fl-meta0",[(L,"md_res = f.metadata().override(gridspec=out_grid)\n            r += ds.from_numpy(v_res, md_res)","md_res = ds[0].metadata().override(gridspec=out_grid)\n            r += ds.from_numpy(v_res, md_res)")],A,"bug"),
("fl-no-override",[(L,"md_res = f.metadata().override(gridspec=out_grid)","md_res = f.metadata()")],A,"bug"),
("fl-in-meta",[(L,"md_res = f.metadata().override(gridspec=out_grid)","md_res = f.metadata().override(gridspec=in_grid)")],A,"bug"),
("fl-ingrid-once",[(L,"        r = earthkit.data.FieldList()\n        for i, f in enumerate(ds):\n            vv = f.to_numpy(flatten=True)\n\n            in_grid = self.input_gridspec(f, i)\n","        r = earthkit.data.FieldList()\n        in_grid = None\n        for i, f in enumerate(ds):\n            vv = f.to_numpy(flatten=True)\n\n            if in_grid is None:\n                in_grid = self.input_gridspec(f, i)\n")],A,"bug"),
("fl-prepend",[(L,"            r += ds.from_numpy(v_res, md_res)","            r = ds.from_numpy(v_res, md_res) + r")],A,"bug"),
("fl-nocheck",[(L,"        if not out_grid.is_regular_ll():","        if False:")],A,"bug"),
("fl-noneok",[(L,"        if in_grid is None:\n            raise ValueError(f\"Cannot","        if in_grid is None and index:\n            raise ValueError(f\"Cannot")],A,"bug"),
("fl-swallow",[(L,"            LOG.exception(f\"Cannot get input gridspec from metadata for field[{index}]: {e}\")\n            raise","            LOG.exception(f\"Cannot get input gridspec from metadata for field[{index}]: {e}\")\n            return {\"grid\": \"O1280\"}")],A,"bug"),
("fl-drop-kwargs",[(L,"            v_res = backend.regrid_grib(message, grid, **kwargs)","            v_res = backend.regrid_grib(message, grid)")],A,"bug"),
("fl-shape",[(L,"vv = f.to_numpy(flatten=True)","vv = f.to_numpy()")],A,"bug"),
("field-list",[(L,"        return FieldListDataHandler().regrid(ds, **kwargs)[0]","        return FieldListDataHandler().regrid(ds, **kwargs)")],A,"bug"),
("field-last",[(L,"        return FieldListDataHandler().regrid(ds, **kwargs)[0]","        r = FieldListDataHandler().regrid(ds, **kwargs)\n        return r[0] if kwargs else r")],A,"any"),
("x-swap-out",[(X,"            return [\"latitude\", \"longitude\"]\n        if num == 1","            return [\"longitude\", \"latitude\"]\n        if num == 1")],A,"bug"),
("x-values2",[(X,"        if num == 1:\n            return [\"values\"]","        if num >= 1:\n            return [\"values\"]")],A,"any"),
("x-anyorder",[(X,"        if dims[-2] == \"latitude\" and dims[-1] == \"longitude\":","        if {dims[-2], dims[-1]} == {\"latitude\", \"longitude\"}:")],A,"bug"),
("x-anywhere",[(X,"        if dims[-1] == \"values\":","        if \"values\" in dims:")],A,"bug"),
("x-in-shape",[(X,"{dim: out_geo.shape[i] for i, dim in enumerate(out_dims)}","{dim: in_grid.shape[i] for i, dim in enumerate(out_dims)}")],A,"bug"),
("x-rev-shape",[(X,"{dim: out_geo.shape[i] for i, dim in enumerate(out_dims)}","{dim: out_geo.shape[-1 - i] for i, dim in enumerate(out_dims)}")],A,"bug"),
("x-exclude",[(X,"        if set(in_dims) == set(out_dims):\n            exclude_dims = set(in_dims)\n","")],A,"bug"),
("x-exclude-eq",[(X,"        if set(in_dims) == set(out_dims):","        if in_dims is out_dims:")],A,"bug"),
("x-vectorize",[(X,"                vectorize=True,","                vectorize=False,")],A,"bug"),
("x-rename",[(X,"                ds_out[var_name] = _regrid(var)","                ds_out[var.name] = _regrid(values.data_vars[next(iter(values.data_vars))])")],A,"bug"),
("x-first",[(X,"                ds_out[var_name] = _regrid(var)","                ds_out[var_name] = _regrid(var)\n                break")],A,"bug"),
("x-coords-in",[(X,"        out_geo = XarrrayGeographyBuilder(method.out_grid)\n","        out_geo = XarrrayGeographyBuilder(in_grid.grid_spec)\n")],A,"bug"),
("x-coords-asked",[(X,"        out_geo = XarrrayGeographyBuilder(method.out_grid)\n","")],A,"bug"),
("x-latlon-swap",[(X,"                lat, lon = self.grid.to_latlons()\n                    # print","                lon, lat = self.grid.to_latlons()\n                    # print")],A,"any"),
("x-latlon-swap1",[(X,"                    lat, lon = self.grid.to_latlons()\n                    if lat is not None and lon is not None:\n                        coords[\"latitude\"] = lat\n                        coords[\"longitude\"] = lon\n                        coords_dim","                    lon, lat = self.grid.to_latlons()\n                    if lat is not None and lon is not None:\n                        coords[\"latitude\"] = lat\n                        coords[\"longitude\"] = lon\n                        coords_dim")],A,"bug"),
("x-wrap-swap",[(X,"        return np.array(lat), np.array(lon)","        return np.array(lon), np.array(lat)")],A,"bug"),
("x-distinct-swap",[(X,"                    return d_lat, d_lon","                    return d_lon, d_lat")],A,"bug"),
("x-distinct-axis",[(X,"                vals = lats[i, :]","                vals = lats[:, i]")],A,"bug"),
("x-alongswap",[(X,"                        coords_dim[\"latitude\"] = (\"latitude\",)\n                        coords_dim[\"longitude\"] = (\"longitude\",)","                        coords_dim[\"latitude\"] = (\"longitude\",)\n                        coords_dim[\"longitude\"] = (\"latitude\",)")],A,"bug"),
("x-attr-last",[(X,"            in_grid = ds.attrs.get(\"gridspec\", None)\n            if in_grid is None:\n                in_grid = kwargs.pop(\"grid_spec\", None)","            in_grid = kwargs.pop(\"grid_spec\", None)\n            if in_grid is None:\n                in_grid = ds.attrs.get(\"gridspec\", None)")],A,"bug"),
("x-attrs-pop",[(X,"            in_grid = ds.attrs.get(\"gridspec\", None)","            in_grid = ds.attrs.pop(\"gridspec\", None)")],A,"bug"),
("x-role-swap",[(X,"_RegridMethod(in_grid.grid_spec, out_geo.grid_spec, **kwargs)","_RegridMethod(out_geo.grid_spec, in_grid.grid_spec, **kwargs)")],A,"bug"),
("x-nokw",[(X,"_RegridMethod(in_grid.grid_spec, out_geo.grid_spec, **kwargs)","_RegridMethod(in_grid.grid_spec, out_geo.grid_spec, interpolation=kwargs[\"interpolation\"], backend=kwargs[\"backend\"])")],A,"bug"),
("x-return-in",[(X,"        self.add_geo_coords(ds_out, out_geo)\n\n        return ds_out","        return self.add_geo_coords(values, out_geo)")],A,"bug"),
("x-nocoords",[(X,"        self.add_geo_coords(ds_out, out_geo)\n\n        return ds_out","        return ds_out")],A,"bug"),
("x-grid-none",[(X,"        if out_grid is None:\n            raise ValueError(\"grid must be provided\")\n","")],A,"bug"),
("x-indims-sort",[(X,"        in_dims = ensure_list(in_dims)","        in_dims = sorted(ensure_list(in_dims))")],A,"bug"),
("x-indims-mut",[(X,"        in_dims = ensure_list(in_dims)","        in_dims = ensure_list(in_dims)\n        in_dims.sort()")],A,"bug"),
("x-append-attr",[(X,"        in_grid = self.get_in_grid(values, kwargs)\n","        in_grid = self.get_in_grid(values, kwargs)\n        values.attrs.setdefault(\"gridspec\", in_grid.grid_spec)\n")],A,"bug"),
("np-swap",[(N,"        return backend.regrid(values, in_grid, out_grid, **kwargs)","        return backend.regrid(values, out_grid, in_grid, **kwargs)")],A,"bug"),
("np-default",[(AR,"interpolation=interpolation, backend=backend, **kwargs","backend=backend, **kwargs")],A,"bug"),
("np-reshape",[(W,"        values = values.reshape(-1, 1)\n\n        values = z @ values\n        values = values.reshape(shape)\n\n        return values, out_grid","        values.shape = (-1, 1)\n\n        values = z @ values\n        values = values.reshape(shape)\n\n        return values, out_grid")],A,"bug"),
("np-nan",[(N,"        backend = self.backend_from_kwargs(kwargs)\n","        backend = self.backend_from_kwargs(kwargs)\n        import numpy as np\n        values[np.isnan(values)] = 0\n")],A,"bug"),
("np-nan2num",[(N,"        backend = self.backend_from_kwargs(kwargs)\n","        backend = self.backend_from_kwargs(kwargs)\n        import numpy as np\n        values = np.nan_to_num(values, copy=False)\n")],A,"bug"),
("area-pop",[(M,"            grid = grid.copy()\n","")],A,"bug"),
("area-kwcopy",[(M,"            kwargs = kwargs.copy()\n","")],A,"same"),
("area-order",[(M,"return \"/\".join(map(str, area))","return \"/\".join(sorted(map(str, area)))")],A,"bug"),
("area-len",[(M,"            if len(area) == 4:\n                return \"/\".join(map(str, area))","            return \"/\".join(map(str, area))")],A,"bug"),
("area-none",[(M,"        raise ValueError(f\"Invalid area format: {area}\")","        return area")],A,"bug"),
("area-lost",[(M,"            kwargs[\"area\"] = MirBackend.normalise_area(area)","            MirBackend.normalise_area(area)")],A,"bug"),
("mir-late",[(M,"        for k, v in kwargs.items():\n            job.set(k, v)\n\n        job.execute(input, out)","        job.execute(input, out)\n        for k, v in kwargs.items():\n            job.set(k, v)")],A,"bug"),
("mir-nn",[(M,"        kwargs = {\n            \"interpolation\": interpolation,\n            \"nearest_method\": nearest_method,\n            \"distance\": distance,\n            \"distance_tolerance\": distance_tolerance,\n            \"nclosest\": nclosest,\n        }\n\n        if nearest_method == \"automatic\":\n            # left to MIR, which has no method of this name\n            kwargs.pop(\"nearest_method\")\n\n        out_grid, kwargs = self.adjust_options(out_grid","        kwargs = {\n            \"interpolation\": interpolation,\n            \"nearest_method\": nearest_method,\n            \"distance\": distance,\n            \"distance_tolerance\": distance,\n            \"nclosest\": nclosest,\n        }\n\n        if nearest_method == \"automatic\":\n            # left to MIR, which has no method of this name\n            kwargs.pop(\"nearest_method\")\n\n        out_grid, kwargs = self.adjust_options(out_grid")],A,"bug"),
("mir-truthy",[(M,"        for k, v in kwargs.items():\n            job.set(k, v)\n\n        job.execute(input","        for k, v in kwargs.items():\n            if v:\n                job.set(k, v)\n\n        job.execute(input")],A,"bug"),
("mir-default",[(M,"        nclosest=4,\n    ):\n        from io","        nclosest=1,\n    ):\n        from io")],A,"bug"),
("mir-ret",[(M,"return out.values(), out.spec","return out.values(), out_grid")],A,"bug"),
("mir-job",[(M,"    def regrid(\n        self,\n        values,","    _job = None\n\n    def regrid(\n        self,\n        values,"),(M,"        job = mir.Job()\n        job.set(\"grid\", out_grid)\n        for k, v in kwargs.items():\n            job.set(k, v)\n\n        job.execute(input","        job = self._job = self._job or mir.Job()\n        job.set(\"grid\", out_grid)\n        for k, v in kwargs.items():\n            job.set(k, v)\n\n        job.execute(input")],A,"bug"),
("mir-inswap",[(M,"mir.ArrayInput(values, in_grid)","mir.ArrayInput(values, out_grid)")],A,"bug"),
("grib-seek",[(G,"                    values = values.getvalue()","                    values = values.read()")],A,"bug"),
("grib-nogrid",[(G,"        if kwargs.get(\"grid\") is None:","        if \"grid\" not in kwargs:")],A,"bug"),
("grib-buf",[(G,"            if isinstance(values, BytesIO):\n                return True\n        return False","        return False")],A,"bug"),
("h-none",[(H,"        if backend is None:\n            raise ValueError(\"Missing 'backend' keyword argument\")\n","        if backend is None:\n            backend = \"mir\"\n")],A,"bug"),
("h-inv-kept",[(H,"                b_kwargs[k] = kwargs.pop(k)","                b_kwargs[k] = kwargs[k]")],A,"bug"),
("h-inv-lost",[(H,"        return self.get_backend(backend, **b_kwargs)","        return self.get_backend(backend)")],A,"bug"),
("rg-none",[(RG,"    if h is None:","    if h is None and values is not None:")],A,"bug"),
("leg-source",[(D,"backend = get_backend(\"precomputed\", inventory=matrix_source)","backend = get_backend(\"precomputed\")")],A,"bug"),
("leg-swap",[(D,"        in_grid = kwargs.pop(\"in_grid\")\n        out_grid = kwargs.pop(\"out_grid\")\n        backend","        out_grid = kwargs.pop(\"in_grid\")\n        in_grid = kwargs.pop(\"out_grid\")\n        backend")],A,"bug"),
("leg-user",[(D,"        in_grid = user_grid\n        if in_grid is None:\n            try:","        in_grid = None\n        if in_grid is None:\n            try:")],A,"bug"),
("leg-backend",[(D,"        if \"backend\" in kwargs:\n            raise ValueError(\"backend should not be passed as a keyword argument to interpolate()\")\n","        kwargs.pop(\"backend\", None)\n")],A,"bug"),
("gs-pop",[(GS,"        gs = dict(**gs)","        gs = gs")],A,"any"),
# --- refactorings
("r-fl-comp",[(L,"        r = []\n        for i, f in enumerate(ds):\n            if isinstance(f, GribField):\n                message = f.message()\n            elif hasattr(f, \"handle\"):\n                from earthkit.data import create_encoder\n\n                encoder = create_encoder(\"grib\")\n                message = encoder.encode(f).to_bytes()\n            else:\n                raise ValueError(f\"field type={type(f)} is not supported in regrid!\")\n\n            v_res = backend.regrid_grib(message, grid, **kwargs)\n            r.append(GribFieldInMemory.from_buffer(v_res))\n\n        return ds.from_fields(r)","        def _msg(f):\n            if isinstance(f, GribField):\n                return f.message()\n            if not hasattr(f, \"handle\"):\n                raise ValueError(f\"field type={type(f)} is not supported in regrid!\")\n            from earthkit.data import create_encoder\n\n            return create_encoder(\"grib\").encode(f).to_bytes()\n\n        return ds.from_fields([GribFieldInMemory.from_buffer(backend.regrid_grib(_msg(f), grid, **kwargs)) for f in ds])")],A,"same"),
("r-fl-md",[(L,"            md_res = f.metadata().override(gridspec=out_grid)\n            r += ds.from_numpy(v_res, md_res)","            md = f.metadata()\n            r = r + ds.from_numpy(v_res, md.override(gridspec=out_grid))")],A,"same"),
("r-fl-outgrid",[(L,"            v_res, out_grid = backend.regrid(","            v_res, res_grid = backend.regrid("),(L,"override(gridspec=out_grid)","override(gridspec=res_grid)")],A,"same"),
("r-x-helper",[(X,"        exclude_dims = set()\n        if set(in_dims) == set(out_dims):\n            exclude_dims = set(in_dims)\n","        exclude_dims = set(in_dims) if set(in_dims) == set(out_dims) else set()\n")],A,"same"),
("r-x-exclude-inter",[(X,"        exclude_dims = set()\n        if set(in_dims) == set(out_dims):\n            exclude_dims = set(in_dims)\n","        exclude_dims = set(in_dims) & set(out_dims)\n")],A,"any"),
("r-x-sizes",[(X,"{dim: out_geo.shape[i] for i, dim in enumerate(out_dims)}","dict(zip(out_dims, out_geo.shape))")],A,"same"),
("r-x-assign",[(X,"        for k, v in coords.items():\n            c_dims = {x: dims[x] for x in coords_dim[k]}\n            ds.coords[k] = xr.Variable(c_dims, v)\n\n        return ds","        return ds.assign_coords({k: xr.Variable({x: dims[x] for x in coords_dim[k]}, v) for k, v in coords.items()})"),(X,"        self.add_geo_coords(ds_out, out_geo)\n\n        return ds_out","        return self.add_geo_coords(ds_out, out_geo)")],A,"same"),
("r-x-ds",[(X,"            ds_out = xr.Dataset()\n            for var_name, var in values.data_vars.items():\n                ds_out[var_name] = _regrid(var)\n","            ds_out = xr.Dataset({name: _regrid(var) for name, var in values.data_vars.items()})\n")],A,"same"),
("r-x-closure",[(X,"        method = _RegridMethod(in_grid.grid_spec, out_geo.grid_spec, **kwargs)","        src, dst = in_grid.grid_spec, out_geo.grid_spec\n        method = _RegridMethod(src, dst, **kwargs)")],A,"same"),
("r-x-distinct",[(X,"                    r[i] = vals[0]\n                else:\n                    return None\n            return r\n        return None\n\n    @staticmethod\n    def _distinct_lons","                    r[i] = lats[i, 0]\n                else:\n                    return None\n            return r\n        return None\n\n    @staticmethod\n    def _distinct_lons")],A,"same"),
("r-x-inline",[(X,"    @staticmethod\n    def _distinct_lats(lats):","    @staticmethod\n    def _unique_lats(lats):"),(X,"self._distinct_lats(lat)","self._unique_lats(lat)")],A,"same"),
("r-x-geodims",[(X,"    dims = list(ds.sizes.keys())\n    if len(ds.dims) >= 1:\n        if dims[-1] == \"values\":\n            return [\"values\"]\n    if len(dims) >= 2:\n        if dims[-2] == \"latitude\" and dims[-1] == \"longitude\":\n            return [\"latitude\", \"longitude\"]\n","    dims = list(ds.sizes)\n    for known in ([\"values\"], [\"latitude\", \"longitude\"]):\n        if dims[-len(known):] == known:\n            return known\n")],A,"same"),
("r-mir-shared",[(M,"        job = mir.Job()\n        job.set(\"grid\", out_grid)\n        for k, v in kwargs.items():\n            job.set(k, v)\n\n        job.execute(input, out)","        self._run(out_grid, kwargs, input, out)"),(M,"    # TODO: remove this once the gridspec can be written into the GRIB message","    @staticmethod\n    def _run(grid, options, source, target):\n        import mir\n\n        job = mir.Job()\n        for k, v in dict(options, grid=grid).items():\n            job.set(k, v)\n        job.execute(source, target)\n\n    # TODO: remove this once the gridspec can be written into the GRIB message")],A,"same"),
("r-mir-if",[(M,"        if nearest_method == \"automatic\":\n            # left to MIR, which has no method of this name\n            kwargs.pop(\"nearest_method\")\n\n        out_grid, kwargs = self.adjust_options(grid","        kwargs = {k: v for k, v in kwargs.items() if k != \"nearest_method\" or v != \"automatic\"}\n\n        out_grid, kwargs = self.adjust_options(grid")],A,"same"),
("r-area-fmt",[(M,"        if isinstance(area, (list, tuple)):\n            if len(area) == 4:\n                return \"/\".join(map(str, area))\n","        if isinstance(area, (list, tuple)) and len(area) == 4:\n            n, w, s, e = area\n            return f\"{n}/{w}/{s}/{e}\"\n")],A,"same"),
("r-area-dict",[(M,"            grid = grid.copy()\n            kwargs = kwargs.copy()\n            area = grid.pop(\"area\")\n            kwargs[\"area\"] = MirBackend.normalise_area(area)","            kwargs = dict(kwargs, area=MirBackend.normalise_area(grid[\"area\"]))\n            grid = {k: v for k, v in grid.items() if k != \"area\"}")],A,"same"),
("r-np",[(N,"        in_grid = kwargs.pop(\"in_grid\")\n        out_grid = kwargs.pop(\"out_grid\")\n        backend = self.backend_from_kwargs(kwargs)\n        return backend.regrid(values, in_grid, out_grid, **kwargs)","        backend = self.backend_from_kwargs(kwargs)\n        return backend.regrid(values, **kwargs)")],A,"same"),
("r-grib",[(G,"            if not isinstance(values, bytes):\n                from io import BytesIO\n\n                if isinstance(values, BytesIO):\n                    values = values.getvalue()\n","            if hasattr(values, \"getvalue\"):\n                values = values.getvalue()\n")],A,"any"),
("r-grib2",[(G,"            if not isinstance(values, bytes):\n                from io import BytesIO\n\n                if isinstance(values, BytesIO):\n                    values = values.getvalue()\n","            from io import BytesIO\n\n            values = values.getvalue() if isinstance(values, BytesIO) else values\n")],A,"same"),
("r-grib-match",[(G,"        if isinstance(values, bytes):\n            return True\n        else:\n            from io import BytesIO\n\n            # TODO: add further checks to see if the object is a GRIB message\n            if isinstance(values, BytesIO):\n                return True\n        return False","        from io import BytesIO\n\n        return isinstance(values, (bytes, BytesIO))")],A,"same"),
("r-handler",[(H,"        b_kwargs = {}\n        for k in OPTIONAL_BACKENDS_KWARGS:\n            if k in kwargs:\n                b_kwargs[k] = kwargs.pop(k)","        b_kwargs = {k: kwargs.pop(k) for k in OPTIONAL_BACKENDS_KWARGS if k in kwargs}")],A,"same"),
("r-leg",[(D,"        if matrix_source is not None:\n            backend = get_backend(\"precomputed\", inventory=matrix_source)\n        else:\n            backend = get_backend(\"precomputed\")","        backend = get_backend(\"precomputed\", **({} if matrix_source is None else {\"inventory\": matrix_source}))")],A,"same"),
("r-pre-out",[(W,"        values = values.reshape(-1, 1)\n\n        values = z @ values\n        values = values.reshape(shape)\n\n        return values, out_grid","        column = values.reshape(-1, 1)\n        column = column * 1.0\n        column *= 1\n        return (z @ column).reshape(shape), out_grid")],["A01","A03","A05"],"same"),
]
