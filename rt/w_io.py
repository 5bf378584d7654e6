"""P23 files: what was written is what is read."""
import os
import shutil
import tempfile

import numpy as np

from .core import lazy, scramble_layout, workload
from .w_geom import pick

powder = lazy("skbeam.io.save_powder_output")
gsas = lazy("skbeam.io.gsas_file_reader")
avizo = lazy("skbeam.io.avizo_io")
netcdf = lazy("skbeam.io.net_cdf_io")
binary = lazy("skbeam.io.binary")
fit2d = lazy("skbeam.io.fit2d")


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=os.environ["VERIF_TMP"])
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def profile(rng, n=None):
    n = n or int(pick(rng, 2, 3, 4, 5, 6, 9, 10, 11, 15, 20, 21, 51, 101, 202, 351, int(rng.integers(2, 400))))
    start = round(float(rng.uniform(0, 60)), 3)
    if rng.random() < 0.03:
        n = int(rng.integers(1000, 6000))
    step = round(float(rng.uniform(0.001, min(0.3, 120 / n))), 3)
    tth = start + step * np.arange(n)
    top = 10.0 ** float(rng.uniform(0, 13) if rng.random() < 0.85 else rng.uniform(-8, 0))
    y = rng.uniform(0, top, n)
    k = int(rng.integers(0, 4))
    if k == 0:
        y = np.round(y)
    elif k == 1:
        y[rng.random(n) < 0.4] = 0
    elif k == 2:
        y = rng.integers(0, int(pick(rng, 2, 100, 999999, 1000000, 10 ** 7)) + 1, n)
        if rng.random() < 0.3:
            y[int(rng.integers(0, n))] = int(pick(rng, 999999, 1000000, 99999))
    return tth, y


def where(rng, d):
    """(output_name, dir_path, path without extension)"""
    name = pick(rng, "out", "scan_0012", "a.b", "name with space")
    k = int(rng.integers(0, 3))
    if k == 0:
        return name, d, os.path.join(d, name)
    if k == 1:
        return os.path.join(d, name), None, os.path.join(d, name)
    return name, d + os.sep, os.path.join(d, name)


def rounded(v, nd):
    """All values a correct rounding of v may print."""
    return np.array([float("%.*f" % (nd, x)) for x in v])


@workload("P23", quick=300)
def gsas_round_trip(c):
    """intensities, angles and weights come back, within the printed digits"""
    rng = c.rng
    with scratch() as d:
        tth, y = profile(rng)
        n = len(y)
        coarse = 0.0
        if rng.random() < 0.25:         # equal steps, but printed with few decimals before
            coarse = 10.0 ** -int(rng.integers(3, 5))
            tth = np.round((tth[0] + float(rng.uniform(0.002, 0.3)) * np.arange(n)) / coarse) * coarse
        mode = pick(rng, "STD", "ESD", "FXYE")
        err = None
        if mode != "STD" or rng.random() < 0.5:
            err = np.sqrt(np.abs(y)) * rng.uniform(0, 3, n)
            if rng.random() < 0.3:
                err = np.round(err)
        give = mode if (mode != "STD" or err is not None) else pick(rng, None, "STD", "ESD", "FXYE")
        if np.max(y) == 0 and rng.random() < 0.8:
            y = y + 1
        name, dp, path = where(rng, d)
        if rng.random() < 0.4:
            with open(path + ".gsas", "w") as f:
                f.write("old content\n" * 500)
        t, i = scramble_layout(rng, tth), scramble_layout(rng, y)
        c.call(powder.gsas_writer, t, i, name, mode=give, err=err, dir_path=dp)
        c.expect(os.listdir(d) == [os.path.basename(path) + ".gsas"], "files-written", lambda: os.listdir(d))
        lines = open(path + ".gsas", newline="").read().split("\r\n")
        c.expect(lines[-1] == "" and all("\n" not in l for l in lines), "line-ends")
        lines = lines[:-1]
        per = {"STD": 10, "ESD": 5, "FXYE": 1}[mode]
        nrec = -(-n // per)
        bank = lines[1].split()
        c.expect(bank[0] == "BANK" and int(bank[2]) == n and int(bank[3]) == nrec and bank[9] == mode,
                 "bank-line", lambda: lines[1])
        c.expect(len(lines) == 2 + nrec and len(lines[0]) == len(lines[1]) == 80 and len(lines[-1]) == 80, "records",
                 lambda: (len(lines), n, mode))
        width = {"STD": 8, "ESD": 16, "FXYE": 0}[mode]
        if width:
            sizes = [len(l) for l in lines[2:-1]] + [len(lines[-1].rstrip(" "))]
            c.expect(sizes == [80] * (nrec - 1) + [width * (n - per * (nrec - 1))], "record-width", lambda: sizes)
        c.expect(lines[0].startswith(("Angular Profile: %s scale=" % name)[:80]), "title", lambda: lines[0])
        c.expect(bank[1] == "1" and bank[4] == "CONST" and float(bank[7]) == float(bank[8]) == 0 and len(bank) == 10
                 and abs(float(bank[5]) - tth[0] * 100) < 6e-6 * (1 + tth[0])
                 and abs(float(bank[6]) - (tth[-1] - tth[0]) / (n - 1) * 100) < 6e-6, "bank-line", lambda: lines[1])
        top = float(np.max(y))
        if len("Angular Profile: %s scale=0.0001" % name) <= 80:
            scale = float(lines[0].rstrip().rpartition("scale=")[2])
        else:   # cut from the title
            scale = 10.0 ** min(np.floor(np.log10(999999 / top)), 0) if top else 1.0
        if top <= 999998:
            c.expect(scale == 1, "scale", (top, scale))
        elif top > 999999.5:
            c.expect(abs(np.log10(scale) - round(np.log10(scale))) < 1e-9
                     and 99998 < top * scale < 1000000, "scale", (top, scale))
        rt, ri, rw = c.call(gsas.gsas_reader, path + ".gsas")
        c.mark(mode, n % per, scale, err is None, np.asarray(y).dtype.kind)
        c.expect(len(rt) == len(ri) == len(rw) == n, "length", lambda: (len(rt), len(ri), len(rw), n, mode))
        if mode == "FXYE":
            c.close(rt, tth, "two-theta", rtol=0, atol=6e-11)
        else:
            # the step is printed with five decimals of a centidegree
            c.close(rt, tth, "two-theta", rtol=1e-12, atol=1.01 * coarse + 6e-8 * (1 + np.arange(n)))
        nd = 10 if mode == "FXYE" else 0
        want = np.asarray(y, float) * scale
        tol = 0.5 * 10.0 ** -nd * (1 + 1e-9) + 1e-15 * want
        c.close(ri, want, "intensity", rtol=0, atol=tol, detail=mode)
        if mode == "STD":
            with np.errstate(all="ignore"):
                c.close(rw, np.where(ri > 0, 1 / ri, 0), "weight", rtol=1e-12)
        else:
            printed = rounded(np.asarray(err, float) * scale, nd)
            with np.errstate(all="ignore"):
                lo = np.asarray(err, float) * scale - tol
                hi = lo + 2 * tol
                c.expect(np.all((rw == 0) == (printed <= 0)), "weight-of-zero")
                ok = (rw == 0) | ((rw * lo ** 2 <= 1 + 1e-9) | (lo <= 0)) & (rw * hi ** 2 >= 1 - 1e-9)
                c.expect(np.all(ok), "weight", lambda: (rw[~ok][:3], err[~ok][:3], scale, mode))


@workload("P23", quick=120)
def gsas_given(c):
    """a file of other origin: counting times, blanks and short records"""
    rng = c.rng
    with scratch() as d:
        n = int(rng.integers(1, 60))
        mode = pick(rng, "STD", "ESD", "FXYE")
        start, step = round(float(rng.uniform(0, 3000)), 2), round(float(rng.uniform(0.1, 20)), 3)
        top = int(pick(rng, 9, 99999, 999999))
        y = rng.integers(0, top + 1, n)
        if rng.random() < 0.4:
            y[rng.random(n) < 0.3] = top
        if rng.random() < 0.3:
            y[rng.random(n) < 0.4] *= -1      # after a background was taken off: no counts
            y = np.maximum(y, -99999)
        e = rng.integers(0, 999, n)
        if mode == "ESD" and rng.random() < 0.3:
            y, e = y * 100 + (y > 0), e * 90000
            y = np.maximum(y, -9999999)
        ni = rng.integers(0, int(pick(rng, 20, 100)), n)
        x = (start + step * np.arange(n)) / 100
        L = ["%-80s" % "title", "%-80s" % ("BANK 1 %d %d CONST %.2f %.3f 0 0 %s" % (n, n, start, step, mode))]
        if mode == "STD":
            rec = ["%2s%6d" % ("" if m == 0 else int(m), v) for m, v in zip(ni, y)]
            L += ["".join(rec[k:k + 10]) for k in range(0, n, 10)]
            w = [max(int(m), 1) / v if v > 0 else 0 for m, v in zip(ni, y)]
        elif mode == "ESD":
            rec = ["%8s%8s" % (v or pick(rng, "", 0), s or pick(rng, "", 0)) for v, s in zip(y, e)]
            L += ["".join(rec[k:k + 5]) for k in range(0, n, 5)]
            w = [1 / s ** 2 if s else 0 for s in e.astype(float)]
        else:
            L += ["%15.6f%15.4f%15.4f" % (a, b, s) for a, b, s in zip(x, y, e)]
            x = rounded(x, 6)
            w = [1 / s ** 2 if s else 0 for s in e.astype(float)]
        eol = pick(rng, "\n", "\r\n")
        if rng.random() < 0.5:
            L = ["%-80s" % l for l in L]
        p = os.path.join(d, pick(rng, "x.gsas", "a.b.gsas"))
        with open(p, "w", newline="") as f:
            f.write(eol.join(L) + eol)
        c.note("".join(L))
        t, i, w2 = c.call(gsas.gsas_reader, p)
        c.mark(mode, n % 10, eol)
        c.close(t, x, "two-theta", rtol=1e-12)
        c.equal(i, np.maximum(y, 0).astype(float), "intensity")
        c.close(w2, np.array(w, float), "weight", rtol=1e-12)
        # other names and modes are refused
        q = os.path.join(d, "x.gsa")
        shutil.copy(p, q)
        c.rejects((IOError, ValueError), gsas.gsas_reader, q)
        bad = open(p).read().replace(" " + mode, " " + pick(rng, "ALT", "RALF"))
        with open(p, "w") as f:
            f.write(bad)
        c.rejects(ValueError, gsas.gsas_reader, p)


@workload("P23", quick=200)
def powder_files(c):
    """chi, dat and xye files hold every value, after the header"""
    rng = c.rng
    with scratch() as d:
        tth, y = profile(rng, int(rng.integers(1, 60)))
        n = len(y)
        y = np.asarray(y, float)
        if rng.random() < 0.3:
            y = y * 10.0 ** float(rng.uniform(-200, 200)) * rng.choice([-1, 1], n)
        elif rng.random() < 0.2:
            y = rng.integers(0, 60000, n).astype(pick(rng, np.uint16, np.int64, np.uint32))
        ext = pick(rng, ".chi", ".dat", ".xye")
        err = np.abs(rng.normal(size=n)) if ext == ".xye" or rng.random() < 0.3 else None
        q = pick(rng, "Q", "2theta")
        name, dp, path = where(rng, d)
        if rng.random() < 0.4:
            with open(path + ext, "w") as f:
                f.write("1 2 3\n" * 500)
        kw = {} if (ext == ".chi" and rng.random() < 0.5) else {"ext": ext}
        c.call(powder.save_output, scramble_layout(rng, tth), scramble_layout(rng, y), name, q, err=err,
               dir_path=dp, **kw)
        c.expect(os.listdir(d) == [os.path.basename(path) + ext], "files-written", lambda: os.listdir(d))
        c.mark(ext, q, err is None, n == 1)
        text = open(path + ext).read()
        rows = [l.split() for l in text.rstrip("\n").split("\n")[-n:]]
        data = np.array([[float(v) for v in r] for r in rows])
        cols = np.stack([tth, y] if err is None else [tth, y, err], axis=1)
        c.equal(data, cols, "columns", ext)
        head = text.split("\n")[:-n - 1]
        c.expect(head[0].strip() == name and any(":" in l and l.rsplit(":", 1)[1].strip() == str(n) for l in head),
                 "header", lambda: head)
        what = "Q values" if q == "Q" else "two theta values"
        c.expect(what in " ".join(head) and not ("two theta" in " ".join(head)) == (q == "2theta") or
                 ("two theta values" in " ".join(head)) == (q == "2theta"), "header-quantity", lambda: head)
        # the documented way to read it back
        got = np.loadtxt(path + ext, skiprows=len(head), ndmin=2)
        c.equal(got, cols, "columns-read-back")


@workload("P23", quick=100)
def refusals(c):
    """what is refused leaves the files alone"""
    rng = c.rng
    with scratch() as d:
        tth, y = profile(rng, int(rng.integers(3, 20)))
        old = "keep me\n" * 3
        for e in (".gsas", ".chi", ".dat", ".xye"):
            with open(os.path.join(d, "x" + e), "w") as f:
                f.write(old)
        e = np.ones(len(y))
        k = c.i % 9
        c.mark(k)
        if k == 0:
            c.rejects(ValueError, powder.gsas_writer, tth, y, "x", mode=pick(rng, "RALF", "std", ""), err=e, dir_path=d)
        elif k == 1:
            c.rejects(ValueError, powder.gsas_writer, tth, y[:-1], "x", mode=pick(rng, "STD", "ESD", "FXYE"),
                      err=e[:-1], dir_path=d)
        elif k == 2:
            c.rejects(ValueError, powder.gsas_writer, tth, y, "x", mode=pick(rng, "STD", "ESD", "FXYE"), err=e[:-1],
                      dir_path=d)
        elif k == 3:
            c.rejects(ValueError, powder.gsas_writer, tth, y, "x", mode="FXYE", err=e, dir_path=os.path.join(d, "no"))
        elif k == 4:
            c.rejects(ValueError, powder.save_output, tth, y, "x", pick(rng, "q", "tth", ""), dir_path=d)
        elif k == 5:
            c.rejects(ValueError, powder.save_output, tth, y, "x", "Q", ext=".xye", dir_path=d)
        elif k == 6:
            c.rejects(ValueError, powder.save_output, tth, y[1:], "x", "Q", ext=pick(rng, ".chi", ".dat"), dir_path=d)
        elif k == 7:
            c.rejects(ValueError, powder.save_output, tth, y, "x", "2theta", ext=".xye", err=e[2:], dir_path=d)
        else:       # data which the format cannot hold: refused or written, but not lost
            y = y.astype(float)
            m = int(rng.integers(0, 5))
            if m == 0:
                y[int(rng.integers(0, len(y)))] = np.nan
            elif m == 1:
                y = -1 - y
            elif m == 2:
                tth, y, e = tth[:1], y[:1], e[:1]
            elif m == 3:
                tth, y, e = tth[:0], y[:0], e[:0]
            else:
                y[int(rng.integers(0, len(y)))] = np.inf
            try:
                powder.gsas_writer(tth, y, "x", mode=pick(rng, "STD", "ESD", "FXYE"), err=e, dir_path=d)
            except Exception:
                c.mark("refused", m)
            else:
                c.mark("written", m)
                with open(os.path.join(d, "x.gsas"), "w") as f:
                    f.write(old)
        c.expect(all(open(os.path.join(d, f)).read() == old for f in os.listdir(d)) and len(os.listdir(d)) == 4,
                 "file-lost-by-refusal", lambda: os.listdir(d))


AM = {"float": "f4", "short": "i2", "ushort": "u2", "byte": "i1"}


@workload("P23", quick=160)
def amira(c):
    """volume, dimensions and resolution of an AmiraMesh file"""
    rng = c.rng
    with scratch() as d:
        x, y, z = (c.n(2, 8, 50) for _ in range(3))
        if rng.random() < 0.2:
            x, y, z = (int(v) for v in rng.integers(1, 4, 3))
        kind = pick(rng, *AM)
        fmt = pick(rng, "BINARY-LITTLE-ENDIAN", "BINARY", "ASCII")
        if kind == "float":
            vol = rng.normal(size=(z, y, x)).astype("f4")
            if rng.random() < 0.2:
                vol[rng.random(vol.shape) < 0.2] *= np.float32(1e30)
        else:
            ii = np.iinfo(AM[kind])
            vol = rng.integers(ii.min, ii.max + 1, (z, y, x)).astype(AM[kind])
        if fmt == "ASCII":
            body = (pick(rng, " ", "\n", "  ", " \n", "\r\n", "\t", "\n\n") .join(repr(float(v)) if kind == "float" else str(int(v)) for v in vol.ravel()) + "\n").encode()
        else:
            body = vol.astype(("<" if fmt != "BINARY" else ">") + AM[kind]).tobytes()
            if kind in ("byte",) and rng.random() < 0.5:
                body += b"\n"
        lo = rng.uniform(-5, 5, 3)
        if rng.random() < 0.5:
            res = np.full(3, rng.uniform(0.1, 3))
        elif rng.random() < 0.5:
            res = np.full(3, rng.uniform(0.1, 3))
            res[int(rng.integers(0, 3))] *= pick(rng, 0.5, 0.98, 0.988, 0.992, 0.997, 1.003, 1.007, 1.012, 1.02, 2)
        else:
            res = np.array([1.0, 1.3, 1.7]) * rng.uniform(0.1, 3)
            rng.shuffle(res)
        hi = lo + res * (np.array([x, y, z]) - 1)
        box = [round(v, 9) for p in zip(lo, hi) for v in p]
        soft = pick(rng, "Avizo", "AmiraMesh")
        head = "# %s %s%s 2.1\n\n\ndefine Lattice %d %d %d\n\nParameters {\n" % (
            soft, pick(rng, "", "3D "), fmt, x, y, z)
        head += '    Content "%dx%dx%d %s, uniform coordinates",\n' % (x, y, z, kind)
        head += "    BoundingBox %r %r %r %r %r %r,\n" % tuple(float(b) for b in box)
        units = coord = None
        k = int(rng.integers(0, 4))
        if k == 1:
            units, coord = "pixels", "mm"
            head += '    Units {\n        Coordinates "mm"\n    }\n'
        elif k == 2:
            units = "um"
            head += '    Units = "um",\n'
        head += '    CoordType "uniform"\n}\n\nLattice { %s Data } @1\n\n# Data section follows\n@1\n' % kind
        p = os.path.join(d, "v.am")
        with open(p, "wb") as f:
            f.write(head.encode() + body)
        c.note(head, body)
        md, got = c.call(avizo.load_amiramesh, p)
        c.mark(fmt, kind, len({x, y, z}))
        c.expect(got.dtype.kind == vol.dtype.kind and got.dtype.itemsize == vol.dtype.itemsize, "volume-type",
                 lambda: (got.dtype, vol.dtype))
        c.equal(got, vol[::-1], "volume", (fmt, kind))
        c.expect(md["array_dimensions"] == {"x_dimension": x, "y_dimension": y, "z_dimension": z}, "dimensions",
                 lambda: md)
        c.expect(md["data_type"] == kind and md["data_format"] == fmt and md["data_format_version"] == "2.1"
                 and md["coord_type"] == "uniform", "header", lambda: md)
        c.expect(list(md["bounding_box"][k] for k in ("x_min", "x_max", "y_min", "y_max", "z_min", "z_max"))
                 == [float(b) for b in box], "bounding-box", lambda: md)
        c.expect(md.get("units") == units and md.get("coordinates") == coord, "units", lambda: md)
        c.expect(md["software_src"] == soft, "header", lambda: md)
        res = np.where(np.array([x, y, z]) > 1, res, 0)
        with np.errstate(all="ignore"):
            iso = bool(np.all(np.abs(res / res[0] - 1) < 0.01))
        if iso:
            c.expect(md["resolution"]["type"] == "isotropic", "resolution", lambda: md)
            c.close(md["resolution"]["zyx_value"], res[0], "resolution", rtol=1e-6)
        else:
            c.expect(md["resolution"]["type"] == "anisotropic", "resolution", lambda: md)
            c.close(np.array(md["resolution"]["zyx_value"], float), res[::-1], "resolution", rtol=1e-6)
        # a file which ends early is reported, not filled up or read forever
        if c.i % 4 == 0:
            cut = int(rng.integers(0, len(head) - 6))
            data = head.encode()[:cut]
        else:
            keep = int(rng.integers(0, vol.size)) * (AM[kind][1:] and int(AM[kind][1:]))
            if fmt == "ASCII":
                data = head.encode() + b" ".join(body.split()[:int(rng.integers(0, vol.size))])
            else:
                data = head.encode() + body[:keep]
        with open(p, "wb") as f:
            f.write(data)
        c.rejects(Exception, avizo.load_amiramesh, p)


@workload("P23", quick=200)
def net_cdf(c):
    """the volume divided by the scale factor, and all attributes"""
    from netCDF4 import Dataset
    rng = c.rng
    with scratch() as d:
        shape = tuple(int(pick(rng, 1, 2, int(rng.integers(1, 7)))) for _ in range(3))
        kind = pick(rng, "i2", "i4", "f4", "f8")
        vol = (rng.normal(size=shape) * 1000).astype(kind)
        if kind == "i2" and rng.random() < 0.5:
            vol = rng.integers(-32768, 32768, shape).astype("i2")
        if rng.random() < 0.3:          # values which the library takes for missing ones by default
            import netCDF4
            vol[rng.random(shape) < 0.3] = netCDF4.default_fillvals[kind]
        sf = pick(rng, None, 1.0, 0.5, 1000.0, 1e6, 3.7)
        p = os.path.join(d, "x.volume")
        pix = [float(pick(rng, 1.5, 2.0)), float(pick(rng, 1.5, 2.0)), float(pick(rng, 0.0, 0.0, 1.5, 2.0))]
        with Dataset(p, "w", format=pick(rng, "NETCDF3_CLASSIC", "NETCDF4")) as f:
            f.set_fill_off()
            for n, s in zip("ZYX", shape):
                f.createDimension("N" + n, s)
            v = f.createVariable("VOLUME", kind, ("NZ", "NY", "NX"))
            v.set_auto_maskandscale(False)
            v[:] = vol
            if sf is not None:
                v.scale_factor = sf
            f.x_pixel_size, f.y_pixel_size, f.z_pixel_size = pix
            f.title = "sample"
            f.note = np.array([1.5, 2.5])
        c.note(vol, sf, pix)
        md, got = c.call(netcdf.load_netCDF, p)
        c.mark(kind, sf, shape[0] > 1)
        c.close(np.ma.filled(got, np.nan), vol.astype(float) / (sf or 1.0), "volume",
                rtol=1e-6 if kind == "f4" else 1e-12)
        c.expect(md["title"] == "sample" and list(md["note"]) == [1.5, 2.5]
                 and [md[k + "_pixel_size"] for k in "xyz"] == pix, "attributes", lambda: md)
        iso = pix[0] == pix[1] and pix[2] == 0.0 and shape[0] > 1
        c.expect(("voxel_size" in md) == iso and (not iso or md["voxel_size"] == {"value": pix[0], "type": float, "units": ""}), "voxel-size",
                 lambda: (md, shape))


@workload("P23", quick=120)
def binaries(c):
    """raw binary: header and values in C order"""
    rng = c.rng
    with scratch() as d:
        nx, ny, nz = (int(pick(rng, 1, int(rng.integers(1, 9)))) for _ in range(3))
        if c.i % 20 == 0:
            nx, ny, nz = (int(v) for v in rng.permutation([int(rng.integers(1, 4)), int(rng.integers(1, 4)),
                                                           int(rng.integers(3000, 70000))]))
        kind = pick(rng, "u1", "<i2", ">i2", "<u4", "f4", ">f4", "f8", "int32", "float64")
        dt = np.dtype(kind)
        vol = rng.integers(0, 256, nx * ny * nz * dt.itemsize, dtype=np.uint8).tobytes()
        hs = int(pick(rng, 0, 1, 7, 256, int(rng.integers(0, 100))))
        head = rng.integers(0, 256, hs, dtype=np.uint8).tobytes()
        if hs > 2 and rng.random() < 0.4:       # filled up with zeros or blanks
            fill = pick(rng, b"\0", b" ", b"\n")
            head = pick(rng, head[:hs // 2] + fill * (hs - hs // 2), fill * (hs - hs // 2) + head[:hs // 2])
        p = os.path.join(d, "b.raw")
        with open(p, "wb") as f:
            f.write(head + vol)
        c.note(head, vol)
        data, h = c.call(binary.read_binary, p, nx, ny, nz, kind, hs)
        want = np.frombuffer(vol, dt)
        if nz != 1:
            want = want.reshape(nx, ny, nz)
        elif ny != 1:
            want = want.reshape(nx, ny)
        c.mark(kind, nz == 1, ny == 1, hs > 0)
        c.expect(h == head, "header")
        c.expect(data.dtype == dt, "type", lambda: data.dtype)
        c.expect(data.shape == want.shape, "shape", lambda: (data.shape, want.shape))
        c.expect(np.ascontiguousarray(data).tobytes() == vol, "values")
        with open(p, "wb") as f:        # a part of the volume only
            f.write(head + vol[:int(rng.integers(0, len(vol)))])
        c.rejects(ValueError, binary.read_binary, p, nx, ny, nz, kind, hs)


@workload("P23", quick=120)
def fit2d_round_trip(c):
    """a mask comes back, whatever its size"""
    rng = c.rng
    with scratch() as d:
        shape = tuple(int(pick(rng, 1, 7, 8, 31, 32, 33, 64, int(rng.integers(1, 120)))) for _ in range(2))
        m = rng.random(shape) < pick(rng, 0.0, 0.02, 0.5, 0.98, 1.0)
        name, dp, path = where(rng, d)
        if rng.random() < 0.3:
            with open(path + ".msk", "wb") as f:
                f.write(b"x" * 100000)
        c.call(fit2d.fit2d_save, scramble_layout(rng, m), name, dir_path=dp)
        c.expect(os.listdir(d) == [os.path.basename(path) + ".msk"], "files-written", lambda: os.listdir(d))
        got = c.call(fit2d.read_fit2d_msk, path + ".msk")
        c.mark(shape[0] % 32 == 0, shape[1] % 32 == 0, bool(m.all()), bool(m.any()))
        c.expect(got.dtype == bool, "mask-type", lambda: got.dtype)
        c.equal(got, m, "mask", shape)
