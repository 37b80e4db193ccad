"""C26 Intrinsics read from a photo are those its EXIF data states.

The image file is replaced by a stub with arbitrary numbers in its EXIF tags (rationals of old and new PIL versions); the sensor database
is a small file in a scratch directory. One concrete contract writes and reads real JPEG files."""
import os
import shutil
import tempfile
import numpy
from .common import contract

TAG = {"Model": 272, "FocalLength": 37386, "ExifImageWidth": 40962, "ExifImageHeight": 40963, "FocalPlaneXResolution": 41486,
       "FocalPlaneYResolution": 41487, "FocalPlaneResolutionUnit": 41488, "Orientation": 274, "Make": 271}
UNIT = {None: 25.4, 2: 25.4, 3: 10.0, 4: 1.0}
DATABASE = """CameraMaker;CameraModel;FullName;SensorWidth(mm);SensorHeight(mm);Megapixels
Canon;EOS 5D Mark II;Canon EOS 5D Mark II;36.0;24.0;21
Canon;EOS 5D;Canon EOS 5D;35.8;23.9;12.8
Canon;EOS 50D;Canon EOS 50D;22.3;14.9;15.1
Nikon;D90;Nikon D90;23.6;15.8;12.3
"""
MODELS = {"Canon EOS 5D": (35.8, 23.9), "Canon EOS 5D Mark II": (36.0, 24.0), "Canon EOS 50D": (22.3, 14.9), "Nikon D90": (23.6, 15.8),
          "Canon EOS 5": None, "Nikon D9": None, "Pentax K1": None}


class Photo(object):
    """the scratch directory with the database, and the photo"""
    def __init__(self, tags=None):
        self.tags = tags

    def __enter__(self):
        import PIL.Image
        self.cwd, self.open = os.getcwd(), PIL.Image.open
        self.dir = tempfile.mkdtemp(prefix="c26-")
        os.chdir(self.dir)
        with open("sensor_database_detailed.csv", "w") as fp:
            fp.write(DATABASE)
        if self.tags is not None:
            PIL.Image.open = lambda *a, **k: self
        return self

    def __exit__(self, *a):
        import PIL.Image
        PIL.Image.open = self.open
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)

    def _getexif(self):
        return {TAG[k]: v for k, v in self.tags.items()}

    def close(self):
        pass


def rational(h, name, kind, lo, hi):
    """a number as PIL returns it, and its value"""
    if kind == "tuple":
        a, b = h.real(name + "_a", lo=lo, hi=hi, lo_strict=True), h.real(name + "_b", lo=1, hi=1000)
        return (a, b), a / b
    v = h.real(name, lo=lo, hi=hi, lo_strict=True)
    if h.sym:
        return v, v
    from PIL.TiffImagePlugin import IFDRational
    r = IFDRational(int(v * 1000) + 1, 1000)
    return r, float(r)


@contract("C26", "exif", trials=200)
def exif(h):
    """focal length and image size as stated, the sensor from the database or else from the resolution of the focal plane"""
    kind = h.choose("numbers", ["rational", "tuple"])
    f, focal = rational(h, "f", kind, 0, 5000)
    rx, res_x = rational(h, "rx", kind, 0, 1e5)
    ry, res_y = rational(h, "ry", kind, 0, 1e5)
    w, hh = h.real("w", lo=1, hi=20000, integer=True), h.real("h", lo=1, hi=20000, integer=True)
    unit = h.choose("unit", [None, 2, 3, 4])
    model = h.choose("model", sorted(MODELS))
    tags = {"Make": "x", "Model": model, "FocalLength": f, "ExifImageWidth": w, "ExifImageHeight": hh, "FocalPlaneXResolution": rx,
            "FocalPlaneYResolution": ry, "Orientation": 1}
    if unit is not None:
        tags["FocalPlaneResolutionUnit"] = unit
    base = h.choose("database", [None, True, False])
    known = MODELS[model] if base is not False else None
    if known and h.choose("without resolution", [False, True]):
        del tags["FocalPlaneXResolution"], tags["FocalPlaneYResolution"]
    kw = {} if base is None else {"sensor_from_database": base}
    with Photo(tags):
        focal_length, sensor, image = h.ct.getCameraParametersFromExif("photo.jpg", **kw)
    h.eq("focal length", focal_length, focal)
    h.eq("image width", image[0], w)
    h.eq("image height", image[1], hh)
    if known:
        h.eq("sensor of the database", h.np.array(sensor), h.np.array(known))
    else:
        h.eq("sensor width", sensor[0], w / res_x * UNIT[unit])
        h.eq("sensor height", sensor[1], hh / res_y * UNIT[unit])
        p = h.ct.RectilinearProjection(focallength_mm=focal_length, sensor=sensor, image=image)
        h.eq("focal length in pixels", p.focallength_x_px, focal * res_x / UNIT[unit], scale=focal * res_x)


@contract("C26", "real photo", mode="float", trials=30)
def photo(h):
    """a JPEG file written with PIL"""
    from PIL import Image
    from PIL.TiffImagePlugin import IFDRational
    w, hh = h.choose("w", [40, 33]), h.choose("h", [30, 50])
    unit = h.choose("unit", [None, 2, 3])
    a = [int(h.real("n%d" % i, gen=(1, 4000))) for i in range(3)]
    model = h.choose("model", sorted(MODELS))
    e = Image.Exif()
    e[272] = model
    ifd = {37386: IFDRational(a[0], 10), 40962: w, 40963: hh, 41486: IFDRational(a[1], 3), 41487: IFDRational(a[2], 7)}
    if unit:
        ifd[41488] = unit
    e[0x8769] = ifd
    base = h.choose("database", [True, False])
    with Photo() as d:
        name = os.path.join(d.dir, "a.jpg")
        Image.fromarray(numpy.zeros((hh, w, 3), "uint8")).save(name, exif=e)
        f, sensor, image = h.ct.getCameraParametersFromExif(name, sensor_from_database=base)
    h.eq("focal length", f, a[0] / 10.)
    h.eq("image", numpy.array(image), numpy.array([w, hh]))
    known = MODELS[model] if base else None
    h.eq("sensor", numpy.array(sensor), numpy.array(known or (w / (a[1] / 3.) * UNIT[unit], hh / (a[2] / 7.) * UNIT[unit])))
