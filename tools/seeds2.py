# more planted bugs; read by seeds.py
NM = V + "nr_metrics/"
FM = V + "fr_metrics/"

bug("c28-old-threshold", "C28",
    [(NM + "snr.py", "            glob_upper_threshold = upper_threshold_slider.value\n",
      "            glob_upper_threshold = glob_upper_threshold or upper_threshold_slider.value\n")],
    "a dialog in which the upper threshold is moved before the full region is calculated and saved",
    "the region shown was found with the new threshold, but the old one is stored and used for scoring", '''
import builtins
import ipywidgets
import matplotlib.pyplot as plt
builtins.__IPYTHON__ = True
made = []
ipywidgets.Widget.on_widget_constructed(made.append)
rng = np.random.default_rng(0)
img = rng.random((16, 18)) + np.pad(np.ones((8, 8)), ((4, 4), (5, 5)))
snr = viqa.SNR(data_range=2)
snr.set_centers(img, vis_kwargs={"dpi": 20, "figsize": (2, 2)})
by = {w.description: w for w in made if hasattr(w, "description")}
by["Upper Threshold"].value = 95
by["Lower Threshold"].value = 60
by["Calculate Full Region"].click()
by["Save Current Values"].click()
plt.close("all")
p = snr.parameters
assert (p["lower_threshold"], p["upper_threshold"]) == (60, 95), p
''')

bug("c29-broken-package", "C29",
    [(V + "utils/_module.py", "    except ImportError:\n", "    except ModuleNotFoundError:\n")],
    "an optional package that is installed but fails to import (or lacks the name imported from it)",
    "viqa itself can no longer be imported", '''
import subprocess
os.makedirs(os.path.join(tmp, "ipywidgets"))
with open(os.path.join(tmp, "ipywidgets", "__init__.py"), "w") as f:
    f.write("raise ImportError('libwidgets.so: cannot open shared object file')")
code = "import sys; sys.path.insert(0, sys.argv[1]); import viqa, numpy as np; print(viqa.RMSE().score(np.eye(4), np.eye(4)))"
subprocess.run([sys.executable, "-W", "ignore", "-c", code, tmp], check=True)
''')

bug("c30-filters", "C30",
    [(FM + "gsm.py", '''            if dim or im_slice:
                warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
''', '''            if dim or im_slice:
                simplefilter("once", RuntimeWarning)
                warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
'''), (FM + "gsm.py", "from warnings import warn\n", "from warnings import simplefilter, warn\n")],
    "a 2D score with dim or im_slice given in a process with its own warning filters",
    "the process's warning filters are replaced: warnings turned into errors or ignored are so no longer", '''
a = np.random.default_rng(0).random((12, 12))
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    before = list(warnings.filters)
    viqa.GSM(data_range=1).score(a, a.T, dim=1, im_slice=1)
    assert warnings.filters == before
''')

bug("c01-header-cache", "C01",
    [(L, '''    with open(file=file_path) as f:  # Open header file
        file_header_txt = f.read().split("\\n")  # Extract header lines
    # Create dictionary from lines
    file_header = {
        key.strip(): value.strip()
        for line in file_header_txt
        if line.strip()
        for key, _, value in [line.partition("=")]
    }
''', '''    stat = os.stat(file_path)
    file_header = _read_header(file_path, stat.st_size, stat.st_mtime_ns)
'''), (L, "def load_mhd(", '''@lru_cache(maxsize=64)
def _read_header(file_path, size, mtime):
    with open(file=file_path) as f:  # Open header file
        file_header_txt = f.read().split("\\n")  # Extract header lines
    # Create dictionary from lines
    return {
        key.strip(): value.strip()
        for line in file_header_txt
        if line.strip()
        for key, _, value in [line.partition("=")]
    }


def load_mhd('''), (L, "import glob\n", "import glob\nfrom functools import lru_cache\n")],
    "a header rewritten with the same length and time stamp (copied with its times) between two loads",
    "the volume is loaded with the dimensions of the previous header", '''
head, data = os.path.join(tmp, "v.mhd"), os.path.join(tmp, "v.bin")
a = np.arange(24, dtype=np.uint8)
a.tofile(data)
for d in [(2, 3, 4), (4, 3, 2)]:
    with open(head, "w") as f:
        f.write("DimSize = %d %d %d\\nElementType = MET_UCHAR\\nElementDataFile = v.bin\\n" % d)
    os.utime(head, ns=(10**18, 10**18))
    img = np.asarray(viqa.load_data(head))
    assert img.shape == d and (img == a.reshape(d[::-1]).transpose(2, 1, 0)).all(), img.shape
''')

bug("c22-kept-weights", "C22",
    [(FM + "ssim.py", "    def score(self, img_r, img_m, color_weights=None, **kwargs):",
      "    def score(self, img_r, img_m, color_weights=None, _last=[None], **kwargs):"),
     (FM + "ssim.py", "            if color_weights is None:\n",
      "            if color_weights is None:\n                color_weights = _last[0]\n"
      "            _last[0] = color_weights\n            if color_weights is None:\n")],
    "chromatic SSIM with colour weights, followed by another one without",
    "the earlier call's weights are used, even by another metric object, where the call should be refused", '''
rng = np.random.default_rng(0)
a, b = rng.random((20, 22, 3)), rng.random((20, 22, 3))
viqa.SSIM(data_range=1, chromatic=True).score(a, b, color_weights=np.array([0.8, 0.1, 0.1]))
try:
    got = viqa.SSIM(data_range=1, chromatic=True).score(a, b)
except ValueError:
    pass
else:
    sys.exit("scored with the weights of another metric: %r" % got)
''')

bug("c08-crop", "C08",
    [(FM + "ssim.py", "    pad = (win_size - 1) // 2\n",
      "    pad = win_size // 2 if ndim == 2 else win_size // 3\n")],
    "SSIM of a volume with a window of five or more",
    "border voxels whose window leaves the volume take part in the mean", '''
rng = np.random.default_rng(0)
a, b = rng.random((12, 13, 14)), rng.random((12, 13, 14))
from skimage.metrics import structural_similarity as ss
got = viqa.SSIM(data_range=1).score(a, b, gaussian_weights=False, win_size=7)
want = ss(a, b, win_size=7, data_range=1, gaussian_weights=False)
assert abs(got - want) < 1e-5, (got, want)
''')

bug("c06-weights", "C06",
    [(FM + "mad.py", '    weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])\n',
      '    weights = np.asarray(kwargs.pop("weights", _WEIGHTS), dtype=float)\n    weights *= scales_num / np.sum(weights)\n'),
     (FM + "mad.py", "def most_apparent_distortion(", "_WEIGHTS = np.array([0.5, 0.75, 1, 5, 6])\n\n\ndef most_apparent_distortion(")],
    "MAD with weights given as an array of floats",
    "the caller's array of weights is overwritten", '''
rng = np.random.default_rng(0)
a = (rng.random((40, 40)) * 255).astype(np.uint8)
b = (rng.random((40, 40)) * 255).astype(np.uint8)
w = np.array([1.0, 2.0, 3.0, 4.0, 5.0])
viqa.MAD(data_range=255).score(a, b, weights=w)
assert w.tolist() == [1, 2, 3, 4, 5], w
''')

bug("c10-cube-axis", "C10",
    [(FM + "gsm.py", "                            img_r[:, :, slice_], img_m[:, :, slice_], **kwargs\n",
      "                            np.moveaxis(img_r, 2, 0)[slice_],\n"
      "                            np.moveaxis(img_m, 0, 2)[slice_],\n                            **kwargs,\n")],
    "a GSM volume score along the last axis of a cube",
    "the modified volume is turned: slices of different orientation are compared (no error as all sides are equal)", '''
rng = np.random.default_rng(0)
a = np.cumsum(rng.random((14, 14, 14)) - 0.5, axis=0)
a = 255 * (a - a.min()) / (a.max() - a.min())
b = np.clip(a + 9 * rng.random((14, 14, 14)), 0, 255)
got = float(viqa.GSM(data_range=255).score(a, b, dim=2))
want = np.mean([float(viqa.GSM(data_range=255).score(a, b, dim=2, im_slice=i)) for i in range(14)])
assert abs(got - want) < 1e-6, (got, want)
''')

bug("c13-rows", "C13",
    [(FM + "stat_utils/statisticsmodule.c", "    int i,n,m;\n", "    short i,n,m;\n")],
    "an image with more than 32767 columns (or rows)",
    "rows are taken from wrong positions of the image", '''
from viqa.fr_metrics.stat_utils import statisticscalc as sc
import subprocess
code = """
import numpy as np
from viqa.fr_metrics.stat_utils import statisticscalc as sc
a = np.random.default_rng(0).random((4, 66000))
s = sc.getstatistics(a, 4, 4)[0]
w = a[:, :66000].reshape(4, -1, 4).transpose(1, 0, 2).reshape(-1, 16).std(axis=1, ddof=1)
assert np.allclose(s[0, ::4], w), abs(s[0, ::4] - w).max()
"""
import textwrap
subprocess.run([sys.executable, "-c", textwrap.dedent(code)], check=True)
''')

bug("c26-natural-order", "C26",
    [("src/scripts/combine_stack.py", "        for file in files:\n",
      "        for file in sorted(files, key=lambda f: (len(f), f)):\n")],
    "slices whose file names differ in length",
    "slices are stacked by the length of their name first", '''
import subprocess
src, out = os.path.join(tmp, "in"), os.path.join(tmp, "out")
os.makedirs(src)
parts = {}
for i, n in enumerate(["a_top.raw", "b.raw", "c_end.raw"]):
    parts[n] = np.full(6, i + 1, np.uint8)
    parts[n].tofile(os.path.join(src, n))
subprocess.run([sys.executable, "src/scripts/combine_stack.py", src, out, "2", "3", "1", "8bit", "raw", "raw"], check=True)
got = open(os.path.join(out, os.listdir(out)[0]), "rb").read()
assert got == b"".join(parts[n].tobytes() for n in sorted(parts)), got
''')
bug("c31-close-is-equal", "C31",
    [(FM + "psnr.py", "np.array_equal(img_r, img_m)", "np.allclose(img_r, img_m, atol=0)")],
    "a pair of images with large values that differ by less than 1e-5 of the value everywhere",
    "different images get an infinite PSNR", '''
rng = np.random.default_rng(0)
a = rng.integers(200000, 4000000, (30, 32), dtype=np.uint32)
b = a + rng.integers(0, 2, a.shape).astype(np.uint32)
got = viqa.PSNR(data_range=2**32 - 1).score(a, b)
assert (a != b).any() and np.isfinite(got), got
''')

bug("c31-gsm-order", "C31",
    [(FM + "gsm.py", '''    r = np.abs(img_r_gradient - img_m_gradient) / max(
        img_r_gradient, img_m_gradient, key=_mean_of_abs
    )
''', '''    grad_r, grad_m = _mean_of_abs(img_r_gradient), _mean_of_abs(img_m_gradient)
    masking = img_m_gradient if grad_m > 1.5 * grad_r else img_r_gradient
    r = np.abs(img_r_gradient - img_m_gradient) / masking
''')],
    "a modified image with up to half more gradient than the reference (light noise)",
    "GSM depends on which image is the reference", '''
rng = np.random.default_rng(0)
x = np.linspace(0, 6, 40)
a = 120 + 60 * np.sin(x)[:, None] * np.cos(x)[None] + rng.normal(0, 4, (40, 40))
b = a + rng.normal(0, 4, a.shape)
one, two = (float(viqa.GSM(data_range=255).score(*p)) for p in ((a, b), (b, a)))
assert abs(one - two) < 1e-9, (one, two)
''')


B[:] = [b for b in B if b["edits"] and b["demo"].strip()]
