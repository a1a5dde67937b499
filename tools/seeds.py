#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from the table below.

A development tool: no check reads it. seeds.py [id ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

B = []


def bug(id, prop, edits, needs, breaks, demo):
    B.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


V = "src/viqa/"
L, MI, MU, EX = V + "utils/loading.py", V + "utils/misc.py", V + "multiple.py", V + "utils/export.py"

bug("c01-raw-size-from-folder", "C01",
    [(L, "    file_name_head = file_name_split[0]  # File name without extension",
      "    file_name_head = os.path.join(file_dir, file_name_split[0])")],
    "a raw file in a folder whose own name contains dimensions",
    "the size is taken from the folder name, so voxels are reordered or the file is refused", '''
folder = os.path.join(tmp, "scan_4x3x2_8bit")
os.makedirs(folder)
data = np.arange(24, dtype=np.uint8)
path = os.path.join(folder, "vol_2x3x4_8bit.raw")
data.tofile(path)
img = np.asarray(viqa.load_data(path))
assert img.shape == (2, 3, 4) and (img == data.reshape(4, 3, 2).transpose(2, 1, 0)).all()
''')

bug("c02-singleton-axis", "C02",
    [(L, "        if len(img_arr.shape) > 3 or len(img_arr.shape) < 2:",
      "        if len(np.squeeze(img_arr).shape) > 3 or len(img_arr.shape) < 2:")],
    "a four-dimensional image with an axis of length one",
    "an image with four dimensions is accepted", '''
try:
    viqa.load_data(np.zeros((1, 5, 6, 7)))
except ValueError:
    pass
else:
    sys.exit("a 4D image was accepted")
''')

bug("c03-tensor-float", "C03",
    [(L, "            img_arr = img.cpu().numpy()", "            img_arr = img.cpu().float().numpy()")],
    "an image passed as an integer or float64 tensor",
    "the tensor form of an image has another type and, beyond 24 bits, other values", '''
import torch
a = np.array([[16777217, 5], [3, 16777219]], dtype=np.int32)
b = viqa.load_data(torch.from_numpy(a))
assert np.asarray(b).dtype == a.dtype and (np.asarray(b) == a).all()
''')

bug("c04-signed-range", "C04",
    [(L, "            img_max = np.max(img)  # Get maximum value of numpy array\n",
      "            img_max = max(np.max(img), abs(np.float64(np.min(img))))  # largest magnitude\n")],
    "an automatically ranged image whose most negative value exceeds its largest in magnitude",
    "the output does not reach the top of the range", '''
a = np.array([[-800.0, 0.0], [300.0, 10.0]], dtype=np.float32)
b = np.asarray(viqa.utils.normalize_data(a, (0, 255), automatic_data_range=True))
assert b.dtype == np.uint8 and b.max() == 255 and b.min() == 0, b
''')

bug("c05-nr-roi", "C05",
    [(V + "_metrics.py", '''            normalize=self.parameters["normalize"],
            roi=self.parameters["roi"],
        )
        return img
''', '''            normalize=self.parameters["normalize"],
        )
        return img
''')],
    "a no-reference metric with a region of interest",
    "the region of interest is ignored", '''
rng = np.random.default_rng(0)
a = rng.random((40, 50))
roi = [(5, 35), (10, 45)]
kw = dict(signal_center=(8, 8), radius=4, region_type="cubic")
one = viqa.SNR(data_range=1, roi=roi).score(a, **kw)
two = viqa.SNR(data_range=1).score(a[5:35, 10:45], **kw)
assert abs(one - two) < 1e-9, (one, two)
''')

bug("c06-gsm-in-place", "C06",
    [(V + "fr_metrics/gsm.py", "    lum_sim = 1 - ((img_r - img_m) / data_range) ** 2",
      "    img_r -= img_m\n    lum_sim = 1 - (img_r / data_range) ** 2")],
    "GSM of floating-point images",
    "the caller's reference image is overwritten with the difference", '''
rng = np.random.default_rng(0)
a, b = rng.random((30, 30)), rng.random((30, 30))
keep = a.copy()
viqa.GSM(data_range=1).score(a, b)
assert (a == keep).all()
''')

bug("c07-rmse-single", "C07",
    [(V + "fr_metrics/rmse.py", "mean_squared_error(img_r, img_m)",
      "mean_squared_error(\n                img_r.astype(np.float32), img_m.astype(np.float32)\n            )")],
    "pixel values beyond 24 bits, differing in the last digits",
    "the difference vanishes in single precision", '''
a = np.full((8, 8), 2**30, dtype=np.int32)
b = a + 7
got = viqa.RMSE().score(a, b)
assert abs(got - 7) < 1e-6, got
''')

bug("c08-exponents", "C08",
    [(V + "fr_metrics/ssim.py", "    ssim = (lum**alpha) * (con**beta) * (stru**gamma)",
      "    ssim = (lum**alpha) * (con**gamma) * (stru**beta)")],
    "SSIM with beta different from gamma",
    "the exponents of contrast and structure are exchanged", '''
rng = np.random.default_rng(0)
a = rng.random((32, 32))
b = 0.3 * a + 0.2  # structure 1, contrast reduced
m = viqa.SSIM(data_range=1)
s = [m.score(a, b, beta=1, gamma=g) for g in (1, 5)]
assert abs(s[0] - s[1]) < 0.2 * abs(s[0]), s  # structure is nearly 1 everywhere
''')

bug("c09-gsm-peak", "C09",
    [(V + "fr_metrics/gsm.py", "    k = c / max(np.max(img_r_gradient), np.max(img_m_gradient))",
      "    k = c / max(img_r_gradient.max(), img_r_gradient.max())")],
    "a modified image with larger gradients than the reference",
    "the masking constant ignores the modified image", '''
rng = np.random.default_rng(0)
a = rng.random((32, 32)) * 20
b = np.clip(a + rng.random((32, 32)) * 220, 0, 255)
import scipy.ndimage as ndi
from viqa.kernels import *
K = [gsm_kernel_2d_x(), gsm_kernel_2d_y(), gsm_kernel_2d_xy(), gsm_kernel_2d_yx()]
ma = lambda x: np.mean(np.abs(x))
ga, gb = (max((ndi.correlate(i, k) for k in K), key=ma) for i in (a, b))
k = 200 / max(ga.max(), gb.max())
r = np.abs(ga - gb) / max(ga, gb, key=ma)
s = (2 * (1 - r) + k) / (1 + (1 - r) ** 2 + k)
lum = 1 - ((a - b) / 255) ** 2
want = np.nanmean((1 - 0.1 * s) * s + 0.1 * s * lum)
got = viqa.GSM(data_range=255).score(a, b)
assert abs(got - want) < 1e-6 * abs(want), (got, want)
''')

bug("c10-gsm-volume-count", "C10",
    [(V + "fr_metrics/gsm.py", "                for slice_ in trange(z):", "                for slice_ in trange(min(y, z)):")],
    "a volume with more slices in z than rows in y, scored along z",
    "the last slices are left out of the mean", '''
rng = np.random.default_rng(0)
a, b = rng.random((20, 18, 25)), rng.random((20, 18, 25))
b[:, :, 18:] = a[:, :, 18:]
m = viqa.GSM(data_range=1)
want = np.mean([m.score(a[:, :, i], b[:, :, i]) for i in range(25)])
got = m.score(a, b, dim=2)
assert abs(got - want) < 1e-9, (got, want)
''')

bug("c11-vif-setting", "C11",
    [(V + "fr_metrics/vif.py", '''            score_val = vif_p(
                img_r_tensor,
                img_m_tensor,
                data_range=self.parameters["data_range"],
                **kwargs,
            )
        else:''', '''            score_val = vif_p(
                img_r_tensor,
                img_m_tensor,
                data_range=self.parameters["data_range"],
            )
        else:''')],
    "VIFp of a 2D pair with a noise variance other than the default",
    "the setting is ignored", '''
import torch
from piq import vif_p
rng = np.random.default_rng(0)
a, b = (rng.random((48, 48)).astype(np.float32) for _ in range(2))
t = lambda i: torch.tensor(i)[None, None]
got = viqa.VIFp(data_range=1).score(a, b, sigma_n_sq=0.3)
want = float(vif_p(t(a), t(b), data_range=1, sigma_n_sq=0.3))
assert abs(float(got) - want) < 1e-6, (got, want)
''')

bug("c12-thresholds", "C12",
    [(V + "fr_metrics/mad.py", "beta_2 = 1 / (np.log(10) * thresh_2)", "beta_2 = 1 / (np.log(10) * thresh_1)")],
    "MAD with both thresholds given, and unequal",
    "beta_2 is computed from the wrong threshold", '''
rng = np.random.default_rng(0)
a = rng.integers(0, 200, (96, 96)).astype(np.uint8)
b = np.clip(a.astype(int) + rng.integers(-120, 120, (96, 96)), 0, 255).astype(np.uint8)
m = viqa.MAD(data_range=255)
t1, t2 = 2.5, 7.0
one = m.score(a, b, thresh_1=t1, thresh_2=t2)
two = m.score(a, b, beta_1=np.exp(-t1 / t2), beta_2=1 / (np.log(10) * t2))
assert two > 0 and abs(one - two) < 1e-9 * abs(two), (one, two)
''')

bug("c13-flat-blocks", "C13",
    [(V + "fr_metrics/stat_utils/statisticsmodule.c", "            if (stmp != 0) {", "            if (stmp > 1e-6) {")],
    "blocks with a deviation below 1e-6",
    "their skewness and kurtosis are reported as 0", '''
from viqa.fr_metrics.stat_utils import statisticscalc
rng = np.random.default_rng(0)
a = rng.random((16, 16)) * 1e-8
one = statisticscalc.getstatistics(a, 8, 4)[2]
two = statisticscalc.getstatistics(a * 1e8, 8, 4)[2]
assert np.allclose(one, two, rtol=1e-6), (one[0, 0], two[0, 0])
''')

bug("c14-leak-rows", "C14",
    [(V + "fr_metrics/stat_utils/statisticsmodule.c", "    free_Carrayptrs(skw_data);\n", "")],
    "many calls (each leaks one row table)",
    "the memory in use grows with every call", '''
import resource
from viqa.fr_metrics.stat_utils import statisticscalc
a = np.zeros((20000, 2))
for n in range(200):
    statisticscalc.getstatistics(a, 2, 2)
before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
for n in range(1500):
    statisticscalc.getstatistics(a, 2, 2)
grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before
assert grown < 60_000, grown
''')

bug("c15-open-ball", "C15",
    [(MI, "        mask = x**2 + y**2 + z**2 <= radius**2", "        mask = x**2 + y**2 + z**2 < radius**2")],
    "a spherical region in a volume",
    "the voxels at exactly the radius are left out", '''
rng = np.random.default_rng(0)
a = rng.random((20, 21, 22))
c, r = (9, 10, 11), 4
g = np.indices(a.shape)
m = sum((g[i] - c[i]) ** 2 for i in range(3)) <= r * r
got = viqa.SNR(data_range=1).score(a, signal_center=c, radius=r, region_type="spherical")
assert abs(got - a[m].mean() / a[m].std()) < 1e-9, got
''')

bug("c16-auto-radius", "C16",
    [(V + "nr_metrics/cnr.py", "        radius = min(signal_radius, background_radius)", "        radius = signal_radius")],
    "automatic centring where the background region is smaller than the signal region",
    "the background region reaches out of the background", '''
from viqa.utils import find_largest_region
rng = np.random.default_rng(0)
x, y = np.mgrid[:44, :44]
img = np.zeros((44, 44))
img[x % 12 < 5] = 0.2
img += (img > 0) * 0.1 * rng.random(img.shape)
d = np.hypot(x - 22, y - 22)
img[d < 9] = 1 - 0.04 * d[d < 9]
def find(p, q):
    obj = np.logical_and(img > np.percentile(img, p), img <= np.percentile(img, q))
    return find_largest_region(obj, iterations=1, region_type="cubic")
cb, rb, _ = find(0, 90)
cs, rs, _ = find(90, 100)
assert 0 < rb < rs, (rb, rs)
cut = lambda c: img[c[0] - rb:c[0] + rb, c[1] - rb:c[1] + rb]
want = (cut(cs).mean() - cut(cb).mean()) / cut(cb).std()
got = viqa.CNR(data_range=1).score(img, auto_center=True, iterations=1, region_type="cubic",
                                   signal_center=(1, 1), background_center=(1, 1), radius=1)
assert abs(got - want) < 1e-9 * abs(want), (got, want)
''')

bug("c17-nan-comparison", "C17",
    [(V + "_metrics.py", "            return self.score_val >= other.score_val",
      "            return not self.score_val < other.score_val")],
    "comparing metric objects whose score is NaN",
    "NaN counts as greater or equal", '''
a, b = viqa.RMSE(), viqa.RMSE()
x = np.ones((8, 8)); y = x.copy(); y[0, 0] = np.nan
a.score(x, y); b.score(x, x + 1)
assert a.score_val != a.score_val
assert (a >= b) == (a.score_val >= b.score_val)
''')

bug("c18-shared-mask", "C18",
    [(V + "fr_metrics/mad.py", "    msk = np.zeros(c_err.shape)",
      "    msk = _MASKS.setdefault(c_err.shape, np.empty(c_err.shape))\n    msk[...] = 0"),
     (V + "fr_metrics/mad.py", "def _high_quality(", "_MASKS: dict = {}  # reused work arrays\n\n\ndef _high_quality(")],
    "two threads that compute MAD of images of the same size at the same time",
    "they share one work array and mix their masks", '''
import threading
sys.setswitchinterval(1e-6)
rng = np.random.default_rng(0)
pairs = []
for n in range(6):
    a = rng.random((96, 96)) * 255
    pairs.append((a, np.clip(a + (n * 12 + 1) * rng.standard_normal(a.shape), 0, 255)))
score = lambda p: viqa.MAD(data_range=255).score(*p, block_size=8, scales_num=1, weights=[1], orientations_num=1)
want = [score(p) for p in pairs]
bad = []
def work(n):
    for _ in range(60):
        if score(pairs[n]) != want[n]:
            bad.append(n)
ts = [threading.Thread(target=work, args=(n,)) for n in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad
''')

bug("c19-same-size-other-shape", "C19",
    [(L, "    if img_r.shape != img_m.shape:\n        img_m = ski", "    if img_r.size != img_m.size:\n        img_m = ski")],
    "images of different shape with the same number of pixels",
    "the modified image is not resized", '''
rng = np.random.default_rng(0)
a, b = rng.random((20, 30)), rng.random((30, 20))
m = viqa.MultipleMetrics([viqa.RMSE()], [{}])
from skimage.transform import resize
want = np.sqrt(np.mean((a - resize(b, a.shape, preserve_range=True, order=1)) ** 2))
assert abs(m.calculate(a, b)["RMSE"] - want) < 1e-9
''')

bug("c20-same-name-other-folder", "C20",
    [(MU, "            if modified_path != prev_mod_path:",
      "            if prev_mod_path is None or not modified_path.endswith(\n                os.path.basename(prev_mod_path)\n            ):")],
    "consecutive rows whose modified images have the same name in different folders",
    "the modified image of the previous row is used", '''
from PIL import Image
rng = np.random.default_rng(0)
for d in ("a", "b"):
    os.makedirs(os.path.join(tmp, d))
imgs = {n: rng.integers(0, 256, (16, 16), dtype=np.uint8) for n in ("ref.png", "a/m.png", "b/m.png")}
for n, i in imgs.items():
    Image.fromarray(i).save(os.path.join(tmp, n))
p = os.path.join(tmp, "pairs.csv")
open(p, "w").write("reference_image,modified_image\\nref.png,a/m.png\\nref.png,b/m.png\\n")
res = viqa.BatchMetrics(tmp, p, [viqa.RMSE()], [{}]).calculate()
for k, n in (("0", "a/m.png"), ("1", "b/m.png")):
    want = viqa.RMSE().score(imgs["ref.png"], imgs[n])
    assert abs(res[k]["RMSE"] - want) < 1e-9, (k, res)
''')

bug("c21-row-order", "C21",
    [(MU, "            for pair_num, results in self.results.items():", "            for pair_num, results in sorted(self.results.items()):"),],
    "a batch of more than ten pairs",
    "the rows of the table are in text order (0, 1, 10, 2 ...) instead of pair order", '''
import csv
from PIL import Image
rng = np.random.default_rng(0)
rows = ["reference_image,modified_image"]
for n in range(12):
    for k in "rm":
        Image.fromarray(rng.integers(0, 256, (9, 9), dtype=np.uint8)).save(os.path.join(tmp, f"{k}{n}.png"))
    rows.append(f"r{n}.png,m{n}.png")
p = os.path.join(tmp, "pairs.csv")
open(p, "w").write("\\n".join(rows) + "\\n")
b = viqa.BatchMetrics(tmp, p, [viqa.RMSE()], [{}])
b.calculate()
b.export_results(tmp, "out.csv")
got = list(csv.reader(open(os.path.join(tmp, "out.csv"))))[1:]
assert [r[0] for r in got] == [str(n) for n in range(12)], [r[0] for r in got]
''')

bug("c22-type-kind", "C22",
    [(L, "        if img_r_loaded.dtype != img_m_loaded.dtype:", "        if img_r_loaded.dtype.kind != img_m_loaded.dtype.kind:")],
    "integer images of different width",
    "the pair is scored instead of refused", '''
a = np.zeros((16, 16), np.uint8); b = np.ones((16, 16), np.uint16)
try:
    viqa.RMSE().score(a, b)
except ValueError:
    pass
else:
    sys.exit("accepted")
''')

bug("c23-out-plain", "C23",
    [(L, "            (result.view(ImageArray) if output is None else output)", "            result.view(ImageArray)")],
    "a ufunc with an output array",
    "the output array is not returned; a plain output array turns into an image array", '''
a = viqa.ImageArray(np.arange(6.0).reshape(2, 3))
out = np.zeros((2, 3))
assert np.add(a, 1, out=out) is out
b = a
b += 1
assert b is a
''')

bug("c24-gabor-odd", "C24",
    [(MI, "            range_ = np.linspace(-cols_rows / 2, cols_rows / 2, cols_rows) / (",
      "            range_ = np.linspace(-cols_rows / 2, cols_rows / 2 - 1, cols_rows) / (")],
    "an image with an odd number of rows or columns",
    "the frequency grid is not symmetric, so the filters are shifted", '''
from viqa.utils import gabor_convolve
imp = np.zeros((21, 21))
imp[0, 0] = 1
t = np.fft.ifftshift(np.fft.fft2(gabor_convolve(imp, 2, 2)[0, 0])).real
# orientation 0: the transfer function is symmetric about the row of zero vertical frequency
# (but for the one coefficient that is set to zero)
wrong = ~np.isclose(t, t[::-1], atol=1e-9)
assert wrong.sum() <= 2, wrong.sum()
''')

bug("c25-missing-text", "C25",
    [(EX, "    cols = ((num_full_reference - 1) // 4) + 1  # 4 metrics per column", "    cols = max(1, num_full_reference // 4)")],
    "a comparison figure with five to seven full-reference results",
    "the results beyond the fourth are not shown", '''
import matplotlib.pyplot as plt
rng = np.random.default_rng(0)
a = rng.random((20, 20))
from viqa.utils import export_image
export_image({f"M{n}": float(n) for n in range(6)}, a, a, file_path=tmp, show_image=False)
texts = [t.get_text() for f in map(plt.figure, plt.get_fignums()) for t in f.texts]
assert all(f"M{n}: {n:.2f}" in texts for n in range(6)), texts
''')

bug("c26-last-projection", "C26",
    [("src/scripts/reduce_projections.py", "    projections_reduced = slices[::reducing_factor]",
      "    count = len(slices) // reducing_factor\n    projections_reduced = slices[: count * reducing_factor : reducing_factor]")],
    "a number of projections that is no multiple of the factor",
    "the last projection is lost", '''
import subprocess
v = np.arange(2 * 3 * 7, dtype=np.uint8).reshape(7, 3, 2)
v.tofile(os.path.join(tmp, "in.raw"))
out = os.path.join(tmp, "o", "out.raw")
subprocess.run([sys.executable, "src/scripts/reduce_projections.py", os.path.join(tmp, "in.raw"), out, "2", "3", "7", "8bit", "3"], check=True)
assert open(out, "rb").read() == v[::3].tobytes()
''')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py")).read()) \
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py")) else None

HEAD = '''"""Exits 0 if the property holds."""
import os
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter("ignore")
import numpy as np
import viqa

np.seterr(all="ignore")
tmp = tempfile.mkdtemp()


def main():
'''
TAIL = '''

try:
    main()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
'''
SH = '''#!/bin/bash
# Run in /repo after a build. Exit 0: the property holds.
D=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 TQDM_DISABLE=1
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def main():
    root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded"))
    only = set(sys.argv[1:])
    work = tempfile.mkdtemp()
    subprocess.run(["git", "clone", "-q", "/repo", work + "/r"], check=True)
    r = work + "/r"
    for b in B:
        if only and b["id"] not in only or not b["demo"].strip():
            continue
        for f, old, new in b["edits"]:
            s = open(f"{r}/{f}").read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times:", old[:60])
                break
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        else:
            d = os.path.join(root, b["id"])
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(["git", "-C", r, "diff"], check=True, capture_output=True, text=True).stdout
            open(d + "/patch.diff", "w").write(diff)
            body = b["demo"].strip("\n")
            imports = [l for l in body.split("\n") if l.startswith("from viqa.kernels import *")]
            body = "\n".join("    " + l if l else l for l in body.split("\n") if l not in imports)
            head = HEAD.replace("import viqa\n", "import viqa\n" + "\n".join(imports) + ("\n" if imports else ""))
            open(d + "/demo.py", "w").write(head + body + "\n" + TAIL)
            open(d + "/demo.sh", "w").write(SH)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
    shutil.rmtree(work)


main()
