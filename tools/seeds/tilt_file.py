PROPERTY = 'P27'
NEEDS = "spin plots of the secondary component, saved in the directory that holds the primary's"
BREAKS = "the secondary's tilt plot is written to the primary's file, replacing it"
EDITS = [
    ('postprocess/plot.py', '        plt.savefig(result_dir + f"/cos_tilt{comp}_pdf_{label}.png", dpi=100)', '        plt.savefig(result_dir + f"/cos_tilt1_pdf_{label}.png", dpi=100)'),
]
DEMO = '''
import os, sys, tempfile
import numpy as np
from gwinferno.postprocess.plot import plot_spin_pdfs
x = np.linspace(0.01, 1, 20)
c = np.linspace(-1, 1, 20)
p = [np.ones((5, 20))]
with tempfile.TemporaryDirectory() as d:
    plot_spin_pdfs(p, p, x, c, ["a"], "lab", d)
    plot_spin_pdfs(p, p, x, c, ["a"], "lab", d, secondary=True)
    n = sorted(os.listdir(d))
print(n)
sys.exit(0 if len(n) == 4 else 1)
'''
