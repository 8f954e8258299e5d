"""Writes known_findings.json from the fix commits of /repo and the findings below."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property of each repair, by the subject of its commit
PROPERTY = {
    "plot constant spectrograms": "C27", "exponential window with steep": "C12", "multiresolution of complete": "C23",
    "evaluate the Held, Papadakis and Simoncelli": "C14", "refuse negative wave propagation": "C12", "refuse a wrong number of scales": "C12",
    "stop the Lanczos iterations early": "C10",
    "don't record a method of estimating lmax": "C07", "forget the method of estimating lmax": "C08", "leave the graph untouched when asked for an unknown Laplacian": "C08",
    "symmetrize boolean and small integer": "C03", "estimate lmax of graphs without edges": "C07", "no negative eigenvalues for disconnected": "C05", "estimate lmax of a graph of one vertex": "C07",
    "compute the differential operator in double": "C04", "partial Fourier basis of graphs without edges": "C05", "frame of a filter bank with as many filters": "C09", "Chebyshev filtering on graphs without edges": "C09",
    "don't modify the bounds passed": "C10", "lanczos_op": "C10", "Jackson-Chebyshev coefficients": "C10", "number of nested sines": "C12", "accept arrays of scales in SimpleTight": "C12", "one wave kernel per time": "C12",
    "evaluate inverse filter banks": "C13", "reject stacks of signals": "C14", "join the dimensions": "C15", "don't break the signals": "C15", "default labels of GEXF": "C15", "line graphs of graphs": "C17",
    "symmetrize integer matrices in LIL": "C18", "distances between points of small": "C18", "resistance distances from the inverse": "C18", "don't lose negative weights": "C18", "resistance distances of graphs with large self-loops": "C29",
    "plotting options of the star": "C19", "the low stretch tree is": "C19", "edges between opposite vertices": "C19", "grids of a single row": "C19",
    "don't modify nor truncate with the q": "C28", "stochastic block model with a given matrix": "C20", "restart the construction": "C20", "iterations of the construction": "C20", "don't sort the angles": "C28",
    "intra-community edges": "C20", "number of vertices on the perturbed grid": "C20", "community graphs with empty": "C20", "edge length of the cube": "C20", "radius of the sphere": "C20", "number of points of the cube": "C20", "empty communities with k_neigh": "C20",
    "don't rescale the points": "C28", "radius graphs of less points": "C21", "no self-loops in nearest": "C21", "distances returned by FLANN": "C21", "constrained regression of integers": "C22",
    "Kron reduction onto a single": "C23", "Kron reduction of graphs without": "C23", "Kron reductions of undirected": "C23", "only remove the diagonal": "C23", "graph sparsification, which": "C23", "degrees in the Laplacian of a sparsified": "C23", "sparsification of graphs with self-loops": "C23",
    "accept an accuracy of 1": "C23", "don't modify the Fourier basis of the graphs": "C23", "multiresolution down to": "C23", "sparsify graphs of small weights": "C23", "draw at least one edge": "C23",
    "interpolate on graphs": "C24", "pyramid of a one-dimensional": "C24", "predict with the same order": "C24", "choice of the regularization": "C24", "raise on inadmissible pyramids": "C24", "least squares synthesis": "C24",
    "average adjacency degree": "C25", "Tig of each filter": "C25", "coordinates of a graph of one vertex": "C26", "community layout": "C26", "scale of the spring layout": "C26", "don't share the Fourier basis as": "C26", "size of the domain of the spring": "C26", "total variation proximal": "C30",
    "plot of the spectrogram": "C27", "colors of signals plotted with": "C27", "highlight vertices": "C27", "plot signals on a single vertex": "C27", "include the values of the signal": "C27", "keep the Qt application": "C27", "drop a stray assignment": "C27", "plot several signals on": "C27",
    "don't corrupt the sparse matrix": "C28", "overflow the bound on the spectrum": "C07", "modulation of a previous Laplacian": "C14", "modulation on graphs of one vertex": "C14",
    "exact filtering after the computation of a partial": "C09", "normalize heat kernels over": "C12", "modulate by all eigenvectors": "C14", "modulation by the eigenvectors of repeated": "C14", "translate Gabor kernels to all": "C14", "downsample by the largest": "C23",
    "partial Fourier basis of graphs with large": "C05", "reject impossible numbers of eigenvectors": "C05", "partial Fourier basis of graphs with repeated": "C05",
}

KNOWN = [
    {"id": "C05-large-repeated", "property": "C05", "case": {"blocks": [["star", 1], ["star", 1], ["star", 1000]], "k": 2},
     "what": "compute_fourier_basis(2) on a star of 1000 vertices and two isolated vertices gives the eigenvalues 0, 1 instead of 0, 0: above 1000 vertices, ARPACK may miss copies of repeated eigenvalues"},
    {"id": "C15-single-column", "property": "C15", "case": {"columns": 1},
     "what": "a signal of shape (N, 1), exported as the attribute x_0, is imported as a one-dimensional signal named x_0 (to_networkx/from_networkx and files)"},
    {"id": "C23-tree-multiresolution", "property": "C23", "case": {"n": 5},
     "what": "tree_multiresolution(Path(5), 1) raises: the function is unfinished (undefined names, five TODO in reduction.py) and fails for every tree"},
]

log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], text=True).splitlines()
fixed, used = [], set()
for line in log:
    commit, subject = line.split(" ", 1)
    subject = subject[len("fix: "):]
    keys = [k for k in PROPERTY if k in subject]
    if len(keys) != 1:
        raise SystemExit(f"{len(keys)} properties for {line}: {keys}")
    used.add(keys[0])
    fixed.append(f"fixed: property={PROPERTY[keys[0]]} {commit} {subject}")
if set(PROPERTY) - used:
    raise SystemExit(f"no commit for {set(PROPERTY) - used}")
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"known": KNOWN, "fixed": fixed}, f, indent=1)
    f.write("\n")
print(len(fixed), "fixed,", len(KNOWN), "known")
