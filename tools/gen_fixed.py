"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (findings are edited by hand)."""
import json, os, re, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = [("adjacency_matrix", "C02"), ("edges/faces", "C01"), ("cut_edges", "C05"), ("array_correspondence", "C04"), ("remove_unreferenced", "C04"), ("subdivide", "C06"),
        ("dec_h0inv", "C07"), ("tip_angles", "C09"), ("linear_elasticity", "C10"), ("quadtree_boundary", "C12"),
        ("bad_quad_mesh", "C12"), ("traverse_aabbtree", "C14"), ("initialize_aabbtree", "C14"), ("squared_distance_to_element", "C15"),
        ("triangle_triangle", "C16"), ("ray_", "C17"), ("signed_distance", "C18"), ("winding", "C18"), ("marching_squares", "C19"),
        ("fd_", "C20"), ("grid_laplacian", "C20"), ("matrix_from_function", "C20"), ("grid_neighbors", "C21"), ("regular_circle", "C22"),
        ("regular_", "C21"), ("icosphere", "C22"), ("cone", "C22"), ("cylinder", "C22"), ("torus", "C22"), ("min_quad", "C23"),
        ("fixed_dof", "C23"), ("min_l1", "C24"), ("read_mesh", "C25"), ("write_mesh", "C25"), ("read_dmat", "C26"),
        ("particle_swarm", "C27"), ("metropolis", "C27"), ("random_points", "C28"), ("compactly", "C29"), ("squared_exponential", "C29"),
        ("gaussian_process", "C29"), ("catmull", "C30"), ("rotation_matrix", "C30"), ("normalize_points", "C30"), ("apply_colormap", "C30"),
        ("colormap", "C30"), ("linear_blend", "C30"),
        ("swept_volume", "C33"), ("mesh_boolean", "C33"), ("squared_distance", "C33"), ("stochastic", "C34"), ("reach_for_the_spheres", "C35"), ("png2poly", "C37"), ("rng", "C38"), ("docstrings", "C38")]
EXTRA = {}
p = os.path.join(ROOT, "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else dict(findings=[], fixed=[])
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    pr = next((c for k, c in PROP if s.startswith(k)), None)
    assert pr, s
    out.append(f"fixed: property={pr} {h} {s}")
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
print(len(out), "fixed,", len(d["findings"]), "findings")
