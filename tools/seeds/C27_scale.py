property = 'C27'
needs = 'a transform that turns the image by a large angle'
what_it_breaks = 'the pixel scale and the reach handed to the program ignore the off-diagonal part of the Jacobian'
edits = [('py/desimeter/spotmatch.py', '    return np.sqrt(np.abs(np.linalg.det(J))) # mm per pixel\n', '    return np.sqrt(np.abs(J[0,0]*J[1,1])) # mm per pixel\n')]
demo = 'import os, sys, tempfile, stat, json, numpy as np\nd = tempfile.mkdtemp()\nos.makedirs(d + "/bin")\nPROG = """#!/opt/venv/bin/python\nimport sys, os, shutil\na = sys.argv\nd = os.environ["FAKE_DIR"]\nopen(d + "/runs", "a").write("x")\nif os.environ.get("FAKE_OLD") and "-positioner_reach" in a:\n    print("unexpected command-line argument [ -positioner_reach ]")\n    sys.exit(3)\no = {a[i]: a[i + 1] for i in range(1, len(a) - 1)}\nfor k in ("target_pos_file", "fiducial_config_file", "measured_pos_file", "reference_pos_file", "device_centers_file"):\n    shutil.copy(o["-" + k], d + "/" + k)\nopen(d + "/command", "w").write(" ".join(a))\nL = [l.split() for l in open(o["-measured_pos_file"])]\nopen(o["-reduced_pos_file"], "w").write("".join("%d %s %s 12.0 4 0.1 positioner\\\\n" % (-int(l[3]), l[0], l[1]) for l in L))\n"""\nopen(d + "/bin/match_positions", "w").write(PROG)\nos.chmod(d + "/bin/match_positions", 0o755)\nos.environ["PATH"] = d + "/bin:" + os.environ["PATH"]\nos.environ["FAKE_DIR"] = d\ntempfile.tempdir = d\nimport atexit, shutil\natexit.register(lambda: shutil.rmtree(d, ignore_errors=True))\nimport desimeter.spotmatch as sm\nfrom desimeter.transform.fvc2fp import FVC2FP\nfrom desimeter.io import fvc2fp_filename, load_metrology\n\n# a camera turned by 90 degrees\nclass Turned:\n    def fvc2fp(self, x, y): return -0.07 * (np.asarray(y) - 3000.), 0.07 * (np.asarray(x) - 3000.)\n    def fp2fvc(self, x, y): return np.asarray(y) / 0.07 + 3000., -np.asarray(x) / 0.07 + 3000.\nsm.spotmatch(np.array([10., 20.]), np.array([3., 4.]), fvc2fp=Turned())\no = open(d + "/command").read().split()\nscale = float(o[o.index("-exp_pixel_scale") + 1])\nreach = float(o[o.index("-positioner_reach") + 1])\nassert abs(scale - 0.07) < 1e-6, scale\nassert abs(reach - 6.6 / 0.07) < 1e-2, reach\n'
