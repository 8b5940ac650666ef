property = 'C27'
needs = 'a call with a transform that differs from the default one'
what_it_breaks = 'expected targets are written at the pixel positions of the default transform'
edits = [('py/desimeter/spotmatch.py', '    _write_spotmatch_targets_file(expected_x_fp,expected_y_fp,expected_location,targets_filename,fvc2fp)\n', '    _write_spotmatch_targets_file(expected_x_fp,expected_y_fp,expected_location,targets_filename)\n')]
demo = 'import os, sys, tempfile, stat, json, numpy as np\nd = tempfile.mkdtemp()\nos.makedirs(d + "/bin")\nPROG = """#!/opt/venv/bin/python\nimport sys, os, shutil\na = sys.argv\nd = os.environ["FAKE_DIR"]\nopen(d + "/runs", "a").write("x")\nif os.environ.get("FAKE_OLD") and "-positioner_reach" in a:\n    print("unexpected command-line argument [ -positioner_reach ]")\n    sys.exit(3)\no = {a[i]: a[i + 1] for i in range(1, len(a) - 1)}\nfor k in ("target_pos_file", "fiducial_config_file", "measured_pos_file", "reference_pos_file", "device_centers_file"):\n    shutil.copy(o["-" + k], d + "/" + k)\nopen(d + "/command", "w").write(" ".join(a))\nL = [l.split() for l in open(o["-measured_pos_file"])]\nopen(o["-reduced_pos_file"], "w").write("".join("%d %s %s 12.0 4 0.1 positioner\\\\n" % (-int(l[3]), l[0], l[1]) for l in L))\n"""\nopen(d + "/bin/match_positions", "w").write(PROG)\nos.chmod(d + "/bin/match_positions", 0o755)\nos.environ["PATH"] = d + "/bin:" + os.environ["PATH"]\nos.environ["FAKE_DIR"] = d\ntempfile.tempdir = d\nimport atexit, shutil\natexit.register(lambda: shutil.rmtree(d, ignore_errors=True))\nimport desimeter.spotmatch as sm\nfrom desimeter.transform.fvc2fp import FVC2FP\nfrom desimeter.io import fvc2fp_filename, load_metrology\n\nt = FVC2FP.read(fvc2fp_filename())\nclass Shifted:\n    def fvc2fp(self, x, y): return t.fvc2fp(np.asarray(x) - 5., y)\n    def fp2fvc(self, x, y):\n        a, b = t.fp2fvc(x, y)\n        return a + 5., b\nm = load_metrology()\nm = m[m["DEVICE_TYPE"] == "POS"][:20]\nsm.spotmatch(np.array([10., 20.]), np.array([3., 4.]), m["X_FP"], m["Y_FP"], m["LOCATION"], fvc2fp=Shifted())\nx, y = Shifted().fp2fvc(np.array(m["X_FP"]), np.array(m["Y_FP"]))\nL = {int(l.split()[0]): l.split() for l in open(d + "/target_pos_file")}\nfor i in range(20):\n    w = L[int(m["LOCATION"][i])]\n    assert abs(float(w[1]) - x[i]) < 2e-3 and abs(float(w[2]) - y[i]) < 2e-3 and w[-1] == "4", w\n'
